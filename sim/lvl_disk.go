//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
)

// Level D: creating and replacing a drive configuration on the simulated disk.

func init() {
	reg := func(name string, faults bool) {
		register(&Scenario{Name: name, Gen: func(r *Rand, p *Plan) {
			n := r.Range(1, 3)
			for i := 0; i < n; i++ {
				k := r.PickS("passwd", "passwd", "passwd", "create", "race")
				if i == 0 && r.P(50) {
					k = "create"
				}
				p.Ops = append(p.Ops, Op{K: k, A: r.N(1 << 20), B: r.N(1 << 20)})
			}
			p.Par["old"] = r.Pick(0, 1, 1, 2)
			p.Par["crashes"] = r.Pick(2, 4, 8)
			p.Sched = genSched(r, false)
			if faults {
				switch r.N(3) {
				case 0: // one call fails
					p.Par["fail_at"] = 1 + r.N(14)
				case 1:
					p.Faults["disk-error"] = r.Pick(30000, 100000, 300000)
				case 2:
					p.Par["fail_at"] = 1 + r.N(14)
					p.Faults["disk-short"] = 200000
				}
				p.Par["fail_kind"] = r.N(1000)
			} else if r.P(50) {
				p.Faults["disk-short"] = 200000
			}
		}, Run: runDisk})
	}
	reg("D/crash", false)
	reg("D/errs", true)
}

type diskEnv struct {
	e     *Env
	d     *simDisk
	dir   string
	conf  string
	prev  []byte // complete configuration in place, or nil
	pass  []byte // its passphrase
	key   []byte // its master key
	cache map[string][]byte
	err   *os.File
}

func runDisk(e *Env) {
	dir, err := os.MkdirTemp("", "disk")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	x := &diskEnv{e: e, err: os.Stderr, dir: dir, conf: filepath.Join(dir, "gocryptfs.conf"), cache: map[string][]byte{}}
	os.Stderr, os.Stdout = null, null
	x.d = newSimDisk(e, dir, "/dev/random")
	os.SimExit = func(code int) { panic(fmt.Sprintf("exit %d", code)) }
	calls := 0
	x.d.faulty = func(op, path string) int {
		if e.quiet {
			return 0
		}
		if path == "/dev/random" && op != "read" && op != "open" {
			return 0
		}
		calls++
		if calls == e.par("fail_at") {
			return 1000 + e.par("fail_kind")
		}
		if e.chance("disk-error", kEnv) {
			return 1000 + e.pick(100, kEnv)
		}
		if (op == "write" || op == "read") && e.chance("disk-short", kEnv) {
			return -(1 + e.pick(600, kEnv))
		}
		return 0
	}
	if e.par("old") > 0 {
		x.pass = e.rng.Bytes(e.rng.Range(1, 20))
		x.key = e.rng.Bytes(32)
		f := refFormat{HKDF: e.par("old") == 1, LongNames: true, Raw64: true}
		c := makeConf(x.key, x.pass, f, e.rng)
		x.prev = c.json()
		if err := os.WriteFile(x.conf, x.prev, 0o400); err != nil {
			panic("harness: " + err.Error())
		}
	}
	for i, op := range e.plan.Ops {
		x.do(i, op)
	}
	e.stopFaults()
	// Once the disk works again so does a write.
	x.do(len(e.plan.Ops), Op{K: "passwd", A: 77})
}

// protect turns a panic or an exit of the code under test into an error.
func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("stopped: %v", r)
		}
	}()
	if err = f(); err != nil {
		err = errors.New(strings.ReplaceAll(err.Error(), os.TempDir(), ""))
	}
	return err
}

func (x *diskEnv) do(i int, op Op) {
	e := x.e
	if len(e.res.Violations) > 0 {
		return
	}
	// The operator removes what an earlier failure left.
	ents, _ := os.ReadDir(x.dir)
	for _, f := range ents {
		if p := filepath.Join(x.dir, f.Name()); p != x.conf {
			_ = os.Remove(p)
		}
	}
	r := &Rand{s: uint64(op.A)*7919 + uint64(i)}
	pass := []byte(fmt.Sprintf("n3w-pa55 %d %d", i, op.A))
	base := x.d.snapshot()
	quiet := e.quiet
	type out struct {
		pass []byte
		err  error
		seq  uint64
	}
	var outs []*out
	id := e.begin(fmt.Sprintf("%s %d", op.K, i))
	var mu sync.Mutex
	fin := func(pw []byte, err error) {
		mu.Lock()
		e.seq++
		outs = append(outs, &out{pw, err, e.seq})
		mu.Unlock()
	}
	create := func(pw []byte) error {
		return protect(func() error {
			return configfile.Create(x.conf, pw, r.P(15), 10, "sim", r.P(30), r.P(40), nil)
		})
	}
	passwd := func(pw []byte) error {
		return protect(func() error {
			key, cf, err := configfile.LoadAndDecrypt(x.conf, x.pass)
			if err != nil {
				return err
			}
			if !bytes.Equal(key, x.key) {
				return fmt.Errorf("unlocked another key")
			}
			cf.EncryptKey(key, pw, 10)
			return cf.WriteFile()
		})
	}
	k := op.K
	if x.prev == nil && k != "race" {
		k = "create"
	}
	w := newWatch(e)
	w.inner = x.d
	w.secret("the passphrase", pass, false)
	w.secret("the passphrase", x.pass, false)
	if x.key != nil {
		w.secret("the master key", x.key[:16], false)
	}
	w.on()
	switch k {
	case "create":
		fin(pass, create(pass))
	case "passwd":
		fin(pass, passwd(pass))
	case "race":
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			pw := append(append([]byte{}, pass...), byte('a'+g))
			wg.Add(1)
			go func() {
				defer wg.Done()
				if x.prev == nil {
					fin(pw, create(pw))
				} else {
					fin(pw, passwd(pw))
				}
			}()
		}
		wg.Wait()
	}
	w.off()
	e.end(id)
	log := x.d.log
	var passes [][]byte
	ok := 0
	for _, o := range outs {
		passes = append(passes, o.pass)
		e.note("%s %v", op.K, o.err != nil)
		w.told(o.err)
		if os.Getenv("SIM_DEBUG") != "" {
			fmt.Fprintf(x.err, "%s %q -> %v (%d calls)\n", op.K, o.pass, o.err, len(log))
		}
		if o.err == nil {
			ok++
			e.probe("write-ok")
		} else {
			e.probe("write-error")
			if quiet {
				e.violate("C18", "spurious-error", "%s fails with a working disk: %v", op.K, o.err)
			}
		}
	}
	now, rerr := os.ReadFile(x.conf)
	if rerr != nil {
		now = nil
	}
	keepKey := x.key
	if k == "create" || x.prev == nil {
		keepKey = nil
	}
	switch {
	case ok == 0:
		if !bytes.Equal(now, x.prev) || (now == nil) != (x.prev == nil) {
			e.violate("C18", "error-lost", "%s reported an error (%v) but the previous configuration is not in place: %s", op.K, outs[0].err, diffBytes(now, x.prev))
		}
	default:
		good := false
		for _, o := range outs {
			if o.err == nil && x.complete(now, o.pass, keepKey) != nil {
				good = true
			}
		}
		if !good {
			e.violate("C18", "success-lost", "%s reported success but the new configuration is not in place: %d bytes", op.K, len(now))
		}
	}
	// every crash point
	for c := 0; c <= len(log); c++ {
		for v := 0; v < e.par("crashes"); v++ {
			im := x.d.crash(base, c, r)
			e.fault("crash-state")
			ino, there := im.names[x.conf]
			var b []byte
			if there {
				b = im.data[ino]
			}
			if bytes.Equal(b, x.prev) && there == (x.prev != nil) {
				continue
			}
			good := false
			if there {
				for _, pw := range passes {
					if x.complete(b, pw, keepKey) != nil {
						good = true
					}
				}
			}
			if !good {
				e.violate("C18", "crash", "after a crash following %s of %s the configuration is neither the previous nor a new one: present %v, %d bytes (previous %d), valid JSON %v", describe(log, c, x.dir), op.K, there, len(b), len(x.prev), json.Valid(b))
				return
			}
			e.probe("crash-new")
		}
	}
	// go on from what is there
	if ok > 0 {
		for _, o := range outs {
			if o.err == nil {
				if m := x.complete(now, o.pass, keepKey); m != nil {
					x.prev, x.pass, x.key = now, o.pass, m
					w.late("the master key", m[:16])
					w.late("the master key (end)", m[16:])
					// and the code itself agrees
					var key []byte
					if err := protect(func() (err error) { key, _, err = configfile.LoadAndDecrypt(x.conf, o.pass); return }); err != nil || !bytes.Equal(key, m) {
						e.violate("C18", "reload", "the new configuration cannot be unlocked: %v", err)
					}
					return
				}
			}
		}
	}
}

func describe(log []dop, k int, dir string) string {
	if k == 0 {
		return "no file operation"
	}
	o := log[k-1]
	s := o.kind
	if o.name != "" {
		s += " " + filepath.Base(o.name)
	}
	return fmt.Sprintf("file operation %d (%s)", k, s)
}

// complete returns the master key when b is a whole configuration that pass
// unlocks.
func (x *diskEnv) complete(b, pass, want []byte) []byte {
	ck := string(b) + "\x00" + string(pass)
	m, ok := x.cache[ck]
	if !ok {
		var c refConf
		if json.Unmarshal(b, &c) == nil && c.ScryptObject.N == 1024 && c.Version == 2 && len(c.FeatureFlags) >= 3 {
			m = c.unlock(pass)
		}
		if len(m) != 32 {
			m = nil
		}
		x.cache[ck] = m
	}
	if m == nil || want != nil && !bytes.Equal(m, want) {
		return nil
	}
	return m
}

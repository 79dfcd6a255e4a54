//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path"
	"time"

	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"
)

// Level F: the real request handlers, file tree, path cache, request layer and
// crypto, over a simulated remote store.

// ---- direct view (level F)

type directView struct {
	e *Env
	t *vtree
	h sftp.Handlers
}

func (d directView) read(p string, op Op) ([]byte, func() error, error) {
	r, err := d.h.FileGet.Fileread(sftp.NewRequest("Get", p))
	if err != nil {
		return nil, nil, err
	}
	if r == nil {
		return nil, nil, fmt.Errorf("no reader")
	}
	chunk := []int{32768, 4096, 1000, 32768, 100000, 65536}[op.B%6]
	get := func() ([]byte, error) {
		var out []byte
		buf := make([]byte, chunk)
		for len(out) < 1<<27 {
			n, err := r.ReadAt(buf, int64(len(out)))
			out = append(out, buf[:n]...)
			if err == io.EOF || n == 0 && err == nil {
				return out, nil
			}
			if err != nil {
				return nil, err
			}
		}
		return nil, fmt.Errorf("endless file")
	}
	out, err := get()
	if err != nil {
		return nil, nil, err
	}
	if op.B%4 == 0 {
		d.together(r, p, out, chunk, 2+op.A%3)
	}
	// ranges, in any order
	rr := &Rand{s: uint64(op.A)*31 + uint64(op.B)}
	for i := 0; i < 3; i++ {
		off, n := rr.N(len(out)+10), rr.N(9000)
		buf := make([]byte, n)
		m, err := r.ReadAt(buf, int64(off))
		want := []byte{}
		if off < len(out) {
			want = out[off:]
			if len(want) > n {
				want = want[:n]
			}
		}
		if !bytes.Equal(buf[:m], want) || (err != nil && err != io.EOF) {
			d.e.violate("C01", "range", "read of %d bytes at %d of %q: got %d bytes, err %v, want %d bytes", n, off, shortPath(p), m, err, len(want))
		}
	}
	cp := append([]byte{}, out...)
	return out, func() error {
		again, err := get()
		if err != nil {
			return err
		}
		if !bytes.Equal(again, cp) {
			return fmt.Errorf("reading it again through the same handle: %s", diffBytes(again, cp))
		}
		return nil
	}, nil
}

// together has several goroutines read through one handle, each from the start,
// as the SFTP server's workers do.
func (d directView) together(r io.ReaderAt, p string, want []byte, chunk, n int) {
	done := make(chan string, n)
	for i := 0; i < n; i++ {
		go func() {
			buf := make([]byte, chunk)
			for off, k := 0, 0; off < len(want) && k < 6; k++ {
				m, err := r.ReadAt(buf, int64(off))
				exp := want[off:]
				if len(exp) > chunk {
					exp = exp[:chunk]
				}
				if !bytes.Equal(buf[:m], exp) || err != nil && err != io.EOF {
					done <- fmt.Sprintf("read of %d bytes at %d of %q, while others read: got %d bytes, err %v, want %d bytes", chunk, off, shortPath(p), m, err, len(exp))
					return
				}
				off += m
			}
			done <- ""
		}()
	}
	for i := 0; i < n; i++ {
		if msg := <-done; msg != "" {
			d.e.violate("C01", "range", "%s", msg)
		}
	}
}

func (d directView) list(p string, op Op) ([]os.FileInfo, error) {
	l, err := d.h.FileList.Filelist(sftp.NewRequest("List", p))
	if err != nil {
		return nil, err
	}
	if l == nil {
		return nil, fmt.Errorf("no lister")
	}
	n := []int{100, 100, 1, 7, 2}[op.B%5]
	var out []os.FileInfo
	for len(out) < 100000 {
		buf := make([]os.FileInfo, n)
		m, err := l.ListAt(buf, int64(len(out)))
		out = append(out, buf[:m]...)
		if err == io.EOF {
			// A ListerAt says io.EOF at the end of the list only. This version of
			// the SFTP server asks again until an empty reply all the same.
			if m == 0 || op.B/5%2 == 0 {
				return out, nil
			}
			continue
		}
		if err != nil {
			return nil, err
		}
		if m == 0 {
			return out, nil
		}
	}
	return nil, fmt.Errorf("endless listing")
}

func (d directView) stat(p string, op Op) (os.FileInfo, error) {
	l, err := d.h.FileList.Filelist(sftp.NewRequest("Stat", p))
	if err != nil {
		return nil, err
	}
	if l == nil {
		return nil, fmt.Errorf("no lister")
	}
	buf := make([]os.FileInfo, 1)
	m, err := l.ListAt(buf, 0)
	if err != nil && err != io.EOF {
		return nil, err
	}
	if m == 0 {
		return nil, os.ErrNotExist
	}
	return buf[0], nil
}

func (d directView) readlink(p string) error {
	_, err := d.h.FileList.Filelist(sftp.NewRequest("Readlink", p))
	return err
}

func (d directView) mutation(p string, op Op) (string, error) {
	ms := []string{"Put", "Setstat", "Rename", "Rmdir", "Remove", "Mkdir", "Symlink"}
	m := ms[op.B%len(ms)]
	r := sftp.NewRequest(m, p)
	if op.B/7%2 == 1 {
		r = sftp.NewRequest(m, p+"-new")
	}
	r.Target = d.t.mutTarget(p, op)
	r.Flags = uint32(op.B)
	if m == "Put" {
		w, err := d.h.FilePut.Filewrite(r)
		if err == nil && w != nil {
			_, err = w.WriteAt([]byte("x"), 0)
		}
		return m, err
	}
	return m, d.h.FileCmd.Filecmd(r)
}

func genF(kinds []string, faults func(r *Rand, p *Plan)) func(r *Rand, p *Plan) {
	return func(r *Rand, p *Plan) {
		genTreePars(r, p)
		genTreeOps(r, p, kinds...)
		p.Sched = genSched(r, false)
		faults(r, p)
	}
}

func init() {
	reg := func(name string, kinds []string, f func(r *Rand, p *Plan)) {
		register(&Scenario{Name: name, Gen: genF(kinds, f), Run: runF})
	}
	reg("F/clean", mixed, func(r *Rand, p *Plan) {
		if r.N(300) == 0 {
			p.Par["t_wide"] = r.Pick(2001, 2049, 4097, 5003, 8193)
			p.Par["t_files"], p.Par["t_dirs"] = r.Range(0, 2), r.Range(0, 1)
			if len(p.Ops) > 10 {
				p.Ops = p.Ops[:10]
			}
			return
		}
		if r.N(200) == 0 {
			p.Par["t_vast"] = 1
			p.Par["t_files"] = r.Range(1, 4)
			if len(p.Ops) > 15 {
				p.Ops = p.Ops[:15]
			}
		}
	})
	reg("F/errs", mixed, func(r *Rand, p *Plan) {
		p.Faults["err"] = r.Pick(5000, 50000, 150000, 400000)
		if r.P(40) {
			p.Faults["partial"] = r.Pick(20000, 100000)
		}
	})
	reg("F/slow", mixed, func(r *Rand, p *Plan) {
		p.Faults["slow"] = r.Pick(20000, 100000, 300000, 700000)
		if r.P(25) {
			p.Faults["err"] = r.Pick(5000, 50000)
		}
		p.Sched = genSched(r, true)
		p.Par["slowrun"] = 1
		if r.P(30) { // many waiting on few workers
			p.Par["workers"] = r.Pick(1, 2)
		}
	})
	reg("F/mut", append([]string{"mut", "mut", "mut", "mut"}, mixed...), func(r *Rand, p *Plan) {
		if r.P(40) {
			p.Faults["err"] = r.Pick(5000, 100000)
		}
	})
	reg("F/paths", append([]string{"miss", "miss", "miss", "cross"}, mixed...), func(r *Rand, p *Plan) {
		p.Par["t_strangers"] = 1
		p.Par["t_secret"] = 1
		if r.P(30) {
			p.Faults["err"] = r.Pick(5000, 100000)
		}
		if r.P(40) {
			p.Par["hostile"] = r.Range(1, 6)
		}
	})
	reg("F/corrupt", []string{"read", "read", "read", "list", "stat"}, func(r *Rand, p *Plan) {
		p.Par["t_files"] = r.Range(2, 7)
		p.Par["corrupt"] = r.Range(1, 6)
		if r.P(40) {
			p.Faults["damage-reply"] = r.Pick(100000, 500000)
		}
		if r.P(20) {
			p.Faults["err"] = r.Pick(5000, 100000)
		}
	})
	reg("F/hostile", mixed, func(r *Rand, p *Plan) {
		p.Par["hostile"] = r.Range(1, 12)
		p.Par["corrupt"] = r.Pick(0, 2, 5)
		if r.P(30) {
			p.Faults["err"] = r.Pick(5000, 100000)
		}
	})
}

// weird wraps a FileInfo with an impossible size.
type weird struct {
	os.FileInfo
	size int64
}

func (w weird) Size() int64 { return w.size }

var weirdSizes = []int64{-1, math.MinInt64, math.MaxInt64, 1 << 40, 17, 18, 19, 50}

type weirdFS struct {
	*simFS
	dirty map[string]bool
}

func (w weirdFS) ReadDir(p string) ([]os.FileInfo, error) {
	l, err := w.simFS.ReadDir(p)
	if err == nil && w.dirty["D "+path.Clean(p)] && w.simFS.e.pick(4, kRemote) == 1 {
		w.simFS.e.fault("impossible-size")
		for i := range l {
			if w.simFS.e.pick(3, kRemote) == 1 {
				l[i] = weird{l[i], weirdSizes[w.simFS.e.pick(len(weirdSizes), kRemote)]}
			}
		}
	}
	return l, err
}

func runF(e *Env) {
	spec := specFromPlan(e.plan)
	t := buildTree(e.rng, spec)
	s := newSimFS(e, t)
	dirty := map[string]bool{}
	if n := e.par("hostile"); n > 0 {
		dirty = makeHostile(e.rng, t, n)
		e.res.Faults["hostile-entries"] += n
	}
	if n := e.par("corrupt"); n > 0 && len(t.files) > 0 {
		for i := 0; i < n; i++ {
			f := t.p[t.files[e.rng.N(len(t.files))]].c
			for k := e.rng.Range(1, 2); k > 0; k-- {
				f.data = damage(e.rng, t, f, f.data)
			}
			// the stored size changes what listings show for this file
			dirty["F "+f.path] = true
			dirty["S "+f.path] = true
			f.p.anySize = true
			e.fault("damage-at-rest")
		}
	}
	if e.plan.Faults["damage-reply"] > 0 {
		s.mutate = func(c *cnode, d []byte) []byte {
			if c.p == nil || c.dir {
				return d
			}
			if e.chance("damage-reply", kRemote) {
				e.fault("damage-in-reply")
				dirty["F "+c.path] = true
				return damage(&Rand{s: uint64(e.pick(1<<30, kRemote))}, t, c, d)
			}
			return d
		}
	}
	j := &judge{e: e, t: t, s: s, dirty: dirty, slow: e.par("slowrun") != 0}
	var acc interface {
		ReadFile(string) ([]byte, error)
		Stat(string) (os.FileInfo, error)
		ReadDir(string) ([]os.FileInfo, error)
	} = s
	if e.par("hostile") > 0 {
		acc = weirdFS{s, dirty}
	}
	w := newWatch(e)
	w.drive(t)
	e.told = w.told
	w.on()
	defer w.off()
	// start-up itself is not under fault here
	e.quiet = true
	h, err := handlers.DecryptHandler(t.root, t.pass, e.par("workers"), acc)
	e.quiet = false
	if err != nil {
		e.violate("C01,C02,C03,C17", "init", "start-up failed on an intact drive (%+v): %v", t.format, err)
		return
	}
	s.oks = map[string]int{}
	v := directView{e, t, h}
	j.v = func(int) view { return v }
	j.countNames()
	e.clients(e.plan.Ops, j.do)
	// faults end here
	e.stopFaults()
	s.drain()
	if j.slow {
		// requests that timed out leave their work queued
		time.Sleep(30 * time.Second)
	}
	j.bound = 60 * time.Second
	if j.slow {
		j.prop = "C07"
	} else if s.anyFault() {
		j.prop = "C06"
	}
	j.sweep(3)
	if e.par("hostile") == 0 { // which knows several spellings of one name
		j.checkNames()
	}
	for _, f := range j.rechk {
		f()
	}
	if len(t.files) > 0 && len(j.rechk) > 0 {
		e.probe("held-handles")
	}
}

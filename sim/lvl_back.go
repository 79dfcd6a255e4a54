//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"golang.org/x/crypto/ssh"
)

// Level B: the real backend (connection pool, SSH and SFTP clients) against
// the simulated network and remote host.

const poolSize = 32

func init() {
	reg := func(name string, f func(r *Rand, p *Plan)) {
		register(&Scenario{Name: name, Gen: func(r *Rand, p *Plan) {
			p.Sched = genSched(r, false)
			p.Par["split"] = r.Pick(0, 0, 100000, 500000)
			p.Faults["split"] = p.Par["split"]
			p.Par["ooo"] = r.Pick(0, 1)
			p.Par["big"] = r.Pick(0, 0, 1, 2)
			p.Par["idle"] = r.Pick(0, 0, 0, 0, 90, 4000, 90000, 3000000, 40000000)
			f(r, p)
		}, Run: runB})
	}
	rounds := func(r *Rand, p *Plan, n, max int) {
		for i := 0; i < n; i++ {
			k := r.Pick(1, 2, 3, 5, 8)
			if max > 8 && r.P(30) {
				k = r.Pick(20, 31, 32, 33, 34, 40, max)
			}
			for c := 0; c < k; c++ {
				p.Ops = append(p.Ops, Op{C: c, K: r.PickS("read", "read", "list", "stat", "miss"), A: i, B: r.N(1000)})
				if r.P(20) {
					p.Ops = append(p.Ops, Op{C: c, K: r.PickS("read", "list", "stat"), A: i, B: r.N(1000)})
				}
			}
		}
	}
	reg("B/pool", func(r *Rand, p *Plan) {
		max := 8
		if r.P(20) {
			max = 45
			p.Par["big"] = 0
		}
		if r.P(4) { // few connections, used often
			p.Par["big"] = 0
			for i, n, k := 0, r.Range(40, 400), r.Range(1, 3); i < n; i++ {
				p.Ops = append(p.Ops, Op{C: i % k, K: r.PickS("read", "list", "stat", "miss"), B: r.N(1000)})
			}
			max = 1
		}
		rounds(r, p, r.Range(1, 4), max)
		switch r.N(3) {
		case 1:
			p.Faults["op-err"] = r.Pick(20000, 100000)
		case 2:
			p.Faults["op-err"] = r.Pick(0, 50000)
			p.Faults["sess-die"] = r.Pick(10000, 50000)
			p.Faults["sess-die-after"] = r.Pick(0, 10000)
			p.Faults["conn-rst"] = r.Pick(0, 10000)
		}
	})
	reg("B/cut", func(r *Rand, p *Plan) {
		rounds(r, p, r.Range(1, 4), 8)
		p.Par["big"] = r.Pick(0, 1, 2)
		for _, k := range []string{"cut", "cut", "sess-die", "sess-die-after", "conn-rst", "op-err", "short-read", "sess-die-init", "no-session", "no-subsystem", "dial-fail", "no-handshake", "auth-refuse"} {
			if r.P(30) {
				p.Faults[k] = r.Pick(5000, 30000, 100000)
				if k == "cut" {
					p.Faults[k] = r.Pick(200000, 500000, 900000)
				}
			}
		}
		if len(p.Faults) < 2 {
			p.Faults["cut"] = 700000
		}
	})
	reg("B/outage", func(r *Rand, p *Plan) {
		rounds(r, p, r.Range(2, 5), 8)
		p.Par["outages"] = r.Range(1, 4)
		if r.P(30) {
			p.Faults["sess-die-after"] = r.Pick(10000, 50000)
		}
		if r.P(20) {
			p.Faults["cut"] = r.Pick(100000, 300000)
		}
		if r.P(15) {
			for c := 0; c < 33; c++ {
				p.Ops = append(p.Ops, Op{C: c, K: "stat", A: 0, B: r.N(1000)})
			}
		}
		if r.P(6) { // a long outage with attempts all through it
			p.Par["storm"] = r.Range(33, 180)
			p.Par["stormkind"] = r.N(5)
		}
	})
}

type backOp struct {
	kind, path string
	start, end uint64
	err        error
}

type backRun struct {
	e   *Env
	n   *simNet
	d   *sftpd
	t   *vtree
	p   *backend.Provider
	ops []*backOp
	nf  int
}

const sharedDir = "/r/statdir"

// object makes a fresh remote object for one operation.
func (b *backRun) object(kind string, r *Rand) string {
	b.nf++
	p := fmt.Sprintf("/r/%s%d", kind, b.nf)
	switch kind {
	case "miss":
		return p
	case "stat":
		// some in directories that are asked for themselves as well
		if d := fmt.Sprintf("%s%d", sharedDir, b.nf%3); r.P(30) {
			if b.t.c[d] == nil {
				b.t.c[d] = &cnode{name: path.Base(d), path: d, dir: true, mode: 0o755}
			}
			if r.P(50) {
				return d
			}
			p = fmt.Sprintf("%s/stat%d", d, b.nf)
		}
	case "list":
		c := &cnode{name: path.Base(p), path: p, dir: true, mode: 0o755}
		n := []int{0, 1, 2, 7, 30, 99, 100, 101, 130}[r.N(9)]
		for i := 0; i < n; i++ {
			k := &cnode{name: fmt.Sprintf("%s-e%03d", path.Base(p), i), mode: 0o644, data: make([]byte, i)}
			if r.P(5) {
				k.p = &pnode{giant: giantSizes[r.N(len(giantSizes))]}
			}
			c.kids = append(c.kids, k)
		}
		b.t.c[p] = c
		return p
	}
	size := r.Pick(0, 1, 100, 5000, 32767, 32768, 32769)
	if b.e.par("big") > 0 && r.P(40) {
		size = r.Pick(65535, 65536, 65537, 98304, 150000, 262144, 300001)
	}
	b.t.c[p] = &cnode{name: path.Base(p), path: p, mode: 0o644, data: r.Bytes(size)}
	if kind == "stat" && r.P(25) {
		b.t.c[p].p = &pnode{giant: giantSizes[r.N(len(giantSizes))]}
	}
	return p
}

func (b *backRun) do(c int, op Op) error {
	e := b.e
	r := &Rand{s: uint64(op.B)*7919 + uint64(b.nf)*31 + uint64(op.A)}
	p := b.object(op.K, r)
	e.seq++
	o := &backOp{kind: op.K, path: p, start: e.seq}
	b.ops = append(b.ops, o)
	id := e.begin("backend " + op.K + " " + p)
	var err error
	var data []byte
	var infos []os.FileInfo
	var info os.FileInfo
	how := op.K
	if how == "miss" {
		how = []string{"read", "list", "stat"}[op.B%3]
	}
	switch how {
	case "read":
		data, err = b.p.ReadFile(p)
	case "list":
		infos, err = b.p.ReadDir(p)
	case "stat":
		info, err = b.p.Stat(p)
	}
	e.end(id)
	e.seq++
	o.end, o.err = e.seq, err
	e.note("%s %s %v %d %d", op.K, p, err != nil, len(data), len(infos))
	if os.Getenv("SIM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "[%v] %s %s -> %v\n", time.Duration(e.now()), op.K, p, err)
	}
	if op.K == "miss" {
		if err == nil {
			e.violate("C09", "ghost", "%s of %s succeeded, which does not exist", how, p)
		}
		return nil
	}
	if err != nil {
		e.probe("op-error")
		return err
	}
	e.probe("op-ok")
	want := b.t.c[p]
	switch op.K {
	case "read":
		if !bytes.Equal(data, want.data) {
			e.violate("C09", "truncated", "read of %s reported success: %s", p, diffBytes(data, want.data))
		}
	case "list":
		var got, exp []string
		for _, i := range infos {
			got = append(got, fmt.Sprintf("%s/%d/%v", i.Name(), i.Size(), i.IsDir()))
		}
		for _, k := range want.kids {
			exp = append(exp, fmt.Sprintf("%s/%d/%v", k.name, k.Size(), k.dir))
		}
		sort.Strings(got)
		sort.Strings(exp)
		if fmt.Sprint(got) != fmt.Sprint(exp) {
			e.violate("C09", "truncated", "listing of %s reported success with %d entries; there are %d", p, len(got), len(exp))
		}
	case "stat":
		if info == nil || info.Name() != want.name || info.Size() != want.Size() || info.IsDir() != want.dir {
			e.violate("C09", "mixed-up", "stat of %s gave something else", p)
		}
	}
	return nil
}

// checkWindows verifies that no two operations interleaved on one connection.
func (b *backRun) checkWindows() {
	var ids []int
	for id := range b.d.windows {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		seen := map[string]bool{}
		cur := ""
		for _, k := range b.d.windows[id] {
			if k.path == cur || strings.HasPrefix(path.Base(k.path), path.Base(sharedDir)) {
				continue
			}
			if seen[k.path] {
				b.e.violate("C08", "shared", "operations on %s and %s used connection %d at the same time", cur, k.path, id)
				return
			}
			cur = k.path
			seen[cur] = true
		}
		if len(seen) > 1 {
			b.e.probe("reused-connection")
		}
	}
}

// quiesce lets everything under way end and checks what is left.
func (b *backRun) quiesce() {
	e := b.e
	time.Sleep(90 * time.Second)
	if h := b.n.held(remoteAddr); h > poolSize {
		e.violate("C08", "unbounded", "%d idle connections are held", h)
	}
	for _, h := range b.d.handles {
		e.violate("C08", "handle-leak", "handle on %s is still open at quiescence", h.raw)
		break
	}
}

func (b *backRun) healthy() int {
	k := 0
	for _, l := range b.n.links {
		if l.addr != remoteAddr || l.a.closed || l.dead {
			continue
		}
		for _, s := range b.d.sessions {
			if s.link == l && !s.dead {
				k++
				break
			}
		}
	}
	return k
}

// burst runs k operations that all hold a connection at the same time.
func (b *backRun) burst(k int) (fails int, first error) {
	b.d.gate = func(s *srvSess, typ byte, p string) { time.Sleep(2 * time.Second) }
	done := make(chan error, k)
	for i := 0; i < k; i++ {
		i := i
		go func() { done <- b.do(i, Op{C: i, K: "stat", A: 99, B: i}) }()
	}
	t0 := b.e.now()
	defer func() {
		if d := time.Duration(b.e.now() - t0); d > time.Minute {
			b.e.violate("C10", "late", "%d requests took %v although the remote is back", k, d)
		}
	}()
	for i := 0; i < k; i++ {
		if err := <-done; err != nil {
			fails++
			if first == nil {
				first = err
			}
		}
	}
	b.d.gate = nil
	return
}

func runB(e *Env) {
	b := &backRun{e: e, n: newSimNet(e), t: &vtree{root: "/r", c: map[string]*cnode{}}}
	b.t.c["/r"] = &cnode{name: "r", path: "/r", dir: true, mode: 0o755}
	b.n.cutPlan = planCut(e)
	b.d = newSftpd(e, b.n, b.t, remoteAddr)
	b.d.par = e.par("ooo") == 1
	b.d.start()
	cfg := &ssh.ClientConfig{
		User:            b.d.name,
		Auth:            []ssh.AuthMethod{ssh.PublicKeys(b.d.user.signer)},
		HostKeyCallback: ssh.FixedHostKey(b.d.key.signer.PublicKey()),
	}
	b.p = backend.NewProvider(remoteAddr, cfg, log.New(ioutil.Discard, "", 0))
	clean := true
	for k, v := range e.plan.Faults {
		if k != "split" && v > 0 {
			clean = false
		}
	}
	if e.par("outages") > 0 {
		clean = false
		go b.outages(e.par("outages"))
	}
	// rounds
	byRound := map[int][]Op{}
	last := 0
	for _, op := range e.plan.Ops {
		byRound[op.A] = append(byRound[op.A], op)
		if op.A > last {
			last = op.A
		}
	}
	for i := 0; i <= last; i++ {
		ops := byRound[i]
		if len(ops) == 0 {
			continue
		}
		nc := map[int]bool{}
		for _, op := range ops {
			nc[op.C] = true
		}
		idle, dials := b.healthy(), b.n.dials[remoteAddr]
		e.clients(ops, func(c int, op Op) {
			if err := b.do(c, op); err != nil && clean {
				e.violate("C09,C10", "spurious-error", "backend %s failed with nothing wrong: %s", op.K, oneLine(err.Error()))
			}
		})
		if clean {
			if b.quiesce(); true {
				need := len(nc) - idle
				if need < 0 {
					need = 0
				}
				if got := b.n.dials[remoteAddr] - dials; got > need {
					e.violate("C08", "not-reused", "%d concurrent operations with %d healthy idle connections dialled %d times", len(nc), idle, got)
				}
			}
		} else {
			time.Sleep(time.Duration(e.pick(20, kEnv)) * time.Second)
		}
		// a time without any request
		time.Sleep(time.Duration(e.par("idle")) * time.Second)
	}
	if k := e.par("storm"); k > 0 {
		clean = false
		b.storm(k)
	}
	// the faults end
	e.stopFaults()
	for b.n.refuse[remoteAddr] || b.n.dark[remoteAddr] {
		time.Sleep(time.Second)
	}
	for _, l := range b.n.links {
		l.cutDir = 0
	}
	b.quiesce()
	b.checkWindows()
	// Every pooled connection is used once, so broken ones are found now (a
	// dead one may be pooled with its socket closed already: it cannot be seen
	// from outside). As many operations as connections were ever made, up to
	// the size of the pool, are enough to use them all.
	total := 0
	for _, l := range b.n.links {
		if l.addr == remoteAddr {
			total++
		}
	}
	if total > poolSize {
		total = poolSize
	}
	if total > 0 {
		dials, healthy := b.n.dials[remoteAddr], b.healthy()
		fails, first := b.burst(total)
		if fails > total-healthy {
			e.violate("C10", "still-failing", "%d of %d operations failed although %d connections were healthy: %v", fails, total, healthy, first)
		}
		if got := b.n.dials[remoteAddr] - dials; got+fails > total-healthy {
			e.violate("C08,C10", "leaked-connection", "with %d healthy connections open, %d concurrent operations dialled %d times and failed %d times", healthy, total, got, fails)
		}
		b.quiesce()
		if h, ok := b.n.held(remoteAddr), b.healthy(); h != ok {
			e.violate("C08,C10", "broken-kept", "after all connections were used %d are held of which %d work", h, ok)
		}
	}
	held := b.n.held(remoteAddr)
	dials := b.n.dials[remoteAddr]
	k := held + 1 + int(e.plan.Seed%3)
	if e.plan.Seed%11 == 0 {
		k = 36
	}
	if fails, first := b.burst(k); fails > 0 {
		e.violate("C10", "still-failing", "%d of %d operations fail although the remote is back and broken connections were found: %v", fails, k, first)
	}
	if got := b.n.dials[remoteAddr] - dials; got > k-held {
		e.violate("C08", "not-reused", "%d operations with %d idle connections dialled %d times", k, held, got)
	}
	b.quiesce()
	if h := b.n.held(remoteAddr); h < poolSize && h < k {
		e.violate("C08", "not-kept", "only %d of %d healthy connections were kept", h, k)
	}
	b.checkWindows()
	// ordinary operations still work and give the right thing
	for i, kind := range []string{"read", "list", "stat", "read"} {
		t0 := e.now()
		err := b.do(i, Op{K: kind, A: 98, B: i})
		if d := time.Duration(e.now() - t0); d > time.Minute {
			e.violate("C10", "late", "%s took %v although the remote is back", kind, d)
		}
		if err != nil {
			e.violate("C10", "still-failing", "%s fails although the remote is back: %v", kind, err)
		}
	}
}

// storm keeps the remote unusable while k operations are tried.
func (b *backRun) storm(k int) {
	e := b.e
	kind := []string{"", "no-session", "no-subsystem", "sess-die-init", "auth-refuse"}[e.par("stormkind")%5]
	if kind == "" {
		e.fault("remote-crash")
		b.d.stop()
	} else {
		e.fault("storm-" + kind)
		for _, s := range b.d.sessions {
			s.kill()
		}
		e.plan.Faults[kind] = 999999
		if k > 60 {
			k = 60 // every attempt takes a handshake
		}
	}
	var ops []Op
	for i := 0; i < k; i++ {
		ops = append(ops, Op{C: i % (1 + int(e.plan.Seed%7)), K: []string{"read", "list", "stat"}[i%3], A: 97, B: i})
	}
	e.clients(ops, func(c int, op Op) { b.do(c, op) })
	if kind == "" {
		b.d.start()
	} else {
		delete(e.plan.Faults, kind)
	}
}

// outages crashes, restarts and partitions the remote.
func (b *backRun) outages(n int) {
	e := b.e
	for i := 0; i < n && !e.quiet; i++ {
		time.Sleep(time.Duration(e.pick(8000, kEnv)) * time.Millisecond)
		if e.quiet {
			return
		}
		b.outage()
	}
}

func (b *backRun) outage() { outage(b.e, b.n, b.d) }

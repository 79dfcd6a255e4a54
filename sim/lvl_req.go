//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"time"

	"github.com/flawedmatrix/gocryptsftp/requester"
)

// Level R: the real request layer over a simulated backend and decrypter, with
// few objects and many requests, so that every interleaving of shared fetches,
// failures, retries, time limits and cache clears is reached often.

type reqSim struct {
	e        *Env
	inflight map[string]int
	oks      map[string]int
	log      []*fetch
	active   int
	clears   []uint64 // event numbers of cache clears
	clearing int
	workers  int
	allBusy  bool
	freeAt   int64 // idle time since which a worker is free
	entries  []os.FileInfo
}

type reqInfo struct{ n string }

func (r reqInfo) Name() string       { return r.n }
func (r reqInfo) Size() int64        { return int64(len(r.n)) }
func (r reqInfo) Mode() os.FileMode  { return 0o600 }
func (r reqInfo) ModTime() time.Time { return time.Unix(1, 0) }
func (r reqInfo) IsDir() bool        { return false }
func (r reqInfo) Sys() interface{}   { return nil }

func (s *reqSim) call(obj string) (err error, partial bool) {
	e := s.e
	e.seq++
	f := &fetch{obj: obj, start: e.seq}
	s.log = append(s.log, f)
	s.active++
	s.inflight[obj]++
	if s.active >= s.workers {
		s.allBusy = true
	}
	// every cache clear makes one more fetch legitimate
	if s.inflight[obj] > 1+len(s.clears)+s.clearing {
		e.violate("C05", "inflight", "%d fetches of %q in flight at once", s.inflight[obj], obj)
	}
	if s.oks[obj] > len(s.clears)+s.clearing {
		e.violate("C05", "refetch", "%q fetched again after %d successful fetches and %d clears", obj, s.oks[obj], len(s.clears))
	}
	e.latency()
	if e.chance("err", kRemote) {
		e.fault("remote-error")
		f.fault = "error"
		err = faultErrs[e.pick(len(faultErrs), kRemote)]
	} else if e.chance("partial", kRemote) {
		e.fault("partial-data-with-error")
		f.fault = "partial"
		err = errors.New("broken in the middle")
		partial = true
	}
	e.seq++
	f.end, f.endT = e.seq, e.idle()
	s.active--
	s.inflight[obj]--
	if s.allBusy && s.active < s.workers {
		s.allBusy, s.freeAt = false, e.idle()
	}
	if err == nil {
		s.oks[obj]++
	}
	e.note("fetch %s %v", obj, err == nil)
	return
}

func (s *reqSim) faulted(obj string, start, end uint64, startT int64) bool {
	for _, f := range s.log {
		if f.fault != "" && f.obj == obj && f.overlaps(start, end, startT) {
			return true
		}
	}
	return false
}

func (s *reqSim) anyFault() bool {
	for _, f := range s.log {
		if f.fault != "" {
			return true
		}
	}
	return false
}

func reqContent(path string) []byte {
	if len(path)%5 == 0 {
		return []byte{}
	}
	return []byte("content of " + path)
}

func reqListing(path string) []os.FileInfo {
	var l []os.FileInfo
	for i := 0; i < len(path)%4; i++ {
		l = append(l, reqInfo{fmt.Sprintf("%s-%d", path, i)})
	}
	return l
}

func reqName(c string, iv []byte) string { return fmt.Sprintf("plain(%s,%x)", c, iv) }

func (s *reqSim) ReadFile(p string) ([]byte, error) {
	err, partial := s.call("F " + p)
	if err != nil {
		if partial {
			return []byte("partial"), err
		}
		return nil, err
	}
	return reqContent(p), nil
}

func (s *reqSim) ReadDir(p string) ([]os.FileInfo, error) {
	err, partial := s.call("D " + p)
	if err != nil {
		if partial {
			return []os.FileInfo{reqInfo{"partial"}}, err
		}
		return nil, err
	}
	return reqListing(p), nil
}

func (s *reqSim) DecryptName(c string, iv []byte) (string, error) {
	err, partial := s.call(fmt.Sprintf("N %s %x", c, iv))
	if err != nil {
		if partial {
			return "partial", err
		}
		return "", err
	}
	return reqName(c, iv), nil
}

var reqIVs = [][]byte{{1}, []byte("0123456789abcdef"), []byte("fedcba9876543210")}

func runR(e *Env) {
	s := &reqSim{e: e, inflight: map[string]int{}, oks: map[string]int{}}
	s.workers = e.par("workers")
	r := requester.New(s.workers, s, s)
	r.Start()
	slow := e.par("slowrun") != 0
	bound := time.Duration(0)
	extra := ""
	do := func(c int, op Op) {
		switch op.K {
		case "sleep":
			sleepMs(op.A)
			return
		case "clear":
			s.clearing++
			r.ClearCache()
			e.seq++
			s.clears = append(s.clears, e.seq)
			s.clearing--
			e.probe("clear-cache")
			return
		}
		// short, distinct lengths: empty contents and empty listings included
		name := fmt.Sprintf("/%s%0*d", op.K, 1+op.A%7, op.A)
		var obj, got, want string
		var err error
		e.seq++
		start, startT := e.seq, e.idle()
		t0 := time.Now()
		id := e.begin(fmt.Sprintf("client %d %s %s", c, op.K, name))
		switch op.K {
		case "f":
			obj = "F " + name
			var b []byte
			b, err = r.ReadFile(name)
			got, want = string(b), string(reqContent(name))
			if err != nil && len(b) > 0 {
				e.violate("C06", "data-with-error", "ReadFile %s returned data and error %v", name, err)
			}
		case "d":
			obj = "D " + name
			var l []os.FileInfo
			l, err = r.ReadDir(name)
			got, want = fmt.Sprint(l), fmt.Sprint(reqListing(name))
		case "n":
			iv := reqIVs[op.B%len(reqIVs)]
			obj = fmt.Sprintf("N %s %x", name, iv)
			got, err = r.DecryptName(name, iv)
			want = reqName(name, iv)
		}
		e.end(id)
		e.seq++
		end := e.seq
		dur := time.Since(t0)
		e.note("%d %s %s %v", c, op.K, name, err != nil)
		if bound > 0 && dur > bound {
			e.violate(joinProps("C07", extra), "late", "request for %s took %v with nothing wrong", obj, dur)
		}
		if err != nil {
			if s.faulted(obj, start, end, startT) {
				e.probe("op-error-excused")
				return
			}
			if slow && !e.quiet && dur >= 10*time.Second {
				// A request may run into its time limit while all workers are
				// occupied, but not while one has been waiting for work.
				if free := time.Duration(e.idle() - s.freeAt); s.allBusy || free < 8*time.Second || time.Duration(e.idle()-startT) < 8*time.Second {
					e.probe("op-timeout")
					return
				}
			}
			props := "C05"
			if s.anyFault() {
				props = "C05,C06"
			}
			if slow {
				props = joinProps(props, "C07")
			}
			e.violate(joinProps(props, extra), "spurious-error", "request for %s failed although no fetch of it failed during the request: %s", obj, oneLine(err.Error()))
			return
		}
		e.probe("op-ok")
		if !bytes.Equal([]byte(got), []byte(want)) {
			props := "C05"
			if s.anyFault() {
				props = "C05,C06"
			}
			e.violate(joinProps(props, extra), "wrong-result", "request for %s returned %q instead of %q", obj, got, want)
		}
	}
	e.clients(e.plan.Ops, do)
	e.stopFaults()
	for i := 0; s.active > 0 && i < 100000; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if slow {
		time.Sleep(30 * time.Second)
		extra = "C07"
	} else if s.anyFault() {
		extra = "C06"
	}
	bound = 60 * time.Second
	// everything asked for once more
	var ops []Op
	seen := map[string]bool{}
	for _, op := range e.plan.Ops {
		if op.K == "sleep" || op.K == "clear" {
			continue
		}
		k := fmt.Sprint(op.K, op.A, op.B)
		if seen[k] {
			continue
		}
		seen[k] = true
		for c := 0; c < 3; c++ {
			ops = append(ops, Op{C: c, K: op.K, A: op.A, B: op.B})
		}
	}
	// and as many fresh requests as there are workers: none may be lost
	for i := 0; i < e.par("workers") && i < 40; i++ {
		ops = append(ops, Op{C: 10 + i, K: "f", A: 5000 + i})
	}
	e.clients(ops, do)
}

func genR(variant string) func(r *Rand, p *Plan) {
	return func(r *Rand, p *Plan) {
		p.Par["workers"] = r.Pick(1, 2, 2, 3, 4, 8)
		nc := r.Pick(2, 2, 3, 4, 6, 10, 20)
		no := r.Range(1, 5)
		nk := r.Pick(1, 1, 2, 3, 6)
		kinds := []string{"f", "f", "d", "n"}
		if r.P(40) {
			kinds = []string{r.PickS("f", "d", "n")}
		}
		p.Sched = genSched(r, variant == "slow")
		long := r.P(4) // a long history
		if long {
			nc, no, nk = r.Pick(1, 2, 6), r.Range(50, 150), r.Pick(1, 3, 50)
		}
		if !long && r.P(1) { // more objects than the caches are made for
			nc, no, nk = r.Pick(2, 8), r.Range(600, 1000), 1100
			kinds = []string{r.PickS("f", "d", "n")}
		}
		switch variant {
		case "errs":
			p.Faults["err"] = r.Pick(20000, 100000, 300000, 600000)
			if r.P(40) {
				p.Faults["partial"] = r.Pick(20000, 200000)
			}
			if long {
				p.Faults["err"] = r.Pick(300000, 950000)
			}
		case "slow":
			p.Faults["slow"] = r.Pick(50000, 300000, 700000)
			p.Par["slowrun"] = 1
			if r.P(30) {
				p.Faults["err"] = r.Pick(20000, 200000)
			}
			if r.P(30) {
				p.Par["workers"] = 1
			}
		}
		for c := 0; c < nc; c++ {
			for i := 0; i < no; i++ {
				p.Ops = append(p.Ops, Op{C: c, K: kinds[r.N(len(kinds))], A: r.N(nk), B: r.N(3)})
				if r.P(20) {
					p.Ops = append(p.Ops, Op{C: c, K: "sleep", A: r.Pick(0, 1, 20, 200, 21000)})
				} else if r.P(2) {
					p.Ops = append(p.Ops, Op{C: c, K: "sleep", A: r.Pick(70000, 700000, 7200000, 200000000)})
				}
			}
		}
		if variant == "clear" {
			p.Par["clears"] = 1
			if r.P(40) {
				p.Faults["err"] = r.Pick(20000, 100000)
			}
			// one clear only: a request is retried a fixed number of times
			p.Ops = append(p.Ops, Op{C: 100, K: "sleep", A: r.Pick(0, 1, 5, 20, 60)}, Op{C: 100, K: "clear"})
		}
	}
}

func init() {
	for _, v := range []string{"clean", "errs", "slow", "clear"} {
		register(&Scenario{Name: "R/" + v, Gen: genR(v), Run: runR})
	}
}

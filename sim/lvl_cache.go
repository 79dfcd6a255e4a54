//go:build go1.21

package main

import (
	"fmt"

	"github.com/flawedmatrix/gocryptsftp/filetree"
)

// Level C: the real path cache under concurrent callers, checked for
// linearizability against a sequential LRU map.

type cacheOp struct {
	k, key, val string
	start, end  uint64
	found       bool
	out         string
	done        bool
}

type lruModel struct {
	cap  int
	keys []string // oldest first
	val  map[string]string
}

func (m *lruModel) clone() *lruModel {
	n := &lruModel{cap: m.cap, keys: append([]string{}, m.keys...), val: make(map[string]string, len(m.val))}
	for k, v := range m.val {
		n.val[k] = v
	}
	return n
}
func (m *lruModel) touch(k string) {
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append(m.keys[:i:i], m.keys[i+1:]...), k)
			return
		}
	}
	m.keys = append(m.keys, k)
}

// apply runs op on the model and reports whether its result agrees.
func (m *lruModel) apply(op *cacheOp) bool {
	switch op.k {
	case "find":
		v, ok := m.val[op.key]
		if ok != op.found || (ok && v != op.out) {
			return false
		}
		if ok {
			m.touch(op.key)
		}
	case "store":
		if _, ok := m.val[op.key]; !ok && len(m.keys) >= m.cap {
			delete(m.val, m.keys[0])
			m.keys = m.keys[1:]
		}
		m.val[op.key] = op.val
		m.touch(op.key)
	case "clear":
		m.keys = nil
		m.val = map[string]string{}
	}
	return true
}

func (m *lruModel) sig() string {
	s := ""
	for _, k := range m.keys {
		s += k + "=" + m.val[k] + ";"
	}
	return s
}

// linearizable searches for an order of ops consistent with real time and the
// model (Wing and Gong, with memoisation).
func linearizable(ops []*cacheOp, cap int) (bool, int) {
	n := len(ops)
	doneSet := make([]bool, n)
	seen := map[string]bool{}
	budget := 400000
	best := 0
	var rec func(m *lruModel, left int) bool
	rec = func(m *lruModel, left int) bool {
		if n-left > best {
			best = n - left
		}
		if left == 0 {
			return true
		}
		budget--
		if budget < 0 {
			return true // undecided counts as fine
		}
		key := m.sig()
		b := make([]byte, n)
		for i, d := range doneSet {
			if d {
				b[i] = 1
			}
		}
		key += "|" + string(b)
		if seen[key] {
			return false
		}
		seen[key] = true
		minEnd := ^uint64(0)
		for i, op := range ops {
			if !doneSet[i] && op.end < minEnd {
				minEnd = op.end
			}
		}
		for i, op := range ops {
			if doneSet[i] || op.start > minEnd {
				continue
			}
			m2 := m.clone()
			if !m2.apply(op) {
				continue
			}
			doneSet[i] = true
			if rec(m2, left-1) {
				return true
			}
			doneSet[i] = false
		}
		return false
	}
	ok := rec(&lruModel{cap: cap, val: map[string]string{}}, n)
	return ok, best
}

func runC(e *Env) {
	capacity := e.par("cap")
	c := filetree.NewFastCache(capacity)
	var ops []*cacheOp
	do := func(cl int, op Op) {
		e.seq++
		o := &cacheOp{k: op.K, key: fmt.Sprintf("/k%d", op.A), val: fmt.Sprintf("v%d.%d", cl, op.B), start: e.seq}
		if n := e.par("vals"); n > 0 { // the same mapping is stored again and again
			o.val = fmt.Sprintf("v%d", (op.A+op.B)%n)
			if n == 3 { // the root is mapped to itself, or to nothing
				o.val = []string{"", "/", o.key}[(op.A+op.B)%3]
			}
		}
		ops = append(ops, o)
		id := e.begin(fmt.Sprintf("client %d %s %s", cl, o.k, o.key))
		switch op.K {
		case "find":
			d, found := c.Find(o.key)
			o.found, o.out = found, d.CiphertextPath
			if found && d.PlaintextPath != o.key {
				e.violate("C15", "wrong-entry", "Find(%s) returned the entry of %s", o.key, d.PlaintextPath)
			}
		case "store":
			c.Store(o.key, o.val)
		case "clear":
			c.Clear()
		}
		e.end(id)
		e.seq++
		o.end = e.seq
		o.done = true
		e.note("%s %s %v %s", o.k, o.key, o.found, o.out)
		e.probe("cache-" + o.k)
	}
	e.clients(e.plan.Ops, do)
	e.stopFaults()
	// final state, observed sequentially
	for k := 0; k < e.par("keys"); k++ {
		do(-1, Op{K: "find", A: k})
	}
	overlap := 0
	for i, a := range ops {
		for _, b := range ops[i+1:] {
			if a.start < b.end && b.start < a.end {
				overlap++
			}
		}
	}
	e.res.Probes["cache-overlapping-pairs"] += overlap
	if ok, best := linearizable(ops, capacity); !ok {
		msg := ""
		for i, o := range ops {
			if i < 60 {
				msg += fmt.Sprintf("[%d..%d] %s %s %s -> %v %s; ", o.start, o.end, o.k, o.key, o.val, o.found, o.out)
			}
		}
		e.violate("C15", "not-linearizable", "no sequential LRU order of capacity %d explains the %d operations (longest explained prefix %d): %s", capacity, len(ops), best, msg)
	}
}

func init() {
	register(&Scenario{Name: "C/lru", Run: runC, Gen: func(r *Rand, p *Plan) {
		p.Sched = genSched(r, false)
		p.Par["cap"] = r.Pick(1, 2, 2, 3, 3, 4, 5, 16)
		p.Par["vals"] = r.Pick(0, 0, 0, 1, 2, 3)
		nk := p.Par["cap"] + r.Range(0, 4)
		p.Par["keys"] = nk
		nc := r.Pick(1, 1, 2, 2, 3, 4)
		total := r.Range(4, 40)
		if p.Par["cap"] == 16 {
			total = r.Range(30, 120)
		}
		if nc > 2 && total > 40 {
			total = 40
		}
		clears := r.Pick(0, 0, 2, 10)
		for i := 0; i < total; i++ {
			op := Op{C: r.N(nc), A: r.N(nk), B: i}
			switch {
			case r.P(clears):
				op.K = "clear"
			case r.P(55):
				op.K = "store"
			default:
				op.K = "find"
			}
			p.Ops = append(p.Ops, op)
		}
	}})
}

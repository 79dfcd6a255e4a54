package main

import (
	"sync"
	"time"
)

// minimiser shrinks a failing run: first its workload and fault kinds (the
// seed may change), then the schedule and fault decisions of the trace.
type minimiser struct {
	r        *runner
	prop     string
	class    string
	known    func(v violation) bool
	deadline time.Time
	tries    int
	mu       sync.Mutex
}

func (m *minimiser) match(res *result) *violation {
	for i := range res.Violations {
		v := &res.Violations[i]
		if v.blames(m.prop) && v.Class == m.class && !m.known(*v) {
			return v
		}
	}
	return nil
}

func (m *minimiser) left() bool { return time.Now().Before(m.deadline) }

// any runs the candidates in parallel and returns the first (in order) that
// fails the same way.
func (m *minimiser) any(cands []*plan) (*plan, *result) {
	type hit struct {
		i   int
		res *result
	}
	res := make([]*result, len(cands))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, c := range cands {
		wg.Add(1)
		go func(i int, c *plan) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if !m.left() {
				return
			}
			m.mu.Lock()
			m.tries++
			m.mu.Unlock()
			x := m.r.run(runOpt{plan: c})
			if m.match(x) != nil {
				res[i] = x
			}
		}(i, c)
	}
	wg.Wait()
	for i := range res {
		if res[i] != nil {
			return cands[i], res[i]
		}
	}
	return nil, nil
}

func (m *minimiser) reseeded(p *plan) []*plan {
	var out []*plan
	for k := uint64(0); k < 8; k++ {
		q := p.clone()
		q.Seed = p.Seed + k*7919
		out = append(out, q)
	}
	return out
}

func (m *minimiser) shrinkOps(p *plan) *plan {
	for chunk := (len(p.Ops) + 1) / 2; chunk >= 1 && m.left(); {
		changed := false
		for i := 0; i < len(p.Ops) && m.left(); {
			q := p.clone()
			end := i + chunk
			if end > len(q.Ops) {
				end = len(q.Ops)
			}
			q.Ops = append(append([]op{}, p.Ops[:i]...), p.Ops[end:]...)
			if len(q.Ops) == 0 {
				break
			}
			if c, _ := m.any(m.reseeded(q)); c != nil {
				p = c
				changed = true
			} else {
				i = end
			}
		}
		if chunk == 1 && !changed {
			break
		}
		if !changed || chunk > len(p.Ops) {
			chunk /= 2
			if chunk > len(p.Ops)/2 && len(p.Ops) > 1 {
				chunk = len(p.Ops) / 2
			}
		}
	}
	return p
}

func (m *minimiser) shrinkFaults(p *plan) *plan {
	for k, v := range p.Faults {
		if v == 0 || !m.left() {
			continue
		}
		q := p.clone()
		q.Faults[k] = 0
		if c, _ := m.any(m.reseeded(q)); c != nil {
			p = c
		}
	}
	return p
}

func (m *minimiser) shrinkTrace(p *plan) *plan {
	n := len(p.Trace) / 2
	for chunk := (n + 1) / 2; chunk >= 1 && m.left(); {
		n = len(p.Trace) / 2
		changed := false
		for i := 0; i < n && m.left(); {
			// try up to 8 different removals at once
			var cands []*plan
			var ends []int
			for j := i; j < n && len(cands) < 8; j += chunk {
				end := j + chunk
				if end > n {
					end = n
				}
				q := p.clone()
				q.Trace = append(append([]uint64{}, p.Trace[:2*j]...), p.Trace[2*end:]...)
				cands = append(cands, q)
				ends = append(ends, end)
			}
			c, _ := m.any(cands)
			if c == nil {
				i = ends[len(ends)-1]
				continue
			}
			for k := range cands {
				if cands[k] == c {
					i += k * chunk
				}
			}
			p = c
			n = len(p.Trace) / 2
			changed = true
		}
		if chunk == 1 {
			if !changed {
				break
			}
			continue
		}
		chunk /= 2
	}
	return p
}

// minimise returns the smallest failing plan found, and its result.
func (m *minimiser) minimise(scenario string, seed uint64) (*plan, *result) {
	first := m.r.run(runOpt{scenario: scenario, seed: seed, emit: true, wall: 2 * m.r.maxWall})
	p := first.Plan
	if p == nil { // died: fetch the plan alone
		p = m.r.planOf(scenario, seed)
	}
	if p == nil || m.match(m.r.run(runOpt{plan: p})) == nil {
		return p, nil
	}
	full := m.deadline
	m.deadline = time.Now().Add(time.Until(full) * 6 / 10)
	p = m.shrinkOps(p)
	p = m.shrinkFaults(p)
	m.deadline = full
	rec := m.r.run(runOpt{plan: p, record: 400000})
	if !rec.died && m.match(rec) != nil && rec.Stats.Recorded < 400000 {
		q := p.clone()
		q.Trace, q.HasTrace = rec.Trace, true
		if m.match(m.r.run(runOpt{plan: q})) != nil {
			q = m.shrinkTrace(q)
			p = q
		}
	}
	// Confirm, twice, in fresh processes.
	a := m.r.run(runOpt{plan: p})
	b := m.r.run(runOpt{plan: p})
	if m.match(a) == nil || m.match(b) == nil || a.Hist != b.Hist || a.Stats.Hash != b.Stats.Hash {
		return p, nil
	}
	return p, a
}

// Command driver builds the simulation of gocryptsftp from the current working
// tree and searches seeds for a violation of one property.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	verif, repo := os.Getenv("SIM_VERIF"), os.Getenv("SIM_REPO")
	dir := os.Getenv("SIM_DIR")
	if len(os.Args) < 3 || verif == "" || repo == "" || dir == "" {
		fmt.Fprintln(os.Stderr, "usage: check.sh PROPERTY quick|thorough|replay [FILE]")
		os.Exit(2)
	}
	prop, mode := os.Args[1], os.Args[2]
	if mode == "scenario" { // developer aid: driver C01 scenario F/clean N
		devRun(verif, repo, dir, prop, os.Args[3:])
		return
	}
	spec := specs[prop]
	if spec == nil {
		fmt.Fprintf(os.Stderr, "no check for property %s\n", prop)
		os.Exit(2)
	}
	c := &check{spec: spec, prop: prop, verif: verif, repo: repo, dir: dir, start: time.Now(), tier: mode}
	c.seed = 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		c.seed = s
	}
	c.loadKnown()
	switch mode {
	case "quick", "thorough":
		os.Exit(c.search())
	case "replay":
		if len(os.Args) < 4 {
			fmt.Fprintln(os.Stderr, "replay needs a file")
			os.Exit(2)
		}
		os.Exit(c.replay(os.Args[3]))
	}
	fmt.Fprintf(os.Stderr, "unknown mode %q\n", mode)
	os.Exit(2)
}

type check struct {
	spec             *spec
	prop             string
	verif, repo, dir string
	start            time.Time
	tier             string
	seed             int
	b                *builder
	dropped          []string
	known            []knownFinding
}

type knownFinding struct {
	prop, what string
	class      string
	re         *regexp.Regexp
	seen       bool
}

// known-findings.txt holds
//
//	finding: property=<id> class=<class> match=<regexp> ## <what fails>
//	fixed: property=<id> <commit> <what failed>
func (c *check) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=(.*?) ## (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			c.known = append(c.known, knownFinding{prop: m[1], class: m[2], re: regexp.MustCompile(m[3]), what: m[4]})
		}
	}
}

func (c *check) isKnown(v violation) bool {
	for i := range c.known {
		k := &c.known[i]
		if k.prop == c.prop && k.class == v.Class && k.re.MatchString(v.Msg) {
			k.seen = true
			return true
		}
	}
	return false
}

func (c *check) prepare(prefixes []string) (*runner, error) {
	b, err := newBuilder(c.verif, c.repo, c.dir)
	if err != nil {
		return nil, err
	}
	c.b = b
	r := &runner{dir: c.dir, bins: map[string]string{}, race: c.spec.race, maxWall: 60 * time.Second, repo: c.repo}
	if c.spec.race {
		r.maxWall = 180 * time.Second
	}
	files := map[string]bool{}
	for _, p := range prefixes {
		for _, f := range levelFiles[p] {
			files[f] = true
		}
	}
	bin, err := b.build(keys(files), c.spec.race, "all")
	if err == nil {
		for _, p := range prefixes {
			r.bins[p] = bin
		}
		return r, nil
	}
	if len(prefixes) == 1 {
		return nil, err
	}
	// Something one of the levels uses is gone; keep the ones that build.
	first := err
	for _, p := range prefixes {
		bin, err := b.build(levelFiles[p], c.spec.race, p)
		if err != nil {
			c.dropped = append(c.dropped, p)
			continue
		}
		r.bins[p] = bin
	}
	if len(r.bins) == 0 {
		return nil, first
	}
	fmt.Fprintf(os.Stderr, "levels %v do not build on this tree and are left out: %v\n", c.dropped, first)
	return r, nil
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type agg struct {
	runs, ops, harness      int
	steps, switches         uint64
	simS                    float64
	hashes, hists           map[uint64]bool
	nontrivial              map[uint64]bool
	faults, probes          map[string]int
	perScen                 map[string]int
	samples                 []map[string]interface{}
	harnessMsgs             []string
	detChecked, detMismatch int
	crashes                 int
	kinds                   [16]uint64
}

func (a *agg) add(res *result) {
	a.runs++
	if res.harness != "" {
		a.harness++
		if len(a.harnessMsgs) < 5 {
			a.harnessMsgs = append(a.harnessMsgs, fmt.Sprintf("%s seed %d: %s", res.Scenario, res.Seed, res.harness))
		}
		return
	}
	if res.died {
		a.crashes++
		return
	}
	a.perScen[res.Scenario]++
	a.ops += res.Ops
	a.steps += res.Stats.Steps
	a.switches += res.Stats.Switches
	a.simS += float64(res.Stats.SimNs) / 1e9
	a.hashes[res.Stats.Hash] = true
	a.hists[res.Hist] = true
	if res.Stats.Switches >= 2 && res.Ops > 0 {
		a.nontrivial[res.Stats.Hash] = true
	}
	nf := 0
	for k, v := range res.Faults {
		a.faults[k] += v
		nf += v
	}
	for i, v := range res.Stats.Kinds {
		a.kinds[i] += v
	}
	if res.Stats.Stalls > 0 {
		a.faults["scheduling stall"] += int(res.Stats.Stalls)
	}
	for k, v := range res.Probes {
		a.probes[k] += v
	}
	if len(a.samples) < 3 || (len(a.samples) < 8 && nf > 0 && a.perScen[res.Scenario] == 5) {
		a.samples = append(a.samples, map[string]interface{}{
			"scenario": res.Scenario, "seed": res.Seed, "operations": res.Ops, "choice_points": res.Stats.Steps,
			"context_switches": res.Stats.Switches, "simulated_s": float64(res.Stats.SimNs) / 1e9,
			"faults": res.Faults, "schedule_hash": fmt.Sprintf("%016x", res.Stats.Hash), "history_hash": fmt.Sprintf("%016x", res.Hist),
		})
	}
}

func (c *check) search() int {
	var prefixes []string
	seen := map[string]bool{}
	for _, j := range c.spec.jobs {
		if p := prefixOf(j.scen); !seen[p] {
			seen[p] = true
			prefixes = append(prefixes, p)
		}
	}
	r, err := c.prepare(prefixes)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	buildS := time.Since(c.start).Seconds()
	limit := 75 * time.Second
	if c.tier == "thorough" {
		limit = 700 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("SIM_LIMIT_S")); err == nil {
		limit = time.Duration(s) * time.Second
	}
	searchStart := time.Now()
	deadline := searchStart.Add(limit)

	// One queue, the scenarios interleaved in proportion to their run counts.
	type task struct {
		scen  string
		seed  uint64
		again bool
	}
	var jobs []job
	for _, j := range c.spec.jobs {
		if r.bins[prefixOf(j.scen)] == "" {
			continue
		}
		if c.tier == "thorough" {
			j.runs *= 40
		}
		jobs = append(jobs, j)
	}
	tasks := make(chan task)
	results := make(chan *result)
	stop := make(chan bool)
	var once sync.Once
	go func() {
		defer close(tasks)
		total := 0
		for _, j := range jobs {
			if j.runs > total {
				total = j.runs
			}
		}
		done := make([]int, len(jobs))
		for i := 1; i <= total; i++ {
			for k, j := range jobs {
				for done[k] < j.runs*i/total {
					t := task{j.scen, uint64(c.seed)*1000000 + uint64(done[k]), false}
					done[k]++
					select {
					case tasks <- t:
					case <-stop:
						return
					}
					if done[k] == 3 || done[k]%200 == 0 {
						t.again = true
						select {
						case tasks <- t:
						case <-stop:
							return
						}
					}
					if time.Now().After(deadline) {
						return
					}
				}
			}
		}
	}()
	type out struct {
		res   *result
		again bool
	}
	outs := make(chan out)
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range tasks {
				o := runOpt{scenario: t.scen, seed: t.seed}
				if t.again { // from its plan, as a replay does it
					if p := r.planOf(t.scen, t.seed); p != nil {
						o.plan = p
					}
				}
				outs <- out{r.run(o), t.again}
			}
		}()
	}
	go func() { wg.Wait(); close(outs) }()
	_ = results
	a := &agg{hashes: map[uint64]bool{}, hists: map[uint64]bool{}, nontrivial: map[uint64]bool{}, faults: map[string]int{}, probes: map[string]int{}, perScen: map[string]int{}}
	var bad []*result
	unconfirmed := 0
	others := map[string]int{}
	again := map[string]*result{}
	firstOf := map[string]*result{}
	for o := range outs {
		res := o.res
		k := fmt.Sprintf("%s %d", res.Scenario, res.Seed)
		if o.again {
			again[k] = res
			continue
		}
		if res.Seed%200 == 199 || res.Seed%1000000 == 2 {
			firstOf[k] = res
		}
		a.add(res)
		if os.Getenv("SIM_VERBOSE") != "" && res.harness != "" {
			fmt.Fprintf(os.Stderr, "%s seed %d: %s\n", res.Scenario, res.Seed, res.harness)
		}
		hit := false
		for _, v := range res.Violations {
			if !v.blames(c.prop) {
				others[v.Prop+" "+v.Class]++
				continue
			}
			if c.isKnown(v) {
				continue
			}
			hit = true
		}
		if hit {
			if !c.confirm(r, res) {
				unconfirmed++
				fmt.Fprintf(os.Stderr, "not repeated, set aside: %s %v\n", k, res.Violations)
				continue
			}
			bad = append(bad, res)
			once.Do(func() { close(stop) })
		}
	}
	for k, x := range again {
		if f := firstOf[k]; f != nil && f.harness == "" && x.harness == "" {
			a.detChecked++
			if f.Hist != x.Hist || f.Stats.Hash != x.Stats.Hash || f.Stats.Steps != x.Stats.Steps || f.Stats.SimNs != x.Stats.SimNs || len(f.Violations) != len(x.Violations) {
				a.detMismatch++
				fmt.Fprintf(os.Stderr, "NOT DETERMINISTIC: %s\n", k)
			}
		}
	}
	searchS := time.Since(searchStart).Seconds()
	nviol := 0
	code := 0
	if len(bad) > 0 {
		sort.Slice(bad, func(i, j int) bool {
			if bad[i].Scenario != bad[j].Scenario {
				return bad[i].Scenario < bad[j].Scenario
			}
			return bad[i].Seed < bad[j].Seed
		})
		nviol = len(bad)
		code = 1
		path := c.report(r, bad)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	}
	for i := range c.known {
		k := &c.known[i]
		if k.prop == c.prop && k.seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.what)
		}
	}
	if a.runs-a.harness-a.crashes <= 0 && code == 0 {
		fmt.Fprintf(os.Stderr, "no run gave a verdict: %v\n", a.harnessMsgs)
		code = 2
	}
	if code == 0 && a.harness*5 > a.runs {
		fmt.Fprintf(os.Stderr, "too many runs without a verdict (%d of %d): %v\n", a.harness, a.runs, a.harnessMsgs)
		code = 2
	}
	c.evidence(a, buildS, searchS, nviol, unconfirmed, others)
	if code == 0 {
		fmt.Printf("%s: held on %d runs, %d distinct schedules, %d faults, %.0f simulated s, %.1f s wall\n", c.prop, a.runs-a.harness, len(a.hashes), sum(a.faults), a.simS, time.Since(c.start).Seconds())
	}
	return code
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

type replayFile struct {
	Property  string    `json:"property"`
	Violation violation `json:"violation"`
	Hist      uint64    `json:"history_hash"`
	Sched     uint64    `json:"schedule_hash"`
	Race      bool      `json:"race_build,omitempty"`
	Found     string    `json:"found"`
	Minimised bool      `json:"minimised"`
	Plan      *plan     `json:"plan"`
}

// confirm runs a failing seed again, in a process of its own, until it fails
// the same way: what one execution of a seed shows and no other does is not
// the code's doing. The race detector forgets accesses and is asked more often.
func (c *check) confirm(r *runner, res *result) bool {
	n := 3
	if c.spec.race {
		n = 8
	}
	for i := 0; i < n; i++ {
		again := r.run(runOpt{scenario: res.Scenario, seed: res.Seed})
		for _, v := range res.Violations {
			if !v.blames(c.prop) || c.isKnown(v) {
				continue
			}
			for _, w := range again.Violations {
				if w.blames(c.prop) && w.Class == v.Class && !c.isKnown(w) {
					return true
				}
			}
		}
	}
	return false
}

func (c *check) report(r *runner, bad []*result) string {
	pick := bad[0]
	for _, b := range bad { // prefer a run that lived to report its history
		if !b.died && pick.died {
			pick = b
		}
	}
	var v violation
	for _, x := range pick.Violations {
		if x.blames(c.prop) && !c.isKnown(x) {
			v = x
			break
		}
	}
	budget := 40 * time.Second
	if c.tier == "thorough" {
		budget = 120 * time.Second
	}
	m := &minimiser{r: r, prop: c.prop, class: v.Class, known: c.isKnown, deadline: time.Now().Add(budget)}
	p, res := m.minimise(pick.Scenario, pick.Seed)
	rf := &replayFile{Property: c.prop, Violation: v, Race: c.spec.race, Found: fmt.Sprintf("%s seed %d", pick.Scenario, pick.Seed)}
	if res != nil {
		rf.Plan, rf.Hist, rf.Sched, rf.Minimised = p, res.Hist, res.Stats.Hash, true
		rf.Violation = *m.match(res)
	} else {
		rf.Plan, rf.Hist, rf.Sched = r.planOf(pick.Scenario, pick.Seed), pick.Hist, pick.Stats.Hash
	}
	dir := filepath.Join(c.verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.prop, strings.ReplaceAll(pick.Scenario, "/", "_"), pick.Seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("violation: [%s] %s\n", rf.Violation.Class, rf.Violation.Msg)
	if rf.Plan != nil {
		fmt.Printf("  found by %s after %d runs; minimised to %d operations, %d schedule/fault decisions in %d trials (confirmed: %v)\n", rf.Found, m.tries, len(rf.Plan.Ops), len(rf.Plan.Trace)/2, m.tries, rf.Minimised)
	}
	return path
}

func (r *runner) planOf(scenario string, seed uint64) *plan {
	res := r.run(runOpt{scenario: scenario, seed: seed, emit: true, planOnly: true})
	return res.Plan
}

func (c *check) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || rf.Plan == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return 2
	}
	r, err := c.prepare([]string{prefixOf(rf.Plan.Scenario)})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res := r.run(runOpt{plan: rf.Plan, wall: 120 * time.Second})
	if res.harness != "" {
		fmt.Fprintln(os.Stderr, res.harness)
		return 2
	}
	for _, v := range res.Violations {
		if v.blames(c.prop) {
			same := res.died || (res.Hist == rf.Hist && res.Stats.Hash == rf.Sched)
			fmt.Printf("violation: [%s] %s\n  exactly the recorded execution: %v\n", v.Class, v.Msg, same)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
			return 1
		}
	}
	fmt.Println("not reproduced on this tree")
	return 0
}

var kindNames = map[int]string{1: "goroutine picks other than the oldest", 2: "forced preemptions", 4: "select orders", 5: "remote decisions", 6: "network decisions", 7: "disk decisions", 8: "environment decisions"}

func (c *check) evidence(a *agg, buildS, searchS float64, nviol, unconfirmed int, others map[string]int) {
	kinds := map[string]uint64{}
	for i, v := range a.kinds {
		if v > 0 {
			n := kindNames[i]
			if n == "" {
				n = fmt.Sprint("kind ", i)
			}
			kinds[n] = v
		}
	}
	if a.samples == nil {
		a.samples = []map[string]interface{}{}
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": c.spec.level,
		"wall_s": time.Since(c.start).Seconds(), "violations": nviol,
		"assumptions": append(append([]string{}, commonAssumptions...), c.spec.assume...),
		"coverage": map[string]interface{}{
			"evaluations":               a.runs - a.harness,
			"distinct_nontrivial":       len(a.nontrivial),
			"rule":                      "one evaluation is one simulated run of one seed; distinct by the hash of all non-default scheduling, timing and fault decisions in order; non-trivial when at least two context switches happened and at least one operation was judged",
			"samples":                   a.samples,
			"runs_per_scenario":         a.perScen,
			"runs_without_verdict":      a.harness,
			"runs_without_verdict_why":  a.harnessMsgs,
			"runs_ending_in_crash":      a.crashes,
			"failures_not_repeated":     unconfirmed,
			"seeds_per_hour":            float64(a.runs) / searchS * 3600,
			"build_s":                   buildS,
			"search_s":                  searchS,
			"operations_judged":         a.ops,
			"choice_points":             a.steps,
			"context_switches":          a.switches,
			"simulated_s":               a.simS,
			"distinct_schedules":        len(a.hashes),
			"distinct_histories":        len(a.hists),
			"faults_injected":           a.faults,
			"decisions_by_kind":         kinds,
			"reached":                   a.probes,
			"determinism":               map[string]int{"seeds_run_twice": a.detChecked, "different": a.detMismatch},
			"other_properties_violated": others,
			"real_components":           c.spec.real,
			"stubbed_components":        c.spec.stub,
			"instrumented_files":        c.b.files,
			"preemption_points":         c.b.points,
			"files_not_instrumented":    c.b.plain,
			"levels_left_out":           c.dropped,
			"race_detector":             c.spec.race,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// devRun: check.sh X scenario NAME FROM TO
func devRun(verif, repo, dir, prop string, args []string) {
	sp := specs[prop]
	race := sp != nil && sp.race
	c := &check{spec: &spec{race: race}, prop: prop, verif: verif, repo: repo, dir: dir, start: time.Now()}
	c.loadKnown()
	scens := strings.Split(args[0], ",")
	var pre []string
	for _, s := range scens {
		pre = append(pre, prefixOf(s))
	}
	r, err := c.prepare(pre)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("built in %v\n", time.Since(c.start))
	from, _ := strconv.Atoi(args[1])
	to, _ := strconv.Atoi(args[2])
	for _, scen := range scens {
		t0 := time.Now()
		var mu sync.Mutex
		var wg sync.WaitGroup
		a := &agg{hashes: map[uint64]bool{}, hists: map[uint64]bool{}, nontrivial: map[uint64]bool{}, faults: map[string]int{}, probes: map[string]int{}, perScen: map[string]int{}}
		byClass := map[string]int{}
		ch := make(chan int)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := range ch {
					res := r.run(runOpt{scenario: scen, seed: uint64(s)})
					mu.Lock()
					a.add(res)
					if res.harness != "" {
						fmt.Printf("%s seed %d HARNESS %s\n", scen, s, res.harness)
					}
					seen := map[string]bool{}
					for _, v := range res.Violations {
						k := v.Prop + " " + v.Class
						if seen[k] {
							continue
						}
						seen[k] = true
						byClass[k]++
						if byClass[k] <= 4 {
							m := v.Msg
							if len(m) > 500 {
								m = m[:500]
							}
							fmt.Printf("%s seed %d %s [%s] %s\n", scen, s, v.Prop, v.Class, m)
						}
					}
					mu.Unlock()
				}
			}()
		}
		for s := from; s <= to; s++ {
			ch <- s
		}
		close(ch)
		wg.Wait()
		fmt.Printf("%s: %d runs in %.1fs (%.0f ms cpu/run), %d ops, %d distinct, sim %.0fs, steps %d, harness %d crash %d\n  faults %v\n  probes %v\n  violations %v\n", scen, a.runs, time.Since(t0).Seconds(), time.Since(t0).Seconds()*8000/float64(a.runs), a.ops, len(a.hashes), a.simS, a.steps, a.harness, a.crashes, a.faults, a.probes, byClass)
	}
}

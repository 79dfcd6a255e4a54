//go:build go1.21

// Command zzsim runs one deterministic simulation of gocryptsftp. It is
// compiled against /repo through an overlay; see /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Choice kinds, as counted by the scheduler.
const (
	kSched   = 1
	kPreempt = 2
	kSelect  = 4
	kRemote  = 5
	kNet     = 6
	kDisk    = 7
	kEnv     = 8
)

// Rand is the generator used to make plans (not for run time choices).
type Rand struct{ s uint64 }

func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next()>>1) % n
}
func (r *Rand) Range(a, b int) int       { return a + r.N(b-a+1) }
func (r *Rand) P(pct int) bool           { return r.N(100) < pct }
func (r *Rand) Pick(v ...int) int        { return v[r.N(len(v))] }
func (r *Rand) PickS(v ...string) string { return v[r.N(len(v))] }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	i := 0
	for i < n {
		v := r.Next()
		for j := 0; j < 8 && i < n; j++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return b
}

// Op is one step of the workload. Client C performs its ops in order.
type Op struct {
	C int    `json:"c"`
	K string `json:"k"`
	P string `json:"p,omitempty"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
}

// Sched is the scheduling part of a plan.
type Sched struct {
	Policy    uint32 `json:"policy"`
	YieldPPM  uint32 `json:"yield_ppm"`
	StallPPM  uint32 `json:"stall_ppm"`
	StallMax  int64  `json:"stall_max_ns"`
	SpreadPPM uint32 `json:"spread_ppm"`
}

// Plan is everything about a run that is decided before it starts. Together
// with Seed (and Trace, when replaying) it determines the run completely.
type Plan struct {
	Scenario string         `json:"scenario"`
	Seed     uint64         `json:"seed"`
	Sched    Sched          `json:"sched"`
	Par      map[string]int `json:"par"`
	Faults   map[string]int `json:"faults"` // kind -> ppm
	Ops      []Op           `json:"ops"`
	Expect   string         `json:"expect,omitempty"`
	Trace    []uint64       `json:"trace,omitempty"`
	HasTrace bool           `json:"has_trace,omitempty"`
}

type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Result struct {
	Seed       uint64           `json:"seed"`
	Scenario   string           `json:"scenario"`
	Violations []Violation      `json:"violations,omitempty"`
	Faults     map[string]int   `json:"faults"`
	Probes     map[string]int   `json:"probes"`
	Stats      runtime.SimStats `json:"stats"`
	Hist       uint64           `json:"hist"`
	Ops        int              `json:"ops"`
	Plan       *Plan            `json:"plan,omitempty"`
	Trace      []uint64         `json:"trace,omitempty"`
}

type Scenario struct {
	Name string
	Gen  func(r *Rand, p *Plan) // fills Par, Faults, Ops, Sched
	Run  func(e *Env)
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

// Env is the state of the running simulation.
type Env struct {
	plan  *Plan
	rng   *Rand // for structure (trees, contents), derived from the seed
	res   *Result
	hist  uint64
	quiet bool // faults have ended
	pend  map[int]string
	pendN int
	seq   uint64 // event number
	done  bool
	told  func(error) // sees what clients are told
	after func()      // a last look when the run is over
}

// now is the simulated time since the start of the run.
func (e *Env) now() int64 { return runtime.SimGetStats().SimNs }

// idle is simulated time without scheduling stalls: it advances only when no
// goroutine can run, so whatever a goroutine had left to do without blocking at
// an earlier idle time has been done.
func (e *Env) idle() int64 {
	s := runtime.SimGetStats()
	return s.SimNs - s.StallNs
}

var env *Env

func (e *Env) violate(prop, class, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 2000 {
		msg = msg[:2000]
	}
	if len(e.res.Violations) < 20 {
		e.res.Violations = append(e.res.Violations, Violation{prop, class, msg})
	}
}
func (e *Env) fault(kind string) { e.res.Faults[kind]++ }
func (e *Env) probe(name string) { e.res.Probes[name]++ }

// note mixes an observable event into the history hash.
func (e *Env) note(format string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	e.hist = (e.hist ^ h.Sum64()) * 0x100000001b3
}

func (e *Env) par(name string) int { return e.plan.Par[name] }

// chance is a run time coin for a fault kind enabled in the plan.
func (e *Env) chance(kind string, ck uint32) bool {
	ppm := e.plan.Faults[kind]
	if e.quiet {
		ppm = 0
	}
	if ppm > 999999 {
		ppm = 999999
	}
	return runtime.SimChoose(2, uint32(ppm), ck) == 1
}

// pick chooses uniformly among n at run time (0 when replaying a minimised
// trace without an entry).
func (e *Env) pick(n int, ck uint32) int {
	return int(runtime.SimChoose(uint32(n), 1000000, ck))
}

// begin/end track outstanding operations for the liveness oracle.
func (e *Env) begin(what string) int {
	e.pendN++
	e.pend[e.pendN] = what
	e.res.Ops++
	return e.pendN
}
func (e *Env) end(id int) { delete(e.pend, id) }

func (e *Env) pending() string {
	var s []string
	for _, v := range e.pend {
		s = append(s, v)
	}
	sort.Strings(s)
	if len(s) > 10 {
		s = append(s[:10], "...")
	}
	return strings.Join(s, "; ")
}

// stopFaults ends the fault phase.
func (e *Env) stopFaults() {
	e.quiet = true
	runtime.SimFaultsOff(true)
}

// clients runs every client's ops concurrently and waits for all of them.
func (e *Env) clients(ops []Op, f func(c int, op Op)) {
	byC := map[int][]Op{}
	var order []int
	for _, op := range ops {
		if _, ok := byC[op.C]; !ok {
			order = append(order, op.C)
		}
		byC[op.C] = append(byC[op.C], op)
	}
	doneC := make(chan int, len(order))
	for _, c := range order {
		c := c
		go func() {
			for _, op := range byC[c] {
				f(c, op)
			}
			doneC <- c
		}()
	}
	for range order {
		<-doneC
	}
}

func sleepMs(n int) { time.Sleep(time.Duration(n) * time.Millisecond) }

// genSched draws a scheduling configuration (swarm style).
func genSched(r *Rand, stalls bool) Sched {
	s := Sched{}
	s.Policy = uint32(r.Pick(1, 1, 1, 2, 2, 3, 0))
	s.YieldPPM = uint32(r.Pick(0, 3000, 20000, 60000, 150000, 400000))
	s.SpreadPPM = uint32(r.Pick(2000, 20000, 100000))
	if stalls {
		s.StallPPM = uint32(r.Pick(0, 20, 100, 400))
		s.StallMax = int64(r.Pick(1, 10, 25, 45, 120)) * int64(time.Second)
	}
	return s
}

func newPlan(scenario string, seed uint64) *Plan {
	sc := scenarios[scenario]
	if sc == nil {
		fmt.Fprintf(os.Stderr, "unknown scenario %q\n", scenario)
		os.Exit(3)
	}
	p := &Plan{Scenario: scenario, Seed: seed, Par: map[string]int{}, Faults: map[string]int{}}
	h := fnv.New64a()
	h.Write([]byte(scenario))
	r := &Rand{s: seed*0x2545F4914F6CDD1D + h.Sum64()}
	p.Par["tree"] = int(r.Next() >> 40)
	sc.Gen(r, p)
	return p
}

func anyScenario() (name string) {
	for n := range scenarios {
		if name == "" || n < name {
			name = n
		}
	}
	return name
}

func main() {
	var (
		scenario = flag.String("scenario", "", "")
		seed     = flag.Uint64("seed", 0, "")
		planFile = flag.String("plan", "", "run this plan instead of generating one")
		out      = flag.String("out", "", "write the result here")
		record   = flag.Int("record", 0, "record up to this many schedule deviations")
		emitPlan = flag.Bool("emit-plan", false, "include the plan in the result")
		maxSteps = flag.Uint64("max-steps", 150000000, "")
		planOnly = flag.Bool("plan-only", false, "write the plan without running it")
		list     = flag.Bool("list", false, "")
	)
	flag.Parse()
	if *list {
		for n := range scenarios {
			fmt.Println(n)
		}
		return
	}
	var p *Plan
	// A plan takes the same way whether it is made or given, so that the run is
	// the same: what has been initialised before it starts is part of it.
	for i := 0; i < 2; i++ {
		pf := *out + ".plan"
		if *planFile == "" {
			p = newPlan(*scenario, *seed)
		} else {
			p = newPlan(anyScenario(), 1)
		}
		b, err := json.Marshal(p)
		if err == nil {
			err = os.WriteFile(pf, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if *planFile != "" && i > 0 {
			pf = *planFile
		}
		runtime.SimSeedMaps(1)
		b, err = os.ReadFile(pf)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		p = &Plan{}
		if err := json.Unmarshal(b, p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	_ = os.Remove(*out + ".plan")
	for i := 0; i < 100; i++ {
		runtime.Gosched()
	}
	sc := scenarios[p.Scenario]
	if sc == nil {
		fmt.Fprintf(os.Stderr, "unknown scenario %q\n", p.Scenario)
		os.Exit(3)
	}
	if *planOnly {
		b, _ := json.Marshal(&Result{Seed: p.Seed, Scenario: p.Scenario, Plan: p})
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			os.Exit(3)
		}
		return
	}
	// The harness' own flags are done; the proxy parses its own later.
	flag.CommandLine = flag.NewFlagSet("proxy", flag.ContinueOnError)
	res := &Result{Seed: p.Seed, Scenario: p.Scenario, Faults: map[string]int{}, Probes: map[string]int{}}
	e := &Env{plan: p, rng: &Rand{s: uint64(p.Par["tree"])*0x9E3779B97F4A7C15 + 99}, res: res, pend: map[int]string{}}
	env = e
	over := false // the run has ended; what the collector makes run is no part of it
	write := func() {
		if !over {
			res.Stats = runtime.SimGetStats()
		}
		res.Hist = e.hist
		if *emitPlan {
			res.Plan = p
		}
		if *record > 0 && !over {
			res.Trace = runtime.SimRecorded()
		}
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			realExit(3)
		}
		if *out != "" {
			err = os.WriteFile(*out, b, 0o644)
		} else {
			_, err = os.Stdout.Write(append(b, '\n'))
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			realExit(3)
		}
	}
	finish := func() {
		e.done = true
		write()
		realExit(0)
	}
	writing := false
	expectedDeath = func() {
		if writing {
			return
		}
		writing = true
		write()
		writing = false
		os.Stderr.WriteString("SIM: the process may end now\n")
	}
	runtime.SimStart(runtime.SimConfig{
		Seed: p.Seed, Policy: p.Sched.Policy, YieldPPM: p.Sched.YieldPPM, StallPPM: p.Sched.StallPPM,
		StallMax: p.Sched.StallMax, SpreadPPM: p.Sched.SpreadPPM, MaxSteps: *maxSteps,
		Record: *record, Replay: p.HasTrace, Trace: p.Trace,
	})
	// If nothing can run any more and no timer is left, requests are stuck.
	go func() {
		runtime.SimWaitDeadlock()
		e.stuck("no goroutine can run and no timer is pending")
		finish()
	}()
	doneC := make(chan bool)
	go func() {
		sc.Run(e)
		doneC <- true
	}()
	<-doneC
	runtime.SimQuiet()
	if e.after != nil {
		res.Stats = runtime.SimGetStats()
		if *record > 0 {
			res.Trace = runtime.SimRecorded()
		}
		over = true
		e.after()
	}
	finish()
}

// expectedDeath saves the result so far: from here on the environment has done
// something on which ending the process is a correct reaction.
var expectedDeath func()

// stuckHook lets a scenario attribute a hang.
var stuckHook func(why string)

func (e *Env) stuck(why string) {
	if stuckHook != nil {
		stuckHook(why)
		return
	}
	e.violate("*", "hang", "%s at simulated time %v; outstanding: %s", why, time.Duration(runtime.SimGetStats().SimNs), e.pending())
}

func realExit(code int) {
	os.SimExit = nil
	os.Exit(code)
}

func diffBytes(got, want []byte) string {
	if len(got) != len(want) {
		n := 0
		for n < len(got) && n < len(want) && got[n] == want[n] {
			n++
		}
		return fmt.Sprintf("%d bytes instead of %d (equal up to %d)", len(got), len(want), n)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("differs first at byte %d of %d", i, len(got))
		}
	}
	return "equal"
}

func joinProps(a, b string) string {
	if b == "" {
		return a
	}
	if a == "" {
		return b
	}
	return a + "," + b
}

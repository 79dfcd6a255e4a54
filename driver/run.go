package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- the child's interface (see sim/core.go)

type op struct {
	C int    `json:"c"`
	K string `json:"k"`
	P string `json:"p,omitempty"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
}

type sched struct {
	Policy    uint32 `json:"policy"`
	YieldPPM  uint32 `json:"yield_ppm"`
	StallPPM  uint32 `json:"stall_ppm"`
	StallMax  int64  `json:"stall_max_ns"`
	SpreadPPM uint32 `json:"spread_ppm"`
}

type plan struct {
	Scenario string         `json:"scenario"`
	Seed     uint64         `json:"seed"`
	Sched    sched          `json:"sched"`
	Par      map[string]int `json:"par"`
	Faults   map[string]int `json:"faults"`
	Ops      []op           `json:"ops"`
	Expect   string         `json:"expect,omitempty"`
	Trace    []uint64       `json:"trace,omitempty"`
	HasTrace bool           `json:"has_trace,omitempty"`
}

func (p *plan) clone() *plan {
	q := *p
	q.Par, q.Faults = map[string]int{}, map[string]int{}
	for k, v := range p.Par {
		q.Par[k] = v
	}
	for k, v := range p.Faults {
		q.Faults[k] = v
	}
	q.Ops = append([]op{}, p.Ops...)
	q.Trace = append([]uint64{}, p.Trace...)
	return &q
}

type violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func (v *violation) blames(prop string) bool {
	for _, p := range strings.Split(v.Prop, ",") {
		if p == prop || p == "*" {
			return true
		}
	}
	return false
}

type stats struct {
	Steps, Yields, Switches, Stalls, Hash uint64
	StallNs, SimNs                        int64
	Kinds                                 [16]uint64
	Recorded                              int
}

type result struct {
	Seed       uint64         `json:"seed"`
	Scenario   string         `json:"scenario"`
	Violations []violation    `json:"violations,omitempty"`
	Faults     map[string]int `json:"faults"`
	Probes     map[string]int `json:"probes"`
	Stats      stats          `json:"stats"`
	Hist       uint64         `json:"hist"`
	Ops        int            `json:"ops"`
	Plan       *plan          `json:"plan,omitempty"`
	Trace      []uint64       `json:"trace,omitempty"`

	harness string // the run says nothing about the proxy: why
	died    bool   // the process ended without a result
	stderr  string
}

type runner struct {
	dir     string            // scratch
	bins    map[string]string // scenario prefix -> binary
	race    bool
	n       int64
	maxWall time.Duration
	repo    string
}

type runOpt struct {
	scenario string
	seed     uint64
	plan     *plan
	record   int
	emit     bool
	planOnly bool
	wall     time.Duration
}

func prefixOf(scenario string) string { return strings.SplitN(scenario, "/", 2)[0] }

func (r *runner) run(o runOpt) *result {
	id := atomic.AddInt64(&r.n, 1)
	scen := o.scenario
	if o.plan != nil {
		scen = o.plan.Scenario
	}
	bin := r.bins[prefixOf(scen)]
	d := filepath.Join(r.dir, fmt.Sprintf("run%d", id))
	if err := os.MkdirAll(d, 0o755); err != nil {
		return &result{harness: err.Error()}
	}
	defer os.RemoveAll(d)
	outF := filepath.Join(d, "out.json")
	tmp := filepath.Join(d, "tmp")
	_ = os.Mkdir(tmp, 0o755)
	args := []string{"-out", outF}
	if o.plan != nil {
		b, _ := json.Marshal(o.plan)
		pf := filepath.Join(d, "plan.json")
		if err := os.WriteFile(pf, b, 0o644); err != nil {
			return &result{harness: err.Error()}
		}
		args = append(args, "-plan", pf)
	} else {
		args = append(args, "-scenario", o.scenario, "-seed", fmt.Sprint(o.seed))
	}
	if o.record > 0 {
		args = append(args, "-record", fmt.Sprint(o.record))
	}
	if o.planOnly {
		args = append(args, "-plan-only")
	}
	if o.emit {
		args = append(args, "-emit-plan")
	}
	wall := o.wall
	if wall == 0 {
		wall = r.maxWall
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = d
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=", "HOME=" + tmp, "TMPDIR=" + tmp, "PATH=/usr/bin:/bin", "GOTRACEBACK=single", "LANG=C"}
	if r.race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 history_size=4 atexit_sleep_ms=0")
	}
	var serr bytes.Buffer
	cmd.Stderr = &limitedWriter{b: &serr, n: 1 << 20}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return &result{harness: err.Error()}
	}
	var timedOut int32
	t := time.AfterFunc(wall, func() {
		atomic.StoreInt32(&timedOut, 1)
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err := cmd.Wait()
	t.Stop()
	res := &result{Seed: o.seed, Scenario: scen, stderr: serr.String()}
	if o.plan != nil {
		res.Seed = o.plan.Seed
	}
	if atomic.LoadInt32(&timedOut) == 1 {
		res.died = true
		res.harness = "wall clock limit"
		return res
	}
	code := 0
	if err != nil {
		code = cmd.ProcessState.ExitCode()
	}
	if code == 0 {
		b, rerr := os.ReadFile(outF)
		if rerr == nil {
			rerr = json.Unmarshal(b, res)
		}
		if rerr != nil {
			res.died = true
			res.Violations = append(res.Violations, violation{"*", "exit", "the process ended by itself with status 0"})
			return res
		}
		if r.race {
			res.Violations = append(res.Violations, parseRaces(res.stderr, r.repo)...)
		}
		return res
	}
	if code == 2 && strings.Contains(res.stderr, "SIM: the process may end now") {
		b, rerr := os.ReadFile(outF)
		if rerr == nil && json.Unmarshal(b, res) == nil {
			return res
		}
	}
	res.died = true
	switch code {
	case 3:
		res.harness = "harness: " + tail(res.stderr, 400)
	case 96:
		res.Violations = append(res.Violations, violation{"*", "livelock", "step limit reached: " + tail(res.stderr, 300)})
	case 97:
		res.Violations = append(res.Violations, violation{"*", "hang", "deadlock: " + tail(res.stderr, 300)})
	case -1:
		res.harness = "killed: " + fmt.Sprint(err)
	default:
		if strings.Contains(res.stderr, "panic:") || strings.Contains(res.stderr, "fatal error:") || strings.Contains(res.stderr, "panic during") {
			v, harness := classifyPanic(res.stderr, r.repo)
			if harness != "" {
				res.harness = harness
			} else {
				res.Violations = append(res.Violations, v)
			}
		} else {
			res.Violations = append(res.Violations, violation{"*", "exit", fmt.Sprintf("the process under test exited with status %d: %s", code, tail(res.stderr, 300))})
		}
	}
	return res
}

type limitedWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

var frameRe = regexp.MustCompile(`^\t(/[^ ]+\.go):(\d+)`)

const repoModule = "github.com/flawedmatrix/gocryptsftp"

// classifyPanic decides whose panic a dead run was.
func classifyPanic(stderr, repo string) (violation, string) {
	lines := strings.Split(stderr, "\n")
	msg := ""
	for _, l := range lines {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			msg = l
			break
		}
	}
	who, where, third, fn := "", "", "", ""
	inG := false
	for _, l := range lines {
		if strings.HasPrefix(l, "goroutine ") {
			if inG {
				break
			}
			inG = true
			continue
		}
		if inG && l != "" && l[0] != '\t' {
			fn = l
		}
		m := frameRe.FindStringSubmatch(l)
		if inG && m == nil && strings.HasPrefix(l, "\t<autogenerated>") && strings.HasPrefix(fn, repoModule+"/") {
			// a method promoted through a nil field of a value the proxy made
			who, where = "proxy", strings.TrimPrefix(fn, repoModule+"/")
			if i := strings.LastIndex(where, "("); i > 0 {
				where = where[:i]
			}
			break
		}
		if !inG || m == nil {
			continue
		}
		f := m[1]
		rel := relRepo(f, repo)
		switch {
		case strings.HasPrefix(rel, "zzsim/") || strings.Contains(f, "/verif/sim/"):
			who = "harness"
		case rel != "":
			who, where = "proxy", rel+":"+m[2]
		case strings.Contains(f, "/pkg/mod/"):
			if third == "" {
				third = f[strings.Index(f, "/pkg/mod/")+9:] + ":" + m[2]
			}
		}
		if who != "" {
			break
		}
	}
	switch who {
	case "proxy":
		if third != "" {
			where += " (in " + third + ")"
		}
		return violation{"*", "panic", msg + " at " + where}, ""
	case "harness":
		return violation{}, "harness panic: " + msg + "\n" + tail(stderr, 1500)
	}
	if third != "" {
		return violation{"C13", "panic-dependency", msg + " in " + third}, ""
	}
	return violation{}, "unclassified crash: " + tail(stderr, 1500)
}

// relRepo maps a source path of a stack trace to a path inside the
// repository; instrumented copies report their own location.
func relRepo(f, repo string) string {
	if i := strings.Index(f, "/vsimrepo/"); i >= 0 {
		return f[i+len("/vsimrepo/"):]
	}
	if strings.HasPrefix(f, repo+"/") {
		return f[len(repo)+1:]
	}
	return ""
}

// raceSide says whose access one half of a race report is: "proxy" when a frame
// of the repository comes before any of the harness, "harness" when one of the
// harness does, "library" when neither occurs (a goroutine a library started
// for itself). direct is whether no library frame is below the proxy's.
func raceSide(sec, repo string) (who, loc string, direct bool) {
	direct = true
	for _, l := range strings.Split(sec, "\n") {
		l = "\t" + strings.TrimSpace(l)
		m := frameRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		rel := relRepo(m[1], repo)
		switch {
		case strings.HasPrefix(rel, "zzsim/") || strings.Contains(m[1], "/verif/sim/"):
			return "harness", "", false
		case rel != "":
			return "proxy", rel + ":" + m[2], direct
		case strings.Contains(m[1], "/pkg/mod/"):
			if direct {
				loc = m[1][strings.Index(m[1], "/pkg/mod/")+9:] + ":" + m[2]
			}
			direct = false
		}
	}
	if direct {
		return "", "", false
	}
	return "library", loc, false
}

// parseRaces extracts the data races that are the proxy's: both accesses by its
// code, or one directly by its code and the other by a library's goroutine.
func parseRaces(stderr, repo string) []violation {
	var out []violation
	blocks := strings.Split(stderr, "WARNING: DATA RACE")
	for _, b := range blocks[1:] {
		if i := strings.Index(b, "=================="); i >= 0 {
			b = b[:i]
		}
		secs := strings.Split(b, "\n\n")
		if len(secs) < 2 {
			continue
		}
		w0, l0, d0 := raceSide(secs[0], repo)
		w1, l1, d1 := raceSide(secs[1], repo)
		if w0 == "proxy" && w1 == "proxy" || w0 == "proxy" && d0 && w1 == "library" || w1 == "proxy" && d1 && w0 == "library" {
			if l1 < l0 {
				l0, l1 = l1, l0
			}
			out = append(out, violation{"C14", "race", "unsynchronised accesses at " + l0 + " and " + l1})
		}
	}
	return out
}

// Deterministic simulation support, added to package runtime by the
// /verif overlay. Never part of a normal build.

package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

// simOn is constant: a binary built with this overlay always runs under the
// simulated scheduler and the simulated clock.
const simOn = true

// simEpoch is the simulated time at process start (2020-09-13T12:26:40Z).
const simEpoch = 1600000000 * 1000000000

// Policies for picking the next goroutine.
const (
	simPolicyFIFO   = 0 // always the longest waiting one
	simPolicyRandom = 1 // uniform
	simPolicyPrio   = 2 // PCT style: random priority per goroutine, changed at random points
	simPolicySticky = 3 // mostly the most recently readied one
)

type simChoiceRec struct {
	at  uint64
	val uint32
	n   uint32
}

var simst struct {
	hrng uint64 // runtime housekeeping (treap tickets, profile sampling, lock spinning): never observable
	irng uint64 // internal stream (map seeds, math/rand, crypto/rand, ...)
	crng uint64 // choice stream (schedule, faults)

	policy    uint32
	yieldPPM  uint32 // probability of a forced reschedule at a yield point, per million
	stallPPM  uint32 // probability of a clock stall at a yield point, per million
	stallMax  int64  // longest stall, ns
	spreadPPM uint32 // priority change probability (policy Prio)
	faultsOff bool
	collect   bool
	quiet     bool // no preemption points

	replay    bool
	recording bool

	step     uint64 // number of choice points so far
	yields   uint64
	switches uint64
	stalls   uint64
	stallNs  int64
	spawned  uint64
	hash     uint64 // running hash of (choice point, value)
	maxSteps uint64
	simStart int64

	lastg uint64

	rec   []simChoiceRec
	recN  int
	rep   []simChoiceRec
	repI  int
	prio  [4096]uint32
	waitG guintptr // goroutine parked in SimWaitIdle
	deadG guintptr // goroutine parked in SimWaitDeadlock
	kinds [16]uint64
	randN uint64 // bytes of crypto/rand handed out
}

// SimRandBytes is the number of random bytes handed out since process start.
func SimRandBytes() uint64 { return simst.randN }

//go:nosplit
func simmix(p *uint64) uint64 {
	*p += 0x9e3779b97f4a7c15
	z := *p
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simrand() uint64 { return simmix(&simst.irng) }

// simcheap serves the runtime's own uses of randomness, whose number depends on
// things outside the simulation (lock contention between OS threads at start-up,
// the sizes of allocations the recorder makes), so it has a stream of its own.
//
//go:nosplit
func simcheap() uint64 { return simmix(&simst.hrng) }

//go:nosplit
func simreplay(n uint32) uint32 {
	s := &simst
	for s.repI < len(s.rep) && s.rep[s.repI].at < s.step {
		s.repI++
	}
	if s.repI < len(s.rep) && s.rep[s.repI].at == s.step {
		v := s.rep[s.repI].val
		if v >= n {
			v = n - 1
		}
		return v
	}
	return 0
}

//go:nosplit
func simnote(v, n, kind uint32) {
	s := &simst
	s.hash = (s.hash ^ s.step ^ uint64(v)<<40 ^ uint64(kind)<<60) * 0x100000001b3
	s.kinds[kind&15]++
	if s.recording && s.recN < len(s.rec) {
		s.rec[s.recN] = simChoiceRec{s.step, v, n}
		s.recN++
	}
}

// simchoose resolves one choice point with n alternatives. Alternative 0 is
// always the benign default (no fault, oldest goroutine). ppm 1000000 means
// uniform over all alternatives; less means 0 except with probability ppm/1e6,
// then uniform over 1..n-1.
//
//go:nosplit
func simchoose(n uint32, ppm uint32, kind uint32) uint32 {
	s := &simst
	s.step++
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.replay {
		v = simreplay(n)
	} else if ppm >= 1000000 {
		v = uint32(simmix(&s.crng)>>33) % n
	} else if ppm != 0 && uint32(simmix(&s.crng)>>33)%1000000 < ppm {
		v = 1 + uint32(simmix(&s.crng)>>33)%(n-1)
	}
	if v != 0 {
		simnote(v, n, kind)
	}
	return v
}

func simprio(gp *g) *uint32 { return &simst.prio[gp.goid%uint64(len(simst.prio))] }

// simpick chooses and removes the next goroutine of pp's local run queue.
func simpick(pp *p) *g {
	h := atomic.LoadAcq(&pp.runqhead)
	t := pp.runqtail
	n := t - h
	if n == 0 {
		return nil
	}
	q := uint32(len(pp.runq))
	s := &simst
	if s.maxSteps != 0 && s.step > s.maxSteps {
		print("SIM: step limit exceeded\n")
		exit(96)
	}
	var idx uint32
	if n > 1 {
		switch {
		case s.replay:
			idx = simchoose(n, 1000000, 1)
		case s.policy == simPolicyFIFO:
			s.step++
		case s.policy == simPolicyRandom:
			idx = simchoose(n, 1000000, 1)
		case s.policy == simPolicyPrio:
			best := uint32(0)
			bp := uint32(0)
			for i := uint32(0); i < n; i++ {
				p := simprio(pp.runq[(h+i)%q].ptr())
				if *p == 0 {
					*p = uint32(simmix(&s.crng)>>40) + 1
				}
				if *p > bp {
					bp = *p
					best = i
				}
			}
			if uint32(simmix(&s.crng)>>33)%1000000 < s.spreadPPM {
				*simprio(pp.runq[(h+best)%q].ptr()) = uint32(simmix(&s.crng)>>48) + 1
			}
			idx = simforce(n, best)
		default: // sticky
			r := uint32(simmix(&s.crng)>>33) % 8
			if r == 0 {
				idx = simchoose(n, 1000000, 1)
			} else {
				idx = simforce(n, n-1)
			}
		}
	}
	gp := pp.runq[(h+idx)%q].ptr()
	for i := idx; i > 0; i-- {
		pp.runq[(h+i)%q] = pp.runq[(h+i-1)%q]
	}
	atomic.StoreRel(&pp.runqhead, h+1)
	if gp.goid != s.lastg {
		s.lastg = gp.goid
		s.switches++
	}
	return gp
}

// simforce records a choice already made by a policy.
func simforce(n, v uint32) uint32 {
	simst.step++
	if v != 0 {
		simnote(v, n, 1)
	}
	return v
}

// simidle is called by the scheduler when no goroutine is runnable. It either
// readies a goroutine or moves the simulated clock to the next timer.
func simidle(pp *p) {
	s := &simst
	if gp := s.waitG.ptr(); gp != nil {
		s.waitG.set(nil)
		casgstatus(gp, _Gwaiting, _Grunnable)
		runqput(pp, gp, false)
		return
	}
	when := pp.timers.wakeTime()
	if when > 0 {
		if when > faketime {
			faketime = when
		}
		return
	}
	if gp := s.deadG.ptr(); gp != nil {
		s.deadG.set(nil)
		casgstatus(gp, _Gwaiting, _Grunnable)
		runqput(pp, gp, false)
		return
	}
	print("SIM: all goroutines are asleep and no timer is pending\n")
	exit(97)
}

// simpoint is a potential preemption point in user code: one choice point with
// alternatives 0 go on, 1 reschedule, 2..5 stall (the clock jumps, as if the
// process had been stopped or starved) and reschedule.
func simpoint() {
	s := &simst
	if s.quiet {
		return
	}
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.p == 0 || readgstatus(gp)&^_Gscan != _Grunning {
		return
	}
	s.yields++
	s.step++
	var v uint32
	if s.replay {
		v = simreplay(6)
	} else {
		r := uint32(simmix(&s.crng)>>33) % 1000000
		if r < s.yieldPPM {
			v = 1
		} else if !s.faultsOff && r-s.yieldPPM < s.stallPPM {
			v = 2 + uint32(simmix(&s.crng)>>33)%4
		}
	}
	if v == 0 {
		return
	}
	simnote(v, 6, 2)
	if v > 1 {
		d := s.stallMax >> (3 * (5 - v))
		if d < 1 {
			d = 1
		}
		faketime += d
		s.stalls++
		s.stallNs += d
	}
	goyield()
}

// SimYield is inserted before the statements of the code under test.
func SimYield() { simpoint() }

//go:linkname sync_simYield sync.runtime_simYield
func sync_simYield() { simpoint() }

// SimConfig configures one run. It must be called once, from the main
// goroutine, before the system under test is started.
type SimConfig struct {
	Seed      uint64
	Policy    uint32
	YieldPPM  uint32
	StallPPM  uint32
	StallMax  int64
	SpreadPPM uint32
	MaxSteps  uint64
	Record    int // how many deviations may be recorded
	Replay    bool
	Trace     []uint64 // at, val pairs
}

// SimSeedMaps restarts the stream of the runtime's own randomness.
func SimSeedMaps(seed uint64) { simst.hrng = seed*0x9e3779b97f4a7c15 + 0x5151 }

func SimStart(c SimConfig) {
	s := &simst
	s.irng = c.Seed ^ 0x1234567812345678
	SimSeedMaps(c.Seed)
	s.crng = c.Seed*0x9e3779b97f4a7c15 + 0x7777
	s.policy = c.Policy
	s.yieldPPM = c.YieldPPM
	s.stallPPM = c.StallPPM
	s.stallMax = c.StallMax
	s.spreadPPM = c.SpreadPPM
	s.maxSteps = c.MaxSteps
	if c.Record > 0 {
		s.rec = make([]simChoiceRec, c.Record)
		s.recording = true
	}
	if c.Replay {
		s.replay = true
		s.rep = make([]simChoiceRec, len(c.Trace)/2)
		for i := range s.rep {
			s.rep[i] = simChoiceRec{c.Trace[2*i], uint32(c.Trace[2*i+1]), 0}
		}
	}
	s.step = 0
	s.simStart = faketime
	s.hash = 0xcbf29ce484222325
	s.switches, s.yields, s.stalls, s.stallNs = 0, 0, 0, 0
}

// SimChoose lets the simulated environment (network, remote, disk) draw from
// the same recorded choice stream. 0 is the benign outcome.
func SimChoose(n uint32, ppm uint32, kind uint32) uint32 { return simchoose(n, ppm, kind) }

// SimRand draws from the internal stream.
func SimRand() uint64 { return simrand() }

// SimFaultsOff stops clock stalls (faults have ended; liveness phase).
func SimFaultsOff(off bool) { simst.faultsOff = off }

// SimQuiet makes the scheduler fair and non preemptive from here on.
func SimQuiet() {
	simst.policy = simPolicyFIFO
	simst.quiet = true
	simst.faultsOff = true
}

// SimCollect lets the garbage collector run from here on.
func SimCollect() { simst.collect = true }

// SimWaitIdle parks the caller until nothing else is runnable at the current
// simulated instant.
func SimWaitIdle() {
	gp := getg()
	if simst.waitG != 0 {
		throw("SimWaitIdle: already waiting")
	}
	gopark(func(gp *g, _ unsafe.Pointer) bool {
		simst.waitG.set(gp)
		return true
	}, nil, waitReasonZero, traceBlockForever, 1)
	_ = gp
}

// SimWaitDeadlock parks the caller until nothing is runnable and no timer is
// pending, that is, until the system can make no more progress.
func SimWaitDeadlock() {
	gopark(func(gp *g, _ unsafe.Pointer) bool {
		simst.deadG.set(gp)
		return true
	}, nil, waitReasonZero, traceBlockForever, 1)
}

// SimStats is what one run reports about its schedule.
type SimStats struct {
	Steps, Yields, Switches, Stalls, Hash uint64
	StallNs                               int64
	SimNs                                 int64
	Kinds                                 [16]uint64
	Recorded                              int
}

func SimGetStats() SimStats {
	s := &simst
	return SimStats{s.step, s.yields, s.switches, s.stalls, s.hash, s.stallNs, faketime - s.simStart, s.kinds, s.recN}
}

// SimStep is the global event sequence number.
func SimStep() uint64 { return simst.step }

// SimRecorded returns the recorded deviations as at, val pairs.
func SimRecorded() []uint64 {
	r := make([]uint64, 0, 2*simst.recN)
	for i := 0; i < simst.recN; i++ {
		r = append(r, simst.rec[i].at, uint64(simst.rec[i].val))
	}
	return r
}

// SimGoID identifies the running goroutine.
func SimGoID() uint64 { return getg().goid }

//go:linkname sysrand_simRead crypto/internal/sysrand.simRead
func sysrand_simRead(b []byte) {
	simst.randN += uint64(len(b))
	for len(b) > 0 {
		v := simrand()
		for i := 0; i < 8 && len(b) > 0; i++ {
			b[0] = byte(v)
			v >>= 8
			b = b[1:]
		}
	}
}

// SimPassword replaces reading a passphrase from the terminal. The driver
// rewrites calls of terminal.ReadPassword in the code under test to it.
var SimPassword func(fd int) ([]byte, error)

func SimReadPassword(fd int) ([]byte, error) {
	return SimPassword(fd)
}

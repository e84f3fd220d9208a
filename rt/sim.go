// Package runtime: deterministic-simulation support. This file is added to a
// pinned copy of the Go runtime through "go build -overlay"; it is never part
// of a shipped build.
package runtime

import "unsafe"

// Scheduling policies.
const (
	SimPolicyRandom = 0 // at each yield point preempt with probability 1/simCfg.Den
	SimPolicyPCT    = 1 // random priorities, a few priority change points
	SimPolicyCoop   = 2 // switch only where a goroutine blocks, pick at random
	SimPolicyReplay = 3 // follow a recorded list of (decision index, choice)
	SimPolicyFIFO   = 4 // no preemption, first in first out
)

// SimDecision is one non-default scheduling decision.
type SimDecision struct {
	K uint32 // decision index within the run
	C uint32 // choice (0 is the default and is never recorded)
}

// SimConfig configures one simulated run.
type SimConfig struct {
	Seed     uint64
	Policy   int
	Den      uint32 // SimPolicyRandom: preempt with probability 1/Den
	Changes  int    // SimPolicyPCT: number of priority change points
	Horizon  uint32 // SimPolicyPCT: change points are drawn from the first Horizon yields
	Replay   []SimDecision
	MaxSteps uint64 // yield budget, 0 = unlimited
	OnBudget func() // called (once) on the goroutine that exceeds the budget
}

// SimStats describes a finished (or running) run.
type SimStats struct {
	Steps     uint64 // yield points passed
	Decisions uint32 // decision points with more than one option
	Switches  uint64 // goroutine dispatches
	Preempts  uint64 // forced preemptions
	Trace     uint64 // hash of the dispatch sequence
	MaxGs     uint32 // goroutines created in the run
}

const simMaxRec = 1 << 16

var simst struct {
	on       bool
	policy   int
	den      uint32
	sched    uint64
	rnd      uint64
	aux      uint64
	k        uint32
	replay   []SimDecision
	rpos     int
	rec      [simMaxRec]SimDecision
	nrec     int
	recOver  bool
	steps    uint64
	max      uint64
	onBudget func()
	switches uint64
	preempts uint64
	trace    uint64
	gseq     uint32
	changes  [16]uint32
	nchg     int
	lowprio  uint32
	skip     bool // the pick after a forced preemption under PCT
	prevented uint64
}

//go:nosplit
func simnext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimStart turns the simulated scheduler on. The caller must be the only
// running goroutine that matters, with GOMAXPROCS(1).
func SimStart(c SimConfig) {
	simst.on = false
	s := c.Seed
	simst.sched = simnext(&s)
	simst.rnd = simnext(&s)
	simst.aux = simnext(&s)
	simst.policy = c.Policy
	simst.den = c.Den
	if simst.den == 0 {
		simst.den = 4
	}
	simst.k = 0
	simst.replay = c.Replay
	simst.rpos = 0
	simst.nrec = 0
	simst.recOver = false
	simst.steps = 0
	simst.max = c.MaxSteps
	simst.onBudget = c.OnBudget
	simst.switches = 0
	simst.preempts = 0
	simst.trace = 14695981039346656037
	simst.gseq = 0
	simst.lowprio = 1 << 20
	n := c.Changes
	if n > len(simst.changes) {
		n = len(simst.changes)
	}
	simst.nchg = n
	for i := 0; i < n; i++ {
		h := c.Horizon
		if h == 0 {
			h = 1000
		}
		simst.changes[i] = uint32(simnext(&s) % uint64(h))
	}
	simst.on = true
}

// SimStop turns the simulated scheduler off.
func SimStop() { simst.on = false }

// SimOn reports whether a simulated run is active.
func SimOn() bool { return simst.on }

// SimRecorded returns a copy of the non-default decisions taken so far and
// whether the log overflowed.
func SimRecorded() ([]SimDecision, bool) {
	out := make([]SimDecision, simst.nrec)
	copy(out, simst.rec[:simst.nrec])
	return out, simst.recOver
}

// SimGetStats returns counters of the current or last run.
func SimGetStats() SimStats {
	return SimStats{simst.steps, simst.k, simst.switches, simst.preempts, simst.trace, simst.gseq}
}

// SimStep returns the number of yield points passed in this run.
func SimStep() uint64 { return simst.steps }

// SimGoroutines returns the number of live goroutines in the current bubble,
// not counting the bubble's root.
func SimGoroutines() int {
	b := getg().bubble
	if b == nil {
		return -1
	}
	lock(&b.mu)
	n := b.total - 1
	unlock(&b.mu)
	return n
}

// SimGID returns the run-local id of the current goroutine.
func SimGID() uint32 { return getg().simID }

// simRegister is called from newproc1 for every new goroutine.
func simRegister(gp *g) {
	gp.simID = 0
	gp.simPrio = 0
	if simst.on && gp.bubble != nil {
		simst.gseq++
		gp.simID = simst.gseq
		gp.simPrio = 1<<21 + uint32(simnext(&simst.aux)>>44)
	}
}

// simAux returns a value for the runtime's own tie-breaking randomness.
//
//go:nosplit
func simAux() uint32 {
	if simst.on {
		return uint32(simnext(&simst.aux) >> 32)
	}
	return cheaprand()
}

//go:nosplit
func simAuxn(n uint32) uint32 {
	if simst.on {
		return uint32((simnext(&simst.aux) >> 32) % uint64(n))
	}
	return cheaprandn(n)
}

//go:nosplit
func simInBubble() bool {
	if !simst.on {
		return false
	}
	mp := getg().m
	return mp.curg != nil && mp.curg.bubble != nil
}

// simNano replaces the real clock in sync.Mutex starvation accounting.
func simNano() int64 {
	if simst.on {
		return int64(simst.steps) * 100
	}
	return nanotime()
}

// simChoose takes one recorded decision with n options, 0 being the default.
// dflt is what the current policy wants.
func simChoose(n uint32, want uint32) uint32 {
	k := simst.k
	simst.k++
	c := want
	if simst.policy == SimPolicyReplay {
		c = 0
		for simst.rpos < len(simst.replay) && simst.replay[simst.rpos].K < k {
			simst.rpos++
		}
		if simst.rpos < len(simst.replay) && simst.replay[simst.rpos].K == k {
			c = simst.replay[simst.rpos].C
			simst.rpos++
		}
	}
	if c >= n {
		c = 0
	}
	if c != 0 {
		if simst.nrec < simMaxRec {
			simst.rec[simst.nrec] = SimDecision{k, c}
			simst.nrec++
		} else {
			simst.recOver = true
		}
	}
	return c
}

// simRunnable reports whether another bubble goroutine is queued, and the
// highest priority among them.
func simRunnable(pp *p) (any bool, prio uint32) {
	if next := pp.runnext.ptr(); next != nil && next.bubble != nil {
		any, prio = true, next.simPrio
	}
	h, t := pp.runqhead, pp.runqtail
	for ; h != t; h++ {
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if gp.bubble != nil {
			any = true
			if gp.simPrio > prio {
				prio = gp.simPrio
			}
		}
	}
	return
}

// SimYield is a scheduling point.
func SimYield() {
	if !simst.on {
		return
	}
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.dying != 0 {
		return
	}
	b := gp.bubble
	if b == nil || gp == b.root {
		return
	}
	simst.steps++
	if simst.max != 0 && simst.steps > simst.max && simst.onBudget != nil {
		f := simst.onBudget
		simst.onBudget = nil
		f()
		return
	}
	pp := mp.p.ptr()
	any, prio := simRunnable(pp)
	if simst.policy == SimPolicyPCT {
		for i := 0; i < simst.nchg; i++ {
			if uint64(simst.changes[i]) == simst.steps {
				simst.lowprio--
				gp.simPrio = simst.lowprio
			}
		}
	}
	if !any {
		return
	}
	want := uint32(0)
	switch simst.policy {
	case SimPolicyRandom:
		if uint32(simnext(&simst.sched)>>33)%simst.den == 0 {
			want = 1
		}
	case SimPolicyPCT:
		if prio > gp.simPrio {
			want = 1
		}
	}
	if simChoose(2, want) == 1 {
		simst.preempts++
		goyield()
	}
}

// simRunqget replaces runqget while a run is active: goroutines outside the
// bubble and the bubble's root run first, in order; among the others the
// policy picks.
func simRunqget(pp *p) *g {
	// Fold runnext into the ring.
	for {
		next := pp.runnext
		if next == 0 {
			break
		}
		if pp.runnext.cas(next, 0) {
			runqput(pp, next.ptr(), false)
			break
		}
	}
	h, t := pp.runqhead, pp.runqtail
	n := t - h
	if n == 0 {
		return nil
	}
	size := uint32(len(pp.runq))
	pick := uint32(0)
	found := false
	for i := uint32(0); i < n; i++ {
		gp := pp.runq[(h+i)%size].ptr()
		if gp.bubble == nil || gp == gp.bubble.root {
			pick, found = i, true
			break
		}
	}
	if !found && n > 1 {
		want := uint32(0)
		switch simst.policy {
		case SimPolicyRandom, SimPolicyCoop:
			want = uint32((simnext(&simst.sched) >> 32) % uint64(n))
		case SimPolicyPCT:
			best := pp.runq[h%size].ptr().simPrio
			for i := uint32(1); i < n; i++ {
				if pr := pp.runq[(h+i)%size].ptr().simPrio; pr > best {
					best, want = pr, i
				}
			}
		}
		pick = simChoose(n, want)
	}
	gp := pp.runq[(h+pick)%size].ptr()
	for i := pick; i > 0; i-- {
		pp.runq[(h+i)%size] = pp.runq[(h+i-1)%size]
	}
	pp.runqhead = h + 1
	if gp.bubble != nil {
		simst.switches++
		simst.trace = (simst.trace ^ uint64(gp.simID)) * 1099511628211
		simst.trace = (simst.trace ^ simst.steps) * 1099511628211
	}
	return gp
}

// SimStacks returns the stacks of the goroutines of the current bubble, other
// than the caller. Stack text contains real goroutine ids and addresses, so it
// is for reports only.
func SimStacks() string {
	var buf []byte
	buf = make([]byte, 1<<18)
	n := Stack(buf, true)
	return string(buf[:n])
}

var _ = unsafe.Pointer(nil)

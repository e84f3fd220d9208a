package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb/pkg/flake"
)

// ---------------------------------------------------------------- randomness

// R is a splitmix64 generator: the only source of choices in the harness.
type R struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewR derives a generator from a seed and a stream name.
func NewR(seed uint64, stream string) *R {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	return &R{mix(seed ^ mix(h))}
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

func (r *R) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64()>>1) % n
}

// Range returns a value in [lo, hi].
func (r *R) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P is true with probability pct/100.
func (r *R) P(pct int) bool { return r.Intn(100) < pct }

func pick[T any](r *R, xs ...T) T { return xs[r.Intn(len(xs))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- properties

// Prop is one property and how it is simulated.
type Prop struct {
	ID    string
	Title string
	// Gen makes a case (JSON-able) from a seed. tier is quick or thorough.
	Gen func(r *R, tier string) any
	// Warm makes a case that initialises what libraries initialise once.
	Warm func() any
	// Run executes a case inside the simulation and reports violations on e.
	Run func(e *Env, c any)
	// Dec decodes a case.
	Dec func(raw json.RawMessage) any
	// Runs is the number of simulated runs in the quick tier.
	Runs int
	// SimLimit is the simulated time after which a run counts as hung.
	SimLimit time.Duration
	// MaxSteps is the yield budget; beyond it a run counts as a livelock.
	MaxSteps uint64
	// Race builds the simulator with the race detector.
	Race bool
	// Serial means schedules do not matter: always FIFO.
	Serial bool

	Rule     string   // how cases are made and what is non-trivial
	Real     []string // components running real code
	Stub     []string // components replaced by a model
	Assume   []string
	LevelStr string
}

var props = map[string]*Prop{}

// reg registers a property whose cases have type T.
func reg[T any](p *Prop, gen func(r *R, tier string) T, run func(e *Env, c T)) {
	p.Gen = func(r *R, tier string) any { return gen(r, tier) }
	p.Dec = func(raw json.RawMessage) any { return decode[T](raw) }
	p.Run = func(e *Env, c any) { run(e, c.(T)) }
	register(p)
}

func register(p *Prop) {
	if p.SimLimit == 0 {
		p.SimLimit = 30 * 24 * time.Hour
	}
	if p.MaxSteps == 0 {
		p.MaxSteps = 2_000_000
	}
	if p.LevelStr == "" {
		p.LevelStr = "exploration"
	}
	props[p.ID] = p
}

// ---------------------------------------------------------------- environment

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Env is what a simulated run sees. Only one goroutine runs at a time and the
// harness is not instrumented with scheduling points, so no locking.
type Env struct {
	Prop   string
	Seed   uint64
	Salt   string
	Faults map[string]int
	Probes map[string]int
	Viol   *Violation
	Hist   []string
	seq    int
	start  time.Time
	ops    int
	dig    uint64
	live   int
}

// Failf reports a violation. The first one counts.
func (e *Env) Failf(class, f string, a ...any) {
	if e.Viol == nil {
		v := &Violation{class, fmt.Sprintf(f, a...)}
		if isKnown(e.Prop, v) {
			e.Probes["known-finding:"+class]++
			return
		}
		e.Viol = v
		e.Logf("VIOLATION %s: %s", class, e.Viol.Msg)
	}
}

// Failed reports whether a violation was recorded.
func (e *Env) Failed() bool { return e.Viol != nil }

// Fault counts an injected fault.
func (e *Env) Fault(kind string) {
	hb()
	e.Faults[kind]++
	e.Logf("fault %s", kind)
}

// Probe counts a rare condition that was reached.
func (e *Env) Probe(name string) {
	hb()
	e.Probes[name]++
	hb()
}

// Seq returns the next global event number.
func (e *Env) Seq() int { e.seq++; return e.seq }

// Op counts one operation of the system under test.
func (e *Env) Op() { e.ops++ }

// Logf appends to the run's event log. It draws no randomness and does not
// yield; the log's digest is compared across replays.
func (e *Env) Logf(f string, a ...any) {
	hb()
	defer hb()
	s := fmt.Sprintf(f, a...)
	e.dig = (e.dig ^ hashStr(s)) * 1099511628211
	if simLog {
		fmt.Fprintf(os.Stderr, "[%v] %s\n", time.Since(e.start), s)
	}
	if len(e.Hist) < 3000 {
		e.Hist = append(e.Hist, fmt.Sprintf("[%v] %s", time.Since(e.start), s))
	}
}

// Go runs f as a simulated thread; a panic in it is a violation.
func (e *Env) Go(name string, done func(), f func()) {
	go func() {
		defer func() {
			if x := recover(); x != nil {
				e.Failf("panic", "%s: panic: %v\n%s", name, x, shortStack())
			}
			if done != nil {
				done()
			}
		}()
		f()
	}()
}

// Safely runs f; a panic in it is a violation. It reports whether f returned.
func (e *Env) Safely(name string, f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			e.Failf("panic", "%s: panic: %v\n%s", name, x, shortStack())
			ok = false
		}
	}()
	f()
	return true
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if i := strings.Index(l, ".go:"); i >= 0 {
			l = strings.TrimSpace(l)
			if j := strings.Index(l, " +0x"); j >= 0 {
				l = l[:j]
			}
			if strings.Contains(l, "runtime/") || strings.Contains(l, "verifsim/core.go") {
				continue
			}
			out = append(out, l)
			if len(out) >= 12 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------- scheduling

// Sched says how one run is scheduled. With Replay set, Decisions are followed
// and everything else takes the default (first in, first out, no preemption).
type Sched struct {
	Policy    int         `json:"policy"`
	Den       uint32      `json:"den,omitempty"`
	Changes   int         `json:"changes,omitempty"`
	Horizon   uint32      `json:"horizon,omitempty"`
	Replay    bool        `json:"replay,omitempty"`
	Decisions [][2]uint32 `json:"decisions,omitempty"`
}

func genSched(seed uint64, serial bool) Sched {
	r := NewR(seed, "sched")
	if serial {
		return Sched{Policy: runtime.SimPolicyFIFO}
	}
	switch x := r.Intn(100); {
	case x < 45:
		return Sched{Policy: runtime.SimPolicyRandom, Den: pick[uint32](r, 2, 2, 3, 5, 10, 30)}
	case x < 82:
		return Sched{Policy: runtime.SimPolicyPCT, Changes: r.Range(1, 5), Horizon: pick[uint32](r, 60, 200, 600, 2000)}
	case x < 92:
		return Sched{Policy: runtime.SimPolicyCoop}
	default:
		return Sched{Policy: runtime.SimPolicyFIFO}
	}
}

// RunResult is what one simulated run produced.
type RunResult struct {
	I       int            `json:"i"`
	Viol    *Violation     `json:"viol,omitempty"`
	Trace   uint64         `json:"trace"`
	Digest  uint64         `json:"digest"`
	Steps   uint64         `json:"steps"`
	Switch  uint64         `json:"switches"`
	Preempt uint64         `json:"preempts"`
	Gs      uint32         `json:"gs"`
	Ops     int            `json:"ops"`
	SimNS   int64          `json:"sim_ns"`
	Leak    bool           `json:"leak,omitempty"`
	Faults  map[string]int `json:"faults,omitempty"`
	Probes  map[string]int `json:"probes,omitempty"`
	Hist    []string       `json:"hist,omitempty"`
	Dec     [][2]uint32    `json:"dec,omitempty"`
	DecOver bool           `json:"dec_over,omitempty"`
}

// execRun executes one case under one schedule. onBudget must not return.
func execRun(p *Prop, raw json.RawMessage, seed uint64, sc Sched, onBudget func(RunResult)) RunResult {
	cs := p.Dec(raw)
	resetGlobals()
	runtime.GC()
	runtime.GC()
	e := &Env{Prop: p.ID, Seed: seed, Salt: fmt.Sprintf("%012x", mix(seed)&0xffffffffffff), Faults: map[string]int{}, Probes: map[string]int{}}
	var simEnd time.Duration
	finish := func() RunResult {
		st := runtime.SimGetStats()
		res := RunResult{Viol: e.Viol, Trace: st.Trace, Digest: e.dig, Steps: st.Steps, Switch: st.Switches,
			Preempt: st.Preempts, Gs: st.MaxGs, Ops: e.ops, SimNS: int64(simEnd), Faults: e.Faults, Probes: e.Probes}
		dec, over := runtime.SimRecorded()
		if e.Viol != nil {
			res.DecOver = over
			for _, d := range dec {
				res.Dec = append(res.Dec, [2]uint32{d.K, d.C})
			}
			res.Hist = e.Hist
			if n := len(res.Hist); n > 400 {
				res.Hist = append(append([]string{}, res.Hist[:100]...), res.Hist[n-300:]...)
			}
		}
		return res
	}
	cfg := runtime.SimConfig{Seed: mix(seed ^ 0x5bd1e995), Policy: sc.Policy, Den: sc.Den, Changes: sc.Changes, Horizon: sc.Horizon, MaxSteps: p.MaxSteps}
	if sc.Replay {
		cfg.Policy = runtime.SimPolicyReplay
		for _, d := range sc.Decisions {
			cfg.Replay = append(cfg.Replay, runtime.SimDecision{K: d[0], C: d[1]})
		}
	}
	cfg.OnBudget = func() {
		simEnd = time.Since(e.start)
		runtime.SimStop()
		e.Failf("livelock", "no end after %d scheduling points (%v simulated): the system spins", p.MaxSteps, simEnd)
		onBudget(finish())
	}
	leak := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				msg := fmt.Sprint(x)
				if strings.Contains(msg, "main bubble goroutine has exited") {
					leak = true
					return
				}
				if strings.Contains(msg, "deadlock") {
					runtime.SimStop()
					e.Failf("deadlock", "every goroutine is blocked and no timer is pending\n%s", repoStacks())
					return
				}
				panic(x)
			}
		}()
		runtime.SimStart(cfg)
		synctest.Run(func() {
			e.start = time.Now()
			flake.DefaultIDGenerator = makeGen(7, flake.DefaultStartTime)
			done := make(chan struct{})
			e.Go("main", func() { close(done) }, func() { p.Run(e, cs) })
			t := time.NewTimer(p.SimLimit)
			select {
			case <-done:
				t.Stop()
			case <-t.C:
				e.Failf("hang", "not finished after %v of simulated time\n%s", p.SimLimit, repoStacks())
			}
			simEnd = time.Since(e.start)
		})
	}()
	runtime.SimStop()
	res := finish()
	res.Leak = leak
	return res
}

// repoStacks summarises blocked goroutines that are inside the code under test.
func repoStacks() string {
	var out []string
	for _, g := range strings.Split(runtime.SimStacks(), "\n\n") {
		if !strings.Contains(g, "synctest bubble") {
			continue
		}
		var fr []string
		repo := false
		lines := strings.Split(g, "\n")
		for i := 1; i < len(lines); i++ {
			l := strings.TrimSpace(lines[i])
			if j := strings.Index(l, " +0x"); j >= 0 && strings.Contains(l, ".go:") {
				l = l[:j]
				if strings.Contains(l, "/repo/") && !strings.Contains(l, "verifsim") {
					repo = true
				}
				if !strings.Contains(l, "/src/runtime/") {
					fr = append(fr, l)
				}
			}
		}
		if repo {
			hd := lines[0]
			if i := strings.Index(hd, "["); i >= 0 {
				hd = hd[i:]
			}
			out = append(out, hd+" "+strings.Join(fr, " < "))
		}
	}
	sort.Strings(out)
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: ", err)
		os.Exit(3)
	}
	return b
}

// decode reads a case; a malformed one is a harness error.
func decode[T any](raw json.RawMessage) T {
	var v T
	if err := json.Unmarshal(raw, &v); err != nil {
		panic(fmt.Sprintf("harness: bad case: %v", err))
	}
	return v
}

var simLog = os.Getenv("VERIFSIM_LOG") != ""

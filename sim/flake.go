package main

import (
	"context"
	"sort"
	"sync"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/flake"
)

// clockFault changes what the wall clock reads, from the n-th reading on.
type clockFault struct {
	Read int    `json:"read"` // index of the clock reading at which it takes effect
	Kind string `json:"kind"` // back, fwd, stall
	US   int    `json:"us"`   // size in microseconds
}

// simClock is a wall clock under test control. Readings are counted, so a jump
// can fall between any two of them.
type simClock struct {
	e      *Env
	off    time.Duration
	faults []clockFault
	reads  int
	frozen time.Time // while stalled
	until  time.Time // simulated instant at which the stall ends
	back   time.Duration
	last   time.Time
	armed  bool
}

func (c *simClock) peek() time.Time {
	t := wallNow()
	if !c.until.IsZero() && t.Before(c.until) {
		return c.frozen
	}
	return t.Add(c.off)
}

func (c *simClock) now() time.Time {
	if !c.armed {
		return c.peek()
	}
	n := c.reads
	c.reads++
	for _, f := range c.faults {
		if f.Read != n {
			continue
		}
		d := time.Duration(f.US) * time.Microsecond
		switch f.Kind {
		case "back":
			c.off -= d
			c.back += d
			c.e.Fault("clock-step-back")
		case "fwd":
			c.off += d
			c.e.Fault("clock-step-forward")
		case "stall":
			c.frozen = c.peek()
			c.until = wallNow().Add(d)
			// The clock resumes from where it stopped.
			c.off -= d
			c.back += d
			c.e.Fault("clock-stall")
		}
	}
	c.last = c.peek()
	return c.last
}

func genClockFaults(r *R, kinds []string, maxUS, reads int) []clockFault {
	var out []clockFault
	if r.P(35) {
		return out
	}
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		us := r.Range(1, maxUS)
		switch r.Intn(4) {
		case 0:
			us = r.Range(1, 3000)
		case 1:
			us = pick(r, 1000, 2000, 999, 1001, 64000, 500)
		}
		out = append(out, clockFault{Read: r.Intn(reads), Kind: pick(r, kinds...), US: us})
	}
	return out
}

type caller struct {
	N     int   `json:"n"`
	Pause []int `json:"pause"` // microseconds slept before call i (cyclic)
}

func genCallers(r *R, maxCallers, maxIDs int) []caller {
	var out []caller
	for i, n := 0, r.Range(1, maxCallers); i < n; i++ {
		c := caller{N: r.Range(1, maxIDs)}
		switch r.Intn(4) {
		case 0: // burst
		case 1:
			c.Pause = []int{r.Range(1, 1500)}
		default:
			for k, m := 0, r.Range(1, 6); k < m; k++ {
				c.Pause = append(c.Pause, pick(r, 0, 0, 0, 1, 100, 400, 999, 1000, 1001, 5000))
			}
		}
		out = append(out, c)
	}
	return out
}

// observed is one identifier handed to a caller.
type observed struct {
	id       uint64
	inv, ret int
	t0, t1   time.Time // wall clock at call and at return
	node     int
	who      int
}

func makeGen(machine uint16, start time.Time) (g flake.IDGenerator) {
	return flake.NewIDGenerator(flake.Settings{
		StartTime: start,
		MachineID: func() (uint16, error) { return machine, nil },
	})
}

// ------------------------------------------------------------------- C01

type c01Case struct {
	Machine  int          `json:"machine"`
	StartUS  int          `json:"start_us"` // sub-millisecond phase
	Callers  []caller     `json:"callers"`
	Clock    []clockFault `json:"clock"`
	Provider bool         `json:"provider"`
	Tx       bool         `json:"tx"`       // half of the identifiers through a transaction provider
	Overflow int          `json:"overflow"` // >0: the time field runs out after that many ms
}

func c01Gen(r *R, tier string) c01Case {
	c := c01Case{Machine: pick(r, 0, 1, 65535, r.Intn(65536)), StartUS: r.Intn(2000), Provider: r.P(30)}
	maxC, maxN := 5, 90
	if r.P(50) {
		maxN = 12
	}
	if tier == "thorough" && r.P(30) {
		maxC, maxN = 12, 200
	}
	c.Callers = genCallers(r, maxC, maxN)
	c.Clock = genClockFaults(r, []string{"back", "back", "fwd", "stall"}, 3_000_000, 150)
	for i := range c.Clock {
		// Corrections of minutes to weeks.
		if r.P(15) {
			c.Clock[i].US = pick(r, 59, 61, 601, 3601, 86401, 1000001, r.Range(1, 3_000_000)) * 1_000_000
		}
	}
	c.Tx = c.Provider && r.P(50)
	if r.P(4) {
		c.Overflow = r.Range(1, 6)
	}
	return c
}

func c01Run(e *Env, c c01Case) {
	time.Sleep(time.Duration(c.StartUS) * time.Microsecond)
	clk := &simClock{e: e, faults: c.Clock}
	flake.NowFunc = clk.now
	start := flake.DefaultStartTime
	if c.Overflow > 0 {
		start = wallNow().Add(-time.Duration(1<<flake.BitLenTime)*time.Millisecond + time.Duration(c.Overflow)*time.Millisecond)
	}
	g := makeGen(uint16(c.Machine), start)
	clk.armed = true
	next := g.NextID
	var closeProv func()
	if c.Provider {
		db := openPlainDB(e)
		p, err := xdb.New("sim", db, g)
		if err != nil {
			e.Failf("setup", "New: %v", err)
			return
		}
		next = func() uint64 { return p.NextID().UInt64() }
		closeProv = func() { p.Close() }
		if c.Tx {
			// Every other identifier comes from a transaction of the provider.
			tx, err := p.BeginTx(context.Background(), nil)
			if err != nil {
				e.Failf("setup", "BeginTx: %v", err)
				return
			}
			calls := 0
			next = func() uint64 {
				calls++
				if calls%2 == 1 {
					return tx.NextID().UInt64()
				}
				return p.NextID().UInt64()
			}
			closeProv = func() {
				if err := tx.Rollback(); err != nil {
					e.Failf("setup", "Rollback: %v", err)
				}
				p.Close()
			}
		}
	}
	var obs []observed
	first := flake.FirstID(g)
	obs = append(obs, observed{id: first, inv: e.Seq(), ret: e.Seq(), who: -1})
	overflowed := 0
	var wg sync.WaitGroup
	for w, cl := range c.Callers {
		wg.Add(1)
		e.Go("caller", wg.Done, func() {
			for k := 0; k < cl.N; k++ {
				if len(cl.Pause) > 0 {
					if d := cl.Pause[k%len(cl.Pause)]; d > 0 {
						time.Sleep(time.Duration(d) * time.Microsecond)
					}
				}
				stop := false
				func() {
					if c.Overflow > 0 {
						defer func() {
							if x := recover(); x != nil {
								overflowed++
								e.Fault("time-field-exhausted")
								stop = true
							}
						}()
					}
					inv := e.Seq()
					id := next()
					obs = append(obs, observed{id: id, inv: inv, ret: e.Seq(), who: w})
					e.Op()
				}()
				if stop {
					return
				}
			}
		})
	}
	wg.Wait()
	if closeProv != nil {
		closeProv()
	}
	checkIDs(e, obs, func(int) uint16 { return uint16(c.Machine) })
}

// checkIDs checks uniqueness and real-time order of identifiers per node.
func checkIDs(e *Env, obs []observed, machine func(node int) uint16) {
	seen := map[uint64]observed{}
	for _, o := range obs {
		if p, dup := seen[o.id]; dup {
			e.Failf("duplicate-id", "ID %d was returned twice (callers %d and %d, nodes %d and %d)", o.id, p.who, o.who, p.node, o.node)
			return
		}
		seen[o.id] = o
		if o.id>>63 != 0 || o.id == 0 {
			e.Failf("id-range", "ID %d does not fit the positive 63-bit range", o.id)
			return
		}
		if got := uint16(o.id & flake.MaskMachineID); got != machine(o.node) {
			e.Failf("id-machine", "ID %d carries machine id %d, want %d", o.id, got, machine(o.node))
			return
		}
	}
	checkOrder(e, obs)
}

func checkOrder(e *Env, obs []observed) {
	byRet := append([]observed{}, obs...)
	byInv := append([]observed{}, obs...)
	sort.Slice(byRet, func(i, j int) bool { return byRet[i].ret < byRet[j].ret })
	sort.Slice(byInv, func(i, j int) bool { return byInv[i].inv < byInv[j].inv })
	var max observed
	k := 0
	for _, o := range byInv {
		for k < len(byRet) && byRet[k].ret < o.inv {
			if byRet[k].id > max.id {
				max = byRet[k]
			}
			k++
		}
		if max.id != 0 && o.id <= max.id {
			e.Failf("id-order", "ID %d was returned by a call that started after ID %d had been returned", o.id, max.id)
			return
		}
	}
}

// ------------------------------------------------------------------- C02

type c02Life struct {
	DownUS  int      `json:"down_us"` // extra downtime before this life starts
	Callers []caller `json:"callers"`
	CrashUS int      `json:"crash_us"` // when the process dies (0: when its callers are done)
}

type c02Node struct {
	Machine int          `json:"machine"`
	SkewUS  int          `json:"skew_us"`
	Clock   []clockFault `json:"clock"`
	Lives   []c02Life    `json:"lives"`
}

type c02Case struct {
	Nodes []c02Node `json:"nodes"`
}

func c02Gen(r *R, tier string) c02Case {
	var c c02Case
	base := r.Intn(65536)
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		nd := c02Node{Machine: (base + i*pick(r, 1, 1, 256, 64, 16384)) & 0xffff, SkewUS: pick(r, 0, 0, 500, 1000, r.Intn(5_000_000))}
		nd.Clock = genClockFaults(r, []string{"fwd"}, 100_000, 60)
		for l, m := 0, r.Range(1, 4); l < m; l++ {
			lf := c02Life{DownUS: pick(r, 0, 0, 1, 300, 1000, r.Intn(20_000)), Callers: genCallers(r, 3, pick(r, 4, 20, 90))}
			if r.P(60) {
				lf.CrashUS = pick(r, 1, 200, 999, 1000, 1500, r.Intn(10_000))
			}
			nd.Lives = append(nd.Lives, lf)
		}
		c.Nodes = append(c.Nodes, nd)
	}
	return c
}

// nodeClocks routes the global clock seam to the node that is asking.
func c02Run(e *Env, c c02Case) {
	var obs []observed
	owner := map[uint32]*simClock{}
	flake.NowFunc = func() time.Time {
		if k := owner[simGID()]; k != nil {
			return k.now()
		}
		return wallNow()
	}
	mach := map[int]uint16{}
	used := map[int]bool{}
	var wg sync.WaitGroup
	for ni, nd := range c.Nodes {
		if used[nd.Machine&0xffff] {
			continue // machine ids are distinct by assumption
		}
		used[nd.Machine&0xffff] = true
		mach[ni] = uint16(nd.Machine)
		clk := &simClock{e: e, faults: nd.Clock, off: time.Duration(nd.SkewUS) * time.Microsecond, armed: true}
		wg.Add(1)
		e.Go("node", wg.Done, func() {
			owner[simGID()] = clk
			for li, lf := range nd.Lives {
				time.Sleep(time.Duration(lf.DownUS) * time.Microsecond)
				if li > 0 {
					e.Fault("process-restart")
					// The node is back in a later millisecond of its own clock.
					last := clk.last
					for {
						now := clk.peek()
						if now.UnixMilli() > last.UnixMilli() {
							break
						}
						time.Sleep(time.Duration(1000-now.UnixMicro()%1000) * time.Microsecond)
					}
				}
				g := makeGen(uint16(nd.Machine), flake.DefaultStartTime)
				dead := false
				done := 0
				fin := make(chan struct{})
				o := observed{id: flake.FirstID(g), inv: e.Seq(), ret: e.Seq(), node: ni, who: -1}
				_ = o
				first := flake.FirstID(g)
				obs = append(obs, observed{id: first, inv: e.Seq(), ret: e.Seq(), node: ni, who: -1})
				for w, cl := range lf.Callers {
					e.Go("caller", func() {
						done++
						if done == len(lf.Callers) {
							close(fin)
						}
					}, func() {
						owner[simGID()] = clk
						for k := 0; k < cl.N && !dead; k++ {
							if len(cl.Pause) > 0 {
								time.Sleep(time.Duration(cl.Pause[k%len(cl.Pause)]) * time.Microsecond)
							}
							if dead {
								return
							}
							inv := e.Seq()
							id := g.NextID()
							if dead {
								e.Probe("crash-inside-NextID")
								return // died before the caller saw it
							}
							e.Op()
							obs = append(obs, observed{id: id, inv: inv, ret: e.Seq(), node: ni, who: w})
						}
					})
				}
				if len(lf.Callers) == 0 {
					close(fin)
				}
				if lf.CrashUS > 0 {
					select {
					case <-fin:
					case <-time.After(time.Duration(lf.CrashUS) * time.Microsecond):
						e.Fault("process-crash")
					}
				} else {
					<-fin
				}
				dead = true
				clk.last = clk.peek()
			}
		})
	}
	wg.Wait()
	time.Sleep(10 * time.Second) // let orphaned calls of dead processes end
	seen := map[uint64]observed{}
	for _, o := range obs {
		if p, dup := seen[o.id]; dup {
			e.Failf("duplicate-id", "ID %d was issued twice in the cluster: node %d and node %d", o.id, p.node, o.node)
			return
		}
		seen[o.id] = o
		if got := uint16(o.id & flake.MaskMachineID); got != mach[o.node] {
			e.Failf("id-machine", "ID %d carries machine id %d, want %d", o.id, got, mach[o.node])
			return
		}
	}
	per := map[int][]observed{}
	for _, o := range obs {
		per[o.node] = append(per[o.node], o)
	}
	for ni := range c.Nodes {
		checkOrder(e, per[ni])
	}
}

// ------------------------------------------------------------------- C03

type c03Case struct {
	Machine  int          `json:"machine"`
	StartUS  int          `json:"start_us"`
	EpochMS  int          `json:"epoch_ms"` // custom start time, ms before now (0: default)
	Callers  []caller     `json:"callers"`
	Clock    []clockFault `json:"clock"`
	Provider bool         `json:"provider"`
}

func c03Gen(r *R, tier string) c03Case {
	c := c03Case{Machine: r.Intn(65536), StartUS: r.Intn(3000), Provider: r.P(30)}
	if r.P(50) {
		c.EpochMS = pick(r, 1, 5, 1000, r.Range(1, 1_000_000_000))
	}
	c.Callers = genCallers(r, 5, pick(r, 5, 40, 150))
	if r.P(50) {
		c.Clock = genClockFaults(r, []string{"fwd"}, 2_000_000, 120)
	} else {
		c.Clock = genClockFaults(r, []string{"back", "fwd", "stall"}, 2_000_000, 120)
	}
	return c
}

func c03Run(e *Env, c c03Case) {
	time.Sleep(time.Duration(c.StartUS) * time.Microsecond)
	clk := &simClock{e: e, faults: c.Clock}
	flake.NowFunc = clk.now
	start := flake.DefaultStartTime
	if c.EpochMS > 0 {
		start = wallNow().Add(-time.Duration(c.EpochMS) * time.Millisecond)
	}
	monotone := true
	for _, f := range c.Clock {
		if f.Kind != "fwd" {
			monotone = false
		}
	}
	t0 := time.Now()
	g := makeGen(uint16(c.Machine), start)
	clk.armed = true
	next := g.NextID
	idTime := func(id uint64) time.Time { return flake.IDTime(g, id) }
	var closeProv func()
	if c.Provider {
		p, err := xdb.New("sim", openPlainDB(e), g)
		if err != nil {
			e.Failf("setup", "New: %v", err)
			return
		}
		next = func() uint64 { return p.NextID().UInt64() }
		idTime = p.IDTime
		closeProv = func() { p.Close() }
	}
	total := 0
	var obs []observed
	var wg sync.WaitGroup
	for w, cl := range c.Callers {
		total += cl.N
		wg.Add(1)
		e.Go("caller", wg.Done, func() {
			for k := 0; k < cl.N; k++ {
				if len(cl.Pause) > 0 {
					time.Sleep(time.Duration(cl.Pause[k%len(cl.Pause)]) * time.Microsecond)
				}
				a := clk.peek()
				s := time.Now()
				back := clk.back
				inv := e.Seq()
				id := next()
				e.Op()
				b := clk.peek()
				if monotone {
					ts := idTime(id)
					if ts.After(b) {
						e.Failf("id-from-future", "ID %d is stamped %v but was returned at %v", id, ts.Format(time.StampMicro), b.Format(time.StampMicro))
					}
					if ts.Before(a.Truncate(time.Millisecond)) {
						e.Failf("id-from-past", "ID %d is stamped %v but was requested at %v", id, ts.Format(time.StampMicro), a.Format(time.StampMicro))
					}
				}
				// Progress: at most 64 IDs per millisecond are available, plus
				// whatever the clock lost while the call was pending.
				queued := 0
				for _, q := range c.Callers {
					queued += q.N
				}
				lim := time.Duration(queued/64+3)*time.Millisecond + clk.back
				if d := time.Since(s); d > lim {
					e.Failf("slow-id", "a call took %v; with %d IDs requested in total and the clock set back %v the bound is %v", d, queued, clk.back, lim)
				}
				_ = back
				obs = append(obs, observed{id: id, inv: inv, ret: e.Seq(), who: w})
			}
		})
	}
	wg.Wait()
	pauses := time.Duration(0)
	for _, cl := range c.Callers {
		s := time.Duration(0)
		for k := 0; k < cl.N && len(cl.Pause) > 0; k++ {
			s += time.Duration(cl.Pause[k%len(cl.Pause)]) * time.Microsecond
		}
		if s > pauses {
			pauses = s
		}
	}
	lim := pauses + time.Duration(total/64+4)*time.Millisecond + clk.back
	if d := time.Since(t0); d > lim && len(c.Callers) > 0 {
		e.Failf("slow-batch", "%d IDs took %v, bound %v", total, d, lim)
	}
	if len(obs) > 0 {
		max := uint64(0)
		for _, o := range obs {
			if o.id > max {
				max = o.id
			}
		}
		if got := flake.LastID(g); got != max {
			e.Failf("last-id", "LastID is %d, the greatest ID returned is %d", got, max)
		}
	}
	if first := flake.FirstID(g); first != 0 {
		for _, o := range obs {
			if o.id <= first {
				e.Failf("first-id", "FirstID is %d but ID %d was issued later", first, o.id)
			}
		}
	}
	if closeProv != nil {
		closeProv()
	}
}

func init() {
	real := []string{"pkg/flake", "prov.go (NextID, IDTime)", "database/sql, sync, time of the Go standard library"}
	stub := []string{"wall clock (flake.NowFunc)", "timers (simulated time)", "goroutine scheduler", "database driver (in-memory)"}
	reg(&Prop{ID: "C01", Title: "IDs unique and increasing", Runs: 80000, SimLimit: 400 * 24 * time.Hour, Real: real, Stub: stub,
		Rule:   "1-5 caller threads request 1-90 IDs each, with pauses, directly or through a provider, while the clock steps back, jumps forward or stalls between any two of its readings; every statement of the generator is a scheduling point.",
		Assume: []string{"one process; no clock condition at all is assumed"}}, c01Gen, c01Run)
	reg(&Prop{ID: "C02", Title: "IDs unique across nodes and restarts", Runs: 80000, SimLimit: 24 * time.Hour, Real: real, Stub: stub,
		Rule:   "1-4 nodes with distinct machine ids and skewed clocks, each living 1-4 lives with 1-3 caller threads; a life ends by crash at an arbitrary instant or normally; the next starts in a later millisecond of the node's clock.",
		Assume: []string{"machine ids are distinct", "a node's clock does not step back", "a restarted node starts in a later millisecond"}}, c02Gen, c02Run)
	reg(&Prop{ID: "C03", Title: "ID timestamps and progress", Runs: 80000, SimLimit: 24 * time.Hour, Real: real, Stub: stub,
		Rule:   "1-5 caller threads request up to 150 IDs each with pauses; clocks jump forward (timestamp bounds checked) or in any direction (progress bounds checked).",
		Assume: []string{"timestamp bounds are claimed only while the clock does not step back or stall"}}, c03Gen, c03Run)
}

package main

import (
	"database/sql"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/effective-security/xdb"
)

// ------------------------------------------------------------------- C09

type c09Worker struct {
	StartUS int      `json:"start_us"`
	Ops     []string `json:"ops"` // query row exec tx txopen nextid close
	Pause   int      `json:"pause_us"`
}

type c09Case struct {
	Pool    int         `json:"pool"`
	StartS  int         `json:"start_s"` // when the workers start (to be near a ping)
	Workers []c09Worker `json:"workers"`
	Faults  []dbFault   `json:"faults"`
	After   []string    `json:"after"`
	TxAfter []string    `json:"tx_after"` // what is done with transactions left open
	BadEnd  bool        `json:"bad_end"`  // closing a connection reports an error
	Once    bool        `json:"once"`     // the provider is closed only once
}

func c09Gen(r *R, tier string) c09Case {
	c := c09Case{Pool: pick(r, 1, 2, 3, 0), StartS: pick(r, 0, 0, 1, 59, 60, 61, 120)}
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		w := c09Worker{StartUS: pick(r, 0, 0, 0, r.Intn(2000)), Pause: pick(r, 0, 0, 100, 1000)}
		for k, m := 0, r.Range(1, 5); k < m; k++ {
			w.Ops = append(w.Ops, pick(r, "query", "row", "exec", "tx", "txopen", "nextid", "close", "close"))
		}
		if i == 0 && r.P(70) {
			w.Ops = append(w.Ops, "close")
		}
		c.Workers = append(c.Workers, w)
	}
	for k, n := 0, r.Intn(5); k < n; k++ {
		c.After = append(c.After, pick(r, "query", "row", "exec", "tx", "nextid", "close", "close"))
	}
	for k, n := 0, r.Intn(3); k < n; k++ {
		c.TxAfter = append(c.TxAfter, pick(r, "exec", "commit", "rollback", "query", "close"))
	}
	c.Faults = genFaults(r, []string{"ping", "ping", "any", "query", "connect", "commit"}, []string{"err", "drop", "badconn", "slow", "crash"}, 6)
	if r.P(30) {
		c.Faults = append(c.Faults, dbFault{Point: "ping", At: r.Intn(2), Kind: "slow", MS: pick(r, 100, 1000, 30_000, 90_000)})
	}
	c.BadEnd, c.Once = r.P(20), r.P(30)
	return c
}

func c09Run(e *Env, c c09Case) {
	srv := newServer(e, e.Seed, "postgres")
	fillItems(srv, 5, 2, NewR(1, "data"))
	srv.faults, srv.closeErr = c.Faults, c.BadEnd
	db := srv.OpenDB(c.Pool)
	time.Sleep(time.Millisecond)
	db0 := goroutinesInRun() - 1 // without the pool's own goroutine
	prov, err := xdb.New("sim", db, makeGen(1, wallNow().Add(-time.Hour)))
	if err != nil {
		e.Failf("setup", "%v", err)
		return
	}
	time.Sleep(time.Duration(c.StartS) * time.Second)
	closedAt := time.Time{} // first Close that returned
	closeInv := 0           // event number at which the first Close was called
	var open []xdb.Provider // transactions left open
	op := func(what, o string, closed bool) {
		e.Op()
		inv := e.Seq()
		ctx, cancel := opCtx()
		defer cancel()
		var err error
		switch o {
		case "query":
			var rows *sql.Rows
			rows, err = prov.QueryContext(ctx, "SELECT id FROM items")
			if err == nil {
				for rows.Next() {
				}
				err = rows.Err()
				rows.Close()
			}
		case "row":
			var id int64
			err = prov.QueryRowContext(ctx, "SELECT id FROM items WHERE id = 1").Scan(&id)
		case "exec":
			_, err = prov.ExecContext(ctx, "UPDATE items SET grp = 1 WHERE id = 1")
		case "tx":
			var tp xdb.Provider
			tp, err = prov.BeginTx(ctx, nil)
			if err == nil {
				_, err = tp.ExecContext(ctx, "UPDATE items SET grp = 2 WHERE id = 2")
				if err2 := tp.Commit(); err == nil {
					err = err2
				}
				tp.Close()
			}
		case "txopen":
			if c.Pool != 0 && len(open) >= c.Pool-1 {
				return // would starve the others by our own doing
			}
			open = append(open, nil)
			k := len(open) - 1
			var tp xdb.Provider
			tp, err = prov.BeginTx(ctxBackground(), nil)
			if err == nil {
				open[k] = tp
			}
		case "nextid":
			if prov.NextID().IsZero() {
				e.Failf("close-broke-ids", "NextID returned a zero ID")
			}
			return
		case "close":
			if c.Once && closeInv != 0 {
				return
			}
			if closeInv == 0 {
				closeInv = e.Seq()
			}
			first := closedAt.IsZero()
			err = prov.Close()
			if err != nil && !c.BadEnd {
				e.Failf("close-error", "%s: Close: %v", what, err)
			}
			if first && closedAt.IsZero() {
				closedAt = time.Now()
			}
			e.Logf("%s: closed", what)
			return
		}
		e.Logf("%s: %v", what, err)
		if closed && err == nil {
			e.Failf("works-after-close", "%s succeeded after the provider was closed", what)
		}
		if !closed && err != nil && len(c.Faults) == 0 && (closeInv == 0 || e.Seq() < closeInv) {
			e.Failf("spurious-error", "%s: %v although nothing failed and the provider is open", what, err)
		}
		_ = inv
	}
	var wg sync.WaitGroup
	for wi, w := range c.Workers {
		wg.Add(1)
		e.Go("worker", wg.Done, func() {
			time.Sleep(time.Duration(w.StartUS) * time.Microsecond)
			for k, o := range w.Ops {
				if w.Pause > 0 {
					time.Sleep(time.Duration(w.Pause) * time.Microsecond)
				}
				op(fmt.Sprintf("worker %d op %d %s", wi, k, o), o, !closedAt.IsZero())
			}
		})
	}
	wg.Wait()
	for k, tp := range open {
		if tp == nil {
			continue
		}
		for _, a := range c.TxAfter {
			ctx, cancel := opCtx()
			e.Op()
			switch a {
			case "exec":
				_, _ = tp.ExecContext(ctx, "UPDATE items SET grp = 3 WHERE id = 3")
			case "query":
				if rows, err := tp.QueryContext(ctx, "SELECT id FROM items"); err == nil {
					rows.Close()
				}
			case "commit":
				_ = tp.Commit()
			case "rollback":
				_ = tp.Rollback()
			case "close":
				_ = tp.Close()
			}
			cancel()
		}
		if err := tp.Close(); err != nil && len(c.Faults) == 0 {
			e.Failf("close-error", "closing transaction %d left open: %v", k, err)
		}
		if err := tp.Close(); err != nil && len(c.Faults) == 0 {
			e.Failf("close-error", "closing transaction %d again: %v", k, err)
		}
	}
	if closedAt.IsZero() {
		op("final close", "close", false)
	}
	for k, o := range c.After {
		op(fmt.Sprintf("after close op %d %s", k, o), o, true)
	}
	op("last close", "close", true)
	end := time.Now()
	time.Sleep(10 * time.Minute) // slow pings in progress end
	for _, p := range srv.Pings {
		// A ping already on its way when Close was called may still arrive
		// (database/sql does not wait for a connection being set up).
		if p.After(end.Add(100 * time.Second)) {
			e.Failf("ping-after-close", "the database was pinged %v after the provider had been closed", p.Sub(end))
			return
		}
	}
	if n := srv.Open(); n != 0 {
		e.Failf("connections-left", "%d connections are open after the provider was closed", n)
	}
	if n := goroutinesInRun(); n > db0 {
		e.Failf("goroutines-left", "%d goroutines remain after the provider was closed\n%s", n-db0, repoStacks())
	}
	e.Probe("closed-and-checked")
}

// ------------------------------------------------------------------- C10

type c10Outage struct {
	AtS  int    `json:"at_s"`
	DurS int    `json:"dur_s"`
	Kind string `json:"kind"` // down: server unreachable; kill: sessions lost at once
}

type c10Case struct {
	Pool    int         `json:"pool"`
	Minutes int         `json:"minutes"`
	Outages []c10Outage `json:"outages"`
	Faults  []dbFault   `json:"faults"`
	Client  int         `json:"client_s"` // period of the client's own operations (0: none)
	Tx      []int       `json:"tx_s"`     // instants at which a transaction is opened and closed
}

func c10Gen(r *R, tier string) c10Case {
	c := c10Case{Pool: pick(r, 1, 2, 0), Minutes: r.Range(3, 30)}
	long := tier == "thorough" && r.P(20) || r.P(5)
	if long {
		c.Minutes = r.Range(60, 600)
		if r.P(10) {
			c.Minutes = r.Range(700, 2500)
		}
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		o := c10Outage{r.Intn(c.Minutes * 60), pick(r, 1, 30, 61, 200, r.Range(1, 900)), pick(r, "down", "kill")}
		if long && r.P(50) {
			o.DurS = r.Range(900, c.Minutes*60)
		}
		c.Outages = append(c.Outages, o)
	}
	for i, n := 0, r.Intn(5); i < n; i++ {
		f := dbFault{Point: pick(r, "ping", "ping", "connect"), At: r.Intn(c.Minutes), Kind: pick(r, "err", "err", "drop", "badconn", "slow", "dropafter")}
		if f.Kind == "slow" {
			f.MS = pick(r, 10, 1000, 59_000, 61_000, 150_000, 400_000)
		}
		c.Faults = append(c.Faults, f)
	}
	if r.P(50) {
		c.Client = r.Range(3, 100)
	}
	for i, n := 0, r.Intn(3); i < n; i++ {
		c.Tx = append(c.Tx, r.Intn(c.Minutes*60))
	}
	return c
}

func c10Run(e *Env, c c10Case) {
	srv := newServer(e, e.Seed, "postgres")
	fillItems(srv, 5, 2, NewR(1, "data"))
	srv.faults = c.Faults
	db := srv.OpenDB(c.Pool)
	prov, err := xdb.New("sim", db, makeGen(1, wallNow().Add(-time.Hour)))
	if err != nil {
		e.Failf("setup", "%v", err)
		return
	}
	t0 := time.Now()
	end := t0.Add(time.Duration(c.Minutes)*time.Minute + 30*time.Second)
	type span struct{ a, b time.Time }
	var downs []span
	var wg sync.WaitGroup
	for _, o := range c.Outages {
		a := t0.Add(time.Duration(o.AtS) * time.Second)
		if o.Kind == "down" {
			downs = append(downs, span{a, a.Add(time.Duration(o.DurS) * time.Second)})
		}
		wg.Add(1)
		e.Go("outage", wg.Done, func() {
			time.Sleep(time.Until(a))
			e.Fault("outage-" + o.Kind)
			till := srv.downTo
			if o.Kind == "down" {
				srv.crash(o.DurS * 1000)
				if till.After(srv.downTo) {
					srv.downTo = till
				}
			} else {
				srv.crash(0)
				srv.downTo = till
			}
		})
	}
	isDown := func(a, b time.Time) bool {
		for _, d := range downs {
			if d.a.Before(b) && a.Before(d.b) {
				return true
			}
		}
		return false
	}
	busy := func(t time.Time) bool { // could a slow exchange be in progress?
		for _, f := range c.Faults {
			if f.Kind == "slow" && f.MS > 500 {
				return true
			}
		}
		return false
	}
	clientOp := func(what string) {
		ctx, cancel := opCtx()
		defer cancel()
		e.Op()
		a := time.Now()
		var id int64
		err := prov.QueryRowContext(ctx, "SELECT id FROM items WHERE id = 1").Scan(&id)
		// database/sql retries stale connections, so only planned connect
		// faults and outages may surface.
		if err != nil && !isDown(a, time.Now()) && srv.hits["connect"] == 0 {
			e.Failf("op-fails", "%s: %v although the database is up", what, err)
		}
	}
	if c.Client > 0 {
		wg.Add(1)
		e.Go("client", wg.Done, func() {
			for time.Now().Before(end.Add(-time.Duration(c.Client) * time.Second)) {
				time.Sleep(time.Duration(c.Client)*time.Second + 7*time.Millisecond)
				clientOp("client")
			}
		})
	}
	for _, at := range c.Tx {
		wg.Add(1)
		e.Go("tx", wg.Done, func() {
			time.Sleep(time.Duration(at)*time.Second + 3*time.Second)
			ctx, cancel := opCtx()
			defer cancel()
			e.Op()
			tp, err := prov.BeginTx(ctx, nil)
			if err != nil {
				return
			}
			_, _ = tp.ExecContext(ctx, "UPDATE items SET grp = 1 WHERE id = 1")
			_ = tp.Close()
			_ = tp.Close()
		})
	}
	time.Sleep(time.Until(end))
	// Everything healthy again: operations must succeed.
	srv.faults = nil
	srv.downTo = time.Time{}
	downs = nil
	time.Sleep(10 * time.Minute) // slow exchanges end
	for k := 0; k < 3; k++ {
		ctx, cancel := opCtx()
		var id int64
		err := prov.QueryRowContext(ctx, "SELECT id FROM items WHERE id = 1").Scan(&id)
		cancel()
		if err != nil {
			e.Failf("op-fails", "operation after all outages ended: %v", err)
		}
	}
	if !busy(t0) {
		// Every minute exactly one ping (database/sql itself repeats a ping
		// up to twice when a pooled connection turns out to be dead).
		for k := 1; k <= c.Minutes+9; k++ {
			tick := t0.Add(time.Duration(k) * time.Minute)
			n, close := 0, 0
			for _, p := range srv.Pings {
				if p.After(tick.Add(-30*time.Second)) && !p.After(tick.Add(30*time.Second)) {
					n++
					if d := p.Sub(tick); d > -2*time.Second && d < 2*time.Second {
						close++
					}
				}
			}
			outage := false
			for _, o := range c.Outages {
				a := t0.Add(time.Duration(o.AtS) * time.Second)
				b := a.Add(time.Duration(o.DurS) * time.Second)
				if o.Kind == "kill" {
					b = a
				}
				if a.Before(tick.Add(3*time.Second)) && tick.Add(-3*time.Second).Before(b) {
					outage = true
				}
			}
			connFault := false
			for _, f := range c.Faults {
				if f.Point == "connect" {
					connFault = true
				}
			}
			if close == 0 && !outage && !(connFault && k <= c.Minutes) {
				e.Failf("ping-missing", "no ping in minute %d of %d", k, c.Minutes)
				return
			}
			lim := 1
			if len(c.Faults) > 0 || len(c.Outages) > 0 {
				lim = 3
			}
			if n > lim {
				e.Failf("ping-too-often", "%d pings in minute %d", n, k)
				return
			}
		}
	} else {
		// With pings slower than the period some slots are skipped, but the
		// pings must go on once the slow ones are over.
		n := 0
		for _, p := range srv.Pings {
			if p.After(end.Add(7*time.Minute)) && p.Before(end.Add(10*time.Minute)) {
				n++
			}
		}
		if n < 2 || n > 4 {
			e.Failf("ping-missing", "%d pings in the three minutes after slow pings ended", n)
			return
		}
		e.Probe("slow-ping-survived")
	}
	wg.Wait()
	prov.Close()
}

var _ = strings.Contains

func init() {
	real := []string{"prov.go", "database/sql"}
	stub := []string{"database server and driver (simulated)", "clock, tickers, goroutine scheduler"}
	reg(&Prop{ID: "C09", Title: "close", Runs: 60000, SimLimit: 24 * time.Hour, Real: real, Stub: stub,
		Rule: "1-4 workers run operations, transactions and closes on one provider, started near the instants at which pings fall, with slow and failing pings; then operations after close; pings, sessions and goroutines are counted over the next ten minutes."}, c09Gen, c09Run)
	reg(&Prop{ID: "C10", Title: "keep-alive", Runs: 25000, SimLimit: 48 * time.Hour, MaxSteps: 20_000_000, Real: real, Stub: stub,
		Rule:   "A provider stays open 3-30 minutes (thorough: up to 10 hours) with outages, lost sessions, failing and slow pings, client operations and transactions beside it; every minute is checked for its ping.",
		Assume: []string{"a ping repeated by database/sql on a dead pooled connection counts as one"}}, c10Gen, c10Run)
}

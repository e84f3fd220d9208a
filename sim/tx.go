package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/flake"
)

// ------------------------------------------------------------------- C08

type c08Stmt struct {
	Kind string `json:"kind"` // insert update delete select bad nested stray ids
	N    int    `json:"n"`
}

type c08Tx struct {
	NilOpts bool      `json:"nil_opts"`
	Iso     int       `json:"iso"` // 0 default, 2 read committed, 4 repeatable read, 6 serializable
	RO      bool      `json:"ro"`
	Stmts   []c08Stmt `json:"stmts"`
	End     string    `json:"end"` // commit rollback close cancel
	After   []string  `json:"after"`
	Pause   int       `json:"pause_us"`
	// CancelUS cancels the transaction's context at this instant (0: never).
	CancelUS int `json:"cancel_us"`
}

type c08Case struct {
	Dialect string    `json:"dialect"`
	Pool    int       `json:"pool"`
	Clients [][]c08Tx `json:"clients"`
	Readers int       `json:"readers"`
	Faults  []dbFault `json:"faults"`
}

func c08Gen(r *R, tier string) c08Case {
	c := c08Case{Dialect: pick(r, "postgres", "postgres", "sqlserver"), Pool: pick(r, 1, 2, 3, 5, 0), Readers: r.Intn(3)}
	n := 0
	for i, k := 0, pick(r, 1, 1, 2, 3); i < k; i++ {
		var txs []c08Tx
		for t, m := 0, r.Range(1, 3); t < m; t++ {
			x := c08Tx{NilOpts: r.P(30), Iso: pick(r, 0, 0, 2, 4, 6), RO: r.P(20), End: pick(r, "commit", "commit", "commit", "rollback", "close", "cancel"), Pause: pick(r, 0, 0, 100, 2000)}
			for s, q := 0, r.Range(0, 4); s < q; s++ {
				x.Stmts = append(x.Stmts, c08Stmt{pick(r, "insert", "insert", "insert", "update", "delete", "select", "bad", "nested", "stray", "ids"), r.Range(1, 3)})
				n++
			}
			for a, q := 0, r.Intn(3); a < q; a++ {
				x.After = append(x.After, pick(r, "commit", "rollback", "close", "exec", "query", "begin"))
			}
			if r.P(12) {
				x.CancelUS = r.Range(1, 3000)
			}
			txs = append(txs, x)
		}
		c.Clients = append(c.Clients, txs)
	}
	c.Faults = genFaults(r, []string{"begin", "exec", "commit", "commit", "rollback", "any", "query"}, []string{"badconn", "err", "drop", "dropafter", "slow", "cancel", "crash"}, max(3, n*2))
	if r.P(40) {
		c.Faults = nil
	}
	return c
}

// txRecord is what a client knows about one transaction.
type txRecord struct {
	mark      string
	want      map[int64]int64 // id -> v of rows it should leave
	commitInv int             // event number of the commit call (0: none)
	commitRet int
	commitErr error
	ended     bool
	opts      driver.TxOptions
}

func (t *txRecord) n() int { return len(t.want) }

func c08Run(e *Env, c c08Case) {
	srv := newServer(e, e.Seed, c.Dialect)
	tab := srv.addTable("led", "mark text", "id int8", "v int8")
	srv.addTable("plain", "id int8")
	srv.faults = c.Faults
	seenOpts := map[string]driver.TxOptions{}
	srv.before = func(ss *Session, q string) {
		if i := strings.Index(q, "'t"); i >= 0 && ss.tx != nil {
			m := q[i+1:]
			if j := strings.IndexByte(m, '\''); j > 0 {
				seenOpts[m[:j]] = ss.tx.opts
			}
		}
	}
	db := srv.OpenDB(c.Pool)
	prov, err := xdb.New("simprov", db, flake.DefaultIDGenerator)
	if err != nil {
		e.Failf("setup", "%v", err)
		return
	}
	if prov.Tx() != nil {
		e.Failf("tx-state", "a provider without a transaction has one")
	}
	if prov.Commit() == nil || prov.Rollback() == nil {
		e.Failf("tx-misuse", "commit or rollback without a transaction reported success")
	}
	faulty := len(c.Faults) > 0
	var recs []*txRecord
	var wg sync.WaitGroup
	stop := false
	for ci, txs := range c.Clients {
		wg.Add(1)
		e.Go("client", wg.Done, func() {
			for k, x := range txs {
				rec := &txRecord{mark: fmt.Sprintf("t%d_%d", ci, k), want: map[int64]int64{}}
				recs = append(recs, rec)
				c08One(e, c, x, rec, prov, srv, seenOpts, faulty)
			}
		})
	}
	var rg sync.WaitGroup
	for i := 0; i < c.Readers; i++ {
		rg.Add(1)
		e.Go("reader", rg.Done, func() {
			for k := 0; k < 40 && !stop; k++ {
				for _, rec := range recs {
					c08Read(e, prov, rec)
				}
				time.Sleep(300 * time.Microsecond)
			}
		})
	}
	wg.Wait()
	stop = true
	rg.Wait()
	// Faults are over: the parent provider must work.
	srv.faults = nil
	srv.downTo = time.Time{}
	time.Sleep(5 * time.Second) // let cancelled transactions be cleaned up
	if n := db.Stats().InUse; n != 0 {
		e.Failf("tx-connection-held", "%d connections are still in use after every transaction ended", n)
	}
	ctx, cancel := opCtx()
	defer cancel()
	if _, err := prov.ExecContext(ctx, "INSERT INTO plain (id) VALUES (7)"); err != nil {
		e.Failf("parent-broken", "the parent provider fails after its transactions ended: %v", err)
	} else {
		var id int64
		if err := prov.QueryRowContext(ctx, "SELECT id FROM plain WHERE id = 7").Scan(&id); err != nil || id != 7 {
			e.Failf("parent-broken", "the parent provider lost a row written outside transactions: %v", err)
		}
	}
	for _, rec := range recs {
		got := map[int64]int64{}
		for _, r := range tab2(srv, "led").Rows {
			if fmt.Sprint(r[0]) == rec.mark {
				got[r[1].(int64)] = r[2].(int64)
			}
		}
		same := len(got) == len(rec.want)
		for id, v := range rec.want {
			if g, ok := got[id]; !ok || g != v {
				same = false
			}
		}
		switch {
		case rec.commitInv == 0:
			if len(got) != 0 {
				e.Failf("uncommitted-visible", "transaction %s was never committed but left rows %v", rec.mark, got)
			}
		case rec.commitErr == nil:
			if !same {
				e.Failf("commit-lost", "transaction %s reported commit of %v but the database has %v", rec.mark, rec.want, got)
			}
		default:
			e.Probe("commit-failed")
			if len(got) != 0 && !same {
				e.Failf("not-atomic", "transaction %s failed to commit and left %v of %v", rec.mark, got, rec.want)
			}
			if len(got) != 0 && !errors.Is(rec.commitErr, errConnLost) {
				e.Failf("commit-misreported", "transaction %s took effect but commit reported %v", rec.mark, rec.commitErr)
			}
		}
	}
	_ = tab
	if err := prov.Close(); err != nil {
		e.Failf("parent-broken", "closing the parent provider: %v", err)
	}
}

func tab2(s *Server, name string) *dbTable { t, _ := find(s.tables, name); return t }

// c08Read observes a transaction from outside.
func c08Read(e *Env, prov *xdb.SQLProvider, rec *txRecord) {
	inv := e.Seq()
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	rows, err := prov.QueryContext(ctx, "SELECT id, v FROM led WHERE mark = $1", rec.mark)
	if err != nil {
		return
	}
	defer rows.Close()
	got := map[int64]int64{}
	for rows.Next() {
		var id, v int64
		if rows.Scan(&id, &v) != nil {
			return
		}
		got[id] = v
	}
	if rows.Err() != nil {
		return
	}
	ret := e.Seq()
	if rec.commitInv == 0 || ret < rec.commitInv {
		if len(got) != 0 {
			e.Failf("dirty-read", "%d rows of transaction %s are visible outside before its commit", len(got), rec.mark)
		}
		return
	}
	if len(got) != 0 {
		e.Probe("reader-saw-commit")
	}
	full := len(got) == rec.n()
	for id, v := range rec.want {
		if got[id] != v {
			full = false
		}
	}
	if len(got) != 0 && !full {
		e.Failf("partial-read", "a reader saw %v of transaction %s, which wrote %v", got, rec.mark, rec.want)
	}
	if rec.commitRet != 0 && rec.commitErr == nil && inv > rec.commitRet && !full {
		e.Failf("commit-lost", "transaction %s reported commit of %v, a later reader saw %v", rec.mark, rec.want, got)
	}
}

func c08One(e *Env, c c08Case, x c08Tx, rec *txRecord, prov *xdb.SQLProvider, srv *Server, seenOpts map[string]driver.TxOptions, faulty bool) {
	ctx, cancel := opCtx()
	defer cancel()
	if x.CancelUS > 0 && x.CancelUS%3 == 0 { // by a deadline
		ctx, cancel = context.WithTimeout(ctx, time.Duration(x.CancelUS)*time.Microsecond)
		defer cancel()
		e.Fault("context-deadline")
		faulty = true
	} else if x.CancelUS > 0 {
		t := time.AfterFunc(time.Duration(x.CancelUS)*time.Microsecond, func() { e.Fault("context-cancel"); cancel() })
		defer t.Stop()
		faulty = true
	}
	var opts *sql.TxOptions
	if !x.NilOpts {
		opts = &sql.TxOptions{Isolation: sql.IsolationLevel(x.Iso), ReadOnly: x.RO}
		rec.opts = driver.TxOptions{Isolation: driver.IsolationLevel(x.Iso), ReadOnly: x.RO}
	}
	e.Op()
	tp, err := prov.BeginTx(ctx, opts)
	if err != nil {
		if tp != nil && !isNilProvider(tp) {
			e.Failf("tx-misuse", "BeginTx returned a provider together with error %v", err)
		}
		if !faulty {
			e.Failf("spurious-error", "BeginTx: %v although nothing failed", err)
		}
		return
	}
	if tp.Tx() == nil {
		e.Failf("tx-state", "the transaction provider has no transaction")
		return
	}
	if tp.Name() != prov.Name() {
		e.Failf("tx-state", "the transaction provider is named %q, its parent %q", tp.Name(), prov.Name())
	}
	e.Logf("%s begun %+v", rec.mark, rec.opts)
	nextID := int64(1)
	broken := false
	check := func(what string, err error) bool {
		if err == nil {
			return true
		}
		e.Logf("%s %s: %v", rec.mark, what, err)
		if !faulty && !broken {
			e.Failf("spurious-error", "%s in a transaction: %v although nothing failed", what, err)
		}
		broken = true
		return false
	}
	for _, s := range x.Stmts {
		if x.Pause > 0 {
			time.Sleep(time.Duration(x.Pause) * time.Microsecond)
		}
		e.Op()
		switch s.Kind {
		case "insert":
			var v []string
			var ids []int64
			for i := 0; i < s.N; i++ {
				v = append(v, fmt.Sprintf("('%s', %d, %d)", rec.mark, nextID, nextID*10))
				ids = append(ids, nextID)
				nextID++
			}
			_, err := tp.ExecContext(ctx, "INSERT INTO led (mark, id, v) VALUES "+strings.Join(v, ", "))
			if rec.opts.ReadOnly {
				if err == nil {
					e.Failf("tx-options-ignored", "a write succeeded in a transaction begun read-only")
				}
				broken = true
				continue
			}
			if check("insert", err) {
				for _, id := range ids {
					rec.want[id] = id * 10
				}
			}
		case "update":
			r, err := tp.ExecContext(ctx, fmt.Sprintf("UPDATE led SET v = %d WHERE mark = '%s' AND id <= %d", 1000+s.N, rec.mark, s.N))
			if rec.opts.ReadOnly {
				if err == nil {
					e.Failf("tx-options-ignored", "a write succeeded in a transaction begun read-only")
				}
				broken = true
				continue
			}
			if check("update", err) {
				n := int64(0)
				for id := range rec.want {
					if id <= int64(s.N) {
						rec.want[id] = int64(1000 + s.N)
						n++
					}
				}
				if got, err := r.RowsAffected(); err == nil && got != n {
					e.Failf("tx-own-writes", "update in %s affected %d rows, %d expected", rec.mark, got, n)
				}
			}
		case "delete":
			_, err := tp.ExecContext(ctx, fmt.Sprintf("DELETE FROM led WHERE mark = '%s' AND id = %d", rec.mark, s.N))
			if rec.opts.ReadOnly {
				if err == nil {
					e.Failf("tx-options-ignored", "a write succeeded in a transaction begun read-only")
				}
				broken = true
				continue
			}
			if check("delete", err) {
				delete(rec.want, int64(s.N))
			}
		case "select":
			n, err := c08Count(ctx, tp, rec.mark)
			if check("select", err) && n != rec.n() {
				e.Failf("tx-own-writes", "transaction %s sees %d of its own rows, %d expected", rec.mark, n, rec.n())
			}
		case "bad":
			_, err := tp.ExecContext(ctx, fmt.Sprintf("INSERT INTO nosuch (mark) VALUES ('%s')", rec.mark))
			if err == nil {
				e.Failf("error-lost", "a failing statement reported success")
			}
			broken = true
		case "nested":
			n, err := tp.BeginTx(ctx, nil)
			if err == nil {
				e.Failf("tx-misuse", "a transaction was begun inside a transaction")
				n.Close()
			}
		case "stray":
			// A statement outside the transaction must not be part of it.
			if c.Pool == 0 || c.Pool > len(c.Clients) {
				oc, ocancel := opCtx()
				_, err := prov.ExecContext(oc, "INSERT INTO plain (id) VALUES (1)")
				ocancel()
				if err != nil && !faulty {
					e.Failf("spurious-error", "a statement outside the transaction failed: %v", err)
				}
			}
		case "ids":
			a, b := tp.NextID(), prov.NextID()
			if a.UInt64() >= b.UInt64() {
				e.Failf("tx-ids", "transaction provider and parent do not share one ID sequence: %v then %v", a, b)
			}
		}
	}
	// Make sure the options were observed at least once.
	if !broken {
		if n, err := c08Count(ctx, tp, rec.mark); check("select", err) {
			if n != rec.n() {
				e.Failf("tx-own-writes", "transaction %s sees %d of its own rows, %d expected", rec.mark, n, rec.n())
			}
			if o, ok := seenOpts[rec.mark]; ok && o != rec.opts {
				e.Failf("tx-options-ignored", "transaction begun with isolation %d read-only %v runs with isolation %d read-only %v", rec.opts.Isolation, rec.opts.ReadOnly, o.Isolation, o.ReadOnly)
			} else if !ok {
				e.Failf("tx-options-ignored", "statements of transaction %s run outside any transaction", rec.mark)
			}
		}
	}
	committed := false
	switch x.End {
	case "commit":
		rec.commitInv = e.Seq()
		rec.commitErr = tp.Commit()
		rec.commitRet = e.Seq()
		committed = rec.commitErr == nil
		e.Logf("%s commit: %v", rec.mark, rec.commitErr)
		if rec.commitErr != nil && !faulty && !broken {
			e.Failf("spurious-error", "commit: %v although nothing failed", rec.commitErr)
		}
		if committed {
			e.Probe("committed")
		}
	case "rollback":
		if err := tp.Rollback(); err != nil && !faulty {
			e.Failf("spurious-error", "rollback: %v although nothing failed", err)
		}
	case "close":
		if err := tp.Close(); err != nil && !faulty {
			e.Failf("spurious-error", "closing an open transaction: %v although nothing failed", err)
		}
	case "cancel":
		e.Fault("context-cancel")
		cancel()
		time.Sleep(time.Duration(x.Pause) * time.Microsecond)
		if err := tp.Commit(); err == nil {
			e.Failf("commit-after-cancel", "commit reported success after the transaction's context had been cancelled")
		}
	}
	for _, a := range x.After {
		e.Op()
		switch a {
		case "commit":
			if tp.Commit() == nil {
				e.Failf("tx-misuse", "commit after %s reported success", x.End)
			}
		case "rollback":
			_ = tp.Rollback()
		case "close":
			if err := tp.Close(); err != nil && committed {
				e.Failf("close-after-commit", "closing a committed transaction: %v", err)
			}
		case "exec":
			oc, ocancel := opCtx()
			if _, err := tp.ExecContext(oc, fmt.Sprintf("INSERT INTO led (mark, id, v) VALUES ('%s', 99, 99)", rec.mark)); err == nil && ctx.Err() == nil {
				e.Failf("tx-misuse", "a statement on a transaction ended by %s reported success", x.End)
			}
			ocancel()
		case "query":
			oc, ocancel := opCtx()
			if n, err := c08Count(oc, tp, rec.mark); err == nil && ctx.Err() == nil {
				e.Failf("tx-misuse", "a query on a transaction ended by %s reported success (%d rows)", x.End, n)
			}
			ocancel()
		case "begin":
			if n, err := tp.BeginTx(ctx, nil); err == nil {
				e.Failf("tx-misuse", "a transaction was begun inside an ended transaction")
				n.Close()
			}
		}
	}
	if err := tp.Close(); err != nil && committed {
		e.Failf("close-after-commit", "closing a committed transaction: %v", err)
	}
}

func isNilProvider(p xdb.Provider) bool {
	sp, ok := p.(*xdb.SQLProvider)
	return ok && sp == nil
}

func c08Count(ctx context.Context, tp xdb.DB, mark string) (int, error) {
	rows, err := tp.QueryContext(ctx, fmt.Sprintf("SELECT id FROM led WHERE mark = '%s'", mark))
	if err != nil {
		return 0, err
	}
	defer rows.Close()
	n := 0
	for rows.Next() {
		n++
	}
	return n, rows.Err()
}

func init() {
	real := []string{"prov.go", "database/sql"}
	stub := []string{"database server and driver (simulated: sessions, snapshots, read-only enforcement, commit acknowledgement loss)", "clock, timers, goroutine scheduler"}
	reg(&Prop{ID: "C08", Title: "transactions", Runs: 60000, SimLimit: 2 * time.Hour, Real: real, Stub: stub,
		Rule:   "1-3 clients run 1-3 transactions each (options, 0-4 statements, commit, rollback, close or cancellation, then misuse of the ended transaction) with 0-2 outside readers; faults on begin, statements, commit and rollback, including a commit that takes effect but whose acknowledgement is lost.",
		Assume: []string{"a commit that failed with connection loss may or may not have taken effect"}}, c08Gen, c08Run)
}

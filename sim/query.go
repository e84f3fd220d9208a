package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/flake"
	"github.com/effective-security/xdb/xsql"
)

// item is the model read by the query helpers.
type item struct {
	ID   int64
	Grp  int64
	Name xdb.NULLString
}

var errScanRow = errors.New("harness: ScanRow refused the row")

// scanFail makes item.ScanRow fail for the row with this id (0: never).
var scanFail int64

func (m *item) ScanRow(row xdb.Row) error {
	if err := row.Scan(&m.ID, &m.Grp, &m.Name); err != nil {
		return err
	}
	if scanFail != 0 && m.ID == scanFail {
		return errScanRow
	}
	return nil
}

// itemList receives results.
type itemList struct {
	set    int
	rows   []*item
	more   bool
	next   uint32
	cursor func(*item) string
}

func (l *itemList) SetResult(rows []*item, hasNextPage bool, nextOffset uint32) {
	l.set++
	l.rows, l.more, l.next = rows, hasNextPage, nextOffset
}

func (l *itemList) SetResultWithCursor(rows []*item, hasNextPage bool, cursor func(lastRow *item) string) {
	l.set++
	l.rows, l.more, l.cursor = rows, hasNextPage, cursor
}

// knownCause reports whether err still carries a cause that the simulated
// database, the context or the scanner produced.
func knownCause(err error) bool {
	for _, c := range []error{errInjected, errConnLost, errBusy, errScanRow, context.Canceled, context.DeadlineExceeded, driver.ErrBadConn, sql.ErrConnDone, sql.ErrTxDone, sql.ErrNoRows} {
		if errors.Is(err, c) {
			return true
		}
	}
	var de *dbError
	if errors.As(err, &de) {
		return true
	}
	return strings.Contains(err.Error(), "sql: Scan error") || strings.Contains(err.Error(), "sql: database is closed") ||
		strings.Contains(err.Error(), "unsupported Scan") || strings.Contains(err.Error(), "sql: transaction has already been")
}

func fillItems(s *Server, n, grps int, r *R) []item {
	t := s.addTable("items", "id int8", "grp int8", "name text")
	var out []item
	for i := 1; i <= n; i++ {
		it := item{ID: int64(i), Grp: int64(r.Intn(max(grps, 1)))}
		var name val
		if r.P(70) {
			it.Name = xdb.NULLString(fmt.Sprintf("n%d-%d", i, r.Intn(1000)))
			name = string(it.Name)
		}
		t.Rows = append(t.Rows, []val{it.ID, it.Grp, name})
		out = append(out, it)
	}
	return out
}

// ------------------------------------------------------------------- C04

type c04Op struct {
	Kind   string `json:"kind"` // list query page pageqp cursor cursorqp row stmt stmtrow
	On     string `json:"on"`   // db prov tx
	Grp    int    `json:"grp"`  // -1: all
	Limit  int    `json:"limit"`
	Offset int    `json:"offset"`
	Cancel int    `json:"cancel_us"`          // the context is cancelled after so many µs (0: never)
	Dead   bool   `json:"deadline,omitempty"` // the context has a deadline instead
}

type c04Case struct {
	Rows     int       `json:"rows"`
	Pool     int       `json:"pool"`
	ScanFail int       `json:"scan_fail"`
	Clients  [][]c04Op `json:"clients"`
	Faults   []dbFault `json:"faults"`
	Data     int       `json:"data"`
}

func c04Gen(r *R, tier string) c04Case {
	c := c04Case{Rows: pick(r, 0, 1, 2, 3, 5, 12, 40), Pool: pick(r, 1, 1, 2, 3, 0), Data: r.Intn(1000)}
	if r.P(4) {
		c.Rows = pick(r, 499, 500, 501, 1003)
	}
	if r.P(15) && c.Rows > 0 {
		c.ScanFail = r.Range(1, c.Rows)
	}
	nc := pick(r, 1, 1, 2, 3)
	total := 0
	for i := 0; i < nc; i++ {
		var ops []c04Op
		for k, n := 0, r.Range(1, 5); k < n; k++ {
			o := c04Op{Kind: pick(r, "list", "list", "query", "queryqp", "page", "pageqp", "cursor", "cursorqp", "row", "stmt", "stmtrow"), On: pick(r, "db", "prov", "prov", "tx"), Grp: r.Range(-1, 2)}
			o.Limit = pick(r, 1, 2, 3, 5, 50)
			o.Offset = pick(r, 0, 0, 1, 2, 7)
			if r.P(12) {
				o.Cancel = r.Range(1, 1500)
				o.Dead = r.P(40)
			}
			ops = append(ops, o)
			total++
		}
		c.Clients = append(c.Clients, ops)
	}
	c.Faults = genFaults(r, []string{"next", "next", "next", "close", "query", "any", "connect", "begin"},
		[]string{"badconn", "err", "err", "drop", "dropafter", "slow", "cancel", "crash", "garbage"}, max(4, min(60, total*(c.Rows+2))))
	return c
}

func qArgs(grp int) (string, []any) {
	if grp < 0 {
		return "", nil
	}
	return " WHERE grp = $1", []any{grp}
}

func c04Run(e *Env, c c04Case) {
	scanFail = int64(c.ScanFail)
	defer func() { scanFail = 0 }()
	srv := newServer(e, e.Seed, "postgres")
	data := fillItems(srv, c.Rows, 3, NewR(uint64(c.Data), "data"))
	srv.faults = c.Faults
	db := srv.OpenDB(c.Pool)
	prov, err := xdb.New("sim", db, flake.DefaultIDGenerator)
	if err != nil {
		e.Failf("setup", "%v", err)
		return
	}
	var wg sync.WaitGroup
	for ci, ops := range c.Clients {
		wg.Add(1)
		e.Go("client", wg.Done, func() {
			for k, o := range ops {
				c04Op1(e, fmt.Sprintf("client %d op %d %s on %s", ci, k, o.Kind, o.On), o, db, prov, data, len(c.Faults) > 0)
			}
		})
	}
	wg.Wait()
	prov.Close()
	db.Close()
}

func c04Op1(e *Env, what string, o c04Op, db *sql.DB, prov *xdb.SQLProvider, data []item, faulty bool) {
	ctx, cancel := opCtx()
	defer cancel()
	if o.Cancel > 0 && o.Dead {
		ctx, cancel = context.WithTimeout(ctx, time.Duration(o.Cancel)*time.Microsecond)
		defer cancel()
		e.Fault("context-deadline")
		faulty = true
	} else if o.Cancel > 0 {
		t := time.AfterFunc(time.Duration(o.Cancel)*time.Microsecond, func() { e.Fault("context-cancel"); cancel() })
		defer t.Stop()
		faulty = true
	}
	var h xdb.DB = db
	switch o.On {
	case "prov":
		h = prov
	case "tx":
		tp, err := prov.BeginTx(ctx, nil)
		if err != nil {
			if !faulty {
				e.Failf("spurious-error", "%s: BeginTx: %v", what, err)
			}
			if !knownCause(err) {
				e.Failf("cause-lost", "%s: BeginTx error hides its cause: %v", what, err)
			}
			return
		}
		defer tp.Close()
		h = tp
	}
	where, args := qArgs(o.Grp)
	var want []item
	for _, it := range data {
		if o.Grp < 0 || it.Grp == int64(o.Grp) {
			want = append(want, it)
		}
	}
	hitsScan := func(w []item) bool {
		for _, it := range w {
			if it.ID == scanFail {
				return true
			}
		}
		return false
	}
	e.Op()
	base := "SELECT id, grp, name FROM items" + where + " ORDER BY id"
	res := &itemList{}
	var list []*item
	var err error
	publishes := true
	wantMore, wantNext := false, uint32(0)
	page := func() string {
		lo, hi := min(o.Offset, len(want)), min(o.Offset+o.Limit, len(want))
		want = want[lo:hi]
		wantMore = len(want) >= o.Limit
		if wantMore {
			wantNext = uint32(o.Offset + len(want))
		}
		return fmt.Sprintf("%s LIMIT $%d OFFSET $%d", base, len(args)+1, len(args)+2)
	}
	switch o.Kind {
	case "list":
		publishes = false
		list, err = xdb.ExecuteListQuery[item](ctx, h, base, args...)
	case "query":
		err = xdb.ExecuteQuery[item](ctx, h, res, base, args...)
	case "queryqp":
		qp := xdb.NewQueryParams("q" + e.Salt)
		for i, a := range args {
			qp.Set(uint32(i), a)
		}
		err = xdb.ExecuteQuery[item](ctx, h, res, base, qp)
	case "page":
		q := page()
		err = xdb.ExecuteQueryWithPagination[item](ctx, h, res, q, append(args, o.Limit, uint32(o.Offset))...)
	case "pageqp":
		q := page()
		qp := xdb.NewQueryParams("q" + e.Salt)
		for i, a := range args {
			qp.Set(uint32(i), a)
		}
		qp.SetPage(uint32(o.Limit), uint32(o.Offset))
		err = xdb.ExecuteQueryWithPagination[item](ctx, h, res, q, qp)
	case "cursor", "cursorqp":
		// rows after id = Offset
		base = "SELECT id, grp, name FROM items WHERE id > $1 ORDER BY id LIMIT $2"
		want = nil
		for _, it := range data {
			if it.ID > int64(o.Offset) && len(want) < o.Limit {
				want = append(want, it)
			}
		}
		wantMore = len(want) >= o.Limit
		cur := func(last *item) string { return fmt.Sprint(last.ID) }
		if o.Kind == "cursor" {
			err = xdb.ExecuteQueryWithCursor[item](ctx, h, cur, res, base, o.Offset, uint32(o.Limit))
		} else {
			qp := xdb.NewQueryParams("c"+e.Salt).SetCursor(uint32(o.Limit), 0, o.Offset)
			err = xdb.ExecuteQueryWithCursor[item](ctx, h, cur, res, base, qp)
		}
	case "row":
		publishes = false
		id := o.Offset
		want = nil
		for _, it := range data {
			if it.ID == int64(id) {
				want = append(want, it)
			}
		}
		var one *item
		one, err = xdb.QueryRow[item](ctx, h, "SELECT id, grp, name FROM items WHERE id = $1", id)
		if err == nil {
			if one == nil {
				e.Failf("nil-row", "%s: success without a row", what)
				return
			}
			list = []*item{one}
		} else if one != nil {
			e.Failf("partial-result", "%s: a row was returned together with error %v", what, err)
		}
		if len(want) == 0 {
			if err == nil {
				e.Failf("wrong-result", "%s: row %d does not exist but %+v was returned", what, id, *list[0])
			} else if !knownCause(err) {
				e.Failf("cause-lost", "%s: %v", what, err)
			}
			return
		}
	case "stmt", "stmtrow":
		publishes = false
		var m item
		st := xsql.Postgres.From("items").Select("id").To(&m.ID).Select("grp").To(&m.Grp).Select("name").To(&m.Name)
		if o.Kind == "stmtrow" {
			want = nil
			for _, it := range data {
				if it.ID == int64(o.Offset) {
					want = append(want, it)
				}
			}
			err = st.Where("id = ?", o.Offset).QueryRowAndClose(ctx, h)
			if err == nil {
				list = []*item{&m}
			}
			if len(want) == 0 {
				if err == nil {
					e.Failf("wrong-result", "%s: row %d does not exist but no error was returned", what, o.Offset)
				}
				return
			}
		} else {
			if o.Grp >= 0 {
				st = st.Where("grp = ?", o.Grp)
			}
			err = st.OrderBy("id").QueryAndClose(ctx, h, func(*sql.Rows) {
				cp := m
				list = append(list, &cp)
			})
		}
		if err != nil {
			list = nil
		}
	}
	if publishes {
		if err == nil && res.set != 1 {
			e.Failf("not-published", "%s: success but the result was published %d times", what, res.set)
			return
		}
		if err != nil && res.set != 0 {
			e.Failf("partial-result", "%s: a result was published although the query failed: %v", what, err)
			return
		}
		list = res.rows
	}
	if err != nil {
		e.Logf("%s: error %v", what, err)
		if len(list) != 0 {
			e.Failf("partial-result", "%s: %d rows were returned together with error %v", what, len(list), err)
		}
		scanHit := hitsScan(want) && o.Kind[0:1] != "s"
		if !faulty && !scanHit {
			e.Failf("spurious-error", "%s: %v although nothing failed", what, err)
		}
		if !knownCause(err) {
			e.Failf("cause-lost", "%s: the error no longer identifies its cause: %v", what, err)
		}
		return
	}
	e.Logf("%s: %d rows", what, len(list))
	if hitsScan(want) && o.Kind[0:1] != "s" {
		e.Failf("scan-error-lost", "%s: reading row %d failed but the query reported success", what, scanFail)
		return
	}
	if len(list) != len(want) {
		e.Failf("incomplete-result", "%s: success with %d rows, the database produced %d", what, len(list), len(want))
		return
	}
	for i := range want {
		if list[i] == nil || *list[i] != want[i] {
			e.Failf("wrong-result", "%s: row %d is %+v, want %+v", what, i, list[i], want[i])
			return
		}
	}
	if publishes && (res.more != wantMore || res.next != wantNext) {
		e.Failf("wrong-page-info", "%s: next page %v at %d, want %v at %d", what, res.more, res.next, wantMore, wantNext)
	}
	if o.Kind == "cursor" || o.Kind == "cursorqp" {
		if res.cursor == nil {
			e.Failf("wrong-page-info", "%s: no cursor function was published", what)
		} else if n := len(list); n > 0 && res.cursor(list[n-1]) != fmt.Sprint(list[n-1].ID) {
			e.Failf("wrong-page-info", "%s: cursor of the last row is %q", what, res.cursor(list[n-1]))
		}
	}
}

// ------------------------------------------------------------------- C05

type c05Reader struct {
	Kind  string `json:"kind"` // page pageqp cursor cursorqp
	Limit int    `json:"limit"`
	Start int    `json:"start"`
	Grp   int    `json:"grp"`
	Reuse bool   `json:"reuse"` // one parameter object reset for every page
	On    string `json:"on"`
	MaxTO int    `json:"timeout_us"`
	Cur   string `json:"cur,omitempty"`   // what a cursor holds: "" a number, id, text
	Arg   string `json:"arg,omitempty"`   // how limit and offset are passed
	Shape string `json:"shape,omitempty"` // where: "" at the top, list, map
	NoLim bool   `json:"no_limit,omitempty"`
}

type c05Case struct {
	Rows    int         `json:"rows"`
	Base    int64       `json:"base,omitempty"` // added to every key
	Pool    int         `json:"pool"`
	Data    int         `json:"data"`
	Readers []c05Reader `json:"readers"`
	Faults  []dbFault   `json:"faults"`
}

func c05Gen(r *R, tier string) c05Case {
	c := c05Case{Rows: pick(r, 0, 1, 2, 3, 4, 6, 10, 25, 60), Pool: pick(r, 1, 2, 3, 0), Data: r.Intn(1000)}
	if r.P(3) {
		c.Rows = pick(r, 499, 500, 501, 1000, 1200)
	}
	if r.P(50) { // keys as the ID generator makes them
		c.Base = pick(r, 253518220474974837, 1<<53-3, int64(r.U64()>>5), 1<<62)
	}
	for i, n := 0, pick(r, 1, 1, 2, 3); i < n; i++ {
		rd := c05Reader{Kind: pick(r, "page", "pageqp", "cursor", "cursorqp"), Limit: pick(r, 1, 2, 3, 5, 7, 10, c.Rows, c.Rows+1, max(1, c.Rows/2)), Grp: r.Range(-1, 1), Reuse: r.P(50), On: pick(r, "db", "prov", "tx")}
		if r.P(40) {
			rd.Start = r.Intn(c.Rows + 2)
		}
		rd.Cur = pick(r, "", "", "id", "text")
		rd.Arg = pick(r, "", "", "u32", "named", "namedu32")
		rd.Shape = pick(r, "", "", "list", "map")
		if r.P(20) {
			rd.MaxTO = r.Range(50, 3000)
		}
		if r.P(8) {
			rd.Limit = 0
		}
		rd.NoLim = r.P(6)
		if c.Rows > 100 && rd.Limit < 50 && rd.Limit != 0 {
			rd.Limit = pick(r, 100, 499, 500, 501)
		}
		c.Readers = append(c.Readers, rd)
	}
	c.Faults = genFaults(r, []string{"next", "query", "any", "close", "connect"}, []string{"err", "drop", "dropafter", "badconn", "cancel", "slow", "crash", "garbage"}, 40)
	return c
}

func c05Run(e *Env, c c05Case) {
	srv := newServer(e, e.Seed, "postgres")
	data := fillItems(srv, c.Rows, 2, NewR(uint64(c.Data), "data"))
	for i := range data {
		data[i].ID += c.Base
		srv.tables["items"].Rows[i][0] = data[i].ID
	}
	srv.faults, srv.byOrder = c.Faults, true
	db := srv.OpenDB(c.Pool)
	prov, err := xdb.New("sim", db, flake.DefaultIDGenerator)
	if err != nil {
		e.Failf("setup", "%v", err)
		return
	}
	var wg sync.WaitGroup
	for ri, rd := range c.Readers {
		wg.Add(1)
		e.Go("reader", wg.Done, func() { c05Reader1(e, fmt.Sprintf("reader %d (%s)", ri, rd.Kind), rd, c.Base, db, prov, data) })
	}
	wg.Wait()
	prov.Close()
	db.Close()
}

// pageArg passes a limit or offset in one of the ways PageParam knows.
func pageArg(how, name string, v int) any {
	switch how {
	case "u32":
		return uint32(v)
	case "named":
		return sql.Named(name, v)
	case "namedu32":
		return sql.Named(name, uint32(v))
	}
	return v
}

var cursorTexts = []string{"bob", "who?", "who?~", "a?>b", "~~~", "\x7f\x7f\x7f", "żółć", "ÿþýü", "日本語テキスト", "<a&b>", `"q\"`, "\u2028\n\t", "=+/-_", "😀?", ""}

// cursorText is a sort key as lists are ordered by, with all kinds of letters.
func cursorText(id int64) string {
	n := uint64(id)
	return cursorTexts[n%uint64(len(cursorTexts))] + strings.Repeat("x", int(n/7%3)) + cursorTexts[(n/3)%uint64(len(cursorTexts))]
}

func c05Reader1(e *Env, what string, rd c05Reader, base int64, db *sql.DB, prov *xdb.SQLProvider, data []item) {
	var want []item
	for _, it := range data {
		if rd.Grp < 0 || it.Grp == int64(rd.Grp) {
			want = append(want, it)
		}
	}
	cursor := rd.Kind == "cursor" || rd.Kind == "cursorqp"
	limit := rd.Limit
	none := false // pages of no rows
	qpKind := strings.HasSuffix(rd.Kind, "qp")
	if limit == 0 {
		if !qpKind {
			limit = 1 // only parameter objects have a default page size
			none = rd.Reuse && !rd.NoLim
		}
	}
	eff := limit
	if eff == 0 {
		eff = xdb.DefaultPageSize
	}
	if rd.NoLim { // the query and its arguments ask for everything
		rd.Start, eff = 0, len(data)+1
	}
	offset := uint32(rd.Start)
	after := int64(0)
	if cursor {
		after = base + int64(rd.Start)
		k := 0
		for k < len(want) && want[k].ID <= after {
			k++
		}
		want = want[k:]
	} else {
		want = want[min(rd.Start, len(want)):]
	}
	if none {
		limit, want = 0, nil
	}
	var got []item
	qp := xdb.NewQueryParams("page" + e.Salt)
	requests, failures := 0, 0
	maxReq := len(want)/eff + 2
	for {
		if requests-failures > maxReq {
			e.Failf("paging-endless", "%s: still announcing pages after %d pages of %d over %d rows", what, requests-failures, eff, len(want))
			return
		}
		if failures > 60 {
			e.Failf("paging-stuck", "%s: %d requests failed in a row of at most 3 injected faults", what, failures)
			return
		}
		requests++
		e.Op()
		res := &itemList{}
		var err error
		func() {
			ctx, cancel := opCtx()
			defer cancel()
			if rd.MaxTO > 0 && failures == 0 && rd.MaxTO%3 == 0 { // by a deadline
				ctx, cancel = context.WithTimeout(ctx, time.Duration(rd.MaxTO)*time.Microsecond)
				defer cancel()
				e.Fault("context-deadline")
			} else if rd.MaxTO > 0 && failures == 0 {
				t := time.AfterFunc(time.Duration(rd.MaxTO)*time.Microsecond, func() { e.Fault("context-cancel"); cancel() })
				defer t.Stop()
			}
			var h xdb.DB = db
			switch rd.On {
			case "prov":
				h = prov
			case "tx":
				tp, err2 := prov.BeginTx(ctx, nil)
				if err2 != nil {
					err = err2
					return
				}
				defer tp.Close()
				h = tp
			}
			if !rd.Reuse {
				qp = xdb.NewQueryParams("page" + e.Salt)
			} else {
				qp.Reset()
			}
			var args []any
			cond := ""
			if rd.Grp >= 0 {
				cond = " AND grp = $1"
				args = append(args, rd.Grp)
				qp.Set(0, rd.Grp)
			}
			if cursor {
				q := fmt.Sprintf("SELECT id, grp, name FROM items WHERE id > $%d%s ORDER BY id LIMIT $%d", len(args)+1, cond, len(args)+2)
				mk := func(last *item) string {
					var v any = last.ID
					switch rd.Cur {
					case "id":
						v = xdb.NewID(uint64(last.ID))
					case "text":
						v = fmt.Sprint(last.ID)
					}
					switch rd.Shape {
					case "list": // a key of several columns
						return xdb.EncodeCursor(map[string]any{"key": []any{last.Name, v}})
					case "map":
						return xdb.EncodeCursor(map[string]any{"last": map[string]any{"id": v, "in": []any{v}}})
					}
					return xdb.EncodeCursor(map[string]any{"id": v, "s": cursorText(last.ID)})
				}
				if rd.NoLim {
					q = "SELECT id, grp, name FROM items WHERE id > 0" + cond + " ORDER BY id"
				}
				if rd.NoLim && qpKind {
					err = xdb.ExecuteQueryWithCursor[item](ctx, h, mk, res, q, qp)
				} else if rd.NoLim {
					err = xdb.ExecuteQueryWithCursor[item](ctx, h, mk, res, q, args...)
				} else if qpKind {
					qp.SetCursor(uint32(limit), 1, after)
					err = xdb.ExecuteQueryWithCursor[item](ctx, h, mk, res, q, qp)
				} else {
					err = xdb.ExecuteQueryWithCursor[item](ctx, h, mk, res, q, append(args, after, pageArg(rd.Arg, "limit", limit))...)
				}
			} else {
				q := fmt.Sprintf("SELECT id, grp, name FROM items WHERE id > 0%s ORDER BY id LIMIT $%d OFFSET $%d", cond, len(args)+1, len(args)+2)
				if rd.NoLim {
					q = "SELECT id, grp, name FROM items WHERE id > 0" + cond + " ORDER BY id"
				}
				if rd.NoLim && qpKind {
					err = xdb.ExecuteQueryWithPagination[item](ctx, h, res, q, qp)
				} else if rd.NoLim {
					err = xdb.ExecuteQueryWithPagination[item](ctx, h, res, q, args...)
				} else if qpKind {
					qp.SetPage(uint32(limit), offset)
					err = xdb.ExecuteQueryWithPagination[item](ctx, h, res, q, qp)
				} else {
					err = xdb.ExecuteQueryWithPagination[item](ctx, h, res, q, append(args, pageArg(rd.Arg, "limit", limit), pageArg(rd.Arg, "offset", int(offset)))...)
				}
			}
		}()
		if err != nil {
			failures++
			e.Logf("%s: request failed: %v", what, err)
			time.Sleep(time.Millisecond)
			continue
		}
		for _, p := range res.rows {
			got = append(got, *p)
		}
		e.Logf("%s: page of %d, more %v, next %d", what, len(res.rows), res.more, res.next)
		if !res.more {
			break
		}
		if len(res.rows) == 0 {
			e.Failf("paging-endless", "%s: an empty page announced a further page", what)
			return
		}
		if cursor {
			m, err := xdb.DecodeCursor(res.cursor(res.rows[len(res.rows)-1]))
			if err != nil {
				e.Failf("cursor-broken", "%s: its own cursor does not decode: %v", what, err)
				return
			}
			if last := res.rows[len(res.rows)-1]; rd.Shape == "" && m["s"] != cursorText(last.ID) {
				e.Failf("cursor-broken", "%s: its own cursor decodes to %q, want %q", what, m["s"], cursorText(last.ID))
				return
			}
			switch rd.Shape {
			case "list":
				if l, ok := m["key"].([]any); ok && len(l) == 2 && l[0] == string(res.rows[len(res.rows)-1].Name) {
					m["id"] = l[1]
				}
			case "map":
				if k, ok := m["last"].(map[string]any); ok {
					if l, ok := k["in"].([]any); ok && len(l) == 1 && l[0] == k["id"] {
						m["id"] = k["id"]
					}
				}
			}
			after = m.Int64("id")
			if rd.Cur == "id" {
				after = int64(m.UInt64("id"))
			}
		} else {
			offset = res.next
		}
	}
	if len(got) != len(want) {
		e.Failf("paging-coverage", "%s: page size %d delivered %d rows in total, the table has %d", what, eff, len(got), len(want))
		return
	}
	for i := range got {
		if got[i] != want[i] {
			e.Failf("paging-coverage", "%s: row %d of the chain is %+v, want %+v", what, i, got[i], want[i])
			return
		}
	}
}

// c04Warm builds every statement, the texts of which are cached.
func c04Warm() any {
	c := c04Case{Rows: 3, Pool: 2}
	var ops []c04Op
	for _, on := range []string{"db", "prov", "tx"} {
		for _, g := range []int{-1, 1} {
			for _, k := range []string{"list", "query", "queryqp", "page", "pageqp", "cursor", "cursorqp", "row", "stmt", "stmtrow"} {
				ops = append(ops, c04Op{Kind: k, On: on, Grp: g, Limit: 2})
			}
		}
	}
	c.Clients = [][]c04Op{ops}
	return c
}

func init() {
	real := []string{"query.go", "params.go (page and cursor parameters)", "prov.go", "xsql/executor.go", "database/sql"}
	stub := []string{"database server and driver (simulated)", "clock, timers, goroutine scheduler"}
	reg(&Prop{ID: "C04", Warm: c04Warm, Title: "complete or error", Runs: 60000, SimLimit: time.Hour, Real: real, Stub: stub,
		Rule: "1-3 clients run 1-5 list, page, cursor, single-row and statement queries each on the pool, a provider or a transaction over 0-1003 rows; faults fall on connect, begin, query, each row fetch and close; contexts end at chosen instants; a chosen row refuses to be scanned."}, c04Gen, c04Run)
	reg(&Prop{ID: "C05", Title: "paging", Runs: 60000, SimLimit: time.Hour, Real: real, Stub: stub,
		Rule:   "1-3 readers follow whole chains of pages by offset or cursor with page sizes from 1 to beyond the table, from any start, retrying failed requests at the same position.",
		Assume: []string{"the table does not change during the chain", "the query orders by a unique key"}}, c05Gen, c05Run)
}

package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"reflect"
	"time"
)

// This file is a database/sql driver onto the simulated server.

type ctxKey int

const cancelKey ctxKey = 1

// opCtx returns a context whose cancellation the fault plan can trigger.
func opCtx() (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	return context.WithValue(ctx, cancelKey, cancel), cancel
}

func cancelOp(ctx context.Context) {
	if c, ok := ctx.Value(cancelKey).(context.CancelFunc); ok {
		c()
	}
}

// errInjected is the cause of every injected statement error.
var errInjected = errors.New("simdb: injected failure")

type simDriver struct{}

func (simDriver) Open(string) (driver.Conn, error) { return nil, errors.New("use the connector") }

type connector struct {
	srv  *Server
	proc int
}

func (c connector) Driver() driver.Driver { return simDriver{} }

func (c connector) Connect(ctx context.Context) (driver.Conn, error) {
	hb()
	defer hb()
	s := c.srv
	f, hit := s.fault("connect")
	if err := s.latency(ctx, slowMS(f, hit)); err != nil {
		return nil, err
	}
	if hit {
		switch f.Kind {
		case "badconn":
			return nil, driver.ErrBadConn
		case "err", "garbage":
			return nil, errInjected
		case "drop", "dropafter":
			return nil, errConnLost
		case "cancel":
			cancelOp(ctx)
		case "crash":
			s.crash(f.MS)
		}
	}
	if s.step(c.proc, "connect") {
		return nil, errConnLost
	}
	ss, err := s.connect()
	if err != nil {
		return nil, err
	}
	ss.proc = c.proc
	return &simConn{ss: ss}, nil
}

func slowMS(f dbFault, hit bool) int {
	if hit && f.Kind == "slow" {
		return f.MS
	}
	return 0
}

// OpenDB opens a pool on the server.
func (s *Server) OpenDB(maxConns int) *sql.DB { return s.OpenProc(maxConns, 0) }

// OpenProc opens a pool on the server in a client process.
func (s *Server) OpenProc(maxConns, proc int) *sql.DB {
	db := sql.OpenDB(connector{s, proc})
	if maxConns > 0 {
		db.SetMaxOpenConns(maxConns)
	}
	return db
}

type simConn struct {
	ss   *Session
	tx   bool
	shut bool
}

func (c *simConn) Prepare(q string) (driver.Stmt, error) {
	return &simStmt{c: c, q: q}, nil
}
func (c *simConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *simConn) Close() error {
	hb()
	defer hb()
	if !c.shut {
		c.shut = true
		c.ss.kill()
		if c.ss.srv.closeErr {
			c.ss.srv.e.Fault("close-error")
			return errInjected
		}
	}
	return nil
}

func (c *simConn) IsValid() bool {
	hb()
	return !c.ss.dead
}

func (c *simConn) ResetSession(ctx context.Context) error {
	hb()
	defer hb()
	if c.ss.dead {
		return driver.ErrBadConn
	}
	return nil
}

// step is the common part of every exchange: latency, then the planned fault.
// after reports that the connection is to be lost once the work is done.
func (c *simConn) step(ctx context.Context, point string) (after bool, err error) {
	s := c.ss.srv
	if s.step(c.ss.proc, point) {
		return false, errConnLost
	}
	f, hit := s.fault(point)
	if hit {
		switch f.Kind {
		case "badconn":
			c.ss.kill()
			return false, driver.ErrBadConn
		case "drop":
			c.ss.kill()
			_ = s.latency(context.Background(), 0)
			return false, errConnLost
		case "crash":
			s.crash(f.MS)
			return false, errConnLost
		case "cancel":
			cancelOp(ctx)
		}
	}
	if c.ss.dead {
		return false, driver.ErrBadConn
	}
	if err := s.latency(ctx, slowMS(f, hit)); err != nil {
		if c.ss.tx != nil {
			c.ss.tx.aborted = true
		}
		return false, err
	}
	if c.ss.dead {
		return false, errConnLost
	}
	if hit && (f.Kind == "err" || f.Kind == "garbage") {
		if c.ss.tx != nil {
			c.ss.tx.aborted = true
		}
		return false, errInjected
	}
	return hit && f.Kind == "dropafter", nil
}

func (c *simConn) Ping(ctx context.Context) error {
	hb()
	defer hb()
	s := c.ss.srv
	s.Pings = append(s.Pings, time.Now())
	after, err := c.step(ctx, "ping")
	if after {
		c.ss.kill()
		return errConnLost
	}
	return err
}

func (c *simConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	hb()
	defer hb()
	after, err := c.step(ctx, "begin")
	if err != nil {
		return nil, err
	}
	if err := c.ss.begin(o); err != nil {
		return nil, err
	}
	if after {
		c.ss.kill()
		return nil, errConnLost
	}
	c.tx = true
	return &simTx{c}, nil
}

type simTx struct{ c *simConn }

func (t *simTx) Commit() error {
	hb()
	defer hb()
	c := t.c
	after, err := c.step(context.Background(), "commit")
	c.tx = false
	if err != nil {
		if !c.ss.dead {
			c.ss.rollback()
		}
		return err
	}
	if c.ss.cursor {
		c.ss.rollback()
		return errBusy
	}
	err = c.ss.commit()
	if after {
		c.ss.kill()
		return errConnLost
	}
	return err
}

func (t *simTx) Rollback() error {
	hb()
	defer hb()
	c := t.c
	after, err := c.step(context.Background(), "rollback")
	c.tx = false
	c.ss.rollback()
	if after {
		c.ss.kill()
		return errConnLost
	}
	return err
}

var errBusy = errors.New("simdb: there is already a query being processed on this connection")

func (s *Server) vals(args []driver.NamedValue) []val {
	out := make([]val, len(args))
	for i, a := range args {
		out[i] = a.Value
		if a.Name != "" && !s.byOrder {
			out[i] = namedVal{a.Name, a.Value}
		}
	}
	return out
}

// CheckNamedValue lets named arguments through.
func (c *simConn) CheckNamedValue(nv *driver.NamedValue) error {
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err == nil {
		nv.Value = v
	}
	return err
}

func (c *simConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	hb()
	defer hb()
	after, err := c.step(ctx, "exec")
	if err == nil && c.ss.srv.slowFor != nil {
		if ms := c.ss.srv.slowFor(q); ms > 0 && c.ss.srv.latency(ctx, ms) != nil {
			// The server stops the statement.
			if c.ss.tx != nil {
				c.ss.tx.aborted = true
			}
			return nil, ctx.Err()
		}
		if c.ss.dead {
			return nil, errConnLost
		}
	}
	if err != nil {
		return nil, err
	}
	if c.ss.cursor {
		return nil, errBusy
	}
	rs, err := c.ss.exec(ctx, q, c.ss.srv.vals(args))
	if err == nil && c.ss.dead {
		err = errConnLost
	}
	if after {
		c.ss.kill()
		return nil, errConnLost
	}
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(rs.Affected), nil
}

func (c *simConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	hb()
	defer hb()
	after, err := c.step(ctx, "query")
	if err != nil {
		return nil, err
	}
	if c.ss.cursor {
		c.ss.srv.e.Probe("query-while-cursor-open")
		return nil, errBusy
	}
	rs, err := c.ss.exec(ctx, q, c.ss.srv.vals(args))
	if err == nil && c.ss.dead {
		err = errConnLost
	}
	if after {
		c.ss.kill()
		return nil, errConnLost
	}
	if err != nil {
		return nil, err
	}
	c.ss.cursor = true
	return &simRows{c: c, rs: rs, ctx: ctx}, nil
}

type simRows struct {
	bufs [][]byte
	c    *simConn
	rs   *resultSet
	i    int
	ctx  context.Context
	err  error
}

func (r *simRows) Columns() []string {
	hb()
	defer hb()
	out := make([]string, len(r.rs.Cols))
	for i, c := range r.rs.Cols {
		out[i] = c.Name
	}
	return out
}

func (r *simRows) ColumnTypeScanType(int) reflect.Type { return reflect.TypeFor[any]() }

func (r *simRows) Close() error {
	hb()
	defer hb()
	s := r.c.ss.srv
	r.c.ss.cursor = false
	f, hit := s.fault("close")
	if hit {
		switch f.Kind {
		case "badconn", "drop", "dropafter":
			r.c.ss.kill()
			return errConnLost
		case "crash":
			s.crash(f.MS)
			return errConnLost
		case "err", "garbage":
			return errInjected
		case "cancel":
			cancelOp(r.ctx)
		case "slow":
			time.Sleep(time.Duration(f.MS) * time.Millisecond)
			hb()
		}
	}
	return nil
}

func (r *simRows) Next(dest []driver.Value) error {
	hb()
	defer hb()
	s := r.c.ss.srv
	if r.err != nil {
		return r.err
	}
	f, hit := s.fault("next")
	if hit {
		switch f.Kind {
		case "badconn": // as lib/pq reports a lost connection
			r.c.ss.kill()
			r.err = driver.ErrBadConn
			return r.err
		case "drop", "dropafter":
			r.c.ss.kill()
			r.err = errConnLost
			return r.err
		case "crash":
			s.crash(f.MS)
		case "err":
			r.err = errInjected
			return r.err
		case "cancel":
			cancelOp(r.ctx)
		case "slow":
			time.Sleep(time.Duration(f.MS) * time.Millisecond)
			hb()
		}
	}
	if r.c.ss.dead {
		r.err = errConnLost
		return r.err
	}
	// Rows arrive in batches; the reader waits now and then.
	if s.jitUS > 0 && s.r.Intn(3) == 0 {
		if err := s.latency(r.ctx, 0); err != nil {
			r.err = err
			return err
		}
		if r.c.ss.dead {
			r.err = errConnLost
			return r.err
		}
	}
	if r.i >= len(r.rs.Rows) {
		return io.EOF
	}
	for _, b := range r.bufs {
		// Like real drivers, hand out memory that is reused for the next row.
		for k := range b {
			b[k] = 0xEE
		}
	}
	r.bufs = r.bufs[:0]
	copy(dest, r.rs.Rows[r.i])
	for k, v := range dest {
		if b, ok := v.([]byte); ok {
			b = append([]byte{}, b...)
			r.bufs = append(r.bufs, b)
			dest[k] = b
		}
	}
	if hit && f.Kind == "garbage" && len(dest) > 0 {
		for k := range dest {
			dest[k] = garbageValue{}
		}
	}
	r.i++
	return nil
}

// garbageValue cannot be scanned into anything.
type garbageValue struct{ X int }

type simStmt struct {
	c *simConn
	q string
}

func (s *simStmt) Close() error  { return nil }
func (s *simStmt) NumInput() int { return -1 }
func (s *simStmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(a))
}
func (s *simStmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(a))
}

func named(a []driver.Value) []driver.NamedValue {
	out := make([]driver.NamedValue, len(a))
	for i, v := range a {
		out[i] = driver.NamedValue{Ordinal: i + 1, Value: v}
	}
	return out
}

// openPlainDB is a pool on a healthy server.
func openPlainDB(e *Env) *sql.DB { return newServer(e, e.Seed, "postgres").OpenDB(0) }

// genFaults makes a fault plan.
func genFaults(r *R, points []string, kinds []string, maxAt int) []dbFault {
	var out []dbFault
	n := pick(r, 0, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		f := dbFault{Point: pick(r, points...), At: r.Intn(maxAt), Kind: pick(r, kinds...)}
		if r.P(40) {
			f.At = r.Intn(min(maxAt, 4))
		}
		switch f.Kind {
		case "slow":
			f.MS = pick(r, 1, 5, 50, 1000)
		case "crash":
			f.MS = pick(r, 0, 1, 10)
		}
		out = append(out, f)
	}
	return out
}

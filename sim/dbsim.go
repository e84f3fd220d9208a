package main

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// This file is the simulated database server: tables, sessions, transactions,
// advisory locks and faults. The in-process driver (drv.go) and the wire
// protocol front end (wire.go) both talk to it.

type val = driver.Value

type dbCol struct{ Name, Type string }

type dbTable struct {
	Name string
	Cols []dbCol
	Rows [][]val
}

func (t *dbTable) clone() *dbTable {
	c := &dbTable{Name: t.Name, Cols: append([]dbCol{}, t.Cols...), Rows: make([][]val, len(t.Rows))}
	for i, r := range t.Rows {
		c.Rows[i] = append([]val{}, r...)
	}
	return c
}

func (t *dbTable) col(name string) int {
	for i, c := range t.Cols {
		if strings.EqualFold(c.Name, name) {
			return i
		}
	}
	return -1
}

// dbFault is one injected fault: at the At-th event of kind Point.
type dbFault struct {
	Point string `json:"point"` // connect ping begin exec query next close commit rollback any
	At    int    `json:"at"`
	Kind  string `json:"kind"` // badconn err drop dropafter slow cancel crash garbage
	MS    int    `json:"ms,omitempty"`
}

// logEntry is one statement the server executed.
type logEntry struct {
	Sess int
	SQL  string
	Args []val
	Err  string
	At   time.Duration
	Tx   bool
}

type resultSet struct {
	Cols     []dbCol
	Rows     [][]val
	Affected int64
	Tag      string
}

// Server is a simulated database server.
type Server struct {
	e       *Env
	r       *R
	Dialect string // postgres or sqlserver
	tables  map[string]*dbTable
	sess    map[int]*Session
	nextID  int
	downTo  time.Time
	faults  []dbFault
	hits    map[string]int
	baseUS  int
	jitUS   int
	Log     []logEntry
	Pings   []time.Time
	PingErr []bool
	Begins  []driver.TxOptions
	locks   map[string]*Session
	lockCh  map[string][]chan struct{}
	chans   map[string]map[int]*Session // LISTEN
	catalog *catalog
	// hook may answer a statement itself.
	hook func(s *Session, q string, args []val) (*resultSet, error, bool)
	// before, when set, is called before each statement executes.
	before func(s *Session, q string)

	// byOrder: named arguments are taken by their position.
	byOrder bool

	// slowFor, when set, is the time a statement takes, in milliseconds.
	slowFor func(q string) int
	// closeErr makes closing a connection report an error.
	closeErr bool
	// onClient is told about a fault of kind cancel when no operation context is known.
	DBName    string
	opened    int
	maxOpen   int
	pingCount int
	keepLog   bool
	// Wire protocol front end.
	conns       []*netConn
	wires       map[int]*wireSess
	onCancel    func()
	short       int // percentage of reads that return less than is there
	politeCrash bool
	// procStep, when set, is asked before each exchange of a client process
	// whether that process dies now.
	procStep func(proc int, point string) bool
	deadProc map[int]bool
	procOf   map[string]int // client process by dialed address
	// onStore, when set, is how a value is kept in a column of a type.
	onStore func(ty string, v val) val
	zone    *time.Location // of the sessions
	// login, when set, is asked who may start a session; who is the goroutine
	// that dialed.
	login func(who uint32, params map[string]string, password string) error
	// dialed, when set, is told who dials.
	dialed func(who uint32)
	tds    bool // speaks the SQL Server protocol
}

// Session is one client connection.
type Session struct {
	srv    *Server
	id     int
	dead   bool
	tx     *dbTx
	cursor bool // rows open
	notify func(channel, payload string, pid int)
	onDie  func()
	wire   bool // arguments arrive as text
	proc   int  // client process
}

type dbTx struct {
	opts    driver.TxOptions
	ops     []func(view map[string]*dbTable) error
	view    map[string]*dbTable // snapshot levels
	aborted bool
	wrote   bool
}

func newServer(e *Env, seed uint64, dialect string) *Server {
	return &Server{e: e, r: NewR(seed, "server"), Dialect: dialect, tables: map[string]*dbTable{}, sess: map[int]*Session{},
		hits: map[string]int{}, locks: map[string]*Session{}, lockCh: map[string][]chan struct{}{}, chans: map[string]map[int]*Session{},
		baseUS: 20, jitUS: 200, DBName: "simdb", keepLog: true}
}

// pgErr is an error reported by the server.
type dbError struct {
	Code string
	Msg  string
	Dead bool // the connection is lost
}

func (e *dbError) Error() string { return "simdb: " + e.Msg }

var errConnLost = errors.New("simdb: connection lost")

// fault consumes one event of a point and returns the fault planned for it.
func (s *Server) fault(point string) (dbFault, bool) {
	hb()
	defer hb()
	n, m := s.hits[point], s.hits["any"]
	s.hits[point]++
	s.hits["any"]++
	for _, f := range s.faults {
		if f.Point == point && f.At == n || f.Point == "any" && f.At == m {
			s.e.Fault(f.Kind + "@" + point)
			return f, true
		}
	}
	return dbFault{}, false
}

func (s *Server) down() bool { return time.Now().Before(s.downTo) }

// crash ends every session; uncommitted work is lost.
func (s *Server) crash(downMS int) {
	hb()
	defer hb()
	s.downTo = time.Now().Add(time.Duration(downMS) * time.Millisecond)
	for _, id := range sortedSess(s.sess) {
		s.sess[id].kill()
	}
}

// step counts an exchange of a client process and ends the process when its
// time has come. It reports whether the process is dead.
func (s *Server) step(proc int, point string) bool {
	hb()
	defer hb()
	if !s.deadProc[proc] && s.procStep != nil && s.procStep(proc, point) {
		s.killProc(proc)
	}
	return s.deadProc[proc]
}

// killProc ends a client process: the network closes its connections.
func (s *Server) killProc(proc int) {
	if s.deadProc == nil {
		s.deadProc = map[int]bool{}
	}
	s.deadProc[proc] = true
	for _, c := range s.conns {
		if c.proc == proc && !c.shut {
			c.abort()
		}
	}
	for _, id := range sortedSess(s.sess) {
		if ss := s.sess[id]; ss != nil && ss.proc == proc {
			ss.kill()
		}
	}
}

func sortedSess(m map[int]*Session) []int {
	var ids []int
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func (s *Server) connect() (*Session, error) {
	hb()
	defer hb()
	if s.down() {
		return nil, &dbError{Code: "57P03", Msg: "connection refused", Dead: true}
	}
	s.nextID++
	ss := &Session{srv: s, id: s.nextID}
	s.sess[ss.id] = ss
	s.opened++
	if len(s.sess) > s.maxOpen {
		s.maxOpen = len(s.sess)
	}
	return ss, nil
}

// Open is the number of live sessions.
func (s *Server) Open() int { return len(s.sess) }

func (ss *Session) kill() {
	hb()
	defer hb()
	if ss.dead {
		return
	}
	ss.dead = true
	ss.tx = nil
	delete(ss.srv.sess, ss.id)
	for ch := range ss.srv.chans {
		delete(ss.srv.chans[ch], ss.id)
	}
	var ks []string
	for k, o := range ss.srv.locks {
		if o == ss {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		ss.srv.unlock(k, ss)
	}
	if ss.onDie != nil {
		ss.onDie()
	}
}

func (s *Server) unlock(k string, ss *Session) bool {
	if s.locks[k] != ss {
		return false
	}
	delete(s.locks, k)
	ws := s.lockCh[k]
	delete(s.lockCh, k)
	for _, w := range ws {
		close(w)
	}
	return true
}

// lock waits for an advisory lock.
func (s *Server) lock(ctx context.Context, k string, ss *Session) error {
	for s.locks[k] != nil && s.locks[k] != ss {
		s.e.Probe("advisory-lock-contended")
		w := make(chan struct{})
		s.lockCh[k] = append(s.lockCh[k], w)
		select {
		case <-w:
		case <-ctx.Done():
			return ctx.Err()
		}
		if ss.dead {
			return errConnLost
		}
	}
	s.locks[k] = ss
	return nil
}

// latency waits for the time one exchange takes.
func (s *Server) latency(ctx context.Context, extraMS int) error {
	hb()
	us := s.baseUS
	if s.jitUS > 0 {
		us += s.r.Intn(s.jitUS)
	}
	d := time.Duration(us)*time.Microsecond + time.Duration(extraMS)*time.Millisecond
	if d <= 0 {
		return ctx.Err()
	}
	hb()
	defer hb()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return ctx.Err()
	case <-ctx.Done():
		return ctx.Err()
	}
}

// ---------------------------------------------------------------- SQL

func (s *Server) addTable(name string, cols ...string) *dbTable {
	t := &dbTable{Name: name}
	for _, c := range cols {
		n, ty, _ := strings.Cut(c, " ")
		t.Cols = append(t.Cols, dbCol{n, ty})
	}
	s.tables[strings.ToLower(name)] = t
	return t
}

type tok struct {
	k byte // i ident, n number, s string, p punct, a parameter
	v string
}

func lex(q string) ([]tok, error) {
	var out []tok
	isID := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c >= 0x80
	}
	qn := 0
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && i+1 < len(q) && q[i+1] == '-':
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case c == '\'' || (c == 'N' && i+1 < len(q) && q[i+1] == '\''):
			if c == 'N' {
				i++
			}
			var b strings.Builder
			i++
			for {
				if i >= len(q) {
					return nil, &dbError{Code: "42601", Msg: "unterminated string"}
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(q[i])
				i++
			}
			out = append(out, tok{'s', b.String()})
		case c == '"' || c == '[' || isID(c) && !(c >= '0' && c <= '9') && c != '.':
			var b strings.Builder
			for i < len(q) {
				if q[i] == '"' || q[i] == '[' {
					end := byte('"')
					if q[i] == '[' {
						end = ']'
					}
					j := strings.IndexByte(q[i+1:], end)
					if j < 0 {
						return nil, &dbError{Code: "42601", Msg: "unterminated identifier"}
					}
					b.WriteString(q[i+1 : i+1+j])
					i += j + 2
				} else if isID(q[i]) {
					b.WriteByte(q[i])
					i++
				} else {
					break
				}
			}
			out = append(out, tok{'i', b.String()})
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			out = append(out, tok{'n', q[i:j]})
			i = j
		case c == '$' || c == '@':
			j := i + 1
			for j < len(q) && isID(q[j]) {
				j++
			}
			out = append(out, tok{'a', strings.TrimLeft(q[i:j], "$@p")})
			i = j
		case c == '?':
			qn++
			out = append(out, tok{'a', strconv.Itoa(qn)})
			i++
		default:
			two := ""
			if i+1 < len(q) {
				two = q[i : i+2]
			}
			if two == "<>" || two == "<=" || two == ">=" || two == "!=" || two == "::" || two == "||" {
				out = append(out, tok{'p', two})
				i += 2
			} else {
				out = append(out, tok{'p', string(c)})
				i++
			}
		}
	}
	return out, nil
}

type parser struct {
	t    []tok
	i    int
	args []val
	err  error
}

func (p *parser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{}
}
func (p *parser) next() tok { t := p.peek(); p.i++; return t }
func (p *parser) kw(ws ...string) bool {
	for k, w := range ws {
		if p.i+k >= len(p.t) || p.t[p.i+k].k != 'i' || !strings.EqualFold(p.t[p.i+k].v, w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *parser) pn(v string) bool {
	if t := p.peek(); t.k == 'p' && t.v == v {
		p.i++
		return true
	}
	return false
}
func (p *parser) fail(f string, a ...any) {
	if p.err == nil {
		p.err = &dbError{Code: "42601", Msg: "syntax error: " + fmt.Sprintf(f, a...)}
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.fail("identifier expected near %q", t.v)
	}
	return t.v
}

// value reads a literal or parameter.
func (p *parser) value() val {
	t := p.next()
	switch t.k {
	case 'n':
		if strings.Contains(t.v, ".") {
			f, _ := strconv.ParseFloat(t.v, 64)
			return f
		}
		n, err := strconv.ParseInt(t.v, 10, 64)
		if err != nil {
			p.fail("number %q", t.v)
		}
		return n
	case 's':
		return t.v
	case 'a':
		n, err := strconv.Atoi(t.v)
		if err != nil || n < 1 || n > len(p.args) {
			p.fail("no value for parameter %q", t.v)
			return nil
		}
		return p.args[n-1]
	case 'i':
		switch strings.ToUpper(t.v) {
		case "NULL":
			return nil
		case "TRUE":
			return true
		case "FALSE":
			return false
		}
	case 'p':
		if t.v == "-" {
			switch x := p.value().(type) {
			case int64:
				return -x
			case float64:
				return -x
			}
		}
	}
	p.fail("value expected near %q", t.v)
	return nil
}

func cmpVal(a, b val) (int, bool) {
	norm := func(v val) any {
		switch x := v.(type) {
		case int:
			return float64(x)
		case int64:
			return float64(x)
		case uint64:
			return float64(x)
		case float64:
			return x
		case bool:
			if x {
				return float64(1)
			}
			return float64(0)
		case []byte:
			return string(x)
		case time.Time:
			return float64(x.UnixNano())
		}
		return v
	}
	x, y := norm(a), norm(b)
	if i, ok := a.(int64); ok {
		if j, ok := b.(int64); ok {
			switch {
			case i < j:
				return -1, true
			case i > j:
				return 1, true
			}
			return 0, true
		}
	}
	if f, ok := x.(float64); ok {
		if s, ok := y.(string); ok {
			if g, err := strconv.ParseFloat(s, 64); err == nil {
				y = g
			}
		}
		if g, ok := y.(float64); ok {
			switch {
			case f < g:
				return -1, true
			case f > g:
				return 1, true
			}
			return 0, true
		}
	}
	if f, ok := x.(string); ok {
		if g, ok := y.(float64); ok {
			if h, err := strconv.ParseFloat(f, 64); err == nil {
				c, k := cmpVal(h, g)
				return c, k
			}
		}
		if g, ok := y.(string); ok {
			return strings.Compare(f, g), true
		}
	}
	return 0, false
}

type cond struct {
	col, op string
	v       val
}

func (p *parser) where() []cond {
	var out []cond
	if !p.kw("WHERE") {
		return out
	}
	for {
		paren := p.pn("(")
		c := cond{col: p.ident()}
		if p.kw("IS", "NOT") {
			c.op = "notnull"
			p.kw("NULL")
		} else if p.kw("IS") {
			c.op = "null"
			p.kw("NULL")
		} else {
			c.op = p.next().v
			c.v = p.value()
		}
		if paren {
			p.pn(")")
		}
		out = append(out, c)
		if !p.kw("AND") {
			return out
		}
	}
}

func match(t *dbTable, row []val, cs []cond) (bool, error) {
	for _, c := range cs {
		name := c.col
		if i := strings.LastIndexByte(name, '.'); i >= 0 {
			name = name[i+1:]
		}
		k := t.col(name)
		if k < 0 {
			return false, &dbError{Code: "42703", Msg: "column " + c.col + " does not exist"}
		}
		v := row[k]
		switch c.op {
		case "null":
			if v != nil {
				return false, nil
			}
			continue
		case "notnull":
			if v == nil {
				return false, nil
			}
			continue
		}
		if v == nil || c.v == nil {
			return false, nil
		}
		d, ok := cmpVal(v, c.v)
		if !ok {
			return false, &dbError{Code: "42883", Msg: fmt.Sprintf("cannot compare %T with %T", v, c.v)}
		}
		hit := false
		switch c.op {
		case "=":
			hit = d == 0
		case "<>", "!=":
			hit = d != 0
		case "<":
			hit = d < 0
		case ">":
			hit = d > 0
		case "<=":
			hit = d <= 0
		case ">=":
			hit = d >= 0
		default:
			return false, &dbError{Code: "42601", Msg: "operator " + c.op}
		}
		if !hit {
			return false, nil
		}
	}
	return true, nil
}

func (p *parser) end() {
	p.pn(";")
	if p.i < len(p.t) && p.err == nil {
		p.fail("unexpected %q", p.peek().v)
	}
}

// view is the state a session sees.
func (ss *Session) view() map[string]*dbTable {
	s := ss.srv
	if ss.tx == nil {
		return s.tables
	}
	base := s.tables
	if ss.tx.view != nil {
		base = ss.tx.view
	}
	if len(ss.tx.ops) == 0 {
		return base
	}
	v := map[string]*dbTable{}
	for k, t := range base {
		v[k] = t.clone()
	}
	for _, op := range ss.tx.ops {
		_ = op(v)
	}
	return v
}

func cloneTables(m map[string]*dbTable) map[string]*dbTable {
	v := map[string]*dbTable{}
	for k, t := range m {
		v[k] = t.clone()
	}
	return v
}

// write performs a change now (no transaction) or records it.
func (ss *Session) write(op func(view map[string]*dbTable) error) error {
	if ss.tx == nil {
		return op(ss.srv.tables)
	}
	if ss.tx.opts.ReadOnly {
		return &dbError{Code: "25006", Msg: "cannot execute in a read-only transaction"}
	}
	v := cloneTables(ss.view())
	if err := op(v); err != nil {
		return err
	}
	ss.tx.ops = append(ss.tx.ops, op)
	ss.tx.wrote = true
	return nil
}

func (ss *Session) begin(opts driver.TxOptions) error {
	if ss.tx != nil {
		return &dbError{Code: "25001", Msg: "transaction already in progress"}
	}
	ss.tx = &dbTx{opts: opts}
	if opts.Isolation >= 4 { // repeatable read and stricter: snapshot
		ss.tx.view = cloneTables(ss.srv.tables)
	}
	ss.srv.Begins = append(ss.srv.Begins, opts)
	return nil
}

func (ss *Session) commit() error {
	tx := ss.tx
	ss.tx = nil
	if tx == nil {
		return &dbError{Code: "25P01", Msg: "no transaction in progress"}
	}
	if tx.aborted {
		return &dbError{Code: "25P02", Msg: "current transaction is aborted"}
	}
	for _, op := range tx.ops {
		if err := op(ss.srv.tables); err != nil {
			return err
		}
	}
	return nil
}

func (ss *Session) rollback() { ss.tx = nil }

// exec executes one statement.
func (ss *Session) exec(ctx context.Context, q string, args []val) (rs *resultSet, err error) {
	hb()
	defer hb()
	s := ss.srv
	if ss.dead {
		return nil, errConnLost
	}
	if s.before != nil {
		s.before(ss, q)
	}
	defer func() {
		if s.keepLog && len(s.Log) < 20000 {
			en := logEntry{Sess: ss.id, SQL: q, Args: args, At: time.Since(s.e.start), Tx: ss.tx != nil}
			if err != nil {
				en.Err = err.Error()
			}
			s.Log = append(s.Log, en)
		}
		if err != nil && ss.tx != nil {
			ss.tx.aborted = true
		}
	}()
	if ss.tx != nil && ss.tx.aborted && s.Dialect == "postgres" {
		up := strings.ToUpper(strings.TrimSpace(q))
		if !strings.HasPrefix(up, "ROLLBACK") && !strings.HasPrefix(up, "COMMIT") {
			return nil, &dbError{Code: "25P02", Msg: "current transaction is aborted, commands ignored until end of transaction block"}
		}
	}
	if s.hook != nil {
		if rs, err, ok := s.hook(ss, q, args); ok {
			return rs, err
		}
	}
	if rs, err, ok := ss.special(ctx, q, args); ok {
		return rs, err
	}
	if s.catalog != nil {
		if rs, err, ok := s.catalog.answer(s.Dialect, q, args); ok {
			return rs, err
		}
	}
	toks, err := lex(q)
	if err != nil {
		return nil, err
	}
	// Split a batch into statements.
	var stmts [][]tok
	cur := []tok{}
	for _, t := range toks {
		if t.k == 'p' && t.v == ";" {
			if len(cur) > 0 {
				stmts = append(stmts, cur)
			}
			cur = []tok{}
			continue
		}
		cur = append(cur, t)
	}
	if len(cur) > 0 {
		stmts = append(stmts, cur)
	}
	if len(stmts) == 0 {
		return &resultSet{Tag: ""}, nil
	}
	// A batch without a transaction is atomic, as in the simple protocol.
	if len(stmts) > 1 && ss.tx == nil && s.Dialect == "postgres" {
		save := cloneTables(s.tables)
		for _, st := range stmts {
			if rs, err = ss.one(&parser{t: st, args: args}); err != nil {
				s.tables = save
				return nil, err
			}
		}
		return rs, nil
	}
	for _, st := range stmts {
		if rs, err = ss.one(&parser{t: st, args: args}); err != nil {
			return nil, err
		}
	}
	return rs, nil
}

func find(v map[string]*dbTable, name string) (*dbTable, error) {
	n := strings.ToLower(name)
	for _, pre := range []string{"", "public.", "dbo."} {
		if t := v[pre+n]; t != nil {
			return t, nil
		}
	}
	for _, pre := range []string{"public.", "dbo."} {
		if t := v[strings.TrimPrefix(n, pre)]; t != nil && strings.HasPrefix(n, pre) {
			return t, nil
		}
	}
	return nil, &dbError{Code: "42P01", Msg: "relation " + name + " does not exist"}
}

func (ss *Session) one(p *parser) (*resultSet, error) {
	hb()
	defer hb()
	done := func(rs *resultSet, err error) (*resultSet, error) {
		if err == nil {
			p.end()
			err = p.err
		}
		if err != nil {
			return nil, err
		}
		return rs, nil
	}
	switch {
	case p.kw("SELECT"):
		return ss.sel(p)
	case p.kw("INSERT", "INTO"):
		name := p.ident()
		var cols []string
		if p.pn("(") {
			for {
				cols = append(cols, p.ident())
				if !p.pn(",") {
					break
				}
			}
			p.pn(")")
		}
		if !p.kw("VALUES") {
			p.fail("VALUES expected")
		}
		var rows [][]val
		for p.err == nil {
			if !p.pn("(") {
				p.fail("( expected")
			}
			var row []val
			for p.err == nil {
				row = append(row, p.value())
				if !p.pn(",") {
					break
				}
			}
			p.pn(")")
			rows = append(rows, row)
			if !p.pn(",") {
				break
			}
		}
		var ret []string
		if p.kw("RETURNING") {
			for {
				ret = append(ret, p.ident())
				if !p.pn(",") {
					break
				}
			}
		}
		p.end()
		if p.err != nil {
			return nil, p.err
		}
		rs := &resultSet{Affected: int64(len(rows)), Tag: fmt.Sprintf("INSERT 0 %d", len(rows))}
		err := ss.write(func(v map[string]*dbTable) error {
			t, err := find(v, name)
			if err != nil {
				return err
			}
			for _, r := range rows {
				nr := make([]val, len(t.Cols))
				if cols == nil {
					copy(nr, r)
				} else {
					if len(r) != len(cols) {
						return &dbError{Code: "42601", Msg: "INSERT has a different number of columns and values"}
					}
					for i, c := range cols {
						k := t.col(c)
						if k < 0 {
							return &dbError{Code: "42703", Msg: "column " + c + " does not exist"}
						}
						nr[k] = r[i]
					}
				}
				for k := range nr {
					nr[k] = ss.keep(t.Cols[k].Type, nr[k])
					if err, bad := nr[k].(error); bad {
						return &dbError{Code: "22P02", Msg: err.Error()}
					}
				}
				t.Rows = append(t.Rows, nr)
			}
			return nil
		})
		if err == nil && len(ret) > 0 {
			t, err := find(ss.view(), name)
			if err != nil {
				return nil, err
			}
			for _, r := range t.Rows[len(t.Rows)-len(rows):] {
				var o []val
				for _, c := range ret {
					o = append(o, r[max(t.col(c), 0)])
				}
				rs.Rows = append(rs.Rows, o)
			}
			for _, c := range ret {
				rs.Cols = append(rs.Cols, t.Cols[max(t.col(c), 0)])
			}
		}
		return rs, err
	case p.kw("UPDATE"):
		name := p.ident()
		p.kw("SET")
		type as struct {
			c string
			v val
		}
		var sets []as
		for p.err == nil {
			c := p.ident()
			if !p.pn("=") {
				p.fail("= expected")
			}
			sets = append(sets, as{c, p.value()})
			if !p.pn(",") {
				break
			}
		}
		cs := p.where()
		p.end()
		if p.err != nil {
			return nil, p.err
		}
		n := int64(0)
		err := ss.write(func(v map[string]*dbTable) error {
			t, err := find(v, name)
			if err != nil {
				return err
			}
			n = 0
			for _, r := range t.Rows {
				ok, err := match(t, r, cs)
				if err != nil {
					return err
				}
				if ok {
					n++
					for _, a := range sets {
						k := t.col(a.c)
						if k < 0 {
							return &dbError{Code: "42703", Msg: "column " + a.c + " does not exist"}
						}
						nv := ss.keep(t.Cols[k].Type, a.v)
						if err, bad := nv.(error); bad {
							return &dbError{Code: "22P02", Msg: err.Error()}
						}
						r[k] = nv
					}
				}
			}
			return nil
		})
		return &resultSet{Affected: n, Tag: fmt.Sprintf("UPDATE %d", n)}, err
	case p.kw("DELETE", "FROM"):
		name := p.ident()
		cs := p.where()
		p.end()
		if p.err != nil {
			return nil, p.err
		}
		n := int64(0)
		err := ss.write(func(v map[string]*dbTable) error {
			t, err := find(v, name)
			if err != nil {
				return err
			}
			n = 0
			var keep [][]val
			for _, r := range t.Rows {
				ok, err := match(t, r, cs)
				if err != nil {
					return err
				}
				if ok {
					n++
				} else {
					keep = append(keep, r)
				}
			}
			t.Rows = keep
			return nil
		})
		return &resultSet{Affected: n, Tag: fmt.Sprintf("DELETE %d", n)}, err
	case p.kw("TRUNCATE"):
		p.kw("TABLE")
		name := p.ident()
		return done(&resultSet{Tag: "TRUNCATE TABLE"}, ss.write(func(v map[string]*dbTable) error {
			t, err := find(v, name)
			if err == nil {
				t.Rows = nil
			}
			return err
		}))
	case p.kw("CREATE", "TABLE"):
		ine := p.kw("IF", "NOT", "EXISTS")
		name := p.ident()
		t := &dbTable{Name: name}
		if p.pn("(") {
			for p.err == nil {
				c := dbCol{Name: p.ident()}
				for d := 0; p.i < len(p.t); {
					if d == 0 && (p.peek().v == "," || p.peek().v == ")") && p.peek().k == 'p' {
						break
					}
					t := p.next()
					if t.k == 'p' && t.v == "(" {
						d++
					} else if t.k == 'p' && t.v == ")" {
						d--
					} else if c.Type == "" {
						c.Type = strings.ToLower(t.v)
					}
				}
				t.Cols = append(t.Cols, c)
				if !p.pn(",") {
					break
				}
			}
			if !p.pn(")") {
				p.fail(") expected")
			}
		}
		if p.err != nil {
			return nil, p.err
		}
		return done(&resultSet{Tag: "CREATE TABLE"}, ss.write(func(v map[string]*dbTable) error {
			if o, _ := find(v, name); o != nil {
				if ine {
					return nil
				}
				return &dbError{Code: "42P07", Msg: "relation " + name + " already exists"}
			}
			v[strings.ToLower(name)] = &dbTable{Name: name, Cols: append([]dbCol{}, t.Cols...)}
			return nil
		}))
	case p.kw("DROP", "TABLE"):
		ie := p.kw("IF", "EXISTS")
		name := p.ident()
		p.kw("CASCADE")
		return done(&resultSet{Tag: "DROP TABLE"}, ss.write(func(v map[string]*dbTable) error {
			o, err := find(v, name)
			if err != nil {
				if ie {
					return nil
				}
				return err
			}
			for k, t := range v {
				if t == o {
					delete(v, k)
				}
			}
			return nil
		}))
	case p.kw("BEGIN"), p.kw("START", "TRANSACTION"):
		return &resultSet{Tag: "BEGIN"}, ss.begin(txOptsFrom(p))
	case p.kw("SET", "TRANSACTION"):
		o := txOptsFrom(p)
		if ss.tx == nil {
			return nil, &dbError{Code: "25P01", Msg: "SET TRANSACTION outside a transaction"}
		}
		if o.Isolation != 0 {
			ss.tx.opts.Isolation = o.Isolation
			if o.Isolation >= 4 && ss.tx.view == nil {
				ss.tx.view = cloneTables(ss.srv.tables)
			}
		}
		if o.ReadOnly {
			ss.tx.opts.ReadOnly = true
		}
		if n := len(ss.srv.Begins); n > 0 {
			ss.srv.Begins[n-1] = ss.tx.opts
		}
		return &resultSet{Tag: "SET"}, nil
	case p.kw("COMMIT"):
		return done(&resultSet{Tag: "COMMIT"}, ss.commit())
	case p.kw("ROLLBACK"):
		ss.rollback()
		return &resultSet{Tag: "ROLLBACK"}, nil
	case p.kw("SET"):
		return &resultSet{Tag: "SET"}, nil
	case p.kw("LISTEN"):
		ch := p.ident()
		m := ss.srv.chans[ch]
		if m == nil {
			m = map[int]*Session{}
			ss.srv.chans[ch] = m
		}
		m[ss.id] = ss
		return done(&resultSet{Tag: "LISTEN"}, nil)
	case p.kw("UNLISTEN"):
		if p.pn("*") {
			for ch := range ss.srv.chans {
				delete(ss.srv.chans[ch], ss.id)
			}
		} else {
			delete(ss.srv.chans[p.ident()], ss.id)
		}
		return done(&resultSet{Tag: "UNLISTEN"}, nil)
	}
	return nil, &dbError{Code: "42601", Msg: "syntax error near " + p.peek().v}
}

// keep is what a column of the type holds for a value sent to it.
func (ss *Session) keep(ty string, v val) val {
	switch {
	case v == nil:
	case ss.srv.onStore != nil:
		return ss.srv.onStore(ty, v)
	case ss.wire:
		return coerce(ty, v)
	}
	return v
}

func txOptsFrom(p *parser) driver.TxOptions {
	var o driver.TxOptions
	for p.i < len(p.t) {
		switch {
		case p.kw("READ", "ONLY"):
			o.ReadOnly = true
		case p.kw("READ", "UNCOMMITTED"):
			o.Isolation = 1
		case p.kw("READ", "COMMITTED"):
			o.Isolation = 2
		case p.kw("REPEATABLE", "READ"):
			o.Isolation = 4
		case p.kw("SERIALIZABLE"):
			o.Isolation = 6
		default:
			p.i++
		}
	}
	return o
}

func (ss *Session) sel(p *parser) (*resultSet, error) {
	type item struct {
		col   string
		lit   val
		isLit bool
		count bool
		star  bool
	}
	var items []item
	top := -1
	if p.kw("TOP") {
		if n, ok := p.value().(int64); ok {
			top = int(n)
		}
	}
	for p.err == nil {
		t := p.peek()
		switch {
		case p.pn("*"):
			items = append(items, item{star: true})
		case p.kw("COUNT"):
			p.pn("(")
			p.next()
			p.pn(")")
			items = append(items, item{count: true})
		case t.k == 'i' && !strings.EqualFold(t.v, "NULL") && !strings.EqualFold(t.v, "TRUE") && !strings.EqualFold(t.v, "FALSE"):
			p.next()
			items = append(items, item{col: t.v})
		default:
			items = append(items, item{isLit: true, lit: p.value()})
		}
		if p.kw("AS") {
			p.ident()
		}
		if !p.pn(",") {
			break
		}
	}
	if p.err != nil {
		return nil, p.err
	}
	if !p.kw("FROM") {
		p.end()
		if p.err != nil {
			return nil, p.err
		}
		rs := &resultSet{Tag: "SELECT 1"}
		var row []val
		for _, it := range items {
			if !it.isLit {
				return nil, &dbError{Code: "42703", Msg: "column " + it.col + " does not exist"}
			}
			row = append(row, it.lit)
			rs.Cols = append(rs.Cols, dbCol{"?column?", typeOf(it.lit)})
		}
		rs.Rows = [][]val{row}
		return rs, nil
	}
	name := p.ident()
	if t := p.peek(); t.k == 'i' && !isClause(t.v) {
		p.next() // alias
	}
	tb, err := find(ss.view(), name)
	if err != nil {
		return nil, err
	}
	cs := p.where()
	type ob struct {
		k    int
		desc bool
	}
	var order []ob
	if p.kw("ORDER", "BY") {
		for {
			c := p.ident()
			if i := strings.LastIndexByte(c, '.'); i >= 0 {
				c = c[i+1:]
			}
			k := tb.col(c)
			if k < 0 {
				return nil, &dbError{Code: "42703", Msg: "column " + c + " does not exist"}
			}
			o := ob{k: k}
			if p.kw("DESC") {
				o.desc = true
			} else {
				p.kw("ASC")
			}
			order = append(order, o)
			if !p.pn(",") {
				break
			}
		}
	}
	limit, offset := -1, 0
	for p.err == nil {
		if p.kw("LIMIT") {
			limit = toInt(p.value())
		} else if p.kw("OFFSET") {
			offset = toInt(p.value())
			_ = p.kw("ROWS") || p.kw("ROW")
		} else if p.kw("FETCH") {
			_ = p.kw("NEXT") || p.kw("FIRST")
			limit = toInt(p.value())
			_ = p.kw("ROWS") || p.kw("ROW")
			p.kw("ONLY")
		} else {
			break
		}
	}
	p.end()
	if p.err != nil {
		return nil, p.err
	}
	if top >= 0 {
		limit = top
	}
	var rows [][]val
	for _, r := range tb.Rows {
		ok, err := match(tb, r, cs)
		if err != nil {
			return nil, err
		}
		if ok {
			rows = append(rows, r)
		}
	}
	sort.SliceStable(rows, func(i, j int) bool {
		for _, o := range order {
			a, b := rows[i][o.k], rows[j][o.k]
			if a == nil || b == nil {
				if (a == nil) != (b == nil) {
					return (b == nil) != o.desc
				}
				continue
			}
			d, _ := cmpVal(a, b)
			if d != 0 {
				return (d < 0) != o.desc
			}
		}
		return false
	})
	rs := &resultSet{}
	for _, it := range items {
		switch {
		case it.count:
			rs.Cols = append(rs.Cols, dbCol{"count", "int8"})
			rs.Rows = [][]val{{int64(len(rows))}}
			rs.Tag = "SELECT 1"
			return rs, nil
		case it.star:
			rs.Cols = append(rs.Cols, tb.Cols...)
		case it.isLit:
			rs.Cols = append(rs.Cols, dbCol{"?column?", typeOf(it.lit)})
		default:
			c := it.col
			if i := strings.LastIndexByte(c, '.'); i >= 0 {
				c = c[i+1:]
			}
			k := tb.col(c)
			if k < 0 {
				return nil, &dbError{Code: "42703", Msg: "column " + it.col + " does not exist"}
			}
			rs.Cols = append(rs.Cols, tb.Cols[k])
		}
	}
	if offset > len(rows) {
		offset = len(rows)
	}
	rows = rows[offset:]
	if limit >= 0 && limit < len(rows) {
		rows = rows[:limit]
	}
	for _, r := range rows {
		var o []val
		for _, it := range items {
			switch {
			case it.star:
				o = append(o, r...)
			case it.isLit:
				o = append(o, it.lit)
			default:
				c := it.col
				if i := strings.LastIndexByte(c, '.'); i >= 0 {
					c = c[i+1:]
				}
				o = append(o, r[tb.col(c)])
			}
		}
		rs.Rows = append(rs.Rows, o)
	}
	rs.Tag = fmt.Sprintf("SELECT %d", len(rs.Rows))
	return rs, nil
}

func isClause(s string) bool {
	switch strings.ToUpper(s) {
	case "WHERE", "ORDER", "LIMIT", "OFFSET", "FETCH":
		return true
	}
	return false
}

func toInt(v val) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case float64:
		return int(x)
	case string:
		n, _ := strconv.Atoi(x)
		return n
	case []byte:
		n, _ := strconv.Atoi(string(x))
		return n
	}
	return 0
}

func typeOf(v val) string {
	switch v.(type) {
	case int64:
		return "int8"
	case float64:
		return "float8"
	case bool:
		return "bool"
	case time.Time:
		return "timestamptz"
	case []byte:
		return "bytea"
	}
	return "text"
}

func squash(q string) string { return strings.ToLower(strings.Join(strings.Fields(q), " ")) }

// special answers the server functions the migration engine uses.
func (ss *Session) special(ctx context.Context, q string, args []val) (*resultSet, error, bool) {
	s := ss.srv
	n := strings.TrimSuffix(squash(q), ";")
	one := func(c string, v val) (*resultSet, error, bool) {
		return &resultSet{Cols: []dbCol{{c, typeOf(v)}}, Rows: [][]val{{v}}, Tag: "SELECT 1"}, nil, true
	}
	arg := func(k int) string {
		if k < len(args) {
			switch x := args[k].(type) {
			case []byte:
				return string(x)
			}
			return fmt.Sprint(args[k])
		}
		return ""
	}
	switch {
	case n == "select current_database()", n == "select db_name()":
		return one("current_database", s.DBName)
	case n == "select current_schema()":
		return one("current_schema", "public")
	case n == "select schema_name()":
		return one("schema_name", "dbo")
	case strings.HasPrefix(n, "select pg_advisory_lock("):
		if err := s.lock(ctx, arg(0), ss); err != nil {
			return nil, err, true
		}
		return one("pg_advisory_lock", "")
	case strings.HasPrefix(n, "select pg_advisory_unlock("):
		return one("pg_advisory_unlock", s.unlock(arg(0), ss))
	case strings.Contains(n, "sp_getapplock"):
		if err := s.lock(ctx, arg(0), ss); err != nil {
			return nil, err, true
		}
		return one("", int64(0))
	case strings.Contains(n, "sp_releaseapplock"):
		if !s.unlock(arg(0), ss) {
			return nil, &dbError{Code: "1223", Msg: "cannot release the application lock because it is not currently held"}, true
		}
		return &resultSet{}, nil, true
	case strings.HasPrefix(n, "select count(1) from information_schema.tables where table_schema = $1 and table_name = $2"):
		v := ss.view()
		c := int64(0)
		if v[strings.ToLower(arg(0)+"."+arg(1))] != nil || v[strings.ToLower(arg(1))] != nil {
			c = 1
		}
		return one("count", c)
	case strings.HasPrefix(n, "if not exists (select * from sysobjects where id = object_id(n'"):
		i := strings.Index(q, "CREATE TABLE ")
		if i < 0 {
			return nil, nil, false
		}
		rs, err := ss.exec(ctx, "CREATE TABLE IF NOT EXISTS "+q[i+len("CREATE TABLE "):], nil)
		return rs, err, true
	}
	return nil, nil, false
}

// resetFaults counts events from the beginning again.
func (s *Server) resetFaults() { s.hits = map[string]int{} }

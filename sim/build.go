package main

import (
	"context"
	"database/sql"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"
)

// ------------------------------------------------------------------- C11

// bOp is one call on a statement.
type bOp struct {
	S int    `json:"s"`           // statement slot
	K string `json:"k"`           // which call
	E string `json:"e,omitempty"` // expression; @ is replaced by the run's salt
	N int    `json:"n,omitempty"` // number of arguments, limits, flags
	T int    `json:"t,omitempty"` // other statement slot
}

type c11Case struct {
	Workers [][]bOp `json:"workers"`
	Def     int     `json:"def,omitempty"`  // the default dialect
	Flat    int     `json:"flat,omitempty"` // dialects that do not write new lines (bits)
}

// mStmt is the reference model of a statement: clauses by position.
type mStmt struct {
	dialect string // default postgres sqlserver
	ents    map[int]*mEnt
	pos     int
	dest    []any
	from    string // how it was made
}

type mEnt struct {
	text string
	expr bool
	args []any
}

const (
	pStart = 100 + 100*iota
	pWith
	pInsert
	pFields
	pValues
	pDelete
	pUpdate
	pSet
	pSelect
	pInto
	pFrom
	pWhere
	pGroup
	pHaving
	pUnion
	pOrder
	pLimit
	pOffset
	pReturning
)

func newM(dialect string) *mStmt { return &mStmt{dialect: dialect, ents: map[int]*mEnt{}} }

func (m *mStmt) add(pos int, clause, expr string, args []any, sep string) *mEnt {
	m.pos = pos
	en := m.ents[pos]
	if en == nil {
		en = &mEnt{text: clause, expr: expr != ""}
		if expr != "" {
			if clause != "" {
				en.text += " "
			}
			en.text += expr
		}
		en.args = append(en.args, args...)
		m.ents[pos] = en
		return en
	}
	if expr == "" {
		copy(en.args, args)
		return en
	}
	if en.expr {
		en.text += sep + expr
	} else {
		en.text += " " + expr
	}
	en.expr = true
	en.args = append(en.args, args...)
	return en
}

func (m *mStmt) order() []int {
	var ps []int
	for p := range m.ents {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	return ps
}

func (m *mStmt) args() []any {
	var out []any
	for _, p := range m.order() {
		out = append(out, m.ents[p].args...)
	}
	return out
}

func (m *mStmt) render(dialect string) string {
	var parts []string
	n := 1
	for _, p := range m.order() {
		en := m.ents[p]
		t := en.text
		if len(en.args) > 0 && dialect == "postgres" {
			var sb strings.Builder
			for i := 0; i < len(t); i++ {
				switch {
				case t[i] == '\\' && i+1 < len(t) && t[i+1] == '?':
					sb.WriteByte('?')
					i++
				case t[i] == '?':
					fmt.Fprintf(&sb, "$%d", n)
					n++
				default:
					sb.WriteByte(t[i])
				}
			}
			t = sb.String()
		}
		parts = append(parts, t)
	}
	return norm(strings.Join(parts, " "))
}

func (m *mStmt) clone() *mStmt {
	c := &mStmt{dialect: m.dialect, ents: map[int]*mEnt{}, pos: m.pos, dest: append([]any{}, m.dest...)}
	for p, en := range m.ents {
		c.ents[p] = &mEnt{en.text, en.expr, append([]any{}, en.args...)}
	}
	return c
}

func (m *mStmt) has(pos int) bool { return m.ents[pos] != nil }

func (m *mStmt) last() int {
	o := m.order()
	if len(o) == 0 {
		return 0
	}
	return o[len(o)-1]
}

// norm drops white space that has no meaning.
func norm(s string) string {
	parts := strings.Split(s, "'")
	for i := range parts {
		if i%2 == 1 && i < len(parts)-1 {
			continue // a literal
		}
		lead, trail := "", ""
		if i > 0 && parts[i] != strings.TrimLeft(parts[i], " \t\n\r") {
			lead = " "
		}
		if i < len(parts)-1 && parts[i] != strings.TrimRight(parts[i], " \t\n\r") {
			trail = " "
		}
		parts[i] = normPunct.Replace(lead + strings.Join(strings.Fields(parts[i]), " ") + trail)
	}
	return strings.Join(parts, "'")
}

var normPunct = strings.NewReplacer(" ( ", "(", " (", "(", "( ", "(", " ) ", ")", " )", ")", ") ", ")", " , ", ",", " ,", ",", ", ", ",")

type bindRec struct {
	A int64 `db:"ba"`
	InnerRec
	B int64 `db:"bb,omitempty"`
	C int64
	N sql.NullInt64 `db:"bn"`
}
type InnerRec struct {
	DeepRec
	D int64 `db:"bd"`
}
type DeepRec struct {
	P *int64 `db:"bp"`
}

var bExprs = []string{"a", "b", "c", "x=1", "y", "a, b", `w='\\%'`, "n='two  words'", "m='( a , b )'", "l='a\n\tb '"}

func c11Program(r *R, slot int) []bOp {
	d := r.Intn(6)
	var ops []bOp
	kind := pick(r, "from", "from", "from", "select", "select", "insert", "update", "delete", "new", "with")
	ops = append(ops, bOp{S: slot, K: "start", E: kind, N: d, T: r.Intn(3)})
	ex := func() string { return pick(r, bExprs...) }
	n := r.Range(1, 8)
	if r.P(4) {
		n = r.Range(12, 40) // placeholders with two digits
	}
	for i := 0; i < n; i++ {
		if kind == "insert" && r.P(50) {
			ops = append(ops, bOp{S: slot, K: pick(r, "Set", "NewRow", "NewRow", "RowExpr", "SetExpr"), E: "a", N: r.Range(1, 3)})
			continue
		}
		o := bOp{S: slot, K: pick(r, "Select", "Select", "From", "Where", "Where", "GroupBy", "OrderBy", "Having", "Expr", "Expr", "In", "Join", "Limit", "Offset", "Paginate", "Clause", "Returning", "Set", "SetExpr", "NewRow", "To", "Bind", "NewLines", "SetName", "String", "String", "Exec", "Query", "QueryRow", "Invalidate"), E: ex()}
		switch o.K {
		case "Select", "Where", "From", "Having", "Expr", "Clause", "SetExpr":
			if r.P(45) {
				o.N = r.Range(1, 3)
			}
		case "In":
			o.N = r.Range(0, 3)
		case "Limit", "Offset", "Paginate":
			o.N = r.Range(0, 9)
		case "Join":
			o.N = r.Intn(4)
		case "NewRow":
			o.N = r.Range(1, 3)
		}
		if o.K == "Having" && o.N == 0 && r.P(30) {
			o.E = "d ? k" // an operator, not a placeholder
		}
		if o.K == "Where" && o.N > 0 && r.P(15) {
			o.E = `j \? k`
		}
		ops = append(ops, o)
	}
	return ops
}

func c11Gen(r *R, tier string) c11Case {
	var c c11Case
	if r.P(30) {
		c.Def, c.Flat = r.Intn(3), r.Intn(8)
	}
	for w, nw := 0, pick(r, 1, 1, 2, 2, 3); w < nw; w++ {
		var progs [][]bOp
		for p, np := 0, r.Range(1, 4); p < np; p++ {
			if len(progs) > 0 && r.P(65) {
				// A twin: the same calls, slightly changed.
				src := progs[r.Intn(len(progs))]
				t := append([]bOp{}, src...)
				for i := range t {
					t[i].S = p
				}
				for k := 0; k < pick(r, 0, 1, 1, 1, 2); k++ {
					i := r.Intn(len(t))
					switch r.Intn(5) {
					case 0, 1:
						if i > 0 {
							t[i].K = pick(r, "Select", "Where", "GroupBy", "OrderBy", "Having", "Expr", "From", "Clause", "Returning")
						}
					case 2:
						j := r.Intn(len(t))
						if i > 0 && j > 0 {
							t[i], t[j] = t[j], t[i]
						}
					case 3:
						if t[i].K != "start" {
							t[i].N = r.Intn(3)
						}
					case 4:
						t[0].N = r.Intn(3)
					}
				}
				progs = append(progs, t)
			} else {
				progs = append(progs, c11Program(r, p))
			}
		}
		// Interleave the programs, with copies, nesting and closes.
		var ops []bOp
		idx := make([]int, len(progs))
		for {
			var live []int
			for p := range progs {
				if idx[p] < len(progs[p]) {
					live = append(live, p)
				}
			}
			if len(live) == 0 {
				break
			}
			p := pick(r, live...)
			for k, n := 0, r.Range(1, 4); k < n && idx[p] < len(progs[p]); k++ {
				ops = append(ops, progs[p][idx[p]])
				idx[p]++
			}
			if r.P(12) {
				ops = append(ops, bOp{S: p, K: "same", N: r.Intn(3), T: r.Intn(4)})
			}
			for k := 0; k < 3 && r.P(30); k++ {
				ops = append(ops, bOp{S: p, K: pick(r, "Clone", "Clone", "Close", "SubQuery", "SubQuery", "Union", "Union", "With", "String", "ExecAndClose", "QueryAndClose", "QueryRowAndClose"), T: r.Intn(len(progs) + 1), N: r.Intn(2), E: "q"})
			}
		}
		for p := range progs {
			ops = append(ops, bOp{S: p, K: "String"})
			if r.P(50) {
				ops = append(ops, bOp{S: p, K: pick(r, "Exec", "Query", "Close", "Clone"), T: len(progs) + 1})
			}
		}
		ops = append(ops, bOp{S: len(progs) + 1, K: pick(r, "Expr", "String"), E: "z"}, bOp{S: len(progs) + 1, K: "String"})
		c.Workers = append(c.Workers, ops)
	}
	return c
}

var dialects = []xsql.SQLDialect{xsql.NoDialect, xsql.Postgres, xsql.SQLServer}
var dialectNames = []string{"default", "postgres", "sqlserver"}

// c11Start starts statements: a dialect, or the package with its default dialect.
type c11Start interface {
	From(expr string, args ...any) xsql.Builder
	Select(expr string, args ...any) xsql.Builder
	InsertInto(table string) xsql.Builder
	Update(table string) xsql.Builder
	DeleteFrom(table string) xsql.Builder
	New(verb string, args ...any) xsql.Builder
	With(name string, q xsql.Builder) xsql.Builder
}

type pkgStart struct{}

func (pkgStart) From(x string, a ...any) xsql.Builder       { return xsql.From(x, a...) }
func (pkgStart) Select(x string, a ...any) xsql.Builder     { return xsql.Select(x, a...) }
func (pkgStart) InsertInto(t string) xsql.Builder           { return xsql.InsertInto(t) }
func (pkgStart) Update(t string) xsql.Builder               { return xsql.Update(t) }
func (pkgStart) DeleteFrom(t string) xsql.Builder           { return xsql.DeleteFrom(t) }
func (pkgStart) New(v string, a ...any) xsql.Builder        { return xsql.New(v, a...) }
func (pkgStart) With(n string, q xsql.Builder) xsql.Builder { return xsql.With(n, q) }

type liveStmt struct {
	b     xsql.Builder
	m     *mStmt
	calls []string
	raw   bool // its HAVING uses ? as an operator
	name  string
	fixed bool // it has a name and its text is in the cache
}

func c11Run(e *Env, c c11Case) {
	srv := newServer(e, e.Seed, "postgres")
	srv.jitUS = 0
	type sent struct {
		q    string
		args []val
	}
	last := map[*Session]sent{}
	var got *sent
	cols := 0
	srv.hook = func(s *Session, q string, args []val) (*resultSet, error, bool) {
		got = &sent{q, append([]val{}, args...)}
		last[s] = *got
		rs := &resultSet{}
		row := []val{}
		for i := 0; i < cols; i++ {
			rs.Cols = append(rs.Cols, dbCol{Name: fmt.Sprint("c", i)})
			row = append(row, int64(1000+i))
		}
		rs.Rows = [][]val{row}
		return rs, nil, true
	}
	db := srv.OpenDB(0)
	defer db.Close()
	for i, d := range dialects {
		if c.Flat&(1<<i) != 0 {
			xsql.SetDialect(d)
			xsql.UseNewLines(false)
			defer d.UseNewLines(true)
		}
	}
	xsql.SetDialect(dialects[c.Def%3])
	defer xsql.SetDialect(xsql.NoDialect)
	var wg sync.WaitGroup
	var dbmu sync.Mutex
	argNo := 0
	same := map[[2]int]string{}
	var tabs []*schema.TableInfo
	for _, d := range dialects {
		tabs = append(tabs, &schema.TableInfo{Schema: "t", Name: e.Salt, SchemaName: "t" + e.Salt, PrimaryKey: "c1", Columns: []string{"c1", "c2", "c3"}, Dialect: d})
	}
	for wi, ops := range c.Workers {
		wg.Add(1)
		e.Go("worker", wg.Done, func() {
			slots := map[int]*liveStmt{}
			newArgs := func(n int) []any {
				var out []any
				for i := 0; i < n; i++ {
					argNo++
					out = append(out, int64(argNo))
				}
				return out
			}
			drop := func(s int) {
				if l := slots[s]; l != nil {
					delete(slots, s)
					l.b.Close()
				}
			}
			check := func(l *liveStmt, what string) bool {
				l.fixed = l.fixed || l.name != ""
				if l.b.Name() != l.name {
					e.Failf("name", "worker %d %s: the statement's name is %q, want %q\ncalls: %s", wi, what, l.b.Name(), l.name, strings.Join(l.calls, "."))
					return false
				}
				if got, want := norm(l.b.String()), l.m.render(l.m.dialect); got != want {
					e.Failf("text", "worker %d %s (%s): text is\n  %s\nwant\n  %s\ncalls: %s", wi, what, l.m.dialect, got, want, strings.Join(l.calls, "."))
					return false
				}
				if got, want := fmt.Sprint(l.b.Args()), fmt.Sprint(l.m.args()); got != want {
					e.Failf("args", "worker %d %s (%s): arguments are %s, want %s\ncalls: %s", wi, what, l.m.dialect, got, want, strings.Join(l.calls, "."))
					return false
				}
				if len(l.b.Dest()) != len(l.m.dest) {
					e.Failf("dest", "worker %d %s: %d scan targets, want %d", wi, what, len(l.b.Dest()), len(l.m.dest))
					return false
				}
				for i, d := range l.b.Dest() {
					if d != l.m.dest[i] {
						e.Failf("dest", "worker %d %s: scan target %d is another one", wi, what, i)
						return false
					}
				}
				return true
			}
			for _, o := range ops {
				if e.Failed() {
					return
				}
				l := slots[o.S]
				if o.K == "same" {
					// The same small statement has the same text, to the byte, whenever it is built.
					e.Op()
					b := dialects[o.N%3].From("same"+e.Salt).Select("a, b").Where("c = ?", 1)
					if o.T&1 != 0 {
						b.OrderBy("a").Limit(5)
					}
					if o.T&2 != 0 {
						b = b.Clone()
					}
					k, s := [2]int{o.N % 3, o.T & 1}, strings.Clone(b.String())
					b.Close()
					if first, ok := same[k]; ok && first != s {
						e.Failf("text", "worker %d: a statement (%s) has the text\n  %q\nand had, built by the same calls before,\n  %q", wi, dialectNames[o.N%3], s, first)
						return
					}
					same[k] = s
					e.Probe("same-calls")
					continue
				}
				if o.K != "start" && l == nil {
					continue
				}
				if strings.Contains(o.E, "d ? k") && o.K != "Having" || strings.Contains(o.E, `\?`) && o.N == 0 {
					continue // see the assumption below
				}
				if l != nil && l.fixed {
					switch o.K {
					case "start", "String", "Clone", "Close", "Exec", "Query", "QueryRow", "ExecAndClose", "QueryAndClose", "QueryRowAndClose":
					default:
						continue // a statement with a name is not changed once its text was made
					}
				}
				e.Op()
				ex := strings.ReplaceAll(o.E, "@", e.Salt)
				var args []any
				withArgs := func() { // the expression with its placeholders
					args = newArgs(o.N)
					for i := range args {
						ex += fmt.Sprintf(" p%d = ?", i)
					}
				}
				if l != nil {
					l.calls = append(l.calls, fmt.Sprintf("%s(%s,%d)", o.K, o.E, o.N))
				}
				switch o.K {
				case "start":
					drop(o.S)
					di := o.N % 3
					var d c11Start = dialects[di]
					if o.T == 1 {
						di = c.Def % 3
						d = pkgStart{}
					}
					m := newM(dialectNames[di])
					t := "t" + e.Salt
					var b xsql.Builder
					if tab := tabs[di]; o.T == 2 { // from the description of the table
						e.Probe("table-description")
						switch o.E {
						case "from":
							b = tab.From()
							m.add(pFrom, "FROM", t, nil, ", ")
						case "select":
							m.add(pFrom, "FROM", t, nil, ", ")
							x := "c1, c2 , c3"
							switch (o.N/3 + o.S) % 4 {
							case 0:
								b = tab.Select()
							case 1:
								b, x = tab.Select("c3", "c1"), "c3,c1"
							case 2:
								b, x = tab.SelectAliased("", map[string]bool{"c2": true, "c9": true}), "c1, NULL, c3"
							case 3:
								m.ents[pFrom].text += " q"
								b, x = tab.SelectAliased("q", map[string]bool{"c1": true, "c2": false}), "NULL, q.c2, q.c3"
							}
							m.add(pSelect, "SELECT", x, nil, ", ")
						case "insert":
							b = tab.InsertInto()
							m.add(pInsert, "INSERT INTO", t, nil, ", ")
							m.add(pFields-1, "(", "", nil, "")
							m.add(pValues-1, ") VALUES (", "", nil, "")
							m.add(pValues+1, ")", "", nil, "")
							m.pos = pFields
						case "update":
							b = tab.Update()
							m.add(pUpdate, "UPDATE", t, nil, ", ")
						case "delete":
							b = tab.DeleteFrom()
							m.add(pDelete, "DELETE FROM", t, nil, ", ")
						}
					}
					if b != nil {
						slots[o.S] = &liveStmt{b: b, m: m, calls: []string{"start table " + o.E}}
						continue
					}
					switch o.E {
					case "from":
						b = d.From(t)
						m.add(pFrom, "FROM", t, nil, ", ")
					case "select":
						b = d.Select(t)
						m.add(pSelect, "SELECT", t, nil, ", ")
					case "insert":
						b = d.InsertInto(t)
						m.add(pInsert, "INSERT INTO", t, nil, ", ")
						m.add(pFields-1, "(", "", nil, "")
						m.add(pValues-1, ") VALUES (", "", nil, "")
						m.add(pValues+1, ")", "", nil, "")
						m.pos = pFields
					case "update":
						b = d.Update(t)
						m.add(pUpdate, "UPDATE", t, nil, ", ")
					case "delete":
						b = d.DeleteFrom(t)
						m.add(pDelete, "DELETE FROM", t, nil, ", ")
					case "new":
						var a []any
						x := "TRUNCATE " + t
						if o.N > 2 {
							a = newArgs(1)
							x += " = ?"
						}
						b = d.New(x, a...)
						m.add(pSelect, x, "", a, ", ")
					default:
						in := d.Select("1"+e.Salt).Where("w=?", int64(-1))
						b = d.With(t, in)
						m.add(pWith, "WITH", "", nil, "")
						m.add(pWith, "", t+" AS ( SELECT 1"+e.Salt+" WHERE w=?)", []any{int64(-1)}, ", ")
					}
					slots[o.S] = &liveStmt{b: b, m: m, calls: []string{"start " + o.E}}
				case "Select":
					withArgs()
					l.b.Select(ex, args...)
					l.m.add(pSelect, "SELECT", ex, args, ", ")
				case "From":
					withArgs()
					l.b.From(ex, args...)
					l.m.add(pFrom, "FROM", ex, args, ", ")
				case "Where":
					withArgs()
					l.b.Where(ex, args...)
					l.m.add(pWhere, "WHERE", ex, args, " AND ")
				case "Having":
					if strings.Contains(ex, "d ? k") {
						if o.N > 0 { // the same text, but now a placeholder
							if l.m.has(pHaving) {
								continue
							}
							args = newArgs(1)
							l.b.Having(ex, args...)
							l.m.add(pHaving, "HAVING", ex, args, " AND ")
							continue
						}
						if l.m.has(pHaving) && len(l.m.ents[pHaving].args) > 0 {
							continue
						}
						l.raw = true
					} else if l.raw {
						continue
					} else {
						withArgs()
					}
					l.b.Having(ex, args...)
					l.m.add(pHaving, "HAVING", ex, args, " AND ")
				case "Expr":
					if l.m.pos == 0 || l.m.pos == pHaving || l.m.pos == pLimit || l.m.pos == pOffset || strings.Contains(ex, "?") {
						continue
					}
					withArgs()
					l.b.Expr(ex, args...)
					l.m.add(l.m.pos, "", ex, args, ", ")
				case "In":
					if !l.m.has(pWhere) {
						continue
					}
					args = newArgs(o.N)
					l.b.In(args...)
					l.m.add(pWhere, "", "IN ("+strings.TrimSuffix(strings.Repeat("?,", o.N), ",")+")", args, " ")
				case "Join":
					if !l.m.has(pFrom) {
						continue
					}
					switch o.N % 4 {
					case 0:
						l.b.Join("j", ex)
					case 1:
						l.b.LeftJoin("j", ex)
					case 2:
						l.b.RightJoin("j", ex)
					case 3:
						l.b.FullJoin("j", ex)
					}
					l.m.add(pFrom, "", []string{"JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"}[o.N%4]+" j ON ("+ex+")", nil, " ")
				case "GroupBy":
					if strings.Contains(ex, "?") {
						continue
					}
					l.b.GroupBy(ex)
					l.m.add(pGroup, "GROUP BY", ex, nil, ", ")
				case "OrderBy":
					if strings.Contains(ex, "?") {
						continue
					}
					if o.N%2 == 0 {
						l.b.OrderBy(ex)
					} else {
						l.b.OrderBy(ex, "o2")
						ex += ", o2"
					}
					l.m.add(pOrder, "ORDER BY", ex, nil, ", ")
				case "Limit":
					l.b.Limit(int64(o.N))
					l.m.add(pLimit, "LIMIT ?", "", []any{int64(o.N)}, "")
				case "Offset":
					l.b.Offset(int64(o.N))
					l.m.add(pOffset, "OFFSET ?", "", []any{int64(o.N)}, "")
				case "Paginate":
					page, size := o.N%4, o.N%3
					if o.N >= 8 {
						page, size = 3_000_000_000+o.N, o.N
					}
					l.b.Paginate(page, size)
					page, size = max(page, 1), max(size, 1)
					if page > 1 {
						l.m.add(pOffset, "OFFSET ?", "", []any{(page - 1) * size}, "")
					}
					l.m.add(pLimit, "LIMIT ?", "", []any{size}, "")
				case "Clause":
					withArgs()
					p := pStart
					if last := l.m.last(); last > 0 {
						p = last + 10
					}
					if strings.Contains(o.E, "?") {
						continue
					}
					l.b.Clause(ex, args...)
					l.m.add(p, ex, "", args, ", ")
				case "Returning":
					if strings.Contains(ex, "?") {
						continue
					}
					l.b.Returning(ex)
					l.m.add(pReturning, "RETURNING", ex, nil, ", ")
				case "Set", "SetExpr":
					if strings.Contains(ex, "?") {
						continue
					}
					v := "?"
					if o.K == "SetExpr" {
						v = "? + ?"
						args = newArgs(2)
						l.b.SetExpr("f", v, args...)
					} else {
						args = newArgs(1)
						l.b.Set("f", args[0])
					}
					ins, upd := l.m.has(pInsert), l.m.has(pUpdate)
					switch {
					case ins:
						l.m.add(pFields, "", "f", nil, ", ")
						l.m.add(pValues, "", v, args, ", ")
					case upd:
						l.m.add(pSet, "SET", "f="+v, args, ", ")
					}
				case "NewRow", "RowExpr":
					if !l.m.has(pInsert) {
						continue
					}
					row := l.b.NewRow()
					first := !l.m.has(pValues)
					if !first {
						l.m.add(pValues, "", " ", nil, " ), (")
					}
					for i := 0; i < o.N; i++ {
						x := "?"
						a := newArgs(1)
						if o.K == "RowExpr" && i%2 == 1 {
							a = append(a, newArgs(1)...)
							x = "? + ?"
							row = row.SetExpr(fmt.Sprint("g", i), x, a...)
						} else {
							row = row.Set(fmt.Sprint("g", i), a[0])
						}
						if first {
							l.m.add(pFields, "", fmt.Sprint("g", i), nil, ", ")
							l.m.add(pValues, "", x, a, ", ")
						} else {
							sep := ", "
							if i == 0 {
								sep = ""
							}
							l.m.add(pValues, "", x, a, sep)
						}
					}
				case "To":
					d := []any{new(int64), new(int64)}[:1+o.N%2]
					l.b.To(d...)
					l.m.dest = append(l.m.dest, d...)
				case "Bind":
					rec := new(bindRec)
					l.b.Bind(rec)
					for _, f := range []struct {
						n string
						p any
					}{{"ba", &rec.A}, {"bp", &rec.P}, {"bd", &rec.D}, {"bb", &rec.B}, {"bn", &rec.N}} {
						l.m.add(pSelect, "SELECT", f.n, nil, ", ")
						l.m.dest = append(l.m.dest, f.p)
					}
				case "SetName":
					argNo++
					l.name = fmt.Sprintf("stmt%s_%d", e.Salt, argNo)
					l.b.SetName(l.name)
					e.Probe("named")
				case "NewLines":
					l.b.UseNewLines(o.N%2 == 0)
				case "String":
					check(l, "String")
				case "Clone":
					if o.T == o.S {
						continue
					}
					n := &liveStmt{b: l.b.Clone(), m: l.m.clone(), raw: l.raw, calls: append(append([]string{}, l.calls...), "Clone")}
					drop(o.T)
					slots[o.T] = n
					e.Probe("clone")
				case "Close":
					drop(o.S)
				case "SubQuery", "With", "Union":
					in := slots[o.T]
					if in == nil || in == l || in.raw || l.raw || in.m.last() == 0 {
						continue
					}
					if o.K == "SubQuery" && (l.m.pos == pHaving || l.m.pos == pLimit || l.m.pos == pOffset || l.m.pos == 0) {
						continue
					}
					it, ia := in.m.render("default"), in.m.args()
					delete(slots, o.T)
					switch o.K {
					case "SubQuery":
						l.b.SubQuery("s IN (", ")", in.b)
						sep := ", "
						if l.m.pos == pWhere {
							sep = " AND "
						}
						l.m.add(l.m.pos, "", "s IN ( "+it+")", ia, sep)
					case "With":
						l.b.With(ex, in.b)
						l.m.add(pWith, "WITH", "", nil, "")
						l.m.add(pWith, "", ex+" AS ( "+it+")", ia, ", ")
					case "Union":
						l.b.Union(o.N == 1, in.b)
						p := pUnion
						if last := l.m.last(); last >= p {
							p = last + 1
						}
						cl := "UNION "
						if o.N == 1 {
							cl = "UNION ALL "
						}
						l.m.add(p, cl+it, "", ia, "")
					}
					e.Probe("nested")
				case "Invalidate":
					l.b.Invalidate()
				case "Exec", "Query", "ExecAndClose", "QueryAndClose", "QueryRow", "QueryRowAndClose":
					if strings.HasPrefix(o.K, "QueryRow") && len(l.m.dest) == 0 {
						continue
					}
					l.fixed = l.fixed || l.name != ""
					want, wargs := l.m.render(l.m.dialect), fmt.Sprint(l.m.args())
					dbmu.Lock()
					got = nil
					cols = max(1, len(l.m.dest))
					var err error
					ctx := context.Background()
					switch o.K {
					case "Exec":
						_, err = l.b.Exec(ctx, db)
					case "ExecAndClose":
						delete(slots, o.S)
						_, err = l.b.ExecAndClose(ctx, db)
					case "Query":
						err = l.b.Query(ctx, db, func(*sql.Rows) {})
					case "QueryRow":
						err = l.b.QueryRow(ctx, db)
					case "QueryRowAndClose":
						delete(slots, o.S)
						err = l.b.QueryRowAndClose(ctx, db)
					case "QueryAndClose":
						delete(slots, o.S)
						err = l.b.QueryAndClose(ctx, db, func(*sql.Rows) {})
					}
					g := got
					dbmu.Unlock()
					if err != nil || g == nil {
						e.Failf("exec", "worker %d %s of %q: %v", wi, o.K, want, err)
						return
					}
					if norm(g.q) != want {
						e.Failf("text", "worker %d: %s sent\n  %s\nwant\n  %s\ncalls: %s", wi, o.K, norm(g.q), want, strings.Join(l.calls, "."))
						return
					}
					if a := fmt.Sprint(g.args); a != fmt.Sprint(wargs) && !(len(g.args) == 0 && wargs == "[]") {
						e.Failf("args", "worker %d: %s sent %s, want %s", wi, o.K, a, wargs)
						return
					}
					if strings.HasPrefix(o.K, "Query") {
						for i, d := range l.m.dest {
							v := int64(-1)
							switch d := d.(type) {
							case *int64:
								v = *d
							case **int64:
								if *d != nil {
									v = **d
								}
							case *sql.NullInt64:
								v = d.Int64
							}
							if v != int64(1000+i) {
								e.Failf("dest", "worker %d: %s left %d in scan target %d", wi, o.K, v, i)
								return
							}
						}
					}
				}
			}
			for _, s := range []int{0, 1, 2, 3, 4, 5} {
				if l := slots[s]; l != nil && l.m.last() > 0 {
					if !check(l, "final String") {
						return
					}
				}
				drop(s)
			}
		})
	}
	wg.Wait()
}

func init() {
	reg(&Prop{ID: "C11", Title: "builder", Runs: 60000, Real: []string{"xsql (builder, pool, cache, dialects, executor)", "valyala/bytebufferpool", "database/sql"}, Stub: []string{"database server and driver (answers any statement)", "goroutine scheduler"},
		Rule:   "1-3 concurrent workers each assemble 1-4 interleaved statements in three dialects, many of them twins of one another (the same calls with one changed or swapped), with copies, nesting, execution, release and reuse; every text, argument list and scan target list is compared with a small reference model of the builder.",
		Assume: []string{"texts are compared up to white space", "a question mark without an argument is only used in a clause that has no arguments"}}, c11Gen, c11Run)
}

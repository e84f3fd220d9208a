package main

import (
	"fmt"
	"sort"
	"strings"
)

// This file evaluates catalog queries (select, join, where, group by, order
// by, a few functions) over relations, so that a listing is judged by what its
// SQL means and not by how it is written. Rows whose order the query leaves
// open come back in a seed-dependent order.

type relation struct {
	cols []string
	rows [][]val
}

type ex struct {
	op    string // lit col param call = <> < <= > >= and or not in isnull exists sub any + - || case star cast
	name  string // col: column; call: function; param: name
	alias string // col: qualifier
	v     val
	args  []*ex
	order []ordItem
	sub   *selStmt
	neg   bool
}

type ordItem struct {
	e    *ex
	desc bool
}

type selItem struct {
	e     *ex
	alias string
}

type selSrc struct {
	kind  string // comma, inner, left, cross, apply
	rel   string
	sub   *selStmt
	alias string
	names []string
	on    *ex
	fn    *ex // unnest(...)
}

type selStmt struct {
	distinct bool
	items    []selItem
	from     []selSrc
	where    *ex
	group    []*ex
	order    []ordItem
	xml      bool
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported catalog SQL: " + u.msg }

type catParser struct {
	t []tok
	i int
}

func (p *catParser) bad(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }
func (p *catParser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{}
}
func (p *catParser) isKw(ws ...string) bool {
	for k, w := range ws {
		if p.i+k >= len(p.t) || p.t[p.i+k].k != 'i' || !strings.EqualFold(p.t[p.i+k].v, w) {
			return false
		}
	}
	return true
}
func (p *catParser) kw(ws ...string) bool {
	if p.isKw(ws...) {
		p.i += len(ws)
		return true
	}
	return false
}
func (p *catParser) pn(v string) bool {
	if t := p.peek(); t.k == 'p' && t.v == v {
		p.i++
		return true
	}
	return false
}
func (p *catParser) need(v string) {
	if !p.pn(v) {
		p.bad("%q expected near %q", v, p.peek().v)
	}
}

var catReserved = map[string]bool{"from": true, "where": true, "group": true, "order": true, "inner": true, "left": true, "right": true, "full": true, "join": true, "on": true,
	"cross": true, "outer": true, "and": true, "or": true, "not": true, "in": true, "is": true, "as": true, "for": true, "union": true, "having": true, "limit": true, "asc": true, "desc": true, "select": true, "then": true, "else": true, "end": true, "when": true, "like": true, "exists": true, "between": true}

func (p *catParser) name() string {
	t := p.peek()
	if t.k != 'i' || catReserved[strings.ToLower(t.v)] {
		p.bad("name expected near %q", t.v)
	}
	p.i++
	return t.v
}

func (p *catParser) aliasOpt() string {
	if p.kw("as") {
		return p.name()
	}
	if t := p.peek(); t.k == 'i' && !catReserved[strings.ToLower(t.v)] {
		p.i++
		return t.v
	}
	return ""
}

func (p *catParser) sel() *selStmt {
	if !p.kw("select") {
		p.bad("select expected near %q", p.peek().v)
	}
	s := &selStmt{}
	s.distinct = p.kw("distinct")
	for {
		if p.pn("*") {
			s.items = append(s.items, selItem{e: &ex{op: "star"}})
		} else {
			e := p.expr()
			s.items = append(s.items, selItem{e, p.aliasOpt()})
		}
		if !p.pn(",") {
			break
		}
	}
	if p.kw("from") {
		s.from = append(s.from, p.src("comma"))
	loop:
		for {
			switch {
			case p.pn(","):
				s.from = append(s.from, p.src("comma"))
			case p.kw("inner", "join"), p.kw("join"):
				x := p.src("inner")
				if !p.kw("on") {
					p.bad("on expected")
				}
				x.on = p.expr()
				s.from = append(s.from, x)
			case p.kw("left", "join"), p.kw("left", "outer", "join"):
				x := p.src("left")
				if !p.kw("on") {
					p.bad("on expected")
				}
				x.on = p.expr()
				s.from = append(s.from, x)
			case p.kw("cross", "join"):
				x := p.src("comma")
				if x.fn != nil {
					x.kind = "apply"
				}
				s.from = append(s.from, x)
			case p.kw("cross", "apply"):
				s.from = append(s.from, p.src("apply"))
			default:
				break loop
			}
		}
	}
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("group", "by") {
		for {
			s.group = append(s.group, p.expr())
			if !p.pn(",") {
				break
			}
		}
	}
	if p.kw("order", "by") {
		s.order = p.orders()
	}
	if p.kw("for", "xml", "path") {
		p.need("(")
		if p.peek().k != 's' {
			p.bad("for xml path")
		}
		p.i++
		p.need(")")
		s.xml = true
	}
	return s
}

func (p *catParser) orders() []ordItem {
	var out []ordItem
	for {
		o := ordItem{e: p.expr()}
		if p.kw("desc") {
			o.desc = true
		} else {
			p.kw("asc")
		}
		out = append(out, o)
		if !p.pn(",") {
			return out
		}
	}
}

func (p *catParser) src(kind string) selSrc {
	x := selSrc{kind: kind}
	p.kw("lateral")
	if p.pn("(") {
		x.sub = p.sel()
		p.need(")")
	} else {
		x.rel = p.name()
		if p.pn("(") {
			x.fn = &ex{op: "call", name: strings.ToLower(x.rel)}
			if x.fn.name != "unnest" {
				p.bad("function %s in from", x.rel)
			}
			for {
				x.fn.args = append(x.fn.args, p.expr())
				if !p.pn(",") {
					break
				}
			}
			p.need(")")
			if kind == "comma" || kind == "inner" {
				x.kind = "apply"
			}
		}
	}
	x.alias = p.aliasOpt()
	if x.alias == "" {
		x.alias = x.rel
		if i := strings.LastIndexByte(x.rel, '.'); i >= 0 {
			x.alias = x.rel[i+1:]
		}
	}
	if (x.sub != nil || x.fn != nil) && p.pn("(") {
		for {
			x.names = append(x.names, p.name())
			if !p.pn(",") {
				break
			}
		}
		p.need(")")
	}
	return x
}

func (p *catParser) expr() *ex {
	l := p.conj()
	for p.kw("or") {
		l = &ex{op: "or", args: []*ex{l, p.conj()}}
	}
	return l
}

func (p *catParser) conj() *ex {
	l := p.neg()
	for p.kw("and") {
		l = &ex{op: "and", args: []*ex{l, p.neg()}}
	}
	return l
}

func (p *catParser) neg() *ex {
	if p.kw("not") {
		return &ex{op: "not", args: []*ex{p.neg()}}
	}
	return p.cmp()
}

func (p *catParser) cmp() *ex {
	l := p.sum()
	for {
		neg := false
		if p.isKw("not", "in") || p.isKw("not", "like") || p.isKw("not", "between") {
			p.i++
			neg = true
		}
		switch {
		case p.kw("in"):
			p.need("(")
			x := &ex{op: "in", args: []*ex{l}, neg: neg}
			if p.isKw("select") {
				x.sub = p.sel()
			} else {
				for {
					x.args = append(x.args, p.expr())
					if !p.pn(",") {
						break
					}
				}
			}
			p.need(")")
			l = x
			continue
		case p.kw("like"):
			l = &ex{op: "like", args: []*ex{l, p.sum()}, neg: neg}
			continue
		case p.kw("is", "not", "null"):
			l = &ex{op: "isnull", args: []*ex{l}, neg: true}
			continue
		case p.kw("is", "null"):
			l = &ex{op: "isnull", args: []*ex{l}}
			continue
		}
		op := ""
		for _, o := range []string{"<>", "!=", "<=", ">=", "=", "<", ">"} {
			if p.pn(o) {
				op = o
				break
			}
		}
		if op == "" {
			return l
		}
		if op == "!=" {
			op = "<>"
		}
		if p.isKw("any") || p.isKw("all") {
			if op != "=" || !p.kw("any") {
				p.bad("any/all")
			}
			p.need("(")
			l = &ex{op: "any", args: []*ex{l, p.expr()}}
			p.need(")")
			continue
		}
		l = &ex{op: op, args: []*ex{l, p.sum()}}
	}
}

func (p *catParser) sum() *ex {
	l := p.post()
	for {
		switch {
		case p.pn("||"):
			l = &ex{op: "||", args: []*ex{l, p.post()}}
		case p.pn("+"):
			l = &ex{op: "+", args: []*ex{l, p.post()}}
		case p.pn("-"):
			l = &ex{op: "-", args: []*ex{l, p.post()}}
		default:
			return l
		}
	}
}

func (p *catParser) post() *ex {
	e := p.prim()
	for p.pn("::") {
		ty := p.name()
		if p.pn("[") { // int2[] was lexed apart
			p.need("]")
		}
		e = &ex{op: "cast", name: strings.ToLower(ty), args: []*ex{e}}
	}
	return e
}

func (p *catParser) prim() *ex {
	t := p.peek()
	switch {
	case p.pn("("):
		if p.isKw("select") {
			s := p.sel()
			p.need(")")
			return &ex{op: "sub", sub: s}
		}
		e := p.expr()
		p.need(")")
		return e
	case t.k == 's':
		p.i++
		return &ex{op: "lit", v: t.v}
	case t.k == 'n':
		p.i++
		var n int64
		fmt.Sscan(t.v, &n)
		return &ex{op: "lit", v: n}
	case t.k == 'a':
		p.i++
		return &ex{op: "param", name: t.v}
	case p.pn("-"):
		return &ex{op: "-", args: []*ex{{op: "lit", v: int64(0)}, p.prim()}}
	case t.k == 'i':
		if p.kw("null") {
			return &ex{op: "lit"}
		}
		if p.kw("true") {
			return &ex{op: "lit", v: true}
		}
		if p.kw("false") {
			return &ex{op: "lit", v: false}
		}
		if p.kw("exists") {
			p.need("(")
			s := p.sel()
			p.need(")")
			return &ex{op: "exists", sub: s}
		}
		if p.kw("case") {
			c := &ex{op: "case"}
			for p.kw("when") {
				c.args = append(c.args, p.expr())
				if !p.kw("then") {
					p.bad("then expected")
				}
				c.args = append(c.args, p.expr())
			}
			if p.kw("else") {
				c.args = append(c.args, p.expr())
			}
			if !p.kw("end") {
				p.bad("end expected")
			}
			return c
		}
		if p.kw("cast") {
			p.need("(")
			e := p.expr()
			if !p.kw("as") {
				p.bad("as expected")
			}
			ty := p.name()
			if p.pn("(") {
				p.i++
				p.need(")")
			}
			p.need(")")
			return &ex{op: "cast", name: strings.ToLower(ty), args: []*ex{e}}
		}
		n := p.name()
		if p.pn("(") {
			c := &ex{op: "call", name: strings.ToLower(n)}
			if i := strings.LastIndexByte(c.name, '.'); i >= 0 {
				c.name = c.name[i+1:]
			}
			if p.kw("distinct") {
				c.neg = true // distinct aggregate
			}
			if !p.pn(")") {
				for {
					if p.pn("*") {
						c.args = append(c.args, &ex{op: "star"})
					} else {
						c.args = append(c.args, p.expr())
					}
					if !p.pn(",") {
						break
					}
				}
				if p.kw("order", "by") {
					c.order = p.orders()
				}
				p.need(")")
			}
			if p.kw("within", "group") {
				p.need("(")
				if !p.kw("order", "by") {
					p.bad("order by expected")
				}
				c.order = p.orders()
				p.need(")")
			}
			return c
		}
		e := &ex{op: "col", name: n}
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			e.alias, e.name = n[:i], n[i+1:]
		}
		return e
	}
	p.bad("unexpected %q", t.v)
	return nil
}

// ---------------------------------------------------------------- evaluation

type bound struct {
	alias string
	rel   *relation
	row   []val
}

type scope struct {
	up  *scope
	b   []bound
	q   *catQuery
	grp [][]bound // rows of the group, when aggregating
}

type catQuery struct {
	c    *catalog
	ci   bool // names and strings compare without case
	r    *R
	args []val
	rels map[string]*relation
}

func (q *catQuery) fail(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (s *scope) find(e *ex) (val, bool) {
	n := 0
	var out val
	for i := range s.b {
		b := &s.b[i]
		if e.alias != "" && !strings.EqualFold(e.alias, b.alias) {
			continue
		}
		for k, c := range b.rel.cols {
			if strings.EqualFold(c, e.name) {
				n++
				if b.row != nil {
					out = b.row[k]
				}
				break
			}
		}
	}
	if n > 1 {
		panic(&dbError{Code: "42702", Msg: "column reference " + e.name + " is ambiguous"})
	}
	if n == 1 {
		return out, true
	}
	if s.up != nil {
		return s.up.find(e)
	}
	return nil, false
}

// refs collects the source aliases an expression needs; ok is false when that
// cannot be told.
func refs(e *ex, srcs []selSrc, rels []*relation, out map[int]bool) bool {
	if e == nil {
		return true
	}
	if e.sub != nil {
		return false
	}
	if e.op == "col" {
		hit := false
		for i := range srcs {
			if e.alias != "" {
				if strings.EqualFold(e.alias, srcs[i].alias) {
					out[i], hit = true, true
				}
				continue
			}
			if rels[i] == nil {
				return false
			}
			for _, c := range rels[i].cols {
				if strings.EqualFold(c, e.name) {
					out[i], hit = true, true
				}
			}
		}
		_ = hit // otherwise it belongs to an outer query
		return true
	}
	for _, a := range e.args {
		if !refs(a, srcs, rels, out) {
			return false
		}
	}
	return true
}

func conjuncts(e *ex, out []*ex) []*ex {
	if e == nil {
		return out
	}
	if e.op == "and" {
		return conjuncts(e.args[1], conjuncts(e.args[0], out))
	}
	return append(out, e)
}

func truthy(v val) bool {
	switch x := v.(type) {
	case bool:
		return x
	case nil:
		return false
	case int64:
		return x != 0
	}
	return false
}

func (q *catQuery) eq(a, b val) val {
	c, ok := q.cmp(a, b)
	if !ok {
		return nil
	}
	return c == 0
}

func (q *catQuery) cmp(a, b val) (int, bool) {
	if a == nil || b == nil {
		return 0, false
	}
	toN := func(v val) (int64, bool) {
		switch x := v.(type) {
		case int64:
			return x, true
		case bool:
			if x {
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
	if x, ok := toN(a); ok {
		if y, ok := toN(b); ok {
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			}
			return 0, true
		}
	}
	x, y := fmt.Sprint(a), fmt.Sprint(b)
	if q.ci {
		x, y = strings.ToLower(x), strings.ToLower(y)
	}
	return strings.Compare(x, y), true
}

func (q *catQuery) eval(e *ex, s *scope) val {
	switch e.op {
	case "lit":
		return e.v
	case "param":
		for k, a := range q.args {
			if nv, ok := a.(namedVal); ok {
				if strings.TrimLeft(nv.Name, "$@p") == e.name {
					return normVal(nv.V)
				}
			} else if fmt.Sprint(k+1) == e.name {
				return normVal(a)
			}
		}
		panic(&dbError{Code: "42P02", Msg: "there is no parameter " + e.name})
	case "col":
		if v, ok := s.find(e); ok {
			return v
		}
		panic(&dbError{Code: "42703", Msg: "column " + e.name + " does not exist"})
	case "and":
		a, b := q.eval(e.args[0], s), q.eval(e.args[1], s)
		if a != nil && !truthy(a) || b != nil && !truthy(b) {
			return false
		}
		if a == nil || b == nil {
			return nil
		}
		return true
	case "or":
		a, b := q.eval(e.args[0], s), q.eval(e.args[1], s)
		if truthy(a) || truthy(b) {
			return true
		}
		if a == nil || b == nil {
			return nil
		}
		return false
	case "not":
		a := q.eval(e.args[0], s)
		if a == nil {
			return nil
		}
		return !truthy(a)
	case "=", "<>", "<", "<=", ">", ">=":
		c, ok := q.cmp(q.eval(e.args[0], s), q.eval(e.args[1], s))
		if !ok {
			return nil
		}
		switch e.op {
		case "=":
			return c == 0
		case "<>":
			return c != 0
		case "<":
			return c < 0
		case "<=":
			return c <= 0
		case ">":
			return c > 0
		}
		return c >= 0
	case "isnull":
		return (q.eval(e.args[0], s) == nil) != e.neg
	case "in", "any":
		x := q.eval(e.args[0], s)
		var list []val
		switch {
		case e.sub != nil:
			_, rows := q.run(e.sub, s)
			for _, r := range rows {
				list = append(list, r[0])
			}
		case e.op == "any":
			l, ok := q.eval(e.args[1], s).(catList)
			if !ok {
				q.fail("any of something else than a list")
			}
			list = l
		default:
			for _, a := range e.args[1:] {
				list = append(list, q.eval(a, s))
			}
		}
		if x == nil {
			return nil
		}
		null := false
		for _, y := range list {
			if y == nil {
				null = true
			} else if truthy(q.eq(x, y)) {
				return !e.neg
			}
		}
		if null {
			return nil
		}
		return e.neg
	case "like":
		a, b := q.eval(e.args[0], s), q.eval(e.args[1], s)
		if a == nil || b == nil {
			return nil
		}
		x, y := fmt.Sprint(a), fmt.Sprint(b)
		if q.ci {
			x, y = strings.ToLower(x), strings.ToLower(y)
		}
		return likeMatch(x, y) != e.neg
	case "exists":
		_, rows := q.run(e.sub, s)
		return len(rows) > 0
	case "sub":
		_, rows := q.run(e.sub, s)
		if len(rows) == 0 {
			return nil
		}
		if len(rows) > 1 {
			panic(&dbError{Code: "21000", Msg: "more than one row returned by a subquery used as an expression"})
		}
		return rows[0][0]
	case "+", "||", "-":
		a, b := q.eval(e.args[0], s), q.eval(e.args[1], s)
		if a == nil || b == nil {
			return nil
		}
		x, okx := a.(int64)
		y, oky := b.(int64)
		if okx && oky && e.op != "||" {
			if e.op == "-" {
				return x - y
			}
			return x + y
		}
		return fmt.Sprint(a) + fmt.Sprint(b)
	case "case":
		i := 0
		for ; i+1 < len(e.args); i += 2 {
			if truthy(q.eval(e.args[i], s)) {
				return q.eval(e.args[i+1], s)
			}
		}
		if i < len(e.args) {
			return q.eval(e.args[i], s)
		}
		return nil
	case "cast":
		v := q.eval(e.args[0], s)
		if v == nil {
			return nil
		}
		switch e.name {
		case "text", "varchar", "name", "nvarchar", "char", "regclass", "sysname":
			if e.name == "regclass" {
				q.fail("regclass")
			}
			return fmt.Sprint(v)
		case "bit", "bool", "boolean":
			return truthy(v)
		case "int", "bigint", "int4", "int8", "integer", "oid":
			if b, ok := v.(bool); ok {
				if b {
					return int64(1)
				}
				return int64(0)
			}
		}
		return v
	case "call":
		return q.call(e, s)
	}
	q.fail("expression %s", e.op)
	return nil
}

func likeMatch(s, pat string) bool {
	if pat == "" {
		return s == ""
	}
	switch pat[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if likeMatch(s[i:], pat[1:]) {
				return true
			}
		}
		return false
	case '_':
		return s != "" && likeMatch(s[1:], pat[1:])
	}
	return s != "" && s[0] == pat[0] && likeMatch(s[1:], pat[1:])
}

type catList []val

// namedVal is an argument passed by name.
type namedVal struct {
	Name string
	V    val
}

func normVal(v val) val {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case int:
		return int64(x)
	}
	return v
}

var catAggregates = map[string]bool{"array_agg": true, "string_agg": true, "count": true, "min": true, "max": true, "bool_or": true, "bool_and": true}

func hasAgg(e *ex) bool {
	if e == nil {
		return false
	}
	if e.op == "call" && catAggregates[e.name] {
		return true
	}
	for _, a := range e.args {
		if hasAgg(a) {
			return true
		}
	}
	return false
}

func (q *catQuery) call(e *ex, s *scope) val {
	if catAggregates[e.name] {
		if s.grp == nil {
			q.fail("aggregate %s outside a group", e.name)
		}
		type kv struct {
			v  val
			ks []val
		}
		var list []kv
		seen := map[string]bool{}
		for _, b := range s.grp {
			in := &scope{up: s.up, b: b, q: q}
			if e.args[0].op == "star" {
				list = append(list, kv{v: int64(1)})
				continue
			}
			v := q.eval(e.args[0], in)
			if e.neg {
				k := fmt.Sprint(v)
				if seen[k] {
					continue
				}
				seen[k] = true
			}
			x := kv{v: v}
			for _, o := range e.order {
				x.ks = append(x.ks, q.eval(o.e, in))
			}
			list = append(list, x)
		}
		// Without an order the engine may aggregate in any order.
		q.shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		sort.SliceStable(list, func(i, j int) bool {
			for k, o := range e.order {
				if c := q.sortCmp(list[i].ks[k], list[j].ks[k]); c != 0 {
					return (c < 0) != o.desc
				}
			}
			return false
		})
		switch e.name {
		case "count":
			n := int64(0)
			for _, x := range list {
				if x.v != nil {
					n++
				}
			}
			return n
		case "array_agg":
			var l catList
			for _, x := range list {
				l = append(l, x.v)
			}
			if l == nil {
				return nil
			}
			return l
		case "string_agg":
			var l []string
			for _, x := range list {
				if x.v != nil {
					l = append(l, fmt.Sprint(x.v))
				}
			}
			return strings.Join(l, fmt.Sprint(q.eval(e.args[1], s)))
		case "bool_or", "bool_and":
			r := e.name == "bool_and"
			for _, x := range list {
				if e.name == "bool_or" {
					r = r || truthy(x.v)
				} else {
					r = r && truthy(x.v)
				}
			}
			return r
		}
		var best val
		for _, x := range list {
			if x.v == nil {
				continue
			}
			if c, _ := q.cmp(x.v, best); best == nil || (e.name == "min") == (c < 0) && c != 0 {
				best = x.v
			}
		}
		return best
	}
	a := make([]val, len(e.args))
	for i, x := range e.args {
		a[i] = q.eval(x, s)
	}
	str := func(i int) string { return fmt.Sprint(a[i]) }
	num := func(i int) int {
		n, _ := a[i].(int64)
		return int(n)
	}
	switch e.name {
	case "schema_name":
		if len(a) == 0 {
			return "dbo"
		}
		return q.c.schemaName(a[0])
	case "schema_id":
		if len(a) == 0 {
			return q.c.schemaID("dbo")
		}
		if a[0] == nil {
			return nil
		}
		return q.c.schemaID(str(0))
	case "current_schema":
		return "public"
	case "array_to_string":
		if a[0] == nil {
			return nil
		}
		l, ok := a[0].(catList)
		if !ok {
			q.fail("array_to_string")
		}
		var ss []string
		for _, v := range l {
			if v != nil {
				ss = append(ss, fmt.Sprint(v))
			}
		}
		return strings.Join(ss, str(1))
	case "array_position":
		l, ok := a[0].(catList)
		if !ok {
			q.fail("array_position")
		}
		for i, v := range l {
			if truthy(q.eq(v, a[1])) {
				return int64(i + 1)
			}
		}
		return nil
	case "lower":
		if a[0] == nil {
			return nil
		}
		return strings.ToLower(str(0))
	case "upper":
		if a[0] == nil {
			return nil
		}
		return strings.ToUpper(str(0))
	case "len", "length", "char_length":
		if a[0] == nil {
			return nil
		}
		return int64(len([]rune(str(0))))
	case "substring", "substr":
		if a[0] == nil {
			return nil
		}
		rs := []rune(str(0))
		from := num(1) - 1
		to := len(rs)
		if len(a) > 2 {
			to = from + num(2)
		}
		from, to = max(0, min(from, len(rs))), max(0, min(to, len(rs)))
		if to < from {
			return ""
		}
		return string(rs[from:to])
	case "coalesce", "isnull":
		for _, v := range a {
			if v != nil {
				return v
			}
		}
		return nil
	case "concat":
		var b strings.Builder
		for i, v := range a {
			if v != nil {
				b.WriteString(str(i))
			}
		}
		return b.String()
	case "quote_ident":
		return a[0]
	}
	q.fail("function %s", e.name)
	return nil
}

func (q *catQuery) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, q.r.Intn(i+1))
	}
}

// sortCmp orders values, nulls last.
func (q *catQuery) sortCmp(a, b val) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil:
		return 1
	case b == nil:
		return -1
	}
	c, _ := q.cmp(a, b)
	return c
}

func (q *catQuery) run(st *selStmt, up *scope) ([]string, [][]val) {
	// Sources.
	rels := make([]*relation, len(st.from))
	for i, f := range st.from {
		if f.fn != nil {
			continue
		}
		if f.sub == nil {
			rels[i] = q.rels[strings.ToLower(f.rel)]
			if rels[i] == nil {
				q.fail("relation %s", f.rel)
			}
		} else if f.kind != "apply" {
			rels[i] = q.derived(f, up)
		}
	}
	// Conditions, placed at the first source where they can be decided.
	conds := conjuncts(st.where, nil)
	onlyInner := true
	for _, f := range st.from {
		if f.kind == "left" || f.kind == "apply" {
			onlyInner = false
		}
	}
	order := make([]int, 0, len(st.from))
	if onlyInner {
		for _, f := range st.from {
			conds = conjuncts(f.on, conds)
		}
		need := make([]map[int]bool, len(conds))
		for i, c := range conds {
			m := map[int]bool{}
			if refs(c, st.from, rels, m) {
				need[i] = m
			}
		}
		have := map[int]bool{}
		for len(order) < len(st.from) {
			best, score := -1, -1
			for i := range st.from {
				if have[i] {
					continue
				}
				n := 0
				for _, m := range need {
					if m == nil || !m[i] {
						continue
					}
					ok := true
					for k := range m {
						if k != i && !have[k] {
							ok = false
						}
					}
					if ok {
						n++
					}
				}
				if n > score {
					best, score = i, n
				}
			}
			have[best] = true
			order = append(order, best)
		}
	} else {
		for i := range st.from {
			order = append(order, i)
		}
	}
	pos := map[int]int{}
	for k, i := range order {
		pos[i] = k
	}
	at := make([][]*ex, len(st.from)+1)
	for _, c := range conds {
		m := map[int]bool{}
		k := len(order) - 1
		if refs(c, st.from, rels, m) {
			k = -1
			for i := range m {
				k = max(k, pos[i])
			}
		}
		// With outer joins a condition of WHERE applies to the joined row.
		if !onlyInner {
			for j := max(k, 0); j < len(order); j++ {
				if st.from[order[j]].kind == "left" {
					k = max(k, j)
				}
			}
		}
		at[k+1] = append(at[k+1], c)
	}
	var out [][]bound
	cur := make([]bound, 0, len(st.from))
	check := func(cs []*ex) bool {
		sc := &scope{up: up, b: cur, q: q}
		for _, c := range cs {
			if !truthy(q.eval(c, sc)) {
				return false
			}
		}
		return true
	}
	steps := 0
	var rec func(k int)
	rec = func(k int) {
		if steps++; steps > 3_000_000 {
			q.fail("join too large")
		}
		if k == len(order) {
			out = append(out, append([]bound{}, cur...))
			return
		}
		i := order[k]
		f := st.from[i]
		rel := rels[i]
		if f.kind == "apply" {
			rel = q.derived(f, &scope{up: up, b: cur, q: q})
		}
		matched := false
		for _, row := range rel.rows {
			cur = append(cur, bound{f.alias, rel, row})
			if f.kind == "left" || !onlyInner {
				if f.on != nil && !check([]*ex{f.on}) {
					cur = cur[:len(cur)-1]
					continue
				}
			}
			matched = true
			if check(at[k+1]) {
				rec(k + 1)
			}
			cur = cur[:len(cur)-1]
		}
		if f.kind == "left" && !matched {
			cur = append(cur, bound{f.alias, rel, nil})
			if check(at[k+1]) {
				rec(k + 1)
			}
			cur = cur[:len(cur)-1]
		}
	}
	if check(at[0]) {
		rec(0)
	}
	// Projection.
	agg := len(st.group) > 0
	for _, it := range st.items {
		agg = agg || hasAgg(it.e)
	}
	var cols []string
	for _, it := range st.items {
		switch {
		case it.e.op == "star":
			for i := range st.from {
				if rels[i] != nil {
					cols = append(cols, rels[i].cols...)
				}
			}
		case it.alias != "":
			cols = append(cols, it.alias)
		case it.e.op == "col":
			cols = append(cols, it.e.name)
		default:
			cols = append(cols, it.e.name)
		}
	}
	byAlias := func(e *ex) *ex {
		if e.op == "col" && e.alias == "" {
			for _, it := range st.items {
				if it.alias != "" && strings.EqualFold(it.alias, e.name) {
					return it.e
				}
			}
		}
		if e.op == "lit" {
			if n, ok := e.v.(int64); ok && n >= 1 && int(n) <= len(st.items) {
				return st.items[n-1].e
			}
		}
		return e
	}
	type orow struct {
		v  []val
		ks []val
	}
	var res []orow
	emit := func(sc *scope) {
		var r orow
		for _, it := range st.items {
			if it.e.op == "star" {
				for _, b := range sc.b {
					if b.row == nil {
						r.v = append(r.v, make([]val, len(b.rel.cols))...)
					} else {
						r.v = append(r.v, b.row...)
					}
				}
				continue
			}
			r.v = append(r.v, q.eval(it.e, sc))
		}
		for _, o := range st.order {
			e := byAlias(o.e)
			// A bare name that is an output column means that column.
			if e.op == "col" && e.alias == "" {
				if _, ok := (&scope{b: sc.b, up: nil, q: q}).tryFind(e); !ok {
					for k, c := range cols {
						if strings.EqualFold(c, e.name) && k < len(r.v) {
							r.ks = append(r.ks, r.v[k])
							e = nil
							break
						}
					}
					if e == nil {
						continue
					}
				}
			}
			r.ks = append(r.ks, q.eval(e, sc))
		}
		res = append(res, r)
	}
	if agg {
		keys := []string{}
		groups := map[string][][]bound{}
		for _, b := range out {
			sc := &scope{up: up, b: b, q: q}
			var kb strings.Builder
			for _, g := range st.group {
				e := g
				if g.op == "col" && g.alias == "" {
					if _, ok := sc.tryFind(g); !ok {
						e = byAlias(g)
					}
				} else {
					e = byAlias(g)
				}
				fmt.Fprintf(&kb, "%T%v\x00", q.eval(e, sc), q.eval(e, sc))
			}
			k := kb.String()
			if _, ok := groups[k]; !ok {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], b)
		}
		if len(st.group) == 0 && len(keys) == 0 {
			keys, groups[""] = append(keys, ""), [][]bound{}
		}
		for _, k := range keys {
			g := groups[k]
			sc := &scope{up: up, q: q, grp: g}
			if len(g) > 0 {
				sc.b = g[0]
			} else {
				sc.grp = [][]bound{}
			}
			emit(sc)
		}
	} else {
		for _, b := range out {
			emit(&scope{up: up, b: b, q: q})
		}
	}
	if st.distinct {
		seen := map[string]bool{}
		kept := res[:0]
		for _, r := range res {
			k := fmt.Sprintf("%#v", r.v)
			if !seen[k] {
				seen[k] = true
				kept = append(kept, r)
			}
		}
		res = kept
	}
	q.shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	sort.SliceStable(res, func(i, j int) bool {
		for k, o := range st.order {
			if c := q.sortCmp(res[i].ks[k], res[j].ks[k]); c != 0 {
				return (c < 0) != o.desc
			}
		}
		return false
	})
	rows := make([][]val, len(res))
	for i := range res {
		rows[i] = res[i].v
	}
	if st.xml {
		if len(rows) == 0 {
			return []string{""}, [][]val{{nil}}
		}
		var b strings.Builder
		for _, r := range rows {
			for _, v := range r {
				if v != nil {
					fmt.Fprint(&b, v)
				}
			}
		}
		return []string{""}, [][]val{{b.String()}}
	}
	return cols, rows
}

func (s *scope) tryFind(e *ex) (v val, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	return s.find(e)
}

func (q *catQuery) derived(f selSrc, up *scope) *relation {
	if f.fn != nil {
		r := &relation{cols: f.names}
		n := 0
		var ls []catList
		for _, a := range f.fn.args {
			l, _ := q.eval(a, up).(catList)
			ls = append(ls, l)
			n = max(n, len(l))
		}
		if len(r.cols) == 0 && len(ls) == 1 {
			r.cols = []string{f.alias}
		}
		if len(r.cols) != len(ls) {
			q.fail("unnest columns")
		}
		for i := 0; i < n; i++ {
			row := make([]val, len(ls))
			for k, l := range ls {
				if i < len(l) {
					row[k] = l[i]
				}
			}
			r.rows = append(r.rows, row)
		}
		return r
	}
	cols, rows := q.run(f.sub, up)
	if len(f.names) > 0 {
		if len(f.names) != len(cols) {
			q.fail("column aliases")
		}
		cols = f.names
	}
	return &relation{cols, rows}
}

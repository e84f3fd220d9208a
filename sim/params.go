package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/xsql"
)

// ------------------------------------------------------------------- C12

// pOp is one call on a parameter set.
type pOp struct {
	S int      `json:"s"` // parameter set
	K string   `json:"k"` // new set enum flags null page cursor args name reset use exec
	P int      `json:"p,omitempty"`
	V int      `json:"v,omitempty"`
	N []string `json:"n,omitempty"`
	F []int    `json:"f,omitempty"`
}

type c12Case struct {
	Workers [][]pOp    `json:"workers"`
	Modes   []string   `json:"modes"`  // per query name: none page cursor args
	Shared  [][]string `json:"shared"` // column lists shared by all workers
}

var c12Cols = []string{"a", "b", "c", "ab", "bc", "id", "name", "idname", "A", "ID"}

func c12Gen(r *R, tier string) c12Case {
	var c c12Case
	nn := r.Range(1, 3)
	for i := 0; i < nn; i++ {
		c.Modes = append(c.Modes, pick(r, "none", "page", "cursor", "args"))
	}
	for i := 0; i < 4; i++ {
		c.Shared = append(c.Shared, perm(r, c12Cols, r.Range(1, 4)))
	}
	for w, nw := 0, pick(r, 1, 2, 2, 3); w < nw; w++ {
		var ops []pOp
		ns := r.Range(1, 3)
		for s := 0; s < ns; s++ {
			ops = append(ops, pOp{S: s, K: "new", P: r.Intn(nn)})
		}
		for k, n := 0, r.Range(3, 25); k < n; k++ {
			o := pOp{S: r.Intn(ns), K: pick(r, "set", "set", "set", "enum", "enum", "flags", "null", "null", "sharednull", "fin", "name", "name", "reset", "new", "use", "use", "use", "far")}
			switch o.K {
			case "set":
				o.P, o.V = pick(r, 0, 1, 2, 3, 31, 32, 63), r.Intn(100)
			case "enum":
				o.P, o.V = pick(r, 0, 1, 2, 3, 31, 32, 63), pick(r, 0, 1, 2, 255, -1, r.Intn(1000), int(int32(r.U64())))
			case "far":
				o.P, o.V = pick(r, 64, 65, 95, 96, 127, 128, 1<<31, 1<<32-1), r.Intn(2)
			case "flags":
				for i, m := 0, r.Intn(3); i < m; i++ {
					o.F = append(o.F, pick(r, 0, 1, 2, 16, -1))
				}
			case "null":
				o.N = perm(r, c12Cols, r.Intn(4))
			case "sharednull":
				o.V = r.Intn(4)
			case "fin":
				o.P, o.V = r.Intn(3), pick(r, 0, 0, 5, 10)
			case "new":
				o.P = r.Intn(nn)
			}
			ops = append(ops, o)
		}
		if r.P(40) { // sets that differ in one thing
			q := r.Intn(nn)
			var mine []pOp
			for k, n := 0, r.Range(1, 5); k < n; k++ {
				o := pOp{K: pick(r, "set", "enum", "enum", "flags", "null"), P: pick(r, 0, 1, 2, 3, 10, 11, 33, 35, 42), V: pick(r, 0, 1, 2, 16, 255)}
				for i, m := 0, r.Range(1, 2); i < m && o.K == "flags"; i++ {
					o.F = append(o.F, pick(r, 0, 1, 2, 16))
				}
				if o.K == "null" {
					o.N = perm(r, c12Cols, r.Range(1, 3))
				}
				mine = append(mine, o)
			}
			for t := 0; t < 2; t++ {
				ops = append(ops, pOp{S: ns, K: "new", P: q})
				for _, o := range mine {
					o.S = ns
					ops = append(ops, o)
				}
				ops = append(ops, pOp{S: ns, K: "use"})
				a, b := &mine[r.Intn(len(mine))], &mine[r.Intn(len(mine))]
				switch r.Intn(6) {
				case 0, 1:
					a.V, b.V = b.V, a.V
				case 4: // one bit
					a.V = int(int32(a.V) ^ 1<<r.Intn(32))
					if len(a.F) > 0 {
						a.F[0] = int(int32(a.F[0]) ^ 1<<r.Intn(32))
					}
				case 2:
					a.P, b.P = b.P, a.P
				case 3:
					*a, *b = *b, *a
				default:
					a.K = pick(r, "set", "enum", "flags")
				}
			}
		}
		for s := 0; s < ns; s++ {
			ops = append(ops, pOp{S: s, K: "use"})
		}
		if r.P(4) && r.P(1) || tier == "thorough" && r.P(1) && r.P(20) { // very many sets, for names that keep too little
			ops = append(ops, pOp{K: "mass", V: 100_000})
		} else if r.P(1) {
			ops = append(ops, pOp{K: "mass", V: 500})
		}
		c.Workers = append(c.Workers, ops)
	}
	return c
}

func perm(r *R, xs []string, n int) []string {
	var out []string
	left := append([]string{}, xs...)
	for i := 0; i < n && len(left) > 0; i++ {
		k := r.Intn(len(left))
		out = append(out, left[k])
		left = append(left[:k], left[k+1:]...)
	}
	return out
}

// mParams is the reference model of a parameter set.
type mParams struct {
	q     int
	pos   map[int]bool
	enums [][2]int
	flags []int
	args  []any
	nulls []string
	limit uint32
	off   uint32
	cur   any
	done  bool
}

func (m *mParams) sortedNulls() []string {
	n := append([]string{}, m.nulls...)
	sort.Strings(n)
	return n
}

// identity is everything the text of a query may depend on.
func (m *mParams) identity() string {
	var ps []int
	for p := range m.pos {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	page := ""
	switch {
	case m.cur != nil:
		page = "cursor"
	case m.off > 0:
		page = "offset"
	}
	return fmt.Sprintf("query %d set %v enums %v flags %v %s null columns %q", m.q, ps, m.enums, m.flags, page, m.sortedNulls())
}

// loose is the identity with the null columns run together.
func (m *mParams) loose() string {
	id := m.identity()
	return id[:strings.Index(id, "null columns")] + strings.Join(m.sortedNulls(), "") + fmt.Sprint(len(m.nulls) > 0)
}

// text is the query the parameters stand for.
func c12Text(p xdb.QueryParams, table, mode string) xsql.Builder {
	b := xsql.Postgres.From(table)
	nulls := map[string]bool{}
	for _, n := range p.GetNullColumns() {
		nulls[n] = true
	}
	for _, n := range c12Cols {
		if nulls[n] {
			b.Select("NULL AS " + n)
		} else {
			b.Select(n)
		}
	}
	for i := uint32(0); i < 64; i++ {
		if v, ok := p.GetEnum(i); ok {
			b.Where(fmt.Sprintf("e%d IN (%d)", i, v))
		} else if p.IsSet(i) {
			b.Where(fmt.Sprintf("f%d = ?", i), 0)
		}
	}
	for _, f := range p.GetFlags() {
		b.OrderBy(fmt.Sprintf("flag%d", f))
	}
	switch mode {
	case "page":
		b.Limit(0).Offset(0)
	case "cursor":
		b.Limit(0)
	case "args":
		b.Having("h1 = ?", 0).Having("h2 = ?", 0)
	}
	return b
}

func (m *mParams) text(table, mode string) string {
	n := 0
	ph := func() string { n++; return fmt.Sprintf("$%d", n) }
	var cols, wh, fl []string
	for _, c := range c12Cols {
		x := c
		for _, k := range m.nulls {
			if k == c {
				x = "NULL AS " + c
			}
		}
		cols = append(cols, x)
	}
	for i := 0; i < 64; i++ {
		en := false
		for _, e := range m.enums {
			if e[0] == i {
				wh = append(wh, fmt.Sprintf("e%d IN (%d)", i, e[1]))
				en = true
				break
			}
		}
		if !en && m.pos[i] {
			wh = append(wh, fmt.Sprintf("f%d = %s", i, ph()))
		}
	}
	for _, f := range m.flags {
		fl = append(fl, fmt.Sprintf("flag%d", f))
	}
	s := "SELECT " + strings.Join(cols, ", ") + " FROM " + table
	if len(wh) > 0 {
		s += " WHERE " + strings.Join(wh, " AND ")
	}
	if mode == "args" {
		s += " HAVING h1 = " + ph() + " AND h2 = " + ph()
	}
	if len(fl) > 0 {
		s += " ORDER BY " + strings.Join(fl, ", ")
	}
	switch mode {
	case "page":
		s += " LIMIT " + ph() + " OFFSET " + ph()
	case "cursor":
		s += " LIMIT " + ph()
	}
	return norm(s)
}

// c12Differ says how two parameter sets can be told apart.
func c12Differ(a, b *xdb.QueryParamsBuilder) string {
	if x, y := len(a.Args()), len(b.Args()); x != y {
		return fmt.Sprintf("has %d arguments, a new one %d", x, y)
	}
	for i := uint32(0); i < 64; i++ {
		if a.IsSet(i) != b.IsSet(i) {
			return fmt.Sprintf("has position %d set: %v, a new one: %v", i, a.IsSet(i), b.IsSet(i))
		}
		v, ok := a.GetEnum(i)
		if w, ok2 := b.GetEnum(i); v != w || ok != ok2 {
			return fmt.Sprintf("has enumeration %d: %v %v, a new one: %v %v", i, v, ok, w, ok2)
		}
	}
	if x, y := len(a.GetFlags()), len(b.GetFlags()); x != y {
		return fmt.Sprintf("has %d flags, a new one %d", x, y)
	}
	if x, y := len(a.GetNullColumns()), len(b.GetNullColumns()); x != y {
		return fmt.Sprintf("has %d null columns, a new one %d", x, y)
	}
	al, ao := a.Page()
	if bl, bo := b.Page(); al != bl || ao != bo {
		return fmt.Sprintf("has page %d %d, a new one %d %d", al, ao, bl, bo)
	}
	al, ac := a.Cursor()
	if bl, bc := b.Cursor(); al != bl || ac != bc {
		return fmt.Sprintf("has cursor %v, a new one %v", ac, bc)
	}
	if a.Name() != b.Name() {
		return "has another name than a new one"
	}
	return ""
}

func c12Run(e *Env, c c12Case) {
	type known struct{ id, loose string }
	names := map[string]known{} // name -> identity
	ids := map[string]string{}  // identity -> name
	qname := func(q int) string { return fmt.Sprintf("Q%s%d", e.Salt, q) }
	var wg sync.WaitGroup
	for wi, ops := range c.Workers {
		wg.Add(1)
		e.Go("worker", wg.Done, func() {
			sets := map[int]*xdb.QueryParamsBuilder{}
			ms := map[int]*mParams{}
			finish := func(b *xdb.QueryParamsBuilder, m *mParams, o pOp) {
				if m.done {
					return
				}
				m.done = true
				limit := uint32(o.V)
				mlimit := limit
				if mlimit == 0 {
					mlimit = xdb.DefaultPageSize
				}
				switch c.Modes[m.q] {
				case "page":
					b.SetPage(limit, uint32(o.P))
					m.limit, m.off = mlimit, uint32(o.P)
					m.args = append(m.args, m.limit, m.off)
				case "cursor":
					var cur any
					if o.P > 0 {
						cur = int64(o.P)
					}
					b.SetCursor(limit, 40, cur)
					m.pos[40] = true
					m.cur, m.limit = cur, mlimit
					m.args = append(m.args, cur, m.limit)
				case "args":
					b.AddArgs(7, "x")
					m.args = append(m.args, 7, "x")
				}
			}
			var kept [][2][]any // arguments handed out before a reset, and a copy
			defer func() {
				for _, k := range kept {
					if a, b := fmt.Sprintf("%#v", k[0]), fmt.Sprintf("%#v", k[1]); a != b && !e.Failed() {
						e.Failf("args", "worker %d: arguments %s handed out before a reset became %s", wi, b, a)
					}
				}
			}()
			for k, o := range ops {
				if e.Failed() {
					return
				}
				b, m := sets[o.S], ms[o.S]
				if b == nil && o.K != "new" && o.K != "mass" {
					continue
				}
				e.Op()
				what := fmt.Sprintf("worker %d op %d %s", wi, k, o.K)
				if o.K != "new" && o.K != "reset" && m.done && (o.K == "set" || o.K == "enum") {
					continue // limits come last
				}
				switch o.K {
				case "new":
					q := o.P % len(c.Modes)
					sets[o.S] = xdb.NewQueryParams(qname(q))
					ms[o.S] = &mParams{q: q, pos: map[int]bool{}}
					continue
				case "set":
					if m.pos[o.P] {
						continue
					}
					later := false // arguments follow their positions
					for p := range m.pos {
						later = later || p > o.P
					}
					if later {
						continue
					}
					b.Set(uint32(o.P), o.V)
					m.pos[o.P] = true
					m.args = append(m.args, o.V)
				case "enum":
					if m.pos[o.P] {
						continue
					}
					b.SetEnum(uint32(o.P), int32(o.V))
					m.pos[o.P] = true
					m.enums = append(m.enums, [2]int{o.P, int(int32(o.V))})
				case "flags":
					var f []int32
					for _, x := range o.F {
						f = append(f, int32(x))
					}
					b.SetFlags(f...)
					m.flags = o.F
				case "null":
					b.SetNullColums(append([]string(nil), o.N...))
					m.nulls = o.N
				case "sharednull":
					l := c.Shared[o.V%len(c.Shared)]
					m.nulls = append([]string{}, l...)
					b.SetNullColums(l)
				case "fin":
					finish(b, m, o)
				case "far":
					if m.done {
						continue
					}
					was, refused := b.Name(), false
					func() {
						defer func() { refused = recover() != nil }()
						if o.V == 0 {
							b.Set(uint32(o.P), 1)
						} else {
							b.SetEnum(uint32(o.P), 1)
						}
					}()
					if !refused && (!b.IsSet(uint32(o.P)) || b.Name() == was) {
						e.Failf("position", "%s: position %d was accepted, but the set is not told from one without it", what, o.P)
						return
					}
					if !refused { // more positions than the model knows
						return
					}
				case "mass":
					// Each has other columns that are null, or another enumeration.
					seen := make(map[string]int, o.V)
					x := xdb.NewQueryParams(qname(0) + "mass")
					for i := 0; i < o.V; i++ {
						x.Reset()
						x.SetNullColums([]string{fmt.Sprintf("col_%d", i%1000), fmt.Sprintf("field_%d", i/1000)})
						name := x.Name()
						if j, dup := seen[name]; dup {
							e.Failf("name-collision", "%s: columns col_%d field_%d and col_%d field_%d, each null, give one name %s", what, i%1000, i/1000, j%1000, j/1000, strings.TrimPrefix(name, "Q"+e.Salt))
							return
						}
						seen[name] = i
					}
					e.Probe("mass")
				case "reset":
					held := b.Args()
					kept = append(kept, [2][]any{held, append([]any(nil), held...)})
					b.Reset()
					if d := c12Differ(b, xdb.NewQueryParams(qname(m.q))); d != "" {
						e.Failf("reset", "%s: a parameter set that was reset %s", what, d)
						return
					}
					ms[o.S] = &mParams{q: m.q, pos: map[int]bool{}}
					e.Probe("reset")
				case "name":
					_ = b.Name()
				case "use":
					finish(b, m, o)
					name := xdb.GetQueryParams(k, b).Name()
					id, loose := m.identity(), m.loose()
					if old, ok := names[name]; ok && old.id != id {
						class := "name-collision"
						if old.loose == loose {
							class = "null-columns-run-together"
						}
						e.Failf(class, "%s: two parameter sets share the name %s:\n  %s\n  %s", what, strings.TrimPrefix(name, "Q"+e.Salt), old.id, id)
						if !e.Failed() {
							e.Probe("known-collision")
							return
						}
						return
					}
					names[name] = known{id, loose}
					if old, ok := ids[id]; ok && old != name {
						e.Failf("name-differs", "%s: equal parameter sets have the names %s and %s (%s)", what, old, name, id)
						return
					}
					ids[id] = name
					mode := c.Modes[m.q]
					table := fmt.Sprintf("t%s_%d", e.Salt, m.q)
					text, key := xsql.Postgres.GetOrCreateQuery(name, func(string) xsql.Builder { return c12Text(b, table, mode) })
					if key != name {
						e.Failf("key", "%s: cached as %q, asked for %q", what, key, name)
						return
					}
					if got, want := norm(text), m.text(table, mode); got != want {
						e.Failf("stale-text", "%s: the cache gave\n  %s\nfor %s\n  want %s", what, got, id, want)
						return
					}
					if got, want := fmt.Sprintf("%#v", b.Args()), fmt.Sprintf("%#v", m.args); got != want && len(b.Args())+len(m.args) > 0 {
						e.Failf("args", "%s: arguments %s, want %s", what, got, want)
						return
					}
					if n := strings.Count(text, "$"); n != len(b.Args()) {
						e.Failf("placeholders", "%s: %d placeholders, %d arguments in %s", what, n, len(b.Args()), norm(text))
						return
					}
					lim, off := b.Page()
					if lim != m.limit || off != m.off {
						e.Failf("page", "%s: page %d %d, want %d %d", what, lim, off, m.limit, m.off)
						return
					}
					if l2, cur := b.Cursor(); l2 != m.limit || cur != m.cur {
						e.Failf("page", "%s: cursor %d %v, want %d %v", what, l2, cur, m.limit, m.cur)
						return
					}
				}
			}
		})
	}
	wg.Wait()
}

func init() {
	reg(&Prop{ID: "C12", Title: "query parameters", Runs: 60000, MaxSteps: 30_000_000, Real: []string{"params.go", "xsql (cache, builder)"}, Stub: []string{"goroutine scheduler"},
		Rule:   "1-3 concurrent workers set, name, reset, reuse and use parameter sets drawn from a small vocabulary (so that sets often differ in one respect only) with a shared query cache; the name must identify the set, the text obtained must be that of the set and fit its arguments.",
		Assume: []string{"whether a query pages, by offset or by cursor, is fixed per query name", "positional values are set in ascending order, limits last"}}, c12Gen, c12Run)
}

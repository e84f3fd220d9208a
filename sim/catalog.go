package main

import (
	"fmt"
	"sort"
	"strings"
)

// This file holds what a simulated database's system tables contain and turns
// it into the relations catalog queries read.

type catCol struct {
	Name     string `json:"name"`
	Type     string `json:"type"`
	Udt      string `json:"udt,omitempty"`
	Nullable bool   `json:"null,omitempty"`
	Max      int    `json:"max,omitempty"`
	Hidden   bool   `json:"hidden,omitempty"` // not visible to the user (no privilege)
	Gap      int    `json:"gap,omitempty"`    // dropped columns before it: positions nobody has any more
}

// pos is the position of column i, counted from 1; those of dropped columns
// are not given again.
func (t *catTable) pos(i int) int64 {
	n := int64(0)
	for k := 0; k <= i; k++ {
		n += int64(t.Cols[k].Gap) + 1
	}
	return n
}

type catIdx struct {
	Name    string   `json:"name"`
	Primary bool     `json:"primary,omitempty"`
	Unique  bool     `json:"unique,omitempty"`
	Cols    []string `json:"cols"`
	Expr    int      `json:"expr,omitempty"` // expressions in its key
}

type catFK struct {
	Name      string   `json:"name"`
	Cols      []string `json:"cols"`
	RefSchema string   `json:"ref_schema"`
	RefTable  string   `json:"ref_table"`
	RefCols   []string `json:"ref_cols"`
}

type catTable struct {
	Schema string   `json:"schema"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"` // table, part (partitioned), view, foreign, system (not to be listed)
	Cols   []catCol `json:"cols"`
	Idx    []catIdx `json:"idx,omitempty"`
	FKs    []catFK  `json:"fks,omitempty"`
	Props  []string `json:"props,omitempty"` // SQL Server extended properties: table, column, index, tool
	Gone   bool     `json:"-"`
}

// catalog is what a database's system tables contain.
type catalog struct {
	Tables  []*catTable `json:"tables"`
	r       *R
	e       *Env
	version int
	rels    map[string]map[string]*relation
	relsVer int
	// onQuery is called before each catalog query.
	onQuery func(n int)
	queries int
}

func (c *catalog) schemas() []string {
	m := map[string]bool{}
	var out []string
	for _, t := range c.Tables {
		if !m[t.Schema] {
			m[t.Schema] = true
			out = append(out, t.Schema)
		}
	}
	sort.Strings(out)
	return out
}

func (c *catalog) schemaID(n string) val {
	for i, s := range c.schemas() {
		if strings.EqualFold(s, n) {
			return int64(i + 5)
		}
	}
	return nil
}

func (c *catalog) schemaName(v val) val {
	n, _ := v.(int64)
	ss := c.schemas()
	if i := int(n) - 5; i >= 0 && i < len(ss) {
		return ss[i]
	}
	return nil
}

func maxVal(n int) val {
	if n == 0 {
		return nil
	}
	return int64(n)
}

func yes(b bool) string {
	if b {
		return "YES"
	}
	return "NO"
}

func (c *catalog) relations(dialect string) map[string]*relation {
	if c.rels != nil && c.relsVer == c.version {
		return c.rels[dialect]
	}
	c.relsVer = c.version
	if dialect == "postgres" {
		c.rels = map[string]map[string]*relation{dialect: c.pgRelations()}
	} else {
		c.rels = map[string]map[string]*relation{dialect: c.msRelations()}
	}
	return c.rels[dialect]
}

func rel(cols string) *relation { return &relation{cols: strings.Fields(cols)} }

func (r *relation) add(v ...val) {
	if len(v) != len(r.cols) {
		panic(fmt.Sprintf("harness: relation %v gets %d values", r.cols, len(v)))
	}
	r.rows = append(r.rows, v)
}

func (c *catalog) live() []*catTable {
	var out []*catTable
	for _, t := range c.Tables {
		if !t.Gone {
			out = append(out, t)
		}
	}
	return out
}

func (c *catalog) infoSchema(m map[string]*relation, pg bool) {
	tb := rel("table_catalog table_schema table_name table_type")
	co := rel("table_catalog table_schema table_name column_name ordinal_position is_nullable data_type udt_name character_maximum_length")
	vw := rel("table_catalog table_schema table_name")
	for _, t := range c.live() {
		kind := "BASE TABLE"
		switch t.Kind {
		case "view":
			kind = "VIEW"
			vw.add("simdb", t.Schema, t.Name)
		case "foreign":
			kind = "FOREIGN"
		}
		tb.add("simdb", t.Schema, t.Name, kind)
		for i, col := range t.Cols {
			if col.Hidden {
				continue
			}
			co.add("simdb", t.Schema, t.Name, col.Name, t.pos(i), yes(col.Nullable), col.Type, col.Udt, maxVal(col.Max))
		}
	}
	if pg {
		for _, s := range []string{"pg_catalog", "information_schema"} {
			tb.add("simdb", s, "pg_class_"+s, "BASE TABLE")
			tb.add("simdb", s, "sysview", "VIEW")
			co.add("simdb", s, "pg_class_"+s, "oid", int64(1), "NO", "oid", "oid", nil)
			co.add("simdb", s, "sysview", "n", int64(1), "YES", "name", "name", nil)
			vw.add("simdb", s, "sysview")
		}
	}
	m["information_schema.tables"], m["information_schema.columns"], m["information_schema.views"] = tb, co, vw
}

func (c *catalog) pgRelations() map[string]*relation {
	m := map[string]*relation{}
	c.infoSchema(m, true)
	tc := rel("constraint_catalog constraint_schema constraint_name table_schema table_name constraint_type")
	kcu := rel("constraint_catalog constraint_schema constraint_name table_schema table_name column_name ordinal_position position_in_unique_constraint")
	ccu := rel("constraint_catalog constraint_schema constraint_name table_schema table_name column_name")
	rc := rel("constraint_schema constraint_name unique_constraint_schema unique_constraint_name")
	ns := rel("oid nspname")
	pc := rel("oid relname relnamespace relkind")
	pi := rel("indexrelid indrelid indisprimary indisunique indkey")
	pa := rel("attrelid attname attnum attisdropped")
	px := rel("schemaname tablename indexname")
	pk := rel("oid conname connamespace contype conrelid confrelid conkey confkey")
	nsOf := map[string]int64{}
	for i, s := range c.schemas() {
		nsOf[s] = int64(2200 + i)
		ns.add(nsOf[s], s)
	}
	oid := int64(16384)
	next := func() int64 { oid++; return oid }
	toid := map[string]int64{}
	cnum := map[string]int64{}
	for _, t := range c.live() {
		toid[t.Schema+"\x00"+t.Name] = next()
		for i, col := range t.Cols {
			cnum[t.Schema+"\x00"+t.Name+"\x00"+col.Name] = t.pos(i)
		}
	}
	for _, t := range c.live() {
		kind := "r"
		switch t.Kind {
		case "view":
			kind = "v"
		case "foreign":
			kind = "f"
		case "part":
			kind = "p"
		}
		to := toid[t.Schema+"\x00"+t.Name]
		pc.add(to, t.Name, nsOf[t.Schema], kind)
		num := map[string]int64{}
		for i, col := range t.Cols {
			num[col.Name] = t.pos(i)
			for d := t.pos(i) - int64(col.Gap); d < t.pos(i); d++ {
				pa.add(to, fmt.Sprintf("........pg.dropped.%d........", d), d, true)
			}
			pa.add(to, col.Name, t.pos(i), false)
		}
		for _, ix := range t.Idx {
			io := next()
			ik := "i"
			if t.Kind == "part" {
				ik = "I"
			}
			pc.add(io, ix.Name, nsOf[t.Schema], ik)
			var key catList
			for k, cn := range ix.Cols {
				key = append(key, num[cn])
				pa.add(io, cn, int64(k+1), false)
			}
			for k := 0; k < ix.Expr; k++ {
				key = append(key, int64(0))
				pa.add(io, "lower", int64(len(ix.Cols)+k+1), false)
			}
			pi.add(io, to, ix.Primary, ix.Unique, key)
			px.add(t.Schema, t.Name, ix.Name)
			if ix.Primary {
				tc.add("simdb", t.Schema, ix.Name, t.Schema, t.Name, "PRIMARY KEY")
			} else if ix.Unique {
				tc.add("simdb", t.Schema, ix.Name, t.Schema, t.Name, "UNIQUE")
			}
			if ix.Primary || ix.Unique {
				for k, cn := range ix.Cols {
					kcu.add("simdb", t.Schema, ix.Name, t.Schema, t.Name, cn, int64(k+1), nil)
					ccu.add("simdb", t.Schema, ix.Name, t.Schema, t.Name, cn)
				}
			}
		}
		for _, f := range t.FKs {
			tc.add("simdb", t.Schema, f.Name, t.Schema, t.Name, "FOREIGN KEY")
			var k1, k2 catList
			for k := range f.Cols {
				k1 = append(k1, num[f.Cols[k]])
				k2 = append(k2, cnum[f.RefSchema+"\x00"+f.RefTable+"\x00"+f.RefCols[k]])
			}
			pk.add(next(), f.Name, nsOf[t.Schema], "f", to, toid[f.RefSchema+"\x00"+f.RefTable], k1, k2)
			for k, cn := range f.Cols {
				kcu.add("simdb", t.Schema, f.Name, t.Schema, t.Name, cn, int64(k+1), int64(k+1))
				ccu.add("simdb", t.Schema, f.Name, f.RefSchema, f.RefTable, f.RefCols[k])
			}
			un := ""
			for _, rt := range c.live() {
				if rt.Schema == f.RefSchema && rt.Name == f.RefTable {
					for _, ix := range rt.Idx {
						if ix.Unique && strings.Join(ix.Cols, ",") == strings.Join(f.RefCols, ",") {
							un = ix.Name
						}
					}
				}
			}
			if un == "" {
				rc.add(t.Schema, f.Name, nil, nil)
			} else {
				rc.add(t.Schema, f.Name, f.RefSchema, un)
			}
		}
	}
	m["information_schema.table_constraints"], m["information_schema.key_column_usage"] = tc, kcu
	m["information_schema.constraint_column_usage"], m["information_schema.referential_constraints"] = ccu, rc
	for n, r := range map[string]*relation{"pg_namespace": ns, "pg_constraint": pk, "pg_class": pc, "pg_index": pi, "pg_attribute": pa, "pg_indexes": px} {
		m[n], m["pg_catalog."+n] = r, r
	}
	return m
}

func (c *catalog) msRelations() map[string]*relation {
	m := map[string]*relation{}
	c.infoSchema(m, false)
	sc := rel("schema_id name")
	tb := rel("object_id name schema_id type type_desc is_ms_shipped")
	ob := rel("object_id name schema_id type type_desc is_ms_shipped")
	vw := rel("object_id name schema_id type type_desc is_ms_shipped")
	ep := rel("class class_desc major_id minor_id name")
	ix := rel("object_id index_id name is_primary_key is_unique")
	ic := rel("object_id index_id column_id key_ordinal is_included_column")
	co := rel("object_id column_id name is_nullable max_length")
	fk := rel("object_id name parent_object_id referenced_object_id schema_id")
	fc := rel("constraint_object_id constraint_column_id parent_object_id parent_column_id referenced_object_id referenced_column_id")
	for _, s := range c.schemas() {
		sc.add(c.schemaID(s), s)
	}
	ep.add(int64(0), "DATABASE", int64(0), int64(0), "owner")
	ids := map[string]int64{}
	cid := map[string]int64{}
	for i, t := range c.Tables {
		id := int64(1000 + 100*i)
		ids[t.Schema+"\x00"+t.Name] = id
		for k, col := range t.Cols {
			cid[fmt.Sprint(id, "\x00", col.Name)] = t.pos(k)
		}
	}
	for _, t := range c.live() {
		id := ids[t.Schema+"\x00"+t.Name]
		sid := c.schemaID(t.Schema)
		if t.Kind == "view" {
			vw.add(id, t.Name, sid, "V ", "VIEW", false)
			ob.add(id, t.Name, sid, "V ", "VIEW", false)
		} else {
			tb.add(id, t.Name, sid, "U", "USER_TABLE", t.Kind == "system")
			ob.add(id, t.Name, sid, "U", "USER_TABLE", t.Kind == "system")
		}
		for _, p := range t.Props {
			switch p {
			case "table":
				ep.add(int64(1), "OBJECT_OR_COLUMN", id, int64(0), "MS_Description")
			case "column":
				ep.add(int64(1), "OBJECT_OR_COLUMN", id, int64(1), "MS_Description")
			case "index":
				ep.add(int64(7), "INDEX", id, int64(1), "MS_Description")
			case "index2":
				ep.add(int64(7), "INDEX", id, int64(2), "MS_Description")
			case "tool":
				ep.add(int64(1), "OBJECT_OR_COLUMN", id, int64(0), "microsoft_database_tools_support")
			}
		}
		for k, col := range t.Cols {
			co.add(id, t.pos(k), col.Name, col.Nullable, int64(col.Max))
		}
		if t.Kind != "view" {
			ix.add(id, int64(0), nil, false, false) // the heap
		}
		for k, x := range t.Idx {
			ix.add(id, int64(k+1), x.Name, x.Primary, x.Unique)
			for o, cn := range x.Cols {
				ic.add(id, int64(k+1), cid[fmt.Sprint(id, "\x00", cn)], int64(o+1), false)
			}
		}
		for k, f := range t.FKs {
			fid := id + 50 + int64(k)
			ob.add(fid, f.Name, sid, "F ", "FOREIGN_KEY_CONSTRAINT", false)
			rid := ids[f.RefSchema+"\x00"+f.RefTable]
			fk.add(fid, f.Name, id, rid, sid)
			for o, cn := range f.Cols {
				fc.add(fid, int64(o+1), id, cid[fmt.Sprint(id, "\x00", cn)], rid, cid[fmt.Sprint(rid, "\x00", f.RefCols[o])])
			}
		}
	}
	m["sys.schemas"], m["sys.tables"], m["sys.objects"], m["sys.views"], m["sys.extended_properties"] = sc, tb, ob, vw, ep
	m["sys.indexes"], m["sys.index_columns"], m["sys.columns"], m["sys.foreign_keys"], m["sys.foreign_key_columns"] = ix, ic, co, fk, fc
	return m
}

// answer evaluates a catalog query.
func (c *catalog) answer(dialect, q string, args []val) (rs *resultSet, err error, ok bool) {
	n := squash(q)
	if !strings.Contains(n, "information_schema") && !strings.Contains(n, "pg_") && !strings.Contains(n, "sys.") {
		return nil, nil, false
	}
	if c.onQuery != nil {
		c.onQuery(c.queries)
	}
	c.queries++
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case unsupported:
				// A rewritten query that this evaluator cannot read: answer what
				// it evidently asks for.
				c.e.Probe("catalog-query-answered-by-kind")
				c.e.Logf("%v: %s", y, n)
				rs, err, ok = c.byKind(dialect, n, args), nil, true
			case *dbError:
				rs, err, ok = nil, y, true
			default:
				panic(x)
			}
		}
	}()
	toks, lerr := lex(q)
	if lerr != nil {
		return nil, lerr, true
	}
	for len(toks) > 0 && toks[len(toks)-1].k == 'p' && toks[len(toks)-1].v == ";" {
		toks = toks[:len(toks)-1]
	}
	p := &catParser{t: toks}
	st := p.sel()
	if p.i < len(p.t) {
		if p.peek().k == 'p' && p.peek().v != "," && p.peek().v != "(" {
			// Rests of a broken literal: what a server calls a syntax error.
			return nil, &dbError{Code: "42601", Msg: "syntax error at or near " + p.peek().v}, true
		}
		if p.peek().k == 'i' && !catReserved[strings.ToLower(p.peek().v)] || p.peek().k == 's' {
			return nil, &dbError{Code: "42601", Msg: "syntax error at or near " + p.peek().v}, true
		}
		p.bad("rest %q", p.peek().v)
	}
	cq := &catQuery{c: c, ci: dialect != "postgres", r: c.r, args: args, rels: c.relations(dialect)}
	cols, rows := cq.run(st, nil)
	rs = &resultSet{Rows: rows, Tag: fmt.Sprintf("SELECT %d", len(rows))}
	for _, n := range cols {
		rs.Cols = append(rs.Cols, dbCol{n, "text"})
	}
	return rs, nil, true
}

// byKind answers a query by what it seems to list.
func (c *catalog) byKind(dialect, n string, args []val) *resultSet {
	rs := &resultSet{}
	col := func(names ...string) {
		for _, x := range names {
			rs.Cols = append(rs.Cols, dbCol{x, "text"})
		}
	}
	named := func(k int) string {
		if k >= len(args) {
			return ""
		}
		if nv, ok := args[k].(namedVal); ok {
			return fmt.Sprint(nv.V)
		}
		return fmt.Sprint(args[k])
	}
	is := func(t *catTable) bool {
		if len(args) >= 2 {
			return strings.EqualFold(t.Schema, named(0)) && strings.EqualFold(t.Name, named(1))
		}
		return strings.Contains(n, "'"+strings.ToLower(t.Schema)+"'") && strings.Contains(n, "'"+strings.ToLower(t.Name)+"'")
	}
	colRow := func(t *catTable, i int, x catCol) []val {
		return []val{x.Name, x.Type, x.Udt, yes(x.Nullable), maxVal(x.Max), t.pos(i)}
	}
	switch {
	case strings.Contains(n, "foreign_key") || strings.Contains(n, "'foreign key'") || strings.Contains(n, "contype"):
		col("n", "s", "t", "c", "rs", "rt", "rc")
		for _, t := range c.live() {
			for _, f := range t.FKs {
				for k := range f.Cols {
					rs.Rows = append(rs.Rows, []val{f.Name, t.Schema, t.Name, f.Cols[k], f.RefSchema, f.RefTable, f.RefCols[k]})
				}
			}
		}
	case strings.Contains(n, "index"):
		col("n", "p", "u", "c")
		for _, t := range c.live() {
			if is(t) {
				ixs := append([]catIdx(nil), t.Idx...)
				sort.Slice(ixs, func(i, j int) bool { return ixs[i].Name < ixs[j].Name })
				for _, x := range ixs {
					rs.Rows = append(rs.Rows, []val{x.Name, x.Primary, x.Unique, strings.Join(x.Cols, ",")})
				}
			}
		}
	case strings.Contains(n, "view"):
		col("s", "t", "c", "ty", "u", "n", "m", "o")
		for _, t := range c.live() {
			if t.Kind == "view" {
				for i, x := range t.Cols {
					if !x.Hidden {
						rs.Rows = append(rs.Rows, append([]val{t.Schema, t.Name}, colRow(t, i, x)...))
					}
				}
			}
		}
	case strings.Contains(n, "columns"):
		col("c", "ty", "u", "n", "m", "o")
		for _, t := range c.live() {
			if is(t) {
				for i, x := range t.Cols {
					if !x.Hidden {
						rs.Rows = append(rs.Rows, colRow(t, i, x))
					}
				}
			}
		}
	default:
		col("s", "t", "ty")
		for _, t := range c.live() {
			if t.listed(dialect) {
				ty := "BASE TABLE"
				if dialect != "postgres" {
					ty = "USER_TABLE"
				} else if t.Kind == "foreign" {
					ty = "FOREIGN"
				}
				rs.Rows = append(rs.Rows, []val{t.Schema, t.Name, ty})
			}
		}
	}
	return rs
}

// listed reports whether a table belongs in a listing of tables.
func (t *catTable) listed(dialect string) bool {
	if t.Kind == "view" {
		return false
	}
	if dialect != "postgres" {
		if t.Kind == "system" {
			return false
		}
		for _, p := range t.Props {
			if p == "tool" {
				return false
			}
		}
	}
	return true
}

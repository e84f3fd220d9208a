package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/schema"
)

// ---------------------------------------------------------------- cases

type schCall struct {
	Kind    string   `json:"kind"` // tables views fks
	Schemas []string `json:"schemas,omitempty"`
	Tables  []string `json:"tables,omitempty"`
	Deps    bool     `json:"deps,omitempty"`
}

type schCase struct {
	Dialect string      `json:"dialect"`
	Tables  []*catTable `json:"tables"`
	Pool    int         `json:"pool"`
	InTx    bool        `json:"in_tx,omitempty"`
	Workers [][]schCall `json:"workers"`
	Faults  []dbFault   `json:"faults"`
	// VanishAt is the catalog query before which table Vanish disappears.
	Vanish   int `json:"vanish,omitempty"`
	VanishAt int `json:"vanish_at,omitempty"`
	// Deadline is the time each call is given, in ms.
	Deadline int `json:"deadline,omitempty"`
}

var pgTypes = [][2]string{{"bigint", "int8"}, {"integer", "int4"}, {"text", "text"}, {"character varying", "varchar"}, {"boolean", "bool"}, {"timestamp with time zone", "timestamptz"}, {"jsonb", "jsonb"}, {"bytea", "bytea"}, {"ARRAY", "_int8"}, {"ARRAY", "_text"}, {"uuid", "uuid"}, {"numeric", "numeric"},
	{"smallint", "int2"}, {"real", "float4"}, {"double precision", "float8"}, {"USER-DEFINED", "ltree"}, {"cidr", "cidr"}, {"inet", "inet"}, {"character", "bpchar"}, {"date", "date"}, {"timestamp without time zone", "timestamp"}, {"ARRAY", "_varchar"}}
var msTypes = []string{"bigint", "int", "nvarchar", "varchar", "bit", "datetime2", "uniqueidentifier", "decimal", "char", "smallint", "tinyint", "nchar", "datetime", "date", "time", "real", "numeric", "nvarchar"}

// genCatalog makes a catalog. odd allows names that need quoting.
func genCatalog(r *R, dialect string, odd bool) []*catTable {
	pg := dialect == "postgres"
	main := "dbo"
	if pg {
		main = "public"
	}
	schemas := []string{main}
	for _, s := range []string{"audit", "Sales", "tenant_2", "a b", "o'neil"} {
		if !odd && strings.ContainsAny(s, " '") {
			continue
		}
		if r.P(30) {
			schemas = append(schemas, s)
		}
	}
	names := []string{"org", "user", "orgmember", "item", "Order", "log_entry", "_meta", "team", "tag", "schema_migrations"}
	if odd {
		names = append(names, "per cent%", "o'brien", "größe", `q"uote`, "x'y'z")
		if pg { // names differ by case and space there
			names = append(names, "User", "order", "ITEM", "item ", " tag")
		}
	}
	var out []*catTable
	used := map[string]bool{}
	n := pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 8)
	for i := 0; i < n; i++ {
		t := &catTable{Schema: pick(r, schemas...), Name: pick(r, names...), Kind: "table"}
		key := t.Schema + "\x00" + t.Name
		if !odd || !pg {
			key = strings.ToLower(key)
		}
		if used[key] {
			continue
		}
		used[key] = true
		if r.P(18) {
			t.Kind = "view"
		} else if pg && r.P(6) {
			t.Kind = "foreign"
		} else if pg && r.P(8) {
			t.Kind = "part"
		} else if !pg && r.P(6) {
			t.Kind = "system"
		}
		cols := []string{"id", "name", "org_id", "parent_id", "created_at", "meta", "Email", "user_id", "count", "items_ids", "item_count", "_rev"}
		if odd {
			cols = append(cols, "with space", "it's", "ключ")
			if pg {
				cols = append(cols, "Id", "ID", "email", "name ", " id", "META")
			}
		}
		nc := pick(r, 1, 2, 3, 4, 5, 7)
		if t.Kind != "view" && pg && r.P(4) {
			nc = 0
		}
		if pg && t.Kind == "view" && r.P(8) {
			nc = 0
		}
		wide := nc > 0 && r.P(2)
		if wide {
			nc = r.Range(30, 70)
		}
		have := map[string]bool{}
		for k := 0; k < nc; k++ {
			c := catCol{Name: pick(r, cols...), Nullable: r.P(40)}
			if wide && k >= 5 {
				c.Name = fmt.Sprintf("f%d", k)
			}
			if k == 0 && r.P(80) {
				c.Name = "id"
			}
			if have[c.Name] {
				continue
			}
			have[c.Name] = true
			if r.P(6) {
				c.Gap = pick(r, 1, 2, 3, 120, 250, 300)
			}
			if pg {
				ty := pick(r, pgTypes...)
				if strings.HasSuffix(strings.ToLower(c.Name), "id") {
					ty = pgTypes[0]
				}
				c.Type, c.Udt = ty[0], ty[1]
				if c.Name == "item_count" && r.P(60) {
					c.Type, c.Udt = "integer", "int4"
				}
			} else {
				c.Type = pick(r, msTypes...)
				if strings.HasSuffix(strings.ToLower(c.Name), "id") {
					c.Type = "bigint"
				}
				c.Udt = c.Type
			}
			if strings.Contains(c.Type, "char") && r.P(80) {
				c.Max = pick(r, 1, 64, 4000, 65536, 10485760, 1<<31-1)
			}
			t.Cols = append(t.Cols, c)
		}
		if t.Kind == "table" || t.Kind == "system" || t.Kind == "part" {
			for k, m := 0, pick(r, 0, 1, 1, 2, 3); k < m && len(t.Cols) > 0; k++ {
				ix := catIdx{Unique: r.P(40)}
				var free []string
				for _, c := range t.Cols {
					free = append(free, c.Name)
				}
				for q, w := 0, pick(r, 1, 1, 1, 2, 3); q < w && len(free) > 0; q++ {
					j := r.Intn(len(free))
					if k == 0 && q == 0 {
						j = 0
					}
					ix.Cols = append(ix.Cols, free[j])
					free = append(free[:j], free[j+1:]...)
				}
				if k == 0 && r.P(85) {
					ix.Primary, ix.Unique = true, true
					ix.Name = t.Name + "_pkey"
				} else {
					ix.Name = fmt.Sprintf("idx_%s_%d", t.Name, k)
					if !pg && r.P(40) {
						ix.Name = fmt.Sprintf("IX_%d", k)
					}
					if pg && r.P(12) {
						ix.Expr = r.Range(1, 2)
						if r.P(60) {
							ix.Cols = nil
						}
					}
					if r.P(15) {
						ix.Name = fmt.Sprintf("%c_%s_%d", 'a'+rune(r.Intn(26)), t.Name, k)
					}
				}
				t.Idx = append(t.Idx, ix)
			}
			if r.P(6) && len(t.Cols) > 1 {
				t.Cols[r.Intn(len(t.Cols))].Hidden = pg
			}
		}
		if !pg {
			for _, p := range []string{"table", "column", "index", "index2", "tool"} {
				if r.P(pick(r, 3, 10)) {
					t.Props = append(t.Props, p)
				}
			}
		}
		out = append(out, t)
	}
	// Foreign keys.
	var tabs []*catTable
	for _, t := range out {
		if (t.Kind == "table" || t.Kind == "part") && len(t.Cols) > 0 {
			tabs = append(tabs, t)
		}
	}
	vis := func(t *catTable) []string {
		var o []string
		for _, c := range t.Cols {
			if !c.Hidden {
				o = append(o, c.Name)
			}
		}
		return o
	}
	fkLoad := pick(r, 0, 30, 60, 90)
	for ti, t := range tabs {
		for k := 0; k < 3; k++ {
			if !r.P(fkLoad) {
				continue
			}
			to := pick(r, tabs...)
			if r.P(15) {
				to = t
			}
			if r.P(50) {
				to = tabs[(ti+1)%len(tabs)]
			}
			a, b := vis(t), vis(to)
			if len(a) == 0 || len(b) == 0 {
				continue
			}
			f := catFK{Name: fmt.Sprintf("fk_%s_%d", t.Name, k), RefSchema: to.Schema, RefTable: to.Name}
			if r.P(25) {
				f.Name = "fk_org"
			}
			dup := false
			for _, o := range t.FKs {
				dup = dup || o.Name == f.Name
			}
			if !pg { // unique per schema there
				for _, o := range tabs {
					for _, of := range o.FKs {
						dup = dup || o.Schema == t.Schema && of.Name == f.Name
					}
				}
			}
			if dup {
				continue
			}
			i, j := r.Intn(len(a)), r.Intn(len(b))
			f.Cols, f.RefCols = []string{a[i]}, []string{b[j]}
			if len(a) > 1 && len(b) > 1 && r.P(20) {
				f.Cols = append(f.Cols, a[(i+1)%len(a)])
				f.RefCols = append(f.RefCols, b[(j+1)%len(b)])
			}
			t.FKs = append(t.FKs, f)
		}
	}
	return out
}

func genCall(r *R, ts []*catTable, deps int) schCall {
	c := schCall{Kind: pick(r, "tables", "tables", "tables", "views", "fks")}
	if deps == 100 {
		c.Kind = pick(r, "tables", "tables", "tables", "tables", "views", "fks")
	}
	if c.Kind == "tables" {
		c.Deps = r.P(deps)
	}
	fold := func(s string) string {
		if r.P(25) {
			return strings.ToUpper(s)
		}
		return s
	}
	if len(ts) > 0 && r.P(55) {
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			c.Tables = append(c.Tables, fold(pick(r, ts...).Name))
		}
	}
	if len(ts) > 0 && r.P(45) {
		c.Schemas = append(c.Schemas, fold(pick(r, ts...).Schema))
		if r.P(20) {
			c.Schemas = append(c.Schemas, "nosuch")
		}
	}
	if r.P(6) {
		c.Tables = append(c.Tables, "nosuch")
	}
	return c
}

func schGen(r *R, tier string, deps, workers int) schCase {
	c := schCase{Dialect: pick(r, "postgres", "postgres", "sqlserver"), Pool: pick(r, 1, 1, 2, 3, 0)}
	c.Tables = genCatalog(r, c.Dialect, r.P(40))
	for w, n := 0, r.Range(1, workers); w < n; w++ {
		var calls []schCall
		for k, m := 0, r.Range(1, 4); k < m; k++ {
			d := deps
			if r.P(25) {
				d = 50
			}
			calls = append(calls, genCall(r, c.Tables, d))
			if r.P(35) {
				calls = append(calls, pick(r, calls...))
			}
		}
		c.Workers = append(c.Workers, calls)
	}
	c.InTx = len(c.Workers) == 1 && r.P(25)
	if r.P(55) {
		c.Faults = genFaults(r, []string{"query", "query", "next", "next", "close", "any"}, []string{"err", "err", "drop", "dropafter", "badconn", "slow", "cancel", "garbage", "crash"}, 24)
	}
	if r.P(6) {
		c.Deadline = pick(r, 2000, 5000, 60000)
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			c.Faults = append(c.Faults, dbFault{Point: "query", At: r.Intn(pick(r, 4, 20)), Kind: "slow", MS: 3_600_000})
		}
	}
	if r.P(12) && len(c.Tables) > 0 {
		c.Vanish, c.VanishAt = r.Intn(len(c.Tables)), 1+r.Intn(8)
	}
	return c
}

// ---------------------------------------------------------------- oracle

func foldIn(list []string, s string) bool {
	if len(list) == 0 {
		return true
	}
	for _, x := range list {
		if strings.EqualFold(x, s) {
			return true
		}
	}
	return false
}

type wantCol struct {
	Text string
	Refs []string // texts of its foreign keys
}

type wantTable struct {
	Head string
	Type string
	Cols []wantCol
	Idx  []string
	PK   string
}

func wantOf(t *catTable, dialect string) wantTable {
	w := wantTable{Head: t.Schema + "." + t.Name}
	switch {
	case t.Kind == "view":
	case dialect != "postgres":
		w.Type = "USER_TABLE"
	case t.Kind == "foreign":
		w.Type = "FOREIGN"
	default:
		w.Type = "BASE TABLE"
	}
	hidden := map[string]bool{}
	for i, c := range t.Cols {
		if c.Hidden {
			hidden[c.Name] = true
			continue
		}
		var ix []string
		for _, x := range t.Idx {
			for _, cn := range x.Cols {
				if cn == c.Name {
					ix = append(ix, x.Name)
				}
			}
		}
		sort.Strings(ix)
		wc := wantCol{Text: fmt.Sprintf("%s type=%s udt=%s null=%v max=%d pos=%d in=%v", w.Head+"."+c.Name, c.Type, c.Udt, c.Nullable, c.Max, t.pos(i), ix)}
		for _, f := range t.FKs {
			for k, cn := range f.Cols {
				if cn == c.Name {
					wc.Refs = append(wc.Refs, fmt.Sprintf("%s: %s.%s -> %s.%s.%s", f.Name, w.Head, cn, f.RefSchema, f.RefTable, f.RefCols[k]))
				}
			}
		}
		w.Cols = append(w.Cols, wc)
	}
	for _, x := range t.Idx {
		cs := append([]string{}, x.Cols...)
		sort.Strings(cs)
		w.Idx = append(w.Idx, fmt.Sprintf("%s primary=%v unique=%v cols=%v", w.Head+"."+x.Name, x.Primary, x.Unique, cs))
		if x.Primary && len(x.Cols) == 1 && !hidden[x.Cols[0]] {
			w.PK = x.Cols[0]
		}
	}
	sort.Strings(w.Idx)
	return w
}

// byName reports whether names are in the order of the database, with or
// without regard to case.
func byName(l []string) bool {
	var low []string
	for _, n := range l {
		low = append(low, strings.ToLower(n))
	}
	return sort.StringsAreSorted(l) || sort.StringsAreSorted(low)
}

// checkTable compares one listed table with the catalog.
func checkTable(t *schema.Table, w wantTable, view, typ, refs bool) string {
	if t == nil {
		return "a nil table is listed"
	}
	if t.Schema+"."+t.Name != w.Head || t.SchemaName != w.Head {
		return fmt.Sprintf("table %q (%q) listed, want %q", t.Schema+"."+t.Name, t.SchemaName, w.Head)
	}
	if t.IsView != view {
		return fmt.Sprintf("%s: IsView is %v", w.Head, t.IsView)
	}
	if typ && t.Type != w.Type {
		return fmt.Sprintf("%s: type %q, want %q", w.Head, t.Type, w.Type)
	}
	var got, want []string
	for _, c := range t.Columns {
		if c == nil {
			return w.Head + ": a nil column is listed"
		}
		ix := c.Indexes.Names()
		if !byName(ix) {
			return fmt.Sprintf("%s.%s: the column's indexes are not in catalog order: %q", w.Head, c.Name, ix)
		}
		sort.Strings(ix)
		if c.SchemaName != w.Head+"."+c.Name {
			return fmt.Sprintf("%s: column %s has SchemaName %q", w.Head, c.Name, c.SchemaName)
		}
		got = append(got, fmt.Sprintf("%s type=%s udt=%s null=%v max=%d pos=%d in=%v", c.SchemaName, c.Type, c.UdtType, c.Nullable, c.MaxLength, c.Position, ix))
	}
	for _, c := range w.Cols {
		want = append(want, c.Text)
	}
	if a, b := strings.Join(got, "\n"), strings.Join(want, "\n"); a != b {
		return fmt.Sprintf("%s: columns\n%s\nwant\n%s", w.Head, a, b)
	}
	if !view {
		got = nil
		for _, x := range t.Indexes {
			cs := append([]string{}, x.ColumnNames...)
			sort.Strings(cs)
			got = append(got, fmt.Sprintf("%s primary=%v unique=%v cols=%v", x.SchemaName, x.IsPrimary, x.IsUnique, cs))
			if x.SchemaName != w.Head+"."+x.Name {
				return fmt.Sprintf("%s: index %s has SchemaName %q", w.Head, x.Name, x.SchemaName)
			}
		}
		if ix := t.Indexes.Names(); !byName(ix) {
			return fmt.Sprintf("%s: the indexes are not in catalog order: %q", w.Head, ix)
		}
		sort.Strings(got)
		if a, b := strings.Join(got, "\n"), strings.Join(w.Idx, "\n"); a != b {
			return fmt.Sprintf("%s: indexes\n%s\nwant\n%s", w.Head, a, b)
		}
		if t.PrimaryKeyName() != w.PK {
			return fmt.Sprintf("%s: primary key %q, want %q", w.Head, t.PrimaryKeyName(), w.PK)
		}
		if t.PrimaryKey != nil {
			own := false
			for _, c := range t.Columns {
				own = own || c == t.PrimaryKey
			}
			if !own {
				return w.Head + ": the primary key is not one of the table's columns"
			}
		}
	}
	if refs {
		for i, c := range t.Columns {
			wr := w.Cols[i].Refs
			if c.Ref == nil {
				if len(wr) > 0 {
					return fmt.Sprintf("%s.%s: no reference, want one of %v", w.Head, c.Name, wr)
				}
				continue
			}
			g := fkText(c.Ref)
			ok := false
			for _, x := range wr {
				ok = ok || x == g
			}
			if !ok {
				return fmt.Sprintf("%s.%s: reference %s, want one of %v", w.Head, c.Name, g, wr)
			}
		}
	}
	return ""
}

func fkText(k *schema.ForeignKey) string {
	return fmt.Sprintf("%s: %s -> %s", k.Name, k.ColumnSchemaName(), k.RefColumnSchemaName())
}

// expected lists what a call must return.
func (c *catalog) expected(dialect string, call schCall) (tabs []*catTable, direct map[*catTable]bool) {
	direct = map[*catTable]bool{}
	sel := map[*catTable]bool{}
	var queue []*catTable
	for _, t := range c.live() {
		if call.Kind == "views" {
			if t.Kind != "view" || len(t.Cols) == 0 {
				continue
			}
		} else if !t.listed(dialect) {
			continue
		}
		if foldIn(call.Schemas, t.Schema) && foldIn(call.Tables, t.Name) {
			direct[t], sel[t] = true, true
			queue = append(queue, t)
		}
	}
	if call.Kind == "tables" && call.Deps {
		for len(queue) > 0 {
			t := queue[0]
			queue = queue[1:]
			for _, f := range t.FKs {
				for _, o := range c.live() {
					if o.Schema == f.RefSchema && o.Name == f.RefTable && !sel[o] {
						sel[o] = true
						queue = append(queue, o)
					}
				}
			}
		}
	}
	for t := range sel {
		tabs = append(tabs, t)
	}
	sort.Slice(tabs, func(i, j int) bool { return tabs[i].Schema+"."+tabs[i].Name < tabs[j].Schema+"."+tabs[j].Name })
	return
}

// ---------------------------------------------------------------- execution

// schWorld is a provider on a simulated database with a catalog.
type schWorld struct {
	srv *Server
	cat *catalog
	e   *Env
	d   string

	cancels []func()
}

func (w *schWorld) cancel() {
	for _, c := range w.cancels {
		c()
	}
}

// sane drops what no database would contain (minimised cases may).
func sane(ts []*catTable) []*catTable {
	var out []*catTable
	seen := map[string]*catTable{}
	for _, t := range ts {
		if t == nil || t.Name == "" || t.Schema == "" || seen[t.Schema+"\x00"+t.Name] != nil {
			continue
		}
		seen[t.Schema+"\x00"+t.Name] = t
		out = append(out, t)
		has := map[string]bool{}
		var cols []catCol
		for _, c := range t.Cols {
			if c.Name != "" && c.Type != "" && !has[c.Name] {
				has[c.Name] = true
				cols = append(cols, c)
			}
		}
		t.Cols = cols
	}
	for _, t := range out {
		has := func(t *catTable, ns []string) bool {
			for _, n := range ns {
				ok := false
				for _, c := range t.Cols {
					ok = ok || c.Name == n
				}
				if !ok {
					return false
				}
			}
			return len(ns) > 0
		}
		var ix []catIdx
		for _, x := range t.Idx {
			if x.Name != "" && (has(t, x.Cols) || len(x.Cols) == 0 && x.Expr > 0) {
				ix = append(ix, x)
			}
		}
		t.Idx = ix
		var fk []catFK
		for _, f := range t.FKs {
			to := seen[f.RefSchema+"\x00"+f.RefTable]
			if f.Name != "" && to != nil && len(f.Cols) == len(f.RefCols) && has(t, f.Cols) && has(to, f.RefCols) {
				fk = append(fk, f)
			}
		}
		t.FKs = fk
	}
	return out
}

func newSchWorld(e *Env, dialect string, tables []*catTable) *schWorld {
	srv := newServer(e, e.Seed, dialect)
	tables = sane(tables)
	for _, t := range tables {
		t.Gone = false
	}
	cat := &catalog{Tables: tables, r: NewR(e.Seed, "catalog"), e: e}
	srv.catalog = cat
	return &schWorld{srv: srv, cat: cat, e: e, d: dialect}
}

func (w *schWorld) zeroColView(call schCall) bool {
	for _, t := range w.cat.live() {
		if t.Kind == "view" && len(t.Cols) == 0 {
			return true
		}
	}
	return false
}

// call performs one listing and checks its answer. exact is false when the
// catalog changed meanwhile. It returns a text that equal calls must repeat.
func (w *schWorld) call(ctx context.Context, p schema.Provider, what string, call schCall, faulted func() bool) (text string) {
	e := w.e
	e.Op()
	ver := w.cat.version
	failf := func(class, format string, args ...any) {
		if ver != w.cat.version { // meanwhile; comparing takes time, too
			e.Probe("catalog-changed-during-listing")
			return
		}
		e.Failf(class, format, args...)
	}
	if call.Kind == "fks" {
		fks, err := p.ListForeignKeys(ctx, call.Schemas, call.Tables)
		e.Logf("%s: %d keys, %v", what, len(fks), err)
		if err != nil {
			if !faulted() {
				e.Failf("error-without-cause", "%s: %v although nothing failed", what, err)
			}
			return
		}
		if ver != w.cat.version {
			e.Probe("catalog-changed-during-listing")
			return
		}
		var got, want []string
		for _, k := range fks {
			if k.SchemaName != k.Schema+"."+k.Table+"."+k.Name {
				failf("wrong-listing", "%s: key %s has SchemaName %q", what, k.Name, k.SchemaName)
			}
			got = append(got, fkText(k))
		}
		for _, t := range w.cat.live() {
			if t.Kind == "view" || !foldIn(call.Schemas, t.Schema) || !foldIn(call.Tables, t.Name) {
				continue
			}
			for _, c := range wantOf(t, w.d).Cols {
				want = append(want, c.Refs...)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if a, b := strings.Join(got, "\n"), strings.Join(want, "\n"); a != b {
			failf("wrong-listing", "%s: foreign keys\n%s\nwant\n%s", what, a, b)
		}
		return strings.Join(got, "\n")
	}
	var tt schema.Tables
	var err error
	if call.Kind == "views" {
		tt, err = p.ListViews(ctx, call.Schemas, call.Tables)
	} else {
		tt, err = p.ListTables(ctx, call.Schemas, call.Tables, call.Deps)
	}
	e.Logf("%s: %d tables, %v", what, len(tt), err)
	if err != nil {
		if !faulted() && !(call.Kind == "views" && w.zeroColView(call)) {
			e.Failf("error-without-cause", "%s: %v although nothing failed", what, err)
		}
		return
	}
	if ver != w.cat.version {
		e.Probe("catalog-changed-during-listing")
		return
	}
	want, direct := w.cat.expected(w.d, call)
	var gotN, wantN []string
	for _, t := range tt {
		if call.Kind == "views" && t != nil && len(t.Columns) == 0 && w.zeroColView(call) {
			continue // a view without columns may be listed or not
		}
		gotN = append(gotN, t.Schema+"."+t.Name)
	}
	for _, t := range want {
		wantN = append(wantN, t.Schema+"."+t.Name)
	}
	if fmt.Sprint(gotN) != fmt.Sprint(wantN) {
		class := "wrong-listing"
		if call.Deps {
			class = "wrong-closure"
		}
		failf(class, "%s: lists %q, want %q", what, gotN, wantN)
		return
	}
	var b strings.Builder
	k := 0
	for _, t := range tt {
		if call.Kind == "views" && len(t.Columns) == 0 && w.zeroColView(call) {
			continue
		}
		wt := want[k]
		k++
		if msg := checkTable(t, wantOf(wt, w.d), call.Kind == "views", wt.listed(w.d) && call.Kind == "tables", call.Deps); msg != "" {
			failf("wrong-listing", "%s: %s", what, msg)
			return
		}
		fmt.Fprintf(&b, "%s\n", t.SchemaName)
		for _, c := range t.Columns {
			r := ""
			if c.Ref != nil && call.Deps {
				r = fkText(c.Ref)
			}
			fmt.Fprintf(&b, " %s %s %v %s\n", c.Name, c.UdtType, c.Indexes.Names(), r)
		}
		for _, x := range t.Indexes {
			fmt.Fprintf(&b, " %s %v\n", x.Name, x.ColumnNames)
		}
	}
	if call.Deps && len(want) > len(direct) {
		e.Probe("dependencies-followed")
	}
	return b.String()
}

func schRun(e *Env, c schCase, same bool) {
	w := newSchWorld(e, c.Dialect, c.Tables)
	w.srv.faults = c.Faults
	if c.VanishAt > 0 {
		w.cat.onQuery = func(n int) {
			if n == c.VanishAt && c.Vanish < len(w.cat.Tables) {
				e.Fault("table-dropped-meanwhile")
				w.cat.Tables[c.Vanish].Gone = true
				// What refers to it goes with it.
				for _, t := range w.cat.Tables {
					var keep []catFK
					for _, f := range t.FKs {
						if f.RefSchema != w.cat.Tables[c.Vanish].Schema || f.RefTable != w.cat.Tables[c.Vanish].Name {
							keep = append(keep, f)
						}
					}
					t.FKs = keep
				}
				w.cat.version++
			}
		}
	}
	db := w.srv.OpenDB(c.Pool)
	defer db.Close()
	var target xdb.DB = db
	if c.InTx {
		tx, err := db.Begin()
		if err != nil {
			return
		}
		defer tx.Rollback()
		target = tx
	}
	p := schema.NewProvider(target, c.Dialect)
	if p.Name() != c.Dialect {
		e.Failf("wrong-name", "the provider's name is %q", p.Name())
	}
	answers := map[string]string{}
	lost := false
	var wg sync.WaitGroup
	for wi, calls := range c.Workers {
		wg.Add(1)
		e.Go("worker", wg.Done, func() {
			for k, call := range calls {
				if e.Failed() {
					return
				}
				ctx, cancel := opCtx()
				if c.Deadline > 0 {
					var stop context.CancelFunc
					ctx, stop = context.WithTimeout(ctx, time.Duration(c.Deadline)*time.Millisecond)
					defer stop()
				}
				f0 := 0
				if len(c.Workers) == 1 {
					f0 = sum(e.Faults)
				}
				what := fmt.Sprintf("worker %d call %d %s schemas=%q tables=%q deps=%v", wi, k, call.Kind, call.Schemas, call.Tables, call.Deps)
				v := w.cat.version
				start := time.Now()
				t := w.call(ctx, p, what, call, func() bool { return lost || sum(e.Faults) > f0 || start.Before(w.srv.downTo) })
				if d := time.Since(start); c.Deadline > 0 && d > time.Duration(c.Deadline)*time.Millisecond+time.Minute {
					e.Failf("ignores-deadline", "%s: returned after %v, its context ended after %d ms", what, d, c.Deadline)
				}
				if c.InTx && sum(e.Faults) > f0 {
					lost = true // the transaction may be gone
				}
				cancel()
				key := fmt.Sprintf("%d %s %q %q %v", v, call.Kind, call.Schemas, call.Tables, call.Deps)
				if t != "" && v == w.cat.version {
					if o, ok := answers[key]; ok && o != t {
						e.Failf("not-repeatable", "%s: answered\n%s\nearlier\n%s", what, t, o)
					} else if ok {
						e.Probe("call-repeated")
					}
					answers[key] = t
				}
			}
		})
	}
	wg.Wait()
}

func init() {
	real := []string{"schema/provider.go", "schema/postgres.go", "schema/sqlserver.go", "schema/schema.go", "database/sql"}
	stub := []string{"database server: catalog relations with a small SQL evaluator for the catalog queries", "clock, goroutine scheduler"}
	assume := []string{"names contain neither dots nor commas", "the order of the columns within an index is not judged", "a query that the evaluator cannot read is answered by what it evidently lists (counted as catalog-query-answered-by-kind)"}
	reg(&Prop{ID: "C18", Title: "schema listings", Runs: 30000, Real: real, Stub: stub, Assume: assume,
		Rule: "Catalogs of up to 8 tables, views, foreign and system tables in several schemas with equal names, quoted names, composite and hidden index columns, foreign keys of equal names; 1-2 workers list tables, views and keys with filters on pools of 1-3 connections or inside a transaction, with failures while reading and tables dropped in between; every successful answer is compared with the catalog."},
		func(r *R, tier string) schCase { return schGen(r, tier, 20, 2) }, func(e *Env, c schCase) { schRun(e, c, false) })
	reg(&Prop{ID: "C19", Title: "dependency listings", Runs: 30000, Real: real, Stub: stub, Assume: assume,
		Rule: "As for C18, with dependency listings over random foreign-key graphs (cycles, self references, several keys on a column), up to 3 concurrent workers and repeated calls on one object; the answer must be the closure and equal calls must give equal answers."},
		func(r *R, tier string) schCase { return schGen(r, tier, 100, 3) }, func(e *Env, c schCase) { schRun(e, c, true) })
}

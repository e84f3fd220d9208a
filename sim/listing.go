package main

import (
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
)

// lists compares what a listing command printed with the catalog.
func (g *genResult) lists(w *schWorld, o *genOpt) string {
	kind, deps := "tables", o.Deps
	switch o.Cmd {
	case "tables":
		deps = true
	case "views":
		kind = "views"
	case "fks":
		return g.listsKeys(w, o)
	}
	var want []*catTable
	add := func(kind string, deps bool) {
		ts, _ := w.cat.expected(w.d, schCall{Kind: kind, Schemas: o.Schemas, Tables: o.Tables, Deps: deps})
		want = append(want, ts...)
	}
	add(kind, deps)
	if o.WithViews && kind == "tables" {
		add("views", false)
	}
	if o.Format == "json" || o.Format == "yaml" {
		var got schema.Tables
		if err := decodeAll(g.Stdout, o.Format, func(f func(any) error) error {
			var x schema.Tables
			err := f(&x)
			got = append(got, x...)
			return err
		}); err != nil {
			return fmt.Sprintf("the output is not %s: %v", o.Format, err)
		}
		if len(got) != len(want) {
			return fmt.Sprintf("%d tables are listed, want %d", len(got), len(want))
		}
		for i, t := range got {
			relink(t)
			if p := checkTable(t, wantOf(want[i], w.d), want[i].Kind == "view", want[i].listed(w.d), false); p != "" {
				return p
			}
		}
		return ""
	}
	if o.Cmd != "columns" {
		var ws string
		for _, t := range want {
			ws += t.Schema + "." + t.Name + "\n"
		}
		if g.Stdout != ws {
			return fmt.Sprintf("lists %q, want %q", g.Stdout, ws)
		}
		return ""
	}
	// Tables of columns and indexes.
	var blocks []string
	for i, b := range strings.Split("\n"+g.Stdout, "\nSchema: ") {
		if i > 0 {
			blocks = append(blocks, b)
		} else if strings.TrimSpace(b) != "" {
			return fmt.Sprintf("unexpected text %q", b)
		}
	}
	if len(blocks) != len(want) {
		return fmt.Sprintf("%d tables are listed, want %d", len(blocks), len(want))
	}
	for i, b := range blocks {
		t := want[i]
		if head := t.Schema + "\nTable: " + t.Name + "\n"; !strings.HasPrefix(b, head) {
			return fmt.Sprintf("%q is listed, want %s.%s", b[:min(len(b), 40)], t.Schema, t.Name)
		}
		cols, idx, _ := strings.Cut(b, "\nIndexes:\n")
		gc, gi := cells(cols), cells(idx)
		var wc [][]string
		var refs [][]string
		wt := wantOf(t, w.d)
		for k, c := range t.Cols {
			if c.Hidden {
				continue
			}
			max, ix, null := "", "", ""
			if c.Max > 0 {
				max = strconv.Itoa(c.Max)
			}
			for _, x := range t.Idx {
				for _, n := range x.Cols {
					if n == c.Name {
						ix = "YES"
					}
				}
			}
			if c.Nullable {
				null = "YES"
			}
			wc = append(wc, []string{strconv.FormatInt(t.pos(k), 10), c.Name, c.Type, c.Udt, null, max, ix})
			rs := []string{""}
			if deps && t.Kind != "view" {
				for k, r := range wt.Cols[len(wc)-1].Refs {
					if k == 0 {
						rs = nil
					}
					_, to, _ := strings.Cut(r, " -> ")
					rs = append(rs, to)
				}
			}
			refs = append(refs, rs)
		}
		if len(gc) != len(wc) {
			return fmt.Sprintf("%s: %d columns are listed, want %d", wt.Head, len(gc), len(wc))
		}
		for k, c := range gc {
			if len(c) != 8 || fmt.Sprintf("%q", c[:7]) != fmt.Sprintf("%q", wc[k]) {
				return fmt.Sprintf("%s: column is listed as %q, want %q", wt.Head, c, wc[k])
			}
			ok := !deps || t.Kind == "view"
			for _, r := range refs[k] {
				ok = ok || r == c[7]
			}
			if !ok {
				return fmt.Sprintf("%s: column %s refers to %q, want one of %q", wt.Head, c[1], c[7], refs[k])
			}
		}
		if t.Kind == "view" {
			continue
		}
		var gx, wx []string
		for _, c := range gi {
			if len(c) == 4 {
				cs := strings.Split(c[3], ", ")
				sort.Strings(cs)
				c[3] = strings.Join(cs, ", ")
			}
			gx = append(gx, fmt.Sprintf("%q", c))
		}
		for _, x := range t.Idx {
			cs := append([]string{}, x.Cols...)
			sort.Strings(cs)
			f := func(b bool) string {
				if b {
					return "YES"
				}
				return ""
			}
			wx = append(wx, fmt.Sprintf("%q", []string{x.Name, f(x.Primary), f(x.Unique), strings.Join(cs, ", ")}))
		}
		sort.Strings(gx)
		sort.Strings(wx)
		if a, b := strings.Join(gx, "\n"), strings.Join(wx, "\n"); a != b {
			return fmt.Sprintf("%s: indexes are listed as\n%s\nwant\n%s", wt.Head, a, b)
		}
	}
	return ""
}

func (g *genResult) listsKeys(w *schWorld, o *genOpt) string {
	var got, want []string
	key := func(name, s, t, c, rs, rt, rc string) string {
		return fmt.Sprintf("%s: %s.%s.%s -> %s.%s.%s", name, s, t, c, rs, rt, rc)
	}
	if o.Format == "json" || o.Format == "yaml" {
		if err := decodeAll(g.Stdout, o.Format, func(f func(any) error) error {
			var x schema.ForeignKeys
			err := f(&x)
			for _, k := range x {
				got = append(got, key(k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn))
			}
			return err
		}); err != nil {
			return fmt.Sprintf("the output is not %s: %v", o.Format, err)
		}
	} else {
		for _, c := range cells(g.Stdout) {
			if len(c) != 7 {
				return fmt.Sprintf("a key is listed as %q", c)
			}
			got = append(got, key(c[0], c[1], c[2], c[3], c[4], c[5], c[6]))
		}
	}
	for _, t := range w.cat.live() {
		if t.Kind == "view" || !foldIn(o.Schemas, t.Schema) || !foldIn(o.Tables, t.Name) {
			continue
		}
		for _, c := range wantOf(t, w.d).Cols {
			want = append(want, c.Refs...)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if a, b := strings.Join(got, "\n"), strings.Join(want, "\n"); a != b {
		return fmt.Sprintf("foreign keys are listed as\n%s\nwant\n%s", a, b)
	}
	return ""
}

// decodeAll reads the documents of an output.
func decodeAll(s, format string, one func(func(any) error) error) error {
	if format == "yaml" {
		if rest, ok := strings.CutPrefix(s, "[]\n"); ok { // nothing, and then a second list
			s = rest
		}
		return one(func(x any) error { return yaml.Unmarshal([]byte(s), x) })
	}
	d := json.NewDecoder(strings.NewReader(s))
	for {
		if err := one(d.Decode); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
	}
}

// relink restores what is not written out.
func relink(t *schema.Table) {
	if t == nil {
		return
	}
	t.SchemaName = t.Schema + "." + t.Name
	for _, x := range t.Indexes {
		x.SchemaName = t.SchemaName + "." + x.Name
	}
	for _, c := range t.Columns {
		c.SchemaName = t.SchemaName + "." + c.Name
		for _, x := range t.Indexes {
			for _, n := range x.ColumnNames {
				if n == c.Name {
					c.Indexes = append(c.Indexes, x)
				}
			}
		}
		if t.PrimaryKey != nil && t.PrimaryKey.Name == c.Name {
			t.PrimaryKey = c
		}
	}
}

// cells reads the rows of a printed table, without its header.
func cells(s string) (rows [][]string) {
	first := true
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "│") {
			continue
		}
		if first {
			first = false
			continue
		}
		f := strings.Split(strings.TrimSuffix(strings.TrimPrefix(l, "│"), "│"), "│")
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		rows = append(rows, f)
	}
	return
}

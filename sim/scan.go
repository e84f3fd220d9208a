package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/effective-security/xdb"
)

// ------------------------------------------------------------------- C06

// cell is one database value.
type cell struct {
	K string  `json:"k"` // null int u64 goint uint str bytes float f32 bool time
	I int64   `json:"i,omitempty"`
	F float64 `json:"f,omitempty"`
	S string  `json:"s,omitempty"`
}

func (c cell) val() any {
	switch c.K {
	case "int":
		return c.I
	case "u64":
		return uint64(c.I)
	case "goint":
		return int(c.I)
	case "uint":
		return uint(c.I)
	case "float":
		return c.F
	case "f32":
		return float32(c.F)
	case "bool":
		return c.I != 0
	case "str":
		return c.S
	case "bytes":
		return []byte(c.S)
	case "time":
		return time.Unix(c.I, int64(c.F)).In(time.FixedZone("x", int(c.I%13)*1800))
	}
	return nil
}

// scanVars has one variable of every column type the library provides.
type scanVars struct {
	ID    xdb.ID
	ID32  xdb.ID32
	I64   xdb.Int64
	I32   xdb.Int32
	F     xdb.Float
	B     xdb.Bool
	NS    xdb.NULLString
	U     xdb.UUID
	Strs  xdb.Strings
	Meta  xdb.Metadata
	KV    xdb.KVSet
	T     xdb.Time
	IDs   xdb.IDArray
	Plain int64
}

var scanCols = []string{"id", "id32", "i64", "i32", "f", "b", "ns", "u", "strs", "meta", "kv", "t", "ids"}

func (v *scanVars) ptr(k int) sql.Scanner {
	switch k {
	case 0:
		return &v.ID
	case 1:
		return &v.ID32
	case 2:
		return &v.I64
	case 3:
		return &v.I32
	case 4:
		return &v.F
	case 5:
		return &v.B
	case 6:
		return &v.NS
	case 7:
		return &v.U
	case 8:
		return &v.Strs
	case 9:
		return &v.Meta
	case 10:
		return &v.KV
	case 11:
		return &v.T
	default:
		return &v.IDs
	}
}

func mapText[V any](m map[string]V) string {
	if m == nil {
		return "nil"
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%#v ", k, m[k])
	}
	return "{" + sb.String() + "}"
}

// text renders one variable completely.
func (v *scanVars) text(k int) string {
	switch k {
	case 0:
		return fmt.Sprintf("%d %q %v", v.ID.UInt64(), v.ID.String(), v.ID.IsZero())
	case 9:
		return mapText(v.Meta)
	case 10:
		return mapText(v.KV)
	case 11:
		return fmt.Sprintf("%d %v", time.Time(v.T).UnixNano(), time.Time(v.T).IsZero())
	case 12:
		if v.IDs == nil {
			return "nil"
		}
		return fmt.Sprint(v.IDs.List())
	}
	return fmt.Sprintf("%#v", reflect.ValueOf(v.ptr(k)).Elem().Interface())
}

type c06Row struct {
	Cells []cell `json:"cells"`
	Ops   []int  `json:"ops,omitempty"` // changes made to the variables after the row
}

type c06Case struct {
	Rows    []c06Row  `json:"rows"`
	Readers []string  `json:"readers"` // row or col
	Pool    int       `json:"pool"`
	Faults  []dbFault `json:"faults"`
}

func c06Cell(r *R, k int) cell {
	if r.P(25) {
		return cell{K: "null"}
	}
	if r.P(6) { // a value of some other type
		return pick(r, cell{K: "str", S: "zz"}, cell{K: "bytes", S: "\x01\x02"}, cell{K: "int", I: 7}, cell{K: "float", F: 1.5}, cell{K: "bool", I: 1}, cell{K: "time", I: 5})
	}
	num := func() int64 {
		return pick(r, 0, 1, 2, 42, int64(r.Intn(1000)), int64(r.U64()>>uint(1+r.Intn(60))))
	}
	ints := "int"
	if k < 6 && r.P(25) { // other integers drivers return
		ints = pick(r, "u64", "goint", "uint")
	}
	switch k {
	case 0, 2:
		return cell{K: ints, I: num()}
	case 1, 3:
		return cell{K: ints, I: num() & 0x7fffffff}
	case 4:
		if ints != "int" {
			return pick(r, cell{K: ints, I: num() & 0xffff}, cell{K: "f32", F: float64(r.Intn(100)) / 4})
		}
		return pick(r, cell{K: "float", F: float64(r.Intn(100)) / 4}, cell{K: "bytes", S: "2.5"}, cell{K: "bytes", S: "x"}, cell{K: "int", I: num() & 0xffff})
	case 5:
		return pick(r, cell{K: "bool"}, cell{K: "bool", I: 1}, cell{K: ints, I: int64(r.Intn(2))})
	case 6:
		s := pick(r, "", "a", "bc", fmt.Sprintf("s%d", r.Intn(100)))
		return cell{K: pick(r, "str", "bytes"), S: s}
	case 7:
		b := fmt.Sprintf("%016x", r.U64())
		return pick(r, cell{K: "bytes", S: b}, cell{K: "str", S: b}, cell{K: "bytes", S: b[:r.Intn(16)]}, cell{K: "bytes", S: b + "x"}, cell{K: "str", S: ""})
	case 8:
		return cell{K: "str", S: pick(r, "", "[]", `["a"]`, `["a","b"]`, `["x","y","z","w"]`, `["x",null,"z"]`, `[null]`, "null", `["a",`, `{"a":1}`, `["a",5]`)}
	case 9:
		return cell{K: pick(r, "str", "bytes"), S: pick(r, "", "{}", `{"a":"1"}`, `{"a":"2","b":"3"}`, `{"c":"4"}`, `{"a":null}`, "null", `{"a":"9",`, `{"a":"8","b":5}`, `[]`)}
	case 10:
		return cell{K: pick(r, "str", "bytes"), S: pick(r, "", "{}", `{"a":["1"]}`, `{"a":["2","3"],"b":[]}`, `{"c":["4"]}`, `{"a":null}`, "null", `{"a":["9"],`, `{"a":[null,"5"]}`, `{"a":["7"],"b":5}`)}
	case 11:
		return pick(r, cell{K: "time", I: int64(r.Intn(1 << 31)), F: float64(r.Intn(1000)) * 1e6}, cell{K: "str", S: "2024-02-03T04:05:06Z"}, cell{K: "str", S: "nonsense"}, cell{K: "str", S: ""})
	default:
		return cell{K: pick(r, "str", "bytes"), S: pick(r, "{}", "{1}", "{1,2,3}", "{9,8}", "{1,NULL}", "{1,x}", "", "{5,5}")}
	}
}

func c06Gen(r *R, tier string) c06Case {
	c := c06Case{Pool: pick(r, 1, 2, 0)}
	var cols []int // the columns in play; the others stay null
	for k := range scanCols {
		if r.P(45) {
			cols = append(cols, k)
		}
	}
	if len(cols) == 0 {
		cols = []int{r.Intn(len(scanCols))}
	}
	for i, n := 0, r.Range(2, 7); i < n; i++ {
		row := c06Row{Cells: make([]cell, len(scanCols))}
		for k := range row.Cells {
			row.Cells[k] = cell{K: "null"}
		}
		for _, k := range cols {
			row.Cells[k] = c06Cell(r, k)
		}
		for r.P(25) {
			row.Ops = append(row.Ops, r.Intn(9))
		}
		c.Rows = append(c.Rows, row)
	}
	for i, n := 0, pick(r, 1, 1, 2, 3); i < n; i++ {
		c.Readers = append(c.Readers, pick(r, "row", "col", "col"))
	}
	if r.P(30) {
		c.Faults = genFaults(r, []string{"next", "query", "close"}, []string{"err", "drop", "slow", "cancel"}, 10)
	}
	return c
}

// grab keeps a driver value as database/sql hands it to a Scanner.
type grab struct{ v any }

func (g *grab) Scan(v any) error {
	if b, ok := v.([]byte); ok {
		v = append([]byte{}, b...)
	}
	g.v = v
	return nil
}

func c06Run(e *Env, c c06Case) {
	srv := newServer(e, e.Seed, "postgres")
	var defs []string
	for _, n := range scanCols {
		defs = append(defs, n+" any")
	}
	tab := srv.addTable("vals", defs...)
	for _, r := range c.Rows {
		if len(r.Cells) != len(scanCols) {
			return
		}
		row := make([]val, len(scanCols))
		for k := range row {
			row[k] = r.Cells[k].val()
		}
		tab.Rows = append(tab.Rows, row)
	}
	srv.faults = c.Faults
	db := srv.OpenDB(c.Pool)
	defer db.Close()
	var wg sync.WaitGroup
	for ri, mode := range c.Readers {
		wg.Add(1)
		e.Go("reader", wg.Done, func() {
			// Two passes with the same variables.
			var vars scanVars
			var handed []scanVars
			var handedText [][]string
			check := func(when string) {
				for i := range handed {
					for k := range scanCols {
						if t := handed[i].text(k); t != handedText[i][k] {
							e.Failf("handed-out-changed", "reader %d: %s handed out as %s reads %s after %s", ri, scanCols[k], handedText[i][k], t, when)
							return
						}
					}
				}
			}
			for pass := 0; pass < 2 && !e.Failed(); pass++ {
				ctx, cancel := opCtx()
				rows, err := db.QueryContext(ctx, "SELECT "+strings.Join(scanCols, ", ")+" FROM vals")
				if err != nil {
					cancel()
					continue
				}
				for i := 0; rows.Next() && !e.Failed(); i++ {
					if i >= len(c.Rows) {
						break
					}
					e.Op()
					c06One(e, rows, mode, c.Rows[i], &vars, fmt.Sprintf("reader %d pass %d row %d", ri, pass, i))
					check(fmt.Sprintf("reading row %d", i))
					handed = append(handed, vars)
					var ts []string
					h := &handed[len(handed)-1]
					for k := range scanCols {
						ts = append(ts, h.text(k))
					}
					handedText = append(handedText, ts)
					for _, o := range c.Rows[i].Ops {
						what := c06Mutate(&vars, o)
						check(what)
					}
				}
				rows.Close()
				cancel()
				check("closing the rows")
			}
		})
	}
	wg.Wait()
}

// c06One reads the current row into vars and compares with fresh variables.
func c06One(e *Env, rows *sql.Rows, mode string, r c06Row, vars *scanVars, what string) {
	var raws [13]grab
	dst := make([]any, len(scanCols))
	for k := range raws {
		dst[k] = &raws[k]
	}
	if err := rows.Scan(dst...); err != nil {
		return // the row was lost
	}
	var fresh scanVars
	var errs [13]error
	any1 := false
	for k := range scanCols {
		errs[k] = fresh.ptr(k).Scan(raws[k].v)
		any1 = any1 || errs[k] != nil
	}
	for k := range scanCols {
		want, bad, known := scanWant(k, raws[k].v)
		switch {
		case !known:
		case bad && errs[k] == nil:
			e.Failf("bad-value-accepted", "%s: %s read from %s is %s, not an error", what, scanCols[k], show(raws[k].v), fresh.text(k))
		case !bad && errs[k] != nil:
			e.Failf("value-refused", "%s: %s cannot be read from %s: %v", what, scanCols[k], show(raws[k].v), errs[k])
		case !bad && fresh.text(k) != want:
			e.Failf("wrong-value", "%s: %s read from %s is %s, not %s", what, scanCols[k], show(raws[k].v), fresh.text(k), want)
		default:
			e.Probe("value-known")
		}
	}
	cmp := func(k int) {
		if got, want := vars.text(k), fresh.text(k); got != want {
			e.Failf("carry-over", "%s: %s read from %s is %s; a fresh variable reads %s", what, scanCols[k], show(raws[k].v), got, want)
		}
		if raws[k].v == nil {
			var zero scanVars
			if got, want := vars.text(k), zero.text(k); got != want {
				e.Failf("null-carry-over", "%s: %s read from NULL is %s", what, scanCols[k], got)
			}
		}
	}
	if mode == "row" {
		for k := range dst {
			dst[k] = vars.ptr(k)
		}
		err := rows.Scan(dst...)
		if (err != nil) != any1 {
			// A canceled query closes the rows.
			if err != nil && (strings.Contains(err.Error(), "Rows are closed") || strings.Contains(err.Error(), context.Canceled.Error())) {
				return
			}
			e.Failf("scan-error", "%s: scanning into used variables: %v; into fresh ones: %v", what, err, errs)
			return
		}
		if err != nil {
			e.Probe("row-rejected")
			return
		}
		for k := range scanCols {
			cmp(k)
		}
		return
	}
	for k := range scanCols {
		before := vars.text(k)
		err := vars.ptr(k).Scan(raws[k].v)
		if (err != nil) != (errs[k] != nil) {
			e.Failf("scan-error", "%s: %s from %s: %v into a used variable, %v into a fresh one", what, scanCols[k], show(raws[k].v), err, errs[k])
			return
		}
		if err != nil {
			e.Probe("value-rejected")
			continue
		}
		cmp(k)
		if raws[k].v == nil && before != vars.text(k) {
			e.Probe("null-after-value")
		}
	}
}

// scanWant says what a variable reads from a value, for the values whose meaning
// is beyond doubt: the text of the variable, or that the value cannot be read.
func scanWant(k int, v any) (want string, bad, known bool) {
	var w scanVars
	if v == nil {
		return w.text(k), false, true
	}
	str, isStr := v.(string)
	if b, ok := v.([]byte); ok {
		str = string(b)
	}
	_, isBytes := v.([]byte)
	text := isStr || isBytes
	ok := true
	switch x := v.(type) {
	case uint64:
		v = int64(x)
	case int:
		v = int64(x)
	case uint:
		v = int64(x)
	case float32:
		v = float64(x)
	}
	switch k {
	case 0, 1, 2, 3:
		n, is := v.(int64)
		if !is || n < 0 || (k%2 == 1 && n > 1<<31-1) {
			return "", false, false
		}
		w.ID, w.ID32, w.I64, w.I32 = xdb.NewID(uint64(n)), xdb.ID32(n), xdb.Int64(n), xdb.Int32(n)
	case 4:
		switch x := v.(type) {
		case float64:
			w.F = xdb.Float(x)
		case int64:
			w.F = xdb.Float(x)
		case []byte:
			f, err := strconv.ParseFloat(str, 64)
			w.F, ok = xdb.Float(f), err == nil
		default:
			return "", false, false
		}
	case 5:
		switch x := v.(type) {
		case bool:
			w.B = xdb.Bool(x)
		case int64:
			if x != 0 && x != 1 {
				return "", false, false
			}
			w.B = x == 1
		default:
			return "", false, false
		}
	case 6:
		if !text {
			return "", false, false
		}
		w.NS = xdb.NULLString(str)
	case 7:
		switch {
		case isStr:
			w.U = xdb.UUID(str)
		case isBytes && len(str) == 16:
			g := []byte(str) // the first three groups are little-endian
			slices.Reverse(g[:4])
			slices.Reverse(g[4:6])
			slices.Reverse(g[6:8])
			w.U = xdb.UUID(strings.ToUpper(fmt.Sprintf("%x-%x-%x-%x-%x", g[:4], g[4:6], g[6:8], g[8:10], g[10:])))
		case isBytes:
			ok = false
		default:
			return "", false, false
		}
	case 8:
		if !isStr {
			return "", false, false
		}
		if str == "" {
			w.Strs = xdb.Strings{}
			break
		}
		var l []string
		ok = json.Unmarshal([]byte(str), &l) == nil
		w.Strs = l
	case 9:
		if !text {
			return "", false, false
		}
		m := map[string]string{}
		if str != "" {
			m = nil
			ok = json.Unmarshal([]byte(str), &m) == nil
		}
		w.Meta = m
	case 10:
		if !text {
			return "", false, false
		}
		m := map[string][]string{}
		if str != "" {
			m = nil
			ok = json.Unmarshal([]byte(str), &m) == nil
		}
		w.KV = m
	case 11:
		t, is := v.(time.Time)
		if !is {
			if !isStr || str == "nonsense" {
				return "", false, false
			}
			if str == "" {
				break
			}
			var err error
			if t, err = time.Parse(time.RFC3339Nano, str); err != nil {
				return "", false, false
			}
		}
		w.T = xdb.Time(t.UTC())
	case 12:
		if !text || str == "" {
			return "", false, false
		}
		if str[0] != '{' || str[len(str)-1] != '}' {
			return "", true, true
		}
		if str == "{}" {
			return "", false, false // no list or an empty one
		}
		for _, f := range strings.Split(str[1:len(str)-1], ",") {
			n, err := strconv.ParseInt(f, 10, 64)
			if err != nil {
				return "", true, true
			}
			w.IDs = append(w.IDs, xdb.NewID(uint64(n)))
		}
	}
	return w.text(k), !ok, true
}

func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case []byte:
		return fmt.Sprintf("bytes %q", x)
	case string:
		return fmt.Sprintf("string %q", x)
	}
	return fmt.Sprintf("%T %v", v, v)
}

// c06Mutate changes one of the variables.
func c06Mutate(v *scanVars, o int) string {
	switch o {
	case 0:
		_ = v.ID.Set("987654")
		return "ID.Set"
	case 1:
		v.ID.Reset()
		return "ID.Reset"
	case 2:
		_ = v.ID.UnmarshalJSON([]byte(`"123"`))
		return "ID.UnmarshalJSON"
	case 3:
		_ = v.ID.Set("junk")
		return "failing ID.Set"
	case 4:
		_ = v.ID.Scan(int64(31337))
		return "ID.Scan"
	case 5:
		_ = v.Strs.Scan(`["q","r","s"]`)
		return "Strings.Scan"
	case 6:
		_ = v.Meta.Scan(`{"a":"zzz","new":"1"}`)
		return "Metadata.Scan"
	case 7:
		_ = v.KV.Scan(`{"a":["zzz"],"new":["1"]}`)
		return "KVSet.Scan"
	default:
		_ = v.IDs.Scan("{77,78,79}")
		return "IDArray.Scan"
	}
}

func init() {
	reg(&Prop{ID: "C06", Title: "scan", Runs: 40000, Real: []string{"types.go", "id.go", "time.go", "database/sql", "lib/pq arrays"}, Stub: []string{"database server and driver (simulated; reuses its row buffers)"},
		Rule: "Sequences of 2-7 rows over the 13 column types, with nulls, odd shapes and malformed values, are read twice into the same variables by 1-3 readers, under read faults and cancellation; every read is compared with a fresh variable and every value handed out before is compared with what it was. Copies are changed in between."}, c06Gen, c06Run)
}

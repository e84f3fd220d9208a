package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"maps"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/effective-security/xdb"
)

// ------------------------------------------------------------------- C24

// Clients send partial updates of shared models to nodes, which read the row,
// merge the update into it and write it back if nobody else wrote it
// meanwhile. The row lists the updates it holds, so what it must contain
// follows from itself: the fields of those updates, in that order.

type c24Sub struct {
	A    int64             `json:"a,omitempty"`
	ID   uint64            `json:"id,omitempty"`
	T    int64             `json:"t,omitempty"` // ms
	Meta map[string]string `json:"meta,omitempty"`
}

// c24Set is a set of fields: those that are not zero.
type c24Set struct {
	Rec  c22Rec            `json:"rec"`
	N    int               `json:"n,omitempty"`
	Name string            `json:"name,omitempty"`
	Note string            `json:"note,omitempty"` // a pointer in the model
	At   int64             `json:"at,omitempty"`   // ms; a time.Time in the model
	Raw  string            `json:"raw,omitempty"`
	Sub  c24Sub            `json:"sub"`
	P    c24Sub            `json:"p"` // a pointer in the model
	Tags map[string]int64  `json:"tags,omitempty"`
	Refs map[string]uint64 `json:"refs,omitempty"`
	PT   int64             `json:"pt,omitempty"`  // a pointer in the model
	PID  uint64            `json:"pid,omitempty"` // a pointer in the model
	NT   int64             `json:"nt,omitempty"`  // a sql.NullTime
	NI   int64             `json:"ni,omitempty"`  // a sql.NullInt64
	Made int64             `json:"made,omitempty"`
	By   uint64            `json:"by,omitempty"`
}

type c24Upd struct {
	K      int    `json:"k"`
	Client int    `json:"client"`
	Ptr    bool   `json:"ptr,omitempty"` // the update is passed by pointer
	Bad    int    `json:"bad,omitempty"` // a wrong call before the right one
	Set    c24Set `json:"set"`
}

type c24Case struct {
	Pool    int       `json:"pool"`
	Base    []c24Set  `json:"base"`
	Clients int       `json:"clients"`
	Upds    []c24Upd  `json:"upds"`
	Faults  []dbFault `json:"faults,omitempty"`
}

// The model.
type c24SubM struct {
	A    xdb.Int64
	ID   xdb.ID
	T    xdb.Time
	Meta xdb.Metadata
}

type c24Ext struct {
	N    int
	Name string
	Note *string
	At   time.Time
	Raw  []byte
	Sub  c24SubM
	P    *c24SubM
	Tags map[string]xdb.Time
	Refs map[string]xdb.ID
	PT   *xdb.Time
	PID  *xdb.ID
	NT   sql.NullTime
	NI   sql.NullInt64
	C24Made
}

// C24Made is embedded.
type C24Made struct {
	Made xdb.Time
	By   *xdb.ID
}

type c24Row struct {
	ID   xdb.ID
	ID32 xdb.ID32
	I64  xdb.Int64
	I32  xdb.Int32
	F    xdb.Float
	B    xdb.Bool
	NS   xdb.NULLString
	U    xdb.UUID
	Strs xdb.Strings
	Meta xdb.Metadata
	KV   xdb.KVSet
	T    xdb.Time
	IDs  xdb.IDArray
	Ext  c24Ext
}

func (m *c24Row) args() []any {
	return []any{m.ID, m.ID32, m.I64, m.I32, m.F, m.B, m.NS, m.U, m.Strs, m.Meta, m.KV, m.T, m.IDs}
}

func (m *c24Row) dest() []any {
	return []any{&m.ID, &m.ID32, &m.I64, &m.I32, &m.F, &m.B, &m.NS, &m.U, &m.Strs, &m.Meta, &m.KV, &m.T, &m.IDs}
}

func (s c24Sub) model() c24SubM {
	m := c24SubM{A: xdb.Int64(s.A), ID: xdb.NewID(s.ID), Meta: maps.Clone(s.Meta)}
	if s.T != 0 {
		m.T = xdb.FromUnixMilli(s.T)
	}
	return m
}

func (s c24Sub) zero() bool { return s.A == 0 && s.ID == 0 && s.T == 0 && len(s.Meta) == 0 }

func (s c24Set) model() *c24Row {
	b := s.Rec.msg(0, 0)
	m := &c24Row{ID: b.ID, ID32: b.ID32, I64: b.I64, I32: b.I32, F: b.F, B: b.B, NS: b.NS, U: b.U, Strs: slices.Clone(b.Strs), Meta: maps.Clone(b.Meta), KV: maps.Clone(b.KV), T: b.T, IDs: b.IDs}
	x := &m.Ext
	x.N, x.Name, x.Sub = s.N, s.Name, s.Sub.model()
	if s.Note != "" {
		x.Note = &s.Note
	}
	if s.At != 0 {
		x.At = time.UnixMilli(s.At).UTC()
	}
	if s.Raw != "" {
		x.Raw = []byte(s.Raw)
	}
	if !s.P.zero() {
		p := s.P.model()
		x.P = &p
	}
	for k, v := range s.Tags {
		if x.Tags == nil {
			x.Tags = map[string]xdb.Time{}
		}
		x.Tags[k] = xdb.FromUnixMilli(v)
	}
	for k, v := range s.Refs {
		if x.Refs == nil {
			x.Refs = map[string]xdb.ID{}
		}
		x.Refs[k] = xdb.NewID(v)
	}
	if s.PT != 0 {
		t := xdb.FromUnixMilli(s.PT)
		x.PT = &t
	}
	if s.PID != 0 {
		id := xdb.NewID(s.PID)
		x.PID = &id
	}
	if s.NT != 0 {
		x.NT = sql.NullTime{Time: time.UnixMilli(s.NT).UTC(), Valid: true}
	}
	if s.NI != 0 {
		x.NI = sql.NullInt64{Int64: s.NI, Valid: true}
	}
	if s.Made != 0 {
		x.Made = xdb.FromUnixMilli(s.Made)
	}
	if s.By != 0 {
		id := xdb.NewID(s.By)
		x.By = &id
	}
	return m
}

func c24Over[T comparable](dst *T, src T) {
	var zero T
	if src != zero {
		*dst = src
	}
}

func c24Keys[V any](dst *map[string]V, src map[string]V) {
	m := maps.Clone(*dst)
	for k, v := range src {
		if m == nil {
			m = map[string]V{}
		}
		m[k] = v
	}
	*dst = m
}

func (s *c24Sub) apply(u c24Sub) {
	c24Over(&s.A, u.A)
	c24Over(&s.ID, u.ID)
	c24Over(&s.T, u.T)
	c24Keys(&s.Meta, u.Meta)
}

// apply is the reference: the set after the update.
func (s c24Set) apply(u c24Set) c24Set {
	r, ur := &s.Rec, u.Rec
	c24Over(&r.ID, ur.ID)
	c24Over(&r.ID32, ur.ID32)
	c24Over(&r.I64, ur.I64)
	c24Over(&r.I32, ur.I32)
	c24Over(&r.F, ur.F)
	c24Over(&r.B, ur.B)
	c24Over(&r.NS, ur.NS)
	c24Over(&r.U, ur.U)
	if len(ur.Strs) > 0 {
		r.Strs = ur.Strs
	}
	if len(ur.IDs) > 0 {
		r.IDs = ur.IDs
	}
	c24Keys(&r.Meta, ur.Meta)
	c24Keys(&r.KV, ur.KV)
	if ur.HasT {
		r.HasT, r.T, r.Us = true, ur.T, ur.Us
	}
	c24Over(&s.N, u.N)
	c24Over(&s.Name, u.Name)
	c24Over(&s.Note, u.Note)
	c24Over(&s.At, u.At)
	c24Over(&s.Raw, u.Raw)
	s.Sub.apply(u.Sub)
	s.P.apply(u.P)
	c24Keys(&s.Tags, u.Tags)
	c24Keys(&s.Refs, u.Refs)
	c24Over(&s.PT, u.PT)
	c24Over(&s.PID, u.PID)
	c24Over(&s.NT, u.NT)
	c24Over(&s.NI, u.NI)
	c24Over(&s.Made, u.Made)
	c24Over(&s.By, u.By)
	return s
}

func c24Ms(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return t.UnixMilli()
}

func (s c24Sub) differs(name string, m *c24SubM) string {
	d := func(f string, got, want any) string { return fmt.Sprintf("%s.%s is %v, not %v", name, f, got, want) }
	if m == nil {
		if s.zero() {
			return ""
		}
		return name + " is missing"
	}
	switch {
	case int64(m.A) != s.A:
		return d("A", m.A, s.A)
	case m.ID.UInt64() != s.ID || (m.ID.String() != strconv.FormatUint(s.ID, 10) && s.ID != 0):
		return d("ID", m.ID.String(), s.ID)
	case c24Ms(m.T.UTC()) != s.T:
		return d("T", m.T.String(), s.T)
	case !maps.Equal(m.Meta, s.Meta):
		return d("Meta", mapText(m.Meta), mapText(s.Meta))
	}
	return ""
}

// differs names the first field that does not have the value of the set.
func (s c24Set) differs(m *c24Row) string {
	d := func(name string, got, want any) string { return fmt.Sprintf("%s is %v, not %v", name, got, want) }
	b := &c22Msg{ID: m.ID, ID32: m.ID32, I64: m.I64, I32: m.I32, F: m.F, B: m.B, NS: m.NS, U: m.U, Strs: m.Strs, Meta: m.Meta, KV: m.KV, T: m.T, IDs: m.IDs}
	if s := s.Rec.differs(b); s != "" {
		return s
	}
	x := &m.Ext
	note := ""
	if x.Note != nil {
		note = *x.Note
	}
	tags, refs := map[string]int64{}, map[string]uint64{}
	for k, t := range x.Tags {
		tags[k] = t.UnixMilli()
	}
	for k, id := range x.Refs {
		refs[k] = id.UInt64()
	}
	pt, pid := int64(0), uint64(0)
	if x.PT != nil {
		pt = c24Ms(x.PT.UTC())
	}
	if x.PID != nil {
		pid = x.PID.UInt64()
	}
	by := uint64(0)
	if x.By != nil {
		by = x.By.UInt64()
	}
	switch {
	case x.N != s.N:
		return d("N", x.N, s.N)
	case x.Name != s.Name:
		return d("Name", x.Name, s.Name)
	case note != s.Note:
		return d("Note", note, s.Note)
	case c24Ms(x.At) != s.At:
		return d("At", x.At, s.At)
	case string(x.Raw) != s.Raw:
		return d("Raw", string(x.Raw), s.Raw)
	case !maps.Equal(tags, s.Tags):
		return d("Tags", mapText(tags), mapText(s.Tags))
	case !maps.Equal(refs, s.Refs):
		return d("Refs", mapText(refs), mapText(s.Refs))
	case pt != s.PT:
		return d("PT", pt, s.PT)
	case pid != s.PID:
		return d("PID", pid, s.PID)
	case c24Ms(x.NT.Time) != s.NT || x.NT.Valid != (s.NT != 0):
		return d("NT", x.NT, s.NT)
	case x.NI.Int64 != s.NI || x.NI.Valid != (s.NI != 0):
		return d("NI", x.NI, s.NI)
	case c24Ms(x.Made.UTC()) != s.Made:
		return d("Made", x.Made.String(), s.Made)
	case by != s.By:
		return d("By", by, s.By)
	}
	if s := s.Sub.differs("Sub", &x.Sub); s != "" {
		return s
	}
	return s.P.differs("P", x.P)
}

func c24GenSub(r *R, pct int) c24Sub {
	var s c24Sub
	if r.P(pct) {
		s.A = pick(r, 1, -1, 1<<40, int64(r.U64()))
	}
	if r.P(pct) {
		s.ID = pick(r, 1, 1<<53+1, r.U64())
	}
	if r.P(pct) {
		s.T = 1 + int64(r.U64()%4e12)
	}
	if r.P(pct) {
		s.Meta = map[string]string{}
		for r.P(60) {
			s.Meta[pick(r, "a", "b", "c", "")] = pick(r, "x", "y", "", strconv.Itoa(r.Intn(100)))
		}
	}
	return s
}

// c24GenSet draws the fields of a model: of a small update, each rarely.
func c24GenSet(r *R, pct int) c24Set {
	s := c24Set{Rec: c22GenRec(r, "pg"), Sub: c24GenSub(r, pct), P: c24GenSub(r, pct)}
	q := &s.Rec
	drop := func() bool { return !r.P(pct) }
	if drop() {
		q.ID = 0
	}
	if drop() {
		q.ID32 = 0
	}
	if drop() {
		q.I64 = 0
	}
	if drop() {
		q.I32 = 0
	}
	if drop() {
		q.F = 0
	}
	if drop() {
		q.B = false
	}
	if drop() {
		q.NS = ""
	}
	if drop() {
		q.U = ""
	}
	if drop() || len(q.Strs) == 0 {
		q.Strs = nil
	}
	if drop() {
		q.Meta = nil
	} else if r.P(50) {
		q.Meta = map[string]string{}
		for r.P(70) {
			q.Meta[pick(r, "a", "b", "c", "")] = pick(r, "x", "y", "", strconv.Itoa(r.Intn(100)))
		}
	}
	if drop() {
		q.KV = nil
	} else if r.P(50) {
		q.KV = map[string][]string{}
		for r.P(70) {
			q.KV[pick(r, "a", "b", "c", "")] = pick(r, []string{"x"}, []string{"y", "z"}, []string{""}, []string{}, []string{strconv.Itoa(r.Intn(100))})
		}
	}
	if drop() {
		q.HasT, q.T, q.Us = false, 0, 0
	}
	if drop() {
		q.IDs = nil
	}
	on := func() bool { return r.P(pct) }
	if on() {
		s.N = 1 + r.Intn(100)
	}
	if on() {
		s.Name = c22Text(r)
	}
	if on() {
		s.Note = c22Text(r)
	}
	if on() {
		s.At = 1 + int64(r.U64()%4e12)
	}
	if on() {
		s.Raw = c22Text(r)
	}
	if on() {
		s.Tags = map[string]int64{}
		for r.P(70) {
			s.Tags[pick(r, "a", "b", "c")] = 1 + int64(r.U64()%4e12)
		}
	}
	if on() {
		s.Refs = map[string]uint64{}
		for r.P(70) {
			s.Refs[pick(r, "a", "b", "c")] = 1 + r.U64()>>1
		}
	}
	if on() {
		s.PT = 1 + int64(r.U64()%4e12)
	}
	if on() {
		s.PID = 1 + r.U64()>>1
	}
	if on() {
		s.NT = 1 + int64(r.U64()%4e12)
	}
	if on() {
		s.NI = pick(r, 1, -1, int64(r.U64()))
	}
	if on() {
		s.Made = 1 + int64(r.U64()%4e12)
	}
	if on() {
		s.By = 1 + r.U64()>>1
	}
	return s
}

func c24Gen(r *R, tier string) c24Case {
	c := c24Case{Pool: pick(r, 0, 1, 2, 3), Clients: r.Range(1, 4)}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		c.Base = append(c.Base, c24GenSet(r, pick(r, 0, 30, 80)))
	}
	for i, n := 0, r.Range(1, 10); i < n; i++ {
		c.Upds = append(c.Upds, c24Upd{K: r.Intn(len(c.Base)), Client: r.Intn(c.Clients), Ptr: r.P(50), Bad: pick(r, 0, 0, 0, 1, 2, 3, 4), Set: c24GenSet(r, pick(r, 0, 5, 5, 20, 60))})
	}
	if r.P(60) {
		c.Faults = genFaults(r, []string{"any", "any", "exec", "query", "next", "close", "connect"}, []string{"err", "drop", "dropafter", "badconn", "slow", "crash"}, 25)
	}
	return c
}

func c24Run(e *Env, c c24Case) {
	if len(c.Base) == 0 || c.Clients == 0 {
		return
	}
	srv := newServer(e, e.Seed, "postgres")
	srv.onStore = c22Store("postgres")
	types := map[string]string{"id": "int8", "id32": "int8", "i64": "int8", "i32": "int8", "f": "float8", "b": "bool", "ns": "text", "u": "uuid", "strs": "text", "meta": "text", "kv": "text", "t": "timestamptz", "ids": "_int8"}
	cols := []string{"k int8", "hist text", "ext text"}
	names, set := "k, hist, ext", "hist = $1, ext = $2"
	for i, n := range scanCols {
		cols = append(cols, n+" "+types[n])
		names += ", " + n
		set += fmt.Sprintf(", %s = $%d", n, i+3)
	}
	srv.addTable("models", cols...)
	db := srv.OpenDB(c.Pool)
	defer db.Close()

	// ref is what a row with these updates contains.
	ref := func(k int, hist string) (c24Set, bool) {
		s := c.Base[k]
		for _, u := range strings.Split(hist, ",")[1:] {
			n, err := strconv.Atoi(u)
			if err != nil || n >= len(c.Upds) || c.Upds[n].K != k {
				return s, false
			}
			s = s.apply(c.Upds[n].Set)
		}
		return s, true
	}
	read := func(ctx context.Context, k int, who string) (m *c24Row, hist string, err error) {
		m = &c24Row{}
		ext, kk := "", 0
		if err = db.QueryRowContext(ctx, "SELECT "+names+" FROM models WHERE k = $1", k).Scan(append([]any{&kk, &hist, &ext}, m.dest()...)...); err != nil {
			return nil, "", err
		}
		if err = json.Unmarshal([]byte(ext), &m.Ext); err != nil {
			panic("harness: " + err.Error())
		}
		s, ok := ref(k, hist)
		if !ok {
			e.Failf("merge-differs", "%s: row %d has the history %q", who, k, hist)
		} else if d := s.differs(m); d != "" {
			e.Failf("merge-differs", "%s: row %d with the updates %q: %s", who, k, hist, d)
		}
		return m, hist, nil
	}
	args := func(m *c24Row, hist string, more ...any) []any {
		ext, err := json.Marshal(m.Ext)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return append(append([]any{hist, string(ext)}, m.args()...), more...)
	}
	for k, s := range c.Base {
		q := "INSERT INTO models (" + names + ") VALUES ($1"
		for i := range len(scanCols) + 2 {
			q += fmt.Sprintf(", $%d", i+2)
		}
		if _, err := db.ExecContext(context.Background(), q+")", append([]any{k}, args(s.model(), "base")...)...); err != nil {
			panic("harness: " + err.Error())
		}
	}
	srv.resetFaults()
	srv.faults = c.Faults
	// merge applies the update to the model the node has read.
	merge := func(u c24Upd, m *c24Row, before c24Set, who string) {
		src := u.Set.model()
		switch u.Bad {
		case 1:
			if err := xdb.Merge(*m, *src); err == nil {
				e.Failf("wrong-merge-accepted", "%s: Merge into a value that cannot change reports success", who)
			}
		case 2:
			if err := xdb.Merge(m, src.Ext); err == nil {
				e.Failf("wrong-merge-accepted", "%s: Merge of another type reports success", who)
			}
		case 3:
			if err := xdb.Merge(m, nil); err == nil {
				e.Failf("wrong-merge-accepted", "%s: Merge of nil reports success", who)
			}
		case 4:
			if err := xdb.Merge(nil, src); err == nil {
				e.Failf("wrong-merge-accepted", "%s: Merge into nil reports success", who)
			}
		}
		if u.Bad != 0 {
			e.Probe("wrong-merge")
			if d := before.differs(m); d != "" {
				e.Failf("merge-differs", "%s: after a rejected merge: %s", who, d)
			}
		}
		var err error
		if u.Ptr {
			err = xdb.Merge(m, src)
		} else {
			err = xdb.Merge(m, *src)
		}
		if err != nil {
			e.Failf("merge-failed", "%s: %v", who, err)
			return
		}
		if d := before.apply(u.Set).differs(m); d != "" {
			e.Failf("merge-differs", "%s: merged: %s", who, d)
		}
		if d := u.Set.differs(src); d != "" {
			e.Failf("update-changed", "%s: the update after it was merged: %s", who, d)
		}
		e.Probe("merged")
	}
	const tries = 80
	var wg sync.WaitGroup
	for cl := range c.Clients {
		wg.Add(1)
		e.Go("client", wg.Done, func() {
			for n, u := range c.Upds {
				if u.Client != cl || u.K >= len(c.Base) {
					continue
				}
				who := fmt.Sprintf("client %d, update %d", cl, n)
				tag := "," + strconv.Itoa(n)
				for i := 0; !e.Failed(); i++ {
					if i > tries {
						e.Failf("no-progress", "%s: not stored in %d attempts", who, tries)
						break
					}
					ctx, cancel := opCtx()
					e.Op()
					m, hist, err := read(ctx, u.K, who)
					if err != nil {
						cancel()
						time.Sleep(20 * time.Millisecond)
						continue
					}
					if strings.Contains(hist+",", tag+",") {
						cancel()
						e.Probe("update-was-stored")
						break
					}
					before, _ := ref(u.K, hist)
					merge(u, m, before, who)
					if e.Failed() {
						cancel()
						break
					}
					if n%2 == 0 {
						hb()
						time.Sleep(time.Millisecond)
						hb()
					}
					var res sql.Result
					res, err = db.ExecContext(ctx, "UPDATE models SET "+set+fmt.Sprintf(" WHERE k = $%d AND hist = $%d", len(scanCols)+3, len(scanCols)+4), args(m, hist+tag, u.K, hist)...)
					cancel()
					if err == nil {
						if cnt, _ := res.RowsAffected(); cnt == 1 {
							break
						}
						e.Probe("update-overtaken")
					}
					time.Sleep(5 * time.Millisecond)
				}
			}
		})
	}
	wg.Wait()
	srv.faults = nil
	for k := range c.Base {
		for i := 0; !e.Failed(); i++ {
			_, hist, err := read(context.Background(), k, "end")
			if err == nil {
				n := 0
				for _, u := range c.Upds {
					if u.K == k {
						n++
					}
				}
				if got := strings.Count(hist, ","); got != n {
					e.Failf("merge-differs", "row %d holds %d of %d updates", k, got, n)
				}
				break
			}
			if i > 10 {
				e.Failf("no-progress", "row %d cannot be read: %v", k, err)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
}

func init() {
	reg(&Prop{ID: "C24", Title: "merging keeps every field exactly once", Runs: 20000, Real: []string{"merge.go", "dario.cat/mergo", "types.go, id.go, time.go (Value, Scan, JSON)", "database/sql"},
		Stub: []string{"database server (simulated)", "the nodes that read, merge and write back"},
		Rule: "1-3 rows with all provided types, nested and pointer fields and maps receive 1-10 partial updates from 1-4 concurrent clients, each a read, a Merge and a conditional write that is retried when another client was first or a fault hit; rejected merges come in between. The row lists the updates it holds; at every read and merge all its fields are compared with a reference that applies these updates field by field."}, c24Gen, c24Run)
}

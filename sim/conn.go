package main

import (
	"database/sql"
	"errors"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/internal/cli"
)

// ------------------------------------------------------------------- C23

// Clients open databases of a few servers, Postgres and SQL Server, from
// connection strings given as such, in files or in the environment; the servers
// record who logs in. Files are replaced while clients read them, reads, dials
// and logins fail. What a connection string means is known because the harness
// wrote it from its parts.

type c23Srv struct {
	Driver string   `json:"driver"`
	Host   string   `json:"host"` // IPv6 without brackets
	Port   int      `json:"port"` // 0: the default
	User   string   `json:"user"`
	Pwd    string   `json:"pwd"`
	DBs    []string `json:"dbs"`
}

// c23Target is what a connection string says.
type c23Target struct {
	Srv    int    `json:"srv"`
	DB     int    `json:"db"` // of the server; -1: none, 99: unknown there
	Wrong  bool   `json:"wrong,omitempty"`
	DBIn   string `json:"db_in"`   // path, param
	UserIn string `json:"user_in"` // url, param
	HostIn string `json:"host_in,omitempty"`
	App    string `json:"app,omitempty"`
	Params int    `json:"params,omitempty"` // bits: further parameters
	Style  uint64 `json:"style"`            // escaping and order
	Quote  int    `json:"quote,omitempty"`  // how the text is wrapped
	TLS    bool   `json:"tls,omitempty"`    // the string demands what the server does not offer
}

type c23Op struct {
	Kind   string    `json:"kind"` // open provider cli parse bad rotate
	Via    string    `json:"via"`  // text file env
	File   int       `json:"file,omitempty"`
	Target c23Target `json:"target"`
	Over   string    `json:"over,omitempty"` // selected database
	Bad    int       `json:"bad,omitempty"`
	Wait   int       `json:"wait_us,omitempty"`
	EIO    int       `json:"eio,omitempty"` // 1+ position of a read error
}

type c23Case struct {
	Srvs    []c23Srv    `json:"srvs"`
	Files   []c23Target `json:"files"`
	Clients [][]c23Op   `json:"clients"`
	Faults  [][]dbFault `json:"faults"`
}

var c23Words = []string{"orders", "a b", "a&b", "x=y", "p%q", "h#1", "q?2", "s/t", "u+v", "it's", `b\s`, "k;l", "m:n", "o@p", `d"q`, "dbname=x", "host=h", "&database=z", "été", "日本", "A", "z", "%41", "a  b", "[x]", "{y}", "<z>", "$1", "tab\tx", "sslmode=disable", "-", "~", "a,b", "1", "bob'", "'q'", "z`", "x;", "y/", "(w)", "'", "v!", "\"u"}

func c23Word(r *R) string {
	if r.P(55) {
		return pick(r, "orders", "users", "billing", "aa", "zz", "main") + strconv.Itoa(r.Intn(20))
	}
	return pick(r, c23Words...)
}

func genC23Target(r *R, c *c23Case) c23Target {
	t := c23Target{Srv: r.Intn(len(c.Srvs)), Style: r.U64(), Quote: pick(r, 0, 0, 0, 1, 2, 3, 4, 5), Params: r.Intn(16), DBIn: pick(r, "path", "param", "param"), UserIn: pick(r, "url", "url", "param")}
	s := c.Srvs[t.Srv]
	t.DB = r.Range(-1, len(s.DBs)-1)
	if r.P(6) {
		t.DB = 99
	}
	t.Wrong = r.P(5)
	if s.Driver == "sqlserver" {
		t.DBIn = "param"
	} else {
		t.UserIn = pick(r, "url", "url", "url", "param")
		t.TLS = r.P(4)
		if r.P(8) {
			t.HostIn = "param"
		}
	}
	if r.P(60) {
		t.App = c23Word(r)
	}
	return t
}

func c23Gen(r *R, tier string) c23Case {
	var c c23Case
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		s := c23Srv{Driver: pick(r, "postgres", "postgres", "sqlserver"), Port: pick(r, 0, 5432, 1433, 7000+i), User: c23Word(r), Pwd: c23Word(r)}
		s.Host = fmt.Sprintf("10.0.%d.%d", r.Intn(3), i+1)
		switch {
		case r.P(15):
			s.Host = fmt.Sprintf("fd00::%x", i+1)
			if s.Port == 0 { // lib/pq does not add its default to such an address
				s.Port = 7000 + i
			}
		case s.Driver == "postgres" && r.P(50):
			s.Host = fmt.Sprintf("pg%d.example", i)
		}
		for strings.Contains(s.User, `\`) && s.Driver == "sqlserver" { // a domain account
			s.User = c23Word(r)
		}
		for k, m := 0, r.Range(1, 4); k < m; k++ {
			if w := c23Word(r); !slices.Contains(s.DBs, w) {
				s.DBs = append(s.DBs, w)
			}
		}
		c.Srvs = append(c.Srvs, s)
	}
	for i, n := 0, r.Range(1, 2); i < n; i++ {
		c.Files = append(c.Files, genC23Target(r, &c))
	}
	nops := 0
	for i, n := 0, pick(r, 1, 1, 2, 3); i < n; i++ {
		var ops []c23Op
		for k, m := 0, r.Range(1, 6); k < m; k++ {
			o := c23Op{Kind: pick(r, "open", "open", "open", "provider", "provider", "cli", "parse", "bad", "rotate"), Via: pick(r, "text", "text", "text", "env", "file", "file"), File: r.Intn(len(c.Files)), Target: genC23Target(r, &c), Bad: r.Intn(1 << 16), Wait: pick(r, 0, 0, r.Intn(4000))}
			if r.P(60) {
				s := c.Srvs[o.Target.Srv]
				if o.Via == "file" {
					s = c.Srvs[c.Files[o.File].Srv]
				}
				o.Over = pick(r, s.DBs...)
				if r.P(10) {
					o.Over = c23Word(r)
				}
			}
			if o.Via == "file" && r.P(10) {
				o.EIO = 1 + pick(r, 0, 1, r.Intn(120))
			}
			ops = append(ops, o)
			nops++
		}
		c.Clients = append(c.Clients, ops)
	}
	for range c.Srvs {
		var f []dbFault
		if r.P(35) {
			f = genFaults(r, []string{"any", "dial", "startup", "ping"}, []string{"err", "drop", "dropafter", "badconn", "slow", "garbage", "crash"}, max(2, nops*3))
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

// c23Esc writes a value into a connection string.
func c23Esc(v string, st *R, query bool) string {
	var b strings.Builder
	for i := 0; i < len(v); i++ {
		switch ch := v[i]; {
		case ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.IndexByte("-._~", ch) >= 0:
			if st.P(2) {
				fmt.Fprintf(&b, "%%%02x", ch)
			} else {
				b.WriteByte(ch)
			}
		case ch == ' ' && query && st.P(60):
			b.WriteByte(pick(st, byte('+'), byte(' ')))
		case query && strings.IndexByte("/:@'[]{}<>$,!*()?=", ch) >= 0 && st.P(50):
			b.WriteByte(ch) // has no meaning there
		case !query && strings.IndexByte("'!$*(),;=&+", ch) >= 0 && st.P(40):
			b.WriteByte(ch) // nor have these in a user, password or path
		default:
			f := "%%%02X"
			if st.P(30) {
				f = "%%%02x"
			}
			fmt.Fprintf(&b, f, ch)
		}
	}
	return b.String()
}

// c23Meaning is what a connection string contains.
type c23Meaning struct {
	driver, host, user, pwd, db string
	params                      map[string]string
	addr, app                   string // where it leads to
	text                        string
	srv                         int
	moved                       bool // to another database
	tls                         bool
}

func (s c23Srv) addr() string {
	port := s.Port
	if port == 0 {
		port = 5432
		if s.Driver == "sqlserver" {
			port = 1433
		}
	}
	h := s.Host
	if strings.Contains(h, ":") {
		h = "[" + h + "]"
	}
	return h + ":" + strconv.Itoa(port)
}

// c23Text writes the connection string.
func c23Text(c *c23Case, t c23Target) (string, c23Meaning) {
	s := c.Srvs[t.Srv%len(c.Srvs)]
	st := NewR(t.Style, "style")
	m := c23Meaning{driver: s.Driver, user: s.User, pwd: s.Pwd, params: map[string]string{}, addr: s.addr(), tls: t.TLS}
	if t.Wrong {
		m.pwd += "!"
	}
	switch {
	case t.DB == 99:
		m.db = "absent db"
	case t.DB >= 0:
		m.db = s.DBs[t.DB%len(s.DBs)]
	}
	m.host = s.Host
	if strings.Contains(m.host, ":") {
		m.host = "[" + m.host + "]"
	}
	if s.Port != 0 {
		m.host += ":" + strconv.Itoa(s.Port)
	}
	var kv [][2]string
	add := func(k, v string) {
		if s.Driver == "sqlserver" && st.P(25) { // upper or lower case is all the same to it
			b := []byte(k)
			for i := range b {
				if b[i] >= 'a' && b[i] <= 'z' && st.P(50) {
					b[i] -= 'a' - 'A'
				}
			}
			k = string(b)
		}
		kv = append(kv, [2]string{k, v})
		m.params[k] = v
	}
	u := s.Driver + "://"
	switch {
	case t.UserIn == "param" && s.Driver == "sqlserver":
		add("user id", m.user)
		add("password", m.pwd)
	case t.UserIn != "url":
		add("user", m.user)
		add("password", m.pwd)
	default:
		u += c23Esc(m.user, st, false) + ":" + c23Esc(m.pwd, st, false) + "@"
	}
	if t.HostIn == "param" {
		add("host", s.Host)
		if s.Port != 0 {
			add("port", strconv.Itoa(s.Port))
		}
		m.host = ""
	} else {
		u += m.host
	}
	if m.db != "" {
		if t.DBIn == "path" {
			u += "/" + c23Esc(m.db, st, false)
		} else if s.Driver == "postgres" {
			add("dbname", m.db)
		} else {
			add("database", m.db)
		}
	} else if t.Params&8 != 0 && s.Driver == "postgres" {
		u += "/"
	}
	if s.Driver == "postgres" {
		if t.TLS {
			add("sslmode", "require")
		} else {
			add("sslmode", "disable")
		}
		m.app = t.App
		if t.App != "" {
			add("application_name", t.App)
		}
		if t.Params&1 != 0 {
			add("search_path", "s1,s2")
		}
		if t.Params&2 != 0 {
			add("connect_timeout", "30")
		}
	} else {
		m.app = "go-mssqldb"
		if t.App != "" {
			m.app = t.App
			add("app name", t.App)
		}
		if t.Params&1 != 0 {
			add("encrypt", "disable")
		}
		if t.Params&2 != 0 {
			add("dial timeout", "30")
		}
	}
	for i := len(kv) - 1; i > 0; i-- {
		k := st.Intn(i + 1)
		kv[i], kv[k] = kv[k], kv[i]
	}
	for i, p := range kv {
		u += string("?&"[min(i, 1)]) + c23Esc(p[0], st, true) + "=" + c23Esc(p[1], st, true)
	}
	return u, m
}

func c23Wrap(ds string, q int) string {
	switch q {
	case 1:
		return ds + "\n"
	case 2:
		return `"` + ds + `"`
	case 3:
		return `"` + ds + "\"\n"
	case 4:
		return " \t" + ds + "\r\n"
	case 5:
		return "\n\"" + ds + "\"  \n"
	}
	return ds
}

// c23Bad makes a string that is none of a database out of a good one. Parsing
// must fail, or (last return value) opening.
func c23Bad(ds string, k int) (string, string, bool) {
	i := strings.Index(ds, "://") + 3
	cut := func(sep string) (string, string) {
		if k := strings.Index(ds[i:], sep); k >= 0 {
			return ds[:i+k], ds[i+k:]
		}
		return ds, ""
	}
	amp := "?"
	if strings.Contains(ds, "?") {
		amp = "&"
	}
	type b struct {
		s, what string
		open    bool
	}
	pre, rest := cut("?")
	bads := []b{
		{"", "empty", false},
		{"  \n", "blank", false},
		{`""`, "empty quotes", false},
		{ds[i:], "no driver", false},
		{"://" + ds[i:], "empty driver", false},
		{ds[:i-3], "driver only", false},
		{ds[:i-2] + "x" + ds[i:], "no slashes", false},
		{ds + amp + "x=%zz", "bad escape in a parameter", false},
		{ds + amp + "x=%4", "cut escape in a parameter", false},
		{ds + amp + "%zz=1", "bad escape in a parameter name", false},
		{ds + amp + "a=1;b=2", "semicolon between parameters", false},
		{ds[:i] + "%zz:p@h" + rest, "bad escape in the user", false},
		{ds[:i] + "u:%zz@h" + rest, "bad escape in the password", false},
		{ds[:i] + "u:p@h:abc" + rest, "port not a number", false},
		{ds[:i] + "u:p@[fd00::1" + rest, "open bracket", false},
		{ds[:i] + "u:p@h\x01" + rest, "control character", false},
		{ds[:i] + "u:p@h/%zz" + rest, "bad escape in the path", false},
		{"host=10.0.0.1 user=u password=p dbname=d", "keywords", false},
		{"mysql" + ds[i-3:], "driver that is not there", true},
		{"9" + pre + rest, "driver that starts with a digit", false},
		{"file:///nonexistent/verifsim/dsn", "no such file", false},
		{"env://VERIFSIM_UNSET", "no such variable", false},
		{"secret://name", "no secrets", false},
	}
	x := bads[k%len(bads)]
	if x.what == "bad escape in the path" && strings.Contains(rest, "host=") {
		x.open = false
	}
	return x.s, x.what, x.open
}

type c23Login struct {
	srv  int
	at   time.Time
	op   int
	user string
	pwd  string
	db   string
	app  string
	path string
	ok   bool
}

type c23Version struct {
	from, to time.Time // to is zero for the current one
	t        c23Target
}

func c23Run(e *Env, c c23Case) {
	if len(c.Srvs) == 0 || len(c.Files) == 0 {
		return
	}
	for _, s := range c.Srvs {
		if len(s.DBs) == 0 || s.Port == 0 && strings.Contains(s.Host, ":") {
			return
		}
	}
	dir, remove := scratch()
	defer remove()
	var logins []*c23Login
	dials := map[int]int{}
	running := map[uint32]int{} // goroutine: operation
	var srvs []*Server
	seen := map[string]bool{}
	for i, cs := range c.Srvs {
		s := newServer(e, e.Seed+uint64(i), cs.Driver)
		s.tds = cs.Driver == "sqlserver"
		if i < len(c.Faults) {
			s.faults = c.Faults[i]
		}
		if seen[cs.addr()] {
			return
		}
		seen[cs.addr()] = true
		s.dialed = func(who uint32) { dials[running[who]]++ }
		s.login = func(who uint32, p map[string]string, pwd string) error {
			hb()
			defer hb()
			l := &c23Login{srv: i, at: time.Now(), op: running[who], user: p["user"], pwd: pwd, db: p["database"], app: p["application_name"], path: p["search_path"]}
			if s.tds {
				l.app = p["app name"]
			}
			logins = append(logins, l)
			switch {
			case l.user != cs.User || pwd != cs.Pwd:
				return errors.New("password authentication failed")
			case l.db != "" && !slices.Contains(cs.DBs, l.db):
				return errors.New("database does not exist")
			}
			l.ok = true
			return nil
		}
		s.attach(cs.addr())
		srvs = append(srvs, s)
	}

	// files
	file := func(i int) string { return filepath.Join(dir, fmt.Sprintf("dsn%d", i)) }
	files := make([][]c23Version, len(c.Files))
	put := func(i int, t c23Target) {
		text, _ := c23Text(&c, t)
		tmp := file(i) + ".new"
		if err := os.WriteFile(tmp, []byte(c23Wrap(text, t.Quote)), 0o600); err != nil {
			panic("harness: " + err.Error())
		}
		if err := os.Rename(tmp, file(i)); err != nil {
			panic("harness: " + err.Error())
		}
		if n := len(files[i]); n > 0 {
			files[i][n-1].to = time.Now()
		}
		files[i] = append(files[i], c23Version{from: time.Now(), t: t})
	}
	for i, t := range c.Files {
		put(i, t)
	}
	eio := map[uint32]int{} // goroutine: position of the next read error
	done := map[uint32]int{}
	failed := map[uint32]bool{}
	fr := NewR(e.Seed, "files")
	os.SimOpen = func(p string, flag int) error {
		if !strings.HasPrefix(p, dir) || strings.HasSuffix(p, ".new") {
			return nil
		}
		hb()
		defer hb()
		done[simGID()] = 0
		if eio[simGID()] == 1 {
			failed[simGID()] = true
			e.Fault("file-open")
			return &os.PathError{Op: "open", Path: p, Err: syscall.EIO}
		}
		return nil
	}
	os.SimRead = func(p string, n int) (int, error) {
		if !strings.HasPrefix(p, dir) {
			return n, nil
		}
		hb()
		defer hb()
		g := simGID()
		time.Sleep(time.Duration(fr.Intn(1500)) * time.Microsecond)
		if at := eio[g]; at > 0 {
			if done[g] >= at-1 {
				failed[g] = true
				e.Fault("file-read")
				return 0, &os.PathError{Op: "read", Path: p, Err: syscall.EIO}
			}
			n = min(n, at-1-done[g])
		}
		if n > 1 && fr.P(30) {
			n = 1 + fr.Intn(n)
			e.Fault("short-read")
		}
		done[g] += n
		return n, nil
	}
	defer resetFiles()

	// what may have been meant between two moments
	meant := func(o c23Op, from, to time.Time) (out []c23Meaning) {
		ts := []c23Target{o.Target}
		if o.Via == "file" {
			ts = nil
			for _, v := range files[o.File%len(files)] {
				if !v.from.After(to) && (v.to.IsZero() || !v.to.Before(from)) {
					ts = append(ts, v.t)
				}
			}
		}
		for _, t := range ts {
			text, m := c23Text(&c, t)
			m.text, m.srv = text, t.Srv%len(srvs)
			out = append(out, m)
		}
		return
	}
	mine := func(op int) (out []*c23Login) {
		for _, l := range logins {
			if l.op == op {
				out = append(out, l)
			}
		}
		return
	}
	leads := func(m c23Meaning, l *c23Login) string {
		switch {
		case c.Srvs[l.srv].addr() != m.addr:
			return fmt.Sprintf("went to %s instead of %s", c.Srvs[l.srv].addr(), m.addr)
		case l.user != m.user:
			return fmt.Sprintf("logged in as %q instead of %q", l.user, m.user)
		case l.pwd != m.pwd:
			return fmt.Sprintf("used the password %q instead of %q", l.pwd, m.pwd)
		case l.db != m.db:
			return fmt.Sprintf("asked for the database %q instead of %q", l.db, m.db)
		case l.app != m.app:
			return fmt.Sprintf("gave the name %q instead of %q", l.app, m.app)
		case l.path != m.params["search_path"]:
			return fmt.Sprintf("set the search path %q instead of %q", l.path, m.params["search_path"])
		case m.tls:
			return "logged in without the encryption the string demands"
		}
		return ""
	}
	opNo := 0
	begin := func(o c23Op) (int, uint32) {
		opNo++
		g := simGID()
		running[g], eio[g], failed[g] = opNo, o.EIO, false
		return opNo, g
	}
	// parsed compares what parsing found with what the string may have meant.
	parsed := func(what, ds string, p *xdb.Source, err error, ms []c23Meaning) {
		g := simGID()
		switch {
		case failed[g] && err == nil:
			e.Failf("half-read", "%s: the file could not be read, but a connection string came out of it: %+v", what, *p)
			return
		case failed[g]:
			return
		case err != nil:
			e.Failf("refused", "%s: %q is refused: %v", what, ds, err)
			return
		}
		var why string
		for _, m := range ms {
			d := ""
			switch {
			case p.Driver != m.driver:
				d = fmt.Sprintf("driver %q instead of %q", p.Driver, m.driver)
			case p.Host != m.host && m.params["host"] == "":
				d = fmt.Sprintf("host %q instead of %q", p.Host, m.host)
			case p.User != m.user:
				d = fmt.Sprintf("user %q instead of %q", p.User, m.user)
			case p.Password != m.pwd:
				d = fmt.Sprintf("password %q instead of %q", p.Password, m.pwd)
			case p.Database != m.db:
				d = fmt.Sprintf("database %q instead of %q", p.Database, m.db)
			case !m.moved && !maps.Equal(p.Params, m.params):
				d = fmt.Sprintf("parameters %q instead of %q", p.Params, m.params)
			case !m.moved && p.Source != m.text:
				d = fmt.Sprintf("source %q instead of %q", p.Source, m.text)
			}
			for _, k := range slices.Sorted(maps.Keys(m.params)) {
				v := m.params[k]
				if d == "" && k != "dbname" && !strings.EqualFold(k, "database") && p.Params[k] != v {
					d = fmt.Sprintf("%s %q instead of %q", k, p.Params[k], v)
				}
			}
			if d == "" {
				return
			}
			why = d
		}
		e.Failf("parsed", "%s: parsing %q found %s", what, ds, why)
	}
	var wg sync.WaitGroup
	var envMu sync.Mutex
	for ci, ops := range c.Clients {
		wg.Add(1)
		e.Go("client", wg.Done, func() {
			for k, o := range ops {
				if e.Failed() {
					return
				}
				time.Sleep(time.Duration(o.Wait) * time.Microsecond)
				what := fmt.Sprintf("client %d op %d %s", ci, k, o.Kind)
				text, _ := c23Text(&c, o.Target)
				ds := c23Wrap(text, o.Target.Quote)
				e.Op()
				if o.Kind == "rotate" {
					put(o.File%len(files), o.Target)
					e.Probe("rotated")
					e.Logf("%s", what)
					continue
				}
				env := fmt.Sprintf("VERIFSIM_DSN_%d", ci)
				switch {
				case o.Kind == "bad":
				case o.Via == "file":
					ds = "file://" + file(o.File%len(files))
				case o.Via == "env":
					os.Setenv(env, ds)
					ds = "env://" + env
				}
				n, g := begin(o)
				from := time.Now()
				switch o.Kind {
				case "bad":
					bad, why, openOnly := c23Bad(text, o.Bad)
					if !openOnly {
						if p, err := xdb.ParseConnectionString(bad); err == nil {
							e.Failf("accepted", "%s: %q (%s) is parsed as %+v", what, bad, why, *p)
						} else if p != nil {
							e.Failf("result", "%s: a source with error %v", what, err)
						}
					}
					db, _, _, err := xdb.Open(bad, o.Over)
					if err == nil {
						e.Failf("accepted", "%s: a database was opened from %q (%s)", what, bad, why)
						db.Close()
					}
					if dials[n] > 0 {
						e.Failf("accepted", "%s: %q (%s) led to a server", what, bad, why)
					}
					e.Probe("malformed")
				case "parse":
					p, err := xdb.ParseConnectionString(ds)
					e.Probe("parsed")
					parsed(what, text, p, err, meant(o, from, time.Now()))
				default:
					var db *sql.DB
					var prov xdb.Provider
					var driver, conn string
					var err error
					if o.Kind == "open" {
						db, driver, conn, err = xdb.Open(ds, o.Over)
						if (db == nil) != (err != nil) {
							e.Failf("result", "%s: database %v with error %v", what, db != nil, err)
							return
						}
					} else {
						if o.Kind == "cli" { // the tool's own way, from its option or its variable
							tool := &cli.Cli{SQLSource: ds}
							envMu.Lock()
							if o.Bad%2 == 1 {
								tool.SQLSource = ""
								os.Setenv("XDB_DATASOURCE", ds)
							} else {
								os.Setenv("XDB_DATASOURCE", "postgres://nobody@10.9.9.9/nothing")
							}
							err = tool.AfterApply(nil, nil)
							envMu.Unlock()
							if err == nil {
								prov, err = tool.DB(o.Over)
							}
							e.Probe("tool")
						} else {
							prov, err = xdb.NewProvider(ds, o.Over, makeGen(1, wallNow().Add(-time.Hour)), nil)
						}
						if (prov == nil) != (err != nil) {
							e.Failf("result", "%s: provider %v with error %v", what, prov != nil, err)
							return
						}
						if prov != nil {
							db, _ = prov.DB().(*sql.DB)
							driver, conn = prov.Name(), prov.ConnectionString()
						}
					}
					ts := meant(o, from, time.Now())
					ls := mine(n)
					e.Logf("%s: err %v, %d logins", what, err != nil, len(ls))
					if failed[g] {
						if err == nil || dials[n] > 0 {
							e.Failf("half-read", "%s: the file could not be read, yet a server was dialed (error %v)", what, err)
							return
						}
						e.Probe("unreadable")
						continue
					}
					// every login is the one that was meant
					var fits []c23Meaning
					why, quiet := "", true
					for _, m := range ts {
						if o.Over != "" {
							if m.db != "" && m.db != o.Over {
								e.Probe("replaced")
							}
							m.db, m.moved = o.Over, true
						}
						bad := ""
						for _, l := range ls {
							if bad == "" {
								bad = leads(m, l)
							}
						}
						if bad == "" {
							fits = append(fits, m)
							quiet = quiet && len(srvs[m.srv].faults) == 0
							text = m.text
						} else {
							why = fmt.Sprintf("opening %q with database %q %s", m.text, o.Over, bad)
						}
					}
					if len(fits) == 0 {
						e.Failf("misled", "%s: %s", what, why)
						return
					}
					if err == nil {
						if len(ls) == 0 || !ls[len(ls)-1].ok {
							e.Failf("misled", "%s: opened without a login", what)
							return
						}
						if d := c.Srvs[ls[0].srv].Driver; driver != d {
							e.Failf("driver", "%s: driver %q instead of %q", what, driver, d)
							return
						}
						e.Probe("opened-" + driver)
						// what it reports leads there again
						failed[g] = false
						p, perr := xdb.ParseConnectionString(conn)
						parsed(what+" reported", conn, p, perr, fits)
						if e.Failed() {
							return
						}
						n, g = begin(c23Op{})
						again, _, _, err2 := xdb.Open(conn, "")
						bad := ""
						for _, m := range fits {
							bad = ""
							for _, l := range mine(n) {
								if bad == "" {
									bad = leads(m, l)
								}
							}
							if bad == "" {
								break
							}
						}
						if bad != "" {
							e.Failf("reported", "%s: the connection string it reports, %q, %s", what, conn, bad)
							return
						}
						if again != nil {
							again.Close()
						} else if quiet {
							e.Failf("reported", "%s: the connection string it reports, %q, is refused: %v", what, conn, err2)
							return
						}
						if prov != nil {
							err = prov.Close()
						} else {
							err = db.Close()
						}
						if err != nil && quiet {
							e.Failf("close", "%s: %v", what, err)
							return
						}
					} else if len(fits) == len(ts) && quiet {
						// nothing went wrong, so it had to succeed unless refused
						may := false
						for _, m := range fits {
							cs := c.Srvs[m.srv]
							may = may || m.tls || m.user != cs.User || m.pwd != cs.Pwd || m.db != "" && !slices.Contains(cs.DBs, m.db)
						}
						if !may {
							e.Failf("refused", "%s: opening %q with database %q: %v", what, text, o.Over, err)
							return
						}
						e.Probe("refused-by-server")
					}
				}
			}
		})
	}
	wg.Wait()
	if e.Failed() {
		return
	}
	for _, s := range srvs {
		s.faults = nil
		s.downTo = time.Time{}
	}
	time.Sleep(time.Minute)
	for i, s := range srvs {
		// go-mssqldb keeps the connection of a failed login
		if n := s.OpenConns(); n > 0 && !s.tds {
			e.Failf("connection-kept", "%d connections to server %d are open at the end", n, i)
		}
	}
}

func init() {
	reg(&Prop{ID: "C23", Title: "Connection strings are interpreted faithfully", Runs: 60000,
		Rule:   "1-3 clients open and parse connection strings of 1-4 servers (Postgres and SQL Server), given as text, in files that are replaced meanwhile or in the environment, with and without another database selected; names, passwords and databases of all characters; malformed strings; file reads, dials, logins and pings fail; every login is recorded by the servers and compared with the parts the string was written from",
		Real:   []string{"db.go (ParseConnectionString, Open, NewProvider)", "internal/cli (the data source of the tool)", "configloader", "lib/pq", "go-mssqldb", "database/sql"},
		Stub:   []string{"Postgres servers (wire protocol) and SQL Server servers (TDS prelogin, login, ping)", "network", "file reads go through a fault hook", "clock, goroutine scheduler"},
		Assume: []string{"a string names its database once"}}, c23Gen, c23Run)
}

package main

import (
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// This file puts the simulated server behind the Postgres wire protocol, over
// simulated network connections, so that the real lib/pq talks to it. Dialing
// goes through net.SimDial (toolchain overlay).

// simNet is the network of the current run: servers by address.
var simNet map[string]*Server

func netDial(ctx context.Context, network, address string) (net.Conn, error) {
	hb()
	defer hb()
	s := simNet[address]
	if s == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("no such host " + address)}
	}
	if s.dialed != nil {
		s.dialed(simGID())
	}
	f, hit := s.fault("dial")
	if err := s.latency(ctx, slowMS(f, hit)); err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	if hit {
		switch f.Kind {
		case "err", "badconn", "drop", "garbage":
			return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
		case "crash":
			s.crash(f.MS)
		case "cancel":
			if s.onCancel != nil {
				s.onCancel()
			}
		}
	}
	if s.down() {
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	}
	proc := s.procOf[address]
	if s.step(proc, "connect") {
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ECONNREFUSED}
	}
	a, b := &netHalf{wake: make(chan struct{})}, &netHalf{wake: make(chan struct{})}
	cl := &netConn{srv: s, in: a, out: b, client: true, proc: proc}
	sv := &netConn{srv: s, in: b, out: a}
	s.conns = append(s.conns, cl)
	if s.tds {
		w := &tdsSess{srv: s, c: sv, proc: proc, who: simGID()}
		go w.serve()
		return cl, nil
	}
	w := &wireSess{srv: s, c: sv, proc: proc, who: simGID()}
	go w.serve()
	return cl, nil
}

// attach makes the server reachable.
func (s *Server) attach(address string) {
	if simNet == nil {
		simNet = map[string]*Server{}
	}
	simNet[address] = s
	net.SimDial = netDial
}

// OpenConns is the number of network connections the client side has not closed.
func (s *Server) OpenConns() int {
	n := 0
	for _, c := range s.conns {
		if !c.shut {
			n++
		}
	}
	return n
}

type netChunk struct {
	at time.Time
	b  []byte
}

// netHalf is one direction of a connection.
type netHalf struct {
	q     []netChunk
	last  time.Time
	eof   bool
	reset bool
	wake  chan struct{}
}

func (h *netHalf) signal() {
	close(h.wake)
	h.wake = make(chan struct{})
}

// netConn is one end of a simulated connection.
type netConn struct {
	srv      *Server
	in, out  *netHalf
	client   bool
	proc     int
	shut     bool
	deadline time.Time
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (c *netConn) LocalAddr() net.Addr  { return simAddr("sim:1") }
func (c *netConn) RemoteAddr() net.Addr { return simAddr("sim:2") }

func (c *netConn) SetDeadline(t time.Time) error {
	hb()
	c.deadline = t
	c.in.signal()
	return nil
}
func (c *netConn) SetReadDeadline(t time.Time) error  { return c.SetDeadline(t) }
func (c *netConn) SetWriteDeadline(t time.Time) error { return nil }

func (c *netConn) Read(p []byte) (int, error) {
	hb()
	defer hb()
	for {
		h := c.in
		switch {
		case c.shut:
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		case h.reset:
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
		case len(p) == 0:
			return 0, nil
		case !c.deadline.IsZero() && !time.Now().Before(c.deadline):
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		var wait time.Duration = -1
		if len(h.q) > 0 {
			wait = time.Until(h.q[0].at)
			if wait <= 0 {
				b := h.q[0].b
				n := len(b)
				if c.client && n > 1 && c.srv.short > 0 && c.srv.r.Intn(100) < c.srv.short {
					n = 1 + c.srv.r.Intn(n)
				}
				n = copy(p, b[:n])
				if n == len(b) {
					h.q = h.q[1:]
				} else {
					h.q[0].b = b[n:]
				}
				return n, nil
			}
		} else if h.eof {
			return 0, io.EOF
		}
		if !c.deadline.IsZero() {
			if d := time.Until(c.deadline); wait < 0 || d < wait {
				wait = d
			}
		}
		w := h.wake
		if wait < 0 {
			<-w
			hb()
			continue
		}
		t := time.NewTimer(wait)
		select {
		case <-w:
		case <-t.C:
		}
		t.Stop()
		hb()
	}
}

func (c *netConn) Write(p []byte) (int, error) {
	hb()
	defer hb()
	if c.shut {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	if c.in.reset || c.in.eof && c.client {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
	}
	c.push(p, 0)
	return len(p), nil
}

func (c *netConn) push(p []byte, extra time.Duration) {
	h := c.out
	us := c.srv.baseUS / 2
	if c.srv.jitUS > 0 {
		us += c.srv.r.Intn(c.srv.jitUS/2 + 1)
	}
	at := time.Now().Add(time.Duration(us)*time.Microsecond + extra)
	if at.Before(h.last) {
		at = h.last
	}
	h.last = at
	h.q = append(h.q, netChunk{at, append([]byte{}, p...)})
	h.signal()
}

// Close ends the connection: the other end reads what is under way, then EOF.
func (c *netConn) Close() error {
	hb()
	defer hb()
	if c.shut {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.shut = true
	c.out.eof = true
	c.out.signal()
	c.in.signal()
	return nil
}

// abort resets the connection: what is under way is lost.
func (c *netConn) abort() {
	c.shut = true
	c.out.reset = true
	c.out.q = nil
	c.out.signal()
	c.in.signal()
}

// ---------------------------------------------------------------- sessions

// wireSess serves one connection.
type wireSess struct {
	srv     *Server
	c       *netConn
	ss      *Session
	cancel  context.CancelFunc
	busy    bool
	pending [][]byte
	stmts   map[string]*wireStmt
	portals map[string]*wirePortal
	out     []byte
	skip    bool // discard until Sync after an error
	pid     int
	proc    int
	who     uint32 // goroutine that dialed
}

type wireStmt struct {
	q    string
	n    int
	cols []dbCol
}

type wirePortal struct {
	st   *wireStmt
	args []val
	fmts []int16
}

func (w *wireSess) readFull(n int) ([]byte, bool) {
	b := make([]byte, n)
	for k := 0; k < n; {
		m, err := w.c.Read(b[k:])
		if err != nil {
			return nil, false
		}
		k += m
	}
	return b, true
}

func (w *wireSess) msg(t byte, body []byte) {
	w.out = append(w.out, wireMsg(t, body)...)
}

func wireMsg(t byte, body []byte) []byte {
	b := append([]byte{t}, 0, 0, 0, 0)
	binary.BigEndian.PutUint32(b[1:], uint32(len(body)+4))
	return append(b, body...)
}

func (w *wireSess) flush() {
	hb()
	defer hb()
	if len(w.out) > 0 && !w.c.shut {
		_, _ = w.c.Write(w.out)
	}
	w.out = nil
}

func (w *wireSess) fail(err error) {
	code, m := "XX000", err.Error()
	var de *dbError
	if errors.As(err, &de) {
		code, m = de.Code, de.Msg
	}
	if errors.Is(err, context.Canceled) {
		code, m = "57014", "canceling statement due to user request"
	}
	w.msg('E', wireErr("ERROR", code, m))
}

func wireErr(sev, code, m string) []byte {
	var b []byte
	for _, f := range []string{"S" + sev, "V" + sev, "C" + code, "M" + m} {
		b = append(append(b, f...), 0)
	}
	return append(b, 0)
}

func (w *wireSess) ready() {
	st := byte('I')
	if w.ss.tx != nil {
		st = 'T'
		if w.ss.tx.aborted {
			st = 'E'
		}
	}
	if w.ss.tx == nil {
		for _, p := range w.pending {
			w.out = append(w.out, p...)
		}
		w.pending = nil
	}
	w.msg('Z', []byte{st})
}

// notify hands a notification to the session, as soon as the protocol allows.
func (w *wireSess) notify(channel, payload string, pid int) {
	hb()
	defer hb()
	b := binary.BigEndian.AppendUint32(nil, uint32(pid))
	b = append(append(b, channel...), 0)
	b = append(append(b, payload...), 0)
	m := wireMsg('A', b)
	if w.busy || w.ss.tx != nil {
		w.pending = append(w.pending, m)
		return
	}
	if !w.c.shut {
		_, _ = w.c.Write(m)
	}
}

func (w *wireSess) serve() {
	hb()
	defer hb()
	defer func() {
		if w.ss != nil {
			w.ss.kill()
		}
		if !w.c.shut {
			_ = w.c.Close()
		}
	}()
	s := w.srv
	params := map[string]string{}
	for {
		h, ok := w.readFull(4)
		if !ok {
			return
		}
		n := int(binary.BigEndian.Uint32(h)) - 4
		if n < 4 || n > 100000 {
			return
		}
		body, ok := w.readFull(n)
		if !ok {
			return
		}
		switch code := binary.BigEndian.Uint32(body); code {
		case 80877103: // SSL
			_, _ = w.c.Write([]byte{'N'})
			continue
		case 80877102: // cancel
			pid := int(binary.BigEndian.Uint32(body[4:]))
			hb()
			if o := s.wires[pid]; o != nil && o.cancel != nil {
				s.e.Probe("wire-cancel-request")
				o.cancel()
			}
			return
		}
		for b := body[4:]; len(b) > 1; {
			var k, v string
			k, b = cstr(b)
			v, b = cstr(b)
			params[k] = v
		}
		break
	}
	f, hit := s.fault("startup")
	if err := s.latency(context.Background(), slowMS(f, hit)); err != nil {
		return
	}
	if hit {
		switch f.Kind {
		case "err", "garbage":
			w.msg('E', wireErr("FATAL", "53300", "sorry, too many clients already"))
			w.flush()
			return
		case "drop", "badconn":
			w.c.abort()
			return
		case "crash":
			s.crash(f.MS)
		}
	}
	if s.login != nil {
		w.msg('R', []byte{0, 0, 0, 3})
		w.flush()
		h, ok := w.readFull(5)
		if !ok || h[0] != 'p' {
			return
		}
		body, ok := w.readFull(int(binary.BigEndian.Uint32(h[1:])) - 4)
		if !ok {
			return
		}
		pw, _ := cstr(body)
		if err := s.login(w.who, params, pw); err != nil {
			w.msg('E', wireErr("FATAL", "28P01", err.Error()))
			w.flush()
			return
		}
	}
	ss, err := s.connect()
	if err != nil {
		w.msg('E', wireErr("FATAL", "57P03", "the database system is starting up"))
		w.flush()
		return
	}
	w.ss, w.pid = ss, ss.id
	ss.wire, ss.proc = true, w.proc
	ss.notify = w.notify
	ss.onDie = func() {
		if w.cancel != nil {
			w.cancel()
		}
		if !w.c.shut {
			if s.politeCrash {
				_, _ = w.c.Write(wireMsg('E', wireErr("FATAL", "57P01", "terminating connection due to administrator command")))
				_ = w.c.Close()
			} else {
				w.c.abort()
			}
		}
	}
	hb()
	if s.wires == nil {
		s.wires = map[int]*wireSess{}
	}
	s.wires[w.pid] = w
	hb()
	w.stmts, w.portals = map[string]*wireStmt{}, map[string]*wirePortal{}
	w.msg('R', []byte{0, 0, 0, 0})
	zone := "UTC"
	if s.zone != nil {
		zone = "<zone>"
	}
	for _, kv := range [][2]string{{"server_version", "16.3"}, {"client_encoding", "UTF8"}, {"TimeZone", zone}, {"DateStyle", "ISO, MDY"}} {
		w.msg('S', []byte(kv[0]+"\x00"+kv[1]+"\x00"))
	}
	w.msg('K', binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, uint32(w.pid)), 0x5eed))
	w.ready()
	if hit && f.Kind == "dropafter" {
		w.flush()
		w.c.abort()
		return
	}
	w.flush()
	for {
		h, ok := w.readFull(5)
		if !ok {
			return
		}
		n := int(binary.BigEndian.Uint32(h[1:])) - 4
		if n < 0 || n > 10_000_000 {
			return
		}
		body, ok := w.readFull(n)
		if !ok || ss.dead {
			return
		}
		w.busy = true
		if !w.handle(h[0], body) {
			return
		}
		if h[0] == 'Q' || h[0] == 'S' {
			w.busy = false
		}
	}
}

func cstr(b []byte) (string, []byte) {
	for i, c := range b {
		if c == 0 {
			return string(b[:i]), b[i+1:]
		}
	}
	return string(b), nil
}

// step is the common part of every exchange that executes something.
func (w *wireSess) step(q string) (ctx context.Context, after bool, ok bool, err error) {
	s := w.srv
	ctx, w.cancel = context.WithCancel(context.Background())
	hb()
	if s.step(w.proc, "query") {
		return ctx, false, false, nil
	}
	f, hit := s.fault("query")
	if hit {
		switch f.Kind {
		case "drop", "badconn":
			w.ss.kill()
			return ctx, false, false, nil
		case "crash":
			s.crash(f.MS)
			return ctx, false, false, nil
		case "cancel":
			if s.onCancel != nil {
				s.onCancel()
			}
		}
	}
	err = s.latency(ctx, slowMS(f, hit))
	if w.ss.dead {
		return ctx, false, false, nil
	}
	if err == nil && hit && (f.Kind == "err" || f.Kind == "garbage") {
		err = &dbError{Code: "XX000", Msg: "injected failure"}
	}
	if err != nil && w.ss.tx != nil {
		w.ss.tx.aborted = true
	}
	return ctx, hit && f.Kind == "dropafter", true, err
}

func (w *wireSess) run(q string, args []val) (rs *resultSet, after, ok bool, err error) {
	ctx, after, ok, err := w.step(q)
	defer func() { w.cancel(); w.cancel = nil }()
	if !ok || err != nil {
		return nil, after, ok, err
	}
	if up := strings.ToUpper(squash(q)); strings.HasPrefix(up, "COMMIT") && w.ss.tx != nil && w.ss.tx.aborted {
		w.ss.rollback()
		return &resultSet{Tag: "ROLLBACK"}, after, true, nil
	}
	rs, err = w.ss.exec(ctx, q, args)
	if w.ss.dead {
		return nil, after, false, nil
	}
	return rs, after, true, err
}

// handle processes one message; false ends the session.
func (w *wireSess) handle(t byte, body []byte) bool {
	hb()
	defer hb()
	if w.skip && t != 'S' && t != 'X' {
		return true
	}
	switch t {
	case 'X':
		return false
	case 'Q':
		q, _ := cstr(body)
		if strings.Trim(q, " ;\n\t") == "" {
			f, hit := w.srv.fault("ping")
			if hit && (f.Kind == "drop" || f.Kind == "badconn" || f.Kind == "dropafter") {
				w.ss.kill()
				return false
			}
			if hit && f.Kind == "crash" {
				w.srv.crash(f.MS)
				return false
			}
			if err := w.srv.latency(context.Background(), slowMS(f, hit)); err != nil || w.ss.dead {
				return false
			}
			if hit && (f.Kind == "err" || f.Kind == "garbage") {
				w.fail(&dbError{Code: "XX000", Msg: "injected failure"})
			} else {
				w.msg('I', nil)
			}
			w.ready()
			w.flush()
			return true
		}
		rs, after, ok, err := w.run(q, nil)
		if !ok {
			return false
		}
		if after {
			w.ss.kill()
			return false
		}
		if err != nil {
			w.fail(err)
		} else {
			if len(rs.Cols) > 0 {
				w.rowDesc(rs.Cols, nil)
				for _, r := range rs.Rows {
					w.dataRow(rs.Cols, r, nil)
				}
			}
			w.complete(rs)
		}
		w.ready()
		w.flush()
	case 'P':
		name, b := cstr(body)
		q, _ := cstr(b)
		st := &wireStmt{q: q}
		toks, err := lex(q)
		if err != nil {
			w.fail(err)
			w.skip = true
			return true
		}
		for _, t := range toks {
			if t.k == 'a' {
				if k, _ := strconv.Atoi(t.v); k > st.n {
					st.n = k
				}
			}
		}
		if st.cols, err = w.describe(st); err != nil {
			w.fail(err)
			w.skip = true
			return true
		}
		w.stmts[name] = st
		w.msg('1', nil)
	case 'D':
		name, _ := cstr(body[1:])
		st := w.stmts[name]
		if body[0] == 'P' {
			st = nil
			if p := w.portals[name]; p != nil {
				st = p.st
			}
		}
		if st == nil {
			w.fail(&dbError{Code: "26000", Msg: "no such statement"})
			w.skip = true
			return true
		}
		if body[0] == 'S' {
			b := binary.BigEndian.AppendUint16(nil, uint16(st.n))
			for i := 0; i < st.n; i++ {
				b = binary.BigEndian.AppendUint32(b, 25)
			}
			w.msg('t', b)
		}
		if len(st.cols) == 0 {
			w.msg('n', nil)
		} else {
			w.rowDesc(st.cols, nil)
		}
	case 'B':
		pn, b := cstr(body)
		sn, b := cstr(b)
		st := w.stmts[sn]
		if st == nil {
			w.fail(&dbError{Code: "26000", Msg: "no such statement"})
			w.skip = true
			return true
		}
		i16 := func() int { v := int(binary.BigEndian.Uint16(b)); b = b[2:]; return v }
		pf := make([]int, i16())
		for i := range pf {
			pf[i] = i16()
		}
		args := make([]val, i16())
		for i := range args {
			n := int32(binary.BigEndian.Uint32(b))
			b = b[4:]
			if n >= 0 {
				args[i] = string(b[:n])
				b = b[n:]
			}
		}
		p := &wirePortal{st: st, args: args}
		p.fmts = make([]int16, i16())
		for i := range p.fmts {
			p.fmts[i] = int16(i16())
		}
		w.portals[pn] = p
		w.msg('2', nil)
	case 'E':
		pn, _ := cstr(body)
		p := w.portals[pn]
		if p == nil {
			w.fail(&dbError{Code: "34000", Msg: "no such portal"})
			w.skip = true
			return true
		}
		rs, after, ok, err := w.run(p.st.q, p.args)
		if !ok {
			return false
		}
		if after {
			w.ss.kill()
			return false
		}
		if err != nil {
			w.fail(err)
			w.skip = true
			return true
		}
		for _, r := range rs.Rows {
			w.dataRow(rs.Cols, r, p.fmts)
		}
		w.complete(rs)
	case 'C':
		name, _ := cstr(body[1:])
		if body[0] == 'S' {
			delete(w.stmts, name)
		} else {
			delete(w.portals, name)
		}
		w.msg('3', nil)
	case 'H':
		w.flush()
	case 'S':
		w.skip = false
		w.ready()
		w.flush()
	default:
		w.fail(&dbError{Code: "08P01", Msg: fmt.Sprintf("unexpected message %q", t)})
		w.flush()
		return false
	}
	return true
}

func (w *wireSess) complete(rs *resultSet) {
	tag := rs.Tag
	if tag == "" {
		if len(rs.Cols) > 0 {
			tag = fmt.Sprintf("SELECT %d", len(rs.Rows))
		} else {
			tag = "DO"
		}
	}
	w.msg('C', append([]byte(tag), 0))
}

// describe finds the columns a statement will return, without executing it.
func (w *wireSess) describe(st *wireStmt) ([]dbCol, error) {
	n := squash(st.q)
	if strings.HasPrefix(n, "select pg_advisory_lock") {
		return []dbCol{{"pg_advisory_lock", "text"}}, nil
	}
	if strings.HasPrefix(n, "select pg_advisory_unlock") {
		return []dbCol{{"pg_advisory_unlock", "bool"}}, nil
	}
	if !strings.HasPrefix(n, "select") && !strings.HasPrefix(n, "with") {
		return nil, nil
	}
	s := w.srv
	kl, bf := s.keepLog, s.before
	s.keepLog, s.before = false, nil
	defer func() { s.keepLog, s.before = kl, bf }()
	ab := w.ss.tx != nil && w.ss.tx.aborted
	rs, err := w.ss.exec(context.Background(), st.q, make([]val, st.n))
	if w.ss.tx != nil {
		w.ss.tx.aborted = ab
	}
	if err != nil {
		return nil, err
	}
	return rs.Cols, nil
}

func wireOID(t string) uint32 {
	t, _, _ = strings.Cut(strings.ToLower(t), "(")
	switch strings.TrimSpace(t) {
	case "int8", "bigint":
		return 20
	case "int4", "int", "integer":
		return 23
	case "int2", "smallint":
		return 21
	case "bool", "boolean":
		return 16
	case "float8", "double precision":
		return 701
	case "bytea":
		return 17
	case "timestamptz":
		return 1184
	case "timestamp":
		return 1114
	case "uuid":
		return 2950
	case "jsonb":
		return 3802
	case "numeric":
		return 1700
	case "_int8":
		return 1016
	}
	return 25
}

func (w *wireSess) rowDesc(cols []dbCol, fmts []int16) {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
	for _, c := range cols {
		b = append(append(b, c.Name...), 0)
		b = binary.BigEndian.AppendUint32(b, 0)
		b = binary.BigEndian.AppendUint16(b, 0)
		b = binary.BigEndian.AppendUint32(b, wireOID(c.Type))
		b = binary.BigEndian.AppendUint16(b, 0xffff)
		b = binary.BigEndian.AppendUint32(b, 0xffffffff)
		b = binary.BigEndian.AppendUint16(b, 0)
	}
	w.msg('T', b)
}

func (w *wireSess) dataRow(cols []dbCol, row []val, fmts []int16) {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(row)))
	for i, v := range row {
		if v == nil {
			b = binary.BigEndian.AppendUint32(b, 0xffffffff)
			continue
		}
		bin := false
		switch {
		case len(fmts) == 1:
			bin = fmts[0] == 1
		case i < len(fmts):
			bin = fmts[i] == 1
		}
		if t, ok := v.(time.Time); ok && w.srv.zone != nil && wireOID(cols[i].Type) == 1184 {
			v = zoned(t.In(w.srv.zone))
		}
		d := wireValue(v, wireOID(cols[i].Type), bin)
		b = binary.BigEndian.AppendUint32(b, uint32(len(d)))
		b = append(b, d...)
	}
	w.msg('D', b)
}

// zoned is a timestamptz as a session in its time zone prints it.
func zoned(t time.Time) string {
	f := "2006-01-02 15:04:05.999999-07"
	if _, off := t.Zone(); off%60 != 0 {
		f += ":00:00"
	} else if off%3600 != 0 {
		f += ":00"
	}
	return t.Format(f)
}

func wireValue(v val, oid uint32, bin bool) []byte {
	if bin && oid == 2950 {
		b, _ := hex.DecodeString(strings.ReplaceAll(fmt.Sprintf("%s", v), "-", ""))
		return b
	}
	if bin {
		n := int64(0)
		switch x := v.(type) {
		case int64:
			n = x
		case string:
			n, _ = strconv.ParseInt(x, 10, 64)
		case []byte:
			if oid == 17 {
				return x
			}
			n, _ = strconv.ParseInt(string(x), 10, 64)
		}
		switch oid {
		case 20:
			return binary.BigEndian.AppendUint64(nil, uint64(n))
		case 23:
			return binary.BigEndian.AppendUint32(nil, uint32(n))
		case 21:
			return binary.BigEndian.AppendUint16(nil, uint16(n))
		}
	}
	switch x := v.(type) {
	case bool:
		if x {
			return []byte("t")
		}
		return []byte("f")
	case []byte:
		if oid == 17 {
			return []byte(`\x` + hex.EncodeToString(x))
		}
		return x
	case time.Time:
		return []byte(x.UTC().Format("2006-01-02 15:04:05.999999-07"))
	}
	return []byte(fmt.Sprint(v))
}

// coerce gives an argument that arrived as text the type of its column.
func coerce(ty string, v val) val {
	s, ok := v.(string)
	if !ok {
		return v
	}
	switch wireOID(ty) {
	case 20, 21, 23:
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	case 16:
		if b, err := strconv.ParseBool(s); err == nil {
			return b
		}
	case 701:
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
	}
	return v
}

// Publish sends a notification to every session that listens.
func (s *Server) Publish(channel, payload string, pid int) {
	hb()
	defer hb()
	m := s.chans[channel]
	for _, id := range sortedSess(m) {
		if ss := m[id]; ss != nil && ss.notify != nil {
			ss.notify(channel, payload, pid)
		}
	}
}

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/notifier"
)

// C14 and C15: the notifier, on the real lib/pq, against the simulated server.

type ntTopic struct {
	Name   string `json:"name"`
	SlowMS int    `json:"slow_ms,omitempty"`
	Stuck  int    `json:"stuck,omitempty"` // the callback waits from this message on (1 is the first), until released
	Nest   string `json:"nest,omitempty"`  // what the callback itself does once: listen cancel close publish
	NestAt int    `json:"nest_at,omitempty"`
	Refuse int    `json:"refuse,omitempty"` // how many LISTENs the server refuses, in runs whose connection holds
}

type ntOp struct {
	Op    string `json:"op"` // listen dup pub pubother cancel sleep settle crash stall release close
	T     int    `json:"t"`
	N     int    `json:"n,omitempty"`
	MS    int    `json:"ms,omitempty"`
	Kind  int    `json:"kind,omitempty"`
	Async bool   `json:"async,omitempty"`
}

type ntCase struct {
	Topics []ntTopic `json:"topics"`
	Ops    []ntOp    `json:"ops"`
	Faults []dbFault `json:"faults,omitempty"`
	Polite bool      `json:"polite,omitempty"`
	Short  int       `json:"short,omitempty"`
	MinMS  int       `json:"min_ms,omitempty"`
	MaxMS  int       `json:"max_ms,omitempty"`
	JitUS  int       `json:"jit_us"`
}

func ntGen(r *R, life bool) ntCase {
	c := ntCase{Polite: r.P(40), Short: pick(r, 0, 0, 10, 60), JitUS: pick(r, 0, 200, 5000)}
	if r.P(60) {
		c.MinMS = pick(r, 1, 100, 1000)
		c.MaxMS = c.MinMS * pick(r, 1, 4, 60)
	}
	names := []string{"events", "Events", "jobs", "ch 1", "таблица", "a.b", strings.Repeat("x", 63)}
	nt := pick(r, 1, 1, 2, 2, 3, 4)
	at := r.Intn(len(names))
	for i := 0; i < nt; i++ {
		t := ntTopic{Name: names[(at+i)%len(names)]}
		switch r.Intn(6) {
		case 0:
			t.SlowMS = pick(r, 1, 20, 500)
		case 1:
			if life || r.P(40) {
				t.Stuck = r.Range(1, 4)
			}
		}
		if r.P(12) {
			t.Nest, t.NestAt = pick(r, "listen", "cancel", "close", "publish"), r.Range(1, 3)
			if !life && t.Nest == "close" {
				t.Nest = "publish"
			}
		}
		c.Topics = append(c.Topics, t)
	}
	for i := 0; i < nt; i++ {
		if i == 0 || r.P(85) {
			c.Ops = append(c.Ops, ntOp{Op: "listen", T: i, Async: r.P(20)})
			if r.P(15) {
				c.Ops = append(c.Ops, ntOp{Op: "pub", T: r.Intn(nt), N: r.Range(1, 5)})
			}
		}
	}
	if r.P(60) {
		c.Ops = append(c.Ops, ntOp{Op: "settle"})
	}
	disrupt := life && r.P(75) || r.P(45)
	if !disrupt && r.P(30) {
		c.Topics[r.Intn(nt)].Refuse = r.Range(1, 2)
		if r.P(60) { // lib/pq is connected by then
			c.Ops = append([]ntOp{{Op: "sleep", MS: 4000}}, c.Ops...)
		}
	}
	n := r.Range(3, 10)
	for i := 0; i < n; i++ {
		o := ntOp{T: r.Intn(nt)}
		switch x := r.Intn(100); {
		case x < 40:
			o.Op, o.N = "pub", pick(r, 1, 1, 2, 3, 5, 10, 40, 90, 200)
			if disrupt {
				o.Kind = r.Intn(9)
			} else {
				o.Kind = r.Intn(12)
			}
			o.MS = pick(r, 0, 0, 0, 1, 10)
			o.Async = r.P(30)
		case x < 44:
			o.Op, o.N = "pubother", r.Range(1, 3)
		case x < 56:
			o.Op = "settle"
		case x < 66:
			o.Op, o.MS = "sleep", pick(r, 0, 1, 20, 1000, 61_000, 200_000)
		case x < 74:
			o.Op, o.Async = "listen", r.P(50)
		case x < 76:
			o.Op = "dup"
		case x < 84:
			if !life && r.P(50) {
				o.Op = "settle"
			} else {
				o.Op, o.Async = "cancel", r.P(30)
			}
		case x < 93 && disrupt:
			o.Op, o.MS, o.Async = "crash", pick(r, 0, 0, 5, 300, 5000), r.P(50)
		case x < 96 && disrupt:
			o.Op, o.MS = "stall", pick(r, 5, 100, 3000)
		case x < 97 && life:
			o.Op, o.Async = "close", r.P(70)
		default:
			o.Op = "release"
		}
		c.Ops = append(c.Ops, o)
	}
	if disrupt {
		c.Faults = genFaults(r, []string{"dial", "startup", "query", "query", "ping"}, []string{"drop", "dropafter", "slow", "crash", "err"}, 8)
		for i := range c.Faults {
			f := &c.Faults[i]
			if (f.Point == "query" || f.Point == "ping") && f.Kind == "err" {
				f.Kind = "drop" // lib/pq itself loses a goroutine when a LISTEN is refused while it reconnects, and panics when an empty query is
			}
		}
	}
	if life && r.P(30) {
		c.Ops = append(c.Ops, ntOp{Op: "close", Async: r.P(50)})
		if r.P(60) {
			c.Ops = append(c.Ops, pick(r, ntOp{Op: "listen", T: r.Intn(nt)}, ntOp{Op: "cancel", T: r.Intn(nt)}, ntOp{Op: "pub", T: r.Intn(nt), N: 3}, ntOp{Op: "crash"}))
		}
	} else if r.P(70) {
		c.Ops = append(c.Ops, ntOp{Op: "settle"})
		if r.P(60) {
			c.Ops = append(c.Ops, ntOp{Op: "pub", T: r.Intn(nt), N: r.Range(1, 80)}, ntOp{Op: "settle"})
		}
	}
	return c
}

type ntMsg struct {
	payload string
}

type ntSub struct {
	t       int
	name    string
	ctx     context.Context
	cancel  context.CancelFunc
	done    bool // Listen returned
	err     error
	retSeq  int
	ended   bool
	busy    bool
	count   int
	gone    bool // its context has ended
	late    int  // notifications handed over after the end
	last    int
	got     map[int]bool
	must    []ntMust
	release chan struct{}
	freed   bool
	dup     bool
	endAt   time.Time
}

type ntMust struct {
	idx, sess int
}

type ntProvider struct {
	xdb.Provider
	cs string
}

func (p ntProvider) ConnectionString() string { return p.cs }

type ntRun struct {
	e        *Env
	c        ntCase
	srv      *Server
	l        notifier.Listener
	subs     []*ntSub
	active   map[int]*ntSub
	pubs     map[int][]ntMsg
	listenAt map[int]map[string]int // session, channel: event number of LISTEN
	lastL    map[int]time.Time
	stallTo  time.Time
	closing  bool
	closed   int // Close calls that returned
	closes   int
	pend     int // asynchronous operations under way
	slowSum  time.Duration
	crashAt  time.Time
	nested   map[int]bool
	refused  map[string]int // event number of the last LISTEN refused
	n        int
}

func (n *ntRun) payload(kind int) string {
	n.n++
	switch kind {
	case 0:
		return fmt.Sprintf(`{"id":%d,"name":"n %d","list":[1,"x"],"deep":{"a":null}}`, n.n, n.n)
	case 1:
		return fmt.Sprintf("plain %d", n.n)
	case 2:
		return fmt.Sprintf(`{"id":"%d","ü":"\u00e9 %s"}`, n.n, strings.Repeat("y", 6000))
	case 3:
		return fmt.Sprintf(`[%d]`, n.n)
	case 4:
		return fmt.Sprint(n.n)
	case 5:
		return fmt.Sprintf(" \t%d \n", n.n)
	case 6:
		return fmt.Sprintf("\n {\"id\": %d, \"s\": \" \"} ", n.n)
	case 7:
		return fmt.Sprintf("{\"broken %d\": ", n.n)
	case 8:
		return fmt.Sprintf("'quoted' \"%d\" \\ %%s null\u2028 é", n.n)
	case 9:
		return ""
	case 10:
		return "{}"
	}
	return "[]"
}

func (n *ntRun) established(s *ntSub) (int, bool) {
	m := n.srv.chans[s.name]
	ids := sortedSess(m)
	if len(ids) != 1 || !s.done || s.err != nil {
		return 0, false
	}
	id := ids[0]
	if n.listenAt[id][s.name] < s.retSeq {
		return id, true
	}
	for _, o := range n.active {
		if o.done && o.err == nil && !o.ended && n.srv.chans[o.name][id] == nil {
			return id, false
		}
	}
	if time.Since(n.lastL[id]) < time.Second+n.slowSum || time.Now().Before(n.stallTo.Add(time.Second)) {
		return id, false
	}
	return id, true
}

func (n *ntRun) publish(o ntOp) {
	name := n.c.Topics[o.T].Name
	for i := 0; i < o.N; i++ {
		kind, owed, id := o.Kind, false, 0
		s := n.active[o.T]
		if s != nil && !s.ended && !n.closing {
			id, owed = n.established(s)
		}
		if kind >= 9 && (!owed || n.subsOf(o.T) > 1) {
			kind = 0 // payloads that are not unique are sent only when each must arrive
		}
		p := n.payload(kind)
		n.pubs[o.T] = append(n.pubs[o.T], ntMsg{p})
		if owed {
			s.must = append(s.must, ntMust{len(n.pubs[o.T]) - 1, id})
			n.e.Probe("delivery-owed")
		}
		n.srv.Publish(name, p, 77)
		if o.MS > 0 {
			time.Sleep(time.Duration(o.MS) * time.Millisecond)
		}
	}
}

func (n *ntRun) subsOf(t int) int {
	k := 0
	for _, s := range n.subs {
		if s.t == t {
			k++
		}
	}
	return k
}

func (n *ntRun) callback(s *ntSub, x *notifier.Notification) {
	e := n.e
	if x == nil {
		e.Failf("empty", "the subscriber of %q was given no notification at all", s.name)
		return
	}
	s.count++
	if s.gone {
		// One may have been on its way.
		if s.late++; s.late > 3 {
			e.Failf("served-after-end", "the subscriber of %q is still given notifications, %d so far, after its subscription ended", s.name, s.late)
		}
	}
	e.Logf("sub %d got %s %.40q", s.t, x.Channel, x.RawPayload)
	if s.busy {
		e.Failf("concurrent", "two notifications are handed to the subscriber of %q at the same time", s.name)
	}
	if x.Channel != s.name {
		e.Failf("wrong-channel", "the subscriber of %q was given a notification of %q", s.name, x.Channel)
		return
	}
	at := -1
	for i := s.last + 1; i < len(n.pubs[s.t]); i++ {
		if n.pubs[s.t][i].payload == x.RawPayload {
			at = i
			break
		}
	}
	if at < 0 {
		for i := 0; i <= s.last && i < len(n.pubs[s.t]); i++ {
			if n.pubs[s.t][i].payload == x.RawPayload {
				e.Failf("order", "the subscriber of %q was given message %d (%.60q) after message %d: repeated or out of order", s.name, i, x.RawPayload, s.last)
				return
			}
		}
		e.Failf("payload", "the subscriber of %q was given payload %.80q, which was not sent", s.name, x.RawPayload)
		return
	}
	s.last = at
	s.got[at] = true
	var want map[string]any
	if strings.HasPrefix(strings.TrimSpace(x.RawPayload), "{") {
		if json.Unmarshal([]byte(x.RawPayload), &want) == nil && len(want) > 0 {
			if got := map[string]any(x.Payload); !reflect.DeepEqual(got, want) {
				e.Failf("payload", "payload %.80q was handed over as %v", x.RawPayload, got)
			}
		}
	}
	if len(want) == 0 && len(x.Payload) > 0 {
		e.Failf("payload", "payload %.80q was handed over as %v", x.RawPayload, x.Payload)
	}
	t := n.c.Topics[s.t]
	s.busy = true
	if t.Nest != "" && s.count == t.NestAt && !n.nested[s.t] {
		n.nested[s.t] = true
		e.Probe("nested-" + t.Nest)
		switch t.Nest {
		case "listen":
			for i := range n.c.Topics {
				if n.active[i] == nil {
					n.listen(i, false)
					break
				}
			}
		case "cancel":
			s.end()
		case "close":
			n.close()
		case "publish":
			n.publish(ntOp{T: s.t, N: 2})
		}
	}
	if t.SlowMS > 0 {
		time.Sleep(time.Duration(t.SlowMS) * time.Millisecond)
	}
	if t.Stuck > 0 && s.count >= t.Stuck && !s.freed {
		e.Probe("stuck-consumer")
		<-s.release
	}
	s.busy = false
}

func (s *ntSub) end() {
	if !s.ended {
		s.ended = true
		s.endAt = time.Now()
		s.cancel()
		s.gone = true
	}
}

func (s *ntSub) free() {
	if !s.freed {
		s.freed = true
		close(s.release)
	}
}

func (n *ntRun) listen(t int, dup bool) {
	e := n.e
	e.Op()
	ctx, cancel := context.WithCancel(context.Background())
	s := &ntSub{t: t, name: n.c.Topics[t].Name, ctx: ctx, cancel: cancel, last: -1, got: map[int]bool{}, release: make(chan struct{}), dup: dup}
	prev := n.active[t]
	// An earlier subscription that ended long ago must not be in the way.
	again := prev != nil && prev.ended && !dup && !prev.busy && !n.closing && time.Since(prev.endAt) > 5*time.Second+n.slowSum &&
		time.Since(n.stallTo) > 5*time.Second && len(n.srv.chans[s.name]) == 0 && len(n.srv.sess) > 0 && time.Since(n.crashAt) > 5*time.Second
	if !dup {
		n.active[t] = s
	}
	n.subs = append(n.subs, s)
	inv := e.Seq()
	err := n.l.Listen(ctx, s.name, func(x *notifier.Notification) { n.callback(s, x) })
	s.retSeq = e.Seq()
	s.done, s.err = true, err
	e.Logf("listen %d: %v", t, err)
	if n.refused[s.name] > inv && !dup && !n.closing {
		if err == nil {
			e.Failf("refusal-hidden", "Listen(%q) reported success although the server refused to subscribe", s.name)
			return
		}
		// There is no subscription: the next attempt starts afresh.
		e.Probe("listen-refused")
		cancel()
		for i := range n.subs {
			if n.subs[i] == s {
				n.subs = append(n.subs[:i:i], n.subs[i+1:]...)
				break
			}
		}
		if n.active[t] == s {
			n.active[t] = prev
			if prev == nil {
				delete(n.active, t)
			}
			n.listen(t, false)
		}
		return
	}
	if err != nil {
		if !n.closing && n.subsOf(t) == 1 {
			e.Failf("listen-failed", "Listen(%q): %v", s.name, err)
		}
		if again && !n.closing {
			e.Failf("not-ended", "Listen(%q) after the earlier subscription ended: %v", s.name, err)
		}
		cancel()
		if n.active[t] == s {
			n.active[t] = prev
			if prev == nil {
				delete(n.active, t)
			}
		}
	} else if dup && prev != nil {
		prev.must = nil // two subscriptions of one channel: nothing is claimed
		prev.dup = true
	}
}

func (n *ntRun) close() {
	n.e.Op()
	n.closing = true
	n.closes++
	err := n.l.Close()
	n.e.Logf("close: %v", err)
	n.closed++
}

// settle waits until what is owed has been delivered.
func (n *ntRun) settle() {
	e := n.e
	start := time.Now()
	limit := 20*time.Second + 2*n.slowSum
	// Reconnecting takes at most as many attempts as there are faults.
	mx := time.Duration(n.c.MaxMS) * time.Millisecond
	if mx == 0 {
		mx = time.Minute
	}
	limit += time.Duration(len(n.c.Faults)+3) * mx
	if d := time.Until(n.srv.downTo); d > 0 {
		limit += d
	}
	if d := time.Until(n.stallTo); d > 0 {
		limit += d
	}
	seen := n.progress()
	for {
		why := n.owed()
		if why == "" {
			return
		}
		if e.Failed() {
			return
		}
		if time.Since(start) > limit {
			cls, msg, _ := strings.Cut(why, ":")
			e.Failf(cls, "%s, %v after the last event\n%s", strings.TrimSpace(msg), time.Since(start), repoStacks())
			return
		}
		time.Sleep(time.Second)
		if p := n.progress(); p != seen {
			seen, start = p, time.Now()
		}
	}
}

func (n *ntRun) progress() int {
	k := n.n
	for _, s := range n.subs {
		k += s.count
	}
	return k
}

func (n *ntRun) stuck(s *ntSub) bool {
	t := n.c.Topics[s.t]
	return t.Stuck > 0 && !s.freed && s.busy
}

// live reports whether some subscription of a topic has not been ended.
func (n *ntRun) live(t int) bool {
	for _, s := range n.subs {
		if s.t == t && !s.ended && s.err == nil {
			return true
		}
	}
	return false
}

func (n *ntRun) owed() string {
	for _, s := range n.subs {
		if n.closing {
			if !s.done {
				return fmt.Sprintf("listen-hang: Listen(%q) does not return though the notifier was closed", s.name)
			}
			continue
		}
		if !s.done {
			return fmt.Sprintf("listen-hang: Listen(%q) does not return", s.name)
		}
		if s.err != nil || s.dup {
			continue
		}
		if s.ended {
			if n.active[s.t] == s && !n.live(s.t) && len(n.srv.chans[s.name]) > 0 && !n.stuck(s) {
				return fmt.Sprintf("not-ended: the subscription to %q stays on the server though its context ended", s.name)
			}
			continue
		}
		if _, ok := n.established(s); !ok {
			return fmt.Sprintf("not-restored: the subscription to %q is not re-established", s.name)
		}
		if n.stuck(s) {
			continue
		}
		for _, m := range s.must {
			if n.srv.sess[m.sess] != nil && !s.got[m.idx] {
				return fmt.Sprintf("lost: message %d of %q (%.60q), sent while subscribed over a connection that holds, was not delivered", m.idx, s.name, n.pubs[s.t][m.idx].payload)
			}
		}
	}
	if n.closing && n.closed < n.closes {
		return "close-hang: Close does not return"
	}
	return ""
}

func ntExec(e *Env, c ntCase) {
	srv := newServer(e, e.Seed, "postgres")
	srv.faults, srv.short, srv.politeCrash, srv.jitUS = c.Faults, c.Short, c.Polite, c.JitUS
	srv.keepLog = false
	srv.attach("simhost:5432")
	n := &ntRun{e: e, c: c, srv: srv, active: map[int]*ntSub{}, pubs: map[int][]ntMsg{}, listenAt: map[int]map[string]int{},
		lastL: map[int]time.Time{}, nested: map[int]bool{}, refused: map[string]int{}}
	holds, refuse := len(c.Faults) == 0, map[string]int{}
	for _, o := range c.Ops {
		holds = holds && o.Op != "crash" && o.Op != "stall"
	}
	for _, t := range c.Topics {
		refuse[t.Name] = t.Refuse
	}
	refusing := false
	srv.hook = func(s *Session, q string, args []val) (*resultSet, error, bool) {
		if refusing {
			refusing = false
			return nil, &dbError{Code: "53200", Msg: "out of shared memory"}, true
		}
		return nil, nil, false
	}
	for _, f := range c.Faults {
		if f.Kind == "slow" {
			n.slowSum += time.Duration(f.MS) * time.Millisecond
		}
	}
	srv.before = func(s *Session, q string) {
		if strings.HasPrefix(q, "LISTEN ") {
			toks, err := lex(q)
			if err == nil && len(toks) > 1 {
				if ch := toks[1].v; holds && refuse[ch] > 0 && time.Since(e.start) > 3*time.Second {
					refuse[ch]--
					refusing = true
					n.refused[ch] = e.Seq()
					e.Fault("listen-refused")
					return
				}
				if n.listenAt[s.id] == nil {
					n.listenAt[s.id] = map[string]int{}
				}
				n.listenAt[s.id][toks[1].v] = e.Seq()
				n.lastL[s.id] = time.Now()
				if s.id > 1 {
					e.Probe("listen-after-reconnect")
				}
			}
		}
	}
	g0 := goroutinesInRun()
	p := ntProvider{cs: ntSource}
	n.l = notifier.NewListener(p, time.Duration(c.MinMS)*time.Millisecond, time.Duration(c.MaxMS)*time.Millisecond)
	for _, o := range c.Ops {
		if e.Failed() {
			return
		}
		if o.T >= len(c.Topics) {
			continue
		}
		e.Logf("op %+v", o)
		f := func() {
			switch o.Op {
			case "listen":
				if s := n.active[o.T]; s == nil || s.ended {
					n.listen(o.T, false)
				}
			case "dup":
				if s := n.active[o.T]; s != nil && !s.ended && !n.closing {
					n.listen(o.T, true)
				}
			case "pub":
				n.publish(o)
			case "cancel":
				if s := n.active[o.T]; s != nil {
					s.end()
				}
			case "crash":
				e.Fault("connection-loss")
				n.crashAt = time.Now()
				srv.crash(o.MS)
			case "close":
				n.close()
			}
		}
		switch o.Op {
		case "listen", "pub", "cancel", "crash", "close", "dup":
			if o.Async || o.Op == "close" || o.Op == "listen" || o.Op == "dup" {
				n.pend++
				d := false
				e.Go(o.Op, func() { n.pend--; d = true }, f)
				if !o.Async {
					// Not returning is found out by settle.
					for i := 0; i < 50 && !d; i++ {
						time.Sleep(time.Duration(i*i) * time.Millisecond)
					}
				}
			} else {
				f()
			}
		case "pubother":
			for i := 0; i < o.N; i++ {
				srv.Publish("nobody", n.payload(0), 1)
			}
		case "sleep":
			time.Sleep(time.Duration(o.MS) * time.Millisecond)
		case "settle":
			n.settle()
		case "stall":
			e.Fault("stall")
			d := time.Duration(o.MS) * time.Millisecond
			n.stallTo = time.Now().Add(d)
			for _, w := range srv.wires {
				if !w.c.shut {
					w.c.out.last = n.stallTo
				}
			}
		case "release":
			for _, s := range n.subs {
				s.free()
			}
		}
	}
	n.settle()
	if e.Failed() {
		return
	}
	// The end: everything is closed, and nothing must be left.
	n.pend++
	e.Go("close", func() { n.pend-- }, n.close)
	time.Sleep(time.Second)
	n.settle()
	if e.Failed() {
		return
	}
	for _, s := range n.subs {
		s.free()
	}
	mx := time.Duration(c.MaxMS) * time.Millisecond
	if mx == 0 {
		mx = time.Minute
	}
	wait := 10*time.Second + 2*mx + n.slowSum
	for _, s := range n.subs {
		wait += time.Duration((len(n.pubs[s.t])+1)*c.Topics[s.t].SlowMS) * time.Millisecond
	}
	for t := time.Duration(0); t < wait; t += wait / 4 {
		time.Sleep(wait/4 + 1)
		if goroutinesInRun() <= g0 && srv.OpenConns() == 0 {
			break
		}
	}
	if k := srv.OpenConns(); k > 0 {
		e.Failf("leak-connection", "%d database connections are open %v after Close", k, wait)
	}
	if g := goroutinesInRun(); g > g0 {
		e.Failf("leak-goroutine", "%d goroutines are left %v after Close\n%s", g-g0, wait, repoStacks())
	}
}

func init() {
	real := []string{"pkg/notifier", "lib/pq (listener, wire protocol client)", "database connection strings"}
	stub := []string{"Postgres server: wire protocol front end with LISTEN/NOTIFY sessions over simulated connections", "network: simulated connections with latency, short reads, stalls and resets"}
	assume := []string{"notifications published while lib/pq re-subscribes after a reconnect are not owed (lib/pq drops them and says so)", "the server does not refuse a LISTEN while the client reconnects"}
	reg(&Prop{ID: "C14", Title: "Notifications are delivered once, in order, to the right subscriber", Runs: 40000,
		Rule: "1 to 4 subscriptions on one notifier, with fast, slow and stuck consumers and consumers that listen, cancel or publish themselves; bursts of up to 200 notifications with payloads of all kinds, senders concurrent with subscribing; in about half of the runs connection losses, stalls and server crashes",
		Real: real, Stub: stub, Assume: assume},
		func(r *R, tier string) ntCase { return ntGen(r, false) }, ntExec)
	reg(&Prop{ID: "C15", Title: "Notifiers recover from connection loss and shut down cleanly", Runs: 40000,
		Rule: "as for C14, with context ends, Close (also twice, concurrent, from inside a callback) and connection losses placed at any time relative to each other and to traffic; at the end everything must be gone",
		Real: real, Stub: stub, Assume: assume},
		func(r *R, tier string) ntCase { return ntGen(r, true) }, ntExec)
}

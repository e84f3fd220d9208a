package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"unicode/utf16"
)

// This file puts the simulated server behind the SQL Server protocol (TDS) as
// far as it takes the real driver to log in and to ping: prelogin, login and
// batches without results.

type tdsSess struct {
	srv  *Server
	c    *netConn
	ss   *Session
	proc int
	who  uint32 // goroutine that dialed
}

func ucs2(s string) (b []byte) {
	for _, u := range utf16.Encode([]rune(s)) {
		b = binary.LittleEndian.AppendUint16(b, u)
	}
	return
}

func fromUCS2(b []byte) string {
	var u []uint16
	for ; len(b) > 1; b = b[2:] {
		u = append(u, binary.LittleEndian.Uint16(b))
	}
	return string(utf16.Decode(u))
}

func (w *tdsSess) readFull(n int) ([]byte, bool) {
	b := make([]byte, n)
	for k := 0; k < n; {
		m, err := w.c.Read(b[k:])
		if err != nil {
			return nil, false
		}
		k += m
	}
	return b, true
}

// packet reads a message of one or more packets.
func (w *tdsSess) packet() (typ byte, body []byte, ok bool) {
	for {
		h, ok := w.readFull(8)
		if !ok {
			return 0, nil, false
		}
		n := int(binary.BigEndian.Uint16(h[2:])) - 8
		if n < 0 {
			return 0, nil, false
		}
		b, ok := w.readFull(n)
		if !ok {
			return 0, nil, false
		}
		body = append(body, b...)
		if h[1]&1 != 0 {
			return h[0], body, true
		}
	}
}

func (w *tdsSess) reply(body []byte) {
	hb()
	defer hb()
	b := []byte{4, 1, 0, 0, 0, 0, 1, 0}
	binary.BigEndian.PutUint16(b[2:], uint16(len(body)+8))
	if !w.c.shut {
		_, _ = w.c.Write(append(b, body...))
	}
}

func tdsDone(status uint16) []byte {
	b := binary.LittleEndian.AppendUint16([]byte{0xFD}, status)
	return append(b, make([]byte, 10)...)
}

func tdsError(num int32, msg string) []byte {
	body := binary.LittleEndian.AppendUint32(nil, uint32(num))
	body = append(body, 1, 14)
	m := ucs2(msg)
	body = binary.LittleEndian.AppendUint16(body, uint16(len(m)/2))
	body = append(body, m...)
	body = append(body, 0, 0, 1, 0, 0, 0)
	b := binary.LittleEndian.AppendUint16([]byte{0xAA}, uint16(len(body)))
	return append(append(b, body...), tdsDone(2)...)
}

func tdsLoginAck() []byte {
	body := []byte{1, 0x74, 0, 0, 4}
	p := ucs2("Simulated SQL Server")
	body = append(body, byte(len(p)/2))
	body = append(append(body, p...), 16, 0, 0, 0)
	b := binary.LittleEndian.AppendUint16([]byte{0xAD}, uint16(len(body)))
	return append(append(b, body...), tdsDone(0)...)
}

// tdsLogin reads the fields of a login record.
func tdsLogin(b []byte) (map[string]string, string, bool) {
	if len(b) < 94 {
		return nil, "", false
	}
	bad := false
	raw := func(at int) []byte {
		off, n := int(binary.LittleEndian.Uint16(b[at:])), 2*int(binary.LittleEndian.Uint16(b[at+2:]))
		if off+n > len(b) {
			bad = true
			return nil
		}
		return append([]byte{}, b[off:off+n]...)
	}
	p := map[string]string{"user": fromUCS2(raw(40)), "app name": fromUCS2(raw(48)), "server": fromUCS2(raw(52)), "database": fromUCS2(raw(68))}
	pw := raw(44)
	for i, c := range pw {
		c ^= 0xA5
		pw[i] = c<<4 | c>>4
	}
	return p, fromUCS2(pw), !bad
}

func (w *tdsSess) serve() {
	hb()
	defer hb()
	defer func() {
		if w.ss != nil {
			w.ss.kill()
		}
		if !w.c.shut {
			_ = w.c.Close()
		}
	}()
	s := w.srv
	for {
		typ, body, ok := w.packet()
		if !ok {
			return
		}
		switch typ {
		case 0x12: // prelogin
			w.reply([]byte{
				0, 0, 11, 0, 6, // version
				1, 0, 17, 0, 1, // encryption
				0xFF,
				16, 0, 0, 0, 0, 0,
				2, // not supported
			})
		case 0x10: // login
			f, hit := s.fault("startup")
			if err := s.latency(context.Background(), slowMS(f, hit)); err != nil {
				return
			}
			if hit {
				switch f.Kind {
				case "err", "garbage":
					w.reply(tdsError(17809, "the maximum number of connections has been reached"))
					return
				case "drop", "badconn":
					w.c.abort()
					return
				case "crash":
					s.crash(f.MS)
				}
			}
			params, pw, ok := tdsLogin(body)
			if !ok {
				panic("harness: login record not understood")
			}
			if s.login != nil {
				if err := s.login(w.who, params, pw); err != nil {
					w.reply(tdsError(18456, err.Error()))
					return
				}
			}
			ss, err := s.connect()
			if err != nil {
				w.reply(tdsError(18401, "the server is starting"))
				return
			}
			w.ss, ss.wire, ss.proc = ss, true, w.proc
			ss.onDie = func() {
				if !w.c.shut {
					w.c.abort()
				}
			}
			w.reply(tdsLoginAck())
			if hit && f.Kind == "dropafter" {
				w.c.abort()
				return
			}
		case 0x01: // batch
			if w.ss == nil || w.ss.dead {
				return
			}
			f, hit := s.fault("ping")
			if hit {
				switch f.Kind {
				case "drop", "badconn", "dropafter":
					w.ss.kill()
					return
				case "crash":
					s.crash(f.MS)
					return
				}
			}
			if err := s.latency(context.Background(), slowMS(f, hit)); err != nil || w.ss.dead {
				return
			}
			if hit && (f.Kind == "err" || f.Kind == "garbage") {
				w.reply(tdsError(50000, "injected failure"))
			} else {
				w.reply(tdsDone(0))
			}
		case 0x06: // attention
			w.reply(tdsDone(0x20))
		default:
			panic(fmt.Sprintf("harness: packet of type %#x", typ))
		}
	}
}

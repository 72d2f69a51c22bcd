package h

import (
	"encoding/binary"
	"io"

	"go.f110.dev/go-memcached/server"
	"verif/harness/vx"
)

// attack feeds bytes to one connection of a server and checks that another one is still served.
func attack(b []byte, proto2 int) {
	h := &handler{}
	h.f = func(q *server.Request) ([]*server.Response, error) {
		return okResponses(q, false), nil
	}
	c := vx.NewConn("evil", nil)
	f := newFront(h, c)
	c.Feed(b)
	if !vx.Bool("stays open") {
		c.End(io.EOF)
	}
	vx.Idle()
	h.reqs = nil
	good := vx.NewConn("good", nil)
	f.l.Offer(good)
	r := frontReq(proto2, "get")
	good.Feed(encode(r))
	vx.Idle()
	vx.Assert(len(h.reqs) == 1, "a new connection is served after malformed input")
	rep, n := parseReply(r, good.Written())
	vx.Assert(rep != nil && rep.Kind == "hit" && n == len(good.Written()), "a new connection gets its reply after malformed input")
	vx.ObsB("evil", c.Written())
}

// Any few bytes.
func C14_bytes() {
	vx.Bound("every byte sequence of 0..5 bytes (thorough: 7), ended or kept open")
	max := 6
	if vx.Thorough() {
		max = 8
	}
	attack(vx.Bytes("b", vx.Choose("n", max)), text)
}

var asciiWords = []string{"get", "gets", "set", "add", "replace", "cas", "delete", "md", "incr", "decr", "touch", "mg", "ms", "ma", "mn", "me", "flush_all", "version", "quit", "verbosity", "stats", "append", "prepend", "gat"}

// Every command word followed by anything.
func C14_words() {
	vx.Bound("every command word followed by 0..3 (thorough: 5) arbitrary bytes and a line ending, then 0 or 2 arbitrary bytes")
	w := asciiWords[vx.Choose("word", len(asciiWords))]
	max := 4
	if vx.Thorough() {
		max = 6
	}
	b := append([]byte(w), vx.Bytes("b", vx.Choose("n", max))...)
	b = append(b, "\r\n"...)
	b = append(b, vx.Bytes("data", 2*vx.Choose("m", 2))...)
	attack(b, text)
}

var bigNumbers = []string{"99999999999999999999", "-1", "4294967296", "4294967295", "2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1073741825", "1073807361", "00000000000000000000001", "+5", "1e3", " "}

// Commands whose arguments are nearly right.
func C14_args() {
	vx.Bound("every command with 0..6 arguments of which one is 0..2 (thorough: 3) arbitrary bytes, or a number that does not fit, followed by 3 arbitrary bytes")
	w := asciiWords[vx.Choose("word", 13)]
	n := vx.Choose("args", 7)
	at := 0
	if n > 0 {
		at = vx.Choose("at", n)
	}
	max := 2
	if vx.Thorough() {
		max = 3
	}
	big := bigNumbers
	args := []string{"k", "1", "0", "1", "0", "0"}
	b := []byte(w)
	for i := 0; i < n; i++ {
		b = append(b, ' ')
		if i == at {
			if vx.Bool("big") {
				b = append(b, big[vx.Choose("value", len(big))]...)
			} else {
				b = append(b, tok("arg", max)...)
			}
		} else {
			b = append(b, args[i]...)
		}
	}
	b = append(b, "\r\n"...)
	b = append(b, vx.Bytes("data", 3)...)
	attack(b, text)
}

// Meta commands with odd flags.
func C14_meta() {
	vx.Bound("mg, ms and md with up to two flag tokens of 0..3 and 0..1 arbitrary bytes (quick: 0..2 and 0..1), the first one also an arbitrary byte and one of 14 numbers that are negative, too large or odd, and sizes that do not match the data")
	w := []string{"mg k", "md k", "ms k 2", "ms k 0", "ms k"}[vx.Choose("cmd", 5)]
	b := []byte(w)
	n := vx.Choose("flags", 3)
	for i := 0; i < n; i++ {
		b = append(b, ' ')
		k := 2
		if vx.Thorough() {
			k = 3
		}
		if i == 1 {
			k = 1
		}
		if i == 0 && vx.Bool("number") {
			b = append(append(b, vx.U8("letter")), bigNumbers[vx.Choose("value", len(bigNumbers))]...)
			continue
		}
		b = append(b, tok("flag", k)...)
	}
	b = append(b, "\r\n"...)
	b = append(b, vx.Bytes("data", 2)...)
	b = append(b, "\r\n"...)
	attack(b, meta)
}

// Binary headers with arbitrary fields.
func C14_binary() {
	vx.Bound("binary headers with arbitrary opcode, key length, extras length, data type, vbucket, status, body length, opaque and CAS, followed by 0, 5, 12 or 24 (thorough: also 32) arbitrary bytes, ended or kept open; body lengths are up to two more than there are bytes, or more than 64")
	h := vx.Bytes("header", 24)
	vx.Assume(h[0] == 0x80)
	ns := []int{0, 5, 12, 24, 32}
	k := 4
	if vx.Thorough() {
		k = 5
	}
	n := ns[vx.Choose("body", k)]
	total := binary.BigEndian.Uint32(h[8:])
	if vx.Bool("long") {
		vx.Assume(total > 64)
	} else {
		vx.Assume(total <= uint32(n+2))
	}
	attack(append(h, vx.Bytes("b", n)...), bin)
}

// Requests cut off anywhere.
func C14_cut() {
	vx.Bound("every supported request of the three protocols cut at every byte, the connection then staying open, ending or being reset; a connection opened before and one opened after are served")
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	r := frontReq(proto, ops[vx.Choose("op", len(ops))])
	b := encode(r)
	b = b[:vx.Choose("cut", len(b))]
	h := &handler{}
	h.f = func(q *server.Request) ([]*server.Response, error) { return okResponses(q, false), nil }
	old, c, good := vx.NewConn("old", nil), vx.NewConn("evil", nil), vx.NewConn("good", nil)
	f := newFront(h, old, c)
	served(h, old, proto, "a connection opened before")
	c.Feed(b)
	switch vx.Choose("end", 3) {
	case 1:
		c.End(io.EOF)
	case 2:
		c.End(vx.ErrReset)
	}
	vx.Idle()
	served(h, old, proto, "a connection opened before")
	f.l.Offer(good)
	served(h, good, proto, "a new connection")
	vx.ObsB("evil", c.Written())
}

// served checks that a connection is served.
func served(h *handler, c *vx.Conn, proto int, lbl string) {
	h.reqs = nil
	was := len(c.Written())
	r := frontReq(proto, "get")
	c.Feed(encode(r))
	vx.Idle()
	vx.Assert(len(h.reqs) == 1, lbl+" is served after malformed input")
	b := c.Written()[was:]
	rep, n := parseReply(r, b)
	vx.Assert(rep != nil && rep.Kind == "hit" && n == len(b), lbl+" gets its reply after malformed input")
}

// A great many bad clients.
func C14_many() {
	vx.Bound("300 (thorough: 2000) connections in a row that send nothing, garbage, half a request, or a request and leave, ending, being reset or staying open; then a connection opened before and a new one are served")
	n := 300
	if vx.Thorough() {
		n = 2000
	}
	proto := vx.Choose("proto", 3)
	h := &handler{}
	h.f = func(q *server.Request) ([]*server.Response, error) { return okResponses(q, false), nil }
	old := vx.NewConn("old", nil)
	f := newFront(h, old)
	served(h, old, proto, "a connection opened before")
	what, end := vx.Choose("what", 6), vx.Choose("end", 4)
	x := vx.U8("x")
	for i := 0; i < n; i++ {
		c := vx.NewConn("evil"+utoa(uint64(i)), nil)
		f.l.Offer(c)
		b := encode(frontReq(proto, frontOps[proto][i%len(frontOps[proto])]))
		switch (what + i*(what/5)) % 5 { // 5: everything in turn
		case 0:
			b = nil
		case 1:
			b = []byte("what is this?\r\n")
		case 2:
			b = []byte{0x80, 0xee, 0xff, 0xff, x, 0xff, 0xff, 0xff, 0x7f, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		case 3:
			b = b[:len(b)-1]
		}
		c.Feed(b)
		switch (end + i*(end/3)) % 3 {
		case 0:
			c.End(io.EOF)
		case 1:
			c.End(vx.ErrReset)
		}
		vx.Idle()
	}
	served(h, old, proto, "a connection opened before")
	good := vx.NewConn("good", nil)
	f.l.Offer(good)
	served(h, good, proto, "a new connection")
}

// Handlers that answer in unusual ways: the server survives them.
func C14_handler() {
	vx.Bound("every supported request, answered by the handler with nothing, an empty list, responses without value, flags of any length, an error, or a write failure")
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	r := frontReq(proto, ops[vx.Choose("op", len(ops))])
	kind := vx.Choose("kind", 6)
	h := &handler{}
	first := true
	h.f = func(q *server.Request) ([]*server.Response, error) {
		if !first {
			return okResponses(q, false), nil
		}
		first = false
		switch kind {
		case 0:
			return nil, nil
		case 1:
			return []*server.Response{}, nil
		case 2:
			return []*server.Response{{}}, nil
		case 3:
			return []*server.Response{{Key: "key", Flags: make([]byte, vx.Choose("flaglen", 7)), Value: []byte("v")}}, nil
		case 4:
			return nil, vx.ErrReset
		}
		return okResponses(q, proto == bin), nil
	}
	c := vx.NewConn("evil", nil)
	if kind == 5 {
		c.WriteErr = vx.ErrReset
	}
	f := newFront(h, c)
	c.Feed(encode(r))
	vx.Idle()
	good := vx.NewConn("good", nil)
	f.l.Offer(good)
	r2 := frontReq(proto, "get")
	good.Feed(encode(r2))
	vx.Idle()
	rep, _ := parseReply(r2, good.Written())
	vx.Assert(rep != nil && rep.Kind == "hit", "a new connection gets its reply whatever a handler did before")
}

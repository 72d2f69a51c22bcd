package h

import (
	"verif/harness/vx"
)

// outcome is one reply the protocol defines for a request and what it means to the caller.
type outcomeOf struct {
	out  *Out
	want string // nil notfound exists other
	raw  []byte // used instead of out if not nil
}

// outcomes lists the protocol's replies to an operation. With sym, the texts, bodies and statuses are
// arbitrary.
func outcomes(op, proto int, cas bool) []outcomeOf {
	k := func(kind, want string) outcomeOf { return outcomeOf{out: &Out{Kind: kind}, want: want} }
	var l []outcomeOf
	switch op {
	case oGet:
		l = append(l, outcomeOf{out: &Out{Kind: "hit", Val: []byte("v"), Flags: 1, Cas: 2, TTL: 3}, want: "nil"}, k("miss", "notfound"))
	case oSet:
		l = append(l, k("stored", "nil"), k("notstored", "other"))
		if cas {
			l = append(l, k("exists", "exists"), k("notfound", "notfound"))
		}
	case oAdd:
		l = append(l, k("stored", "nil"), k("notstored", "exists"))
		if proto == bin {
			l = append(l, k("exists", "exists"))
		}
	case oReplace:
		l = append(l, k("stored", "nil"), k("notstored", "notfound"))
		if proto == bin {
			l = append(l, k("notfound", "notfound"))
			if cas {
				l = append(l, k("exists", "exists"))
			}
		}
	case oDelete:
		l = append(l, k("deleted", "nil"))
		if proto == meta {
			l = append(l, k("notfound", "nil"))
		} else {
			l = append(l, k("notfound", "notfound"))
		}
	case oIncr, oDecr:
		l = append(l, outcomeOf{out: &Out{Kind: "number", N: 12}, want: "nil"}, k("notfound", "notfound"), k("nonnumeric", "other"))
	case oTouch:
		l = append(l, k("touched", "nil"), k("notfound", "notfound"))
	case oFlush:
		l = append(l, k("ok", "nil"))
	case oVersion:
		l = append(l, outcomeOf{out: &Out{Kind: "version", Text: []byte("1.6")}, want: "nil"})
	}
	return l
}

// fullReply encodes an outcome as the whole reply to a request.
func fullReply(r *Req, o *outcomeOf) []byte {
	if o.raw != nil {
		return o.raw
	}
	x := *o.out
	if len(x.Key) == 0 {
		x.Key = r.Key()
	}
	if r.Op == "get" && !r.Bin && !r.Meta && (x.Kind == "hit" || x.Kind == "miss") {
		var b []byte
		if x.Kind == "hit" {
			b = textValue(r, &x)
		}
		return append(b, "END\r\n"...)
	}
	return reply(r, &x)
}

func answering(proto int, o *outcomeOf) *vx.Conn {
	return vx.NewConn("c0", serveWith(proto, func(r *Req) []byte { return fullReply(r, o) }))
}

// opCall is a plain operation.
func opCall(op int, cas bool) *Call {
	c := &Call{op: op, key: "key", keys: []string{"key", "kez"}, delta: 2, exp: 30}
	if isStore(op) {
		c.item = newItem("key", "value", cas)
	}
	return c
}

// Every reply the protocol defines.
func C03_replies() {
	vx.Bound("every operation, protocol and reply the protocol defines for it")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	if op == oGetMulti {
		vx.Stop()
	}
	cas := (op == oSet || op == oReplace) && vx.Bool("cas")
	os := outcomes(op, proto, cas)
	o := os[vx.Choose("outcome", len(os))]
	s := dial(proto, answering(proto, &o))
	r := opCall(op, cas).do(s)
	vx.Obs("err", errName(r.err))
	vx.Assert(errName(r.err) == o.want, protoName[proto]+" "+opName[op]+": reply "+o.out.Kind+" means "+o.want)
	vx.Assert(r.err == nil || (r.item == nil && r.n == 0 && r.ver == ""), protoName[proto]+" "+opName[op]+": no result with an error")
	vx.Reach("result " + o.want)
}

// Error lines with arbitrary text, and lines that are no reply at all.
func C03_error_lines() {
	vx.Bound("ERROR, CLIENT_ERROR and SERVER_ERROR lines with 0..4 arbitrary text bytes (or 60); arbitrary lines of 0..4 bytes (thorough: 0..8) that are no reply of the protocol")
	proto := vx.Choose("proto", 2)
	op := vx.Choose("op", nOps)
	cas := op == oSet && vx.Bool("cas")
	var line []byte
	max := 5
	if vx.Thorough() {
		max = 9
	}
	switch vx.Choose("kind", 4) {
	case 0:
		line = []byte("ERROR")
	case 1:
		line = append([]byte("CLIENT_ERROR "), anyText(5)...)
	case 2:
		line = append([]byte("SERVER_ERROR "), anyText(5)...)
	case 3:
		n := vx.Choose("n", max)
		for i := 0; i < n; i++ {
			b := vx.U8("b")
			vx.Assume(b != '\n' && b != '\r')
			line = append(line, b)
		}
		if n > 0 {
			// a number could be a reply to a counter operation
			vx.Assume(line[0] != '+' && line[0] != '-' && (line[0] < '0' || line[0] > '9'))
		}
		if n >= 2 {
			two := string(line[:2])
			// (a line that merely starts like a reply code is not claimed)
			vx.Assume(two != "HD" && two != "EN" && two != "NF" && two != "NS" && two != "EX" && two != "MN" && two != "VA" && two != "OK")
		}
		if n >= 3 {
			vx.Assume(string(line[:3]) != "END")
		}
	}
	raw := append(line, "\r\n"...)
	first := true
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if r.Op == "noop" {
			return reply(r, &Out{Kind: "noop"})
		}
		if !first {
			return fullReply(r, &outcomeOf{out: okOut(r)})
		}
		first = false
		return raw
	}))
	s := dial(proto, conn)
	r := opCall(op, cas).do(s)
	vx.Assert(errName(r.err) == "other", protoName[proto]+" "+opName[op]+": an error line is an error")
	vx.Assert(r.item == nil && len(r.items) == 0 && r.n == 0 && r.ver == "", protoName[proto]+" "+opName[op]+": no result with an error")
}

func anyText(max int) []byte {
	n := vx.Choose("textlen", max+1)
	if n == max {
		return []byte("a longer message that says what went wrong, with END in it  ")
	}
	var b []byte
	for i := 0; i < n; i++ {
		c := vx.U8("text")
		vx.Assume(c != '\n' && c != '\r')
		b = append(b, c)
	}
	return b
}

func wantStatus(op int, status uint16) string {
	switch {
	case status == 0:
		return "nil"
	case status == 1:
		if op == oAdd || op == oFlush || op == oVersion {
			return "" // not a reply to this operation: any error will do
		}
		return "notfound"
	case status == 2:
		if !isStore(op) {
			return ""
		}
		return "exists"
	case status == 5 && op == oAdd:
		return "exists"
	case status == 5 && op == oReplace:
		return "notfound"
	}
	return "other"
}

// Binary: every 16-bit status.
func C03_status() {
	vx.Bound("binary: every nonzero 16-bit status, with bodies of 0..3 or 8 arbitrary bytes (or 40)")
	op := vx.Choose("op", nOps)
	if op == oGetMulti {
		vx.Stop()
	}
	cas := op == oSet && vx.Bool("cas")
	status := vx.U16("status")
	vx.Assume(status != 0)
	n := []int{0, 1, 2, 3, 8, 40}[vx.Choose("bodylen", 6)]
	body := []byte("0123456789012345678901234567890123456789")
	if n < 40 {
		body = vx.Bytes("body", n)
	}
	conn := vx.NewConn("c0", serveWith(bin, func(r *Req) []byte {
		return binFrame(r.Opcode, status, nil, nil, body, r.Opaque, 0)
	}))
	s := dial(bin, conn)
	r := opCall(op, cas).do(s)
	vx.Assert(r.err != nil, "binary "+opName[op]+": an error status is an error")
	if w := wantStatus(op, status); w != "" {
		vx.Assert(errName(r.err) == w, "binary "+opName[op]+": what the status means")
	}
	vx.Assert(r.item == nil && r.n == 0 && r.ver == "", "binary "+opName[op]+": no result with an error")
	vx.Reach(errName(r.err))
	vx.Expect("notfound")
	vx.Expect("exists")
	vx.Expect("other")
}

// Multi-get: an error reply to any of the gets is an error.
func C03_multi() {
	vx.Bound("multi-get of 1..3 keys, one of which is answered with an error (binary: any status but 0 and 1)")
	proto := vx.Choose("proto", 3)
	n := 1 + vx.Choose("n", 3)
	bad := vx.Choose("bad", n)
	keys := []string{"ka", "kb", "kc"}[:n]
	status := vx.U16("status")
	vx.Assume(status > 1)
	i := 0
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if r.Op == "noop" {
			return reply(r, &Out{Kind: "noop"})
		}
		if proto == text {
			var b []byte
			for j, k := range r.Keys {
				if j == bad {
					return append(b, "SERVER_ERROR out of memory\r\n"...)
				}
				b = append(b, textValue(r, &Out{Kind: "hit", Key: k, Val: []byte("v")})...)
			}
			return append(b, "END\r\n"...)
		}
		i++
		if i-1 == bad {
			return reply(r, &Out{Kind: "error", Text: []byte("SERVER_ERROR out of memory"), Status: status})
		}
		return reply(r, &Out{Kind: "hit", Key: r.Key(), Val: []byte("v")})
	}))
	s := dial(proto, conn)
	items, err := s.GetMulti(keys...)
	vx.Assert(err != nil, protoName[proto]+" getmulti: an error reply is an error")
	vx.Obs("err", errName(err))
	_ = items
}

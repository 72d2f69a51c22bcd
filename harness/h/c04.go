package h

import (
	"verif/harness/vx"
)

// script answers the first operation with a given reply and everything after it with success, where the
// second operation's answer carries arbitrary data.
type second struct {
	val []byte
	n   uint64
	ver []byte
}

func anySecond() *second {
	return &second{val: vx.Bytes("val2", 2), n: uint64(vx.Int("n2", 0, 1<<63-1)), ver: []byte{vx.Range("ver2", 33, 126), '.', '6'}}
}

func (x *second) out(r *Req) *Out {
	o := okOut(r)
	o.Val, o.Text = x.val, x.ver
	if r.Op == "incr" || r.Op == "decr" {
		o.N = x.n
	}
	if o.Kind == "version" {
		o.Text = x.ver
	}
	return o
}

func (x *second) reply(r *Req) []byte {
	if r.Op == "get" && !r.Bin && !r.Meta {
		var b []byte
		for _, k := range r.Keys {
			o := x.out(r)
			o.Key = k
			b = append(b, textValue(r, o)...)
		}
		return append(b, "END\r\n"...)
	}
	return reply(r, x.out(r))
}

// check asserts that the result is the one that belongs to the replies of x.
func (x *second) check(c *Call, r Res, proto int, lbl string) {
	lbl += ": " + opName[c.op]
	vx.Assert(r.err == nil, lbl+" succeeds")
	switch c.op {
	case oGet:
		if r.item == nil {
			vx.Fail(lbl + " returns its item")
			return
		}
		vx.Assert(r.item.Key == c.key && eqb(r.item.Value, x.val), lbl+" returns its item")
	case oGetMulti:
		vx.Assert(len(r.items) == len(c.keys), lbl+" returns its items")
		for i, it := range r.items {
			vx.Assert(it.Key == c.keys[i] && eqb(it.Value, x.val), lbl+" returns its items")
		}
	case oIncr, oDecr:
		vx.Assert(uint64(r.n) == x.n, lbl+" returns its number")
	case oVersion:
		vx.Assert(r.ver == string(x.ver), lbl+" returns its version")
	}
}

// firstReply is any complete reply to the operation; body texts have any of several lengths.
func firstReply(op, proto int, cas bool) *outcomeOf {
	os := outcomes(op, proto, cas)
	i := vx.Choose("outcome", len(os)+2)
	if i < len(os) {
		return &os[i]
	}
	lens := []int{0, 1, 4, 9, 40, 300, 5000}
	var bodyText []byte
	if i == len(os) {
		bodyText = vx.Bytes("body", 2)
		if proto != bin {
			vx.Assume(bodyText[0] != '\n' && bodyText[1] != '\n')
			vx.Assume(bodyText[0] != '\r' && bodyText[1] != '\r')
		}
	} else {
		n := lens[vx.Choose("bodylen", len(lens))]
		bodyText = make([]byte, n)
		for j := range bodyText {
			bodyText[j] = 'a' + byte(j%26)
		}
	}
	o := &outcomeOf{out: &Out{Kind: "error"}, want: "other"}
	if proto == bin {
		o.out.Text = bodyText
		o.out.Status = []uint16{1, 2, 3, 4, 5, 6, 0x81, 0x82, 0x84, 0x0101}[vx.Choose("status", 10)]
	} else {
		switch vx.Choose("line", 3) {
		case 0:
			o.out.Text = []byte("ERROR")
		case 1:
			o.out.Text = append([]byte("CLIENT_ERROR "), bodyText...)
		case 2:
			o.out.Text = append([]byte("SERVER_ERROR "), bodyText...)
		}
	}
	return o
}

// Any complete reply to any operation, then any operation.
func C04_pairs() {
	vx.Bound("every operation answered with every reply of the protocol and with errors whose message has 2 arbitrary or 0,1,4,9,40,300,5000 bytes (binary: 10 statuses), followed by every operation, whose result is arbitrary")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	if op == oGetMulti {
		vx.Stop()
	}
	cas := (op == oSet || op == oReplace) && vx.Bool("cas")
	o := firstReply(op, proto, cas)
	x := anySecond()
	first := true
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if first {
			first = false
			return fullReply(r, o)
		}
		return x.reply(r)
	}))
	s := dial(proto, conn)
	opCall(op, cas).do(s)
	vx.Assert(!first, "the first operation sends its request")
	vx.Assert(len(conn.In) == 0, "the first operation sends nothing more")
	op2 := vx.Choose("op2", nOps)
	c2 := opCall(op2, false)
	r2 := c2.do(s)
	x.check(c2, r2, proto, protoName[proto]+" after "+opName[op]+" answered "+o.out.Kind)
	obsRes(r2)
}

// Binary replies of any shape.
func C04_frames() {
	vx.Bound("binary: every operation answered with a complete reply of any status and CAS, with extras of 0, 4 or 8 bytes, a key of 0 or 3 and a value of 0, 1, 8 or 300, followed by a get, a touch, an increment or a multi-get, whose result is arbitrary")
	op := vx.Choose("op", nOps)
	status := vx.U16("status")
	ext := make([]byte, 4*vx.Choose("extras", 3))
	key := []byte("abc")[:3*vx.Choose("key", 2)]
	val := make([]byte, []int{0, 1, 8, 300}[vx.Choose("value", 4)])
	cas := uint64(vx.Choose("cas", 2))
	x := anySecond()
	first := true
	conn := vx.NewConn("c0", serveWith(bin, func(r *Req) []byte {
		if first {
			first = op == oGetMulti && r.Op != "noop"
			if r.Op == "noop" {
				return reply(r, &Out{Kind: "noop"})
			}
			return binFrame(r.Opcode, status, ext, key, val, r.Opaque, cas)
		}
		return x.reply(r)
	}))
	s := dial(bin, conn)
	r1 := opCall(op, false).do(s)
	vx.Obs("err", errName(r1.err))
	vx.Assert(!first && len(conn.In) == 0, "the first operation sends its request and nothing more")
	c2 := opCall([]int{oGet, oTouch, oIncr, oGetMulti}[vx.Choose("op2", 4)], false)
	r2 := c2.do(s)
	x.check(c2, r2, bin, "binary after "+opName[op])
	obsRes(r2)
}

// A multi-get with any mixture of hits, misses and errors, then any operation.
func C04_multi() {
	vx.Bound("multi-get of 1..3 keys, each a hit, a miss, or an error (with and without message), the closing no-op (binary) answered plainly, with a message, or with an error, followed by every operation")
	proto := vx.Choose("proto", 3)
	n := 1 + vx.Choose("n", 3)
	x := anySecond()
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = vx.Choose("kind", 4)
	}
	errOut := func(k int) *Out {
		o := &Out{Kind: "error", Text: []byte("SERVER_ERROR out of memory"), Status: 0x82}
		if k == 3 {
			o.Text = nil
			if proto != bin {
				o.Text = []byte("ERROR")
			}
		}
		return o
	}
	noop := 0
	if proto == bin {
		noop = vx.Choose("noop", 4)
	}
	i, done := 0, false
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if done {
			return x.reply(r)
		}
		if proto == text {
			done = true
			var b []byte
			for j, k := range r.Keys {
				switch kinds[j] {
				case 0:
					b = append(b, textValue(r, &Out{Kind: "hit", Key: k, Val: []byte("END\r\n"), Flags: 1, Cas: 2})...)
				case 2, 3:
					return append(b, reply(r, errOut(kinds[j]))...)
				}
			}
			return append(b, "END\r\n"...)
		}
		if r.Op == "noop" {
			done = true
			switch {
			case noop == 1:
				return binFrame(opNoop, 0, nil, nil, []byte("done"), r.Opaque, 0)
			case noop > 1:
				return reply(r, errOut(noop))
			}
			return reply(r, &Out{Kind: "noop"})
		}
		i++
		switch kinds[i-1] {
		case 0:
			return reply(r, &Out{Kind: "hit", Key: r.Key(), Val: []byte("END\r\n"), Flags: 1, Cas: 2, TTL: 4})
		case 1:
			if r.Quiet {
				return nil
			}
			return reply(r, &Out{Kind: "miss", Key: r.Key()})
		}
		return reply(r, errOut(kinds[i-1]))
	}))
	s := dial(proto, conn)
	_, err := s.GetMulti([]string{"ka", "kb", "kc"}[:n]...)
	vx.Obs("err", errName(err))
	c2 := opCall(vx.Choose("op2", nOps), false)
	r2 := c2.do(s)
	x.check(c2, r2, proto, protoName[proto]+" after getmulti")
	vx.Assert(len(conn.In) == 0, "nothing but whole requests is sent")
}

// Longer histories of whole replies.
func C04_chain() {
	vx.Bound("three (thorough: four) operations in a row, each answered with success, a miss or rejection, or an error")
	proto := vx.Choose("proto", 3)
	n := 3
	if vx.Thorough() {
		n = 4
	}
	var o *outcomeOf
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if r.Op == "noop" {
			return reply(r, &Out{Kind: "noop"})
		}
		return fullReply(r, o)
	}))
	s := dial(proto, conn)
	ops := []int{oGet, oGetMulti, oSet, oDelete, oIncr, oTouch}
	for i := 0; i < n; i++ {
		op := ops[vx.Choose("op", len(ops))]
		if i == n-1 && !vx.Thorough() {
			op = []int{oGet, oTouch}[vx.Choose("last", 2)]
		}
		var os []outcomeOf
		if op == oGetMulti {
			os = []outcomeOf{{out: &Out{Kind: "miss"}, want: "nil"}, {out: &Out{Kind: "error", Text: []byte("SERVER_ERROR x"), Status: 0x82}, want: "other"}}
		} else {
			os = outcomes(op, proto, false)[:2]
			os = append(os, outcomeOf{out: &Out{Kind: "error", Text: []byte("SERVER_ERROR x"), Status: 0x82}, want: "other"})
		}
		o = &os[vx.Choose("outcome", len(os))]
		r := opCall(op, false).do(s)
		vx.Assert(errName(r.err) == o.want, protoName[proto]+" "+opName[op]+": its own reply ("+o.out.Kind+")")
	}
}

// Much longer histories.
func C04_long() {
	vx.Bound("40 (thorough: 300) operations in a row on one connection: every operation repeated, and every two in alternation, answered with success, a miss or rejection, and an error in turn")
	proto := vx.Choose("proto", 3)
	n := 40
	if vx.Thorough() {
		n = 300
	}
	var o *outcomeOf
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if r.Op == "noop" {
			return reply(r, &Out{Kind: "noop"})
		}
		return fullReply(r, o)
	}))
	s := dial(proto, conn)
	two := []int{vx.Choose("op", nOps), vx.Choose("op2", nOps)}
	for i := 0; i < n; i++ {
		op := two[i%2]
		os := []outcomeOf{{out: &Out{Kind: "miss"}, want: "nil"}}
		if op != oGetMulti {
			os = outcomes(op, proto, false)
		}
		os = append(os, outcomeOf{out: &Out{Kind: "error", Text: []byte("SERVER_ERROR x"), Status: 0x82}, want: "other"})
		o = &os[i/2%len(os)]
		r := opCall(op, false).do(s)
		vx.Assert(errName(r.err) == o.want, protoName[proto]+" "+opName[op]+": its own reply ("+o.out.Kind+") after many operations")
	}
	vx.Assert(len(conn.In) == 0, "nothing but whole requests is sent")
}

package h

import (
	"go.f110.dev/go-memcached/server"
	"verif/harness/vx"
)

// splits divides a stream of n bytes into reads: at one or two arbitrary points, or into single bytes.
func splits(c *vx.Conn, n int) {
	off := 0
	var cuts []int
	switch vx.Choose("splits", 3) {
	case 0:
		cuts = []int{vx.Choose("cut", n)}
	case 1:
		a := vx.Choose("cut", n)
		step := 1 + vx.Choose("second", 4)
		cuts = []int{a, a + step}
	case 2:
		c.Split = func(int) int { return 1 }
		return
	}
	c.Split = func(k int) int {
		for _, x := range cuts {
			if off < x && x < off+k {
				k = x - off
			}
		}
		off += k
		return k
	}
}

func c08Reply(r *Req, val []byte) []byte {
	if r.Op == "get" && !r.Bin && !r.Meta {
		var b []byte
		for _, k := range r.Keys {
			b = append(b, textValue(r, &Out{Kind: "hit", Key: k, Val: val, Flags: 70000, Cas: 12345})...)
		}
		return append(b, "END\r\n"...)
	}
	o := okOut(r)
	o.Val, o.Flags, o.Cas, o.TTL = val, 70000, 12345, 100
	if o.Kind == "number" {
		o.N = 1<<40 + 5
	}
	return reply(r, o)
}

func checkC08(c *Call, r Res, val []byte, proto int) {
	lbl := protoName[proto] + " " + opName[c.op] + " under a split"
	vx.Assert(r.err == nil, lbl+" succeeds")
	switch c.op {
	case oGet:
		checkItem(r.item, &Out{Key: []byte(c.key), Val: val, Flags: 70000, Cas: 12345, TTL: 100}, proto, lbl)
	case oGetMulti:
		vx.Assert(len(r.items) == len(c.keys), lbl+" returns every item")
		for i, it := range r.items {
			checkItem(it, &Out{Key: []byte(c.keys[i]), Val: val, Flags: 70000, Cas: 12345, TTL: 100}, proto, lbl)
		}
	case oIncr, oDecr:
		vx.Assert(r.n == 1<<40+5, lbl+" returns the number")
	case oVersion:
		vx.Assert(r.ver == "1.6.24", lbl+" returns the version")
	}
}

// Replies divided anywhere.
func C08_client() {
	vx.Bound("every operation, success, rejection or error; its reply divided at any one point, any two points up to 4 bytes apart, or into single bytes; value of 3 arbitrary bytes; a second operation follows")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	val := vx.Bytes("val", 3)
	want := "nil"
	gen := func(r *Req) []byte { return c08Reply(r, val) }
	if op != oGetMulti && vx.Bool("other outcome") {
		os := outcomes(op, proto, false)
		os = append(os[1:], outcomeOf{out: &Out{Kind: "error", Text: []byte("SERVER_ERROR no"), Status: 0x82}, want: "other"})
		o := os[vx.Choose("outcome", len(os))]
		want = o.want
		gen = func(r *Req) []byte { return fullReply(r, &o) }
	}
	full := fullStream(opCall(op, false), proto, gen)
	first := true
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if first {
			return gen(r)
		}
		return c08Reply(r, val)
	}))
	splits(conn, len(full))
	s := dial(proto, conn)
	c := opCall(op, false)
	r := c.do(s)
	vx.Assert(errName(r.err) == want, protoName[proto]+" "+opName[op]+" under a split: what the reply says")
	if want == "nil" && r.err == nil && (op != oDelete || proto != meta) {
		checkC08(c, r, val, proto)
	}
	first = false
	c2 := opCall([]int{oGet, oVersion, oTouch}[vx.Choose("op2", 3)], false)
	r2 := c2.do(s)
	checkC08(c2, r2, val, proto)
	vx.Assert(conn.Pending() == 0, protoName[proto]+": the reply is consumed")
}

// Values larger than internal buffers.
func C08_large() {
	vx.Bound("get and multi-get of values of 4050..4110 (step 4, and 1 around 4096-header), 8192, 9000 bytes; reads of 1, 2, 100, 1000, 4095, 4096 bytes at most, or one cut near the ends of the reply or of the buffer")
	proto := vx.Choose("proto", 3)
	op := []int{oGet, oGetMulti}[vx.Choose("op", 2)]
	lens := []int{4050, 4054, 4058, 4060, 4062, 4064, 4066, 4068, 4070, 4072, 4074, 4076, 4080, 4084, 4088, 4090, 4092, 4094, 4095, 4096, 4097, 4098, 4110, 8192, 9000}
	vlen := lens[vx.Choose("vlen", len(lens))]
	val := edgeVal("val", vlen)
	gen := func(r *Req) []byte { return c08Reply(r, val) }
	conn := vx.NewConn("c0", serveWith(proto, gen))
	max := []int{0, 2, 100, 1000, 4095, 4096, 5000}[vx.Choose("max", 7)]
	if max > 0 {
		conn.Split = func(n int) int {
			if n > max {
				return max
			}
			return n
		}
	} else {
		off := 0
		at := []int{1, 20, 24, 28, 30, 4090, 4095, 4096, 4097, vlen, vlen + 10, vlen + 20, vlen + 24, vlen + 28, vlen + 29, vlen + 30, vlen + 31, vlen + 32, vlen + 33, vlen + 34, vlen + 35}[vx.Choose("at", 21)]
		conn.Split = func(k int) int {
			if off < at && at < off+k {
				k = at - off
			}
			off += k
			return k
		}
	}
	s := dial(proto, conn)
	c := opCall(op, false)
	r := c.do(s)
	checkC08(c, r, val, proto)
	c2 := opCall(oGet, false)
	checkC08(c2, c2.do(s), val, proto)
}

// Requests divided anywhere.
func C08_server() {
	vx.Bound("every supported request followed by another one, divided at any one point, any two points up to 4 bytes apart, or into single bytes")
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	r := frontReq(proto, ops[vx.Choose("op", len(ops))])
	for i := range r.Keys {
		r.Keys[i] = []byte(symKey("key", 2, proto))
	}
	if isBodied(r) {
		r.Val = vx.Bytes("val", 3)
	}
	r2 := frontReq(proto, "delete")
	h := &handler{f: func(q *server.Request) ([]*server.Response, error) { return okResponses(q, proto == bin), nil }}
	c := vx.NewConn("c0", nil)
	b := append(encode(r), encode(r2)...)
	splits(c, len(b))
	newFront(h, c)
	c.Feed(b)
	vx.Idle()
	vx.Assert(len(h.reqs) == 2, protoName[proto]+" "+r.Op+" under a split: both requests are handled")
	for i, q := range h.reqs {
		checkRequest(q, []*Req{r, r2}[i], protoName[proto]+" under a split")
	}
	vx.ObsB("replies", c.Written())
}

// Large requests divided in various ways.
func C08_server_large() {
	vx.Bound("stores of values of 4040..4110, 8192 and 70000 bytes in reads of at most 2 (up to 9000 bytes), 100, 1000, 4095, 4096 bytes, and in three pieces cut within 3 bytes of the ends of the value, followed by another request")
	proto := vx.Choose("proto", 3)
	op := []string{"set", "add", "replace"}[vx.Choose("op", 3)]
	lens := []int{4040, 4050, 4056, 4060, 4064, 4066, 4068, 4070, 4072, 4074, 4076, 4080, 4090, 4094, 4095, 4096, 4097, 4110, 8192, 70000}
	r := frontReq(proto, op)
	vlen := lens[vx.Choose("vlen", len(lens))]
	r.Val = edgeVal("val", vlen)
	r2 := frontReq(proto, "delete")
	h := &handler{f: func(q *server.Request) ([]*server.Response, error) { return okResponses(q, proto == bin), nil }}
	c := vx.NewConn("c0", nil)
	max := []int{2, 100, 1000, 4095, 4096, 100000, 0}[vx.Choose("max", 7)]
	if vlen > 9000 && 0 < max && max < 1000 {
		max = 1000
	}
	if max == 0 && vlen != 4050 && vlen != 4096 && vlen <= 8000 && !vx.Thorough() {
		vx.Stop()
	}
	b := append(encode(r), encode(r2)...)
	if max == 0 {
		end := len(encode(r))
		first, second := end-vlen-6+vx.Choose("first", 9), end-6+vx.Choose("second", 8)
		at := 0
		c.Split = func(n int) int {
			for _, cut := range []int{first, second} {
				if at < cut && cut < at+n {
					n = cut - at
				}
			}
			at += n
			return n
		}
	} else {
		c.Split = func(n int) int {
			if n > max {
				return max
			}
			return n
		}
	}
	newFront(h, c)
	c.Feed(b)
	vx.Idle()
	vx.Assert(len(h.reqs) == 2, protoName[proto]+" "+r.Op+" under a split: both requests are handled")
	for i, q := range h.reqs {
		checkRequest(q, []*Req{r, r2}[i], protoName[proto]+" under a split")
	}
}

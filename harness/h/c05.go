package h

import (
	"io"

	"verif/harness/vx"
)

// replyTo is a complete reply to the operation's requests, all together.
func successStream(op, proto int, c *Call) []byte {
	var b []byte
	probe := vx.NewConn("probe", serveWith(proto, func(r *Req) []byte {
		b = append(b, okReply(r)...)
		return okReply(r)
	}))
	s := dial(proto, probe)
	c.do(s)
	return b
}

func anyEnd() error {
	return []error{io.EOF, vx.ErrReset, vx.ErrTimeout}[vx.Choose("end", 3)]
}

// A reply that breaks off anywhere is an error.
func C05_cut() {
	vx.Bound("every operation; its reply (success, or an error with a body) cut at every byte, by end of stream, reset or timeout, told with the last bytes or after them; bytes of the item arbitrary")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	cas := op == oSet && vx.Bool("cas")
	bad := op != oGetMulti && vx.Bool("bad")
	val := vx.Bytes("val", 2)
	var full []byte
	gen := func(r *Req) []byte {
		if bad {
			return reply(r, &Out{Kind: "error", Text: []byte("SERVER_ERROR x"), Status: 0x82})
		}
		o := okOut(r)
		if o.Kind == "hit" {
			o.Val = val
		}
		if r.Op == "get" && !r.Bin && !r.Meta {
			var b []byte
			for _, k := range r.Keys {
				o.Key = k
				b = append(b, textValue(r, o)...)
			}
			return append(b, "END\r\n"...)
		}
		return reply(r, o)
	}
	probe := vx.NewConn("probe", serveWith(proto, func(r *Req) []byte {
		b := gen(r)
		full = append(full, b...)
		return b
	}))
	opCall(op, cas).do(dial(proto, probe))
	vx.Assert(len(full) > 0, "there is a reply")
	cut := vx.Choose("cut", len(full))
	end := anyEnd()
	left := cut
	conn := vx.NewConn("c0", nil)
	conn.WithEnd = vx.Bool("together")
	conn.Peer = serveWith(proto, func(r *Req) []byte {
		b := gen(r)
		if len(b) > left {
			b = b[:left]
			conn.SendEnd(end)
		}
		left -= len(b)
		return b
	})
	s := dial(proto, conn)
	r := opCall(op, cas).do(s)
	vx.Assert(r.err != nil, protoName[proto]+" "+opName[op]+": an incomplete reply is an error")
	vx.Obs("err", errName(r.err))
}

// A connection that cannot be written to, from any write on.
func C05_write() {
	vx.Bound("every operation, small and large values (more than the write buffer), write failing at the first, second or third write")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	c := opCall(op, false)
	big := false
	if isStore(op) {
		if big = vx.Bool("big"); big {
			c.item.Value = make([]byte, 10000)
		}
	}
	rec := newRecorder("c0", proto)
	at := vx.Choose("at", 3)
	n := 0
	rec.conn.OnWrite = func(x *vx.Conn) {
		if n == at {
			x.WriteErr = vx.ErrReset
		}
		n++
	}
	s := dial(proto, rec.conn)
	r := c.do(s)
	if n > at {
		vx.Assert(r.err != nil, protoName[proto]+" "+opName[op]+": a failed write is an error")
		vx.Reach("write failed")
	} else {
		vx.Assert(r.err == nil, protoName[proto]+" "+opName[op]+": nothing failed")
	}
	vx.Expect("write failed")
}

// feedAll makes the reply stream the same whatever is asked.
func feedAll(b []byte, end error) *vx.Conn {
	conn := vx.NewConn("c0", nil)
	conn.Send(b)
	conn.SendEnd(end)
	return conn
}

// Arbitrary bytes as the reply over the text and meta protocols.
func C05_text_bytes() {
	vx.Bound("text and meta: every reply stream of 0..5 arbitrary bytes (thorough: 7) and then end of stream")
	proto := vx.Choose("proto", 2)
	op := vx.Choose("op", nOps)
	max := 6
	if vx.Thorough() {
		max = 8
	}
	n := vx.Choose("n", max)
	b := vx.Bytes("reply", n)
	s := dial(proto, feedAll(b, io.EOF))
	r := opCall(op, false).do(s)
	vx.Assert(r.err == nil || r.item == nil, "no item with an error")
	vx.Reach("returned")
	line := false
	for _, x := range b {
		if x == '\n' {
			line = true
			break
		}
	}
	vx.Assert(line || r.err != nil, protoName[proto]+" "+opName[op]+": an incomplete reply is an error")
}

// tok is 0..n arbitrary bytes that are not a line ending.
func tok(name string, n int) []byte {
	k := vx.Choose(name+"len", n+1)
	var b []byte
	for i := 0; i < k; i++ {
		c := vx.U8(name)
		vx.Assume(c != '\n')
		b = append(b, c)
	}
	return b
}

func joinSp(t ...[]byte) []byte {
	var b []byte
	for i, x := range t {
		if i > 0 {
			b = append(b, ' ')
		}
		b = append(b, x...)
	}
	return b
}

// Malformed value lines over the text protocol.
func C05_text_value() {
	vx.Bound("text: VALUE lines whose key, flags, length and CAS tokens are each 0..2 arbitrary bytes (or a huge number), with arbitrary bytes in the value and its terminator, followed by END or end of stream")
	op := []int{oGet, oGetMulti}[vx.Choose("op", 2)]
	t := [][]byte{[]byte("VALUE"), []byte("key"), []byte("0"), []byte("2"), []byte("7")}
	nt := 5
	switch vx.Choose("form", 7) {
	case 0:
		t[1] = tok("key", 2)
	case 1:
		t[2] = tok("flags", 2)
	case 2:
		t[3] = tok("size", 2)
	case 3:
		t[4] = tok("cas", 2)
	case 4:
		big := []string{"99999999999999999999", "4294967296", "2147483648", "9223372036854775807", "18446744073709551615", "-1", "-2", "-9223372036854775808", "+1", "0x10", "4294967295"}
		t[2+vx.Choose("which", 3)] = []byte(big[vx.Choose("big", len(big))])
	case 5:
		nt = 1 + vx.Choose("tokens", 6)
		if nt == 6 {
			t = append(t, []byte("x"))
		}
	case 6:
		t[0] = append([]byte("VALU"), tok("word", 2)...)
	}
	b := append(joinSp(t[:nt]...), tok("eol", 1)...)
	b = append(b, "\r\n"...)
	b = append(b, vx.Bytes("data", 2)...)
	b = append(b, vx.Bytes("end", 2)...)
	if vx.Bool("finished") {
		b = append(b, "END\r\n"...)
	}
	s := dial(text, feedAll(b, io.EOF))
	r := opCall(op, false).do(s)
	vx.Assert(r.err == nil || (r.item == nil && len(r.items) == 0), "no item with an error")
	if op == oGet {
		vx.Assert(r.err != nil || r.item != nil, "text get: a success has an item")
	}
	vx.Reach("returned")
}

// Malformed replies over the meta protocol.
func C05_meta_value() {
	vx.Bound("meta: VA lines with an arbitrary length token (0..2 bytes or a huge number) and 0..2 flag tokens of 0..3 arbitrary bytes, arbitrary bytes in the value and its terminator, for get and multi-get")
	op := []int{oGet, oGetMulti}[vx.Choose("op", 2)]
	var b []byte
	size := []byte("2")
	flags := [][]byte{[]byte("kkey"), []byte("f1"), []byte("c2"), []byte("t3")}
	switch vx.Choose("form", 5) {
	case 0:
		size = tok("size", 2)
	case 1:
		big := []string{"99999999999999999999", "4294967296", "2147483648", "9223372036854775807", "18446744073709551615", "-1", "-2", "-9223372036854775808", "+1", "0x10", "4294967295"}
		size = []byte(big[vx.Choose("big", len(big))])
	case 2:
		flags = [][]byte{tok("flag", 3)}
		if vx.Bool("two") {
			flags = append(flags, tok("flag", 1))
		}
	case 3:
		flags = flags[:vx.Choose("nflags", 5)]
	case 4:
		big := []string{"99999999999999999999", "-1", "-2", "4294967296", "18446744073709551616", "", "x"}
		flags = [][]byte{append([]byte{"kfcts"[vx.Choose("which", 5)]}, big[vx.Choose("big", len(big))]...)}
	}
	b = append([]byte("VA "), joinSp(append([][]byte{size}, flags...)...)...)
	b = append(b, "\r\n"...)
	b = append(b, vx.Bytes("data", 2)...)
	b = append(b, vx.Bytes("end", 2)...)
	if vx.Bool("finished") {
		b = append(b, "MN\r\n"...)
	}
	s := dial(meta, feedAll(b, io.EOF))
	r := opCall(op, false).do(s)
	vx.Assert(r.err == nil || (r.item == nil && len(r.items) == 0), "no item with an error")
	if op == oGet {
		vx.Assert(r.err != nil || r.item != nil, "meta get: a success has an item")
	}
	vx.Reach("returned")
}

// Binary replies whose header is arbitrary.
func C05_binary_bytes() {
	vx.Bound("binary: reply headers with arbitrary opcode, key length, extras length, data type, status, body length (up to 64; larger ones must not be trusted beyond the stream), opaque and CAS; up to 12 arbitrary body bytes; then end of stream")
	op := vx.Choose("op", nOps)
	n := []int{0, 1, 3, 4, 8, 12}[vx.Choose("body", 6)]
	h := vx.Bytes("header", 24)
	if vx.Bool("right magic") {
		vx.Assume(h[0] == 0x81)
	}
	b := append(h, vx.Bytes("b", n)...)
	s := dial(bin, feedAll(b, io.EOF))
	r := opCall(op, false).do(s)
	vx.Assert(r.err == nil || (r.item == nil && len(r.items) == 0), "no item with an error")
	total := int(h[8])<<24 | int(h[9])<<16 | int(h[10])<<8 | int(h[11])
	if total > n {
		vx.Assert(r.err != nil, "binary "+opName[op]+": an incomplete reply is an error")
	}
	if op == oGetMulti {
		vx.Assert(r.err != nil || h[1] == opNoop, "binary getmulti: a reply that does not end is an error")
	}
	vx.Reach("returned")
}

// Binary: two replies, the first with arbitrary lengths.
func C05_binary_multi() {
	vx.Bound("binary multi-get: a reply with arbitrary lengths, status and opcode and 8 body bytes, then a no-op reply")
	b := binFrame(opGetKQ, 0, []byte{0, 0, 0, 1}, []byte("key"), []byte("v"), 0, 9)
	b[1] = vx.U8("opcode")
	b[2], b[3] = vx.U8("keylen"), vx.U8("keylen")
	b[4] = vx.U8("extlen")
	b[6], b[7] = vx.U8("status"), vx.U8("status")
	b[11] = vx.U8("total")
	b = append(b, binFrame(opNoop, 0, nil, nil, nil, 0, 0)...)
	s := dial(bin, feedAll(b, io.EOF))
	r := opCall(oGetMulti, false).do(s)
	vx.Assert(r.err == nil || len(r.items) == 0, "no item with an error")
	vx.Reach("returned")
}

// Item flags of any length.
func C05_flags() {
	vx.Bound("item flags of 0..9 bytes (and 300) in every store operation")
	proto := vx.Choose("proto", 3)
	op := oSet + vx.Choose("op", 3)
	rec := newRecorder("c0", proto)
	s := dial(proto, rec.conn)
	c := opCall(op, vx.Bool("cas"))
	n := vx.Choose("n", 11)
	if n == 10 {
		n = 300
		c.item.Flags = make([]byte, 300)
	} else {
		c.item.Flags = vx.Bytes("flags", n)
	}
	c.do(s)
	for _, r := range rec.reqs {
		vx.Assert(r.Op != "malformed", protoName[proto]+" "+opName[op]+": flags of any length do not break the request")
	}
	c2 := opCall(oGet, false)
	vx.Assert(c2.do(s).err == nil, protoName[proto]+" "+opName[op]+": the connection stays usable")
}

package h

import (
	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// okOut is the outcome of a request that succeeds.
func okOut(r *Req) *Out {
	switch r.Op {
	case "get":
		return &Out{Kind: "hit", Key: r.Key(), Val: []byte("v"), Flags: 5, Cas: 7, TTL: 9}
	case "set", "add", "replace", "cas":
		return &Out{Kind: "stored", Cas: 3}
	case "delete", "invalidate":
		return &Out{Kind: "deleted"}
	case "incr", "decr":
		return &Out{Kind: "number", N: 12}
	case "touch":
		return &Out{Kind: "touched"}
	case "flush":
		return &Out{Kind: "ok"}
	case "noop":
		return &Out{Kind: "noop"}
	case "version":
		return &Out{Kind: "version", Text: []byte("1.6.24")}
	}
	return &Out{Kind: "error", Text: []byte("ERROR"), Status: 0x81}
}

// okReply answers a request with success.
func okReply(r *Req) []byte {
	if r.Op == "get" && !r.Bin && !r.Meta {
		var b []byte
		for _, k := range r.Keys {
			o := okOut(r)
			o.Key = k
			b = append(b, textValue(r, o)...)
		}
		return append(b, "END\r\n"...)
	}
	return reply(r, okOut(r))
}

// recorder is a peer that answers everything with success and keeps the requests.
type recorder struct {
	reqs []*Req
	conn *vx.Conn
}

func newRecorder(name string, proto int) *recorder {
	rec := &recorder{}
	rec.conn = vx.NewConn(name, serveWith(proto, func(r *Req) []byte {
		rec.reqs = append(rec.reqs, r)
		return okReply(r)
	}))
	return rec
}

// checkReqs asserts that the requests are exactly what the call asks for.
func checkReqs(c *Call, proto int, reqs []*Req, left int, lbl string) {
	for _, r := range reqs {
		if r.Op == "malformed" {
			vx.Fail(lbl + ": " + opName[c.op] + " sends a malformed request: " + r.Why)
			return
		}
	}
	vx.Assert(left == 0, lbl+": nothing but whole requests is sent")
	if c.op == oGetMulti {
		var keys [][]byte
		for i, r := range reqs {
			if r.Op == "noop" {
				vx.Assert(i == len(reqs)-1, lbl+": getmulti ends with one no-op")
				continue
			}
			vx.Assert(r.Op == "get", lbl+": getmulti sends gets")
			keys = append(keys, r.Keys...)
		}
		vx.Assert(len(keys) == len(c.keys), lbl+": getmulti asks for each key once")
		for i := range keys {
			vx.Assert(string(keys[i]) == c.keys[i], lbl+": getmulti keys")
		}
		return
	}
	if len(reqs) != 1 {
		vx.Fail(lbl + ": " + opName[c.op] + " sends one request")
		return
	}
	r := reqs[0]
	want := opName[c.op]
	if c.op == oSet && c.item.Cas != 0 {
		want = "cas"
	}
	vx.Assert(r.Op == want, lbl+": the operation is "+want)
	switch c.op {
	case oFlush, oVersion:
		vx.Assert(len(r.Keys) == 0, lbl+": no key")
		vx.Assert(r.Cas == 0, lbl+": no cas in "+want)
		return
	}
	key := c.key
	if isStore(c.op) {
		key = c.item.Key
	}
	vx.Assert(len(r.Keys) == 1 && string(r.Key()) == key, lbl+": key of "+want)
	vx.Assert(!r.Quiet, lbl+": the request wants a reply")
	switch {
	case isStore(c.op):
		vx.Assert(eqb(r.Val, c.item.Value), lbl+": value of "+want)
		fl := uint32(0)
		if len(c.item.Flags) == 4 {
			fl = u32(c.item.Flags)
		}
		vx.Assert(r.Flags == fl, lbl+": flags of "+want)
		vx.Assert(r.Exp == int64(c.item.Expiration), lbl+": expiration of "+want)
		if c.op == oSet || (c.op == oReplace && proto == bin) || c.item.Cas == 0 {
			vx.Assert(r.Cas == c.item.Cas, lbl+": cas of "+want)
		}
	case isArith(c.op):
		vx.Assert(r.Delta == uint64(c.delta), lbl+": amount of "+want)
		vx.Assert(r.Cas == 0, lbl+": no cas in "+want)
		if proto == bin {
			vx.Assert(r.Exp == int64(c.exp), lbl+": expiration of "+want)
		}
	case c.op == oTouch:
		vx.Assert(r.Exp == int64(c.exp), lbl+": expiration of "+want)
		vx.Assert(r.Cas == 0, lbl+": no cas in "+want)
	default:
		vx.Assert(r.Cas == 0, lbl+": no cas in "+want)
	}
}

const (
	wNone = iota
	wFlags
	wExp
	wCas
	wDelta
)

// anyCall is an operation with arbitrary arguments: key bytes and value bytes are arbitrary, and one of
// the numbers (wide) takes any value while the others are fixed.
func anyCall(op, proto, wide int, klen, vlen int, pfx string) *Call {
	c := &Call{op: op, delta: 3, exp: 77}
	switch {
	case op == oGetMulti:
	case isStore(op):
		c.item = &client.Item{Key: edgeKey(pfx+"key", klen, proto), Value: edgeVal(pfx+"val", vlen), Flags: be32(9), Expiration: 60}
		switch wide {
		case wFlags:
			c.item.Flags = vx.Bytes(pfx+"flags", 4)
		case wExp:
			c.item.Expiration = vx.Int(pfx+"exp", -1<<31, 1<<31-1)
		case wCas:
			c.item.Cas = vx.U64(pfx + "cas")
		}
	case op == oFlush, op == oVersion:
	default:
		c.key = edgeKey(pfx+"key", klen, proto)
		switch wide {
		case wExp:
			c.exp = vx.Int(pfx+"exp", -1<<31, 1<<31-1)
		case wDelta:
			c.delta = vx.Int(pfx+"delta", 0, 1<<63-1)
		}
	}
	return c
}

func wides(op int) []int {
	switch {
	case op == oSet || op == oReplace:
		return []int{wNone, wFlags, wExp, wCas}
	case isStore(op):
		return []int{wNone, wFlags, wExp}
	case isArith(op):
		return []int{wNone, wExp, wDelta}
	case op == oTouch:
		return []int{wNone, wExp}
	}
	return []int{wNone}
}

// One operation with arbitrary numbers.
func C01_numbers() {
	vx.Bound("keys of 2 bytes, values of 2 bytes; flags: all 32 bits, expiration: all 32-bit signed, cas: all 64 bits, amount: 0..2^63-1 (one of them at a time)")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	if op == oGetMulti {
		vx.Stop()
	}
	w := wides(op)
	wide := w[vx.Choose("wide", len(w))]
	c := anyCall(op, proto, wide, 2, 2, "")
	rec := newRecorder("c0", proto)
	s := dial(proto, rec.conn)
	r := c.do(s)
	vx.ObsB("wire", rec.conn.All)
	obsRes(r)
	checkReqs(c, proto, rec.reqs, len(rec.conn.In), protoName[proto])
	vx.Assert(r.err == nil, "a well-formed request that is answered with success succeeds")
}

// One operation with arbitrary bytes of arbitrary (boundary) sizes.
func C01_sizes() {
	kl := []int{1, 2, 3, 4, 127, 128, 249, 250}
	vl := []int{0, 1, 2, 3, 255, 256, 4093, 4094, 4095, 4096, 4097, 8192, 65535, 65536, 70000}
	vx.Bound("key lengths 1..4,127,128,249,250 (bytes arbitrary up to 4, else the first two and the last one), value lengths 0..3,255,256,4093..4097,8192,65535,65536,70000 (first two and last three bytes arbitrary)")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	klen, vlen := 2, 2
	if isStore(op) && vx.Bool("big") {
		vlen = vl[vx.Choose("vlen", len(vl))]
	} else if op != oFlush && op != oVersion {
		klen = kl[vx.Choose("klen", len(kl))]
	}
	if op == oGetMulti {
		vx.Stop()
	}
	c := anyCall(op, proto, wNone, klen, vlen, "")
	if isStore(op) && vx.Bool("noflags") {
		c.item.Flags = nil
	}
	rec := newRecorder("c0", proto)
	s := dial(proto, rec.conn)
	r := c.do(s)
	checkReqs(c, proto, rec.reqs, len(rec.conn.In), protoName[proto])
	vx.Assert(r.err == nil, "a well-formed request that is answered with success succeeds")
}

// Multi-get of up to four keys.
func C01_multi() {
	vx.Bound("multi-get of 1..4 (and 40) keys of 1, 2 or 250 bytes")
	proto := vx.Choose("proto", 3)
	n := []int{1, 2, 3, 4, 40}[vx.Choose("n", 5)]
	long := vx.Bool("long")
	c := &Call{op: oGetMulti}
	for i := 0; i < n; i++ {
		l := 1 + i%2
		if long && i == n/2 {
			l = 250
		}
		if n > 4 {
			c.keys = append(c.keys, "key"+string(rune('A'+i)))
			continue
		}
		c.keys = append(c.keys, edgeKey("key", l, proto))
	}
	rec := newRecorder("c0", proto)
	s := dial(proto, rec.conn)
	keys := append([]string(nil), c.keys...)
	r := c.do(s)
	c.keys = keys
	vx.ObsB("wire", rec.conn.All)
	checkReqs(c, proto, rec.reqs, len(rec.conn.In), protoName[proto])
	vx.Assert(r.err == nil, "a well-formed request that is answered with success succeeds")
}

// Multi-get of many keys: more than fit into a buffer, and more than a byte can count.
func C01_many() {
	vx.Bound("multi-get of 5..34, 63..65, 100, 127..129, 255..257, 300, 512 (thorough: also 1024, 1025, 4097) keys of 1..4 bytes (two of them with an arbitrary byte)")
	proto := vx.Choose("proto", 3)
	ns := []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512}
	for i := 5; i < 35; i++ {
		ns = append(ns, i)
	}
	if vx.Thorough() {
		ns = append(ns, 1024, 1025, 4097)
	}
	c := &Call{op: oGetMulti, keys: manyKeys(ns[vx.Choose("n", len(ns))], proto)}
	rec := newRecorder("c0", proto)
	s := dial(proto, rec.conn)
	keys := append([]string(nil), c.keys...)
	r := c.do(s)
	c.keys = keys
	checkReqs(c, proto, rec.reqs, len(rec.conn.In), protoName[proto])
	vx.Assert(r.err == nil, "a well-formed request that is answered with success succeeds")
}

func manyKeys(n, proto int) []string {
	var l []string
	for i := 0; i < n; i++ {
		k := utoa(uint64(n - i))
		if i == n/2 || i == n-1 {
			k += symKey("key", 1, proto)
		}
		l = append(l, k)
	}
	return l
}

// Two (thorough: three) operations in a row on one connection: the later one is not affected by the earlier.
func C01_pairs() {
	vx.Bound("two consecutive operations (thorough: three) of every kind, with cas, flags and expirations set on the earlier ones")
	proto := vx.Choose("proto", 3)
	rec := newRecorder("c0", proto)
	s := dial(proto, rec.conn)
	n := 2
	if vx.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		op := vx.Choose("op", nOps)
		c := anyCall(op, proto, wNone, 1+i%2, 2-i%2, "")
		if op == oGetMulti {
			c.keys = []string{symKey("key", 1, proto), symKey("key", 2, proto)}
		}
		if isStore(op) {
			if i < n-1 && op != oAdd {
				c.item.Cas = 0x1122334455667788
			}
			if i == n-1 && vx.Bool("noflags") {
				c.item.Flags = nil
			}
		}
		rec.reqs = nil
		r := c.do(s)
		checkReqs(c, proto, rec.reqs, len(rec.conn.In), protoName[proto]+" after another operation")
		vx.Assert(r.err == nil, "a well-formed request that is answered with success succeeds")
	}
}

// Many operations on one connection.
func C01_long() {
	vx.Bound("40 (thorough: 300) operations in a row on one connection, every operation repeated and every two in alternation, with cas, flags and expirations that come and go")
	proto := vx.Choose("proto", 3)
	rec := newRecorder("c0", proto)
	s := dial(proto, rec.conn)
	two := []int{vx.Choose("op", nOps), vx.Choose("op2", nOps)}
	n := 40
	if vx.Thorough() {
		n = 300
	}
	for i := 0; i < n; i++ {
		c := opCall(two[i%2], i%3 == 1)
		if len(c.keys) > 0 {
			c.keys[0] += utoa(uint64(i))
		}
		if isStore(c.op) && i%4 > 1 {
			c.item.Flags = nil
		}
		rec.reqs = nil
		r := c.do(s)
		checkReqs(c, proto, rec.reqs, len(rec.conn.In), protoName[proto]+" after many operations")
		vx.Assert(r.err == nil, "a well-formed request that is answered with success succeeds")
	}
}

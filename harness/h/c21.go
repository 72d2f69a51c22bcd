package h

import (
	"verif/harness/vx"
)

// hasKey says whether an operation takes a key.
func hasKey(op int) bool { return op != oFlush && op != oVersion }

// withKey is an operation on the given key; of a multi-get it is the i-th of n keys.
func withKey(op int, key string, i, n int) *Call {
	c := opCall(op, (op == oSet || op == oReplace) && vx.Bool("cas"))
	c.key = key
	if c.item != nil {
		c.item.Key = key
	}
	if op == oGetMulti {
		c.keys = nil
		for j := 0; j < n; j++ {
			k := "key" + utoa(uint64(j))
			if i == j {
				k = key
			}
			c.keys = append(c.keys, k)
		}
	}
	return c
}

// legal says whether a protocol can carry a key.
func legal(proto int, key string) bool {
	if len(key) == 0 || len(key) > 250 {
		return false
	}
	if proto == bin {
		return true
	}
	for i := 0; i < len(key); i++ {
		if key[i] <= ' ' || key[i] == 127 {
			return false
		}
	}
	return true
}

// refusedOrExact runs an operation: a key that cannot be carried is refused before anything is sent, and any other
// is in the request as it is. Either way the connection is usable.
func refusedOrExact(c *Call, proto int, key string) {
	x := anySecond()
	w := newWatched("c0", proto, x)
	s := dial(proto, w.Conn)
	lbl := protoName[proto]
	if (vx.Thorough() || c.op == oSet) && vx.Bool("used") {
		g := opCall(oIncr, false)
		x.check(g, g.do(s), proto, lbl)
		w.reqs, w.All = nil, nil
	}
	r := c.do(s)
	if legal(proto, key) {
		vx.Reach("legal")
		x.check(c, r, proto, lbl)
		w.expect(c, proto, lbl)
	} else {
		vx.Reach("illegal")
		vx.Assert(r.err != nil, lbl+" "+opName[c.op]+": a key that cannot be sent is refused")
		vx.Assert(errName(r.err) == "other", lbl+" "+opName[c.op]+": a refused key is neither found nor missing")
		vx.Assert(len(w.All) == 0 && !w.IsClosed(), lbl+" "+opName[c.op]+": a refused key leaves the connection alone")
		vx.Assert(r.item == nil && len(r.items) == 0 && r.n == 0, lbl+" "+opName[c.op]+": there is no result for a refused key")
	}
	w.reqs = nil
	g := opCall(oGet, false)
	if vx.Thorough() && vx.Bool("next") {
		g = opCall(oSet, false)
	}
	x.check(g, g.do(s), proto, lbl+" after a strange key")
	w.expect(g, proto, lbl+" after a strange key")
	obsRes(r)
}

// Keys of any bytes.
func C21_bytes() {
	vx.Bound("every operation with a key, keys of 1..2 (thorough: 4) arbitrary bytes and of 20 and 250 bytes with two arbitrary ones at either end; the only key, or the first or last of three, of a multi-get")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	if !hasKey(op) {
		vx.Stop()
	}
	max := 2
	if vx.Thorough() {
		max = 4
	}
	var b []byte
	switch n := vx.Choose("len", max+2); {
	case n < max:
		b = vx.Bytes("key", n+1)
	default:
		b = make([]byte, []int{20, 250}[n-max])
		for i := range b {
			b[i] = 'a' + byte(i%23)
		}
		at := []int{0, len(b)/2 - 1, len(b) - 2}[vx.Choose("at", 3)]
		copy(b[at:], vx.Bytes("key", 2))
	}
	i, n := 0, 1
	if op == oGetMulti {
		i, n = []int{0, 0, 2}[vx.Choose("which", 3)], 3
		if vx.Bool("only") {
			i, n = 0, 1
		}
	}
	refusedOrExact(withKey(op, string(b), i, n), proto, string(b))
}

// Keys of any length.
func C21_lengths() {
	vx.Bound("every operation with a key, keys of 0, 1, 249..257, 300, 506, 512, 1000, 4096, 65535..65537, 65540 and 65786 bytes, arbitrary at both ends but legal; the only key, or the first or last of three, of a multi-get")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	if !hasKey(op) {
		vx.Stop()
	}
	sizes := []int{0, 1, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 506, 512, 1000, 4096, 65535, 65536, 65537, 65540, 65786}
	key := edgeKey("key", sizes[vx.Choose("size", len(sizes))], proto)
	i, n := 0, 1
	if op == oGetMulti {
		i, n = []int{0, 0, 2}[vx.Choose("which", 3)], 3
		if vx.Bool("only") {
			i, n = 0, 1
		}
	}
	refusedOrExact(withKey(op, key, i, n), proto, key)
}

// Attempts to put a second command into a key.
func C21_injection() {
	vx.Bound("keys that contain a whole second command or extra fields of the text and meta protocols, ended by CR LF, LF or CR, with arbitrary bytes around")
	proto := vx.Choose("proto", 2)
	op := vx.Choose("op", nOps)
	if !hasKey(op) {
		vx.Stop()
	}
	end := []string{"\r\n", "\n", "\r", " ", "\t", "\x00", "\v", "\x7f"}[vx.Choose("end", 8)]
	cmd := []string{"flush_all", "delete b", "set b 0 0 1" + end + "x", "0 0 1 noreply", "ms b 1 T0", "T0 q", ""}[vx.Choose("command", 7)]
	key := string(vx.Bytes("before", 1)) + end + cmd + end + string(vx.Bytes("after", vx.Choose("n", 2)))
	refusedOrExact(withKey(op, key, 0, 1), proto, key)
}

// Many refused keys leave the connection as it was.
func C21_long() {
	vx.Bound("40 (thorough: 300) operations in a row whose keys are refused, with a good operation after each or only after all of them")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	if !hasKey(op) {
		vx.Stop()
	}
	each := vx.Bool("each")
	x := anySecond()
	w := newWatched("c0", proto, x)
	s := dial(proto, w.Conn)
	lbl := protoName[proto] + " " + opName[op]
	n := 40
	if vx.Thorough() {
		n = 300
	}
	good := func() {
		w.reqs = nil
		g := opCall(oGet, false)
		x.check(g, g.do(s), proto, lbl+" after refused keys")
		w.expect(g, proto, lbl+" after refused keys")
	}
	for i := 0; i < n; i++ {
		key := []string{"", longText(251), longText(300)}[i%3]
		c := opCall(op, op == oSet && i%2 == 0)
		c.key, c.keys = key, []string{key}
		if c.item != nil {
			c.item.Key = key
		}
		r := c.do(s)
		vx.Assert(r.err != nil, lbl+": a key that cannot be carried is refused")
		if each {
			good()
		}
	}
	vx.Assert(each || len(w.All) == 0, lbl+": nothing is sent")
	good()
}

package h

import (
	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// anyHit is a hit for key with arbitrary contents: the value bytes are arbitrary and one of the numbers
// takes any value.
func anyHit(key []byte, vlen, wide int, pfx string) *Out {
	o := &Out{Kind: "hit", Key: key, Val: edgeVal(pfx+"val", vlen), Flags: 258, Cas: 1234567, TTL: 88}
	switch wide {
	case wFlags:
		o.Flags = vx.U32(pfx + "flags")
	case wCas:
		o.Cas = vx.U64(pfx + "cas")
	case wExp:
		o.TTL = int64(vx.Int(pfx+"ttl", -1, 1<<31-1))
	}
	return o
}

func checkItem(it *client.Item, o *Out, proto int, lbl string) {
	if it == nil {
		vx.Fail(lbl + ": an item is returned")
		return
	}
	vx.Assert(it.Key == string(o.Key), lbl+": key")
	vx.Assert(eqb(it.Value, o.Val), lbl+": value")
	vx.Assert(len(it.Flags) == 4, lbl+": flags are four bytes")
	vx.Assert(u32(it.Flags) == o.Flags, lbl+": flags")
	vx.Assert(it.Cas == o.Cas, lbl+": cas")
	if proto == meta {
		want := o.TTL
		if want < 0 {
			want = 0
		}
		vx.Assert(int64(it.Expiration) == want, lbl+": time to live")
	}
}

var bigLens = []int{0, 1, 3, 4, 7, 255, 256, 4060, 4070, 4090, 4096, 4100, 8192, 65536, 70000}

// A get that hits, with arbitrary flags, CAS token and TTL.
func C02_get() {
	vx.Bound("get: key of 1..3 arbitrary legal bytes, value of 0..4 arbitrary bytes, one of flags (32 bits), cas (64 bits), ttl (-1..2^31-1) arbitrary")
	proto := vx.Choose("proto", 3)
	ws := []int{wNone, wFlags, wCas, wExp}
	if proto != meta {
		ws = ws[:3]
	}
	wide := ws[vx.Choose("wide", len(ws))]
	klen, vlen := 2, 2
	if wide == wNone {
		klen = 1 + vx.Choose("klen", 3)
		vlen = vx.Choose("vlen", 5)
	}
	key := symKey("key", klen, proto)
	o := anyHit([]byte(key), vlen, wide, "")
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte { return getReply(r, []*Out{o}) }))
	s := dial(proto, conn)
	it, err := s.Get(key)
	vx.Assert(err == nil, "a hit is returned")
	checkItem(it, o, proto, protoName[proto]+" get")
	obsRes(Res{item: it, err: err})
}

// getReply is the reply to one get request given the items the server holds.
func getReply(r *Req, held []*Out) []byte {
	find := func(k []byte) *Out {
		for _, o := range held {
			if o != nil && eqb(o.Key, k) {
				return o
			}
		}
		return nil
	}
	if r.Op == "noop" {
		return reply(r, &Out{Kind: "noop"})
	}
	if r.Op != "get" {
		return nil
	}
	if !r.Bin && !r.Meta {
		var b []byte
		for _, k := range r.Keys {
			if o := find(k); o != nil {
				b = append(b, textValue(r, o)...)
			}
		}
		return append(b, "END\r\n"...)
	}
	o := find(r.Key())
	if o == nil {
		if r.Quiet {
			return nil
		}
		return reply(r, &Out{Kind: "miss", Key: r.Key()})
	}
	return reply(r, o)
}

// A get of a value of any size around internal buffer sizes.
func C02_sizes() {
	vx.Bound("get: value lengths 0,1,3,4,7,255,256,4060..4100,8192,65536,70000 (arbitrary bytes at both ends), key lengths 1,2,249,250")
	proto := vx.Choose("proto", 3)
	kl := []int{1, 2, 249, 250}
	vlen := bigLens[vx.Choose("vlen", len(bigLens))]
	key := edgeKey("key", kl[vx.Choose("klen", 4)], proto)
	o := anyHit([]byte(key), vlen, wNone, "")
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte { return getReply(r, []*Out{o}) }))
	s := dial(proto, conn)
	it, err := s.Get(key)
	vx.Assert(err == nil, "a hit is returned")
	checkItem(it, o, proto, protoName[proto]+" get")
}

// Values that look like protocol elements.
func C02_words() {
	vx.Bound("values made of protocol words: END, EN, MN, VALUE and VA lines, CRLF, with arbitrary bytes around")
	proto := vx.Choose("proto", 3)
	words := []string{"END\r\n", "EN\r\n", "MN\r\n", "VALUE a 0 1\r\n", "VA 1\r\nx\r\n", "\r\n", "\n", "ERROR\r\n", "\r\nEND\r\n", "\r"}
	val := append(vx.Bytes("pre", 1), words[vx.Choose("word", len(words))]...)
	val = append(val, vx.Bytes("post", 1)...)
	if vx.Bool("bare") {
		val = val[1 : len(val)-1]
	}
	multi := vx.Bool("multi")
	o := &Out{Kind: "hit", Key: []byte("ab"), Val: val, Flags: 1, Cas: 2, TTL: 3}
	o2 := &Out{Kind: "hit", Key: []byte("cd"), Val: val, Flags: 1, Cas: 2, TTL: 3}
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte { return getReply(r, []*Out{o, o2}) }))
	s := dial(proto, conn)
	if multi {
		items, err := s.GetMulti("ab", "cd")
		vx.Assert(err == nil && len(items) == 2, "both items are returned")
		checkItem(items[0], o, proto, protoName[proto]+" getmulti")
		checkItem(items[1], o2, proto, protoName[proto]+" getmulti")
		return
	}
	it, err := s.Get("ab")
	vx.Assert(err == nil, "a hit is returned")
	checkItem(it, o, proto, protoName[proto]+" get")
}

// Multi-get: any subset of the keys is held, in any state.
func C02_multi() {
	vx.Bound("multi-get of 1..4 keys (quick: 3), every subset held, values of 0..2 arbitrary bytes, one item with arbitrary flags, cas or ttl")
	proto := vx.Choose("proto", 3)
	max := 3
	if vx.Thorough() {
		max = 4
	}
	n := 1 + vx.Choose("n", max)
	var keys []string
	var held []*Out
	for i := 0; i < n; i++ {
		k := string(rune('a'+i)) + symKey("key", 1, proto)
		keys = append(keys, k)
		if vx.Bool("held") {
			wide := wNone
			if i == n-1 {
				wide = []int{wNone, wFlags, wCas, wExp}[vx.Choose("wide", 4)]
				if wide == wExp && proto != meta {
					vx.Stop()
				}
			}
			o := anyHit([]byte(k), (i+n)%3, wide, "")
			if wide == wNone {
				o.Flags, o.Cas, o.TTL = uint32(i), uint64(100+i), int64(10*i-1)
				if o.TTL > 0 {
					o.TTL++
				}
			}
			held = append(held, o)
		}
	}
	order := append([]*Out(nil), held...)
	if proto == text && len(held) > 1 && vx.Bool("reversed") {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if proto == text {
			var b []byte
			for _, o := range order {
				b = append(b, textValue(r, o)...)
			}
			return append(b, "END\r\n"...)
		}
		return getReply(r, held)
	}))
	s := dial(proto, conn)
	items, err := s.GetMulti(keys...)
	vx.Assert(err == nil, "multi-get succeeds whatever is held")
	vx.Assert(len(items) == len(order), protoName[proto]+" getmulti: exactly the items the server returned")
	for i, it := range items {
		checkItem(it, order[i], proto, protoName[proto]+" getmulti")
	}
	if len(order) == 0 {
		vx.Reach("all miss")
	}
	if len(order) == max {
		vx.Reach("all hit")
	}
	obsRes(Res{items: items, err: err})
}

func longText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return string(b)
}

// Multi-get of many keys.
func C02_many() {
	vx.Bound("multi-get of 2, 16, 17, 32, 64, 100, 256, 257, 300 keys of 1..4 or 250 bytes, all held or every third, values of 0..2 bytes (two arbitrary), any flags and cas")
	proto := vx.Choose("proto", 3)
	keys := manyKeys([]int{2, 16, 17, 32, 64, 100, 256, 257, 300}[vx.Choose("n", 9)], proto)
	if vx.Bool("long") {
		for i := range keys {
			keys[i] += longText(250 - len(keys[i]))
		}
	}
	step := 1 + 2*vx.Choose("step", 2)
	var order []*Out
	for i := 0; i < len(keys); i += step {
		o := &Out{Kind: "hit", Key: []byte(keys[i]), Val: []byte("vw")[:i%3], Flags: uint32(i), Cas: uint64(1000 + i), TTL: int64(i + 1)}
		if i == len(keys)/2 || i == len(keys)-1 {
			o = anyHit([]byte(keys[i]), 2, wNone, "")
		}
		order = append(order, o)
	}
	i := 0
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		if proto == text {
			var b []byte
			for _, o := range order {
				b = append(b, textValue(r, o)...)
			}
			return append(b, "END\r\n"...)
		}
		if r.Op == "noop" {
			return reply(r, &Out{Kind: "noop"})
		}
		i++
		if (i-1)%step == 0 {
			return reply(r, order[(i-1)/step])
		}
		if r.Quiet {
			return nil
		}
		return reply(r, &Out{Kind: "miss", Key: r.Key()})
	}))
	s := dial(proto, conn)
	items, err := s.GetMulti(keys...)
	vx.Assert(err == nil, "multi-get succeeds whatever is held")
	vx.Assert(len(items) == len(order), protoName[proto]+" getmulti: exactly the items the server returned")
	for i, it := range items {
		checkItem(it, order[i], proto, protoName[proto]+" getmulti")
	}
}

// Counters: any number the server sends.
func C02_counter() {
	vx.Bound("increment and decrement: every result 0..2^63-1")
	proto := vx.Choose("proto", 3)
	op := oIncr + vx.Choose("op", 2)
	n := uint64(vx.Int("n", 0, 1<<63-1))
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		return reply(r, &Out{Kind: "number", N: n, Cas: 99})
	}))
	s := dial(proto, conn)
	c := &Call{op: op, key: "k", delta: 1, exp: 0}
	r := c.do(s)
	vx.Assert(r.err == nil, "a counter operation that succeeded succeeds")
	vx.Assert(uint64(r.n) == n, protoName[proto]+" "+opName[op]+": the number the server sent")
	obsRes(r)
}

// Version: any text.
func C02_version() {
	vx.Bound("version texts of 1..6 arbitrary printable bytes, and of 300")
	proto := vx.Choose("proto", 3)
	n := 1 + vx.Choose("n", 7)
	var v []byte
	if n == 7 {
		for i := 0; i < 300; i++ {
			v = append(v, '0'+byte(i%10))
		}
	} else {
		for i := 0; i < n; i++ {
			v = append(v, vx.Range("v", 33, 126))
		}
		if n == 6 {
			v[3] = ' '
		}
	}
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		return reply(r, &Out{Kind: "version", Text: v})
	}))
	s := dial(proto, conn)
	got, err := s.Version()
	vx.Assert(err == nil, "version succeeds")
	vx.Assert(got == string(v), protoName[proto]+" version: the server's text")
}

package h

import (
	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// guarded is a slice of n arbitrary bytes with spare capacity holding arbitrary bytes.
type guarded struct {
	all  []byte
	copy []byte
	n    int
}

func newGuarded(name string, n, spare int) *guarded {
	all := vx.Bytes(name, n+spare)
	return &guarded{all: all, copy: append([]byte(nil), all...), n: n}
}

func (g *guarded) slice() []byte { return g.all[:g.n:len(g.all)] }

func (g *guarded) check(lbl string) {
	vx.Assert(eqb(g.all[:g.n], g.copy[:g.n]), lbl+": the visible bytes")
	vx.Assert(eqb(g.all[g.n:], g.copy[g.n:]), lbl+": the spare capacity")
}

func sameHeader(a, b []byte) bool {
	if len(a) != len(b) || cap(a) != cap(b) {
		return false
	}
	return cap(a) == 0 || &a[:1][0] == &b[:1][0]
}

// What the caller passes to a store operation is left alone.
func C06_store() {
	vx.Bound("store operations with values of 0..3 and flags of 4 arbitrary bytes, each with 0..4 bytes of arbitrary spare capacity; success, rejection, error and failed write; also values of 5000 bytes")
	proto := vx.Choose("proto", 3)
	op := oSet + vx.Choose("op", 3)
	cas := vx.Bool("cas")
	vlen := vx.Choose("vlen", 5)
	if vlen == 4 {
		vlen = 5000
	}
	spare := vx.Choose("spare", 5)
	var v *guarded
	if vlen > 3 {
		b := make([]byte, vlen+spare)
		copy(b[vlen-2:], vx.Bytes("val", spare+2))
		v = &guarded{all: b, copy: append([]byte(nil), b...), n: vlen}
	} else {
		v = newGuarded("val", vlen, spare)
	}
	f := newGuarded("flags", 4, spare)
	it := &client.Item{Key: "key", Value: v.slice(), Flags: f.slice(), Expiration: 77, Server: "mine"}
	if cas {
		it.Cas = 99
	}
	before := *it
	conn := vx.NewConn("c0", nil)
	var o *outcomeOf
	switch vx.Choose("end", 3) {
	case 0:
		os := outcomes(op, proto, cas && op == oSet)
		o = &os[vx.Choose("outcome", len(os))]
	case 1:
		o = &outcomeOf{out: &Out{Kind: "error", Text: []byte("SERVER_ERROR x"), Status: 0x82}}
	case 2:
		conn.WriteErr = vx.ErrReset
	}
	conn.Peer = serveWith(proto, func(r *Req) []byte { return fullReply(r, o) })
	s := dial(proto, conn)
	c := &Call{op: op, item: it}
	r := c.do(s)
	vx.Obs("err", errName(r.err))
	lbl := protoName[proto] + " " + opName[op]
	v.check(lbl + " leaves the value alone")
	f.check(lbl + " leaves the flags alone")
	vx.Assert(it.Key == before.Key && it.Expiration == before.Expiration && it.Cas == before.Cas && it.Server == before.Server, lbl+" leaves the item's fields alone")
	vx.Assert(sameHeader(it.Value, before.Value) && sameHeader(it.Flags, before.Flags), lbl+" leaves the item's slices alone")
}

// The list of keys is left alone, spare capacity included.
func C06_keys() {
	vx.Bound("multi-get of 0..3 keys with spare capacity in the list")
	proto := vx.Choose("proto", 3)
	n := vx.Choose("n", 4)
	all := []string{"k1", "k2", "k3", "x", "y"}
	keys := all[:n]
	rec := newRecorder("c0", proto)
	s := dial(proto, rec.conn)
	_, err := s.GetMulti(keys...)
	vx.Assert(err == nil, "multi-get succeeds")
	want := []string{"k1", "k2", "k3", "x", "y"}
	for i := range all {
		vx.Assert(all[i] == want[i], protoName[proto]+" getmulti leaves the list of keys alone")
	}
}

func clone(i *client.Item) *client.Item {
	c := *i
	c.Value = append([]byte(nil), i.Value...)
	c.Flags = append([]byte(nil), i.Flags...)
	return &c
}

func sameItem(a, b *client.Item) bool {
	return a.Key == b.Key && eqb(a.Value, b.Value) && eqb(a.Flags, b.Flags) && a.Expiration == b.Expiration && a.Cas == b.Cas && a.Server == b.Server
}

// Items returned earlier stay as they are, whatever happens next on the connection.
func C06_items() {
	vx.Bound("a get or a multi-get of 2 keys (values of 0..3 and 4200 bytes), followed by any two operations (quick: one) with other data")
	proto := vx.Choose("proto", 3)
	multi := vx.Bool("multi")
	vlen := []int{0, 1, 3, 4200}[vx.Choose("vlen", 4)]
	round := 0
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte {
		fill := byte('A' + round)
		o := func(k []byte) *Out {
			x := okOut(r)
			x.Key = k
			if x.Kind == "hit" {
				x.Flags, x.Cas, x.TTL = 0x01010101*uint32(round+1), uint64(round), int64(round+1)
				x.Val = make([]byte, vlen)
				for i := range x.Val {
					x.Val[i] = fill
				}
				if round == 0 && vlen > 0 {
					x.Val[vlen-1] = k[1]
				}
			}
			return x
		}
		if r.Op == "get" && !r.Bin && !r.Meta {
			var b []byte
			for _, k := range r.Keys {
				b = append(b, textValue(r, o(k))...)
			}
			return append(b, "END\r\n"...)
		}
		return reply(r, o(r.Key()))
	}))
	s := dial(proto, conn)
	var items []*client.Item
	if multi {
		var err error
		items, err = s.GetMulti("k1", "k2")
		vx.Assert(err == nil && len(items) == 2, "multi-get returns two items")
	} else {
		it, err := s.Get("k1")
		vx.Assert(err == nil, "get succeeds")
		items = append(items, it)
	}
	var saved []*client.Item
	for _, it := range items {
		saved = append(saved, clone(it))
	}
	n := 1
	if vx.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		round++
		c := opCall(vx.Choose("op", nOps), false)
		if c.item != nil {
			c.item.Value = []byte("another value")
		}
		vx.Assert(c.do(s).err == nil, "the later operation succeeds")
		for j, it := range items {
			vx.Assert(sameItem(it, saved[j]), protoName[proto]+": an item returned earlier does not change after "+opName[c.op])
		}
	}
	// appending to one slice, up to its capacity, changes no other
	for j, it := range items {
		v := it.Value[:cap(it.Value)]
		for x := len(it.Value); x < len(v); x++ {
			v[x] = 0xee
		}
		f := it.Flags[:cap(it.Flags)]
		for x := len(it.Flags); x < len(f); x++ {
			f[x] = 0xdd
		}
		for k := range items {
			vx.Assert(sameItem(items[k], saved[k]), protoName[proto]+": appending to an item's value or flags alters nothing else")
		}
		for x := range it.Value {
			it.Value[x] = 0x55
		}
		for x := range it.Flags {
			it.Flags[x] = 0x66
		}
		saved[j] = clone(it)
		for k := range items {
			vx.Assert(sameItem(items[k], saved[k]), protoName[proto]+": items share no memory")
		}
		if it.Flags != nil && len(it.Value) > 0 {
			vx.Assert(it.Flags[0] == 0x66 && it.Value[0] == 0x55, protoName[proto]+": value and flags share no memory")
		}
	}
	// what the caller does to a returned item does not matter to the handle
	round = 0
	r := opCall(oGet, false)
	r.key = "k1"
	res := r.do(s)
	vx.Assert(res.err == nil, "a later get succeeds")
	want := make([]byte, vlen)
	for i := range want {
		want[i] = 'A'
	}
	if vlen > 0 {
		want[vlen-1] = '1'
	}
	vx.Assert(eqb(res.item.Value, want) && u32(res.item.Flags) == 0x01010101, protoName[proto]+": a later get is not affected by what the caller did to an item")
}

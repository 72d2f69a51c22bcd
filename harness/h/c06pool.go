package h

import (
	"net"

	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// Pools leave what the caller passes alone as well.
func C06_pools() {
	vx.Bound("store operations through a pool over two servers of any protocol, or through a replica pool, with a value of 2 and flags of 4 arbitrary bytes, each with 0 or 3 bytes of arbitrary spare capacity, with or without a CAS token; answered, refused or broken off")
	op := oSet + vx.Choose("op", 3)
	spare := 3 * vx.Choose("spare", 2)
	v, f := newGuarded("val", 2, spare), newGuarded("flags", 4, spare)
	vx.Assume(f.all[0] >= 60) // ten digits
	var p pooled
	key := "key"
	lbl := ""
	cas := uint64(99)
	if vx.Bool("replica") {
		r := newReplicas(2, 2)
		p, key = r.pool, r.keys[0][1]
		lbl = "replica pool"
		for i, s := range []*store{r.pri[0], r.sec[1]} {
			if vx.Bool("held") {
				if e := s.put(key, []byte("x"), 1<<31, 0); i == 0 {
					cas = e.cas // the token of the primary's entry, if there is one
				}
			}
			if vx.Choose("fault on", 3) == i+1 {
				s.fault, s.kind = 0, vx.Choose("kind", nFaults)
			}
		}
	} else {
		proto := vx.Choose("proto", 3)
		lbl = protoName[proto] + " pool"
		end := vx.Choose("end", 3)
		vx.OnDial(func(network, addr string) (net.Conn, error) {
			c := vx.NewConn(addr, serveWith(proto, func(r *Req) []byte {
				if end == 1 {
					return reply(r, &Out{Kind: "error", Text: []byte("SERVER_ERROR x"), Status: 0x82})
				}
				return okReply(r)
			}))
			if end == 2 {
				c.WriteErr = vx.ErrReset
			}
			return c, nil
		})
		pool, err := client.NewSinglePool(newHandle(proto, "a"), newHandle(proto, "b"))
		vx.Assert(err == nil, "a pool can be made")
		p = pool
	}
	it := &client.Item{Key: key, Value: v.slice(), Flags: f.slice(), Expiration: 77, Server: "mine"}
	if op == oSet && vx.Bool("cas") {
		it.Cas = cas
	}
	before := *it
	c := &Call{op: op, key: key, item: it}
	r := c.doPool(p)
	vx.Obs("err", errName(r.err))
	lbl += " " + opName[op]
	v.check(lbl + " leaves the value alone")
	f.check(lbl + " leaves the flags alone")
	vx.Assert(it.Key == before.Key && it.Expiration == before.Expiration && it.Cas == before.Cas && it.Server == before.Server, lbl+" leaves the item's fields alone")
	vx.Assert(sameHeader(it.Value, before.Value) && sameHeader(it.Flags, before.Flags), lbl+" leaves the item's slices alone")
}

// A multi-get over a pool leaves the list of keys alone, and its items stay as they are.
func C06_poolitems() {
	vx.Bound("multi-get of 1..3 keys (with spare capacity in the list) over a pool of two servers of any protocol or a replica pool, every order of asking; then any other keyed operation with other data on one of the keys")
	vx.MapOrders()
	n := 1 + vx.Choose("n", 3)
	r := newReplicas(2, 2)
	all := []string{r.keys[0][0], r.keys[1][0], r.keys[1][1], "spare", "spare2"}
	for i := 0; i < 3; i++ { // not in order
		for j := i + 1; j < 3; j++ {
			if all[i] < all[j] {
				all[i], all[j] = all[j], all[i]
			}
		}
	}
	for i, k := range all {
		s := r.pri[1]
		if k == r.keys[0][0] {
			s = r.pri[0]
		}
		s.put(k, append([]byte{'0' + byte(i)}, vx.Bytes("val", 1)...), 1<<31+uint32(i), 0)
	}
	var p pooled = r.pool
	lbl := "replica pool"
	if vx.Bool("single") {
		proto := vx.Choose("proto", 3)
		lbl = protoName[proto] + " pool"
		if proto != meta {
			vx.OnDial(func(network, addr string) (net.Conn, error) {
				s := r.byNm[addr]
				return vx.NewConn(addr, serveWith(proto, func(q *Req) []byte {
					if q.Op == "get" && !q.Bin {
						var b []byte
						for _, k := range q.Keys {
							o := s.exec(&Req{Op: "get", Keys: [][]byte{k}})
							if o.Kind == "hit" {
								b = append(b, textValue(q, o)...)
							}
						}
						return append(b, "END\r\n"...)
					}
					if q.Op == "noop" {
						return okReply(q)
					}
					return reply(q, s.exec(q))
				})), nil
			})
		}
		pool, err := client.NewSinglePool(newHandle(proto, "p0"), newHandle(proto, "p1"))
		vx.Assert(err == nil, "a pool can be made")
		p = pool
	}
	want := append([]string{}, all...)
	items, err := p.GetMulti(all[:n]...)
	for i := range all {
		vx.Assert(all[i] == want[i], lbl+": multi-get leaves the list of keys alone")
	}
	vx.Assert(err == nil && len(items) == n, lbl+": multi-get returns the items")
	var saved []*client.Item
	for _, it := range items {
		saved = append(saved, clone(it))
	}
	op := []int{oGet, oSet, oReplace, oDelete, oGetMulti, oIncr}[vx.Choose("op", 6)]
	c := opCall(op, false)
	c.key, c.keys = all[0], all[:n]
	if c.item != nil {
		c.item.Key = all[0]
	}
	c.doPool(p)
	for i := range items {
		vx.Assert(sameItem(items[i], saved[i]), lbl+": an item returned earlier does not change after "+opName[op])
	}
	for i := range all {
		vx.Assert(all[i] == want[i], lbl+": the list of keys is left alone")
	}
	for j, it := range items {
		v := it.Value[:cap(it.Value)]
		for x := range v {
			v[x] = 0x55
		}
		f := it.Flags[:cap(it.Flags)]
		for x := range f {
			f[x] = 0x66
		}
		vx.Assert(len(f) == 0 || len(v) == 0 || f[0] == 0x66 && v[0] == 0x55, lbl+": value and flags share no memory")
		saved[j] = clone(it)
		for k := range items {
			vx.Assert(sameItem(items[k], saved[k]), lbl+": items share no memory")
		}
	}
}

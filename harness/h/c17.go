package h

import (
	"go.f110.dev/go-memcached/proxy"
	"verif/harness/vx"
)

// routed is a router over reference servers with clients' connections.
type routed struct {
	*replicas
	c []*vx.Conn
	f *front

	mute bool // do not report replies, whose order is not determined
}

func newRouted(npri, nsec, nconn int) *routed {
	r := &routed{replicas: newReplicas(npri, nsec)}
	for i := 0; i < nconn; i++ {
		r.c = append(r.c, vx.NewConn("client"+utoa(uint64(i)), nil))
	}
	r.f = newFront(proxy.NewReplicaProxy(r.pool), r.c...)
	return r
}

// ask sends one request and parses the reply, nil if there is none.
func (x *routed) ask(i int, r *Req, lbl string) *Rep {
	c := x.c[i]
	before := len(c.Written())
	c.Feed(encode(r))
	vx.Idle()
	b := c.Written()[before:]
	if !x.mute {
		vx.ObsB("reply", b)
	}
	rep, n := parseReply(r, b)
	vx.Assert(n == len(b), lbl+": there is one reply")
	if rep != nil {
		vx.Assert(rep.Kind != "malformed", lbl+": the reply is well-formed")
		vx.Obs("kind", rep.Kind)
		vx.Obs("why", rep.Why)
	} else {
		vx.Assert(r.Quiet || c.IsClosed(), lbl+": there is a reply or the connection ends")
	}
	return rep
}

// checkRouted compares a hit with what the primary holds.
func checkRouted(o *Out, r *Req, e *entry, lbl string) {
	vx.Assert(string(o.Key) == e.key, lbl+": the key")
	if !r.Meta || contains(r.Want, 'v') {
		vx.Assert(eqb(o.Val, e.val), lbl+": the value is the primary's")
	}
	if !r.Meta || contains(r.Want, 'f') {
		vx.Assert(o.Flags == e.flags, lbl+": the flags are the primary's")
	}
	if r.Bin || r.Gets || r.Meta && contains(r.Want, 'c') {
		vx.Assert(o.Cas == e.cas, lbl+": the CAS token is the primary's")
	}
	if r.Meta && contains(r.Want, 't') {
		ttl := int64(-1)
		if e.exp != 0 {
			ttl = e.exp - unixNow()
		}
		vx.Assert(o.TTL == ttl, lbl+": the time to live is the primary's")
	}
}

// Gets.
func C17_get() {
	vx.Bound("get over text, meta (14 choices of return flags) and binary (plain, quiet); the key owned by any of 2 primaries and held there or not (values of 0..2 arbitrary bytes or 255, 4096, 5000, 70000, any flags and CAS token, no expiration or any up to 2^31), the secondary holding something else; or the primary refusing or losing the connection")
	x := newRouted(2, 2, 1)
	i := vx.Choose("i", 2)
	p, q := x.pri[i], x.sec[1-i]
	key := x.keys[i][1-i]
	proto := vx.Choose("proto", 3)
	r := frontReq(proto, "get")
	switch proto {
	case meta:
		r.Want = []byte(metaWants[vx.Choose("want", len(metaWants))])
	case bin:
		if vx.Bool("quiet") {
			r = frontReq(proto, "getkq")
		}
		r.Opaque = vx.U32("opaque")
	}
	r.Keys = [][]byte{[]byte(key)}
	var e *entry
	switch vx.Choose("held", 5) {
	case 0:
	case 1:
		e = p.put(key, vx.Bytes("val", vx.Choose("vlen", 3)), anyFlags(""), 0)
	case 2:
		e = p.put(key, vx.Bytes("val", 1), 5, int64(wide("exp", 1, 2592000)))
		e.cas = uint64(vx.Int("cas", 1000000000000000000, 1<<62))
	case 3:
		e = p.put(key, vx.Bytes("val", 1), anyFlags(""), unixNow()+int64(wide("exp", 2592001, 1200000000)))
		e.cas = 1<<64 - 1
	case 4:
		l := []int{255, 4096, 5000, 70000}
		e = p.put(key, edgeVal("val", l[vx.Choose("big", len(l))]), 1<<32-1, 0)
	}
	q.put(key, []byte("other"), 8, 0)
	bad := vx.Choose("bad", 1+nFaults)
	if bad > 0 {
		p.fault, p.kind = 0, bad-1
	}
	lbl := "routed " + protoName[proto] + " get"
	rep := x.ask(0, r, lbl)
	x.quiet(p)
	if p.hit {
		vx.Assert(rep == nil && !r.Quiet || rep != nil && rep.Kind == "error" || x.c[0].IsClosed() && rep == nil, lbl+": a failure is no hit and no miss")
		return
	}
	vx.Assert(!x.c[0].IsClosed(), lbl+": the connection stays open")
	if e == nil {
		vx.Assert(rep == nil && r.Quiet || rep != nil && rep.Kind == "miss", lbl+": a miss is a miss")
		return
	}
	if rep == nil {
		vx.Fail(lbl + ": a hit is a hit")
		return
	}
	vx.Assert(rep.Kind == "hit" && len(rep.Items) == 1, lbl+": a hit is a hit")
	for _, o := range rep.Items {
		checkRouted(o, r, e, lbl)
	}
}

// Multi-gets.
func C17_multi() {
	vx.Bound("gets of 1..3 keys owned by either of 2 primaries, each held or not, with an arbitrary value byte and flags; a primary refusing or losing the connection; every order of asking")
	vx.MapOrders()
	x := newRouted(2, 1, 1)
	n := 1 + vx.Choose("n", 3)
	r := &Req{Op: "get", Gets: true}
	var held []*entry
	pp := ringPoints([]string{"p0", "p1"})
	for j := 0; j < n; j++ {
		i := vx.Choose("i", 2)
		k := ownedBy(pp, x.pri[i].name, j)
		r.Keys = append(r.Keys, []byte(k))
		var e *entry
		if vx.Bool("held") {
			e = x.pri[i].put(k, vx.Bytes("val", 1), anyFlags(""), 0)
		}
		held = append(held, e)
		x.sec[0].put(k, []byte("other"), 8, 0)
	}
	if bad := vx.Choose("bad", 3); bad > 0 {
		s := x.pri[bad-1]
		s.fault, s.kind = 0, vx.Choose("kind", nFaults)
	}
	rep := x.ask(0, r, "routed gets")
	x.quiet(x.pri...)
	if x.pri[0].hit || x.pri[1].hit {
		vx.Assert(rep == nil || rep.Kind == "error", "routed gets: a failure is no hit and no miss")
		return
	}
	if rep == nil {
		vx.Fail("routed gets: there is a reply")
		return
	}
	want := 0
	for j, e := range held {
		if e == nil {
			continue
		}
		want++
		got := 0
		for _, o := range rep.Items {
			if string(o.Key) == string(r.Keys[j]) {
				got++
				checkRouted(o, r, e, "routed gets")
			}
		}
		vx.Assert(got == 1, "routed gets: every key held is a hit")
	}
	vx.Assert(len(rep.Items) == want && (rep.Kind == "hit" || rep.Kind == "miss"), "routed gets: a miss is a miss")
}

// Sets.
func C17_set() {
	vx.Bound("set over text, meta (with and without CAS) and binary (with and without CAS); the key owned by any of 2 primaries and 2 secondaries and held before or not; values of 0..2 arbitrary bytes or 255, 4096, 70000 bytes, any flags, any expiration; CAS tokens that match or not; either server refusing or losing the connection at any request")
	x := newRouted(2, 2, 1)
	i := vx.Choose("i", 2)
	p, q := x.pri[i], x.sec[1-i]
	key := x.keys[i][1-i]
	proto := vx.Choose("proto", 3)
	op := "set"
	if proto != text && vx.Bool("cas") {
		op = "cas"
	}
	r := frontReq(proto, op)
	r.Keys = [][]byte{[]byte(key)}
	switch vx.Choose("arbitrary", 3) {
	case 0:
		r.Val = vx.Bytes("val", vx.Choose("vlen", 3))
		r.Flags = anyFlags("")
	case 1:
		r.Exp = int64(anyExp(true))
		r.Flags = anyFlags("")
	case 2:
		l := []int{255, 4096, 70000}
		r.Val = edgeVal("val", l[vx.Choose("big", len(l))])
	}
	var old *entry
	if vx.Bool("held") {
		old = p.put(key, []byte("old"), 1, 0)
		q.put(key, []byte("old"), 1, 0)
	}
	want := "stored"
	if op == "cas" {
		want = "notfound"
		if old != nil {
			want = "exists"
			if vx.Bool("matches") {
				want, r.Cas = "stored", old.cas
			}
		}
	}
	if r.Bin {
		r.Opaque = vx.U32("opaque")
	}
	s := p
	at := vx.Choose("fault", 3)
	if at > 0 {
		if at == 2 {
			s = q
		}
		s.fault, s.kind = 0, vx.Choose("kind", nFaults)
	}
	cas0 := uint64(0)
	if e := q.find(key); e != nil {
		cas0 = e.cas
	}
	lbl := "routed " + protoName[proto] + " " + op
	rep := x.ask(0, r, lbl)
	x.quiet(p, q)
	if s.hit && at > 0 {
		vx.Assert(rep == nil || rep.Kind == "error", lbl+": a failure is not acknowledged")
		if at == 1 {
			vx.Assert(q.writes == 0, lbl+": what the primary did not accept does not reach the secondary")
		}
		return
	}
	if rep == nil {
		vx.Fail(lbl + ": there is a reply")
		return
	}
	vx.Assert(rep.Kind == want, lbl+": the outcome is the pool's")
	vx.Assert(!x.c[0].IsClosed(), lbl+": the connection stays open")
	a, b := p.find(key), q.find(key)
	if want != "stored" {
		vx.Assert(a == old && (b == nil || b.cas == cas0), lbl+": a refused set changes nothing")
		return
	}
	dl, dead := deadline(r.Exp)
	if dead {
		vx.Assert(a == nil && b == nil, lbl+": an item that has expired is gone")
		return
	}
	for _, e := range []*entry{a, b} {
		vx.Assert(e != nil && eqb(e.val, r.Val) && e.flags == r.Flags && e.exp == dl, lbl+": both servers hold the client's item")
	}
}

// Everything else.
func C17_other() {
	vx.Bound("every other supported command of the three protocols, meta sets with the modes add and replace and invalidation, meta touch; on a key that is held or not; with arbitrary contents")
	x := newRouted(1, 1, 1)
	p, q := x.pri[0], x.sec[0]
	key := x.keys[0][0]
	if vx.Bool("held") {
		p.put(key, []byte("5"), 1, 0)
		q.put(key, []byte("5"), 1, 0)
	}
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	op := ops[vx.Choose("op", len(ops))]
	if op == "get" || op == "gets" || op == "getkq" || op == "cas" {
		vx.Stop()
	}
	r := frontReq(proto, op)
	if len(r.Keys) > 0 {
		r.Keys[0] = []byte(key)
	}
	w := frontWides(r)
	widen(r, w[vx.Choose("wide", len(w))])
	var b []byte
	if op == "set" {
		if proto != meta {
			vx.Stop()
		}
		b = []byte("ms " + key + " 1 " + []string{"I", "I T0", "C5 I", "MA", "MP", "MZ"}[vx.Choose("form", 6)] + "\r\nv\r\n")
	} else {
		b = encode(r)
	}
	before := *p
	var e0 entry
	if e := p.find(key); e != nil {
		e0 = *e
	}
	x.c[0].Feed(b)
	vx.Idle()
	out := x.c[0].Written()
	vx.ObsB("reply", out)
	lbl := "routed " + protoName[proto] + " " + op
	if len(out) > 0 {
		rep, _ := parseReply(r, out)
		vx.Assert(rep != nil && (rep.Kind == "error" || rep.Kind == "malformed" || rep.Kind == "notstored"), lbl+": what is not supported is not acknowledged")
		vx.Assert(!contains2(out, []byte("HD")) && !contains2(out, []byte("STORED")), lbl+": what is not supported is not acknowledged")
	} else {
		vx.Assert(x.c[0].IsClosed(), lbl+": there is a reply or the connection ends")
	}
	vx.Assert(p.writes == 0 && q.writes == 0, lbl+": what is not supported does not reach the servers")
	if e := p.find(key); e != nil {
		vx.Assert(e.cas == e0.cas && eqb(e.val, e0.val), lbl+": nothing has changed")
	}
	vx.Assert(p.cas == before.cas, lbl+": nothing has changed")
}

// A session: what is set is what is got, through any connection.
func C17_session() {
	vx.Bound("3 (thorough: 4) requests, each a set or a get over one of two connections of different protocols, on one of two keys, with arbitrary values and flags")
	x := newRouted(2, 2, 2)
	keys := []string{x.keys[0][1], x.keys[1][0]}
	pa := vx.Choose("proto", 3)
	protos := []int{pa, (pa + 1) % 3}
	type held struct {
		val   []byte
		flags uint32
	}
	var now [2]*held
	n := 3
	if vx.Thorough() {
		n = 4
	}
	for s := 0; s < n; s++ {
		c := vx.Choose("conn", 2)
		k := 0
		if s > 0 {
			k = vx.Choose("key", 2)
		}
		proto := protos[c]
		if vx.Bool("set") {
			r := frontReq(proto, "set")
			r.Keys[0] = []byte(keys[k])
			r.Val, r.Flags = vx.Bytes("val", 1), uint32(vx.Int("flags", 1000000000, 1<<32-1))
			rep := x.ask(c, r, "session")
			vx.Assert(rep != nil && rep.Kind == "stored", "session: a set is stored")
			now[k] = &held{r.Val, r.Flags}
			continue
		}
		r := frontReq(proto, "get")
		r.Keys[0] = []byte(keys[k])
		rep := x.ask(c, r, "session")
		if rep == nil {
			vx.Fail("session: there is a reply")
			return
		}
		if now[k] == nil {
			vx.Assert(rep.Kind == "miss", "session: a miss is a miss")
			continue
		}
		vx.Assert(rep.Kind == "hit" && len(rep.Items) == 1 && eqb(rep.Items[0].Val, now[k].val) && rep.Items[0].Flags == now[k].flags, "session: a get returns what was set")
	}
	for k, h := range now {
		for _, l := range [][]*store{x.pri, x.sec} {
			cnt := 0
			for _, s := range l {
				if e := s.find(keys[k]); e != nil {
					cnt++
					vx.Assert(h != nil && eqb(e.val, h.val) && e.flags == h.flags, "session: both copies are the client's")
				}
			}
			vx.Assert(cnt == 1 && h != nil || cnt == 0 && h == nil, "session: one copy on each ring")
		}
	}
}

// Many keys.
func C17_large() {
	vx.Bound("router over 6 primaries and 5 secondaries named by addresses; 17, 40 or 100 (thorough: also 300) keys set in turn over each protocol, with an arbitrary value byte, then read by one gets of them all or one by one; all or every third is held")
	proto := vx.Choose("proto", 3)
	x := &routed{replicas: manyReplicas(), c: []*vx.Conn{vx.NewConn("client", nil)}, mute: true}
	x.f = newFront(proxy.NewReplicaProxy(x.pool), x.c...)
	pp, ps := ringPoints(serverNames(x.pri)), ringPoints(serverNames(x.sec))
	ns := []int{17, 40, 100}
	if vx.Thorough() {
		ns = []int{17, 40, 100, 300}
	}
	n := ns[vx.Choose("n", len(ns))]
	step := 1 + 2*vx.Choose("step", 2)
	all := &Req{Op: "get", Gets: true}
	held := map[string]*entry{}
	for i := 0; i < n; i++ {
		k := "user:" + utoa(uint64(i))
		all.Keys = append(all.Keys, []byte(k))
		if i%step != 0 {
			continue
		}
		r := frontReq(proto, "set")
		r.Keys = [][]byte{[]byte(k)}
		r.Val = []byte{vx.U8("val")}
		r.Flags = uint32(i)
		rep := x.ask(0, r, "routed set of many keys")
		if rep == nil {
			vx.Fail("routed set of many keys: there is a reply")
			return
		}
		vx.Assert(rep.Kind == "stored", "routed set of many keys: success is reported")
		p, q := x.byNm[pp.owners(crcOf(k))[0]], x.byNm[ps.owners(crcOf(k))[0]]
		a, b := p.find(k), q.find(k)
		vx.Assert(a != nil && alike(a, b) && eqb(a.val, r.Val) && a.flags == r.Flags, "routed set of many keys: both owners hold the item")
		held[k] = a
	}
	got := map[string]bool{}
	hit := func(o *Out, r *Req) {
		e := held[string(o.Key)]
		vx.Assert(e != nil && !got[string(o.Key)], "routed gets of many keys: only what is held, once")
		got[string(o.Key)] = true
		if e != nil {
			checkRouted(o, r, e, "routed gets of many keys")
		}
	}
	if proto == text {
		rep := x.ask(0, all, "routed gets of many keys")
		if rep == nil {
			vx.Fail("routed gets of many keys: there is a reply")
			return
		}
		vx.Assert(rep.Kind == "hit", "routed gets of many keys: hits are hits")
		for _, o := range rep.Items {
			hit(o, all)
		}
	} else {
		for _, k := range all.Keys {
			r := frontReq(proto, "get")
			r.Keys = [][]byte{k}
			rep := x.ask(0, r, "routed gets of many keys")
			vx.Assert(rep != nil && (rep.Kind == "hit" && len(rep.Items) == 1) == (held[string(k)] != nil), "routed gets of many keys: a hit is a hit and a miss is a miss")
			if rep != nil {
				for _, o := range rep.Items {
					if len(o.Key) == 0 {
						o.Key = k
					}
					hit(o, r)
				}
			}
		}
	}
	vx.Assert(len(got) == len(held), "routed gets of many keys: every key held is a hit")
	vx.Assert(!x.c[0].IsClosed(), "routed gets of many keys: the connection stays open")
}

package h

import (
	"net"
	"time"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/server"
	"verif/harness/vx"
)

// Binary replies with bodies and lengths at the limits of their fields.
func C05_binary_lens() {
	vx.Bound("binary: every operation; complete replies of any status with extras of 0, 4, 8, 20, 128, 251, 252 or 255 bytes and keys of 0, 1, 124..132, 236..260, 511, 512 or 65535 bytes (more than a key of the protocol has), then a no-op reply or end of stream")
	op := vx.Choose("op", nOps)
	exts := []int{0, 4, 8, 20, 128, 251, 252, 255}
	ext := exts[vx.Choose("extras", len(exts))]
	kls := []int{0, 1, 511, 512, 65535}
	for k := 124; k <= 260; k++ {
		if k <= 132 || k >= 236 {
			kls = append(kls, k)
		}
	}
	kl := kls[vx.Choose("key", len(kls))]
	code := byte(0)
	conn := vx.NewConn("c0", nil)
	conn.Peer = serveWith(bin, func(r *Req) []byte {
		if r.Op == "noop" {
			return reply(r, &Out{Kind: "noop"})
		}
		code = r.Opcode
		return binFrame(code, vx.U16("status"), make([]byte, ext), make([]byte, kl), []byte("value"), r.Opaque, 9)
	})
	s := dial(bin, conn)
	c := opCall(op, false)
	r := c.do(s)
	vx.Assert(r.err == nil || r.item == nil && len(r.items) == 0, "no item with an error")
	if r.item != nil {
		vx.Assert(len(r.item.Value) <= kl+ext+5, "the value is of the reply")
	}
	vx.Reach("returned")
}

// Success lines that go on.
func C03_suffix() {
	vx.Bound("text (and meta where it uses the text commands): reply lines that start like a success, or a miss, of the operation and go on for 1 or 2 arbitrary bytes")
	proto := vx.Choose("proto", 2)
	op := vx.Choose("op", nOps)
	starts := map[int][]string{oSet: {"STORED", "EXISTS", "NOT_FOUND"}, oAdd: {"STORED", "NOT_STORED"}, oReplace: {"STORED", "NOT_STORED"}, oDelete: {"DELETED", "NOT_FOUND"},
		oTouch: {"TOUCHED", "NOT_FOUND"}, oFlush: {"OK"}, oIncr: {"NOT_FOUND"}, oDecr: {"NOT_FOUND"}}[op]
	if len(starts) == 0 || proto == meta && (op == oSet || op == oDelete || op == oTouch) {
		vx.Stop()
	}
	line := []byte(starts[vx.Choose("line", len(starts))])
	n := 1 + vx.Choose("n", 2)
	for i := 0; i < n; i++ {
		b := vx.U8("b")
		vx.Assume(b != '\n' && b != '\r')
		line = append(line, b)
	}
	conn := vx.NewConn("c0", serveWith(proto, func(r *Req) []byte { return append(append([]byte{}, line...), "\r\n"...) }))
	r := opCall(op, false).do(dial(proto, conn))
	vx.Assert(errName(r.err) == "other", protoName[proto]+" "+opName[op]+": a line that is no reply is an error")
}

// A reconnect while operations are waiting for their turn.
func C20_reconnect() {
	vx.Bound("any operation with a timeout at the same time as a reconnect, after or while another operation waits for a slow server; every interleaving of at most 1 (thorough: 2) preemptions at reads, writes, dials and synchronisation: what is sent on either connection is sent with both deadlines armed")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	x := anySecond()
	c0, c1 := newWatched("c0", proto, x), newWatched("c1", proto, x)
	s := dial(proto, c0.Conn, c1.Conn)
	setTimeout(s, 5*time.Second)
	lbl := protoName[proto] + " " + opName[op] + " beside a reconnect"
	for _, w := range []*watched{c0, c1} {
		w.OnWrite = func(v *vx.Conn) {
			vx.Assert(!v.WDL.IsZero() && !v.RDL.IsZero(), lbl+": both deadlines are armed before anything is sent")
		}
	}
	c := opCall(op, false)
	done := make(chan int, 3)
	explore(1, 2)
	vx.Go("op", func() { c.do(s); done <- 0 })
	vx.Go("reconnect", func() { s.Reconnect(); done <- 1 })
	<-done
	<-done
}

// Item flags that are not 4 bytes long.
func C12_flags() {
	vx.Bound("set, add and replace of items with flags of 0..6 or 9 arbitrary bytes: both copies have the same")
	op := []int{oSet, oAdd, oReplace}[vx.Choose("op", 3)]
	r := newReplicas(1, 1)
	key := r.keys[0][0]
	p, q := r.pri[0], r.sec[0]
	if op == oReplace {
		p.put(key, []byte("old"), 3, 0)
		q.put(key, []byte("old"), 3, 0)
	}
	n := []int{0, 1, 2, 3, 4, 5, 6, 9}[vx.Choose("len", 8)]
	f := make([]byte, n)
	for i := range f {
		f[i] = vx.Range("flags", 100, 255) // as many digits
	}
	c := &Call{op: op, key: key, item: &client.Item{Key: key, Value: []byte("new"), Flags: f}}
	res := c.doPool(r.pool)
	vx.Assert(res.err == nil, "replicated "+opName[op]+" succeeds")
	vx.Assert(p.find(key) != nil && alike(p.find(key), q.find(key)), "replicated "+opName[op]+": both copies are alike whatever the flags")
}

// The list of keys given to a multi-get, when the owners take turns.
func C06_turns() {
	vx.Bound("multi-get of 2..5 keys (one of spare capacity in the list) owned by either of 2 servers of any protocol, in every sequence of owners; misses, in every order of asking")
	vx.MapOrders()
	proto := vx.Choose("proto", 3)
	pp := ringPoints([]string{"p0", "p1"})
	n := 2 + vx.Choose("n", 4)
	all := make([]string, 0, n+1)
	for j := 0; j < n; j++ {
		all = append(all, ownedBy(pp, []string{"p0", "p1"}[vx.Choose("owner", 2)], j))
	}
	all = append(all, "spare")
	want := append([]string{}, all...)
	asked := 0
	vx.OnDial(func(network, addr string) (net.Conn, error) {
		return vx.NewConn(addr, serveWith(proto, func(q *Req) []byte {
			if q.Op == "get" {
				asked += len(q.Keys)
			}
			if q.Op == "get" && !q.Bin && !q.Meta {
				return []byte("END\r\n")
			}
			if q.Op == "noop" {
				return okReply(q)
			}
			return reply(q, &Out{Kind: "miss"})
		})), nil
	})
	pool, err := client.NewSinglePool(newHandle(proto, "p0"), newHandle(proto, "p1"))
	vx.Assert(err == nil, "a pool can be made")
	items, err := pool.GetMulti(all[:n]...)
	lbl := protoName[proto] + " pool"
	vx.Assert(err == nil && len(items) == 0, lbl+": multi-get finds nothing")
	vx.Assert(asked == n, lbl+": every key is asked for once")
	for i := range all {
		vx.Assert(all[i] == want[i], lbl+": multi-get leaves the list of keys alone")
	}
}

// A ring that has been asked before.
func C09_again() {
	vx.Bound("every 4-byte key on rings of 1..3 servers that were asked before for the keys with the hashes of, or just below, 3 of their points")
	sets := [][]string{{"solo"}, {"a:11211", "b:11211"}, {"test1", "test2", "test3"}}
	names := sets[vx.Choose("set", len(sets))]
	r := ringOf(names)
	pp := ringPoints(names)
	off := uint32(vx.Choose("below", 2))
	for _, i := range []int{1, len(pp.hash) / 2, len(pp.hash) - 1} {
		h := pp.hash[i] - off
		vx.Assert(has(pp.owners(h), r.Pick(keyWith(nil, h)).Name()), "a key asked for earlier is its owner's")
	}
	key, h := anyKey("")
	o := pp.owners(h)
	s := r.Pick(key)
	vx.Assert(has(o, s.Name()), "the owner of a key does not depend on the keys asked for earlier")
	vx.Assert(r.Pick(key) == s, "a key has one owner")
}

// A primary that fails after it has answered.
func C17_stale() {
	vx.Bound("2 gets of one key over text, meta and binary in any combination, the value (1 arbitrary byte, any flags) being another, or gone, or the primary refusing or losing the connection, at the second; a get of another key of either primary in between or not")
	x := newRouted(2, 2, 1)
	i := vx.Choose("i", 2)
	p, q := x.pri[i], x.sec[1-i]
	key := x.keys[i][1-i]
	r := frontReq(vx.Choose("proto", 3), "get")
	if r.Meta {
		r.Want = []byte("kvfc")
	}
	r.Keys = [][]byte{[]byte(key)}
	lbl := "routed get after a get"
	e := p.put(key, vx.Bytes("val", 1), anyFlags(""), 0)
	q.put(key, []byte("other"), 8, 0)
	one := func(hit *entry) {
		rep := x.ask(0, r, lbl)
		if hit == nil {
			vx.Assert(rep == nil || rep.Kind == "miss" && !p.hit || rep.Kind == "error" && p.hit, lbl+": what is not read is not a hit")
			return
		}
		if rep == nil {
			vx.Fail(lbl + ": a hit is a hit")
			return
		}
		vx.Assert(rep.Kind == "hit" && len(rep.Items) == 1, lbl+": a hit is a hit")
		for _, o := range rep.Items {
			checkRouted(o, r, hit, lbl)
		}
	}
	one(e)
	if x.c[0].IsClosed() {
		vx.Fail(lbl + ": the connection stays open")
	}
	if vx.Bool("between") {
		keys := r.Keys
		r.Keys = [][]byte{[]byte(x.keys[vx.Choose("j", 2)][i])}
		one(nil)
		r.Keys = keys
	}
	switch vx.Choose("then", 3) {
	case 0:
		e = p.put(key, vx.Bytes("val", 1), anyFlags(""), 0)
	case 1:
		p.remove(key)
		e = nil
	case 2:
		p.fault, p.kind = len(p.reqs), vx.Choose("kind", nFaults)
		e = nil
	}
	one(e)
}

// A key of many that cannot be sent.
func C21_many() {
	vx.Bound("multi-get of 4, 5, 17, 65 and 300 (thorough: also 129 and 600) keys of which one, at any place (of the larger ones: the first two, the middle, the last two), has 2 arbitrary bytes, or is empty or of 251 bytes")
	ns := []int{4, 5, 17, 65, 300}
	if vx.Thorough() {
		ns = append(ns, 129, 600)
	}
	n := ns[vx.Choose("n", len(ns))]
	at := []int{0, 1, n / 2, n - 2, n - 1}[vx.Choose("at", 5)]
	proto := vx.Choose("proto", 3)
	key := ""
	switch vx.Choose("key", 3) {
	case 0:
		key = string(vx.Bytes("key", 2))
	case 1:
		key = string(make([]byte, 0))
	case 2:
		b := make([]byte, 251)
		for i := range b {
			b[i] = 'k'
		}
		key = string(b)
	}
	refusedOrExact(withKey(oGetMulti, key, at, n), proto, key)
}

// The reply to a request does not wait for the next one.
func C15_begun() {
	vx.Bound("every supported command, with 1, 2 or 19 bytes of another request behind it; any opaque")
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	r := frontReq(proto, ops[vx.Choose("op", len(ops))])
	if r.Bin {
		r.Opaque = vx.U32("opaque")
	}
	lbl := protoName[proto] + " " + r.Op
	next := encode(frontReq(proto, "set"))
	h := &handler{f: func(q *server.Request) ([]*server.Response, error) {
		var out []*server.Response
		keys := q.Keys
		if len(keys) == 0 {
			keys = []string{q.Key}
		}
		for _, k := range keys {
			w := &server.Response{Key: k, Value: []byte("12")}
			if r.Bin {
				w.Value = []byte("\x00\x00\x00\x00\x00\x00\x00\x12")
			}
			out = append(out, w)
		}
		return out, nil
	}}
	c := vx.NewConn("c0", nil)
	newFront(h, c)
	c.Feed(append(encode(r), next[:[]int{1, 2, 19}[vx.Choose("begun", 3)]]...))
	vx.Idle()
	rep, n := parseReply(r, c.Written())
	vx.Assert(rep != nil && rep.Kind != "malformed" && rep.Kind != "error", lbl+": there is a reply before the next request is complete")
	vx.Assert(n == len(c.Written()), lbl+": there is one reply")
}

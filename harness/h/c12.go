package h

import (
	"net"

	"go.f110.dev/go-memcached/client"
	"go.f110.dev/go-memcached/cluster"
	"verif/harness/vx"
)

// replicas is a replica pool over reference servers.
type replicas struct {
	pool *cluster.ReplicaPool
	pri  []*store
	sec  []*store
	byNm map[string]*store
	keys [][]string // keys[i][j]: owned by primary i and secondary j
}

func newReplicas(npri, nsec int) *replicas {
	return newReplicasNamed([]string{"p0", "p1", "p2"}[:npri], []string{"q0", "q1", "q2"}[:nsec])
}

// newReplicasNamed: the addresses are the names, after / for the primaries and // for the secondaries if both have a name.
func newReplicasNamed(pri, sec []string) *replicas {
	r := &replicas{byNm: map[string]*store{}}
	names := [2][]string{pri, sec}
	var addrs [2][]string
	for x := range names {
		for _, n := range names[x] {
			addr := n
			if has(names[1-x], n) {
				addr = "//"[x:] + n
			}
			s := newStore(addr)
			if x == 0 {
				r.pri = append(r.pri, s)
			} else {
				r.sec = append(r.sec, s)
			}
			addrs[x] = append(addrs[x], addr)
			r.byNm[addr] = s
		}
	}
	vx.OnDial(func(network, addr string) (net.Conn, error) { return r.byNm[addr].conn(), nil })
	var h [2][]*client.ServerWithMetaProtocol
	for i := range names {
		for j, n := range names[i] {
			h[i] = append(h[i], newHandleAt(meta, n, addrs[i][j]).(*client.ServerWithMetaProtocol))
		}
	}
	r.pool = cluster.NewReplicaPool(h[0], h[1])
	pp, ps := ringPoints(names[0]), ringPoints(names[1])
	r.keys = make([][]string, len(pri))
	left := len(pri) * len(sec)
	for i := range r.keys {
		r.keys[i] = make([]string, len(sec))
		for j := range r.keys[i] {
			if has(sec, pri[i]) && has(pri, sec[j]) && pri[i] != sec[j] {
				left-- // no key has these owners: the rings agree on common servers
			}
		}
	}
	for n := 0; left > 0; n++ {
		k := "key" + utoa(uint64(n))
		a, b := pp.owners(crcOf(k))[0], ps.owners(crcOf(k))[0]
		i, j := indexOf(pri, a), indexOf(sec, b)
		if r.keys[i][j] == "" {
			r.keys[i][j] = k
			left--
		}
	}
	return r
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// quiet: the servers that do not own the key are not asked at all.
func (r *replicas) quiet(own ...*store) {
	for _, l := range [][]*store{r.pri, r.sec} {
		for _, s := range l {
			mine := false
			for _, o := range own {
				mine = mine || o == s
			}
			if !mine {
				vx.Assert(len(s.reqs) == 0, "servers that do not own the key are left alone")
			}
		}
	}
}

// wide is any number in the range; in the quick tier any with as many digits as the greatest.
func wide(name string, lo, hi int) int {
	if !vx.Thorough() {
		for x := 1; x <= hi; x *= 10 {
			if x > lo {
				lo = x
			}
		}
	}
	return vx.Int(name, lo, hi)
}

// anyFlags is any flags; in the quick tier any of ten digits.
func anyFlags(pfx string) uint32 { return uint32(wide(pfx+"flags", 0, 1<<32-1)) }

// hold puts an arbitrary former entry into the store, or none.
func hold(s *store, key, pfx string, digits bool, kinds ...int) {
	var e *entry
	switch kinds[vx.Choose(pfx+"held", len(kinds))] {
	case 0:
		return
	case 1: // never expires
		e = s.put(key, nil, anyFlags(pfx), 0)
	case 2: // expires within 30 days
		e = s.put(key, nil, anyFlags(pfx), int64(wide(pfx+"exp", 1, 2592000)))
	case 3: // expires later
		e = s.put(key, nil, anyFlags(pfx), unixNow()+int64(wide(pfx+"exp", 2592001, 1200000000)))
	case 4: // just later
		e = s.put(key, nil, anyFlags(pfx), unixNow()+int64(vx.Int(pfx+"exp", 2592001, 3100000)))
	}
	if digits {
		n := 1 + vx.Choose(pfx+"digits", 2)
		for i := 0; i < n; i++ {
			e.val = append(e.val, vx.Range(pfx+"digit", '0', '9'))
		}
		if vx.Bool(pfx + "not a number") {
			e.val = []byte("x")
		}
	} else {
		e.val = vx.Bytes(pfx+"val", 1)
	}
}

var expKinds = []string{"never", "30 days", "absolute", "past"}

// anyExp is any expiration a caller can give.
func anyExp(all bool) int {
	if !all {
		return wide("exp", 1, 2592000)
	}
	switch vx.Choose("expkind", len(expKinds)) {
	case 0:
		return 0
	case 1:
		return wide("exp", 1, 2592000)
	case 2:
		return wide("abs", 2592001, 1<<31-1)
	}
	return -1
}

var replicaOps = []int{oSet, oAdd, oReplace, oDelete, oIncr, oDecr}

// Writes over a replica pool.
func C12_writes() {
	vx.Bound("no faults; every write operation (set with and without CAS); the key owned by primary i and secondary 1-i of two each (thorough: by any two); any former entry on the primary (1 byte, or 1..2 digits; absent, or with any flags and lifetime) and on the secondary (absent or within 30 days; thorough: any); values of 2 (thorough: 0..2) arbitrary bytes, any flags, any expiration, any 16-bit amount (quick: those numbers with the greatest number of digits)")
	replicaWrites(false)
}

// Writes that fail on the way.
func C12_faults() {
	vx.Bound("as C12_writes, the former entries absent or within 30 days, an expiration within 30 days; with a refusal or a lost connection (request lost or reply lost) at any request to either server, or the item expiring before it is read back")
	replicaWrites(true)
}

func replicaWrites(faults bool) {
	op := replicaOps[vx.Choose("op", len(replicaOps))]
	r := newReplicas(2, 2)
	i := 0
	if !faults {
		i = vx.Choose("i", 2)
	}
	j := 1 - i
	if vx.Thorough() {
		j = vx.Choose("j", 2)
	}
	key := r.keys[i][j]
	p, q := r.pri[i], r.sec[j]
	pk, qk := []int{0, 1, 2, 3, 4}, []int{0, 2}
	if faults {
		pk = []int{0, 2}
	} else if vx.Thorough() {
		qk = pk
	}
	hold(p, key, "p.", isArith(op), pk...)
	hold(q, key, "q.", isArith(op), qk...)
	c := &Call{op: op, key: key}
	var before *client.Item
	if isStore(op) {
		n := 2
		if vx.Thorough() {
			n = vx.Choose("vlen", 3)
		}
		c.item = &client.Item{Key: key, Value: vx.Bytes("val", n), Flags: be32(anyFlags("")), Expiration: anyExp(!faults)}
		if op == oSet {
			switch vx.Choose("cas", 3) {
			case 1:
				c.item.Cas = vx.U64("cas")
				vx.Assume(c.item.Cas != 0)
			case 2:
				if e := p.find(key); e != nil {
					c.item.Cas = e.cas
				}
			}
		}
		before = clone(c.item)
	}
	if isArith(op) {
		c.delta = wide("delta", 0, 65535)
	}
	if faults && isArith(op) && vx.Bool("gone") {
		p.gone = 1
	} else if faults {
		x := p
		if vx.Bool("on the secondary") {
			x = q
		}
		x.fault, x.kind = vx.Choose("at", 2), vx.Choose("kind", nFaults)
	}
	cas0, old := uint64(0), p.find(key)
	if old != nil {
		cas0 = old.cas
	}
	oldq := q.find(key)
	var wasq *entry
	if oldq != nil {
		x := *oldq
		wasq = &x
	}
	res := c.doPool(r.pool)
	vx.Obs("err", errName(res.err))
	vx.ObsI("n", int(res.n))
	lbl := "replicated " + opName[op]
	r.quiet(p, q)
	if before != nil {
		vx.Assert(sameItem(before, c.item), lbl+" leaves the item alone")
	}
	// what the primary makes of it
	want := "nil"
	switch {
	case op == oSet && c.item.Cas != 0 && old == nil:
		want = "notfound"
	case op == oSet && c.item.Cas != 0 && c.item.Cas != cas0:
		want = "exists"
	case op == oAdd && old != nil:
		want = "exists"
	case (op == oReplace || isArith(op)) && old == nil:
		want = "notfound"
	case isArith(op) && old.val[0] == 'x':
		want = "other"
	}
	failedFirst := p.hit && p.fault == 0
	if failedFirst || want != "nil" {
		vx.Assert(res.err != nil, lbl+": a write the primary did not accept is not acknowledged")
		if !failedFirst {
			vx.Assert(errName(res.err) == want, lbl+": the primary's rejection is returned")
		}
		vx.Assert(q.writes == 0, lbl+": a write the primary did not accept does not reach the secondary")
		now := q.find(key)
		vx.Assert((now == nil) == (wasq == nil) && (now == nil || alike(now, wasq) && now.cas == wasq.cas), lbl+": the secondary is as before")
		vx.Reach("refused by the primary")
		return
	}
	if q.hit {
		vx.Assert(res.err != nil, lbl+": a failing secondary is reported")
		vx.Reach("refused by the secondary")
		return
	}
	if p.gone > 0 && res.err != nil {
		return // the item expired before it was read back
	}
	if p.hit && res.err != nil {
		vx.Reach("failed later")
		return // the write was applied, reading it back failed
	}
	vx.Assert(res.err == nil, lbl+" succeeds")
	vx.Reach("acknowledged")
	a, b := p.find(key), q.find(key)
	vx.Assert(alike(a, b), lbl+": both copies are alike")
	switch {
	case isStore(op):
		at, dead := deadline(int64(before.Expiration))
		if dead {
			vx.Assert(a == nil, lbl+": an item that has expired is gone")
			break
		}
		vx.Assert(a != nil && eqb(a.val, before.Value) && a.flags == u32(before.Flags) && a.exp == at, lbl+": the primary holds the item")
	case op == oDelete:
		vx.Assert(a == nil && b == nil, lbl+": both copies are gone")
	case isArith(op):
		// the number returned is the one held
		if b == nil {
			break
		}
		x, _ := number(trimSpace(b.val), 64)
		vx.Assert(x == uint64(res.n), lbl+": both hold the number returned")
	}
	vx.Expect("refused by the primary")
	vx.Expect("acknowledged")
	if faults {
		vx.Expect("refused by the secondary")
		vx.Expect("failed later")
	}
}

func trimSpace(b []byte) []byte {
	for len(b) > 0 && b[len(b)-1] == ' ' {
		b = b[:len(b)-1]
	}
	return b
}

// The rings of primaries and secondaries may have names in common.
func C12_names() {
	vx.Bound("every write operation over pools whose primaries and secondaries share names: a, b and a, b, c; a, b, c and a, b; the same names on both sides; for every pair of owners; a key that is held or not")
	sets := [][2][]string{{{"a", "b"}, {"a", "b", "c"}}, {{"a", "b", "c"}, {"a", "b"}}, {{"a", "b"}, {"b", "a"}}}
	set := sets[vx.Choose("set", len(sets))]
	r := newReplicasNamed(set[0], set[1])
	i, j := vx.Choose("i", len(r.pri)), vx.Choose("j", len(r.sec))
	key := r.keys[i][j]
	if key == "" {
		vx.Stop()
	}
	op := replicaOps[vx.Choose("op", len(replicaOps))]
	p, q := r.pri[i], r.sec[j]
	if vx.Bool("held") {
		p.put(key, []byte("7"), 1, 0)
	}
	c := &Call{op: op, key: key, delta: 2}
	if isStore(op) {
		c.item = &client.Item{Key: key, Value: vx.Bytes("val", 2), Flags: be32(9)}
	}
	held := p.find(key) != nil
	res := c.doPool(r.pool)
	r.quiet(p, q)
	lbl := "replicated " + opName[op] + " with common names"
	switch {
	case op == oAdd && held, (op == oReplace || isArith(op)) && !held:
		vx.Assert(res.err != nil && len(q.reqs) == 0, lbl+": refused by the primary")
		return
	}
	vx.Assert(res.err == nil, lbl+" succeeds")
	a, b := p.find(key), q.find(key)
	vx.Assert(alike(a, b), lbl+": both copies are alike")
	vx.Assert((a == nil) == (op == oDelete), lbl+": both owners hold it")
	vx.Assert(len(p.reqs) > 0 && len(q.reqs) > 0, lbl+": both owners are asked")
	if op != oDelete {
		it, err := r.pool.Get(key)
		vx.Assert(err == nil && it != nil && eqb(it.Value, a.val), lbl+": the primary owner is read")
	}
}

// Reads over a replica pool.
func C12_reads() {
	vx.Bound("get, and multi-get of 0..3 keys owned by any of 2 primaries and 2 secondaries, each held by the primary or not, by the secondary with other contents; any value byte, flags; one server refusing or losing the connection; every order of asking")
	vx.MapOrders()
	r := newReplicas(2, 2)
	n := vx.Choose("n", 4)
	single := n == 1 && vx.Bool("get")
	var keys []string
	var own []*store
	var held []*entry
	for x := 0; x < n; x++ {
		i := vx.Choose("i", 2)
		j := (i + x) % 2
		k := r.keys[i][j]
		dup := false
		for _, o := range keys {
			dup = dup || o == k
		}
		if dup {
			vx.Stop()
		}
		keys = append(keys, k)
		own = append(own, r.pri[i])
		if vx.Bool("held") {
			r.pri[i].put(k, vx.Bytes("val", 1), anyFlags(""), 0)
		}
		held = append(held, r.pri[i].find(k))
		r.sec[j].put(k, []byte("other"), 9, 0)
	}
	bad := vx.Choose("bad", 3)
	if bad > 0 {
		s := r.pri[bad-1]
		s.fault, s.kind = 0, vx.Choose("kind", nFaults)
	}
	var items []*client.Item
	var err error
	if single {
		var it *client.Item
		it, err = r.pool.Get(keys[0])
		if it != nil {
			items = append(items, it)
		}
	} else {
		items, err = r.pool.GetMulti(append([]string(nil), keys...)...)
	}
	vx.Obs("err", errName(err))
	r.quiet(own...)
	hit := r.pri[0].hit || r.pri[1].hit
	if hit {
		vx.Assert(err != nil, "a failing primary is reported")
		return
	}
	if single && held[0] == nil {
		vx.Assert(errName(err) == "notfound" && len(items) == 0, "a miss is a miss")
		return
	}
	vx.Assert(err == nil, "reading succeeds")
	want := 0
	for x, k := range keys {
		if held[x] == nil {
			continue
		}
		want++
		got := 0
		for _, it := range items {
			if it.Key == k {
				got++
				vx.Assert(eqb(it.Value, held[x].val) && eqb(it.Flags, be32(held[x].flags)) && it.Cas == held[x].cas && it.Expiration == 0, "the item is the primary's")
			}
		}
		vx.Assert(got == 1, "a held item is returned once")
	}
	vx.Assert(len(items) == want, "nothing else is returned")
	vx.Reach("answered")
	vx.Expect("answered")
}

// Two writes one after the other, with a loss and a reconnect in between or not.
func C12_sequence() {
	vx.Bound("any three write operations (thorough: four) on the same key, with arbitrary 1-byte values and amounts")
	r := newReplicas(1, 1)
	key := r.keys[0][0]
	p, q := r.pri[0], r.sec[0]
	n := 3
	if vx.Thorough() {
		n = 4
	}
	for x := 0; x < n; x++ {
		op := replicaOps[vx.Choose("op", len(replicaOps))]
		c := &Call{op: op, key: key, delta: wide("delta", 0, 255)}
		if isStore(op) {
			v := []byte{vx.Range("val", '0', '9')}
			c.item = &client.Item{Key: key, Value: v, Flags: be32(anyFlags("")), Expiration: wide("exp", 0, 2592000)}
		}
		res := c.doPool(r.pool)
		vx.Obs("err", errName(res.err))
		vx.Assert(alike(p.find(key), q.find(key)), "both copies stay alike")
		if res.err == nil && op == oDelete {
			vx.Assert(p.find(key) == nil, "deleted")
		}
	}
}

// manyReplicas is a pool as they are used.
func manyReplicas() *replicas {
	var p, q []string
	for i := 0; i < 6; i++ {
		p = append(p, "10.0.0."+utoa(uint64(i+1))+":11211")
	}
	for i := 0; i < 5; i++ {
		q = append(q, "10.1.0."+utoa(uint64(i+1))+":11211")
	}
	return newReplicasNamed(p, q)
}

// Pools as they are used: more servers, more keys, more operations.
func C12_large() {
	vx.Bound("pools of 6 primaries and 5 secondaries named by addresses; each write operation on 17, 40 or 100 (thorough: also 300) different keys in turn, with an arbitrary value byte; then a multi-get of them all and a get of each")
	r := manyReplicas()
	pp, ps := ringPoints(serverNames(r.pri)), ringPoints(serverNames(r.sec))
	ns := []int{17, 40, 100}
	if vx.Thorough() {
		ns = []int{17, 40, 100, 300}
	}
	n := ns[vx.Choose("n", len(ns))]
	op := replicaOps[vx.Choose("op", len(replicaOps))]
	lbl := "replicated " + opName[op] + " of many keys"
	var keys []string
	for i := 0; i < n; i++ {
		key := "user:" + utoa(uint64(i))
		keys = append(keys, key)
		p, q := r.byNm[pp.owners(crcOf(key))[0]], r.byNm[ps.owners(crcOf(key))[0]]
		if op != oAdd && op != oSet {
			p.put(key, []byte("7"), 1, 0)
		}
		c := &Call{op: op, key: key, delta: 2}
		if isStore(op) {
			c.item = &client.Item{Key: key, Value: []byte{vx.U8("val")}, Flags: be32(uint32(i))}
		}
		np, nq := p.writes, q.writes
		res := c.doPool(r.pool)
		vx.Assert(res.err == nil, lbl+" succeeds")
		a, b := p.find(key), q.find(key)
		vx.Assert(alike(a, b) && (a == nil) == (op == oDelete), lbl+": both copies are alike")
		vx.Assert(p.writes > np && q.writes > nq, lbl+": both owners are written")
	}
	items, err := r.pool.GetMulti(append([]string(nil), keys...)...)
	vx.Assert(err == nil, lbl+": reading succeeds")
	got := map[string]*client.Item{}
	for _, it := range items {
		vx.Assert(got[it.Key] == nil, lbl+": an item is returned once")
		got[it.Key] = it
	}
	vx.Assert(len(items) == len(got) && (op == oDelete) == (len(got) == 0) && len(got) <= n, lbl+": nothing else is returned")
	for _, k := range keys {
		e := r.byNm[pp.owners(crcOf(k))[0]].find(k)
		it, err := r.pool.Get(k)
		if op == oDelete {
			vx.Assert(errName(err) == "notfound", lbl+": a miss is a miss")
			continue
		}
		if got[k] == nil || it == nil {
			vx.Fail(lbl + ": every held item is returned")
			return
		}
		vx.Assert(eqb(it.Value, e.val) && eqb(got[k].Value, e.val) && eqb(it.Flags, be32(e.flags)) && eqb(got[k].Flags, be32(e.flags)), lbl+": the item is the primary's")
	}
}

func serverNames(l []*store) []string {
	var n []string
	for _, s := range l {
		n = append(n, s.name)
	}
	return n
}

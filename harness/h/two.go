package h

import (
	"sync"

	merrors "go.f110.dev/go-memcached/errors"

	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// both runs two functions at the same time and returns when they are done.
func both(a, b func()) {
	done := make(chan int, 2)
	vx.Go("caller0", func() { a(); done <- 0 })
	vx.Go("caller1", func() { b(); done <- 1 })
	<-done
	<-done
}

// Two users of a ring.
func C09_two() {
	vx.Bound("two callers each picking the servers of two keys, of the same or of different owners, on a ring of 3 servers; every interleaving of at most 2 (thorough: 3) preemptions at synchronisation and at accesses to shared variables")
	names := serverSets[2]
	p := ringPoints(names)
	ring := ringOf(names)
	var keys [2][2]string
	var got [2][2]string
	a := vx.Choose("a", len(names))
	b := vx.Choose("b", len(names))
	if !vx.Thorough() && a > b {
		vx.Stop()
	}
	keys[0] = [2]string{ownedBy(p, names[a], 0), ownedBy(p, names[b], 1)}
	keys[1] = [2]string{ownedBy(p, names[b], 2), ownedBy(p, names[a], 0)}
	explore(2, 3)
	pick := func(i int) func() {
		return func() {
			for j, k := range keys[i] {
				if s := ring.Pick(k); s != nil {
					got[i][j] = s.Name()
				}
			}
		}
	}
	both(pick(0), pick(1))
	for i := range keys {
		for j, k := range keys[i] {
			vx.Assert(has(p.owners(crcOf(k)), got[i][j]), "each caller gets the owner of its key")
		}
	}
}

// Two users of a pool.
func C11_two() {
	vx.Bound("two callers each with any single-key operation, multi-get, flush or version on a pool of 2 servers, on keys of the same or of different owners; every interleaving of at most 1 (thorough: 2) preemptions inside the servers, at synchronisation and at accesses to shared variables")
	names := serverSets[1]
	p := ringPoints(names)
	var mu sync.Mutex
	type asked struct {
		name string
		c    *Call
	}
	var l []asked
	_, pool := stubs2(names, func(name string, c *Call) (r Res) {
		vx.Gate("server." + name)
		mu.Lock()
		l = append(l, asked{name, c})
		mu.Unlock()
		switch c.op {
		case oGet:
			r.item = &client.Item{Key: c.key, Value: []byte("v" + c.key)}
		case oGetMulti:
			for _, k := range c.keys {
				r.items = append(r.items, &client.Item{Key: k, Value: []byte("v" + k)})
			}
		case oIncr, oDecr:
			r.n = int64(c.delta) + 1000
		case oVersion:
			r.ver = "1.6." + name
		case oDelete:
			r.err = merrors.ItemNotFound
		}
		vx.Gate("server." + name + " is done")
		return
	})
	ops := []int{oGet, oSet, oDelete, oIncr, oGetMulti, oFlush, oVersion}
	var c [2]*Call
	oa := vx.Choose("a", len(ops))
	ob := vx.Choose("b", len(ops))
	if oa > ob {
		vx.Stop()
	}
	where := vx.Choose("owner", 2)
	for i, o := range []int{ops[oa], ops[ob]} {
		own := 0
		if i == 1 {
			own = where
		}
		key := ownedBy(p, names[own], i)
		c[i] = &Call{op: o, key: key, delta: i + 1, exp: i + 10, keys: []string{key, ownedBy(p, names[1-own], i+2)}}
		if isStore(o) {
			c[i].item = &client.Item{Key: key, Value: []byte("v" + key), Flags: be32(uint32(i + 7)), Expiration: i + 20}
		}
	}
	explore(1, 2)
	var res [2]Res
	var vers [2]map[string]string
	run := func(i int) func() {
		return func() {
			switch c[i].op {
			case oGetMulti:
				res[i].items, res[i].err = pool.GetMulti(append([]string(nil), c[i].keys...)...)
			case oFlush:
				res[i].err = pool.Flush()
			case oVersion:
				vers[i], res[i].err = pool.Version()
			default:
				res[i] = c[i].doPool(pool)
			}
		}
	}
	both(run(0), run(1))
	n := 0
	for i, x := range c {
		lbl := opName[x.op] + " among others"
		r := res[i]
		switch x.op {
		case oDelete:
			vx.Assert(errName(r.err) == "notfound", lbl+" returns its own error")
		default:
			vx.Assert(r.err == nil, lbl+" succeeds")
		}
		switch x.op {
		case oGet:
			vx.Assert(r.item != nil && r.item.Key == x.key && string(r.item.Value) == "v"+x.key, lbl+" returns its own item")
		case oIncr:
			vx.Assert(r.n == int64(x.delta)+1000, lbl+" returns its own number")
		case oGetMulti:
			ok := len(r.items) == 2
			for _, k := range x.keys {
				f := 0
				for _, it := range r.items {
					if it.Key == k && string(it.Value) == "v"+k {
						f++
					}
				}
				ok = ok && f == 1
			}
			vx.Assert(ok, lbl+" returns its own items")
		case oVersion:
			ok := len(vers[i]) == len(names)
			for _, nm := range names {
				ok = ok && vers[i][nm] == "1.6."+nm
			}
			vx.Assert(ok, lbl+" returns the version of each server")
		}
		switch x.op {
		case oFlush, oVersion:
			for _, nm := range names {
				k := 0
				for _, q := range l {
					if q.c.op == x.op && q.name == nm {
						k++
					}
				}
				w := 1
				if c[0].op == c[1].op {
					w = 2
				}
				vx.Assert(k == w, lbl+" is for every server")
			}
			n += len(names)
		case oGetMulti:
			for _, key := range x.keys {
				k := 0
				for _, q := range l {
					if q.c.op == oGet && q.c.key == key || q.c.op == oGetMulti && has(q.c.keys, key) {
						vx.Assert(has(p.owners(crcOf(key)), q.name), lbl+" asks the owner of a key")
						k++
					}
				}
				vx.Assert(k == 1, lbl+" asks for a key once")
			}
			n += len(x.keys)
		default:
			k := 0
			for _, q := range l {
				if sameCall(q.c, x) {
					k++
					vx.Assert(has(p.owners(crcOf(x.key)), q.name), lbl+" goes to the owner of the key")
				}
			}
			vx.Assert(k == 1, lbl+" is performed exactly once")
			n++
		}
	}
	vx.Assert(len(l) == n, "nothing else is done")
}

// stubs2 are servers for several callers.
func stubs2(names []string, f func(name string, c *Call) Res) ([]*shared, *client.SinglePool) {
	var l []*shared
	var s []client.Server
	for _, n := range names {
		n := n
		x := &shared{&stub{name: n}, func(c *Call) Res { return f(n, c) }}
		l = append(l, x)
		s = append(s, x)
	}
	p, err := client.NewSinglePool(s...)
	vx.Assert(err == nil, "a pool can be made")
	return l, p
}

// shared is a server for several callers; it keeps no record of its own.
type shared struct {
	*stub
	g func(c *Call) Res
}

func (s *shared) Get(key string) (*client.Item, error) {
	r := s.g(&Call{op: oGet, key: key})
	return r.item, r.err
}
func (s *shared) GetMulti(keys ...string) ([]*client.Item, error) {
	r := s.g(&Call{op: oGetMulti, keys: append([]string(nil), keys...)})
	return r.items, r.err
}
func (s *shared) Set(item *client.Item) error { return s.g(&Call{op: oSet, item: clone(item)}).err }
func (s *shared) Delete(key string) error     { return s.g(&Call{op: oDelete, key: key}).err }
func (s *shared) Increment(key string, delta int, expiration int) (int64, error) {
	r := s.g(&Call{op: oIncr, key: key, delta: delta, exp: expiration})
	return r.n, r.err
}
func (s *shared) Flush() error { return s.g(&Call{op: oFlush}).err }
func (s *shared) Version() (string, error) {
	r := s.g(&Call{op: oVersion})
	return r.ver, r.err
}

// Two users of a replica pool.
func C12_two() {
	vx.Bound("two callers each with a set, delete, increment or get (thorough: any write operation, get or multi-get) on a replica pool of 2 primaries and 2 secondaries, on different keys whose owners are the same or differ; every interleaving of at most 1 preemption (thorough: 2 for different owners) at reads, writes, synchronisation and accesses to shared variables")
	r := newReplicas(2, 2)
	where := vx.Choose("owners", 2)
	ops := []int{oSet, oDelete, oIncr, oGet}
	if vx.Thorough() {
		ops = []int{oSet, oDelete, oIncr, oGet, oAdd, oReplace, oDecr, oGetMulti}
	}
	oa := vx.Choose("a", len(ops))
	ob := vx.Choose("b", len(ops))
	if oa > ob {
		vx.Stop()
	}
	var c [2]*Call
	var own [2][2]*store
	pp, ps := ringPoints([]string{"p0", "p1"}), ringPoints([]string{"q0", "q1"})
	for i, o := range []int{ops[oa], ops[ob]} {
		key := r.keys[0][0]
		own[i] = [2]*store{r.pri[0], r.sec[0]}
		switch {
		case i == 1 && where == 1:
			key = r.keys[1][1]
			own[i] = [2]*store{r.pri[1], r.sec[1]}
		case i == 1:
			for n := 0; ; n++ {
				k := "other" + utoa(uint64(n))
				if pp.owners(crcOf(k))[0] == "p0" && ps.owners(crcOf(k))[0] == "q0" {
					key = k
					break
				}
			}
		}
		c[i] = &Call{op: o, key: key, keys: []string{key}, delta: i + 2}
		if isStore(o) {
			c[i].item = &client.Item{Key: key, Value: []byte("new of " + key), Flags: be32(uint32(i + 40)), Expiration: 0}
		}
		if o != oAdd && o != oSet {
			for _, s := range own[i] {
				s.put(key, []byte(utoa(uint64(50+i))), uint32(i+3), 0)
			}
		}
	}
	if where == 1 {
		explore(1, 2)
	} else {
		explore(1, 1)
	}
	var res [2]Res
	run := func(i int) func() {
		return func() {
			if c[i].op == oGetMulti {
				res[i].items, res[i].err = r.pool.GetMulti(c[i].keys...)
				return
			}
			res[i] = c[i].doPool(r.pool)
		}
	}
	both(run(0), run(1))
	for i, x := range c {
		lbl := "replicated " + opName[x.op] + " among others"
		vx.Assert(res[i].err == nil, lbl+" succeeds")
		a, b := own[i][0].find(x.key), own[i][1].find(x.key)
		vx.Assert(alike(a, b) && (a == nil) == (x.op == oDelete), lbl+": both copies are alike")
		for _, l := range [][]*store{r.pri, r.sec} {
			for _, s := range l {
				vx.Assert(s == own[i][0] || s == own[i][1] || s.find(x.key) == nil, lbl+": only the owners hold the key")
			}
		}
		was := uint64(50 + i)
		switch {
		case x.op == oDelete || a == nil:
		case isStore(x.op):
			vx.Assert(eqb(a.val, x.item.Value) && a.flags == u32(x.item.Flags), lbl+": the caller's item is held")
		case x.op == oIncr:
			vx.Assert(uint64(res[i].n) == was+uint64(x.delta) && string(a.val) == utoa(uint64(res[i].n)), lbl+": its own number")
		case x.op == oDecr:
			vx.Assert(uint64(res[i].n) == was-uint64(x.delta) && string(trimSpace(a.val)) == utoa(uint64(res[i].n)), lbl+": its own number")
		case x.op == oGet:
			vx.Assert(res[i].item != nil && res[i].item.Key == x.key && string(res[i].item.Value) == utoa(was), lbl+": its own item")
		case x.op == oGetMulti:
			vx.Assert(len(res[i].items) == 1 && res[i].items[0].Key == x.key && string(res[i].items[0].Value) == utoa(was), lbl+": its own item")
		}
	}
}

// Two clients of a router.
func C17_two() {
	vx.Bound("two clients of a router over 2 primaries and 2 secondaries, of any protocols, each with a set, a hit or a miss on its own key (the same owners or others); every interleaving of at most 1 preemption at reads, writes, synchronisation and accesses to shared variables")
	pa, pb := vx.Choose("proto a", 3), vx.Choose("proto b", 3)
	if !vx.Thorough() && pa > pb {
		vx.Stop()
	}
	x := newRouted(2, 2, 2)
	x.mute = true
	ops := []string{"set", "get", "miss"}
	var l [2]*Req
	oa, ob := vx.Choose("a", 3), vx.Choose("b", 3)
	far := vx.Choose("owners", 2)
	var own [2][2]*store
	for i, p := range []int{pa, pb} {
		what := ops[[]int{oa, ob}[i]]
		op := what
		if op == "miss" {
			op = "get"
		}
		r := frontReq(p, op)
		k := i * far
		own[i] = [2]*store{x.pri[k], x.sec[0]}
		key := x.keys[k][0]
		if i == 1 && far == 0 {
			own[i][1] = x.sec[1]
			key = x.keys[0][1]
		}
		r.Keys[0] = []byte(key)
		if r.Op == "set" {
			r.Val, r.Flags = []byte("new of "+key), uint32(40+i)
			r.Exp = int64(60 + i)
		} else if what == "get" {
			for _, s := range own[i] {
				s.put(key, []byte("old of "+key), uint32(i+3), 0)
			}
		}
		if r.Bin {
			r.Opaque = uint32(100 + i)
		}
		l[i] = r
		x.c[i].Feed(encode(r))
	}
	explore(1, 1)
	vx.Idle()
	for i, r := range l {
		lbl := "routed " + r.Op + " among others"
		b := x.c[i].Written()
		rep, n := parseReply(r, b)
		vx.Assert(n == len(b), lbl+": there is one reply")
		if rep == nil {
			vx.Fail(lbl + ": there is a reply")
			return
		}
		key := string(r.Keys[0])
		p, q := own[i][0].find(key), own[i][1].find(key)
		if r.Bin {
			vx.Assert(rep.Opaque == r.Opaque, lbl+": the opaque is its request's")
		}
		what := ops[[]int{oa, ob}[i]]
		vx.Assert(alike(p, q) && (p == nil) == (what == "miss"), lbl+": both copies are alike")
		switch what {
		case "set":
			vx.Assert(rep.Kind == "stored", lbl+": is stored")
			vx.Assert(p != nil && eqb(p.val, r.Val) && p.flags == r.Flags, lbl+": the client's item is held")
		case "miss":
			vx.Assert(rep.Kind == "miss", lbl+": a miss is a miss")
		case "get":
			vx.Assert(rep.Kind == "hit" && len(rep.Items) == 1 && string(rep.Items[0].Val) == "old of "+key && rep.Items[0].Flags == uint32(i+3), lbl+": its own item")
		}
	}
}

package h

import (
	"errors"
	"hash/crc32"
	"net"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"
	"verif/harness/vx"
)

// pooled is what the pools offer.
type pooled interface {
	Get(key string) (*client.Item, error)
	GetMulti(keys ...string) ([]*client.Item, error)
	Set(item *client.Item) error
	Add(item *client.Item) error
	Replace(item *client.Item) error
	Delete(key string) error
	Increment(key string, delta, expiration int) (int64, error)
	Decrement(key string, delta, expiration int) (int64, error)
}

// doPool performs a keyed operation.
func (c *Call) doPool(p pooled) (r Res) {
	switch c.op {
	case oGet:
		r.item, r.err = p.Get(c.key)
	case oGetMulti:
		r.items, r.err = p.GetMulti(c.keys...)
	case oSet:
		r.err = p.Set(c.item)
	case oAdd:
		r.err = p.Add(c.item)
	case oReplace:
		r.err = p.Replace(c.item)
	case oDelete:
		r.err = p.Delete(c.key)
	case oIncr:
		r.n, r.err = p.Increment(c.key, c.delta, c.exp)
	case oDecr:
		r.n, r.err = p.Decrement(c.key, c.delta, c.exp)
	case oTouch:
		r.err = p.(*client.SinglePool).Touch(c.key, c.exp)
	}
	return
}

// stubs are servers that keep a copy of what they are asked.
func stubs(names []string, f func(name string, c *Call) Res) ([]*stub, *client.SinglePool) {
	var l []*stub
	var s []client.Server
	for _, n := range names {
		n := n
		x := &stub{name: n, f: func(c *Call) Res { return f(n, c) }}
		l = append(l, x)
		s = append(s, x)
	}
	p, err := client.NewSinglePool(s...)
	vx.Assert(err == nil, "a pool can be made")
	return l, p
}

// sameCall compares what a server was asked with what was wanted.
func sameCall(got, want *Call) bool {
	if got.op != want.op {
		return false
	}
	switch got.op {
	case oGet, oDelete:
		return got.key == want.key
	case oSet, oAdd, oReplace:
		return got.item != nil && got.item.Key == want.item.Key && eqb(got.item.Value, want.item.Value) && eqb(got.item.Flags, want.item.Flags) &&
			got.item.Expiration == want.item.Expiration && got.item.Cas == want.item.Cas
	case oIncr, oDecr:
		return got.key == want.key && got.delta == want.delta && got.exp == want.exp
	case oTouch:
		return got.key == want.key && got.exp == want.exp
	}
	return false
}

var singleOps = []int{oGet, oSet, oAdd, oReplace, oDelete, oIncr, oDecr, oTouch}

// Operations on one key.
func C11_single() {
	vx.Bound("every single-key operation; every 4-byte key (thorough: also with a prefix); arbitrary amounts, expirations, flags, CAS tokens and 2-byte values; or amounts, expirations and contents that are zero, negative or empty; answers: success with arbitrary contents, and 3 errors; pools of 2 (thorough: 1..3) servers")
	op := singleOps[vx.Choose("op", len(singleOps))]
	names := serverSets[1]
	prefix := ""
	if vx.Thorough() {
		names = serverSets[[]int{0, 1, 2, 4}[vx.Choose("set", 4)]]
		prefix = []string{"", "some/longer.key:"}[vx.Choose("prefix", 2)]
	}
	p := ringPoints(names)
	plain := vx.Bool("plain")
	var key string
	var h uint32
	if plain {
		key = "key0"
		h = crcOf(key)
	} else {
		key, h = anyKey(prefix)
	}
	c := &Call{op: op, key: key}
	switch {
	case isStore(op):
		c.item = &client.Item{Key: key, Value: vx.Bytes("val", 2), Flags: vx.Bytes("flags", 4), Expiration: int(vx.U32("exp")), Cas: vx.U64("cas")}
	case isArith(op), op == oTouch:
		c.delta, c.exp = int(vx.U64("delta")), int(vx.U64("exp"))
	}
	errs := []error{nil, merrors.ItemNotFound, merrors.ItemExists, errors.New("broken")}
	ans := Res{err: errs[vx.Choose("answer", len(errs))]}
	if ans.err == nil {
		switch {
		case op == oGet:
			ans.item = &client.Item{Key: key, Value: vx.Bytes("ival", 2), Flags: vx.Bytes("iflags", 4), Expiration: int(vx.U32("iexp")), Cas: vx.U64("icas")}
		case isArith(op):
			ans.n = int64(vx.U64("n"))
		}
	}
	if ans.err == nil && plain {
		// nothing in it
		if isStore(op) {
			c.item = &client.Item{Key: key}
			if vx.Bool("empty") {
				c.item.Value, c.item.Flags = []byte{}, []byte{}
			}
		}
		c.delta, c.exp = 0, 0
		if vx.Bool("negative") {
			c.delta, c.exp = -1, -1
			if c.item != nil {
				c.item.Expiration = -1
			}
		}
		if op == oGet {
			ans.item = &client.Item{Key: key}
		}
		ans.n = 0
	}
	var want, wantItem *client.Item
	if c.item != nil {
		want = clone(c.item)
	}
	if ans.item != nil {
		wantItem = clone(ans.item)
	}
	all, pool := stubs(names, func(name string, x *Call) Res { return ans })
	r := c.doPool(pool)
	vx.Obs("err", errName(r.err))
	lbl := opName[op]
	own := p.owners(h)
	n := 0
	for _, s := range all {
		n += len(s.calls)
		if len(s.calls) == 0 {
			continue
		}
		vx.Obs("asked", s.name)
		vx.Assert(has(own, s.name), lbl+" goes to the owner of the key")
		if want != nil {
			c.item = want
		}
		vx.Assert(sameCall(s.calls[0], c), lbl+" reaches the server with the caller's arguments")
		vx.Assert(s.close == 0, lbl+" closes nothing")
	}
	vx.Assert(n == 1, lbl+" is performed exactly once")
	if ans.err != nil {
		vx.Assert(errors.Is(r.err, ans.err), lbl+" returns the server's error")
		return
	}
	vx.Assert(r.err == nil, lbl+" succeeds as the server does")
	if wantItem != nil {
		if r.item == nil {
			vx.Fail("get returns the server's item")
			return
		}
		vx.Assert(r.item.Key == key && eqb(r.item.Value, wantItem.Value) && eqb(r.item.Flags, wantItem.Flags) &&
			r.item.Expiration == wantItem.Expiration && r.item.Cas == wantItem.Cas, "get returns the server's item")
	}
	vx.Assert(r.n == ans.n, lbl+" returns the server's number")
}

// ownedBy finds a key that a server owns alone.
func ownedBy(p *points, name string, k int) string {
	for i := 0; ; i++ {
		key := "k" + utoa(uint64(i))
		own := p.owners(crcOf(key))
		if len(own) == 1 && own[0] == name {
			if k == 0 {
				return key
			}
			k--
		}
	}
}

// Multi-get over pools.
func C11_multi() {
	vx.Bound("multi-get of 0..3 (thorough: 4) different keys, each owned by any of up to 3 servers, or 1..2 keys of which one is any 4-byte key and two servers; each server answers with any subset of its items or fails; every order of asking the servers")
	names := serverSets[4]
	n := 4
	if vx.Thorough() {
		n = 5
	}
	n = vx.Choose("n", n)
	sym := false // the last key is any key, and every server has its items
	if n == 1 || n == 2 {
		sym = vx.Bool("any key")
	}
	if sym {
		names = serverSets[1]
	} else if n <= 1 {
		names = names[:1+vx.Choose("servers", len(names))]
	}
	p := ringPoints(names)
	var keys []string
	owner := map[string][]string{}
	used := map[string]int{}
	for i := 0; i < n; i++ {
		var k string
		if i == n-1 && sym {
			var h uint32
			k, h = anyKey("")
			if len(keys) == 1 {
				vx.Assume(k != keys[0])
			}
			owner[k] = p.owners(h)
		} else {
			o := names[vx.Choose("owner", len(names))]
			k = ownedBy(p, o, used[o])
			used[o]++
			owner[k] = []string{o}
		}
		keys = append(keys, k)
	}
	arg := append(make([]string, 0, n+2), keys...)
	bad := len(names) // this server fails
	if !sym {
		bad = vx.Choose("fails", len(names)+1)
	}
	failed := false
	held := map[string]bool{}
	for _, k := range keys {
		held[k] = sym || vx.Bool("held")
	}
	errBroken := errors.New("broken")
	vx.MapOrders()
	all, pool := stubs(names, func(name string, c *Call) (r Res) {
		if bad < len(names) && names[bad] == name {
			failed = true
			return Res{err: errBroken}
		}
		if c.op == oGet {
			r.err = merrors.ItemNotFound
			if held[c.key] {
				r = Res{item: &client.Item{Key: c.key, Value: []byte("v" + c.key)}}
			}
		}
		for _, k := range c.keys {
			if held[k] {
				r.items = append(r.items, &client.Item{Key: k, Value: []byte("v" + k)})
			}
		}
		return
	})
	items, err := pool.GetMulti(arg...)
	vx.Obs("err", errName(err))
	if failed {
		vx.Assert(err != nil, "a failing server fails a multi-get")
		return
	}
	vx.Assert(err == nil, "multi-get succeeds as the servers do")
	asked := 0
	for _, s := range all {
		vx.Obs("server", s.name)
		for _, c := range s.calls {
			ks := c.keys
			if c.op == oGet {
				ks = []string{c.key}
			} else {
				vx.Assert(c.op == oGetMulti && len(ks) > 0, "a server is asked for something")
			}
			for _, k := range ks {
				asked++
				vx.Assert(has(owner[k], s.name), "multi-get asks the owner of a key")
			}
		}
	}
	vx.Assert(asked == len(keys), "multi-get asks for each key once")
	want := 0
	for _, k := range keys {
		if !held[k] {
			continue
		}
		want++
		got := 0
		for _, it := range items {
			if it.Key == k {
				got++
				vx.Assert(string(it.Value) == "v"+k, "multi-get returns the owner's item")
			}
		}
		vx.Assert(got == 1, "multi-get returns an item that is held, once")
	}
	vx.Assert(len(items) == want, "multi-get returns nothing else")
}

// Operations on every server.
func C11_all() {
	vx.Bound("flush, version and close of pools of 1..4 servers, any of which fail, in every order")
	names := []string{"a", "b", "c", "d"}[:1+vx.Choose("n", 4)]
	op := vx.Choose("op", 3)
	bad := map[string]bool{}
	anyBad := false
	for _, n := range names {
		bad[n] = vx.Bool("fails")
		anyBad = anyBad || bad[n]
	}
	errBroken := errors.New("broken")
	vx.MapOrders()
	all, pool := stubs(names, func(name string, c *Call) Res {
		if bad[name] {
			return Res{err: errBroken}
		}
		return Res{ver: "1.6." + name}
	})
	var err error
	switch op {
	case 0:
		err = pool.Flush()
		for _, s := range all {
			vx.Assert(anyBad || len(s.calls) == 1 && s.calls[0].op == oFlush, "flush reaches every server")
		}
	case 1:
		var m map[string]string
		m, err = pool.Version()
		if !anyBad {
			vx.Assert(len(m) == len(names), "version answers for every server")
			for _, n := range names {
				vx.Assert(m[n] == "1.6."+n, "version answers for every server")
			}
		}
	case 2:
		for _, s := range all {
			if bad[s.name] {
				s.cerr = errBroken
			}
		}
		err = pool.Close()
		for _, s := range all {
			vx.Assert(s.close == 1 && len(s.calls) == 0, "close is attempted on every server")
		}
	}
	vx.Obs("err", errName(err))
	if anyBad {
		vx.Assert(err != nil, "a failing server is reported")
		if op < 2 {
			asked := 0
			for _, s := range all {
				asked += len(s.calls)
			}
			vx.Assert(asked > 0, "the servers are asked")
		}
	} else {
		vx.Assert(err == nil, "success is reported")
	}
}

// A pool over real connections: each server sees one request and the caller its reply.
func C11_wire() {
	vx.Bound("each operation through a pool of one server of each protocol over connections; keys owned by each of them; success, miss and error replies")
	op := singleOps[vx.Choose("op", len(singleOps))]
	names := []string{"text", "meta", "binary"}
	p := ringPoints(names)
	at := vx.Choose("owner", 3)
	key := ownedBy(p, names[at], 0)
	c := opCall(op, false)
	c.key = key
	if c.item != nil {
		c.item.Key = key
	}
	os := outcomes(op, at, false)
	o := &os[vx.Choose("outcome", len(os))]
	var conns []*vx.Conn
	var seen []*Req
	var servers []client.Server
	byName := map[string]*vx.Conn{}
	for i, n := range names {
		i := i
		conn := vx.NewConn(n, serveWith(i, func(r *Req) []byte {
			seen = append(seen, r)
			vx.Assert(i == at, "only the owner is asked")
			return fullReply(r, o)
		}))
		conns = append(conns, conn)
		byName[n] = conn
	}
	vx.OnDial(func(network, addr string) (net.Conn, error) { return byName[addr], nil })
	for i, n := range names {
		servers = append(servers, newHandle(i, n))
	}
	pool, err := client.NewSinglePool(servers...)
	vx.Assert(err == nil, "a pool can be made")
	r := c.doPool(pool)
	vx.Assert(len(seen) == 1, "one request is sent")
	vx.Assert(errName(r.err) == o.want, "pool "+opName[op]+": reply "+o.out.Kind+" means "+o.want)
	if r.err == nil && op == oGet {
		vx.Assert(r.item.Key == key && string(r.item.Value) == "v", "the item is the owner's")
	}
	if r.err == nil && isArith(op) {
		vx.Assert(r.n == 12, "the number is the owner's")
	}
	vx.Assert(pool.Close() == nil, "closing succeeds")
	for _, x := range conns {
		vx.Assert(x.IsClosed(), "every connection is closed")
	}
}

func crcOf(key string) uint32 { return crc32.ChecksumIEEE([]byte(key)) }

// manyNames are names as users give them.
func manyNames(kind int) []string {
	var l []string
	switch kind {
	case 0: // addresses: the same port everywhere
		for i := 1; i <= 12; i++ {
			l = append(l, "10.0.0."+utoa(uint64(i))+":11211")
		}
	case 1: // host names: the same domain everywhere
		for i := 0; i < 20; i++ {
			l = append(l, "memcached-"+utoa(uint64(i))+".memcached.default.svc.cluster.local:11211")
		}
	case 2:
		l = []string{"127.0.0.1:11211", "127.0.0.1:11212", "127.0.0.1:11213"}
	}
	return l
}

// Pools as they are used: more servers, longer names, more keys.
func C11_large() {
	vx.Bound("pools of 12, 20 and 3 servers named by addresses and host names; multi-gets of 17, 40, 100 (thorough: 1000) keys, all or half of them held; each single-key operation on the first key of every server; flush, version and close with none, the first, the middle or the last server failing")
	names := manyNames(vx.Choose("names", 3))
	p := ringPoints(names)
	errBroken := errors.New("broken")
	bad := ""
	held := func(k string) bool { return true }
	all, pool := stubs(names, func(name string, c *Call) (r Res) {
		if name == bad {
			return Res{err: errBroken}
		}
		switch c.op {
		case oVersion:
			return Res{ver: "1.6." + name}
		case oGet:
			if !held(c.key) {
				return Res{err: merrors.ItemNotFound}
			}
			return Res{item: &client.Item{Key: c.key, Value: []byte("v" + c.key)}}
		}
		for _, k := range c.keys {
			if held(k) {
				r.items = append(r.items, &client.Item{Key: k, Value: []byte("v" + k)})
			}
		}
		return
	})
	switch vx.Choose("what", 3) {
	case 0:
		ns := []int{17, 40, 100}
		if vx.Thorough() {
			ns = []int{17, 40, 100, 1000}
		}
		n := ns[vx.Choose("n", len(ns))]
		if vx.Bool("half") {
			held = func(k string) bool { return (k[len(k)-1]-'0')%2 == 0 }
		}
		var keys []string
		for i := 0; i < n; i++ {
			keys = append(keys, "user:"+utoa(uint64(i)))
		}
		items, err := pool.GetMulti(append([]string(nil), keys...)...)
		vx.Assert(err == nil, "multi-get succeeds as the servers do")
		asked := map[string]int{}
		for _, s := range all {
			for _, c := range s.calls {
				vx.Assert(c.op == oGet || c.op == oGetMulti && len(c.keys) > 0, "a server is asked for something")
				ks := c.keys
				if c.op == oGet {
					ks = []string{c.key}
				}
				for _, k := range ks {
					asked[k]++
					vx.Assert(has(p.owners(crcOf(k)), s.name), "multi-get asks the owner of a key")
				}
			}
		}
		got := map[string]int{}
		for _, it := range items {
			got[it.Key]++
			vx.Assert(string(it.Value) == "v"+it.Key, "multi-get returns the owner's item")
		}
		want := 0
		for _, k := range keys {
			vx.Assert(asked[k] == 1, "multi-get asks for each key once")
			if held(k) {
				want++
				vx.Assert(got[k] == 1, "multi-get returns an item that is held, once")
			}
		}
		vx.Assert(len(items) == want, "multi-get returns nothing else")
	case 1:
		op := singleOps[vx.Choose("op", len(singleOps))]
		for i, s := range all {
			c := opCall(op, false)
			c.key = ownedBy(p, names[i], 0)
			if c.item != nil {
				c.item.Key = c.key
			}
			r := c.doPool(pool)
			vx.Assert(r.err == nil, opName[op]+" succeeds as the server does")
			vx.Assert(len(s.calls) == 1 && sameCall(s.calls[0], c), opName[op]+" is performed exactly once, by the owner")
		}
		for _, s := range all {
			vx.Assert(len(s.calls) == 1 && s.close == 0, opName[op]+" is performed exactly once, by the owner")
		}
	case 2:
		if i := vx.Choose("fails", 4); i > 0 {
			bad = names[[]int{0, len(names) / 2, len(names) - 1}[i-1]]
		}
		var err error
		switch vx.Choose("op", 3) {
		case 0:
			err = pool.Flush()
			for _, s := range all {
				vx.Assert(bad != "" || len(s.calls) == 1 && s.calls[0].op == oFlush, "flush reaches every server")
			}
		case 1:
			var m map[string]string
			m, err = pool.Version()
			if bad == "" {
				vx.Assert(len(m) == len(names), "version answers for every server")
				for _, n := range names {
					vx.Assert(m[n] == "1.6."+n, "version answers for every server")
				}
			}
		case 2:
			for _, s := range all {
				if s.name == bad {
					s.cerr = errBroken
				}
			}
			err = pool.Close()
			for _, s := range all {
				vx.Assert(s.close == 1 && len(s.calls) == 0, "close is attempted on every server")
			}
		}
		vx.Assert((err != nil) == (bad != ""), "a failing server is reported, and only that")
	}
}

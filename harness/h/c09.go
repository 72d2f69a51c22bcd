package h

import (
	"crypto/sha1"
	"encoding/binary"
	"hash/crc32"
	"sort"
	"strconv"

	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// stub is a server that records what it is asked and answers as told.
type stub struct {
	name  string
	calls []*Call
	f     func(c *Call) Res
	close int
	cerr  error
}

func (s *stub) Name() string { return s.name }

func (s *stub) call(c *Call) Res {
	s.calls = append(s.calls, c)
	if s.f != nil {
		return s.f(c)
	}
	return Res{}
}

func (s *stub) Close() error { s.close++; return s.cerr }
func (s *stub) Get(key string) (*client.Item, error) {
	r := s.call(&Call{op: oGet, key: key})
	return r.item, r.err
}
func (s *stub) GetMulti(keys ...string) ([]*client.Item, error) {
	r := s.call(&Call{op: oGetMulti, keys: append([]string(nil), keys...)})
	return r.items, r.err
}
func (s *stub) Set(item *client.Item) error     { return s.call(&Call{op: oSet, item: item}).err }
func (s *stub) Add(item *client.Item) error     { return s.call(&Call{op: oAdd, item: item}).err }
func (s *stub) Replace(item *client.Item) error { return s.call(&Call{op: oReplace, item: item}).err }
func (s *stub) Delete(key string) error         { return s.call(&Call{op: oDelete, key: key}).err }
func (s *stub) Increment(key string, delta int, expiration int) (int64, error) {
	r := s.call(&Call{op: oIncr, key: key, delta: delta, exp: expiration})
	return r.n, r.err
}
func (s *stub) Decrement(key string, delta int, expiration int) (int64, error) {
	r := s.call(&Call{op: oDecr, key: key, delta: delta, exp: expiration})
	return r.n, r.err
}
func (s *stub) Touch(key string, expiration int) error {
	return s.call(&Call{op: oTouch, key: key, exp: expiration}).err
}
func (s *stub) Flush() error { return s.call(&Call{op: oFlush}).err }
func (s *stub) Version() (string, error) {
	r := s.call(&Call{op: oVersion})
	return r.ver, r.err
}
func (s *stub) Reconnect() error { return nil }

var _ client.Server = &stub{}

// points are the ring points of a set of names, in order; a point may belong to several names.
type points struct {
	hash  []uint32
	owner [][]string
}

func ringPoints(names []string) *points {
	m := map[uint32][]string{}
	for _, n := range names {
		for i := 0; i < 200; i++ {
			s := sha1.Sum([]byte(n + "/" + strconv.Itoa(i)))
			h := binary.BigEndian.Uint32(s[:4])
			m[h] = append(m[h], n)
		}
	}
	p := &points{}
	for h := range m {
		p.hash = append(p.hash, h)
	}
	sort.Slice(p.hash, func(i, j int) bool { return p.hash[i] < p.hash[j] })
	for _, h := range p.hash {
		p.owner = append(p.owner, m[h])
	}
	return p
}

// owners are the names that may own a key: those of the greatest point not above its hash.
func (p *points) owners(h uint32) []string {
	lo, hi := 0, len(p.hash)
	for lo < hi { // first point above h
		mid := (lo + hi) / 2
		if p.hash[mid] > h {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	if lo > 0 {
		lo--
	}
	return p.owner[lo]
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func ringOf(names []string) *client.Ring {
	var l []client.Server
	for _, n := range names {
		l = append(l, &stub{name: n})
	}
	return client.NewRing(l...)
}

// perm is the k-th ordering of the names.
func perm(names []string, k int) []string {
	rest := append([]string(nil), names...)
	var out []string
	for len(rest) > 0 {
		i := k % len(rest)
		k /= len(rest)
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return out
}

func fact(n int) int {
	r := 1
	for i := 2; i <= n; i++ {
		r *= i
	}
	return r
}

var serverSets = [][]string{
	{"solo"},
	{"a:11211", "b:11211"},
	{"s198", "s404"},            // share a ring point
	{"s305", "s768", "x"},       // share a ring point
	{"test1", "test2", "test3"}, // as in the tests
	{"s1979", "s1989", "s850", "s976"},
	{"10.0.0.1:11211", "10.0.0.2:11211", "10.0.0.3:11211", "10.0.0.4:11211", "10.0.0.5:11211"},
}

func c09Set() []string {
	n := 5
	if vx.Thorough() {
		n = len(serverSets)
	}
	return serverSets[vx.Choose("set", n)]
}

// crcInv: bit j of the four bytes that turn the CRC-32 of prefix+"\0\0\0\0" into that xor y is the parity of y&crcInv[j].
var crcInv = [32]uint32{0xc8851aab, 0x910a3556, 0x22146aac, 0x4428d558, 0x8851aab0, 0x10a35560, 0xe9c3b06b, 0xd38760d6, 0xa70ec1ac, 0x869899f3, 0xc5b4294d, 0x8b68529a, 0x16d0a534, 0x2da14a68, 0x5b4294d0, 0xb68529a0, 0xa58f49eb, 0x4b1e93d6, 0x963d27ac, 0x2c7a4f58, 0x9071841b, 0xe866129d, 0x18493f91, 0x30927f22, 0xa9a1e4ef, 0x9bc6d375, 0x378da6ea, 0xa79e577f, 0x87b9b455, 0xf7368aa, 0xd663cbff, 0x64428d55}

// keyWith is prefix and the four bytes that give the key the CRC-32 h: over every h, every key with the prefix.
func keyWith(prefix []byte, h uint32) string {
	b := append(append(make([]byte, 0, len(prefix)+4), prefix...), 0, 0, 0, 0)
	y := h ^ crc32.ChecksumIEEE(b)
	for j := 0; j < 32; j++ {
		p := y & crcInv[j]
		p ^= p >> 16
		p ^= p >> 8
		p ^= p >> 4
		p ^= p >> 2
		p ^= p >> 1
		b[len(prefix)+j/8] ^= byte(p&1) << (j % 8)
	}
	return string(b)
}

// anyKey is any key of four bytes or of more with the prefix; its hash.
func anyKey(prefix string) (string, uint32) {
	h := vx.U32("hash")
	return keyWith([]byte(prefix), h), h
}

func c09Key() (string, uint32) {
	if vx.Bool("long") {
		return anyKey("prefix:")
	}
	return anyKey("")
}

// Who owns a key.
func C09_owner() {
	vx.Bound("every 4-byte key (they reach all 2^32 hashes; thorough: also with a prefix), rings of 1..3 (thorough: 5) servers with 200 points each, colliding points included")
	names := c09Set()
	p := ringPoints(names)
	ring := ringOf(names)
	key, h := c09Key()
	vx.Assert(crc32.ChecksumIEEE([]byte(key)) == h, "the key has the hash")
	s := ring.Pick(key)
	if s == nil {
		vx.Fail("a server is picked")
		return
	}
	vx.Assert(has(names, s.Name()), "one of the servers is picked")
	own := p.owners(h)
	vx.Assert(has(own, s.Name()), "the owner is the server of the greatest point not above the key's hash")
	vx.Assert(ring.Pick(key).Name() == s.Name(), "the same server every time")
	vx.Assert(ring.Find(s.Name()) == s, "a server is found by its name")
	vx.Obs("owner", s.Name())
	if len(own) > 1 {
		vx.Reach("a point shared by two servers")
	}
	vx.Expect("a point shared by two servers")
}

// The owner does not depend on the order of the servers.
func C09_order() {
	vx.Bound("every 4-byte key, every order of the servers (sets of 2 and 3; thorough: 4)")
	sets := [][]string{serverSets[1], serverSets[2], serverSets[3]}
	if vx.Thorough() {
		sets = append(sets, serverSets[4], serverSets[5])
	}
	names := sets[vx.Choose("set", len(sets))]
	k := 1 + vx.Choose("order", fact(len(names))-1)
	a := ringOf(names)
	b := ringOf(perm(names, fact(len(names))-1-(k-1)))
	if vx.Bool("same list") {
		b = ringOf(names)
	}
	key, _ := anyKey("")
	vx.Assert(a.Pick(key).Name() == b.Pick(key).Name(), "the owner does not depend on the order of the servers or the ring")
}

// Larger sets and longer names.
func C09_large() {
	vx.Bound("every 4-byte key (quick: those with hashes from 5/8 to 6/8 of the range); 3 servers with names of 1, 33 and 47 bytes that start alike, 12 (thorough: 40) servers with names of 56 bytes, in two orders")
	n := 12
	if vx.Thorough() {
		n = 40
	}
	var names []string
	if vx.Bool("mixed") {
		names = []string{"m", "memcached-production-cluster-shard", "memcached-production-cluster-shard.example.com"}
	} else {
		for i := 0; i < n; i++ {
			names = append(names, "memcached-production-cluster-shard-"+string(rune('a'+i))+".example.com:11211")
		}
	}
	p := ringPoints(names)
	list := names
	if vx.Bool("reversed") {
		list = nil
		for i := len(names) - 1; i >= 0; i-- {
			list = append(list, names[i])
		}
	}
	ring := ringOf(list)
	key, h := anyKey("")
	if !vx.Thorough() {
		vx.Assume(h>>29 == 5)
	}
	s := ring.Pick(key)
	vx.Assert(has(p.owners(h), s.Name()), "the owner is the server of the greatest point not above the key's hash")
}

// Keys of other lengths.
func C09_keys() {
	vx.Bound("every key of 0..1 and of 5 (thorough: 0..2 and 5..8) bytes, 250-byte keys with 4 (thorough: 8) arbitrary bytes, a ring of two servers")
	names := serverSets[1]
	p := ringPoints(names)
	ring := ringOf(names)
	ls := []int{0, 1, 5, 250}
	if vx.Thorough() {
		ls = []int{0, 1, 5, 250, 2, 6, 7, 8}
	}
	n := ls[vx.Choose("len", len(ls))]
	var key string
	var h uint32
	if n < 4 {
		b := vx.Bytes("key", n)
		key, h = string(b), crc32.ChecksumIEEE(b)
	} else {
		h = vx.U32("hash")
		prefix := make([]byte, n-4)
		for i := range prefix {
			prefix[i] = 'q'
		}
		k := len(prefix)
		if k > 4 {
			k = 4
		}
		if n == 250 && !vx.Thorough() {
			k = 0
		}
		copy(prefix, vx.Bytes("prefix", k))
		key = keyWith(prefix, h)
	}
	s := ring.Pick(key)
	vx.Assert(has(p.owners(h), s.Name()), "the owner is the server of the greatest point not above the key's hash")
}

// Adding and removing a server.
func C10_change() {
	vx.Bound("every 4-byte key; one server added to or removed from rings of 1..3 (thorough: 4) servers, with the list in the same or another order, colliding points included")
	sets := [][]string{{"a:11211", "b:11211"}, {"s198", "s404"}, {"s305", "x", "s768"}, {"test1", "test2", "test3"}}
	if vx.Thorough() {
		sets = append(sets, serverSets[5], serverSets[6])
	}
	names := sets[vx.Choose("set", len(sets))]
	at := vx.Choose("changed", len(names))
	var small []string
	for i, n := range names {
		if i != at {
			small = append(small, n)
		}
	}
	big := names
	if vx.Bool("other order") {
		big = nil
		for i := len(names) - 1; i >= 0; i-- {
			big = append(big, names[i])
		}
	}
	changed := names[at]
	key, _ := anyKey("")
	before := ringOf(small).Pick(key).Name()
	after := ringOf(big).Pick(key).Name()
	vx.Assert(after == before || after == changed, "adding a server moves a key to the new server or not at all")
	vx.Assert(after == changed || after == before, "removing a server moves only the keys it owned")
	if after == changed {
		vx.Reach("moves")
	} else {
		vx.Reach("stays")
	}
	vx.Expect("moves")
	vx.Expect("stays")
}

// Adding two servers one after the other ends where adding them at once does.
func C10_twice() {
	vx.Bound("every 4-byte key; servers added one by one up to 6 (thorough: 11)")
	n := 6
	if vx.Thorough() {
		n = 11
	}
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, "10.1.0."+strconv.Itoa(i)+":11211")
	}
	key, _ := anyKey("")
	prev := ringOf(names[:1]).Pick(key).Name()
	for i := 2; i <= len(names); i++ {
		cur := ringOf(names[:i]).Pick(key).Name()
		vx.Assert(cur == prev || cur == names[i-1], "a key stays or moves to the server just added")
		prev = cur
	}
	last := []string{}
	for i := len(names) - 1; i >= 0; i-- {
		last = append(last, names[i])
	}
	vx.Assert(ringOf(last).Pick(key).Name() == prev, "the owner does not depend on the history")
}

// Larger rings.
func C10_sizes() {
	vx.Bound("every 4-byte key; one server added at the end of rings of 7 and 8 servers (thorough: also 10, 16, 20, 32)")
	sizes := []int{7, 8}
	if vx.Thorough() {
		sizes = append(sizes, 10, 16, 20, 32)
	}
	n := sizes[vx.Choose("size", len(sizes))]
	var names []string
	for i := 0; i <= n; i++ {
		names = append(names, "10.1.0."+strconv.Itoa(i)+":11211")
	}
	key, _ := anyKey("")
	before := ringOf(names[:n]).Pick(key).Name()
	after := ringOf(names).Pick(key).Name()
	vx.Assert(after == before || after == names[n], "adding a server to a large ring moves a key to the new server or not at all")
}

package h

import (
	"io"
	"strconv"
	"time"

	"verif/harness/vx"
)

// A reference memcached: what it holds and how requests change it.

type entry struct {
	key   string
	val   []byte
	flags uint32
	exp   int64 // unix time, 0: never
	cas   uint64
}

type store struct {
	name   string
	l      []*entry
	cas    uint64
	reqs   []*Req
	fault  int // index of the request at which the fault strikes, -1: never
	kind   int // fault: see the constants
	hit    bool
	gone   int // index of the request before which the items expire or are evicted, 0: never
	writes int // requests that may change something, successful or not
}

const (
	fErrLine    = iota // the request is refused with an error
	fDropBefore        // the connection ends, the request has no effect
	fDropAfter         // the connection ends after the request took effect
	nFaults
)

func newStore(name string) *store { return &store{name: name, fault: -1, cas: 100} }

func unixNow() int64 { return time.Now().Unix() }

// deadline converts an expiration to a point in time; dead: the item expires at once.
func deadline(exp int64) (at int64, dead bool) {
	now := unixNow()
	switch {
	case exp == 0:
		return 0, false
	case exp < 0:
		return 0, true
	case exp <= 60*60*24*30:
		return now + exp, false
	}
	return exp, exp <= now
}

func (s *store) find(key string) *entry {
	for _, e := range s.l {
		if e.key == key {
			if e.exp != 0 && e.exp <= unixNow() {
				return nil
			}
			return e
		}
	}
	return nil
}

func (s *store) remove(key string) {
	for i, e := range s.l {
		if e.key == key {
			s.l = append(s.l[:i:i], s.l[i+1:]...)
			return
		}
	}
}

func (s *store) put(key string, val []byte, flags uint32, exp int64) *entry {
	s.remove(key)
	s.cas++
	at, dead := deadline(exp)
	e := &entry{key: key, val: append([]byte{}, val...), flags: flags, exp: at, cas: s.cas}
	if !dead {
		s.l = append(s.l, e)
	}
	return e
}

func outOf(e *entry) *Out {
	o := &Out{Kind: "hit", Key: []byte(e.key), Val: e.val, Flags: e.flags, Cas: e.cas, TTL: -1}
	if e.exp != 0 {
		o.TTL = e.exp - unixNow()
	}
	return o
}

func (s *store) exec(r *Req) *Out {
	key := string(r.Key())
	e := s.find(key)
	switch r.Op {
	case "get":
		if e == nil {
			return &Out{Kind: "miss"}
		}
		return outOf(e)
	case "set":
		if r.Bin && r.Cas != 0 {
			r.Op = "cas"
			defer func() { r.Op = "set" }()
			return s.exec(r)
		}
		s.put(key, r.Val, r.Flags, r.Exp)
		return &Out{Kind: "stored"}
	case "cas":
		if e == nil {
			return &Out{Kind: "notfound"}
		}
		if e.cas != r.Cas {
			return &Out{Kind: "exists"}
		}
		s.put(key, r.Val, r.Flags, r.Exp)
		return &Out{Kind: "stored"}
	case "add":
		if e != nil {
			return &Out{Kind: "notstored"}
		}
		s.put(key, r.Val, r.Flags, r.Exp)
		return &Out{Kind: "stored"}
	case "replace":
		if e == nil {
			return &Out{Kind: "notstored"}
		}
		s.put(key, r.Val, r.Flags, r.Exp)
		return &Out{Kind: "stored"}
	case "delete":
		if e == nil {
			return &Out{Kind: "notfound"}
		}
		s.remove(key)
		return &Out{Kind: "deleted"}
	case "incr", "decr":
		if e == nil {
			return &Out{Kind: "notfound"}
		}
		n, ok := number(e.val, 64)
		if !ok {
			return &Out{Kind: "nonnumeric"}
		}
		if r.Op == "incr" {
			n += r.Delta
		} else if r.Delta > n {
			n = 0
		} else {
			n -= r.Delta
		}
		v := strconv.AppendUint(nil, n, 10)
		if r.Op == "decr" {
			for len(v) < len(e.val) {
				v = append(v, ' ')
			}
		}
		s.cas++
		e.val, e.cas = v, s.cas
		return &Out{Kind: "number", N: n}
	case "touch":
		if e == nil {
			return &Out{Kind: "notfound"}
		}
		at, dead := deadline(r.Exp)
		e.exp = at
		if dead {
			s.remove(key)
		}
		return &Out{Kind: "touched"}
	case "flush":
		s.l = nil
		return &Out{Kind: "ok"}
	case "version":
		return &Out{Kind: "version", Text: []byte("1.6.24")}
	case "noop":
		return &Out{Kind: "noop"}
	}
	vx.Fail("the servers get well-formed requests: " + r.Op + " " + r.Why)
	return &Out{Kind: "error", Text: []byte("ERROR")}
}

// conn is a connection to the store.
func (s *store) conn() *vx.Conn {
	return vx.NewConn(s.name, func(c *vx.Conn) {
		for {
			r, n := parse(c.In, false)
			if r == nil {
				return
			}
			c.In = c.In[n:]
			at := len(s.reqs)
			s.reqs = append(s.reqs, r)
			switch r.Op {
			case "get", "version", "noop":
			default:
				s.writes++
			}
			if s.gone > 0 && at == s.gone {
				s.l = nil
			}
			if at == s.fault {
				s.hit = true
				switch s.kind {
				case fErrLine:
					c.Send([]byte("SERVER_ERROR out of memory storing object\r\n"))
					continue
				case fDropAfter:
					s.exec(r)
					fallthrough
				case fDropBefore:
					c.SendEnd(io.EOF)
					return
				}
			}
			if r.Op == "get" && !r.Meta {
				for _, k := range r.Keys {
					if e := s.find(string(k)); e != nil {
						c.Send(textValue(r, outOf(e)))
					}
				}
				c.Send([]byte("END\r\n"))
				continue
			}
			c.Send(reply(r, s.exec(r)))
		}
	})
}

// alike says whether two entries are the same outcome; the CAS tokens are each server's own.
func alike(a, b *entry) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return eqb(a.val, b.val) && a.flags == b.flags && a.exp == b.exp
}

package h

import (
	"go.f110.dev/go-memcached/server"
	"verif/harness/vx"
)

const (
	wInit = 10 + iota
)

// frontWides are the numbers of a request that may take any value.
func frontWides(r *Req) []int {
	w := []int{wNone}
	switch r.Op {
	case "set", "add", "replace", "cas":
		w = append(w, wFlags, wExp)
		if r.Op == "cas" || r.Bin {
			w = append(w, wCas)
		}
	case "incr", "decr":
		w = append(w, wDelta)
		if r.Bin {
			w = append(w, wExp)
		}
	case "touch":
		w = append(w, wExp)
	}
	return w
}

func widen(r *Req, wide int) {
	switch wide {
	case wFlags:
		r.Flags = vx.U32("flags")
	case wExp:
		r.Exp = int64(vx.Int("exp", -1<<31, 1<<31-1))
	case wCas:
		r.Cas = vx.U64("cas")
		if r.Op == "cas" {
			vx.Assume(r.Cas != 0)
		}
	case wDelta:
		if r.Bin {
			r.Delta = vx.U64("delta")
		} else {
			r.Delta = uint64(vx.Int("delta", 0, 1<<63-1))
		}
	}
}

func isBodied(r *Req) bool {
	return r.Op == "set" || r.Op == "add" || r.Op == "replace" || r.Op == "cas"
}

// one request with arbitrary contents reaches the handler as it is.
func C13_numbers() {
	vx.Bound("every supported command; key of 2, value of 2 arbitrary bytes; flags (32 bits), expiration (32-bit signed), CAS (64 bits), amount (0..2^63-1, binary 64 bits) arbitrary, one at a time")
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	r := frontReq(proto, ops[vx.Choose("op", len(ops))])
	w := frontWides(r)
	widen(r, w[vx.Choose("wide", len(w))])
	for i := range r.Keys {
		r.Keys[i] = []byte(symKey("key", 2, proto))
	}
	if isBodied(r) {
		r.Val = vx.Bytes("val", 2)
	}
	one(proto, r, 0)
}

func one(proto int, r *Req, split int) {
	h := &handler{f: func(q *server.Request) ([]*server.Response, error) { return okResponses(q, proto == bin), nil }}
	c := vx.NewConn("c0", nil)
	newFront(h, c)
	c.Feed(encode(r))
	vx.Idle()
	vx.Assert(len(h.reqs) == 1, protoName[proto]+" "+r.Op+": the handler is called once")
	vx.Assert(!c.IsClosed(), protoName[proto]+" "+r.Op+": the connection stays open")
	for _, q := range h.reqs {
		checkRequest(q, r, protoName[proto])
	}
	vx.ObsB("reply", c.Written())
}

// Keys and values of any size.
func C13_sizes() {
	vx.Bound("key lengths 1..4,127,249,250; value lengths 0..3,255,256,4060,4070,4096,8192,65535,65536,70000 (arbitrary bytes at both ends)")
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	r := frontReq(proto, ops[vx.Choose("op", len(ops))])
	kl := []int{1, 2, 3, 4, 127, 249, 250}
	vl := []int{0, 1, 2, 3, 255, 256, 4060, 4070, 4096, 8192, 65535, 65536, 70000}
	if len(r.Keys) == 0 {
		vx.Stop()
	}
	if isBodied(r) && vx.Bool("big") {
		r.Val = edgeVal("val", vl[vx.Choose("vlen", len(vl))])
	} else {
		n := kl[vx.Choose("klen", len(kl))]
		for i := range r.Keys {
			r.Keys[i] = []byte(edgeKey("key", n, proto))
		}
	}
	one(proto, r, 0)
}

// Multi-get and the flags of meta requests.
func C13_meta_flags() {
	vx.Bound("gets of 1..4, 257 and 1200 keys; mg with every subset of v,f,c,t,k,s and q (thorough: in either order); ms with F, T, C, an opaque, mode (in either case) and k present or not")
	switch vx.Choose("what", 4) {
	case 3:
		// a request longer than any buffer
		r := frontReq(text, "gets")
		r.Keys = nil
		for _, k := range manyKeys([]int{257, 1200}[vx.Choose("n", 2)], text) {
			r.Keys = append(r.Keys, []byte(k))
		}
		one(text, r, 0)
	case 0:
		r := frontReq(text, "gets")
		r.Keys = nil
		n := 1 + vx.Choose("n", 4)
		for i := 0; i < n; i++ {
			r.Keys = append(r.Keys, []byte(symKey("key", 1+i%2, text)))
		}
		one(text, r, 0)
	case 1:
		r := frontReq(meta, "get")
		r.Want = nil
		set := vx.Choose("set", 64)
		for i, f := range []byte("vfctks") {
			if set&(1<<i) != 0 {
				r.Want = append(r.Want, f)
			}
		}
		if vx.Thorough() && vx.Bool("reversed") {
			for i, j := 0, len(r.Want)-1; i < j; i, j = i+1, j-1 {
				r.Want[i], r.Want[j] = r.Want[j], r.Want[i]
			}
		}
		r.Quiet = vx.Bool("quiet")
		if len(r.Want) == 0 && !r.Quiet {
			vx.Stop()
		}
		one(meta, r, 0)
	case 2:
		r := frontReq(meta, []string{"set", "cas", "add", "replace"}[vx.Choose("op", 4)])
		if vx.Bool("no flags") {
			r.Flags = 0
		}
		if vx.Bool("no exp") {
			r.Exp, r.HasExp = 0, false
		}
		switch vx.Choose("form", 3) {
		case 1:
			r.Mode = map[string]string{"set": "Ms", "cas": "MS", "add": "Me", "replace": "Mr"}[r.Op]
		case 2:
			r.MetaOpaque = "-12"
			r.Exp = -r.Exp
		}
		if vx.Bool("key") {
			r.Want = []byte("k")
		}
		one(meta, r, 0)
	}
}

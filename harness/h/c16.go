package h

import (
	"errors"
	"sync"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"
	"verif/harness/vx"
)

// echoing answers each request in terms of its key, so that a reply shows which request it is for.
type echoing struct {
	mu    sync.Mutex
	reqs  []*server.Request
	bin   bool
	block func(r *server.Request)
	gate  bool
}

func (h *echoing) ServeRequest(r *server.Request) ([]*server.Response, error) {
	h.mu.Lock()
	h.reqs = append(h.reqs, r)
	h.mu.Unlock()
	if h.gate {
		vx.Gate("handler." + r.Key)
	}
	if h.block != nil {
		h.block(r)
	}
	return echoAnswer(r, h.bin), nil
}

func echoAnswer(r *server.Request, bin bool) []*server.Response {
	one := func(k string) *server.Response {
		if len(k) > 0 && k[0] == 'm' {
			return &server.Response{Key: k, Error: merrors.ItemNotFound}
		}
		if len(k) > 0 && k[0] == 'e' {
			return &server.Response{Key: k, Error: errors.New("no " + k)}
		}
		return &server.Response{Key: k, Value: []byte("v-" + k), Flags: be32(9), Cas: 4, TTL: 5}
	}
	switch r.Opcode {
	case server.OpcodeGet:
		if len(r.Keys) > 0 {
			var l []*server.Response
			for _, k := range r.Keys {
				l = append(l, one(k))
			}
			return l
		}
	case server.OpcodeIncrement, server.OpcodeDecrement:
		x := one(r.Key)
		x.Value = counter(uint64(len(r.Key)), bin)
		return []*server.Response{x}
	case server.OpcodeVersion:
		return []*server.Response{{Value: []byte("1.6")}}
	case server.OpcodeFlush, server.OpcodeNoop:
		return []*server.Response{{}}
	}
	return []*server.Response{one(r.Key)}
}

// checkEcho checks that rep is what echoAnswer says about r.
func checkEcho(r *Req, rep *Rep, lbl string) {
	if rep == nil {
		vx.Assert(r.Quiet && r.Key()[0] == 'm', lbl+": there is a reply to each request")
		return
	}
	vx.Assert(rep.Kind != "malformed", lbl+": the replies are well-formed")
	if r.Bin {
		vx.Assert(rep.Opaque == r.Opaque, lbl+": each reply has the opaque of its request")
	}
	if len(r.Keys) == 0 {
		vx.Assert(rep.Kind == okKind[r.Op], lbl+": the replies are in order")
		return
	}
	k := r.Keys[0]
	switch {
	case k[0] == 'e':
		vx.Assert(rep.Kind == "error" && contains2(rep.Text, k), lbl+": the error is the request's own")
	case k[0] == 'm':
		vx.Assert(rep.Kind == "miss" || rep.Kind == "notfound" || rep.Kind == "notstored", lbl+": a miss is a miss")
	case r.Op == "get":
		vx.Assert(rep.Kind == "hit" && len(rep.Items) == len(r.Keys), lbl+": a hit is a hit")
		for i, o := range rep.Items {
			vx.Assert(string(o.Key) == string(r.Keys[i]) && string(o.Val) == "v-"+string(r.Keys[i]), lbl+": each reply answers its own request")
		}
	case isArithName(r.Op):
		vx.Assert(rep.Kind == "number" && rep.N == uint64(len(k)), lbl+": each reply answers its own request")
	default:
		vx.Assert(rep.Kind == okKind[r.Op], lbl+": each reply answers its own request")
	}
}

func isArithName(op string) bool { return op == "incr" || op == "decr" }

func contains2(b, sub []byte) bool {
	for i := 0; i+len(sub) <= len(b); i++ {
		if eqb(b[i:i+len(sub)], sub) {
			return true
		}
	}
	return false
}

// checkReplies takes the replies to the requests off b in order.
func checkReplies(l []*Req, b []byte, lbl string) {
	for _, r := range l {
		if r.Quiet && len(r.Keys) > 0 && r.Keys[0][0] == 'm' {
			continue
		}
		rep, n := parseReply(r, b)
		checkEcho(r, rep, lbl)
		b = b[n:]
	}
	vx.Assert(len(b) == 0, lbl+": there is nothing but the replies")
}

// numbered is the i-th request of connection c: a hit, a miss or an error.
func numbered(proto int, op string, kind byte, c, i int) *Req {
	r := frontReq(proto, op)
	for j := range r.Keys {
		r.Keys[j] = []byte{kind, byte('0' + c), byte('0' + i), byte('a' + j)}
		for x := 0; x < i; x++ {
			r.Keys[j] = append(r.Keys[j], 'x')
		}
	}
	if isBodied(r) {
		r.Flags = uint32(c*16 + i + 3)
		r.Exp = int64(60 + c*10 + i)
	}
	if r.Op == "touch" {
		r.Exp = int64(30 + c*10 + i)
	}
	if isArithName(r.Op) {
		r.Delta = uint64(5 + c*10 + i)
	}
	if r.Op == "cas" {
		r.Cas = uint64(77 + c*10 + i)
	}
	if r.Bin {
		r.Opaque = uint32(c*100 + i + 1)
	}
	return r
}

// Pipelining.
func C16_pipeline() {
	vx.Bound("every pair (thorough: triple) of supported requests back to back on a connection, each a hit/success, a miss or an error; arriving in one piece, request by request, or cut at an arbitrary place")
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	n := 2
	if vx.Thorough() {
		n = 3
	}
	var l []*Req
	var b []byte
	var ends []int
	for i := 0; i < n; i++ {
		op := ops[vx.Choose("op", len(ops))]
		kind := byte('h')
		if mayMiss(op) && !(vx.Thorough() && i == 2) {
			kind = []byte("hme")[vx.Choose("kind", 3)]
		}
		r := numbered(proto, op, kind, 0, i)
		if proto == text && len(r.Keys) > 1 && kind != 'h' {
			r.Keys = r.Keys[:1]
		}
		l = append(l, r)
		b = append(b, encode(r)...)
		ends = append(ends, len(b))
	}
	h := &echoing{bin: proto == bin}
	c := vx.NewConn("c0", nil)
	newFront(h, c)
	switch vx.Choose("arrival", 2) {
	case 0:
		c.Feed(b)
	case 1:
		c.Feed(b[:ends[0]+2]) // the second request is cut
		vx.Idle()
		c.Feed(b[ends[0]+2:])
	}
	vx.Idle()
	lbl := protoName[proto] + " pipelining"
	vx.Assert(len(h.reqs) == n, lbl+": every request is handled once")
	for i, q := range h.reqs {
		if i < n {
			checkRequest(q, l[i], lbl)
		}
	}
	vx.ObsB("replies", c.Written())
	vx.Assert(!c.IsClosed(), lbl+": the connection stays open")
	checkReplies(l, c.Written(), lbl)
}

// A long pipeline.
func C16_long() {
	vx.Bound("8 (thorough: 20) pipelined requests with values of any of 1, 3000 and 5000 bytes, longer together than any buffer")
	proto := vx.Choose("proto", 3)
	n := 8
	if vx.Thorough() {
		n = 20
	}
	ops := []string{"set", "get", "delete", "replace"}
	var l []*Req
	var b []byte
	size := []int{1, 3000, 5000}[vx.Choose("size", 3)]
	for i := 0; i < n; i++ {
		r := numbered(proto, ops[i%len(ops)], "hme"[i%3], 0, i)
		if isBodied(r) {
			r.Val = make([]byte, size)
			for j := range r.Val {
				r.Val[j] = byte('A' + i)
			}
			r.Val[size-1] = vx.U8("last")
		}
		l = append(l, r)
		b = append(b, encode(r)...)
	}
	h := &echoing{bin: proto == bin}
	c := vx.NewConn("c0", nil)
	newFront(h, c)
	c.Feed(b)
	vx.Idle()
	lbl := protoName[proto] + " pipelining"
	vx.Assert(len(h.reqs) == n, lbl+": every request is handled once")
	for i, q := range h.reqs {
		if i < n {
			checkRequest(q, l[i], lbl)
		}
	}
	checkReplies(l, c.Written(), lbl)
}

// A great many requests on a connection.
func C16_many() {
	vx.Bound("300 (thorough: 1200) requests on one connection, pipelined in one piece or one by one")
	proto := vx.Choose("proto", 3)
	n := 300
	if vx.Thorough() {
		n = 1200
	}
	ops := []string{"set", "get", "delete", "replace"}
	h := &echoing{bin: proto == bin}
	c := vx.NewConn("c0", nil)
	newFront(h, c)
	lbl := protoName[proto] + " pipelining"
	var l []*Req
	var b []byte
	piece := vx.Bool("one by one")
	for i := 0; i < n; i++ {
		r := numbered(proto, ops[i%len(ops)], "hme"[i%3], i%10, i%7)
		if isBodied(r) {
			r.Val = []byte{vx.U8("val")}
		}
		if r.Bin {
			r.Opaque = uint32(i)
		}
		l = append(l, r)
		if piece {
			was := len(c.Written())
			c.Feed(encode(r))
			vx.Idle()
			checkReplies(l[i:], c.Written()[was:], lbl)
		} else {
			b = append(b, encode(r)...)
		}
	}
	if !piece {
		c.Feed(b)
		vx.Idle()
		checkReplies(l, c.Written(), lbl)
	}
	vx.Assert(len(h.reqs) == n, lbl+": every request is handled once")
	for i, q := range h.reqs {
		if i < n {
			checkRequest(q, l[i], lbl)
		}
	}
}

// Handlers that take their time do not let a later request overtake.
func C16_order() {
	vx.Bound("2 pipelined requests on one connection with every interleaving of at most 2 (thorough: 3) preemptions at reads, writes, handler calls and synchronisation")
	proto := vx.Choose("proto", 3)
	ops := []string{"get", "set", "delete"}
	var l []*Req
	var b []byte
	for i := 0; i < 2; i++ {
		r := numbered(proto, ops[vx.Choose("op", len(ops))], "hme"[vx.Choose("kind", 3)], 0, i)
		l = append(l, r)
		b = append(b, encode(r)...)
	}
	h := &echoing{bin: proto == bin, gate: true}
	c := vx.NewConn("c0", nil)
	explore(2, 3)
	newFront(h, c)
	c.Feed(b)
	vx.Idle()
	checkReplies(l, c.Written(), protoName[proto]+" pipelining")
}

func explore(quick, thorough int) {
	if vx.Thorough() {
		quick = thorough
	}
	vx.Explore(quick)
}

// Two connections at once.
func C16_two() {
	vx.Bound("two connections of any two protocols with one request each, then (one protocol each) two, any of get (hit, miss, error), set, delete and binary/text increment; every interleaving of at most 2 (thorough: 3) preemptions at reads, writes, handler calls and synchronisation")
	pa, pb := vx.Choose("proto a", 3), vx.Choose("proto b", 3)
	ops := []string{"get", "set", "delete"}
	n := 1
	if pa == pb && vx.Bool("two") {
		n = 2
	}
	h := &echoing{gate: true}
	var l [2][]*Req
	var c [2]*vx.Conn
	for i, p := range []int{pa, pb} {
		c[i] = vx.NewConn("c"+utoa(uint64(i)), nil)
		var b []byte
		for j := 0; j < n; j++ {
			op, kind := ops[(i+j)%3], byte('h')
			if n == 1 {
				op = ops[vx.Choose("op", 3)]
				if i == 0 {
					kind = "hme"[vx.Choose("kind", 3)]
				}
			}
			r := numbered(p, op, kind, i, j)
			if isBodied(r) {
				r.Val = []byte{byte('P' + i), vx.U8("val")}
			}
			l[i] = append(l[i], r)
			b = append(b, encode(r)...)
		}
		c[i].Feed(b)
	}
	explore(2, 3)
	newFront(h, c[0], c[1])
	vx.Idle()
	vx.Assert(len(h.reqs) == 2*n, "every request is handled once")
	for i := range c {
		vx.ObsB("replies", c[i].Written())
		vx.Assert(!c[i].IsClosed(), "the connections stay open")
		checkReplies(l[i], c[i].Written(), "two connections")
		k := 0
		for _, q := range h.reqs {
			if len(q.Key) > 1 && q.Key[1] == byte('0'+i) && k < n {
				checkRequest(q, l[i][k], "two connections")
				k++
			}
		}
		vx.Assert(k == n, "the requests of each connection come in order")
	}
}

// A stuck request on one connection does not hold up another connection.
func C16_stall() {
	vx.Bound("one connection whose handler call is stuck, or in the middle of a request, and another (before or after it) of any protocol with any request")
	pa, pb := vx.Choose("proto a", 3), vx.Choose("proto b", 3)
	release := make(chan struct{})
	h := &echoing{bin: pb == bin, block: func(r *server.Request) {
		if len(r.Key) > 1 && r.Key[1] == '0' {
			<-release
		}
	}}
	a, b := vx.NewConn("a", nil), vx.NewConn("b", nil)
	ra := numbered(pa, "set", 'h', 0, 0)
	ops := frontOps[pb]
	rb := numbered(pb, ops[vx.Choose("op", len(ops))], 'h', 1, 0)
	stuck := vx.Bool("stuck in the handler")
	if vx.Bool("first") {
		newFront(h, a, b)
	} else {
		newFront(h, b, a)
	}
	x := encode(ra)
	if stuck {
		a.Feed(x)
	} else {
		a.Feed(x[:len(x)-3])
	}
	vx.Idle()
	b.Feed(encode(rb))
	vx.Idle()
	checkReplies([]*Req{rb}, b.Written(), "while another connection is stuck")
	vx.Assert(len(a.Written()) == 0, "a request that is not done is not answered")
	close(release)
	if !stuck {
		a.Feed(x[len(x)-3:])
	}
	vx.Idle()
	checkReplies([]*Req{ra}, a.Written(), "after being stuck")
	vx.Assert(len(h.reqs) == 2, "every request is handled once")
}

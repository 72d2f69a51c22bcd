package h

import (
	"time"

	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// tagged is an operation whose key and value belong to one caller.
func tagged(op, who int) *Call {
	tag := string([]byte{byte('a' + who)})
	c := opCall(op, false)
	c.key = "key-" + tag
	c.keys = []string{tag + "1", tag + "2"}
	if c.item != nil {
		c.item = newItem(c.key, "value of "+tag, false)
	}
	c.delta = who + 1
	return c
}

// owned is what a server holds, different for every key and arbitrary.
type owned struct {
	val [3][]byte
	n   [3]uint64
	ver []byte
}

func anyOwned() *owned {
	o := &owned{}
	for i := range o.val {
		o.val[i] = vx.Bytes("own", 3)
		o.n[i] = uint64(vx.Int("number", 1000, 9999))
	}
	o.ver = []byte{vx.Range("ver", 33, 126), '.', '6'}
	return o
}

// who is whose key it is.
func who(k []byte) int {
	if k[0] == 'k' {
		return int(k[len(k)-1] - 'a')
	}
	return int(k[0] - 'a')
}

func (w *owned) value(k []byte) []byte { return append(append([]byte{}, k...), w.val[who(k)]...) }

// reply answers a request in terms of its key.
func (w *owned) reply(r *Req) []byte {
	one := func(k []byte) *Out {
		o := okOut(r)
		o.Key = k
		if o.Kind == "version" {
			o.Text = w.ver
		}
		if len(k) > 0 {
			o.Val = w.value(k)
			if isArithName(r.Op) {
				o.N = w.n[who(k)]
			}
		}
		return o
	}
	if r.Op == "get" && !r.Bin && !r.Meta {
		var b []byte
		for _, k := range r.Keys {
			b = append(b, textValue(r, one(k))...)
		}
		return append(b, "END\r\n"...)
	}
	if len(r.Keys) == 0 {
		return reply(r, one(nil))
	}
	return reply(r, one(r.Keys[0]))
}

// check checks that the result is the one for the caller's own request.
func (w *owned) check(c *Call, r Res, lbl string) {
	lbl += ": " + opName[c.op]
	if r.err != nil {
		vx.Fail(lbl + " succeeds")
		return
	}
	switch c.op {
	case oGet:
		vx.Assert(r.item != nil && r.item.Key == c.key && eqb(r.item.Value, w.value([]byte(c.key))), lbl+" returns its own item")
	case oGetMulti:
		vx.Assert(len(r.items) == len(c.keys), lbl+" returns its own items")
		for i, it := range r.items {
			vx.Assert(it.Key == c.keys[i] && eqb(it.Value, w.value([]byte(c.keys[i]))), lbl+" returns its own items")
		}
	case oIncr, oDecr:
		vx.Assert(uint64(r.n) == w.n[who([]byte(c.key))], lbl+" returns its own number")
	case oVersion:
		vx.Assert(r.ver == string(w.ver), lbl+" returns its own version")
	}
}

// line is a connection to a server that answers in terms of keys and checks the turns.
type line struct {
	*vx.Conn
	reqs []*Req
}

func newLine(name string, proto int, w *owned, lbl string) *line {
	l := &line{}
	l.Conn = vx.NewConn(name, nil)
	last := ""
	l.OnWrite = func(c *vx.Conn) {
		if len(c.In) == 0 && c.Unread() > 0 {
			last = "unread"
		}
	}
	l.Peer = serveWith(proto, func(r *Req) []byte {
		if r.Op == "malformed" {
			vx.Fail(lbl + ": whole requests are sent: " + r.Why)
			l.In = nil
			return nil
		}
		if last == "unread" && len(l.reqs) > 0 {
			p := l.reqs[len(l.reqs)-1]
			vx.Assert(sameExchange(p, r), lbl+": a request is sent when the reply to the one before has been read")
		}
		last = ""
		l.reqs = append(l.reqs, r)
		return w.reply(r)
	})
	// replies come in two pieces
	l.Split = func(n int) int { return (n + 1) / 2 }
	return l
}

// sameExchange says whether two requests in a row can be of one multi-get.
func sameExchange(a, b *Req) bool {
	if a.Op != "get" {
		return false
	}
	if b.Op == "noop" {
		return true
	}
	return b.Op == "get" && a.Keys[0][0] == b.Keys[0][0] && a.Keys[0][0] != 'k'
}

// expectAll checks that the requests are those of the operations, in the order of the calls or the other way round.
func (l *line) expectAll(proto int, lbl string, calls ...*Call) {
	vx.Assert(len(l.In) == 0, lbl+": whole requests are sent")
	rest := l.reqs
	left := append([]*Call{}, calls...)
	for len(left) > 0 {
		if len(rest) == 0 {
			vx.Fail(lbl + ": every operation sends its request")
			return
		}
		hit := -1
		for i, c := range left {
			if belongs(rest[0], c) {
				hit = i
				break
			}
		}
		if hit < 0 {
			vx.Fail(lbl + ": the requests are those of the operations")
			return
		}
		c := left[hit]
		left = append(left[:hit:hit], left[hit+1:]...)
		n := 1
		if c.op == oGetMulti {
			n = 0
			keys := 0
			for n < len(rest) && belongs(rest[n], c) && keys < len(c.keys) {
				keys += len(rest[n].Keys)
				n++
			}
			if n < len(rest) && rest[n].Op == "noop" {
				n++
			}
		}
		checkReqs(c, proto, rest[:n], 0, lbl)
		rest = rest[n:]
	}
	vx.Assert(len(rest) == 0, lbl+": no other requests are sent")
}

// belongs says whether a request can be (part of) the call's.
func belongs(r *Req, c *Call) bool {
	switch c.op {
	case oFlush, oVersion:
		return r.Op == opName[c.op]
	case oGetMulti:
		return r.Op == "get" && r.Keys[0][0] == c.keys[0][0]
	}
	return r.Op == opName[c.op] && len(r.Keys) == 1 && string(r.Keys[0]) == c.key
}

// together runs the calls at the same time and returns when all are done.
func together(s client.Server, calls ...*Call) []Res {
	res := make([]Res, len(calls))
	done := make(chan int, len(calls))
	for i := range calls {
		i := i
		vx.Go("caller"+utoa(uint64(i)), func() {
			res[i] = calls[i].do(s)
			done <- i
		})
	}
	for range calls {
		<-done
	}
	return res
}

// Two callers.
func C07_two() {
	vx.Bound("any two operations at the same time on one handle of each protocol, every interleaving of at most 2 (thorough: 3) preemptions at reads, writes and synchronisation; replies come in pieces")
	proto := vx.Choose("proto", 3)
	w := anyOwned()
	lbl := protoName[proto] + " concurrently"
	l := newLine("c0", proto, w, lbl)
	s := dial(proto, l.Conn)
	a, b := tagged(vx.Choose("a", nOps), 0), tagged(vx.Choose("b", nOps), 1)
	if !vx.Thorough() && a.op > b.op {
		vx.Stop()
	}
	explore(2, 3)
	r := together(s, a, b)
	w.check(a, r[0], lbl)
	w.check(b, r[1], lbl)
	l.expectAll(proto, lbl, a, b)
	obsRes(r[0])
	obsRes(r[1])
}

// Two callers with requests and replies larger than any buffer.
func C07_big() {
	vx.Bound("set or get of 9000 bytes at the same time as any operation, every interleaving of at most 2 preemptions")
	proto := vx.Choose("proto", 3)
	w := anyOwned()
	lbl := protoName[proto] + " concurrently"
	l := newLine("c0", proto, w, lbl)
	l.Split = nil
	s := dial(proto, l.Conn)
	a, b := tagged([]int{oSet, oGetMulti}[vx.Choose("a", 2)], 0), tagged(vx.Choose("b", nOps), 1)
	if a.item != nil {
		a.item.Value = make([]byte, 9000)
	} else {
		for i := 0; i < 20; i++ { // the request is larger than a buffer
			k := []byte("a")
			for j := 0; j < 240; j++ {
				k = append(k, 'x')
			}
			a.keys = append(a.keys, string(k)+utoa(uint64(i)))
		}
	}
	vx.Explore(2)
	r := together(s, a, b)
	w.check(a, r[0], lbl)
	w.check(b, r[1], lbl)
	l.expectAll(proto, lbl, a, b)
}

// Three callers, two of them with two operations.
func C07_three() {
	vx.Bound("three callers of get, set, increment, multi-get or version with one operation each, every interleaving of at most 1 (thorough: 2) preemptions")
	proto := vx.Choose("proto", 3)
	w := anyOwned()
	lbl := protoName[proto] + " concurrently"
	l := newLine("c0", proto, w, lbl)
	s := dial(proto, l.Conn)
	ops := []int{oGet, oSet, oIncr, oGetMulti, oVersion}
	var c []*Call
	for i, at := 0, 0; i < 3; i++ {
		if n := vx.Choose("op", len(ops)-at); !vx.Thorough() { // the callers are alike
			at += n
			c = append(c, tagged(ops[at], i))
		} else {
			c = append(c, tagged(ops[n], i))
		}
	}
	explore(1, 2)
	r := together(s, c...)
	for i := range c {
		w.check(c[i], r[i], lbl)
	}
	l.expectAll(proto, lbl, c...)
}

// Reconnecting at the same time.
func C07_reconnect() {
	vx.Bound("any operation at the same time as one or two reconnects, every interleaving of at most 2 (thorough: 3) preemptions at reads, writes, dials, closes and synchronisation")
	proto := vx.Choose("proto", 3)
	w := anyOwned()
	lbl := protoName[proto] + " at a reconnect"
	var l []*line
	for i := 0; i < 3; i++ {
		l = append(l, newLine("c"+utoa(uint64(i)), proto, w, lbl))
	}
	s := dial(proto, l[0].Conn, l[1].Conn, l[2].Conn)
	a := tagged(vx.Choose("a", nOps), 0)
	n := 1
	if vx.Thorough() && vx.Bool("twice") {
		n = 2
	}
	explore(2, 3)
	done := make(chan bool, 3)
	var r Res
	vx.Go("caller", func() {
		r = a.do(s)
		done <- true
	})
	var err [2]error
	for i := 0; i < n; i++ {
		i := i
		vx.Go("reconnecter"+utoa(uint64(i)), func() {
			err[i] = s.Reconnect()
			done <- true
		})
	}
	for i := 0; i < n+1; i++ {
		<-done
	}
	vx.Explore(0)
	vx.Assert(err[0] == nil && err[1] == nil, lbl+": reconnect succeeds")
	w.check(a, r, lbl)
	all := &line{Conn: l[0].Conn}
	for i := range l {
		vx.Assert(len(l[i].In) == 0, lbl+": whole requests are sent")
		all.reqs = append(all.reqs, l[i].reqs...)
	}
	all.expectAll(proto, lbl, a)
	vx.Assert(l[0].IsClosed() && l[n-1].IsClosed() && !l[n].IsClosed(), lbl+": the last connection stays")
	b := tagged(oGet, 1)
	w.check(b, b.do(s), lbl)
	obsRes(r)
}

// The heartbeat at the same time.
func C07_heartbeat() {
	vx.Bound("one or (thorough) two operations at the moment of a heartbeat probe, or with replies that take longer than an interval, every interleaving of at most 2 (thorough: 3) preemptions")
	proto := vx.Choose("proto", 3)
	w := anyOwned()
	lbl := protoName[proto] + " with the heartbeat"
	l := newLine("c0", proto, w, lbl)
	s := dialOpts(proto, l.Conn, client.EnableHeartbeat, client.EnableAutoReconnect)
	calls := []*Call{tagged(vx.Choose("a", nOps), 0)}
	if vx.Thorough() && vx.Bool("two") {
		calls = append(calls, tagged([]int{oGet, oSet, oGetMulti, oIncr}[vx.Choose("b", 4)], 1))
	}
	slow := vx.Bool("slow")
	if slow { // replies come later
		peer := l.Peer
		l.Peer = func(c *vx.Conn) {
			had := c.Unread()
			peer(c)
			if b := c.Take(had); len(b) > 0 {
				go func() {
					time.Sleep(1500 * time.Millisecond)
					c.Feed(b)
				}()
			}
		}
	}
	explore(2, 3)
	time.Sleep(time.Second)
	r := together(s, calls...)
	vx.Explore(0)
	time.Sleep(2 * time.Second)
	for i := range calls {
		w.check(calls[i], r[i], lbl)
		obsRes(r[i])
	}
	// leave the probes out
	var rest []*Req
	probes := 0
	for _, q := range l.reqs {
		if q.Op == "version" {
			probes++
		} else {
			rest = append(rest, q)
		}
	}
	var others []*Call
	for _, c := range calls {
		if c.op != oVersion {
			others = append(others, c)
		}
	}
	vx.Assert(probes > len(calls)-len(others), lbl+": probes go on")
	(&line{Conn: l.Conn, reqs: rest}).expectAll(proto, lbl, others...)
}

// One caller's exchange fails.
func C07_fails() {
	vx.Bound("two operations at the same time, the first request on the wire getting half a reply before the connection ends; every interleaving of at most 2 preemptions")
	proto := vx.Choose("proto", 3)
	w := anyOwned()
	lbl := protoName[proto] + " concurrently, one fails"
	l := newLine("c0", proto, w, lbl)
	s := dial(proto, l.Conn)
	ops := []int{oGet, oGetMulti, oSet, oIncr, oVersion}
	a, b := tagged(ops[vx.Choose("a", len(ops))], 0), tagged(ops[vx.Choose("b", len(ops))], 1)
	n := 0
	reset := vx.Bool("reset")
	l.Peer = serveWith(proto, func(r *Req) []byte {
		n++
		rep := w.reply(r)
		if n == 1 && len(rep) > 0 {
			if reset {
				l.SendEnd(vx.ErrReset)
			} else {
				l.SendEnd(vx.ErrTimeout) // the rest is not sent
			}
			return rep[:len(rep)/2]
		}
		return rep
	})
	vx.Explore(2)
	r := together(s, a, b)
	for i, c := range []*Call{a, b} {
		if r[i].err == nil {
			w.check(c, r[i], lbl)
		}
	}
	vx.Assert(r[0].err != nil || r[1].err != nil, lbl+": the failure is reported")
}

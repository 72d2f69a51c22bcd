package h

import (
	"errors"
	"io"
	"net"
	"time"

	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// dialer hands out connections, refusing when the next one is nil or there is none.
type dialer struct {
	next  []*vx.Conn
	dials int
}

func (d *dialer) install() {
	vx.OnDial(func(network, addr string) (net.Conn, error) {
		d.dials++
		if len(d.next) == 0 {
			return nil, errRefused
		}
		c := d.next[0]
		d.next = d.next[1:]
		if c == nil {
			return nil, errRefused
		}
		return c, nil
	})
}

// watched is a connection that keeps the requests it gets.
type watched struct {
	*vx.Conn
	reqs []*Req
	x    *second
}

func newWatched(name string, proto int, x *second) *watched {
	w := &watched{x: x}
	w.Conn = vx.NewConn(name, serveWith(proto, func(r *Req) []byte {
		w.reqs = append(w.reqs, r)
		return x.reply(r)
	}))
	return w
}

// expect checks that the connection got exactly the request of one operation.
func (w *watched) expect(c *Call, proto int, lbl string) {
	checkReqs(c, proto, w.reqs, len(w.In), lbl)
}

const nLosses = 9

// lose breaks the connection of a handle in one of several ways and says what it did.
func lose(s client.Server, proto int, conn *watched, how int) string {
	x := conn.x
	op := oGet
	switch how {
	case 3, 4, 5, 6, 7, 8:
		op = []int{oGet, oGetMulti, oSet, oIncr, oVersion}[vx.Choose("op", 5)]
	}
	c := opCall(op, false)
	run := func() {
		r := c.do(s)
		vx.Assert(r.err != nil, protoName[proto]+" "+opName[op]+" over a lost connection fails")
	}
	switch how {
	case 0:
		return "healthy"
	case 1:
		conn.End(io.EOF)
		return "closed by the server"
	case 2:
		s.Close()
		return "closed"
	case 3: // the reply stops
		full := fullStream(c, proto, okReply)
		cut := vx.Choose("cut", len(full))
		left := cut
		end := io.EOF
		if vx.Thorough() && vx.Bool("reset") {
			end = vx.ErrReset
		}
		conn.Peer = serveWith(proto, func(r *Req) []byte {
			b := okReply(r)
			if len(b) > left {
				b = b[:left]
				conn.SendEnd(end)
			}
			left -= len(b)
			return b
		})
		run()
		return "lost during the reply"
	case 4: // nothing can be written
		conn.WriteErr = vx.ErrReset
		run()
		return "lost before the request"
	case 5: // part of a big request is written
		op = oSet
		c = opCall(op, false)
		c.item.Value = make([]byte, 10000)
		conn.WriteMax = []int{1, 30, 4096, 9000}[vx.Choose("written", 4)]
		run()
		return "lost during the request"
	case 6: // no reply in time, which comes later
		conn.Peer = nil
		setTimeout(s, time.Second)
		run()
		conn.Feed(fullStream(c, proto, x.reply))
		setTimeout(s, 0)
		return "timed out"
	case 7: // garbage
		conn.Peer = func(v *vx.Conn) { v.Send([]byte("\x81garbage\r\n\r\nmore garbage and more\r\n")); v.SendEnd(io.EOF) }
		run()
		return "garbage"
	case 8: // more than was asked for
		conn.Peer = func(v *vx.Conn) {}
		v := fullStream(c, proto, okReply)
		conn.Feed(append(append([]byte{}, v...), fullStream(opCall(oGet, false), proto, okReply)...))
		c.do(s)
		return "surplus"
	}
	return ""
}

// Reconnecting after a loss.
func C18_loss() {
	vx.Bound("a connection lost in 9 ways (not at all, closed by the server, closed by the user, reply cut at any byte, request cut, write failure, timeout with a late reply, garbage, surplus bytes), then 0..2 refused reconnects with or without an operation in between, then a reconnect and any operation, then another reconnect and a get")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	first, second1, second2 := newWatched("c0", proto, x), newWatched("c1", proto, x), newWatched("c2", proto, x)
	d := &dialer{next: []*vx.Conn{first.Conn}}
	d.install()
	s := newHandle(proto, "srv")
	how := lose(s, proto, first, vx.Choose("how", nLosses))
	d.install() // fullStream dialed its own connections
	lbl := protoName[proto] + " " + how
	vx.Obs("how", how)
	n := vx.Choose("refused", 3)
	for i := 0; i < n; i++ {
		vx.Assert(s.Reconnect() != nil, lbl+": a refused reconnect fails")
		if i == 0 && vx.Bool("operation in between") {
			r := opCall(oGet, false).do(s)
			vx.Assert(r.err != nil, lbl+": without a connection operations fail")
		}
	}
	d.next = []*vx.Conn{second1.Conn, second2.Conn}
	was := len(first.All)
	vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds when the server can be reached")
	vx.Assert(first.IsClosed(), lbl+": the old connection is closed")
	c := opCall(vx.Choose("op2", nOps), false)
	r := c.do(s)
	x.check(c, r, proto, lbl+", after reconnect")
	second1.expect(c, proto, lbl+", after reconnect")
	vx.Assert(len(second2.All) == 0 && len(first.All) == was, lbl+": nothing is sent elsewhere")
	if vx.Thorough() || c.op == oGet {
		vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds again")
		c = opCall(oGet, false)
		r = c.do(s)
		x.check(c, r, proto, lbl+", after another reconnect")
		second2.expect(c, proto, lbl+", after another reconnect")
		vx.Assert(second1.IsClosed(), lbl+": the old connection is closed again")
	}
	obsRes(r)
}

// Many refused reconnects.
func C18_many() {
	vx.Bound("3, 12 and 40 (thorough: 300) refused reconnects in a row after a connection was lost, closed or timed out, with or without operations in between, closing the old connection failing or not; then a reconnect and any operation; three times over")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	first := newWatched("c0", proto, x)
	d := &dialer{next: []*vx.Conn{first.Conn}}
	d.install()
	s := newHandle(proto, "srv")
	if vx.Bool("close fails") {
		first.CloseErr = vx.ErrReset
	}
	how := lose(s, proto, first, []int{0, 1, 2, 4}[vx.Choose("how", 4)])
	lbl := protoName[proto] + " " + how
	ns := []int{3, 12, 40}
	if vx.Thorough() {
		ns = append(ns, 300)
	}
	n := ns[vx.Choose("refused", len(ns))]
	between := vx.Bool("operations in between")
	op := vx.Choose("op2", nOps)
	for round := 0; round < 3; round++ {
		for i := 0; i < n; i++ {
			vx.Assert(s.Reconnect() != nil, lbl+": a refused reconnect fails")
			if between {
				r := opCall(oGet, false).do(s)
				vx.Assert(r.err != nil, lbl+": without a connection operations fail")
			}
		}
		next := newWatched("c"+utoa(uint64(round+1)), proto, x)
		d.next = []*vx.Conn{next.Conn}
		vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds when the server can be reached, after many failures")
		c := opCall(op, false)
		r := c.do(s)
		x.check(c, r, proto, lbl+", after many failures")
		next.expect(c, proto, lbl+", after many failures")
	}
}

// The old connection's contents never reach the new one, whatever they are.
func C18_clean() {
	vx.Bound("0..4 arbitrary bytes, or 5000, left unread on the old connection (before, in or after a reply); and a new connection that answers with an arbitrary value")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	first, next := newWatched("c0", proto, x), newWatched("c1", proto, x)
	d := &dialer{next: []*vx.Conn{first.Conn, next.Conn}}
	d.install()
	s := newHandle(proto, "srv")
	switch vx.Choose("when", 3) {
	case 0:
	case 1: // after a good reply
		first.Peer = serveWith(proto, func(r *Req) []byte { return append(x.reply(r), vx.Bytes("junk", 4)...) })
		c := opCall(oGet, false)
		x.check(c, c.do(s), proto, protoName[proto])
	case 2: // a lot, part of it in the buffer
		first.Peer = serveWith(proto, func(r *Req) []byte { return append(x.reply(r), make([]byte, 5000)...) })
		c := opCall(oGet, false)
		x.check(c, c.do(s), proto, protoName[proto])
	}
	first.Feed(vx.Bytes("left", vx.Choose("n", 5)))
	vx.Assert(s.Reconnect() == nil, protoName[proto]+": reconnect succeeds")
	c := opCall(vx.Choose("op2", nOps), false)
	r := c.do(s)
	x.check(c, r, proto, protoName[proto]+" after reconnect")
	next.expect(c, proto, protoName[proto]+" after reconnect")
	obsRes(r)
}

// Reconnecting uses the handle's address, and a connection that comes late is used.
func C18_address() {
	vx.Bound("the addresses dialed at first and on reconnects")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	next := newWatched("c1", proto, x)
	i := 0
	vx.OnDial(func(network, addr string) (net.Conn, error) {
		vx.Assert(network == "tcp" && addr == "srv", "the handle's address is dialed")
		i++
		switch i {
		case 1:
			return newWatched("c0", proto, x).Conn, nil
		case 2:
			time.Sleep(10 * time.Second)
			return nil, errors.New("unreachable")
		case 3:
			time.Sleep(10 * time.Second)
		}
		return next.Conn, nil
	})
	s := newHandle(proto, "srv")
	setTimeout(s, 3*time.Second)
	vx.Assert(s.Name() == "srv", "the name stays")
	vx.Assert(s.Reconnect() != nil, "a failed reconnect fails")
	vx.Assert(s.Reconnect() == nil, "reconnect succeeds")
	c := opCall(oGet, false)
	x.check(c, c.do(s), proto, protoName[proto]+" after a slow reconnect")
	next.expect(c, proto, protoName[proto]+" after a slow reconnect")
}

package h

import (
	"io"
	"net"
	"time"

	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// fullStream is the complete reply stream to an operation when every request is answered by gen.
func fullStream(c *Call, proto int, gen func(r *Req) []byte) []byte {
	var full []byte
	probe := vx.NewConn("probe", serveWith(proto, func(r *Req) []byte {
		b := gen(r)
		full = append(full, b...)
		return b
	}))
	c.do(dial(proto, probe))
	return full
}

// honest asserts that an operation on a connection that failed earlier either fails or tells the truth.
func (x *second) honest(c *Call, r Res, proto int, lbl string) {
	if r.err == nil {
		x.check(c, r, proto, lbl)
		return
	}
	vx.Assert(errName(r.err) == "other", lbl+": "+opName[c.op]+" does not take the rest of an earlier reply for its own")
}

// An operation that times out in the middle of its reply; the rest of the reply arrives later.
func C22_late() {
	vx.Bound("every operation whose reply (success or error) stops at any byte until the timeout and continues afterwards, followed by every operation, then a reconnect and another operation")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	bad := op != oGetMulti && vx.Bool("bad")
	gen := func(r *Req) []byte {
		if bad {
			return reply(r, &Out{Kind: "error", Text: []byte("SERVER_ERROR x"), Status: 0x82})
		}
		return okReply(r)
	}
	full := fullStream(opCall(op, false), proto, gen)
	cut := vx.Choose("cut", len(full))
	left := cut
	x := anySecond()
	phase := 0
	conn := vx.NewConn("c0", nil)
	conn.Peer = serveWith(proto, func(r *Req) []byte {
		if phase > 0 {
			return x.reply(r)
		}
		b := gen(r)
		if len(b) > left {
			b = b[:left]
		}
		left -= len(b)
		return b
	})
	conn2 := vx.NewConn("c1", serveWith(proto, x.reply))
	s := dial(proto, conn, conn2)
	setTimeout(s, 5*time.Second)
	r := opCall(op, false).do(s)
	vx.Assert(r.err != nil, protoName[proto]+" "+opName[op]+": a timed out operation fails")
	phase = 1
	if vx.Bool("rest first") {
		conn.Feed(full[cut:])
	} else {
		conn.OnWrite = func(c *vx.Conn) { // arrives while the next request is being sent
			if phase == 1 {
				phase = 2
				c.Send(full[cut:])
			}
		}
	}
	c2 := opCall(vx.Choose("op2", nOps), false)
	r2 := c2.do(s)
	x.honest(c2, r2, proto, protoName[proto]+" after "+opName[op]+" timed out")
	vx.Assert(s.Reconnect() == nil, protoName[proto]+": reconnect succeeds")
	c3 := opCall(oGet, false)
	r3 := c3.do(s)
	x.check(c3, r3, proto, protoName[proto]+" after reconnect")
	obsRes(r3)
}

// The connection that fails is not the handle's first.
func C22_again() {
	vx.Bound("one or two reconnects (by the caller, or by the heartbeat after a failed probe), then every operation whose reply stops at any byte, the rest arriving later, or whose first write fails, followed by every operation")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	full := fullStream(opCall(op, false), proto, okReply)
	how := vx.Choose("how", 3)
	writes := vx.Bool("write fails")
	cut := 0
	if !writes {
		cut = vx.Choose("cut", len(full))
	}
	left := cut
	x := anySecond()
	phase := 0
	last := vx.NewConn("last", nil)
	last.Peer = serveWith(proto, func(r *Req) []byte {
		if phase > 0 {
			return x.reply(r)
		}
		b := okReply(r)
		if len(b) > left {
			b = b[:left]
		}
		left -= len(b)
		return b
	})
	first := vx.NewConn("first", serveWith(proto, okReply))
	mid := vx.NewConn("mid", serveWith(proto, okReply))
	lbl := protoName[proto]
	var s client.Server
	switch how {
	case 0:
		s = dial(proto, first, last)
		vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds")
	case 1:
		s = dial(proto, first, mid, last)
		vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds")
		vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds")
	case 2:
		first.Peer = nil
		first.End(io.EOF)
		s = dial2(proto, first, last)
		time.Sleep(1500 * time.Millisecond)
	}
	setTimeout(s, 300*time.Millisecond)
	if writes {
		last.OnWrite = func(c *vx.Conn) {
			c.WriteErr = nil
			if phase == 0 {
				phase = 1
				c.WriteErr = vx.ErrTimeout
			}
		}
	}
	r := opCall(op, false).do(s)
	vx.Assert(r.err != nil, lbl+" "+opName[op]+": a failed operation is an error")
	phase = 1
	if !writes {
		last.Feed(full[cut:])
	}
	c2 := opCall(vx.Choose("op2", nOps), false)
	r2 := c2.do(s)
	x.honest(c2, r2, proto, lbl+" after "+opName[op]+" failed on a later connection")
	s.Close()
}

// A connection that fails while the request is being written; the server may have got part of it.
func C22_write() {
	vx.Bound("every operation (and stores of 10000 bytes) whose first, second or third write fails once; followed by every operation")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	x := anySecond()
	conn := vx.NewConn("c0", serveWith(proto, x.reply))
	at := vx.Choose("at", 3)
	n := 0
	conn.OnWrite = func(c *vx.Conn) {
		c.WriteErr = nil
		if n == at {
			c.WriteErr = vx.ErrTimeout
		}
		n++
	}
	conn2 := vx.NewConn("c1", serveWith(proto, x.reply))
	s := dial(proto, conn, conn2)
	c := opCall(op, false)
	if isStore(op) && vx.Bool("big") {
		c.item.Value = make([]byte, 10000)
	}
	r := c.do(s)
	if n <= at {
		vx.Stop()
	}
	vx.Assert(r.err != nil, protoName[proto]+" "+opName[op]+": a failed write is an error")
	vx.Reach("write failed")
	conn.OnWrite = nil
	conn.WriteErr = nil
	setTimeout(s, 5*time.Second) // an answer that never comes must not hang the check
	c2 := opCall(vx.Choose("op2", nOps), false)
	r2 := c2.do(s)
	x.honest(c2, r2, proto, protoName[proto]+" after a failed write")
	vx.Assert(s.Reconnect() == nil, protoName[proto]+": reconnect succeeds")
	c3 := opCall(oGet, false)
	r3 := c3.do(s)
	x.check(c3, r3, proto, protoName[proto]+" after reconnect")
}

// A read that fails once for a reason other than the deadline.
func C22_read() {
	vx.Bound("every operation, connection error after, or together with, any byte of the reply, the rest readable afterwards; followed by every operation")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	full := fullStream(opCall(op, false), proto, okReply)
	cut := vx.Choose("cut", len(full))
	left := cut
	x := anySecond()
	phase := 0
	conn := vx.NewConn("c0", nil)
	conn.WithEnd = vx.Bool("together")
	end := []error{vx.ErrReset, vx.ErrTimeout, io.EOF}[vx.Choose("end", 3)]
	conn.Peer = serveWith(proto, func(r *Req) []byte {
		if phase > 0 {
			return x.reply(r)
		}
		b := okReply(r)
		if len(b) > left {
			b = b[:left]
			conn.SendEnd(end)
		}
		left -= len(b)
		return b
	})
	s := dial(proto, conn)
	r := opCall(op, false).do(s)
	vx.Assert(r.err != nil, protoName[proto]+" "+opName[op]+": a failed read is an error")
	phase = 1
	conn.End(nil)
	conn.Feed(full[cut:])
	c2 := opCall([]int{oGet, oGetMulti, oSet, oDelete, oIncr, oTouch, oFlush, oVersion}[vx.Choose("op2", 8)], false)
	setTimeout(s, 5*time.Second)
	r2 := c2.do(s)
	x.honest(c2, r2, proto, protoName[proto]+" after a failed read")
}

// dial2 is a handle with heartbeat and automatic reconnects whose first connection is a and whose second is b.
func dial2(proto int, a, b *vx.Conn) client.Server {
	n := 0
	vx.OnDial(func(network, addr string) (net.Conn, error) {
		n++
		switch n {
		case 1:
			return a, nil
		case 2:
			return b, nil
		}
		return nil, errRefused
	})
	return newHandle(proto, "srv", client.EnableHeartbeat, client.EnableAutoReconnect)
}

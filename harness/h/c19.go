package h

import (
	"io"
	"net"
	"time"

	"go.f110.dev/go-memcached/client"
	"verif/harness/vx"
)

// beating makes a handle with the heartbeat on and says how long an interval is.
func beating(proto int, auto bool) (client.Server, time.Duration) {
	interval := time.Second
	opts := []client.ServerOpt{client.EnableHeartbeat}
	if vx.Thorough() && vx.Bool("own interval") {
		interval = 250 * time.Millisecond
		opts[0] = func(o *client.ServerOption) { o.HeartbeatInterval = interval }
	}
	if auto {
		opts = append(opts, client.EnableAutoReconnect)
	}
	return newHandle(proto, "srv", opts...), interval
}

// someCall is an operation for handles whose operations all take the same way.
func someCall() *Call {
	if vx.Thorough() {
		return opCall(vx.Choose("op", nOps), false)
	}
	return opCall([]int{oGet, oIncr}[vx.Choose("op", 2)], false)
}

// alive checks that the handle is open on the connection: operations work there and it is probed at every interval.
func alive(s client.Server, w *watched, proto int, interval time.Duration, n int, lbl string) {
	vx.Idle()
	c := someCall()
	w.reqs, w.In = nil, nil
	r := c.do(s)
	w.x.check(c, r, proto, lbl)
	w.expect(c, proto, lbl)
	for i := 0; i < n; i++ {
		was := len(w.reqs)
		time.Sleep(interval)
		vx.Idle()
		vx.Assert(len(w.reqs) > was, lbl+": an idle connection is probed at every interval")
	}
	vx.Assert(!w.IsClosed(), lbl+": the connection stays open")
	obsRes(r)
}

// dead checks that the handle is closed for good and stays so.
func dead(s client.Server, d *dialer, conns []*watched, interval time.Duration, all bool, lbl string) {
	vx.Idle()
	dials, sent := d.dials, 0
	for _, w := range conns {
		sent += len(w.All)
	}
	check := func() {
		vx.Idle()
		now := 0
		for _, w := range conns {
			now += len(w.All)
		}
		vx.Assert(d.dials == dials, lbl+": the handle is not reconnected")
		vx.Assert(now == sent, lbl+": nothing is sent any more")
	}
	check()
	time.Sleep(4*interval + interval/2)
	check()
	var r Res
	if all || vx.Thorough() {
		r = opCall(vx.Choose("op", nOps), false).do(s)
	} else {
		r = someCall().do(s)
	}
	vx.Assert(r.err != nil, lbl+": operations fail")
	check()
	s.Close()
	time.Sleep(2 * interval)
	check()
	r = opCall(oVersion, false).do(s)
	vx.Assert(r.err != nil, lbl+": operations fail after closing twice")
	check()
}

// As long as nothing happens, probes go on.
func C19_probes() {
	vx.Bound("an idle handle over 6 (thorough: 12) intervals, with and without auto-reconnect; an operation at half an interval; a user reconnect after 2 intervals; another 3 intervals")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	c0, c1 := newWatched("c0", proto, x), newWatched("c1", proto, x)
	d := &dialer{next: []*vx.Conn{c0.Conn, c1.Conn}}
	d.install()
	s, interval := beating(proto, vx.Bool("auto"))
	if vx.Bool("timeout") {
		setTimeout(s, 100*time.Millisecond)
	}
	lbl := protoName[proto] + " heartbeat"
	n := 6
	if vx.Thorough() {
		n = 12
	}
	time.Sleep(interval / 2)
	for i := 0; i < n; i++ {
		was := len(c0.reqs)
		time.Sleep(interval)
		vx.Idle()
		vx.Assert(len(c0.reqs) > was, lbl+": an idle connection is probed at every interval")
		if i == 2 {
			vx.Assert(d.dials == 1, lbl+": a healthy connection is kept")
		}
	}
	alive(s, c0, proto, interval, 2, lbl)
	vx.Assert(d.dials == 1 && !c0.IsClosed(), lbl+": a healthy connection is kept")
	if vx.Bool("reconnect") {
		vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds")
		alive(s, c1, proto, interval, 3, lbl+" after a user reconnect")
		vx.Assert(d.dials == 2, lbl+": a healthy connection is kept")
	}
	s.Close()
	dead(s, d, []*watched{c0, c1}, interval, false, lbl+" after close")
}

const nBreaks = 6

// breaks makes the next probe over the connection fail, and reports whether a timeout is needed for that.
func breaks(w *watched, how int) bool {
	switch how {
	case 0: // the server goes away
		w.Peer = nil
		w.End(io.EOF)
	case 1:
		w.End(vx.ErrReset)
		w.Peer = nil
	case 2: // writes fail
		w.WriteErr = vx.ErrReset
	case 3: // half a reply
		w.Peer = func(c *vx.Conn) {
			b := c.In
			c.In = nil
			if len(b) > 0 && b[0] == 0x80 {
				c.Send([]byte{0x81, 0x0b, 0, 0, 0, 0, 0, 0, 0, 0})
			} else {
				c.Send([]byte("VERSION 1."))
			}
			c.SendEnd(io.EOF)
		}
	case 4: // a stall, which shows only with a timeout
		w.Peer = func(c *vx.Conn) { c.In = nil }
		return true
	case 5: // garbage
		w.Peer = func(c *vx.Conn) {
			c.In = nil
			c.Send([]byte("what is this? I have never seen such a reply before.\r\n\x00\x00\r\n"))
		}
	}
	return false
}

// A probe fails and the handle was made with auto-reconnect.
func C19_revive() {
	vx.Bound("the first or third probe fails in 6 ways (end of stream, reset, write failure, half a reply, silence until the timeout, garbage), then 0..2 refused dials, then the server is back; later the new connection fails in the same ways; the handle is then closed")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	var w []*watched
	for i := 0; i < 3; i++ {
		w = append(w, newWatched("c"+utoa(uint64(i)), proto, x))
	}
	d := &dialer{next: []*vx.Conn{w[0].Conn}}
	d.install()
	s, interval := beating(proto, true)
	lbl := protoName[proto] + " auto-reconnect"
	if vx.Bool("late") {
		time.Sleep(2*interval + interval/2)
	}
	n := vx.Choose("refused", 3)
	for i := 0; i < n; i++ {
		d.next = append(d.next, nil)
	}
	d.next = append(d.next, w[1].Conn)
	if breaks(w[0], vx.Choose("how", nBreaks)) {
		setTimeout(s, interval/4)
	}
	time.Sleep(time.Duration(n+1)*interval + interval*3/4)
	vx.Idle()
	vx.Assert(d.dials == n+2, lbl+": a connection whose probe failed is re-established once the server can be reached")
	vx.Assert(w[0].IsClosed(), lbl+": the failed connection is closed")
	alive(s, w[1], proto, interval, 3, lbl+" after a failed probe")
	vx.Assert(d.dials == n+2, lbl+": a healthy connection is kept")

	d.next = append(d.next, w[2].Conn)
	how := 0
	if vx.Thorough() {
		how = vx.Choose("how again", nBreaks)
	}
	if breaks(w[1], how) {
		setTimeout(s, interval/4)
	}
	time.Sleep(interval + interval*3/4)
	vx.Idle()
	vx.Assert(d.dials == n+3, lbl+": the connection is re-established a second time")
	was := len(w[2].reqs)
	time.Sleep(interval)
	vx.Idle()
	vx.Assert(len(w[2].reqs) > was, lbl+": an idle connection is probed at every interval")
	s.Close()
	dead(s, d, w, interval, false, lbl+" after close")
}

// A probe fails and the handle was made without auto-reconnect.
func C19_stop() {
	vx.Bound("the first or third probe fails in 6 ways; the handle is watched for 5 more intervals, then reopened by the user, watched for 3 intervals and closed")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	w := []*watched{newWatched("c0", proto, x), newWatched("c1", proto, x)}
	d := &dialer{next: []*vx.Conn{w[0].Conn, w[1].Conn}}
	d.install()
	s, interval := beating(proto, false)
	lbl := protoName[proto] + " heartbeat"
	if vx.Bool("late") {
		time.Sleep(2*interval + interval/2)
	}
	if breaks(w[0], vx.Choose("how", nBreaks)) {
		setTimeout(s, interval/4)
	}
	time.Sleep(2 * interval)
	vx.Idle()
	vx.Assert(w[0].IsClosed(), lbl+": a connection whose probe failed is closed")
	dead(s, d, w, interval, false, lbl+" after a failed probe")
	if vx.Bool("reopened") {
		vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds")
		alive(s, w[1], proto, interval, 3, lbl+" after reopening")
		s.Close()
		dead(s, d, w, interval, false, lbl+" after reopening and closing")
	}
}

// Long lives: many quiet intervals, and many refused dials.
func C19_long() {
	vx.Bound("an idle handle over 150 (thorough: 600) intervals; 12 or 40 refused dials (thorough: also 200) after a failed probe, then the server is back; alternately, 12 connections in a row fail (thorough: 40)")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	switch vx.Choose("life", 3) {
	case 0:
		w := newWatched("c0", proto, x)
		d := &dialer{next: []*vx.Conn{w.Conn}}
		d.install()
		s, interval := beating(proto, vx.Bool("auto"))
		lbl := protoName[proto] + " heartbeat over a long time"
		n := 150
		if vx.Thorough() {
			n = 600
		}
		time.Sleep(interval / 2)
		for i := 0; i < n; i++ {
			was := len(w.reqs)
			time.Sleep(interval)
			vx.Idle()
			vx.Assert(len(w.reqs) > was, lbl+": an idle connection is probed at every interval")
		}
		vx.Assert(d.dials == 1 && !w.IsClosed(), lbl+": a healthy connection is kept")
		s.Close()
		dead(s, d, []*watched{w}, interval, false, lbl+" after close")
	case 1:
		counts := []int{12, 40}
		if vx.Thorough() {
			counts = []int{12, 40, 200}
		}
		n := counts[vx.Choose("refused", len(counts))]
		w := []*watched{newWatched("c0", proto, x), newWatched("c1", proto, x)}
		d := &dialer{next: []*vx.Conn{w[0].Conn}}
		d.install()
		s, interval := beating(proto, true)
		lbl := protoName[proto] + " auto-reconnect after many refused dials"
		for i := 0; i < n; i++ {
			d.next = append(d.next, nil)
		}
		d.next = append(d.next, w[1].Conn)
		breaks(w[0], 0)
		time.Sleep(time.Duration(n+1)*interval + interval*3/4)
		vx.Idle()
		vx.Assert(d.dials == n+2, lbl+": a connection whose probe failed is re-established once the server can be reached")
		alive(s, w[1], proto, interval, 3, lbl)
		s.Close()
		dead(s, d, w, interval, false, lbl+" after close")
	case 2:
		n := 12
		if vx.Thorough() {
			n = 40
		}
		var w []*watched
		d := &dialer{}
		for i := 0; i <= n; i++ {
			w = append(w, newWatched("c"+utoa(uint64(i)), proto, x))
			d.next = append(d.next, w[i].Conn)
		}
		d.install()
		s, interval := beating(proto, true)
		lbl := protoName[proto] + " auto-reconnect, many times"
		time.Sleep(interval / 2)
		for i := 0; i < n; i++ {
			breaks(w[i], 0)
			time.Sleep(interval)
			vx.Idle()
			vx.Assert(d.dials == i+2 && w[i].IsClosed(), lbl+": every connection whose probe failed is re-established")
		}
		alive(s, w[n], proto, interval, 3, lbl)
		s.Close()
		dead(s, d, w, interval, false, lbl+" after close")
	}
}

// Close between probes.
func C19_close() {
	vx.Bound("a handle with or without heartbeat or auto-reconnect, closed once or twice after 0..3 intervals and a bit, healthy or not")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	w := []*watched{newWatched("c0", proto, x), newWatched("c1", proto, x)}
	d := &dialer{next: []*vx.Conn{w[0].Conn, w[1].Conn}}
	d.install()
	var s client.Server
	interval := time.Second
	lbl := protoName[proto]
	if vx.Bool("heartbeat") {
		s, interval = beating(proto, vx.Bool("auto"))
		lbl += " heartbeat"
	} else {
		s = newHandle(proto, "srv")
	}
	if t := vx.Choose("after", 4); t > 0 {
		time.Sleep(time.Duration(t)*interval + interval/3)
	}
	if vx.Bool("broken") {
		breaks(w[0], vx.Choose("how", nBreaks))
	}
	vx.Assert(s.Close() == nil, lbl+": close succeeds")
	if vx.Bool("twice") {
		vx.Assert(s.Close() != nil, lbl+": a second close is an error")
	}
	vx.Assert(w[0].IsClosed(), lbl+": close closes the connection")
	dead(s, d, w, interval, true, lbl+" after close")
}

// Close while a probe waits for its reply, or while the connection is being re-established.
func C19_inflight() {
	vx.Bound("close while a probe (or an operation) waits for a reply that never comes, or comes after 3 intervals; or while a reconnect dials, which succeeds or fails 3 intervals later")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	w := []*watched{newWatched("c0", proto, x), newWatched("c1", proto, x)}
	d := &dialer{}
	vx.OnDial(func(network, addr string) (net.Conn, error) {
		d.dials++
		if d.dials == 1 {
			return w[0].Conn, nil
		}
		time.Sleep(3 * time.Second)
		if d.dials > 2 || vx.Bool("refused") {
			return nil, errRefused
		}
		return w[1].Conn, nil
	})
	auto := vx.Bool("auto")
	s, interval := beating(proto, auto)
	lbl := protoName[proto] + " close"
	what := vx.Choose("what", 3)
	var failed error
	stuck := false
	switch what {
	case 0: // a probe waits
		w[0].Peer = func(c *vx.Conn) { c.In = nil }
		lbl += " during a probe"
	case 1: // an operation waits
		w[0].Peer = func(c *vx.Conn) { c.In = nil }
		c := opCall([]int{oGet, oGetMulti, oSet, oVersion}[vx.Choose("waiting", 4)], false)
		stuck = true
		go func() {
			failed = c.do(s).err
			stuck = false
		}()
		lbl += " during an operation"
	case 2: // the connection is being re-established
		if !auto {
			vx.Stop()
		}
		w[0].End(io.EOF)
		w[0].Peer = nil
		lbl += " during a reconnect"
	}
	time.Sleep(interval + interval/2)
	s.Close()
	vx.Idle()
	if what == 1 {
		vx.Assert(!stuck && failed != nil, lbl+": a waiting operation fails")
	}
	vx.Assert(w[0].IsClosed(), lbl+": the connection is closed")
	dials := d.dials
	time.Sleep(5 * time.Second)
	vx.Idle()
	vx.Assert(d.dials == dials, lbl+": the handle is not reconnected")
	vx.Assert(len(w[1].All) == 0, lbl+": nothing is sent on a new connection")
	if what == 2 {
		vx.Reach("closed during a reconnect")
	}
	w[0].Feed([]byte("VERSION 1.6\r\n"))
	dead(s, d, w, interval, false, lbl)
}

// Close, heartbeat and user reconnects at the same moment.
func C19_race() {
	vx.Bound("close (once, or by two goroutines) at the moment of a probe that succeeds or fails, with or without auto-reconnect, every interleaving of at most 2 (thorough: 3) preemptions")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	w := []*watched{newWatched("c0", proto, x), newWatched("c1", proto, x), newWatched("c2", proto, x)}
	d := &dialer{next: []*vx.Conn{w[0].Conn, w[1].Conn, w[2].Conn}}
	d.install()
	explore(2, 3)
	s, interval := beating(proto, vx.Bool("auto"))
	lbl := protoName[proto] + " close at a probe"
	if vx.Bool("broken") {
		w[0].WriteErr = vx.ErrReset
	}
	if vx.Bool("two") {
		vx.Go("other", func() {
			time.Sleep(interval)
			s.Close()
		})
	}
	time.Sleep(interval)
	s.Close()
	time.Sleep(interval / 2)
	vx.Idle()
	for _, c := range w[:d.dials] {
		vx.Assert(c.IsClosed(), lbl+": every connection is closed")
	}
	vx.Explore(0)
	dials := d.dials
	sent := len(w[0].All) + len(w[1].All) + len(w[2].All)
	time.Sleep(3 * interval)
	vx.Idle()
	vx.Assert(d.dials == dials, lbl+": the handle is not reconnected")
	vx.Assert(sent == len(w[0].All)+len(w[1].All)+len(w[2].All), lbl+": nothing is sent any more")
	r := opCall(oGet, false).do(s)
	vx.Assert(r.err != nil, lbl+": operations fail")
}

package h

import (
	"time"

	"verif/harness/vx"
)

// opMany is opCall, but a multi-get of more keys than one.
func opMany(op, n int) *Call {
	c := opCall(op, false)
	if op == oGetMulti {
		c.keys = nil
		for i := 0; i < n; i++ {
			c.keys = append(c.keys, "key"+utoa(uint64(i)))
		}
	}
	return c
}

// Both deadlines are armed before anything is sent, with the length of the timeout.
func C20_armed() {
	vx.Bound("every operation (multi-get of 1, 3 and 600 keys, stores of 5 and 10000 bytes) with any timeout of 1 ns to 2^53 ns, after up to 2 earlier operations at other times with another timeout or none, with or without a reconnect in between")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	c0, c1 := newWatched("c0", proto, x), newWatched("c1", proto, x)
	s := dial(proto, c0.Conn, c1.Conn)
	w := c0
	lbl := protoName[proto]
	n := vx.Choose("earlier", 3)
	for i := 0; i < n; i++ {
		setTimeout(s, time.Duration(i)*time.Hour)
		c := opCall([]int{oGet, oSet}[i], false)
		x.check(c, c.do(s), proto, lbl)
		time.Sleep(3 * time.Minute)
	}
	if vx.Bool("reconnected") {
		vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds")
		w = c1
	}
	d := time.Duration(vx.Int("timeout", 1, 1<<53))
	setTimeout(s, d)
	op := vx.Choose("op", nOps)
	c := opMany(op, 1)
	if vx.Bool("big") {
		switch {
		case isStore(op):
			c.item.Value = make([]byte, 10000)
		case op == oGetMulti:
			c = opMany(op, []int{3, 600}[vx.Choose("keys", 2)])
		default:
			vx.Stop()
		}
	}
	want := time.Now().Add(d)
	writes := 0
	w.OnWrite = func(v *vx.Conn) {
		writes++
		vx.Assert(v.WDL.Equal(want), lbl+" "+opName[op]+": the write deadline is armed before anything is sent")
		vx.Assert(v.RDL.Equal(want), lbl+" "+opName[op]+": the read deadline is armed before anything is sent")
	}
	r := c.do(s)
	x.check(c, r, proto, lbl)
	vx.Assert(writes > 0, lbl+" "+opName[op]+": something is sent")
	vx.Assert(w.RDL.Equal(want) && w.WDL.Equal(want), lbl+" "+opName[op]+": the deadlines stay for the operation")
	vx.Reach("big")
	obsRes(r)
}

// Every operation of many is bounded.
func C20_long() {
	vx.Bound("40 (thorough: 300) operations in a row, every operation repeated and every two in alternation, at different times, the timeout being changed now and then; then silence")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	w := newWatched("c0", proto, x)
	s := dial(proto, w.Conn)
	lbl := protoName[proto] + " after many operations"
	two := []int{vx.Choose("op", nOps), vx.Choose("op2", nOps)}
	n := 40
	if vx.Thorough() {
		n = 300
	}
	var want time.Time
	w.OnWrite = func(v *vx.Conn) {
		vx.Assert(v.WDL.Equal(want), lbl+": the write deadline is armed before anything is sent")
		vx.Assert(v.RDL.Equal(want), lbl+": the read deadline is armed before anything is sent")
	}
	d := time.Second
	for i := 0; i < n; i++ {
		if i%8 == 0 {
			d = time.Duration(i+1) * time.Second
			setTimeout(s, d)
		}
		want = time.Now().Add(d)
		c := opCall(two[i%2], false)
		x.check(c, c.do(s), proto, lbl)
		time.Sleep(time.Duration(i) * time.Millisecond)
	}
	w.Peer = func(v *vx.Conn) { v.In = nil }
	want = time.Now().Add(d)
	r := opCall(two[0], false).do(s)
	vx.Assert(r.err != nil && !time.Now().After(want), lbl+": an operation whose time is up fails")
}

// Without a timeout there is no deadline.
func C20_none() {
	vx.Bound("any two operations without a timeout, answered after an hour each, before and after a reconnect")
	proto := vx.Choose("proto", 3)
	x := anySecond()
	var calls []*Call
	var streams [][]byte
	for i := 0; i < 2; i++ {
		c := opCall(vx.Choose("op", nOps), false)
		calls, streams = append(calls, c), append(streams, fullStream(c, proto, x.reply))
	}
	c0, c1 := newWatched("c0", proto, x), newWatched("c1", proto, x)
	s := dial(proto, c0.Conn, c1.Conn)
	w := c0
	lbl := protoName[proto]
	for _, v := range []*watched{c0, c1} {
		v.OnRead = func(c *vx.Conn) {
			vx.Assert(c.RDL.IsZero() && c.WDL.IsZero(), lbl+": no deadline is set")
		}
		v.OnWrite = v.OnRead
	}
	for i := 0; i < 2; i++ {
		if i == 1 && vx.Bool("reconnected") {
			vx.Assert(s.Reconnect() == nil, lbl+": reconnect succeeds")
			w = c1
		}
		c, full := calls[i], streams[i]
		peer := w.Peer
		w.Peer = func(v *vx.Conn) { v.In = nil }
		done := false
		var r Res
		vx.Go("op"+utoa(uint64(i)), func() {
			r = c.do(s)
			done = true
		})
		time.Sleep(time.Hour)
		vx.Assert(!done, lbl+" "+opName[c.op]+": without a timeout an operation waits for its reply")
		w.Feed(full)
		vx.Idle()
		vx.Assert(done, lbl+" "+opName[c.op]+": the operation returns with its reply")
		x.check(c, r, proto, lbl)
		w.Peer = peer
	}
}

// A server that falls silent.
func C20_silent() {
	vx.Bound("every operation (multi-get of 1 and 3 keys) whose reply stops after any number of bytes, or whose request is not taken, or whose reply comes one byte at a time too slowly, or whose request is taken late and not answered; timeouts of 1 ms and 5 s; first operation or second; the time it takes is measured")
	proto := vx.Choose("proto", 3)
	op := vx.Choose("op", nOps)
	d := []time.Duration{time.Millisecond, 5 * time.Second}[vx.Choose("timeout", 2)]
	x := anySecond()
	c := opMany(op, 1)
	if op == oGetMulti && vx.Bool("many") {
		c = opMany(op, 3)
	}
	full := fullStream(c, proto, x.reply)
	c0 := newWatched("c0", proto, x)
	s := dial(proto, c0.Conn)
	setTimeout(s, d)
	lbl := protoName[proto] + " " + opName[op]
	if vx.Bool("second") {
		g := opCall(oGet, false)
		x.check(g, g.do(s), proto, lbl)
		time.Sleep(2 * d)
	}
	switch vx.Choose("how", 4) {
	case 0: // stops
		cut := vx.Choose("cut", len(full))
		sent := false
		c0.Peer = func(v *vx.Conn) {
			v.In = nil
			if !sent {
				v.Send(full[:cut])
			}
			sent = true
		}
	case 1: // takes nothing
		c0.Stall = true
	case 2: // too slow
		c0.Peer = func(v *vx.Conn) { v.In = nil }
		vx.Go("slow", func() {
			for i := range full[:len(full)-1] {
				time.Sleep(d / 3)
				c0.Feed(full[i : i+1])
			}
		})
	case 3: // takes the request late
		c0.Peer = func(v *vx.Conn) { v.In = nil }
		late := false
		c0.OnWrite = func(v *vx.Conn) {
			if !late {
				late = true
				time.Sleep(d - d/4)
			}
		}
	}
	start := time.Now()
	done := false
	var r Res
	vx.Go("op", func() {
		r = c.do(s)
		done = true
	})
	time.Sleep(d + d/2)
	vx.Idle()
	vx.Assert(done, lbl+": an operation returns when its time is up")
	vx.Assert(r.err != nil, lbl+": an operation whose time is up fails")
	vx.Assert(!time.Now().Before(start), lbl+": time passes")
	vx.ObsI("done", b2i(done))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

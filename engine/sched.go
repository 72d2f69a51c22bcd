package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine, carried by a real goroutine; only the holder of the baton runs.
type G struct {
	w      *W
	p      *Path
	id     int
	top    *frame
	depth  int
	wake   chan struct{}
	ready  func() bool // nil: runnable
	done   bool
	what   string
	noGate int
	name   string
}

type waiter struct {
	g    *G
	v    Value // value to send / received
	ok   bool
	done bool
	sel  *selWait
	idx  int
}

type selWait struct {
	fired bool
	idx   int
	v     Value
	ok    bool
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type mutexState struct {
	locked  bool
	readers int
	wg      int64
	held    int // id of the goroutine that locked
}

type timerV struct {
	when   int64
	period int64
	seq    int
	ch     *ChanV
	fn     Value
	active bool
	wakeG  *G
}

func (p *Path) newG() *G {
	g := &G{w: p.w, p: p, id: len(p.gs), wake: make(chan struct{}, 1)}
	p.gs = append(p.gs, g)
	return g
}

func (g *G) spawn(fv Value, args []Value, site *instr) { g.spawnNamed("", fv, args, site) }

func (g *G) spawnNamed(name string, fv Value, args []Value, site *instr) {
	p := g.p
	if g.w.initing > 0 {
		return // goroutines started by library initialisation are not run
	}
	ng := p.newG()
	ng.name = name
	p.w.wg.Add(1)
	go func() {
		defer p.w.wg.Done()
		<-ng.wake
		defer p.finishG(ng)
		if p.dead {
			return
		}
		if b, ok := fv.(*ssa.Builtin); ok {
			ng.builtin(&frame{}, b, site, args)
			return
		}
		ng.call(fv, args)
	}()
	g.libGate("go")
}

// finishG ends a goroutine: normally, by a panic of the interpreted program, or because the path ended.
func (p *Path) finishG(g *G) {
	r := recover()
	g.done = true
	if p.dead {
		return
	}
	if r != nil {
		p.endCh <- p.classify(g, r)
		return
	}
	if n := p.pickNext(g); n != nil {
		p.cur = n
		n.wake <- struct{}{}
		return
	}
	if !p.dead {
		p.endCh <- p.deadlock()
	}
}

func (p *Path) deadlock() pathEnd {
	s := ""
	for _, g := range p.gs {
		if !g.done {
			if s != "" {
				s += "; "
			}
			s += fmt.Sprintf("g%d blocked (%s) at %s", g.id, g.what, g.stack())
		}
	}
	return pathEnd{"hang", s}
}

// classify turns a Go panic that ended an interpreted goroutine into a path end.
func (p *Path) classify(g *G, r interface{}) pathEnd {
	switch r := r.(type) {
	case pathEnd:
		return r
	case targetPanic:
		return pathEnd{"panic", r.msg + " @ " + r.where}
	case engineError:
		return pathEnd{"engine", r.msg + " @ " + g.stack()}
	}
	return pathEnd{"engine", fmt.Sprint(r) + " @ " + g.stack() + "\n" + string(debug.Stack())}
}

func (p *Path) runnable(g *G) bool {
	if g.done {
		return false
	}
	return g.ready == nil || g.ready()
}

// pickNext chooses the goroutine to run when `from` cannot continue (advancing virtual time if needed).
func (p *Path) pickNext(from *G) *G {
	for {
		var c []*G
		n := len(p.gs)
		for i := 1; i <= n; i++ {
			g := p.gs[(from.id+i)%n]
			if p.runnable(g) {
				c = append(c, g)
			}
		}
		if len(c) == 1 {
			return c[0]
		}
		if len(c) > 1 {
			if p.explore {
				k := p.choose(len(c))
				p.sched = append(p.sched, c[k].id)
				return c[k]
			}
			return c[0]
		}
		if !p.advance() {
			return nil
		}
	}
}

// block parks g until ready() holds.
func (g *G) block(what string, ready func() bool) {
	p := g.p
	if ready() {
		return
	}
	if g.w.initing > 0 {
		panic(engErr("blocking during initialisation"))
	}
	g.ready, g.what = ready, what
	n := p.pickNext(g)
	if n == nil {
		panic(p.deadlock())
	}
	if n != g {
		g.switchTo(n)
	}
	g.ready = nil
}

func (g *G) switchTo(n *G) {
	p := g.p
	p.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if p.dead {
		panic(pathEnd{"kill", ""})
	}
}

// gate is a scheduling point: in explore mode another runnable goroutine may be preferred (bounded).
func (g *G) gate(what string) {
	p := g.p
	if !p.explore || p.budget <= 0 || g.noGate > 0 || g.w.initing > 0 {
		return
	}
	var c []*G
	n := len(p.gs)
	for i := 1; i < n; i++ {
		o := p.gs[(g.id+i)%n]
		if p.runnable(o) {
			c = append(c, o)
		}
	}
	if len(c) == 0 {
		return
	}
	k := p.choose(len(c) + 1)
	if k == 0 {
		return
	}
	p.budget--
	p.sched = append(p.sched, c[k-1].id)
	p.trace = append(p.trace, fmt.Sprintf("g%d preempted at %s by g%d", g.id, what, c[k-1].id))
	g.switchTo(c[k-1])
}

// yield lets every other runnable goroutine run first.
func (g *G) yield() {
	p := g.p
	n := len(p.gs)
	for i := 1; i < n; i++ {
		o := p.gs[(g.id+i)%n]
		if p.runnable(o) {
			g.switchTo(o)
			return
		}
	}
}

// ---- virtual time

const clockLimit = int64(3600) * 1e9 * 24

func (p *Path) addTimer(t *timerV) {
	p.tseq++
	t.seq = p.tseq
	t.active = true
	for _, x := range p.timers {
		if x == t {
			return
		}
	}
	p.timers = append(p.timers, t)
}

// advance moves the clock to the next timer and fires it; false if there is none.
func (p *Path) advance() bool {
	live := p.timers[:0]
	for _, t := range p.timers {
		if t.active {
			live = append(live, t)
		}
	}
	p.timers = live
	if len(live) == 0 {
		return false
	}
	sort.Slice(live, func(i, j int) bool {
		if live[i].when != live[j].when {
			return live[i].when < live[j].when
		}
		return live[i].seq < live[j].seq
	})
	t := live[0]
	if t.when > p.clock {
		p.clock = t.when
	}
	if p.clock > clockLimit {
		return false
	}
	if t.period > 0 {
		t.when += t.period
		p.tseq++
		t.seq = p.tseq
	} else {
		t.active = false
	}
	switch {
	case t.wakeG != nil:
	case t.ch != nil:
		p.timerSend(t.ch)
	case t.fn != nil:
		ng := p.newG()
		p.w.wg.Add(1)
		go func() {
			defer p.w.wg.Done()
			<-ng.wake
			defer p.finishG(ng)
			if p.dead {
				return
			}
			ng.call(t.fn, nil)
		}()
	}
	return true
}

func (p *Path) timerSend(c *ChanV) {
	if w := c.popRecv(); w != nil {
		w.deliver(timeValue(p.clock), true)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, timeValue(p.clock))
	}
}

func (g *G) sleep(d int64) {
	p := g.p
	if d <= 0 {
		g.gate("sleep")
		return
	}
	t := &timerV{when: p.clock + d, wakeG: g}
	p.addTimer(t)
	g.block("sleep", func() bool { return !t.active })
}

// ---- channels

func (w *waiter) deliver(v Value, ok bool) {
	w.v, w.ok, w.done = v, ok, true
	if w.sel != nil {
		w.sel.fired, w.sel.idx, w.sel.v, w.sel.ok = true, w.idx, v, ok
	}
}

func (c *ChanV) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func (c *ChanV) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func liveq(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *ChanV) canRecv() bool {
	return c != nil && (len(c.buf) > 0 || c.closed || liveq(c.sendq))
}

func (c *ChanV) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || liveq(c.recvq))
}

func (c *ChanV) doRecv() (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.v)
			w.deliver(nil, true)
		}
		return v, true
	}
	if w := c.popSend(); w != nil {
		v := w.v
		w.deliver(nil, true)
		return v, true
	}
	return nil, false // closed
}

func (g *G) doSend(c *ChanV, v Value) {
	if c.closed {
		g.goPanic("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		w.deliver(v, true)
		return
	}
	c.buf = append(c.buf, v)
}

func (g *G) recv(c *ChanV) (Value, bool) {
	g.libGate("recv")
	if c == nil {
		g.block("receive from nil channel", func() bool { return false })
	}
	if c.canRecv() {
		return c.doRecv()
	}
	w := &waiter{g: g}
	c.recvq = append(c.recvq, w)
	g.block("chan receive", func() bool { return w.done })
	return w.v, w.ok
}

func (g *G) send(c *ChanV, v Value) {
	g.libGate("send")
	v = copyVal(v)
	if c == nil {
		g.block("send on nil channel", func() bool { return false })
	}
	if c.canSend() {
		g.doSend(c, v)
		return
	}
	w := &waiter{g: g, v: v}
	c.sendq = append(c.sendq, w)
	g.block("chan send", func() bool { return w.done })
	if !w.ok {
		g.goPanic("send on closed channel")
	}
}

func (g *G) closeChan(c *ChanV) {
	if c == nil {
		g.goPanic("close of nil channel")
	}
	if c.closed {
		g.goPanic("close of closed channel")
	}
	c.closed = true
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.deliver(nil, false)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.deliver(nil, false)
	}
	g.libGate("close")
}

func (g *G) selectOp(fr *frame, x *instr) Value {
	in := x.i.(*ssa.Select)
	g.libGate("select")
	n := len(in.States)
	chans := make([]*ChanV, n)
	vals := make([]Value, n)
	var ready []int
	for i := range in.States {
		chans[i] = fr.env[x.args[2*i]].(*ChanV)
		if a := x.args[2*i+1]; a >= 0 {
			vals[i] = fr.env[a]
		}
		if in.States[i].Send == nil {
			if chans[i].canRecv() {
				ready = append(ready, i)
			}
		} else if chans[i].canSend() {
			ready = append(ready, i)
		}
	}
	result := func(idx int, v Value, ok bool) Value {
		t := Tuple{C(64, uint64(int64(idx))), CB(ok)}
		for i, s := range in.States {
			if s.Send == nil {
				if i == idx && ok {
					t = append(t, v)
				} else {
					t = append(t, zero(chanElem(s.Chan)))
				}
			}
		}
		return t
	}
	if len(ready) > 0 {
		k := ready[0]
		if len(ready) > 1 {
			k = ready[g.p.choose(len(ready))]
		}
		if in.States[k].Send == nil {
			v, ok := chans[k].doRecv()
			return result(k, v, ok)
		}
		g.doSend(chans[k], copyVal(vals[k]))
		return result(k, nil, false)
	}
	if !in.Blocking {
		return result(-1, nil, false)
	}
	sw := &selWait{}
	for i := range in.States {
		if chans[i] == nil {
			continue
		}
		w := &waiter{g: g, sel: sw, idx: i, v: copyVal(vals[i])}
		if in.States[i].Send == nil {
			chans[i].recvq = append(chans[i].recvq, w)
		} else {
			chans[i].sendq = append(chans[i].sendq, w)
		}
	}
	g.block("select", func() bool { return sw.fired })
	if in.States[sw.idx].Send != nil {
		if !sw.ok {
			g.goPanic("send on closed channel")
		}
		return result(sw.idx, nil, false)
	}
	return result(sw.idx, sw.v, sw.ok)
}

// ---- mutexes

func (p *Path) mutex(v Value) *mutexState {
	k := v.(*Value)
	m := p.mu[k]
	if m == nil {
		m = &mutexState{}
		p.mu[k] = m
	}
	return m
}

func (g *G) lock(v Value) {
	if v.(*Value) == nil {
		g.nilDeref()
	}
	m := g.p.mutex(v)
	g.libGate("lock")
	g.block("mutex lock", func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
	m.held = g.id
	g.logLock()
}

// logLock records that a goroutine got a mutex of the repository, for native replays.
func (g *G) logLock() {
	if g.inRepo() {
		g.p.gatelog = append(g.p.gatelog, g.name+":lock")
	}
}

func (g *G) unlock(v Value) {
	m := g.p.mutex(v)
	if !m.locked {
		panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex @ " + g.stack()})
	}
	m.locked = false
	g.libGate("unlock")
}

func chanElem(v ssa.Value) types.Type { return v.Type().Underlying().(*types.Chan).Elem() }

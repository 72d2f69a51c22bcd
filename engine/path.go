package main

import (
	"fmt"
	"sort"
	"strings"
)

// Decision is one recorded step of a path: the outcome of a symbolic branch, a choice, a concretised value.
type Decision struct {
	kind byte // 'b' branch, 'c' choice, 'v' value test, 'a' assert discharged
	fork bool
	out  bool
	val  uint64
}

type Job struct {
	h      *Harness
	prefix []Decision
	seed   map[string]uint64
	depth  int
}

type pathEnd struct {
	kind string // "done", "infeasible", "limit", "kill", "fail"
	msg  string
}

type group struct {
	cs   []*Term
	vars []uint32
	dead bool
}

type Input struct {
	Name string   `json:"n"`
	Vals []uint64 `json:"v"`
}

type inputRec struct {
	name  string
	terms []*Term
}

type obsRec struct {
	name string
	val  Value
}

type Violation struct {
	Harness string
	Label   string
	Detail  string
	Witness *Witness
	kind    string
}

type Witness struct {
	Prop     string   `json:"prop"`
	Harness  string   `json:"harness"`
	Label    string   `json:"label"`
	Detail   string   `json:"detail,omitempty"`
	Inputs   []Input  `json:"inputs"`
	Sched    []int    `json:"sched,omitempty"`
	Obs      []string `json:"obs,omitempty"`
	Tier     string   `json:"tier"`
	MapOrder bool     `json:"maporder,omitempty"`
	Gates    []string `json:"gates,omitempty"`
	Trace    []string `json:"trace,omitempty"`
}

type Path struct {
	w       *W
	job     *Job
	pos     int
	dec     []Decision
	pc      map[*Term]bool
	groups  []*group
	vgroup  map[uint32]*group
	model   *Model
	usedVar map[uint32]bool
	nfresh  map[string]int

	inputs   []inputRec
	obs      []obsRec
	choices  []inputRec
	steps    int64
	viol     []*Violation
	incompl  []string
	reached  map[string]bool
	nAssert  int
	asserted map[string]int
	sched    []int
	trace    []string

	// scheduling
	gs       []*G
	cur      *G
	dead     bool
	endCh    chan pathEnd
	clock    int64
	timers   []*timerV
	tseq     int
	mu       map[*Value]*mutexState
	side     map[*Value]interface{}
	budget   int
	explore  bool
	mapFork  bool
	symAlloc bool
	gatelog  []string
	explored bool // at any time
	digMemo  map[*Term][]*Term
	digBack  map[string]*Term
	digDefs  []*digDef
	digOf    map[uint32]*digDef
}

func (p *Path) tt() *TT { return p.w.tt }

// touch registers a variable the first time this path meets it.
func (p *Path) touch(t *Term) {
	i := uint32(t.k)
	if p.usedVar[i] {
		return
	}
	p.usedVar[i] = true
	for len(p.model.v) <= int(i) {
		p.model.v = append(p.model.v, 0)
	}
	v, ok := p.job.seed[t.name]
	if !ok {
		v = 0
	}
	p.model.v[i] = v
}

// fresh makes a new variable; base names are numbered per path so that they are stable across re-execution.
func (p *Path) fresh(base string, w uint8, max uint64) *Term {
	n := p.nfresh[base]
	p.nfresh[base] = n + 1
	t := p.tt().Var(fmt.Sprintf("%s#%d", base, n), w, max)
	p.touch(t)
	return t
}

func (p *Path) addPC(c *Term) {
	if c.op == OpConst {
		return
	}
	if c.op == OpBAnd {
		for _, x := range c.args {
			p.addPC(x)
		}
		return
	}
	if p.pc[c] {
		return
	}
	p.pc[c] = true
	if len(p.digOf) > 0 {
		for _, v := range c.vars.v {
			if d := p.digOf[v]; d != nil && !d.inUse {
				d.inUse = true
				p.addPC(d.c)
			}
		}
	}
	var g *group
	for _, v := range c.vars.v {
		h := p.vgroup[v]
		if h == nil || h == g {
			continue
		}
		if g == nil {
			g = h
			continue
		}
		// merge smaller into larger
		if len(h.vars) > len(g.vars) {
			g, h = h, g
		}
		g.cs = append(g.cs, h.cs...)
		for _, x := range h.vars {
			p.vgroup[x] = g
		}
		g.vars = append(g.vars, h.vars...)
		h.dead = true
	}
	if g == nil {
		g = &group{}
		p.groups = append(p.groups, g)
	}
	g.cs = append(g.cs, c)
	for _, v := range c.vars.v {
		if p.vgroup[v] != g {
			p.vgroup[v] = g
			g.vars = append(g.vars, v)
		}
	}
}

// query decides whether PC and c is satisfiable; on sat returns the assignment for the slice.
func (p *Path) query(c *Term) *qres {
	if c.op == OpConst {
		if c.k != 0 {
			return &qres{sat: 1}
		}
		return &qres{sat: 0}
	}
	seen := map[*group]bool{}
	seenV := map[uint32]bool{}
	seenD := map[*digDef]bool{}
	var cs []*Term
	var vars []uint32
	var visit func(v uint32)
	visit = func(v uint32) {
		if d := p.digOf[v]; d != nil && !d.inUse && !seenD[d] {
			seenD[d] = true
			cs = append(cs, d.c)
			for _, x := range d.c.vars.v {
				visit(x)
			}
		}
		g := p.vgroup[v]
		if g == nil {
			if !seenV[v] {
				seenV[v] = true
				vars = append(vars, v)
			}
			return
		}
		if !seen[g] {
			seen[g] = true
			cs = append(cs, g.cs...)
			vars = append(vars, g.vars...)
		}
	}
	for _, v := range c.vars.v {
		visit(v)
	}
	cs = append(cs, c)
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	r := p.w.sv.Check(cs, vars)
	if r.sat < 0 {
		p.note("solver gave no answer")
	}
	return r
}

func (p *Path) note(s string) {
	for _, x := range p.incompl {
		if x == s {
			return
		}
	}
	p.incompl = append(p.incompl, s)
}

func (p *Path) adopt(r *qres) {
	if len(r.vars) == 0 {
		return
	}
	m := &Model{v: make([]uint64, len(p.model.v))}
	copy(m.v, p.model.v)
	for i, v := range r.vars {
		m.v[v] = r.vals[i]
	}
	p.tt().gen++
	m.gen = p.tt().gen
	p.model = m
	p.redigit()
}

// redigit recomputes the digits that follow from the values the model now has.
func (p *Path) redigit() {
	for _, d := range p.digDefs {
		if d.inUse {
			continue
		}
		x := p.eval(d.v)
		m := &Model{v: append([]uint64(nil), p.model.v...)}
		n := 0
		for _, v := range d.vars {
			k := x % 10
			x /= 10
			if p.tt().vars[v].hi == 8 {
				k--
			}
			if m.v[v] != k {
				m.v[v] = k
				n++
			}
		}
		if n > 0 {
			p.tt().gen++
			m.gen = p.tt().gen
			p.model = m
		}
	}
}

func (p *Path) eval(t *Term) uint64 {
	// the model grows when variables appear; memoised values stay valid because new variables
	// cannot occur in old terms of this path
	return p.tt().Eval(t, p.model)
}

// seedWith is the current model, overridden by r, by variable name.
func (p *Path) seedWith(r *qres) map[string]uint64 {
	s := make(map[string]uint64, len(p.usedVar))
	for i := range p.usedVar {
		if v := p.model.v[i]; v != 0 {
			s[p.tt().vars[i].name] = v
		}
	}
	if r != nil {
		for i, v := range r.vars {
			s[p.tt().vars[v].name] = r.vals[i]
		}
	}
	return s
}

func (p *Path) push(d Decision, seed map[string]uint64) {
	pre := make([]Decision, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = d
	p.w.run.push(&Job{h: p.job.h, prefix: pre, seed: seed, depth: p.job.depth + 1})
}

func (p *Path) replaying() bool { return p.pos < len(p.job.prefix) }

func (p *Path) take(kind byte) Decision {
	d := p.job.prefix[p.pos]
	if d.kind != kind {
		panic(engErr("replay divergence at decision %d: recorded %c, now %c", p.pos, d.kind, kind))
	}
	p.pos++
	p.dec = append(p.dec, d)
	return d
}

func (p *Path) branch(c *Term) bool {
	if c.op == OpConst {
		return c.k != 0
	}
	if p.pc[c] {
		return true
	}
	n := p.tt().BNot(c)
	if p.pc[n] {
		return false
	}
	if p.replaying() {
		d := p.take('b')
		if d.fork {
			if d.out {
				p.addPC(c)
			} else {
				p.addPC(n)
			}
		}
		return d.out
	}
	return p.fork2(c, n, 'b', 0)
}

func (p *Path) fork2(c, n *Term, kind byte, val uint64) bool {
	out := p.eval(c) != 0
	mine, other := c, n
	if !out {
		mine, other = n, c
	}
	r := p.query(other)
	d := Decision{kind: kind, out: out, val: val}
	if r.sat == 1 {
		d.fork = true
		p.w.nForks++
		p.push(Decision{kind: kind, out: !out, fork: true, val: val}, p.seedWith(r))
		p.addPC(mine)
	} else {
		p.w.nForced++
	}
	p.dec = append(p.dec, d)
	p.pos = len(p.dec)
	return out
}

// concretise picks a value for t, forking over all feasible ones.
func (p *Path) concretise(t *Term, limit int) uint64 {
	if t.op == OpConst {
		return t.k
	}
	for n := 0; ; n++ {
		if n > limit {
			panic(pathEnd{"limit", "more than " + fmt.Sprint(limit) + " values for a concretised term"})
		}
		if p.replaying() {
			d := p.take('v')
			c := p.tt().Eq(t, C(t.w, d.val))
			if d.fork {
				if d.out {
					p.addPC(c)
				} else {
					p.addPC(p.tt().BNot(c))
				}
			}
			if d.out {
				return d.val
			}
			continue
		}
		v := p.eval(t)
		c := p.tt().Eq(t, C(t.w, v))
		if c.op == OpConst {
			return v
		}
		if p.fork2(c, p.tt().BNot(c), 'v', v) {
			return v
		}
	}
}

// choose forks over 0..n-1.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		return int(p.take('c').val)
	}
	seed := p.seedWith(nil)
	for i := n - 1; i >= 1; i-- {
		p.push(Decision{kind: 'c', val: uint64(i), fork: true}, seed)
	}
	p.w.nForks += n - 1
	p.dec = append(p.dec, Decision{kind: 'c', val: 0, fork: true})
	p.pos = len(p.dec)
	return 0
}

func (p *Path) assume(c *Term) {
	if c.op == OpConst {
		if c.k == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if p.eval(c) == 0 {
		r := p.query(c)
		if r.sat != 1 {
			panic(pathEnd{"infeasible", ""})
		}
		p.adopt(r)
	}
	p.addPC(c)
}

func (p *Path) assertT(c *Term, label string, detail func() string) {
	p.reached[label] = true
	if p.replaying() {
		// discharged (or reported) when the prefix was first explored
		if c.op != OpConst {
			d := p.take('a')
			if d.fork {
				p.addPC(c)
			}
		}
		return
	}
	p.nAssert++
	p.asserted[label]++
	if c.op == OpConst {
		p.w.nTrivial++
		if c.k == 0 {
			p.violate("assert", label, detail())
			panic(pathEnd{"fail", label})
		}
		return
	}
	n := p.tt().BNot(c)
	r := p.query(n)
	p.w.nAssertQ++
	if r.sat == 1 {
		save := p.model
		p.adopt(r)
		p.violate("assert", label, detail())
		p.model = save
		q := p.query(c)
		if q.sat != 1 {
			panic(pathEnd{"fail", label})
		}
		if p.eval(c) == 0 {
			p.adopt(q)
		}
		p.addPC(c)
		p.dec = append(p.dec, Decision{kind: 'a', fork: true})
	} else {
		p.dec = append(p.dec, Decision{kind: 'a'})
	}
	p.pos = len(p.dec)
}

func (p *Path) violate(kind, label, detail string) {
	p.viol = append(p.viol, &Violation{Harness: p.job.h.name, Label: label, Detail: detail, kind: kind, Witness: p.witness(label, detail)})
}

func (p *Path) witness(label, detail string) *Witness {
	w := &Witness{Prop: p.job.h.prop, Harness: p.job.h.name, Label: label, Detail: detail, Tier: p.w.run.tier, Sched: append([]int(nil), p.sched...), Trace: append([]string(nil), p.trace...)}
	if p.explored {
		w.Gates = append([]string(nil), p.gatelog...)
	}
	w.MapOrder = p.mapFork
	for _, in := range p.inputs {
		x := Input{Name: in.name}
		for _, t := range in.terms {
			x.Vals = append(x.Vals, p.eval(t))
		}
		w.Inputs = append(w.Inputs, x)
	}
	return w
}

func (p *Path) evalObs() []string {
	var out []string
	for _, o := range p.obs {
		out = append(out, o.name+"="+p.render(o.val))
	}
	return out
}

// render evaluates a value under the current model.
func (p *Path) render(v Value) string {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return fmt.Sprint(p.eval(v) != 0)
		}
		return fmt.Sprint(p.eval(v))
	case Str:
		b := make([]byte, v.Len())
		for i := range b {
			b[i] = byte(p.eval(v.At(i)))
		}
		return fmt.Sprintf("%x", b)
	case Slice:
		var sb strings.Builder
		for _, x := range v {
			fmt.Fprintf(&sb, "%02x", p.eval(x.(*Term)))
		}
		return sb.String()
	}
	return fmt.Sprintf("%T", v)
}

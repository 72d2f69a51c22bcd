package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Bit-vector and boolean terms. Width 0 means boolean. Widths go up to 64.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpLin // sum of coefs[i]*args[i] + k  (mod 2^w)
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot // bitwise
	OpShl
	OpLShr
	OpAShr
	OpConcat  // args msb first
	OpExtract // k = lo bit; width w
	OpSExt
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
)

type Term struct {
	op    Op
	w     uint8
	k     uint64 // const value, extract lo, Lin constant, var index
	args  []*Term
	coefs []uint64
	id    uint32
	lo    uint64
	hi    uint64
	gen   uint32 // eval memo generation
	val   uint64
	ast   uintptr // z3 ast in the owner's context
	vars  *varset
	name  string
}

// varset: sorted ids of the variables of a term (shared, immutable).
type varset struct{ v []uint32 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

var (
	smallConst [65][]*Term
	True       = &Term{op: OpConst, w: 0, k: 1, lo: 1, hi: 1}
	False      = &Term{op: OpConst, w: 0, k: 0}
)

func init() {
	for _, w := range []uint8{8, 16, 32, 64} {
		n := 256
		if w == 64 {
			n = 4096
		}
		a := make([]*Term, n)
		for i := range a {
			a[i] = &Term{op: OpConst, w: w, k: uint64(i), lo: uint64(i), hi: uint64(i)}
		}
		smallConst[w] = a
	}
}

// C makes a constant of width w.
func C(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return True
		}
		return False
	}
	v &= mask(w)
	if s := smallConst[w]; v < uint64(len(s)) {
		return s[v]
	}
	return &Term{op: OpConst, w: w, k: v, lo: v, hi: v}
}

func CB(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// TT is a hash-consing term table (one per worker).
type TT struct {
	tab    map[uint64][]*Term
	next   uint32
	gen    uint32
	nvars  uint32
	vars   []*Term // by var index
	byName map[string]*Term
}

func newTT() *TT {
	return &TT{tab: make(map[uint64][]*Term), next: 1, byName: make(map[string]*Term)}
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OpConst && b.op == OpConst && a.w == b.w && a.k == b.k
}

func hashMix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func (tt *TT) mk(op Op, w uint8, k uint64, args []*Term, coefs []uint64) *Term {
	h := hashMix(uint64(op)<<8|uint64(w), k)
	for _, a := range args {
		if a.op == OpConst {
			h = hashMix(h, a.k^0x5555)
		} else {
			h = hashMix(h, uint64(a.id)<<1)
		}
	}
	for _, c := range coefs {
		h = hashMix(h, c)
	}
next:
	for _, t := range tt.tab[h] {
		if t.op != op || t.w != w || t.k != k || len(t.args) != len(args) || len(t.coefs) != len(coefs) {
			continue
		}
		for i := range args {
			if !same(t.args[i], args[i]) {
				continue next
			}
		}
		for i := range coefs {
			if t.coefs[i] != coefs[i] {
				continue next
			}
		}
		return t
	}
	t := &Term{op: op, w: w, k: k, args: args, coefs: coefs, id: tt.next}
	tt.next++
	t.lo, t.hi = 0, mask(w)
	tt.interval(t)
	t.vars = unionVars(args)
	tt.tab[h] = append(tt.tab[h], t)
	return t
}

func unionVars(args []*Term) *varset {
	var res *varset
	for _, a := range args {
		if a.vars == nil || a.vars == res {
			continue
		}
		if res == nil {
			res = a.vars
			continue
		}
		// merge
		x, y := res.v, a.vars.v
		if len(x) > len(y) {
			if subset(y, x) {
				continue
			}
		} else if subset(x, y) {
			res = a.vars
			continue
		}
		out := make([]uint32, 0, len(x)+len(y))
		i, j := 0, 0
		for i < len(x) || j < len(y) {
			switch {
			case j >= len(y) || (i < len(x) && x[i] < y[j]):
				out = append(out, x[i])
				i++
			case i >= len(x) || y[j] < x[i]:
				out = append(out, y[j])
				j++
			default:
				out = append(out, x[i])
				i++
				j++
			}
		}
		res = &varset{out}
	}
	return res
}

func subset(small, big []uint32) bool {
	j := 0
	for _, v := range small {
		for j < len(big) && big[j] < v {
			j++
		}
		if j >= len(big) || big[j] != v {
			return false
		}
	}
	return true
}

// Var makes (or returns) the variable called name, with values in [0,max].
func (tt *TT) Var(name string, w uint8, max uint64) *Term {
	key := fmt.Sprintf("%s:%d:%x", name, w, max)
	if t, ok := tt.byName[key]; ok {
		return t
	}
	t := &Term{op: OpVar, w: w, k: uint64(tt.nvars), id: tt.next, name: key}
	tt.next++
	t.lo, t.hi = 0, max&mask(w)
	t.vars = &varset{[]uint32{tt.nvars}}
	tt.nvars++
	tt.vars = append(tt.vars, t)
	tt.byName[key] = t
	return t
}

func (tt *TT) interval(t *Term) {
	m := mask(t.w)
	switch t.op {
	case OpLin:
		lo, hi := t.k, t.k
		ok := true
		for i, a := range t.args {
			c := t.coefs[i]
			h1, l1 := bits.Mul64(c, a.hi)
			h2, l2 := bits.Mul64(c, a.lo)
			if h1 != 0 || h2 != 0 {
				ok = false
				break
			}
			var cr uint64
			hi, cr = bits.Add64(hi, l1, 0)
			if cr != 0 || hi > m {
				ok = false
				break
			}
			lo, cr = bits.Add64(lo, l2, 0)
			if cr != 0 {
				ok = false
				break
			}
		}
		if ok && lo <= hi && hi <= m {
			t.lo, t.hi = lo, hi
			return
		}
		// x + k with negative k and x >= -k
		if len(t.args) == 1 && t.coefs[0] == 1 {
			nk := (-t.k) & m
			if t.args[0].lo >= nk {
				t.lo, t.hi = t.args[0].lo-nk, t.args[0].hi-nk
			}
		} else {
			// general: constant negative, sum of positives bounded below by it
			lo, hi = 0, 0
			for i, a := range t.args {
				h1, l1 := bits.Mul64(t.coefs[i], a.hi)
				if h1 != 0 {
					return
				}
				var cr uint64
				hi, cr = bits.Add64(hi, l1, 0)
				if cr != 0 || hi > m {
					return
				}
				lo += t.coefs[i] * a.lo
			}
			nk := (-t.k) & m
			if lo >= nk {
				t.lo, t.hi = lo-nk, hi-nk
			}
		}
	case OpMul:
		h1, l1 := bits.Mul64(t.args[0].hi, t.args[1].hi)
		if h1 == 0 && l1 <= m {
			t.lo, t.hi = t.args[0].lo*t.args[1].lo, l1
		}
	case OpUDiv:
		if t.args[1].lo > 0 {
			t.lo, t.hi = t.args[0].lo/t.args[1].hi, t.args[0].hi/t.args[1].lo
		}
	case OpURem:
		if t.args[1].lo > 0 {
			t.hi = t.args[1].hi - 1
			if t.args[0].hi < t.hi {
				t.hi = t.args[0].hi
			}
		}
	case OpAnd:
		t.hi = t.args[0].hi
		if t.args[1].hi < t.hi {
			t.hi = t.args[1].hi
		}
	case OpOr:
		h := t.args[0].hi | t.args[1].hi
		t.hi = (uint64(1) << uint(bits.Len64(h))) - 1
		if bits.Len64(h) == 64 {
			t.hi = ^uint64(0)
		}
		t.lo = t.args[0].lo
		if t.args[1].lo > t.lo {
			t.lo = t.args[1].lo
		}
	case OpXor:
		h := t.args[0].hi | t.args[1].hi
		if bits.Len64(h) < 64 {
			t.hi = (uint64(1) << uint(bits.Len64(h))) - 1
		}
	case OpConcat:
		var lo, hi uint64
		for _, a := range t.args {
			if a.w == 64 {
				lo, hi = a.lo, a.hi
				continue
			}
			lo = lo<<a.w | a.lo
			hi = hi<<a.w | a.hi
		}
		t.lo, t.hi = lo, hi
	case OpExtract:
		a := t.args[0]
		l, h := a.lo>>t.k, a.hi>>t.k
		if h <= m {
			t.lo, t.hi = l, h
		}
	case OpLShr:
		if t.args[1].lo < 64 {
			t.hi = t.args[0].hi >> t.args[1].lo
		} else {
			t.hi = 0
		}
	case OpIte:
		a, b := t.args[1], t.args[2]
		t.lo, t.hi = a.lo, a.hi
		if b.lo < t.lo {
			t.lo = b.lo
		}
		if b.hi > t.hi {
			t.hi = b.hi
		}
	}
}

// ---- constructors

func (tt *TT) Add(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return C(a.w, a.k+b.k)
	}
	if a.op == OpConst && a.k == 0 {
		return b
	}
	if b.op == OpConst && b.k == 0 {
		return a
	}
	return tt.lin(a, 1, b, 1)
}

func (tt *TT) Sub(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return C(a.w, a.k-b.k)
	}
	if b.op == OpConst && b.k == 0 {
		return a
	}
	if a == b {
		return C(a.w, 0)
	}
	return tt.lin(a, 1, b, ^uint64(0))
}

func (tt *TT) Neg(a *Term) *Term {
	if a.op == OpConst {
		return C(a.w, -a.k)
	}
	return tt.lin(a, ^uint64(0), C(a.w, 0), 0)
}

type lpart struct {
	c uint64
	t *Term
}

func (tt *TT) lin(a *Term, ca uint64, b *Term, cb uint64) *Term {
	w := a.w
	m := mask(w)
	var k uint64
	parts := make([]lpart, 0, len(a.args)+len(b.args)+2)
	add := func(t *Term, c uint64) {
		switch t.op {
		case OpConst:
			k += c * t.k
		case OpLin:
			k += c * t.k
			for i, x := range t.args {
				parts = append(parts, lpart{(c * t.coefs[i]) & m, x})
			}
		default:
			parts = append(parts, lpart{c & m, t})
		}
	}
	add(a, ca)
	add(b, cb)
	k &= m
	return tt.mkLin(w, k, parts)
}

func (tt *TT) mkLin(w uint8, k uint64, parts []lpart) *Term {
	m := mask(w)
	if len(parts) > 1 {
		sort.Slice(parts, func(i, j int) bool { return parts[i].t.id < parts[j].t.id })
	}
	out := parts[:0]
	for _, p := range parts {
		if n := len(out); n > 0 && out[n-1].t == p.t {
			out[n-1].c = (out[n-1].c + p.c) & m
			continue
		}
		out = append(out, p)
	}
	args := make([]*Term, 0, len(out))
	coefs := make([]uint64, 0, len(out))
	for _, p := range out {
		if p.c != 0 {
			args = append(args, p.t)
			coefs = append(coefs, p.c)
		}
	}
	if len(args) == 0 {
		return C(w, k)
	}
	if len(args) == 1 && coefs[0] == 1 && k == 0 {
		return args[0]
	}
	return tt.mk(OpLin, w, k, args, coefs)
}

func (tt *TT) Mul(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return C(a.w, a.k*b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		return tt.lin(a, b.k, C(a.w, 0), 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpMul, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) UDiv(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.k != 0 {
		return C(a.w, a.k/b.k)
	}
	if b.op == OpConst && b.k != 0 {
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return tt.LShr(a, C(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if a.hi < b.k {
			return C(a.w, 0)
		}
	}
	return tt.mk(OpUDiv, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) URem(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.k != 0 {
		return C(a.w, a.k%b.k)
	}
	if b.op == OpConst && b.k != 0 {
		if b.k&(b.k-1) == 0 {
			return tt.And(a, C(a.w, b.k-1))
		}
		if a.hi < b.k {
			return a
		}
	}
	return tt.mk(OpURem, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) nonneg(a *Term) bool { return a.hi <= mask(a.w)>>1 }

func (tt *TT) SDiv(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return C(a.w, uint64(-x))
		}
		return C(a.w, uint64(x/y))
	}
	if tt.nonneg(a) && tt.nonneg(b) {
		return tt.UDiv(a, b)
	}
	return tt.mk(OpSDiv, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) SRem(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.k != 0 {
		x, y := sext64(a.k, a.w), sext64(b.k, b.w)
		if y == -1 {
			return C(a.w, 0)
		}
		return C(a.w, uint64(x%y))
	}
	if tt.nonneg(a) && tt.nonneg(b) {
		return tt.URem(a, b)
	}
	return tt.mk(OpSRem, a.w, 0, []*Term{a, b}, nil)
}

// Not is bitwise complement.
func (tt *TT) Not(a *Term) *Term {
	if a.op == OpConst {
		return C(a.w, ^a.k)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return tt.mk(OpNot, a.w, 0, []*Term{a}, nil)
}

func (tt *TT) And(a, b *Term) *Term {
	if a.w == 0 {
		return tt.BAnd(a, b)
	}
	if a.op == OpConst && b.op == OpConst {
		return C(a.w, a.k&b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OpConst {
		k := b.k
		if k == 0 {
			return b
		}
		if k == mask(a.w) {
			return a
		}
		// contiguous run of ones: extract and shift
		tz := uint8(bits.TrailingZeros64(k))
		run := k >> tz
		if run&(run+1) == 0 {
			n := uint8(bits.Len64(run))
			if tz == 0 && a.hi <= run {
				return a
			}
			parts := make([]*Term, 0, 3)
			if a.w > n+tz {
				parts = append(parts, C(a.w-n-tz, 0))
			}
			parts = append(parts, tt.Extract(a, tz, n))
			if tz > 0 {
				parts = append(parts, C(tz, 0))
			}
			return tt.Concat(parts...)
		}
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return tt.mk(OpAnd, a.w, 0, []*Term{a, b}, nil)
}

func lanes(t *Term) []*Term {
	if t.op == OpConcat {
		return t.args
	}
	return []*Term{t}
}

// mergeDisjoint: try to express a|b (a,b never both non-zero in a bit) as a concat.
func (tt *TT) mergeDisjoint(a, b *Term) *Term {
	if a.op != OpConcat && b.op != OpConcat {
		return nil
	}
	la, lb := lanes(a), lanes(b)
	if a.op == OpConst {
		la = []*Term{a}
	}
	// split both on the union of the boundaries
	bound := func(l []*Term) map[uint8]bool {
		m := map[uint8]bool{}
		pos := uint8(0)
		for i := len(l) - 1; i >= 0; i-- {
			pos += l[i].w
			m[pos] = true
		}
		return m
	}
	ba, bb := bound(la), bound(lb)
	for k := range bb {
		ba[k] = true
	}
	var cuts []int
	for k := range ba {
		cuts = append(cuts, int(k))
	}
	sort.Ints(cuts)
	var parts []*Term
	prev := 0
	for _, c := range cuts {
		w := uint8(c - prev)
		x, y := tt.Extract(a, uint8(prev), w), tt.Extract(b, uint8(prev), w)
		switch {
		case x.op == OpConst && x.k == 0:
			parts = append(parts, y)
		case y.op == OpConst && y.k == 0:
			parts = append(parts, x)
		case x.op == OpConst && y.op == OpConst:
			parts = append(parts, C(w, x.k|y.k))
		default:
			return nil
		}
		prev = c
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return tt.Concat(parts...)
}

func (tt *TT) Or(a, b *Term) *Term {
	if a.w == 0 {
		return tt.BOr(a, b)
	}
	if a.op == OpConst && b.op == OpConst {
		return C(a.w, a.k|b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OpConst {
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
	}
	if m := tt.mergeDisjoint(a, b); m != nil {
		return m
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return tt.mk(OpOr, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) Xor(a, b *Term) *Term {
	if a.w == 0 {
		return tt.BNot(tt.Eq(a, b))
	}
	if a.op == OpConst && b.op == OpConst {
		return C(a.w, a.k^b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a == b {
		return C(a.w, 0)
	}
	if b.op == OpConst {
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return tt.Not(a)
		}
	}
	if m := tt.mergeDisjoint(a, b); m != nil && b.op != OpConst {
		return m
	}
	if a.id > b.id && b.op != OpConst {
		a, b = b, a
	}
	return tt.mk(OpXor, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) AndNot(a, b *Term) *Term { return tt.And(a, tt.Not(b)) }

// Shl, LShr, AShr: Go semantics for the count (unsigned, any size) given b already of width a.w
// or resized by the caller; counts >= w give 0 (or the sign).
func (tt *TT) Shl(a, b *Term) *Term {
	if b.op == OpConst {
		if b.k >= uint64(a.w) {
			return C(a.w, 0)
		}
		if a.op == OpConst {
			return C(a.w, a.k<<b.k)
		}
		if b.k == 0 {
			return a
		}
		n := uint8(b.k)
		if a.op == OpLin {
			return tt.lin(a, uint64(1)<<n, C(a.w, 0), 0)
		}
		return tt.Concat(tt.Extract(a, 0, a.w-n), C(n, 0))
	}
	return tt.mk(OpShl, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) LShr(a, b *Term) *Term {
	if b.op == OpConst {
		if b.k >= uint64(a.w) {
			return C(a.w, 0)
		}
		if a.op == OpConst {
			return C(a.w, a.k>>b.k)
		}
		if b.k == 0 {
			return a
		}
		n := uint8(b.k)
		return tt.Concat(C(n, 0), tt.Extract(a, n, a.w-n))
	}
	return tt.mk(OpLShr, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) AShr(a, b *Term) *Term {
	if b.op == OpConst {
		n := b.k
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if a.op == OpConst {
			return C(a.w, uint64(sext64(a.k, a.w)>>n))
		}
		if n == 0 {
			return a
		}
		if tt.nonneg(a) {
			return tt.LShr(a, C(a.w, n))
		}
		return tt.SExt(tt.Extract(a, uint8(n), a.w-uint8(n)), a.w)
	}
	return tt.mk(OpAShr, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) Concat(parts ...*Term) *Term {
	out := make([]*Term, 0, len(parts))
	var push func(p *Term)
	push = func(p *Term) {
		if p.w == 0 {
			return
		}
		if p.op == OpConcat {
			for _, x := range p.args {
				push(x)
			}
			return
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.op == OpConst && p.op == OpConst {
				out[n-1] = C(q.w+p.w, q.k<<p.w|p.k)
				return
			}
			if q.op == OpExtract && p.op == OpExtract && q.args[0] == p.args[0] && q.k == p.k+uint64(p.w) {
				out[n-1] = tt.Extract(q.args[0], uint8(p.k), q.w+p.w)
				return
			}
			// zext with the upper part known zero: Concat(0, Extract(x,lo..)) is left alone
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	var w uint8
	for _, p := range out {
		w += p.w
	}
	// Concat(0^n, Extract(x, 0, m)) where x has width n+m and hi(x) < 2^m  ==> x
	if len(out) == 2 && out[0].op == OpConst && out[0].k == 0 && out[1].op == OpExtract && out[1].k == 0 {
		x := out[1].args[0]
		if x.w == w && x.hi <= mask(out[1].w) {
			return x
		}
		if x.w < w && x.hi <= mask(out[1].w) {
			return tt.ZExt(x, w)
		}
		if x.w > w && x.hi <= mask(out[1].w) {
			return tt.Extract(x, 0, w)
		}
	}
	return tt.mk(OpConcat, w, 0, out, nil)
}

func (tt *TT) Extract(a *Term, lo, w uint8) *Term {
	if w == a.w && lo == 0 {
		return a
	}
	switch a.op {
	case OpConst:
		return C(w, a.k>>lo)
	case OpExtract:
		return tt.Extract(a.args[0], lo+uint8(a.k), w)
	case OpConcat:
		var parts []*Term
		pos := a.w
		for _, p := range a.args {
			pos -= p.w // p occupies [pos, pos+p.w)
			l, h := pos, pos+p.w
			if h <= lo || l >= lo+w {
				continue
			}
			from, to := l, h
			if from < lo {
				from = lo
			}
			if to > lo+w {
				to = lo + w
			}
			parts = append(parts, tt.Extract(p, from-l, to-from))
		}
		return tt.Concat(parts...)
	case OpSExt:
		x := a.args[0]
		if lo+w <= x.w {
			return tt.Extract(x, lo, w)
		}
		if lo == 0 {
			return tt.SExt(x, w)
		}
	case OpAnd, OpOr, OpXor:
		x, y := tt.Extract(a.args[0], lo, w), tt.Extract(a.args[1], lo, w)
		switch a.op {
		case OpAnd:
			return tt.And(x, y)
		case OpOr:
			return tt.Or(x, y)
		default:
			return tt.Xor(x, y)
		}
	case OpNot:
		return tt.Not(tt.Extract(a.args[0], lo, w))
	case OpIte:
		if a.args[1].op == OpConst || a.args[2].op == OpConst {
			return tt.Ite(a.args[0], tt.Extract(a.args[1], lo, w), tt.Extract(a.args[2], lo, w))
		}
	case OpLin:
		if lo == 0 && a.hi <= mask(w) {
			parts := make([]lpart, len(a.args))
			for i, x := range a.args {
				parts[i] = lpart{a.coefs[i] & mask(w), tt.Extract(x, 0, w)}
			}
			for _, p := range parts {
				if p.t.op == OpConst || p.t.op == OpLin {
					goto plain
				}
			}
			return tt.mkLin(w, a.k&mask(w), parts)
		}
	}
plain:
	if a.hi>>lo == 0 && lo > 0 {
		return C(w, 0)
	}
	if lo > 0 && a.hi <= mask(lo) {
		return C(w, 0)
	}
	return tt.mk(OpExtract, w, uint64(lo), []*Term{a}, nil)
}

func (tt *TT) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return C(w, a.k)
	}
	if a.op == OpLin && tt.noWrap(a) {
		// push inside so that decimal folding stays linear
		parts := make([]lpart, len(a.args))
		ok := true
		for i, x := range a.args {
			z := tt.ZExt(x, w)
			if z.op == OpConst || z.op == OpLin {
				ok = false
				break
			}
			parts[i] = lpart{a.coefs[i], z}
		}
		if ok {
			return tt.mkLin(w, a.k, parts)
		}
	}
	return tt.Concat(C(w-a.w, 0), a)
}

// noWrap: the Lin term's exact integer value (non-negative coefs and constant) fits its width.
func (tt *TT) noWrap(t *Term) bool {
	m := mask(t.w)
	hi := t.k
	for i, a := range t.args {
		h, l := bits.Mul64(t.coefs[i], a.hi)
		if h != 0 {
			return false
		}
		var c uint64
		hi, c = bits.Add64(hi, l, 0)
		if c != 0 || hi > m {
			return false
		}
	}
	return hi <= m
}

func (tt *TT) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return C(w, uint64(sext64(a.k, a.w)))
	}
	if tt.nonneg(a) {
		return tt.ZExt(a, w)
	}
	if a.op == OpSExt {
		return tt.SExt(a.args[0], w)
	}
	return tt.mk(OpSExt, w, 0, []*Term{a}, nil)
}

func (tt *TT) Ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		return tt.BOr(tt.BAnd(c, a), tt.BAnd(tt.BNot(c), b))
	}
	if c.op == OpBNot {
		return tt.Ite(c.args[0], b, a)
	}
	return tt.mk(OpIte, a.w, 0, []*Term{c, a, b}, nil)
}

func (tt *TT) BNot(a *Term) *Term {
	switch a.op {
	case OpConst:
		return CB(a.k == 0)
	case OpBNot:
		return a.args[0]
	case OpUlt:
		return tt.Ule(a.args[1], a.args[0])
	case OpUle:
		return tt.Ult(a.args[1], a.args[0])
	case OpSlt:
		return tt.Sle(a.args[1], a.args[0])
	case OpSle:
		return tt.Slt(a.args[1], a.args[0])
	}
	return tt.mk(OpBNot, 0, 0, []*Term{a}, nil)
}

func (tt *TT) BAnd(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == tt.BNot(b) {
		return False
	}
	// flatten
	var l []*Term
	l = append(l, andArgs(a)...)
	l = append(l, andArgs(b)...)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	out := l[:0]
	for i, x := range l {
		if i > 0 && x == out[len(out)-1] {
			continue
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk(OpBAnd, 0, 0, out, nil)
}

// BAndN is the conjunction of a list.
func (tt *TT) BAndN(ts []*Term) *Term {
	var l []*Term
	for _, t := range ts {
		if t.op == OpConst {
			if t.k == 0 {
				return False
			}
			continue
		}
		l = append(l, andArgs(t)...)
	}
	if len(l) == 0 {
		return True
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	out := l[:0]
	for i, x := range l {
		if i > 0 && x == out[len(out)-1] {
			continue
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk(OpBAnd, 0, 0, out, nil)
}

func andArgs(a *Term) []*Term {
	if a.op == OpBAnd {
		return a.args
	}
	return []*Term{a}
}

func orArgs(a *Term) []*Term {
	if a.op == OpBOr {
		return a.args
	}
	return []*Term{a}
}

func (tt *TT) BOr(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.op == OpConst {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == tt.BNot(b) {
		return True
	}
	var l []*Term
	l = append(l, orArgs(a)...)
	l = append(l, orArgs(b)...)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	out := l[:0]
	for i, x := range l {
		if i > 0 && x == out[len(out)-1] {
			continue
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk(OpBOr, 0, 0, out, nil)
}

func (tt *TT) Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == OpConst && b.op == OpConst {
		return CB(a.k == b.k)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return False
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OpConst {
			if b.k != 0 {
				return a
			}
			return tt.BNot(a)
		}
		if a == tt.BNot(b) {
			return False
		}
	} else {
		if a.op == OpConcat || b.op == OpConcat {
			// same partition (or constant): conjunction of lane equalities
			if a.op != OpConcat {
				a, b = b, a
			}
			if b.op == OpConst {
				res := True
				pos := a.w
				for _, p := range a.args {
					pos -= p.w
					res = tt.BAnd(res, tt.Eq(p, C(p.w, b.k>>pos)))
				}
				return res
			}
			if b.op == OpConcat && len(a.args) == len(b.args) {
				ok := true
				for i := range a.args {
					if a.args[i].w != b.args[i].w {
						ok = false
						break
					}
				}
				if ok {
					res := True
					for i := range a.args {
						res = tt.BAnd(res, tt.Eq(a.args[i], b.args[i]))
					}
					return res
				}
			}
		}
		if a.op == OpIte {
			if b.op == OpConst {
				x, y := tt.Eq(a.args[1], b), tt.Eq(a.args[2], b)
				if x.op == OpConst || y.op == OpConst {
					return tt.Ite(a.args[0], x, y)
				}
			}
		}
		if a.op == OpLin && b.op == OpConst && len(a.args) == 1 {
			// c*x + k == v
			if a.coefs[0] == 1 {
				return tt.Eq(a.args[0], C(a.w, b.k-a.k))
			}
			if a.coefs[0] == mask(a.w) { // -x + k == v
				return tt.Eq(a.args[0], C(a.w, a.k-b.k))
			}
		}
		if a.op == OpLin && b.op == OpLin {
			d := tt.Sub(a, b)
			if d.op == OpConst {
				return CB(d.k == 0)
			}
		}
		if b.op == OpConst && (a.op == OpNot) {
			return tt.Eq(a.args[0], C(a.w, ^b.k))
		}
		if b.op == OpConst && (a.op == OpXor) && a.args[1].op == OpConst {
			return tt.Eq(a.args[0], C(a.w, b.k^a.args[1].k))
		}
		if b.op == OpConst && a.op == OpSExt {
			x := a.args[0]
			if uint64(sext64(b.k, x.w))&mask(a.w) == b.k {
				return tt.Eq(x, C(x.w, b.k))
			}
			return False
		}
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, 0, []*Term{a, b}, nil)
}

func (tt *TT) Ult(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.hi < b.lo {
		return True
	}
	if a.lo >= b.hi {
		return False
	}
	if x, y, ok := tt.narrow(a, b); ok {
		return tt.Ult(x, y)
	}
	// x+k < const with no wrap
	if b.op == OpConst && b.k == 1 {
		return tt.Eq(a, C(a.w, 0))
	}
	if a.op == OpConst && a.k == 0 {
		return tt.BNot(tt.Eq(b, a))
	}
	return tt.mk(OpUlt, 0, 0, []*Term{a, b}, nil)
}

func (tt *TT) Ule(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.hi <= b.lo {
		return True
	}
	if a.lo > b.hi {
		return False
	}
	if x, y, ok := tt.narrow(a, b); ok {
		return tt.Ule(x, y)
	}
	if b.op == OpConst && b.k == 0 {
		return tt.Eq(a, b)
	}
	if b.op == OpConst { // a <= k  ==> a < k+1
		return tt.Ult(a, C(b.w, b.k+1))
	}
	if a.op == OpConst && a.k > 0 { // k <= b ==> k-1 < b
		return tt.Ult(C(a.w, a.k-1), b)
	}
	return tt.mk(OpUle, 0, 0, []*Term{a, b}, nil)
}

// narrow: both operands have a common zero prefix.
func (tt *TT) narrow(a, b *Term) (*Term, *Term, bool) {
	if a.op != OpConcat && b.op != OpConcat {
		return nil, nil, false
	}
	hi := a.hi
	if b.hi > hi {
		hi = b.hi
	}
	n := uint8(bits.Len64(hi))
	if n == 0 || n >= a.w {
		return nil, nil, false
	}
	// only when it aligns with a concat zero prefix
	pre := uint8(64)
	for _, t := range []*Term{a, b} {
		if t.op == OpConcat && t.args[0].op == OpConst && t.args[0].k == 0 {
			if x := t.w - t.args[0].w; x >= n && x < pre {
				pre = x
			}
		}
	}
	if pre == 64 || pre >= a.w {
		return nil, nil, false
	}
	if a.hi > mask(pre) || b.hi > mask(pre) {
		return nil, nil, false
	}
	return tt.Extract(a, 0, pre), tt.Extract(b, 0, pre), true
}

func (tt *TT) Slt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.op == OpConst && b.op == OpConst {
		return CB(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if tt.nonneg(a) && tt.nonneg(b) {
		return tt.Ult(a, b)
	}
	if tt.nonneg(a) && tt.neg(b) {
		return False
	}
	if tt.neg(a) && tt.nonneg(b) {
		return True
	}
	return tt.mk(OpSlt, 0, 0, []*Term{a, b}, nil)
}

func (tt *TT) neg(a *Term) bool { return a.lo > mask(a.w)>>1 }

func (tt *TT) Sle(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == OpConst && b.op == OpConst {
		return CB(sext64(a.k, a.w) <= sext64(b.k, b.w))
	}
	if tt.nonneg(a) && tt.nonneg(b) {
		return tt.Ule(a, b)
	}
	if tt.nonneg(a) && tt.neg(b) {
		return False
	}
	if tt.neg(a) && tt.nonneg(b) {
		return True
	}
	return tt.mk(OpSle, 0, 0, []*Term{a, b}, nil)
}

// ---- evaluation

type Model struct {
	v   []uint64 // by var index; missing => default
	gen uint32
}

func (m *Model) get(i uint64, v *Term) uint64 {
	if i < uint64(len(m.v)) {
		return m.v[i]
	}
	return 0
}

func (tt *TT) Eval(t *Term, m *Model) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.gen == m.gen && m.gen != 0 {
		return t.val
	}
	var r uint64
	a := t.args
	switch t.op {
	case OpVar:
		r = m.get(t.k, t)
	case OpLin:
		r = t.k
		for i, x := range a {
			r += t.coefs[i] * tt.Eval(x, m)
		}
	case OpMul:
		r = tt.Eval(a[0], m) * tt.Eval(a[1], m)
	case OpUDiv:
		d := tt.Eval(a[1], m)
		if d == 0 {
			r = mask(t.w)
		} else {
			r = tt.Eval(a[0], m) / d
		}
	case OpURem:
		d := tt.Eval(a[1], m)
		if d == 0 {
			r = tt.Eval(a[0], m)
		} else {
			r = tt.Eval(a[0], m) % d
		}
	case OpSDiv, OpSRem:
		x, y := sext64(tt.Eval(a[0], m), t.w), sext64(tt.Eval(a[1], m), t.w)
		switch {
		case y == 0 && t.op == OpSRem:
			r = uint64(x)
		case y == 0:
			if x >= 0 {
				r = mask(t.w)
			} else {
				r = 1
			}
		case y == -1 && t.op == OpSDiv:
			r = uint64(-x)
		case y == -1:
			r = 0
		case t.op == OpSDiv:
			r = uint64(x / y)
		default:
			r = uint64(x % y)
		}
	case OpAnd:
		r = tt.Eval(a[0], m) & tt.Eval(a[1], m)
	case OpOr:
		r = tt.Eval(a[0], m) | tt.Eval(a[1], m)
	case OpXor:
		r = tt.Eval(a[0], m) ^ tt.Eval(a[1], m)
	case OpNot:
		r = ^tt.Eval(a[0], m)
	case OpShl:
		s := tt.Eval(a[1], m)
		if s < 64 {
			r = tt.Eval(a[0], m) << s
		}
	case OpLShr:
		s := tt.Eval(a[1], m)
		if s < 64 {
			r = tt.Eval(a[0], m) >> s
		}
	case OpAShr:
		s := tt.Eval(a[1], m)
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		r = uint64(sext64(tt.Eval(a[0], m), t.w) >> s)
	case OpConcat:
		for _, x := range a {
			if x.w < 64 {
				r = r<<x.w | tt.Eval(x, m)
			} else {
				r = tt.Eval(x, m)
			}
		}
	case OpExtract:
		r = tt.Eval(a[0], m) >> t.k
	case OpSExt:
		r = uint64(sext64(tt.Eval(a[0], m), a[0].w))
	case OpIte:
		if tt.Eval(a[0], m) != 0 {
			r = tt.Eval(a[1], m)
		} else {
			r = tt.Eval(a[2], m)
		}
	case OpEq:
		r = b2u(tt.Eval(a[0], m) == tt.Eval(a[1], m))
	case OpUlt:
		r = b2u(tt.Eval(a[0], m) < tt.Eval(a[1], m))
	case OpUle:
		r = b2u(tt.Eval(a[0], m) <= tt.Eval(a[1], m))
	case OpSlt:
		r = b2u(sext64(tt.Eval(a[0], m), a[0].w) < sext64(tt.Eval(a[1], m), a[0].w))
	case OpSle:
		r = b2u(sext64(tt.Eval(a[0], m), a[0].w) <= sext64(tt.Eval(a[1], m), a[0].w))
	case OpBAnd:
		r = 1
		for _, x := range a {
			if tt.Eval(x, m) == 0 {
				r = 0
				break
			}
		}
	case OpBOr:
		for _, x := range a {
			if tt.Eval(x, m) != 0 {
				r = 1
				break
			}
		}
	case OpBNot:
		r = 1 - tt.Eval(a[0], m)
	}
	r &= mask(t.w)
	t.gen, t.val = m.gen, r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

var opNames = map[Op]string{OpMul: "*", OpUDiv: "udiv", OpURem: "urem", OpSDiv: "sdiv", OpSRem: "srem", OpAnd: "&", OpOr: "|", OpXor: "^", OpNot: "~", OpShl: "<<", OpLShr: ">>u", OpAShr: ">>s", OpConcat: "concat", OpSExt: "sext", OpIte: "ite", OpEq: "=", OpUlt: "<u", OpUle: "<=u", OpSlt: "<s", OpSle: "<=s", OpBAnd: "and", OpBOr: "or", OpBNot: "not"}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.k != 0)
		} else {
			fmt.Fprintf(sb, "%d", t.k)
		}
		return
	case OpVar:
		sb.WriteString(strings.SplitN(t.name, ":", 2)[0])
		return
	}
	if d > 8 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case OpLin:
		fmt.Fprintf(sb, "(+ %d", t.k)
		for i, a := range t.args {
			fmt.Fprintf(sb, " %d*", t.coefs[i])
			a.str(sb, d+1)
		}
	case OpExtract:
		fmt.Fprintf(sb, "([%d:%d] ", int(t.k)+int(t.w)-1, t.k)
		t.args[0].str(sb, d+1)
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" ")
			a.str(sb, d+1)
		}
	}
	sb.WriteString(")")
}

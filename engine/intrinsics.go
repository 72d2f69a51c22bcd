package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"go/types"
	"hash/crc32"
	"math"
	"reflect"
	"strings"
)

var intrinsics = map[string]intrinsic{}

// modelFuncs maps library functions to substitutes written in Go (package verif/harness/model).
var modelFuncs = map[string]string{
	"errors.Is": "ErrorsIs",
	"errors.is": "errorsIs",
}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func nop(g *G, fi *finfo, a []Value) (Value, bool) { return zeroResults(fi.fn), true }

const epochNs = int64(1_700_000_000) * 1e9

func timeValue(ns int64) Value {
	abs := epochNs + ns
	sec := uint64(abs/1e9) + 2682288000
	return Struct{C(64, 1<<63|sec<<30|uint64(abs%1e9)), C(64, uint64(ns+1)), (*Value)(nil)}
}

func (g *G) conc(v Value) uint64 {
	t := v.(*Term)
	if t.op == OpConst {
		return t.k
	}
	return g.p.concretise(t, g.w.run.maxConc)
}

func (g *G) inRepo() bool {
	return g.top != nil && g.top.fi.repo || g.top != nil && g.top.parent != nil && g.top.parent.fi.repo && g.top.fi.fn.Synthetic != ""
}

func (g *G) libGate(what string) {
	if g.inRepo() {
		g.gate(what)
	}
}

func allConst(s []*Term) bool {
	for _, t := range s {
		if t.op != OpConst {
			return false
		}
	}
	return true
}

func sliceTerms(v Value) []*Term {
	switch v := v.(type) {
	case Str:
		return v.terms()
	case Slice:
		r := make([]*Term, len(v))
		for i, x := range v {
			r[i] = x.(*Term)
		}
		return r
	}
	panic(engErr("sliceTerms %T", v))
}

func concBytes(ts []*Term) []byte {
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.k)
	}
	return b
}

// seqAt avoids materialising long strings.
func seqLen(v Value) int {
	switch v := v.(type) {
	case Str:
		return v.Len()
	case Slice:
		return len(v)
	}
	panic(engErr("seqLen %T", v))
}

func seqAt(v Value, i int) *Term {
	switch v := v.(type) {
	case Str:
		return v.At(i)
	case Slice:
		return v[i].(*Term)
	}
	return nil
}

func fieldPtr(p Value, fi *finfo, name string) *Value {
	t := fi.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return &(*(p.(*Value))).(Struct)[i]
		}
	}
	panic(engErr("no field %s", name))
}

// digits gives the decimal digits of the unsigned 64-bit term v (most significant first),
// introducing one variable per digit with the exact defining constraint.
func (g *G) digits(v *Term) []*Term {
	p := g.p
	tt := g.w.tt
	if v.op == OpConst {
		s := []byte{}
		x := v.k
		for x >= 10 {
			s = append(s, byte('0'+x%10))
			x /= 10
		}
		s = append(s, byte('0'+x))
		r := make([]*Term, len(s))
		for i := range s {
			r[len(s)-1-i] = C(8, uint64(s[i]))
		}
		return r
	}
	if d, ok := p.digMemo[v]; ok {
		return d
	}
	n := 20
	pow := uint64(1)
	for k := 1; k < 20; k++ {
		pow *= 10
		if v.lo >= pow {
			continue
		}
		if v.hi < pow || g.branch(tt.Ult(v, C(64, pow))) {
			n = k
			break
		}
	}
	val := p.eval(v)
	ds := make([]*Term, n) // least significant first
	x := val
	type set struct {
		t *Term
		v uint64
	}
	var sets []set
	for i := 0; i < n; i++ {
		d := x % 10
		x /= 10
		switch {
		case n == 20 && i == 19:
			ds[i] = C(64, 1)
		case i == n-1 && n > 1:
			t := p.fresh("dig", 64, 8)
			sets = append(sets, set{t, d - 1})
			ds[i] = tt.Add(t, C(64, 1))
		default:
			t := p.fresh("dig", 64, 9)
			sets = append(sets, set{t, d})
			ds[i] = t
		}
	}
	for _, s := range sets {
		p.setVar(s.t, s.v)
	}
	sum := C(64, 0)
	pow = 1
	for i := 0; i < n; i++ {
		sum = tt.Add(sum, tt.Mul(ds[i], C(64, pow)))
		pow *= 10
	}
	c := tt.Eq(v, sum)
	if c.op == OpConst && c.k == 0 {
		panic(engErr("digits: contradiction"))
	}
	if n == 1 {
		// a single digit is the value itself
		r := []*Term{tt.Extract(tt.Add(v, C(64, '0')), 0, 8)}
		p.digMemo[v] = r
		p.digBack[termKey(r)] = v
		return r
	}
	// The digits are a definitional extension: they exist for every v in the range fixed above, so the
	// definition joins the path condition only once a constraint mentions them.
	def := &digDef{v: v, c: c}
	for _, s := range sets {
		def.vars = append(def.vars, uint32(s.t.k))
		p.digOf[uint32(s.t.k)] = def
	}
	p.digDefs = append(p.digDefs, def)
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		r[n-1-i] = tt.Extract(tt.Add(ds[i], C(64, '0')), 0, 8)
	}
	p.digMemo[v] = r
	p.digBack[termKey(r)] = v
	return r
}

type digDef struct {
	v     *Term
	c     *Term
	vars  []uint32
	inUse bool
}

// termKey identifies a sequence of terms.
func termKey(ts []*Term) string {
	b := make([]byte, 0, len(ts)*4)
	for _, c := range ts {
		b = append(b, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	return string(b)
}

// undigits recognises the decimal digits of a value this path has formatted.
func (g *G) undigits(s Str) *Term {
	if s.b == nil || s.Len() > 20 || s.Len() == 0 || len(g.p.digBack) == 0 {
		return nil
	}
	return g.p.digBack[termKey(s.terms())]
}

// setVar fixes the current model's value of a variable that no path constraint mentions yet.
func (p *Path) setVar(t *Term, v uint64) {
	m := &Model{v: append([]uint64(nil), p.model.v...)}
	m.v[t.k] = v
	p.tt().gen++
	m.gen = p.tt().gen
	p.model = m
}

func (g *G) decimal(v *Term, signed bool) []*Term {
	tt := g.w.tt
	if v.w < 64 {
		if signed {
			v = tt.SExt(v, 64)
		} else {
			v = tt.ZExt(v, 64)
		}
	}
	if signed && g.branch(tt.Slt(v, C(64, 0))) {
		return append([]*Term{C(8, '-')}, g.digits(tt.Neg(v))...)
	}
	return g.digits(v)
}

func termsToSlice(ts []*Term) Slice {
	r := make(Slice, len(ts))
	for i, t := range ts {
		r[i] = t
	}
	return r
}

var crcTab = crc32.MakeTable(crc32.IEEE)

// crcUpdate is the IEEE CRC-32 of symbolic bytes, computed bit-linearly: exact.
func (g *G) crcUpdate(crc *Term, data []*Term) *Term {
	tt := g.w.tt
	// bit-linear in the message: contribution of bit j of byte i is the CRC of a message with just that bit.
	if crc.op != OpConst {
		panic(engErr("crc32 with symbolic seed"))
	}
	n := len(data)
	base := make([]byte, n)
	for i, t := range data {
		if t.op == OpConst {
			base[i] = byte(t.k)
		}
	}
	c0 := crc32.Update(uint32(crc.k), crcTab, base)
	if r := tt.crcAffine(uint32(crc.k), c0, data); r != nil {
		return r
	}
	r := C(32, uint64(c0))
	for i, t := range data {
		if t.op == OpConst {
			continue
		}
		for j := 0; j < 8; j++ {
			base[i] = 1 << j
			d := crc32.Update(uint32(crc.k), crcTab, base) ^ c0
			base[i] = 0
			bit := tt.Eq(tt.Extract(t, uint8(j), 1), C(1, 1))
			r = tt.Xor(r, tt.Ite(bit, C(32, uint64(d)), C(32, 0)))
		}
	}
	return r
}

// crcAffine reduces the CRC over the variables' bits; nil if a result bit depends on more than one of them.
func (tt *TT) crcAffine(seed, c0 uint32, data []*Term) *Term {
	n := len(data)
	af := &affine{memo: map[*Term][]abits{}, ids: map[abit]int{}}
	out := make([]map[int]bool, 32)
	for i := range out {
		out[i] = map[int]bool{}
	}
	k := c0
	zero := make([]byte, n)
	z := crc32.Update(seed, crcTab, zero)
	for i, t := range data {
		if t.op == OpConst {
			continue
		}
		for j, b := range af.of(t) {
			zero[i] = 1 << j
			d := crc32.Update(seed, crcTab, zero) ^ z
			zero[i] = 0
			if b.k {
				k ^= d
			}
			for _, id := range b.ids {
				for o := 0; o < 32; o++ {
					if d>>o&1 == 1 {
						if out[o][id] {
							delete(out[o], id)
						} else {
							out[o][id] = true
						}
					}
				}
			}
		}
	}
	parts := make([]*Term, 0, 32) // msb first
	for o := 31; o >= 0; o-- {
		if len(out[o]) > 1 {
			return nil
		}
		var p *Term
		for id := range out[o] {
			b := af.bits[id]
			p = tt.Extract(b.t, uint8(b.i), 1)
		}
		if p == nil {
			p = C(1, uint64(k>>o&1))
		} else if k>>o&1 == 1 {
			p = tt.Not(p)
		}
		parts = append(parts, p)
	}
	return tt.Concat(parts...)
}

// affine: bits of terms as xors of bits of variables.
type abit struct {
	t *Term
	i int
}
type abits struct {
	k   bool
	ids []int // sorted
}
type affine struct {
	memo map[*Term][]abits
	ids  map[abit]int
	bits []abit
}

func xorIDs(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	r := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}

func (af *affine) of(t *Term) []abits {
	if r, ok := af.memo[t]; ok {
		return r
	}
	w := int(t.w)
	r := make([]abits, w)
	opaque := false
	switch {
	case t.op == OpConst:
		for i := range r {
			r[i].k = t.k>>i&1 == 1
		}
	case t.op == OpXor:
		for _, a := range t.args {
			for i, b := range af.of(a) {
				r[i] = abits{r[i].k != b.k, xorIDs(r[i].ids, b.ids)}
			}
		}
	case t.op == OpNot:
		for i, b := range af.of(t.args[0]) {
			r[i] = abits{!b.k, b.ids}
		}
	case t.op == OpConcat:
		at := w
		for _, a := range t.args {
			at -= int(a.w)
			copy(r[at:], af.of(a))
		}
	case t.op == OpExtract:
		copy(r, af.of(t.args[0])[t.k:int(t.k)+w])
	case (t.op == OpShl || t.op == OpLShr) && t.args[1].op == OpConst:
		k := int(t.args[1].k)
		for i, b := range af.of(t.args[0]) {
			d := i + k
			if t.op == OpLShr {
				d = i - k
			}
			if d >= 0 && d < w {
				r[d] = b
			}
		}
	case t.op == OpAnd && len(t.args) == 2 && (t.args[0].op == OpConst || t.args[1].op == OpConst):
		c, a := t.args[0], t.args[1]
		if a.op == OpConst {
			c, a = a, c
		}
		for i, b := range af.of(a) {
			if c.k>>i&1 == 1 {
				r[i] = b
			}
		}
	case t.op == OpIte && t.args[1].op == OpConst && t.args[2].op == OpConst:
		c := t.args[0]
		neg := false
		if c.op == OpBNot {
			c, neg = c.args[0], true
		}
		if c.op != OpEq || c.args[0].w != 1 {
			opaque = true
			break
		}
		b := abits{k: !neg}
		for _, a := range c.args {
			x := af.of(a)[0]
			b = abits{b.k != x.k, xorIDs(b.ids, x.ids)}
		}
		// b is the condition
		for i := range r {
			x, y := t.args[1].k>>i&1 == 1, t.args[2].k>>i&1 == 1
			r[i].k = y
			if x != y {
				r[i] = abits{y != b.k, b.ids}
			}
		}
	default:
		opaque = true
	}
	if opaque {
		for i := range r {
			a := abit{t, i}
			id, ok := af.ids[a]
			if !ok {
				id = len(af.bits)
				af.ids[a] = id
				af.bits = append(af.bits, a)
			}
			r[i] = abits{ids: []int{id}}
		}
	}
	af.memo[t] = r
	return r
}

func ptrKey(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(engErr("pointer expected, got %T", v))
	}
	return p
}

type poolState struct{ items []Value }

func bytesArr(b []byte) Array {
	r := make(Array, len(b))
	for i, x := range b {
		r[i] = C(8, uint64(x))
	}
	return r
}

func concOnly(g *G, v Value, what string) []byte {
	ts := sliceTerms(v)
	if !allConst(ts) {
		// enumerate
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(g.conc(t))
		}
		return b
	}
	return concBytes(ts)
}

func loadP(v Value, g *G) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			g.nilDeref()
		}
		return p
	case UPtr:
		if q, ok := p.v.(*Value); ok && q != nil {
			return q
		}
	}
	panic(engErr("atomic on %T", v))
}

func init() {
	// ---- bytealg
	indexByte := func(g *G, fi *finfo, a []Value) (Value, bool) {
		c := a[1].(*Term)
		tt := g.w.tt
		if s, ok := a[0].(Str); ok && s.b == nil && c.op == OpConst {
			return C(64, uint64(int64(strings.IndexByte(s.s, byte(c.k))))), true
		}
		n := seqLen(a[0])
		for i := 0; i < n; i++ {
			e := tt.Eq(seqAt(a[0], i), c)
			if e == True {
				return C(64, uint64(i)), true
			}
			if e == False {
				continue
			}
			if g.branch(e) {
				return C(64, uint64(i)), true
			}
		}
		return C(64, ^uint64(0)), true
	}
	reg(indexByte, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte")
	lastIndexByte := func(g *G, fi *finfo, a []Value) (Value, bool) {
		c := a[1].(*Term)
		for i := seqLen(a[0]) - 1; i >= 0; i-- {
			if g.branch(g.w.tt.Eq(seqAt(a[0], i), c)) {
				return C(64, uint64(i)), true
			}
		}
		return C(64, ^uint64(0)), true
	}
	reg(lastIndexByte, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	count := func(g *G, fi *finfo, a []Value) (Value, bool) {
		c := a[1].(*Term)
		tt := g.w.tt
		r := C(64, 0)
		n := seqLen(a[0])
		for i := 0; i < n; i++ {
			r = tt.Add(r, tt.Ite(tt.Eq(seqAt(a[0], i), c), C(64, 1), C(64, 0)))
		}
		return r, true
	}
	reg(count, "internal/bytealg.Count", "internal/bytealg.CountString")
	equal := func(g *G, fi *finfo, a []Value) (Value, bool) {
		n := seqLen(a[0])
		if n != seqLen(a[1]) {
			return False, true
		}
		var l []*Term
		for i := 0; i < n; i++ {
			e := g.w.tt.Eq(seqAt(a[0], i), seqAt(a[1], i))
			if e == False {
				return e, true
			}
			if e != True {
				l = append(l, e)
			}
		}
		return g.w.tt.BAndN(l), true
	}
	reg(equal, "internal/bytealg.Equal", "bytes.Equal")
	compare := func(g *G, fi *finfo, a []Value) (Value, bool) {
		x, y := mkStr(sliceTerms(a[0])), mkStr(sliceTerms(a[1]))
		tt := g.w.tt
		if g.branch(g.strEq(x, y)) {
			return C(64, 0), true
		}
		return tt.Ite(g.strLess(x, y), C(64, ^uint64(0)), C(64, 1)), true
	}
	reg(compare, "internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "internal/stringslite.Compare")
	index := func(g *G, fi *finfo, a []Value) (Value, bool) {
		n, m := seqLen(a[0]), seqLen(a[1])
		if m == 0 {
			return C(64, 0), true
		}
		for i := 0; i+m <= n; i++ {
			var l []*Term
			bad := false
			for j := 0; j < m; j++ {
				e := g.w.tt.Eq(seqAt(a[0], i+j), seqAt(a[1], j))
				if e == False {
					bad = true
					break
				}
				if e != True {
					l = append(l, e)
				}
			}
			if !bad && g.branch(g.w.tt.BAndN(l)) {
				return C(64, uint64(i)), true
			}
		}
		return C(64, ^uint64(0)), true
	}
	reg(index, "internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index", "strings.Index", "internal/stringslite.Index")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		n := g.concInt(a[0].(*Term))
		return makeSliceOf(types.Typ[types.Uint8], n, n), true
	}, "internal/bytealg.MakeNoZero")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return a[0], true },
		"internal/stringslite.Clone", "strings.Clone", "internal/abi.NoEscape", "internal/abi.Escape")
	reg(nop, "(*strings.Builder).copyCheck", "(*sync.copyChecker).check", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value",
		"(*internal/godebug.Setting).register", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"runtime/debug.Stack", "runtime/debug.PrintStack", "runtime/debug.FreeOSMemory", "runtime/debug.SetGCPercent",
		"log.Print", "log.Printf", "log.Println", "(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Output",
		"log.SetOutput", "log.SetFlags", "log.SetPrefix", "crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring/sig.BoringCrypto",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange", "sync.runtime_registerPoolCleanup", "sync.throw", "sync.fatal")
	exit := func(g *G, fi *finfo, a []Value) (Value, bool) {
		panic(pathEnd{"panic", "process exit: " + fi.name + " @ " + g.stack()})
	}
	reg(exit, "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return C(64, 8), true }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		n := 0
		for _, x := range g.p.gs {
			if !x.done {
				n++
			}
		}
		return C(64, uint64(n)), true
	}, "runtime.NumGoroutine")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { g.yield(); return nil, true }, "runtime.Gosched")

	// ---- numbers
	fmtInt := func(signed bool, tv, bv int, app bool) intrinsic {
		return func(g *G, fi *finfo, a []Value) (Value, bool) {
			v := a[tv].(*Term)
			if v.op == OpConst {
				return nil, false
			}
			if bv >= 0 {
				if b := a[bv].(*Term); b.op != OpConst || b.k != 10 {
					return nil, false
				}
			}
			d := g.decimal(v, signed)
			if app {
				return appendSlice(a[0].(Slice), termsToSlice(d), types.Typ[types.Uint8]), true
			}
			return mkStr(d), true
		}
	}
	for _, p := range []string{"strconv.", "internal/strconv."} {
		reg(fmtInt(true, 0, 1, false), p+"FormatInt")
		reg(fmtInt(false, 0, 1, false), p+"FormatUint")
		reg(fmtInt(true, 0, -1, false), p+"Itoa")
		reg(fmtInt(true, 1, 2, true), p+"AppendInt")
		reg(fmtInt(false, 1, 2, true), p+"AppendUint")
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		v := g.undigits(a[0].(Str))
		base, bits := a[1].(*Term), a[2].(*Term)
		if v == nil || base.op != OpConst || (base.k != 10 && base.k != 0) || bits.op != OpConst {
			return nil, false
		}
		n := bits.k
		if n == 0 {
			n = 64
		}
		if n < 64 && g.branch(g.w.tt.Ult(C(64, 1<<n-1), v)) {
			return g.callFn(fi.fn, []Value{Str{s: "99999999999999999999"}, base, bits}, nil), true
		}
		return Tuple{v, Iface{}}, true
	}, "internal/strconv.ParseUint")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := a[0].(Str)
		if s.b == nil || s.Len() == 0 {
			return nil, false
		}
		t := s
		if c := s.At(0); c.op == OpConst && (c.k == '-' || c.k == '+') {
			t = s.Slice(1, s.Len())
		}
		if g.undigits(t) == nil {
			return nil, false
		}
		return g.callFn(fi.fn.Pkg.Func("ParseInt"), []Value{s, C(64, 10), C(64, 0)}, nil), true
	}, "internal/strconv.Atoi")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		u := a[1].(*Term)
		base := a[2].(*Term)
		if u.op == OpConst || base.k != 10 {
			return nil, false
		}
		signed := a[3].(*Term).k != 0
		d := g.decimal(u, signed)
		flags := fieldPtr(a[0], fi, "fmtFlags")
		st := fi.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		var ft *types.Struct
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "fmtFlags" {
				ft = st.Field(i).Type().Underlying().(*types.Struct)
			}
		}
		fl := func(n string) bool {
			for i := 0; i < ft.NumFields(); i++ {
				if ft.Field(i).Name() == n {
					return g.branch((*flags).(Struct)[i].(*Term))
				}
			}
			return false
		}
		if fl("precPresent") || fl("space") {
			panic(engErr("symbolic integer with precision in %s", g.stack()))
		}
		neg := len(d) > 0 && d[0].op == OpConst && d[0].k == '-'
		if fl("plus") && !neg {
			d = append([]*Term{C(8, '+')}, d...)
			neg = true
		}
		if fl("zero") && fl("widPresent") && !fl("minus") {
			w := g.concInt((*fieldPtr(a[0], fi, "wid")).(*Term))
			for len(d) < w {
				if neg {
					d = append([]*Term{d[0], C(8, '0')}, d[1:]...)
				} else {
					d = append([]*Term{C(8, '0')}, d...)
				}
			}
		}
		pad := g.w.lookupMethod(fi.fn.Signature.Recv().Type(), "pad")
		g.callFn(pad, []Value{a[0], termsToSlice(d)}, nil)
		return nil, true
	}, "(*fmt.fmt).fmtInteger")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := a[0].(Str)
		if s.b == nil {
			return nil, false
		}
		return concat(concat(Str{s: "\""}, s), Str{s: "\""}), true
	}, "strconv.Quote")

	// ---- hashes
	crcU := func(g *G, fi *finfo, a []Value) (Value, bool) {
		crc, data := a[0].(*Term), sliceTerms(a[len(a)-1])
		return g.crcUpdate(crc, data), true
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return g.crcUpdate(C(32, 0), sliceTerms(a[0])), true }, "hash/crc32.ChecksumIEEE")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		if isIEEE(g, a[1]) {
			return crcU(g, fi, []Value{a[0], a[2]})
		}
		return nil, false
	}, "hash/crc32.Update", "hash/crc32.update")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		if isIEEE(g, a[1]) {
			return crcU(g, fi, []Value{C(32, 0), a[0]})
		}
		return nil, false
	}, "hash/crc32.Checksum")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		h := sha1.Sum(concOnly(g, a[0], "sha1"))
		return bytesArr(h[:]), true
	}, "crypto/sha1.Sum")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		h := md5.Sum(concOnly(g, a[0], "md5"))
		return bytesArr(h[:]), true
	}, "crypto/md5.Sum")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		h := sha256.Sum256(concOnly(g, a[0], "sha256"))
		return bytesArr(h[:]), true
	}, "crypto/sha256.Sum256")

	// ---- sort.Slice
	sortSlice := func(algo string) intrinsic {
		return func(g *G, fi *finfo, a []Value) (Value, bool) {
			s := a[0].(Iface).v.(Slice)
			n := len(s)
			less := a[1]
			swap := &Native{name: "swap", fn: func(g *G, x []Value) Value {
				i, j := g.concInt(x[0].(*Term)), g.concInt(x[1].(*Term))
				t := copyVal(s[i])
				storeTo(&s[i], copyVal(s[j]))
				storeTo(&s[j], t)
				return nil
			}}
			fn := g.w.run.pkgs["sort"].Func(algo)
			args := []Value{Struct{less, swap}, C(64, 0), C(64, uint64(n)), C(64, uint64(bitLen(n)))}
			if algo == "stable_func" {
				args = []Value{Struct{less, swap}, C(64, uint64(n))}
			}
			g.callFn(fn, args, nil)
			return nil, true
		}
	}
	reg(sortSlice("pdqsort_func"), "sort.Slice")
	reg(sortSlice("stable_func"), "sort.SliceStable")

	// ---- errors.As
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		return CB(g.errorsAs(a[0].(Iface), a[1].(Iface))), true
	}, "errors.As")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := a[0].(Iface).v.(Slice)
		for i := len(s) - 1; i > 0; i-- {
			if g.branch(g.call(a[1], []Value{C(64, uint64(i)), C(64, uint64(i-1))}).(*Term)) {
				return False, true
			}
		}
		return True, true
	}, "sort.SliceIsSorted")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		return Tuple{C(64, 0), Str{}, C(64, 0), False}, true
	}, "runtime.Caller")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return C(64, 0), true }, "runtime.Callers")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		i := a[0].(Iface)
		m, _ := i.v.(*MapV)
		if m == nil {
			return i, true
		}
		n := newMap()
		for _, e := range m.ents {
			if !e.deleted {
				n.set(g, copyVal(e.k), copyVal(e.v))
			}
		}
		return Iface{t: i.t, v: n}, true
	}, "maps.clone")
	registerFloat()
	registerReflect()
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return Str{s: "context"}, true }, "context.contextName")

	registerSync()
	registerTime()
	registerVx()
}

// registerFloat evaluates floating-point functions of concrete arguments natively.
func registerFloat() {
	f1 := func(name string, f func(float64) float64) {
		reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return f(a[0].(float64)), true }, "math."+name)
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Round": math.Round,
		"RoundToEven": math.RoundToEven, "Abs": math.Abs, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Exp2": math.Exp2,
		"Sin": math.Sin, "Cos": math.Cos} {
		f1(n, f)
	}
	f2 := func(name string, f func(a, b float64) float64) {
		reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return f(a[0].(float64), a[1].(float64)), true }, "math."+name)
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Min": math.Min, "Max": math.Max, "Hypot": math.Hypot} {
		f2(n, f)
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return C(64, math.Float64bits(a[0].(float64))), true },
		"math.Float64bits", "internal/strconv.float64bits")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		return C(32, uint64(math.Float32bits(float32(a[0].(float64))))), true
	}, "math.Float32bits", "internal/strconv.float32bits")
	bits := func(g *G, v Value) uint64 {
		t := v.(*Term)
		if t.op != OpConst {
			panic(engErr("floating-point value from symbolic bits in %s", g.stack()))
		}
		return t.k
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return math.Float64frombits(bits(g, a[0])), true },
		"math.Float64frombits", "internal/strconv.float64frombits")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		return float64(math.Float32frombits(uint32(bits(g, a[0])))), true
	}, "math.Float32frombits", "internal/strconv.float32frombits")
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func bitLen(n int) int {
	k := 0
	for n > 0 {
		k++
		n >>= 1
	}
	return k
}

func isIEEE(g *G, v Value) bool {
	p, ok := v.(*Value)
	if !ok || p == nil {
		return false
	}
	a, ok := (*p).(Array)
	if !ok || len(a) != 256 {
		return false
	}
	t, ok := a[1].(*Term)
	// an uninitialised IEEETable (its sync.Once initialiser has not run) is all zero
	return ok && t.op == OpConst && (uint32(t.k) == crcTab[1] || t.k == 0)
}

func (g *G) errorsAs(err, target Iface) bool {
	if target.t == nil {
		g.rtPanic("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		g.rtPanic("errors: target must be a non-nil pointer")
	}
	want := g.w.canon(pt.Elem())
	for n := 0; n < 32 && err.t != nil; n++ {
		if it, isI := want.Underlying().(*types.Interface); isI {
			if g.w.implements(err.t, it) {
				storeTo(target.v.(*Value), err)
				return true
			}
		} else if err.t == want {
			storeTo(target.v.(*Value), copyVal(err.v))
			return true
		}
		if fn := g.w.lookupMethod(err.t, "As"); fn != nil {
			if g.branch(g.callFn(fn, []Value{err.v, target}, nil).(*Term)) {
				return true
			}
		}
		fn := g.w.lookupMethod(err.t, "Unwrap")
		if fn == nil {
			return false
		}
		r := g.callFn(fn, []Value{err.v}, nil)
		switch r := r.(type) {
		case Iface:
			err = r
		case Slice:
			for _, e := range r {
				if g.errorsAs(e.(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func registerSync() {
	lock := func(g *G, fi *finfo, a []Value) (Value, bool) { g.lock(a[0]); return nil, true }
	unlock := func(g *G, fi *finfo, a []Value) (Value, bool) { g.unlock(a[0]); return nil, true }
	tryLock := func(g *G, fi *finfo, a []Value) (Value, bool) {
		m := g.p.mutex(a[0])
		if m.locked || m.readers > 0 {
			return False, true
		}
		m.locked = true
		return True, true
	}
	for _, t := range []string{"(*sync.Mutex).", "(*internal/sync.Mutex).", "(*sync.RWMutex)."} {
		reg(lock, t+"Lock")
		reg(unlock, t+"Unlock")
		reg(tryLock, t+"TryLock")
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		if ptrKey(a[0]) == nil {
			g.nilDeref()
		}
		m := g.p.mutex(a[0])
		g.libGate("rlock")
		g.block("rwmutex rlock", func() bool { return !m.locked })
		m.readers++
		g.logLock()
		return nil, true
	}, "(*sync.RWMutex).RLock")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		m := g.p.mutex(a[0])
		if m.readers <= 0 {
			panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex @ " + g.stack()})
		}
		m.readers--
		g.libGate("runlock")
		return nil, true
	}, "(*sync.RWMutex).RUnlock")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		m := g.p.mutex(a[0])
		if m.locked {
			return False, true
		}
		m.readers++
		return True, true
	}, "(*sync.RWMutex).TryRLock")
	wgAdd := func(g *G, p Value, n int64) {
		m := g.p.mutex(p)
		m.wg += n
		if m.wg < 0 {
			g.goPanic("sync: negative WaitGroup counter")
		}
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		wgAdd(g, a[0], int64(g.concInt(a[1].(*Term))))
		return nil, true
	}, "(*sync.WaitGroup).Add")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { wgAdd(g, a[0], -1); return nil, true }, "(*sync.WaitGroup).Done")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		m := g.p.mutex(a[0])
		g.block("waitgroup", func() bool { return m.wg == 0 })
		return nil, true
	}, "(*sync.WaitGroup).Wait")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		wgAdd(g, a[0], 1)
		w, f := a[0], a[1]
		g.spawn(&Native{name: "wg.Go", fn: func(g *G, _ []Value) Value {
			g.call(f, nil)
			wgAdd(g, w, -1)
			return nil
		}}, nil, nil)
		return nil, true
	}, "(*sync.WaitGroup).Go")
	type condState struct{ waiters []*bool }
	cond := func(g *G, p Value) *condState {
		k := ptrKey(p)
		if s, ok := g.p.side[k].(*condState); ok {
			return s
		}
		s := &condState{}
		g.p.side[k] = s
		return s
	}
	locker := func(g *G, fi *finfo, p Value, m string) {
		l := (*fieldPtr(p, fi, "L")).(Iface)
		g.callFn(g.w.lookupMethod(l.t, m), []Value{l.v}, nil)
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := cond(g, a[0])
		b := new(bool)
		s.waiters = append(s.waiters, b)
		locker(g, fi, a[0], "Unlock")
		g.block("cond wait", func() bool { return *b })
		locker(g, fi, a[0], "Lock")
		return nil, true
	}, "(*sync.Cond).Wait")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := cond(g, a[0])
		if len(s.waiters) > 0 {
			*s.waiters[0] = true
			s.waiters = s.waiters[1:]
		}
		return nil, true
	}, "(*sync.Cond).Signal")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := cond(g, a[0])
		for _, b := range s.waiters {
			*b = true
		}
		s.waiters = nil
		return nil, true
	}, "(*sync.Cond).Broadcast")
	pool := func(g *G, p Value) *poolState {
		k := ptrKey(p)
		if k == nil {
			g.nilDeref()
		}
		if s, ok := g.p.side[k].(*poolState); ok {
			return s
		}
		s := &poolState{}
		g.p.side[k] = s
		return s
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := pool(g, a[0])
		if n := len(s.items); n > 0 {
			v := s.items[n-1]
			s.items = s.items[:n-1]
			return v, true
		}
		f := *fieldPtr(a[0], fi, "New")
		if isNilFunc(f) {
			return Iface{}, true
		}
		return g.call(f, nil), true
	}, "(*sync.Pool).Get")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := pool(g, a[0])
		if a[1].(Iface).t != nil {
			s.items = append(s.items, a[1])
		}
		return nil, true
	}, "(*sync.Pool).Put")
	// sync.Map
	smap := func(g *G, p Value) *MapV {
		k := ptrKey(p)
		if s, ok := g.p.side[k].(*MapV); ok {
			return s
		}
		s := newMap()
		g.p.side[k] = s
		return s
	}
	found := func(e *MapEntry) Value {
		if e == nil {
			return Tuple{Iface{}, False}
		}
		return Tuple{e.v, True}
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return found(smap(g, a[0]).find(g, a[1])), true }, "(*sync.Map).Load")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { smap(g, a[0]).set(g, a[1], a[2]); return nil, true }, "(*sync.Map).Store")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		m := smap(g, a[0])
		if e := m.find(g, a[1]); e != nil {
			return Tuple{e.v, True}, true
		}
		m.set(g, a[1], a[2])
		return Tuple{a[2], False}, true
	}, "(*sync.Map).LoadOrStore")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		m := smap(g, a[0])
		r := found(m.find(g, a[1]))
		m.del(g, a[1])
		return r, true
	}, "(*sync.Map).LoadAndDelete")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { smap(g, a[0]).del(g, a[1]); return nil, true }, "(*sync.Map).Delete")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		m := smap(g, a[0])
		r := found(m.find(g, a[1]))
		m.set(g, a[1], a[2])
		return r, true
	}, "(*sync.Map).Swap")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		for _, e := range append([]*MapEntry(nil), smap(g, a[0]).ents...) {
			if e.deleted {
				continue
			}
			if !g.branch(g.call(a[1], []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil, true
	}, "(*sync.Map).Range")

	// sync/atomic
	for _, s := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return *loadP(a[0], g), true }, "sync/atomic.Load"+s)
		reg(func(g *G, fi *finfo, a []Value) (Value, bool) { *loadP(a[0], g) = a[1]; return nil, true }, "sync/atomic.Store"+s)
		reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
			p := loadP(a[0], g)
			o := *p
			*p = a[1]
			return o, true
		}, "sync/atomic.Swap"+s)
		reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
			p := loadP(a[0], g)
			if g.branch(g.eq(*p, a[1])) {
				*p = a[2]
				return True, true
			}
			return False, true
		}, "sync/atomic.CompareAndSwap"+s)
		if s != "Pointer" {
			reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
				p := loadP(a[0], g)
				*p = g.w.tt.Add((*p).(*Term), a[1].(*Term))
				return *p, true
			}, "sync/atomic.Add"+s)
			reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
				p := loadP(a[0], g)
				o := *p
				*p = g.w.tt.And((*p).(*Term), a[1].(*Term))
				return o, true
			}, "sync/atomic.And"+s)
			reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
				p := loadP(a[0], g)
				o := *p
				*p = g.w.tt.Or((*p).(*Term), a[1].(*Term))
				return o, true
			}, "sync/atomic.Or"+s)
		}
	}
	// generic atomic.Pointer: kept as a plain pointer in the side table of its own slot
	aptr := func(g *G, p Value) *Value {
		k := ptrKey(p)
		if k == nil {
			g.nilDeref()
		}
		if s, ok := g.p.side[k].(*Value); ok {
			return s
		}
		s := new(Value)
		*s = (*Value)(nil)
		g.p.side[k] = s
		return s
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return *aptr(g, a[0]), true }, "(*sync/atomic.Pointer[T]).Load")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { *aptr(g, a[0]) = a[1]; return nil, true }, "(*sync/atomic.Pointer[T]).Store")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		p := aptr(g, a[0])
		o := *p
		*p = a[1]
		return o, true
	}, "(*sync/atomic.Pointer[T]).Swap")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		p := aptr(g, a[0])
		if (*p).(*Value) == a[1].(*Value) {
			*p = a[2]
			return True, true
		}
		return False, true
	}, "(*sync/atomic.Pointer[T]).CompareAndSwap")
	aval := func(g *G, p Value) *Value {
		k := ptrKey(p)
		if k == nil {
			g.nilDeref()
		}
		if s, ok := g.p.side[k].(*Value); ok {
			return s
		}
		s := new(Value)
		*s = Iface{}
		g.p.side[k] = s
		return s
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return *aval(g, a[0]), true }, "(*sync/atomic.Value).Load")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		if a[1].(Iface).t == nil {
			g.goPanic("sync/atomic: store of nil value into Value")
		}
		*aval(g, a[0]) = a[1]
		return nil, true
	}, "(*sync/atomic.Value).Store")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		p := aval(g, a[0])
		o := *p
		*p = a[1]
		return o, true
	}, "(*sync/atomic.Value).Swap")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		p := aval(g, a[0])
		if g.branch(g.eq(*p, a[1])) {
			*p = a[2]
			return True, true
		}
		return False, true
	}, "(*sync/atomic.Value).CompareAndSwap")
}

func registerTime() {
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		abs := epochNs + g.p.clock
		return Tuple{C(64, uint64(abs/1e9)), C(32, uint64(abs%1e9)), C(64, uint64(g.p.clock+2))}, true
	}, "time.runtimeNow", "time.now")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return C(64, uint64(g.p.clock+2)), true }, "time.runtimeNano")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		g.sleep(int64(g.conc(a[0])))
		return nil, true
	}, "time.Sleep")
	reg(nop, "time.syncTimer")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return True, true }, "time.runtimeIsBubbled")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		when, period := int64(g.conc(a[0]))-2, int64(g.conc(a[1]))
		t := &timerV{when: when, period: period}
		arg := a[3].(Iface)
		if c, ok := arg.v.(*ChanV); ok {
			t.ch = c
		} else {
			t.fn = arg.v
		}
		g.p.addTimer(t)
		v := new(Value)
		*v = Struct{(*ChanV)(nil), True}
		g.p.side[v] = t
		return v, true
	}, "time.newTimer")
	get := func(g *G, p Value) *timerV {
		k := ptrKey(p)
		t, ok := g.p.side[k].(*timerV)
		if !ok {
			panic(engErr("unknown timer"))
		}
		return t
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		t := get(g, a[0])
		was := t.active
		t.active = false
		if t.ch != nil {
			if len(t.ch.buf) > 0 {
				was = true
			}
			t.ch.buf = nil
		}
		return CB(was), true
	}, "time.stopTimer")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		t := get(g, a[0])
		was := t.active
		if t.ch != nil {
			if len(t.ch.buf) > 0 {
				was = true
			}
			t.ch.buf = nil
		}
		t.when, t.period = int64(g.conc(a[1]))-2, int64(g.conc(a[2]))
		g.p.addTimer(t)
		return CB(was), true
	}, "time.resetTimer")
}

func (p *Path) input(name string, ts ...*Term) {
	p.inputs = append(p.inputs, inputRec{name, ts})
}

func registerVx() {
	sym := func(w uint8) intrinsic {
		return func(g *G, fi *finfo, a []Value) (Value, bool) {
			n := a[0].(Str).s
			t := g.p.fresh(n, w, mask(w))
			g.p.input(n, t)
			return t, true
		}
	}
	vx := vxPath + "."
	reg(sym(8), vx+"U8")
	reg(sym(16), vx+"U16")
	reg(sym(32), vx+"U32")
	reg(sym(64), vx+"U64")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		n := a[0].(Str).s
		v := g.p.fresh(n, 8, 1)
		g.p.input(n, v)
		return g.w.tt.Eq(v, C(8, 1)), true
	}, vx+"Bool")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		n := a[0].(Str).s
		lo, hi := int64(a[1].(*Term).k), int64(a[2].(*Term).k)
		if lo == hi {
			g.p.input(n, C(64, uint64(lo)))
			return C(64, uint64(lo)), true
		}
		v := g.p.fresh(n, 64, uint64(hi-lo))
		t := g.w.tt.Add(v, C(64, uint64(lo)))
		g.p.input(n, t)
		return t, true
	}, vx+"Int")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		n := a[0].(Str).s
		lo, hi := a[1].(*Term).k, a[2].(*Term).k
		v := g.p.fresh(n, 8, hi-lo)
		t := g.w.tt.Add(v, C(8, lo))
		g.p.input(n, t)
		return t, true
	}, vx+"Range")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		n := a[0].(Str).s
		k := g.concInt(a[1].(*Term))
		ts := make([]*Term, k)
		for i := range ts {
			ts[i] = g.p.fresh(n, 8, 255)
		}
		g.p.input(n, ts...)
		return termsToSlice(ts), true
	}, vx+"Bytes")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		n := a[0].(Str).s
		k := g.p.choose(g.concInt(a[1].(*Term)))
		g.p.input(n, C(64, uint64(k)))
		return C(64, uint64(k)), true
	}, vx+"Choose")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { g.p.assume(a[0].(*Term)); return nil, true }, vx+"Assume")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		g.p.assertT(a[0].(*Term), a[1].(Str).s, func() string { return "assertion " + a[1].(Str).s + " fails" })
		return nil, true
	}, vx+"Assert")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { g.p.reached[a[0].(Str).s] = true; return nil, true }, vx+"Reach")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		v := a[1]
		if s, ok := v.(Slice); ok {
			v = bytesToStr(s)
		}
		g.p.obs = append(g.p.obs, obsRec{a[0].(Str).s, v})
		return nil, true
	}, vx+"Obs", vx+"ObsB", vx+"ObsI")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { g.gateNamed(a[0].(Str).s); return nil, true }, vx+"Gate")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		if g.name == "" {
			g.name = "@" + a[0].(Str).s
		}
		return nil, true
	}, vx+"Own")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		g.p.budget = int(a[0].(*Term).k)
		g.p.explore = g.p.budget > 0
		g.p.explored = g.p.explored || g.p.explore
		return nil, true
	}, vx+"Explore")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { g.p.mapFork = true; return nil, true }, vx+"MapOrders")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		// wait until every other goroutine is blocked (virtual time does not move)
		p := g.p
		for {
			var o *G
			n := len(p.gs)
			for i := 1; i < n; i++ {
				x := p.gs[(g.id+i)%n]
				if p.runnable(x) {
					o = x
					break
				}
			}
			if o == nil {
				return nil, true
			}
			g.what = "idle"
			g.ready = func() bool {
				for _, x := range p.gs {
					if x != g && !x.done && x.what != "idle" && (x.ready == nil || x.ready()) {
						return false
					}
				}
				return true
			}
			nx := p.pickNext(g)
			if nx != g {
				g.switchTo(nx)
			}
			g.ready, g.what = nil, ""
		}
	}, vx+"Idle")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		return C(64, g.p.concretise(a[0].(*Term), g.w.run.maxConc)), true
	}, vx+"Concrete")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return C(64, uint64(g.p.clock)), true }, vx+"Now")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { return CB(g.w.run.tier == "thorough"), true }, vx+"Thorough")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		g.spawnNamed(a[0].(Str).s, a[1], nil, nil)
		return nil, true
	}, vx+"Go")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) { panic(pathEnd{"stop", ""}) }, vx+"Stop")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		r := g.w.run
		r.mu.Lock()
		r.bounds[g.p.job.h.name+": "+a[0].(Str).s] = true
		r.mu.Unlock()
		return nil, true
	}, vx+"Bound")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		r := g.w.run
		r.mu.Lock()
		r.perH[g.p.job.h.name].Expect[a[0].(Str).s] = true
		r.mu.Unlock()
		return nil, true
	}, vx+"Expect")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		if debugPrint {
			println("vx.Debug:", a[0].(Str).s, g.p.render(a[1].(Iface).v))
		}
		return nil, true
	}, vx+"Debug")
}

var debugPrint bool

// gateNamed is a scheduling point of the harness's connections; the order in which goroutines pass these
// points is recorded so that a native replay can enforce it.
func (g *G) gateNamed(name string) {
	if g.p == nil || g.w.initing > 0 {
		return
	}
	g.gate(name)
	g.p.gatelog = append(g.p.gatelog, g.name+":"+name)
}

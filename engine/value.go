package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Str struct {
	s string
	b []*Term // non-nil: symbolic content
}

type Slice []Value
type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	t types.Type // canonical; nil for the nil interface
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// Native is a function value implemented by the engine.
type Native struct {
	name string
	fn   func(g *G, args []Value) Value
}

type UPtr struct{ v Value }

type MapEntry struct {
	k, v    Value
	deleted bool
}

type MapV struct {
	ents  []*MapEntry
	idx   map[string]*MapEntry
	nsym  int
	count int
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) At(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return C(8, uint64(s.s[i]))
}

func (s Str) Slice(lo, hi int) Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

// mkStr normalises a byte list: fully constant content becomes a Go string.
func mkStr(b []*Term) Str {
	for _, t := range b {
		if t.op != OpConst {
			return Str{b: b}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.k)
	}
	return Str{s: string(x)}
}

func bytesToStr(v []Value) Str {
	b := make([]*Term, len(v))
	for i, x := range v {
		b[i] = x.(*Term)
	}
	return mkStr(b)
}

func (s Str) terms() []*Term {
	if s.b != nil {
		return s.b
	}
	b := make([]*Term, len(s.s))
	for i := range b {
		b[i] = C(8, uint64(s.s[i]))
	}
	return b
}

func (s Str) toSlice() Slice {
	n := s.Len()
	r := make(Slice, n)
	for i := 0; i < n; i++ {
		r[i] = s.At(i)
	}
	return r
}

func concat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, a.terms()...)
	r = append(r, b.terms()...)
	return Str{b: r}
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

func storeTo(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeTo(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeTo(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return C(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UnsafePointer:
			return UPtr{}
		case types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		n := int(u.Len())
		r := make(Array, n)
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range r {
				r[i] = zero(u.Elem())
			}
		default:
			z := zero(u.Elem())
			for i := range r {
				r[i] = z
			}
		}
		return r
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(engErr("zero: type %v", t))
}

func isStructArr(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// keyStr renders a fully concrete map key; ok is false if any part is symbolic.
func keyStr(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.op != OpConst {
			return "", false
		}
		return fmt.Sprintf("i%d:%d", v.w, v.k), true
	case Str:
		if v.b != nil {
			return "", false
		}
		return "s" + v.s, true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		s, ok := keyStr(v.v)
		return v.t.String() + "/" + s, ok
	case Struct:
		var sb strings.Builder
		for _, x := range v {
			s, ok := keyStr(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return "{" + sb.String(), true
	case Array:
		return keyStr(Struct(v))
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *ChanV:
		return fmt.Sprintf("c%p", v), true
	case float64:
		return fmt.Sprintf("f%v", v), true
	case UPtr:
		return fmt.Sprintf("u%p", v.v), true
	}
	panic(engErr("map key %T", v))
}

func (g *G) eq(a, b Value) *Term {
	tt := g.w.tt
	switch a := a.(type) {
	case *Term:
		return tt.Eq(a, b.(*Term))
	case Str:
		return g.strEq(a, b.(Str))
	case Iface:
		bi := b.(Iface)
		if a.t == nil || bi.t == nil {
			return CB(a.t == nil && bi.t == nil)
		}
		if a.t != bi.t {
			return False
		}
		switch a.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			g.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return g.eq(a.v, bi.v)
	case Struct:
		r := True
		for i, x := range a {
			r = tt.BAnd(r, g.eq(x, b.(Struct)[i]))
		}
		return r
	case Array:
		r := True
		for i, x := range a {
			r = tt.BAnd(r, g.eq(x, b.(Array)[i]))
		}
		return r
	case *Value:
		return CB(a == b.(*Value))
	case Slice:
		bs := b.(Slice)
		return CB(a == nil && bs == nil)
	case *MapV:
		return CB(a == b.(*MapV))
	case *ChanV:
		return CB(a == b.(*ChanV))
	case float64:
		return CB(a == b.(float64))
	case complex128:
		return CB(a == b.(complex128))
	case UPtr:
		return CB(a.v == b.(UPtr).v || (isNilPtr(a.v) && isNilPtr(b.(UPtr).v)))
	}
	// functions: only comparable with nil
	return CB(isNilFunc(a) && isNilFunc(b))
}

func isNilPtr(v Value) bool {
	if v == nil {
		return true
	}
	p, ok := v.(*Value)
	return ok && p == nil
}

func isNilFunc(v Value) bool {
	f, ok := v.(*ssa.Function)
	return ok && f == nil
}

func (g *G) strEq(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return CB(a.s == b.s)
	}
	if a.Len() != b.Len() {
		return False
	}
	tt := g.w.tt
	n := a.Len()
	l := make([]*Term, 0, n)
	for i := 0; i < n; i++ {
		e := tt.Eq(a.At(i), b.At(i))
		if e == False {
			return e
		}
		l = append(l, e)
	}
	return tt.BAndN(l)
}

// strLess is a < b.
func (g *G) strLess(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return CB(a.s < b.s)
	}
	tt := g.w.tt
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := CB(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.At(i), b.At(i)
		r = tt.BOr(tt.Ult(x, y), tt.BAnd(tt.Eq(x, y), r))
	}
	return r
}

func (m *MapV) find(g *G, k Value) *MapEntry {
	if m == nil || m.count == 0 {
		return nil
	}
	ks, conc := keyStr(k)
	if conc {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if conc {
			if _, c := keyStr(e.k); c {
				continue
			}
		}
		if g.branch(g.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *MapV) set(g *G, k, v Value) {
	if e := m.find(g, k); e != nil {
		e.v = v
		return
	}
	e := &MapEntry{k: k, v: v}
	if ks, conc := keyStr(k); conc {
		m.idx[ks] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.count++
}

func (m *MapV) del(g *G, k Value) {
	e := m.find(g, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.count--
	if ks, conc := keyStr(e.k); conc {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.count < len(m.ents)/2 {
		out := make([]*MapEntry, 0, m.count)
		for _, x := range m.ents {
			if !x.deleted {
				out = append(out, x)
			}
		}
		m.ents = out
	}
}

func newMap() *MapV { return &MapV{idx: map[string]*MapEntry{}} }

type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }

func engErr(f string, a ...interface{}) engineError { return engineError{fmt.Sprintf(f, a...)} }

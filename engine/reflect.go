package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// A native model of package reflect, as far as fmt, encoding/binary and the like need it.
// A reflect.Value is Struct{typ_, ptr, flag}: typ_ points at the rtypeV, ptr at the cell that holds the value.

type rtypeV struct{ t types.Type }

const (
	rvValid = 1
	rvAddr  = 2
	rvRO    = 4
)

func (g *G) rtypePtr(t types.Type) *Value {
	t = g.w.canon(t)
	if p, ok := g.w.rtypes[t]; ok {
		return p
	}
	p := new(Value)
	*p = rtypeV{t}
	g.w.rtypes[t] = p
	return p
}

func (g *G) rtypeIface(pkg string, t types.Type) Iface {
	rt := g.w.run.pkgs[pkg].Type("rtype").Type()
	if pkg == "reflect" {
		rt = types.NewPointer(rt)
	}
	return Iface{t: g.w.canon(rt), v: g.rtypePtr(t)}
}

func rtOf(v Value) types.Type {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p := v.(*Value)
	if p == nil {
		panic(engErr("reflection on a nil type"))
	}
	r, ok := (*p).(rtypeV)
	if !ok {
		panic(engErr("reflection on %T", *p))
	}
	return r.t
}

func (g *G) rvMake(t types.Type, p *Value, flag uint64) Value {
	return Struct{g.rtypePtr(t), UPtr{p}, C(64, flag|rvValid)}
}

func rvInvalid() Value { return Struct{(*Value)(nil), UPtr{}, C(64, 0)} }

func rvGet(g *G, v Value) (t types.Type, p *Value, flag uint64) {
	s := v.(Struct)
	f := s[2].(*Term)
	if f.op != OpConst {
		panic(engErr("reflect.Value with a symbolic flag"))
	}
	if f.k == 0 {
		g.rtPanic("reflect: call of a method on zero Value")
	}
	return rtOf(s[0]), s[1].(UPtr).v.(*Value), f.k
}

func isZeroVal(g *G, t types.Type, v Value) *Term { return g.eq(v, zero(t)) }

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func registerReflect() {
	typeOf := func(pkg string) intrinsic {
		return func(g *G, fi *finfo, a []Value) (Value, bool) {
			v := a[0].(Iface)
			if v.t == nil {
				return Iface{}, true
			}
			return g.rtypeIface(pkg, v.t), true
		}
	}
	reg(typeOf("reflect"), "reflect.TypeOf")
	reg(typeOf("internal/reflectlite"), "internal/reflectlite.TypeOf")

	tm := func(name string, f func(g *G, t types.Type, a []Value) Value) {
		h := func(g *G, fi *finfo, a []Value) (Value, bool) { return f(g, rtOf(a[0]), a[1:]), true }
		reg(h, "(*reflect.rtype)."+name, "(internal/reflectlite.rtype)."+name)
	}
	rt := func(g *G, t types.Type) Value { return g.rtypeIface("reflect", t) }
	tm("Kind", func(g *G, t types.Type, a []Value) Value { return C(64, uint64(kindOf(t))) })
	tm("Comparable", func(g *G, t types.Type, a []Value) Value { return CB(types.Comparable(t)) })
	tm("String", func(g *G, t types.Type, a []Value) Value { return Str{s: typeName(t)} })
	tm("Name", func(g *G, t types.Type, a []Value) Value {
		switch n := t.(type) {
		case *types.Named:
			return Str{s: n.Obj().Name()}
		case *types.Basic:
			return Str{s: n.Name()}
		}
		return Str{}
	})
	tm("PkgPath", func(g *G, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	})
	tm("Size", func(g *G, t types.Type, a []Value) Value { return C(64, uint64(g.w.sizes.Sizeof(t))) })
	tm("Align", func(g *G, t types.Type, a []Value) Value { return C(64, uint64(g.w.sizes.Alignof(t))) })
	tm("Bits", func(g *G, t types.Type, a []Value) Value { return C(64, uint64(8*g.w.sizes.Sizeof(t))) })
	tm("Elem", func(g *G, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rt(g, u.Elem())
		case *types.Slice:
			return rt(g, u.Elem())
		case *types.Array:
			return rt(g, u.Elem())
		case *types.Map:
			return rt(g, u.Elem())
		case *types.Chan:
			return rt(g, u.Elem())
		}
		g.rtPanic("reflect: Elem of invalid type " + typeName(t))
		return nil
	})
	tm("Key", func(g *G, t types.Type, a []Value) Value { return rt(g, t.Underlying().(*types.Map).Key()) })
	tm("Len", func(g *G, t types.Type, a []Value) Value { return C(64, uint64(t.Underlying().(*types.Array).Len())) })
	tm("NumField", func(g *G, t types.Type, a []Value) Value {
		return C(64, uint64(t.Underlying().(*types.Struct).NumFields()))
	})
	tm("NumMethod", func(g *G, t types.Type, a []Value) Value {
		ms := types.NewMethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return C(64, uint64(n))
	})
	tm("Implements", func(g *G, t types.Type, a []Value) Value {
		return CB(types.Implements(t, rtOf(a[0]).Underlying().(*types.Interface)))
	})
	tm("AssignableTo", func(g *G, t types.Type, a []Value) Value { return CB(types.AssignableTo(t, rtOf(a[0]))) })
	tm("ConvertibleTo", func(g *G, t types.Type, a []Value) Value { return CB(types.ConvertibleTo(t, rtOf(a[0]))) })
	tm("Field", func(g *G, t types.Type, a []Value) Value {
		st := t.Underlying().(*types.Struct)
		i := g.concInt(a[0].(*Term))
		if i < 0 || i >= st.NumFields() {
			g.rtPanic("reflect: Field index out of bounds")
		}
		f := st.Field(i)
		sf := g.w.run.pkgs["reflect"].Type("StructField").Type()
		r := zero(sf).(Struct)
		su := sf.Underlying().(*types.Struct)
		for k := 0; k < su.NumFields(); k++ {
			switch su.Field(k).Name() {
			case "Name":
				r[k] = Str{s: f.Name()}
			case "PkgPath":
				if !f.Exported() && f.Pkg() != nil {
					r[k] = Str{s: f.Pkg().Path()}
				}
			case "Type":
				r[k] = rt(g, f.Type())
			case "Tag":
				r[k] = Str{s: st.Tag(i)}
			case "Index":
				r[k] = Slice{C(64, uint64(i))}
			case "Anonymous":
				r[k] = CB(f.Embedded())
			}
		}
		return r
	})

	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		v := a[0].(Iface)
		if v.t == nil {
			return rvInvalid(), true
		}
		p := new(Value)
		*p = copyVal(v.v)
		return g.rvMake(v.t, p, 0), true
	}, "reflect.ValueOf")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		t := rtOf(a[0])
		p := new(Value)
		*p = zero(t)
		return g.rvMake(types.NewPointer(t), func() *Value { q := new(Value); *q = p; return q }(), 0), true
	}, "reflect.New")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		t := rtOf(a[0])
		p := new(Value)
		*p = zero(t)
		return g.rvMake(t, p, 0), true
	}, "reflect.Zero")

	vm := func(name string, f func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value) {
		reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
			t, p, fl := rvGet(g, a[0])
			return f(g, t, p, fl, a[1:]), true
		}, "(reflect.Value)."+name)
	}
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := a[0].(Struct)
		if f := s[2].(*Term); f.op == OpConst && f.k == 0 {
			return C(64, 0), true
		}
		return C(64, uint64(kindOf(rtOf(s[0])))), true
	}, "(reflect.Value).Kind")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		f := a[0].(Struct)[2].(*Term)
		return CB(!(f.op == OpConst && f.k == 0)), true
	}, "(reflect.Value).IsValid")
	vm("Type", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value { return rt(g, t) })
	vm("CanAddr", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value { return CB(fl&rvAddr != 0) })
	vm("CanSet", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		return CB(fl&rvAddr != 0 && fl&rvRO == 0)
	})
	vm("CanInterface", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value { return CB(fl&rvRO == 0) })
	kindIn := func(name string, ok func(reflect.Kind) bool) {
		vm(name, func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value { return CB(ok(kindOf(t))) })
	}
	isInt := func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }
	isUint := func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }
	isFloat := func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }
	isComplex := func(k reflect.Kind) bool { return k == reflect.Complex64 || k == reflect.Complex128 }
	kindIn("CanInt", isInt)
	kindIn("CanUint", isUint)
	kindIn("CanFloat", isFloat)
	kindIn("CanComplex", isComplex)
	need := func(g *G, name string, ok bool, t types.Type) {
		if !ok {
			g.rtPanic("reflect: call of reflect.Value." + name + " on " + kindOf(t).String() + " Value")
		}
	}
	vm("Interface", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		need(g, "Interface", fl&rvRO == 0, t)
		if _, ok := t.Underlying().(*types.Interface); ok {
			return *p
		}
		return Iface{t: g.w.canon(t), v: copyVal(*p)}
	})
	vm("Int", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		need(g, "Int", isInt(kindOf(t)), t)
		return g.w.tt.SExt((*p).(*Term), 64)
	})
	vm("Uint", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		need(g, "Uint", isUint(kindOf(t)), t)
		return g.w.tt.ZExt((*p).(*Term), 64)
	})
	vm("Float", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		need(g, "Float", isFloat(kindOf(t)), t)
		return *p
	})
	vm("Complex", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		need(g, "Complex", isComplex(kindOf(t)), t)
		return *p
	})
	vm("Bool", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		need(g, "Bool", kindOf(t) == reflect.Bool, t)
		return *p
	})
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		s := a[0].(Struct)
		if f := s[2].(*Term); f.op == OpConst && f.k == 0 {
			return Str{s: "<invalid Value>"}, true
		}
		t, p, _ := rvGet(g, a[0])
		if kindOf(t) == reflect.String {
			return *p, true
		}
		return Str{s: "<" + typeName(t) + " Value>"}, true
	}, "(reflect.Value).String")
	vm("Bytes", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		switch v := (*p).(type) {
		case Slice:
			return v
		case Array:
			return Slice(v)
		}
		need(g, "Bytes", false, t)
		return nil
	})
	length := func(g *G, t types.Type, v Value) *Term {
		switch v := v.(type) {
		case Slice:
			return C(64, uint64(len(v)))
		case Array:
			return C(64, uint64(len(v)))
		case Str:
			return C(64, uint64(v.Len()))
		case *MapV:
			if v == nil {
				return C(64, 0)
			}
			return C(64, uint64(v.count))
		case *Value:
			if v != nil {
				if x, ok := (*v).(Array); ok {
					return C(64, uint64(len(x)))
				}
			}
		}
		panic(engErr("reflection: Len of %s in %s", t, g.stack()))
	}
	vm("Len", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value { return length(g, t, *p) })
	vm("Cap", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		if s, ok := (*p).(Slice); ok {
			return C(64, uint64(cap(s)))
		}
		return length(g, t, *p)
	})
	vm("IsNil", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		switch v := (*p).(type) {
		case Slice:
			return CB(v == nil)
		case *MapV:
			return CB(v == nil)
		case *ChanV:
			return CB(v == nil)
		case Iface:
			return CB(v.t == nil)
		case UPtr:
			return CB(v.v == nil)
		}
		if kindOf(t) == reflect.Func {
			return CB(isNilFunc(*p))
		}
		return CB(isNilPtr(*p))
	})
	vm("IsZero", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		switch v := (*p).(type) {
		case Slice:
			return CB(v == nil)
		case *MapV:
			return CB(v == nil)
		}
		return isZeroVal(g, t, *p)
	})
	vm("Elem", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			q, ok := (*p).(*Value)
			if !ok {
				panic(engErr("reflection: Elem of %T in %s", *p, g.stack()))
			}
			if q == nil {
				return rvInvalid()
			}
			return g.rvMake(u.Elem(), q, fl&rvRO|rvAddr)
		case *types.Interface:
			i := (*p).(Iface)
			if i.t == nil {
				return rvInvalid()
			}
			q := new(Value)
			*q = copyVal(i.v)
			return g.rvMake(i.t, q, fl&rvRO)
		}
		need(g, "Elem", false, t)
		return nil
	})
	vm("NumField", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		st, ok := t.Underlying().(*types.Struct)
		need(g, "NumField", ok, t)
		return C(64, uint64(st.NumFields()))
	})
	vm("Field", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		st, ok := t.Underlying().(*types.Struct)
		need(g, "Field", ok, t)
		i := g.concInt(a[0].(*Term))
		if i < 0 || i >= st.NumFields() {
			g.rtPanic("reflect: Field index out of range")
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(engErr("reflection: %s is %T in %s", t, *p, g.stack()))
		}
		nf := fl & (rvRO | rvAddr)
		if !st.Field(i).Exported() {
			nf |= rvRO
		}
		return g.rvMake(st.Field(i).Type(), &s[i], nf)
	})
	vm("Index", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		i := g.concInt(a[0].(*Term))
		chk := func(n int) {
			if i < 0 || i >= n {
				g.rtPanic("reflect: slice index out of range")
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s := (*p).(Slice)
			chk(len(s))
			return g.rvMake(u.Elem(), &s[i], fl&rvRO|rvAddr)
		case *types.Array:
			s := (*p).(Array)
			chk(len(s))
			return g.rvMake(u.Elem(), &s[i], fl&(rvRO|rvAddr))
		case *types.Basic:
			s := (*p).(Str)
			chk(s.Len())
			q := new(Value)
			*q = s.At(i)
			return g.rvMake(types.Typ[types.Uint8], q, fl&rvRO)
		}
		need(g, "Index", false, t)
		return nil
	})
	vm("Addr", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		need(g, "Addr", fl&rvAddr != 0, t)
		q := new(Value)
		*q = p
		return g.rvMake(types.NewPointer(t), q, fl&rvRO)
	})
	ptrOfRV := func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		return C(64, 0xc000000000)
	}
	vm("Pointer", ptrOfRV)
	vm("UnsafePointer", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value { return UPtr{*p} })
	set := func(name string, ok func(reflect.Kind) bool, conv func(g *G, t types.Type, v Value) Value) {
		vm(name, func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
			need(g, name, fl&rvAddr != 0 && fl&rvRO == 0 && ok(kindOf(t)), t)
			storeTo(p, conv(g, t, a[0]))
			return nil
		})
	}
	trunc := func(g *G, t types.Type, v Value) Value {
		w, _, _ := intInfo(t)
		return g.w.tt.Extract(v.(*Term), 0, w)
	}
	same := func(g *G, t types.Type, v Value) Value { return v }
	set("SetInt", isInt, trunc)
	set("SetUint", isUint, trunc)
	set("SetBool", func(k reflect.Kind) bool { return k == reflect.Bool }, same)
	set("SetFloat", isFloat, same)
	set("SetComplex", isComplex, same)
	set("SetString", func(k reflect.Kind) bool { return k == reflect.String }, same)
	set("SetBytes", func(k reflect.Kind) bool { return k == reflect.Slice }, same)
	set("Set", func(reflect.Kind) bool { return true }, func(g *G, t types.Type, v Value) Value {
		ft, fp, _ := rvGet(g, v)
		if _, ok := t.Underlying().(*types.Interface); ok {
			if _, ok := ft.Underlying().(*types.Interface); !ok {
				return Iface{t: g.w.canon(ft), v: copyVal(*fp)}
			}
		}
		return copyVal(*fp)
	})
	vm("MapRange", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		m, _ := (*p).(*MapV)
		var e []*MapEntry
		if m != nil {
			for _, x := range m.ents {
				if !x.deleted {
					e = append(e, x)
				}
			}
		}
		q := new(Value)
		*q = &rMapIter{t: t.Underlying().(*types.Map), fl: fl & rvRO, e: e, i: -1}
		return q
	})
	it := func(v Value) *rMapIter { return (*v.(*Value)).(*rMapIter) }
	cell := func(v Value) *Value { q := new(Value); *q = copyVal(v); return q }
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		x := it(a[0])
		x.i++
		return CB(x.i < len(x.e)), true
	}, "(*reflect.MapIter).Next")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		x := it(a[0])
		return g.rvMake(x.t.Key(), cell(x.e[x.i].k), x.fl), true
	}, "(*reflect.MapIter).Key")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		x := it(a[0])
		return g.rvMake(x.t.Elem(), cell(x.e[x.i].v), x.fl), true
	}, "(*reflect.MapIter).Value")
	vm("MapKeys", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		r := Slice{}
		if m, _ := (*p).(*MapV); m != nil {
			for _, x := range m.ents {
				if !x.deleted {
					r = append(r, g.rvMake(t.Underlying().(*types.Map).Key(), cell(x.k), fl&rvRO))
				}
			}
		}
		return r
	})
	vm("MapIndex", func(g *G, t types.Type, p *Value, fl uint64, a []Value) Value {
		_, kp, _ := rvGet(g, a[0])
		if m, _ := (*p).(*MapV); m != nil {
			if e := m.find(g, *kp); e != nil {
				return g.rvMake(t.Underlying().(*types.Map).Elem(), cell(e.v), fl&rvRO)
			}
		}
		return rvInvalid()
	})
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil || x.t != y.t {
			return CB(x.t == nil && y.t == nil), true
		}
		return g.deepEq(x.t, x.v, y.v, 0), true
	}, "reflect.DeepEqual")
	reg(func(g *G, fi *finfo, a []Value) (Value, bool) {
		panic(engErr("reflection (%s) in %s", fi.name, g.stack()))
	}, "internal/reflectlite.ValueOf", "(reflect.Value).Call", "(reflect.Value).Method", "(reflect.Value).Convert")
}

type rMapIter struct {
	t  *types.Map
	fl uint64
	e  []*MapEntry
	i  int
}

func (g *G) deepEq(t types.Type, a, b Value, depth int) *Term {
	tt := g.w.tt
	if depth > 50 {
		panic(engErr("reflect.DeepEqual of a deep structure"))
	}
	list := func(x, y []Value, el func(i int) types.Type) *Term {
		r := CB(len(x) == len(y))
		if len(x) != len(y) {
			return r
		}
		for i := range x {
			r = tt.BAnd(r, g.deepEq(el(i), x[i], y[i], depth+1))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return list(a.(Struct), b.(Struct), func(i int) types.Type { return u.Field(i).Type() })
	case *types.Array:
		return list(a.(Array), b.(Array), func(i int) types.Type { return u.Elem() })
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) {
			return False
		}
		return list(x, y, func(i int) types.Type { return u.Elem() })
	case *types.Pointer:
		x, y := a.(*Value), b.(*Value)
		if x == nil || y == nil || x == y {
			return CB(x == y)
		}
		return g.deepEq(u.Elem(), *x, *y, depth+1)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil || x.t != y.t {
			return CB(x.t == nil && y.t == nil)
		}
		return g.deepEq(x.t, x.v, y.v, depth+1)
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if x == nil || y == nil {
			return CB(x == nil && y == nil)
		}
		if x.count != y.count {
			return False
		}
		r := True
		for _, e := range x.ents {
			if e.deleted {
				continue
			}
			f := y.find(g, e.k)
			if f == nil {
				return False
			}
			r = tt.BAnd(r, g.deepEq(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Signature:
		return CB(isNilFunc(a) && isNilFunc(b))
	}
	return g.eq(a, b)
}

var _ = fmt.Sprint

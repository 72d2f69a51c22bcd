package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v     Value
	where string
	msg   string
}

type instr struct {
	op   uint8
	dst  int32
	a    int32
	b    int32
	c    int32
	args []int32
	i    ssa.Instruction
	x    interface{}
	w    uint8
	sg   bool
	tok  token.Token
}

const (
	iNop uint8 = iota
	iAlloc
	iBinInt
	iBinGen
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArrayPtr
	iStore
	iTypeAssert
	iUnOp
	iPhi
	iBad
)

type blockInfo struct {
	ins   []instr
	nphi  int
	succs []int
	preds []int
}

type intrinsic func(g *G, fi *finfo, args []Value) (Value, bool)

type finfo struct {
	fn       *ssa.Function
	name     string
	n        int
	tmpl     []Value
	nparams  int
	blocks   []blockInfo
	hasDefer bool
	recover  int
	intr     intrinsic
	repl     *ssa.Function
	repo     bool // belongs to the repository
	harness  bool
	lib      bool // neither
	compiled bool
}

type deferred struct {
	fn   Value
	args []Value
	site *instr
}

type frame struct {
	fi        *finfo
	env       []Value
	block     int
	prev      int
	parent    *frame
	defers    []deferred
	panicking bool
	pv        targetPanic
	result    Value
	normal    bool
	cur       *instr
	tolerant  bool
}

// symPtr is the address of an element at a symbolic index, usable only for loading.
type symPtr struct {
	elems []Value
	idx   *Term
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg
		}
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
		if fn.Parent() == nil {
			break
		}
		fn = fn.Parent()
	}
	return nil
}

func pkgPathOf(fn *ssa.Function) string {
	if p := pkgOf(fn); p != nil {
		return p.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (w *W) info(fn *ssa.Function) *finfo {
	fi := w.finfos[fn]
	if fi == nil {
		fi = &finfo{fn: fn, name: fn.String(), recover: -1}
		if o := fn.Origin(); o != nil {
			fi.name = o.String()
		}
		path := pkgPathOf(fn)
		fi.repo = strings.HasPrefix(path, repoPath)
		fi.harness = strings.HasPrefix(path, harnessPath)
		fi.lib = !fi.repo && !fi.harness
		fi.intr = intrinsics[fi.name]
		if fi.intr == nil {
			if r, ok := w.run.models[fi.name]; ok && r != fn {
				fi.repl = r
			}
		}
		w.finfos[fn] = fi
	}
	return fi
}

func (g *G) compile(fi *finfo) {
	w := g.w
	fn := fi.fn
	fi.compiled = true
	if fn.Blocks == nil {
		return
	}
	if fi.repo {
		w.repoFns[fi.name] = true
	}
	if fi.lib {
		if p := pkgOf(fn); p != nil {
			g.initPkg(p)
		}
	}
	slots := map[ssa.Value]int{}
	var tmpl []Value
	newSlot := func(v ssa.Value) int {
		n := len(tmpl)
		slots[v] = n
		tmpl = append(tmpl, nil)
		return n
	}
	for _, p := range fn.Params {
		newSlot(p)
	}
	fi.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		newSlot(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newSlot(v)
			}
		}
	}
	slot := func(v ssa.Value) int32 {
		if v == nil {
			return -1
		}
		if n, ok := slots[v]; ok {
			return int32(n)
		}
		n := newSlot(v)
		switch v := v.(type) {
		case *ssa.Const:
			tmpl[n] = constValue(v)
		case *ssa.Global:
			if p := v.Pkg; p != nil && !w.isOurs(p) {
				g.initPkg(p)
			}
			tmpl[n] = w.global(v)
		case *ssa.Function:
			tmpl[n] = v
		case *ssa.Builtin:
			tmpl[n] = v
		default:
			panic(engErr("slot: %T in %s", v, fn))
		}
		return int32(n)
	}
	fi.blocks = make([]blockInfo, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		bl := &fi.blocks[bi]
		for _, s := range b.Succs {
			bl.succs = append(bl.succs, s.Index)
		}
		for _, s := range b.Preds {
			bl.preds = append(bl.preds, s.Index)
		}
		for _, in := range b.Instrs {
			x := instr{i: in, dst: -1, a: -1, b: -1, c: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = int32(slots[v])
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				x.op = iPhi
				for _, e := range in.Edges {
					x.args = append(x.args, slot(e))
				}
				bl.nphi++
			case *ssa.Alloc:
				x.op = iAlloc
				x.x = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				x.a, x.b, x.tok = slot(in.X), slot(in.Y), in.Op
				if wd, sg, ok := intInfo(in.X.Type()); ok {
					x.op, x.w, x.sg = iBinInt, wd, sg
					if in.Op == token.SHL || in.Op == token.SHR {
						yw, ysg, _ := intInfo(in.Y.Type())
						x.x = [2]int{int(yw), int(b2u(ysg))}
					}
				} else {
					x.op = iBinGen
				}
			case *ssa.UnOp:
				x.op, x.a, x.tok = iUnOp, slot(in.X), in.Op
				x.w, x.sg, _ = intInfo(in.Type())
				if in.Op == token.MUL {
					x.x = isStructArr(in.Type())
				}
			case *ssa.Call:
				x.op = iCall
				compileCall(&x, &in.Call, slot)
			case *ssa.Go:
				x.op = iGo
				compileCall(&x, &in.Call, slot)
			case *ssa.Defer:
				x.op = iDefer
				fi.hasDefer = true
				if in.DeferStack != nil {
					x.op = iBad
				}
				compileCall(&x, &in.Call, slot)
			case *ssa.ChangeInterface:
				x.op, x.a = iChangeInterface, slot(in.X)
			case *ssa.ChangeType:
				x.op, x.a = iChangeType, slot(in.X)
			case *ssa.Convert:
				x.op, x.a = iConvert, slot(in.X)
			case *ssa.MultiConvert:
				x.op, x.a = iConvert, slot(in.X)
			case *ssa.Extract:
				x.op, x.a, x.b = iExtract, slot(in.Tuple), int32(in.Index)
			case *ssa.Field:
				x.op, x.a, x.b = iField, slot(in.X), int32(in.Field)
			case *ssa.FieldAddr:
				x.op, x.a, x.b = iFieldAddr, slot(in.X), int32(in.Field)
			case *ssa.If:
				x.op, x.a = iIf, slot(in.Cond)
			case *ssa.Index:
				x.op, x.a, x.b = iIndex, slot(in.X), slot(in.Index)
				x.w, x.sg, _ = intInfo(in.Index.Type())
			case *ssa.IndexAddr:
				x.op, x.a, x.b = iIndexAddr, slot(in.X), slot(in.Index)
				x.w, x.sg, _ = intInfo(in.Index.Type())
				onlyLoads := true
				for _, r := range *in.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					onlyLoads = false
				}
				if _, _, ok := intInfo(in.Type().Underlying().(*types.Pointer).Elem()); !ok {
					onlyLoads = false
				}
				x.x = onlyLoads
			case *ssa.Jump:
				x.op = iJump
			case *ssa.Lookup:
				x.op, x.a, x.b = iLookup, slot(in.X), slot(in.Index)
				x.w, x.sg, _ = intInfo(in.Index.Type())
			case *ssa.MakeChan:
				x.op, x.a = iMakeChan, slot(in.Size)
			case *ssa.MakeClosure:
				x.op, x.x = iMakeClosure, in.Fn.(*ssa.Function)
				for _, e := range in.Bindings {
					x.args = append(x.args, slot(e))
				}
			case *ssa.MakeInterface:
				x.op, x.a, x.x = iMakeInterface, slot(in.X), w.canon(in.X.Type())
			case *ssa.MakeMap:
				x.op = iMakeMap
			case *ssa.MakeSlice:
				x.op, x.a, x.b = iMakeSlice, slot(in.Len), slot(in.Cap)
				x.x = in.Type().Underlying().(*types.Slice).Elem()
				x.w, x.sg, _ = intInfo(in.Len.Type())
			case *ssa.MapUpdate:
				x.op, x.a, x.b, x.c = iMapUpdate, slot(in.Map), slot(in.Key), slot(in.Value)
			case *ssa.Next:
				x.op, x.a = iNext, slot(in.Iter)
			case *ssa.Panic:
				x.op, x.a = iPanic, slot(in.X)
			case *ssa.Range:
				x.op, x.a = iRange, slot(in.X)
			case *ssa.Return:
				x.op = iReturn
				for _, e := range in.Results {
					x.args = append(x.args, slot(e))
				}
			case *ssa.RunDefers:
				x.op = iRunDefers
			case *ssa.Select:
				x.op = iSelect
				for _, s := range in.States {
					x.args = append(x.args, slot(s.Chan), slot(s.Send))
				}
			case *ssa.Send:
				x.op, x.a, x.b = iSend, slot(in.Chan), slot(in.X)
			case *ssa.Slice:
				x.op, x.a = iSlice, slot(in.X)
				x.args = []int32{slot(in.Low), slot(in.High), slot(in.Max)}
			case *ssa.SliceToArrayPointer:
				x.op, x.a = iSliceToArrayPtr, slot(in.X)
				x.x = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				x.op, x.a, x.b = iStore, slot(in.Addr), slot(in.Val)
			case *ssa.TypeAssert:
				x.op, x.a = iTypeAssert, slot(in.X)
				x.x = w.canon(in.AssertedType)
			default:
				panic(engErr("compile: %T", in))
			}
			bl.ins = append(bl.ins, x)
		}
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	fi.n = len(tmpl)
	fi.tmpl = tmpl
}

func compileCall(x *instr, c *ssa.CallCommon, slot func(ssa.Value) int32) {
	x.a = slot(c.Value)
	for _, a := range c.Args {
		x.args = append(x.args, slot(a))
	}
	if c.IsInvoke() {
		x.x = c.Method
	}
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	if b, ok := t.(*types.Basic); ok {
		if w, _, isInt := intInfo(b); isInt {
			if w == 0 {
				return CB(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return C(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return C(w, u)
		}
		switch b.Kind() {
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			i, _ := constant.Int64Val(c.Value)
			return Str{s: string(rune(i))}
		case types.Float32, types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			return f
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.UnsafePointer:
			return UPtr{}
		}
	}
	panic(engErr("constant %v : %v", c, c.Type()))
}

func (g *G) where() string {
	for f := g.top; f != nil; f = f.parent {
		if f.fi.repo {
			return f.fi.name
		}
	}
	if g.top != nil {
		return g.top.fi.name
	}
	return "?"
}

// stack renders the interpreted call stack, innermost first.
func (g *G) stack() string {
	var sb strings.Builder
	n := 0
	for f := g.top; f != nil && n < 14; f = f.parent {
		pos := ""
		if f.cur != nil && f.cur.i != nil {
			p := g.w.run.prog.Fset.Position(f.cur.i.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf(" %s:%d", shortFile(p.Filename), p.Line)
			}
		}
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fi.name + pos)
		n++
	}
	return sb.String()
}

func shortFile(f string) string {
	p := strings.Split(f, "/")
	if len(p) > 2 {
		p = p[len(p)-2:]
	}
	return strings.Join(p, "/")
}

// rtPanic raises a Go run-time error in the interpreted program.
func (g *G) rtPanic(msg string) {
	t := g.w.run.rtErrorType
	panic(targetPanic{v: Iface{t: t, v: Str{s: msg}}, where: g.stack(), msg: "runtime error: " + msg})
}

func (g *G) nilDeref() { g.rtPanic("invalid memory address or nil pointer dereference") }

func (g *G) call(fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			g.nilDeref()
		}
		return g.callFn(f, args, nil)
	case *Closure:
		return g.callFn(f.fn, args, f.env)
	case *Native:
		return f.fn(g, args)
	case *ssa.Builtin:
		panic(engErr("call of builtin value %s", f.Name()))
	}
	panic(engErr("call of %T", fv))
}

func (g *G) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	fi := g.w.info(fn)
	if fi.lib && fn.Synthetic == "package initializer" {
		g.initPkg(fn.Pkg)
		return nil
	}
	if fi.intr != nil {
		if r, ok := fi.intr(g, fi, args); ok {
			return r
		}
	} else if fi.repl != nil {
		fi = g.w.info(fi.repl)
		fn = fi.fn
	}
	if !fi.compiled {
		g.compile(fi)
	}
	if fi.blocks == nil {
		panic(engErr("no body for %s (called from %s)", fi.name, g.stack()))
	}
	if g.depth > 2000 {
		panic(engErr("call depth in %s", g.stack()))
	}
	w := g.w
	var fr *frame
	if n := len(w.freeFrames); n > 0 {
		fr = w.freeFrames[n-1]
		w.freeFrames = w.freeFrames[:n-1]
		*fr = frame{fi: fi, parent: g.top, prev: -1}
	} else {
		fr = &frame{fi: fi, parent: g.top, prev: -1}
	}
	cl := bits.Len(uint(fi.n))
	if l := w.freeEnvs[cl]; len(l) > 0 {
		fr.env = l[len(l)-1][:fi.n]
		w.freeEnvs[cl] = l[:len(l)-1]
	} else {
		fr.env = make([]Value, fi.n, 1<<cl)
	}
	copy(fr.env, fi.tmpl)
	copy(fr.env, args)
	copy(fr.env[fi.nparams:], env)
	g.top = fr
	g.depth++
	if fi.hasDefer {
		g.runDefer(fr)
	} else {
		g.exec(fr)
	}
	g.depth--
	g.top = fr.parent
	r := fr.result
	if !fi.hasDefer && len(w.freeFrames) < 256 {
		// nothing refers to the frame of a function that has returned
		w.freeEnvs[cl] = append(w.freeEnvs[cl], fr.env)
		w.freeFrames = append(w.freeFrames, fr)
	}
	return r
}

func (g *G) runDefer(fr *frame) {
	depth := g.depth
	for {
		again := false
		func() {
			defer func() {
				if fr.normal {
					return
				}
				r := recover()
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking, fr.pv = true, tp
				g.top, g.depth = fr, depth
				g.runDefers(fr)
				// recovered
				if fr.fi.recover >= 0 {
					fr.block, fr.prev = fr.fi.recover, -1
					again = true
				} else {
					fr.result = zeroResults(fr.fi.fn)
				}
			}()
			g.exec(fr)
			fr.normal = true
		}()
		if !again {
			return
		}
		fr.normal = false
	}
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (g *G) runDefers(fr *frame) {
	depth := g.depth
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, isT := r.(targetPanic)
				if !isT {
					panic(r)
				}
				fr.panicking, fr.pv = true, tp
				g.top, g.depth = fr, depth
			}()
			g.callDeferred(fr, d)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (g *G) callDeferred(fr *frame, d deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		g.builtin(fr, b, d.site, d.args)
		return
	}
	g.call(d.fn, d.args)
}

func (g *G) getCall(fr *frame, x *instr) (Value, []Value) {
	env := fr.env
	if m, ok := x.x.(*types.Func); ok {
		recv := env[x.a].(Iface)
		if recv.t == nil {
			g.nilDeref()
		}
		fn := g.w.method(recv.t, m)
		args := make([]Value, len(x.args)+1)
		args[0] = recv.v
		for i, a := range x.args {
			args[i+1] = env[a]
		}
		return fn, args
	}
	args := make([]Value, len(x.args))
	for i, a := range x.args {
		args[i] = env[a]
	}
	return env[x.a], args
}

func (g *G) tolerantCall(fr *frame, x *instr) (res Value) {
	top, depth := g.top, g.depth
	defer func() {
		if r := recover(); r != nil {
			var msg string
			switch r := r.(type) {
			case engineError:
				msg = r.msg
			case targetPanic:
				msg = "panic " + r.msg
			default:
				msg = fmt.Sprint(r)
			}
			g.w.run.debugf("init of %s: %s", fr.fi.name, msg)
			g.top, g.depth = top, depth
			if c, ok := x.i.(*ssa.Call); ok {
				if t, ok := c.Type().(*types.Tuple); ok && t.Len() == 0 {
					return
				}
				res = zero(c.Type())
			}
		}
	}()
	return g.doCall(fr, x)
}

func (g *G) doCall(fr *frame, x *instr) Value {
	fv, args := g.getCall(fr, x)
	if b, ok := fv.(*ssa.Builtin); ok {
		return g.builtin(fr, b, x, args)
	}
	return g.call(fv, args)
}

func (g *G) exec(fr *frame) {
	fi := fr.fi
	env := fr.env
	p := g.p
	w := g.w
	tt := w.tt
	for {
		bl := &fi.blocks[fr.block]
		ins := bl.ins
		k := 0
		if bl.nphi > 0 {
			pi := 0
			for i, pr := range bl.preds {
				if pr == fr.prev {
					pi = i
					break
				}
			}
			if bl.nphi == 1 {
				env[ins[0].dst] = env[ins[0].args[pi]]
			} else {
				var tmp [16]Value
				t := tmp[:0]
				for i := 0; i < bl.nphi; i++ {
					t = append(t, env[ins[i].args[pi]])
				}
				for i := 0; i < bl.nphi; i++ {
					env[ins[i].dst] = t[i]
				}
			}
			k = bl.nphi
		}
		p.steps += int64(len(ins))
		if p.steps&1023 < int64(len(ins)) && w.run.outOfMem.Load() {
			panic(pathEnd{"limit", "memory limit in " + g.stack()})
		}
		if p.steps > w.run.maxSteps {
			panic(pathEnd{"spin", "does not end: step limit in " + g.stack()})
		}
	body:
		for ; k < len(ins); k++ {
			x := &ins[k]
			fr.cur = x
			switch x.op {
			case iBinInt:
				a, b := env[x.a].(*Term), env[x.b].(*Term)
				env[x.dst] = g.binInt(x, a, b)
			case iBinGen:
				env[x.dst] = g.binGen(x.tok, env[x.a], env[x.b])
			case iUnOp:
				switch x.tok {
				case token.MUL:
					switch pv := env[x.a].(type) {
					case *Value:
						if pv == nil {
							g.nilDeref()
						}
						if x.x.(bool) {
							env[x.dst] = copyVal(*pv)
						} else {
							env[x.dst] = *pv
						}
					case symPtr:
						env[x.dst] = g.iteSelect(pv.elems, pv.idx)
					case UPtr:
						panic(engErr("deref of unsafe pointer in %s", g.stack()))
					default:
						panic(engErr("deref of %T in %s", pv, g.stack()))
					}
				case token.NOT:
					env[x.dst] = tt.BNot(env[x.a].(*Term))
				case token.SUB:
					switch v := env[x.a].(type) {
					case *Term:
						env[x.dst] = tt.Neg(v)
					case float64:
						env[x.dst] = -v
					default:
						panic(engErr("neg %T", v))
					}
				case token.XOR:
					env[x.dst] = tt.Not(env[x.a].(*Term))
				case token.ARROW:
					u := x.i.(*ssa.UnOp)
					v, ok := g.recv(env[x.a].(*ChanV))
					if !ok {
						v = zero(u.X.Type().Underlying().(*types.Chan).Elem())
					}
					if u.CommaOk {
						env[x.dst] = Tuple{v, CB(ok)}
					} else {
						env[x.dst] = v
					}
				default:
					panic(engErr("unop %v", x.tok))
				}
			case iCall:
				if fr.tolerant {
					env[x.dst] = g.tolerantCall(fr, x)
				} else {
					env[x.dst] = g.doCall(fr, x)
				}
			case iAlloc:
				v := new(Value)
				*v = zero(x.x.(types.Type))
				env[x.dst] = v
			case iStore:
				pv, ok := env[x.a].(*Value)
				if !ok {
					panic(engErr("store through %T in %s", env[x.a], g.stack()))
				}
				if pv == nil {
					g.nilDeref()
				}
				storeTo(pv, env[x.b])
			case iFieldAddr:
				pv, ok := env[x.a].(*Value)
				if !ok {
					panic(engErr("field of %T in %s", env[x.a], g.stack()))
				}
				if pv == nil {
					g.nilDeref()
				}
				s, ok := (*pv).(Struct)
				if !ok {
					panic(engErr("fieldaddr of %T in %s", *pv, g.stack()))
				}
				env[x.dst] = &s[x.b]
			case iField:
				env[x.dst] = env[x.a].(Struct)[x.b]
			case iExtract:
				env[x.dst] = env[x.a].(Tuple)[x.b]
			case iIndexAddr:
				env[x.dst] = g.indexAddr(x, env[x.a], env[x.b].(*Term))
			case iIndex:
				env[x.dst] = g.index(x, env[x.a], env[x.b].(*Term))
			case iIf:
				c := env[x.a].(*Term)
				var out bool
				if c.op == OpConst {
					out = c.k != 0
				} else {
					out = p.branch(c)
				}
				fr.prev = fr.block
				if out {
					fr.block = bl.succs[0]
				} else {
					fr.block = bl.succs[1]
				}
				break body
			case iJump:
				fr.prev = fr.block
				fr.block = bl.succs[0]
				break body
			case iReturn:
				switch len(x.args) {
				case 0:
				case 1:
					fr.result = env[x.args[0]]
				default:
					t := make(Tuple, len(x.args))
					for i, a := range x.args {
						t[i] = env[a]
					}
					fr.result = t
				}
				return
			case iMakeInterface:
				v := env[x.a]
				env[x.dst] = Iface{t: x.x.(types.Type), v: v}
			case iChangeInterface, iChangeType:
				env[x.dst] = env[x.a]
			case iConvert:
				env[x.dst] = g.convert(x, env[x.a])
			case iSlice:
				env[x.dst] = g.slice(fr, x)
			case iMakeSlice:
				env[x.dst] = g.makeSlice(x, env[x.a].(*Term), env[x.b].(*Term))
			case iMakeClosure:
				e := make([]Value, len(x.args))
				for i, a := range x.args {
					e[i] = env[a]
				}
				env[x.dst] = &Closure{fn: x.x.(*ssa.Function), env: e}
			case iMakeMap:
				env[x.dst] = newMap()
			case iMakeChan:
				n := g.concInt(env[x.a].(*Term))
				env[x.dst] = &ChanV{cap: n}
			case iLookup:
				env[x.dst] = g.lookup(x, env[x.a], env[x.b])
			case iMapUpdate:
				m := env[x.a].(*MapV)
				if m == nil {
					g.goPanic("assignment to entry in nil map")
				}
				m.set(g, env[x.b], copyVal(env[x.c]))
			case iRange:
				env[x.dst] = g.rangeIter(env[x.a])
			case iNext:
				env[x.dst] = env[x.a].(iter).next(g, x.i.(*ssa.Next))
			case iTypeAssert:
				env[x.dst] = g.typeAssert(x.i.(*ssa.TypeAssert), x.x.(types.Type), env[x.a].(Iface))
			case iPanic:
				v := env[x.a].(Iface)
				panic(targetPanic{v: v, where: g.stack(), msg: g.panicMsg(v)})
			case iDefer:
				fv, args := g.getCall(fr, x)
				fr.defers = append(fr.defers, deferred{fv, args, x})
			case iRunDefers:
				g.runDefers(fr)
			case iGo:
				fv, args := g.getCall(fr, x)
				g.spawn(fv, args, x)
			case iSend:
				g.send(env[x.a].(*ChanV), env[x.b])
			case iSelect:
				env[x.dst] = g.selectOp(fr, x)
			case iSliceToArrayPtr:
				s := env[x.a].(Slice)
				n := x.x.(int)
				if len(s) < n {
					g.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
				}
				if s == nil {
					env[x.dst] = (*Value)(nil)
				} else {
					v := new(Value)
					*v = Array(s[:n:n])
					env[x.dst] = v
				}
			case iNop:
			default:
				panic(engErr("instruction %T in %s", x.i, fi.name))
			}
		}
	}
}

func (g *G) goPanic(msg string) {
	panic(targetPanic{v: Iface{t: g.w.run.rtErrorType, v: Str{s: msg}}, where: g.stack(), msg: msg})
}

func (g *G) panicMsg(v Iface) string {
	if v.t == nil {
		return "panic(nil)"
	}
	switch x := v.v.(type) {
	case Str:
		if x.b == nil {
			return x.s
		}
		return "(symbolic string)"
	case *Term:
		return x.String()
	}
	// error values: try Error()
	if fn := g.w.lookupMethod(v.t, "Error"); fn != nil {
		return "error of type " + v.t.String()
	}
	return v.t.String()
}

func (g *G) concInt(t *Term) int {
	if t.op == OpConst {
		return int(sext64(t.k, t.w))
	}
	return int(sext64(g.p.concretise(t, g.w.run.maxConc), t.w))
}

func (g *G) branch(c *Term) bool { return g.p.branch(c) }

func (g *G) binInt(x *instr, a, b *Term) Value {
	tt := g.w.tt
	switch x.tok {
	case token.ADD:
		return tt.Add(a, b)
	case token.SUB:
		return tt.Sub(a, b)
	case token.MUL:
		return tt.Mul(a, b)
	case token.QUO, token.REM:
		if b.op == OpConst {
			if b.k == 0 {
				g.rtPanic("integer divide by zero")
			}
		} else if g.branch(tt.Eq(b, C(b.w, 0))) {
			g.rtPanic("integer divide by zero")
		}
		switch {
		case x.tok == token.QUO && x.sg:
			return tt.SDiv(a, b)
		case x.tok == token.QUO:
			return tt.UDiv(a, b)
		case x.sg:
			return tt.SRem(a, b)
		default:
			return tt.URem(a, b)
		}
	case token.AND:
		return tt.And(a, b)
	case token.OR:
		return tt.Or(a, b)
	case token.XOR:
		return tt.Xor(a, b)
	case token.AND_NOT:
		return tt.AndNot(a, b)
	case token.SHL, token.SHR:
		inf := x.x.([2]int)
		if inf[1] == 1 { // signed count
			neg := tt.Slt(b, C(b.w, 0))
			if g.branch(neg) {
				g.rtPanic("negative shift amount")
			}
		}
		// resize count to a's width, saturating
		if b.op != OpConst {
			if b.w > a.w {
				big := tt.Ule(C(b.w, uint64(a.w)), b)
				if g.branch(big) {
					b = C(a.w, uint64(a.w))
				} else {
					b = tt.Extract(b, 0, a.w)
				}
			} else if b.w < a.w {
				b = tt.ZExt(b, a.w)
			}
		} else if b.w != a.w {
			k := b.k
			if k > 64 {
				k = 64
			}
			b = &Term{op: OpConst, w: a.w, k: k, lo: k, hi: k}
		}
		switch {
		case x.tok == token.SHL:
			return tt.Shl(a, b)
		case x.sg:
			return tt.AShr(a, b)
		default:
			return tt.LShr(a, b)
		}
	case token.EQL:
		return tt.Eq(a, b)
	case token.NEQ:
		return tt.BNot(tt.Eq(a, b))
	case token.LSS:
		if x.sg {
			return tt.Slt(a, b)
		}
		return tt.Ult(a, b)
	case token.LEQ:
		if x.sg {
			return tt.Sle(a, b)
		}
		return tt.Ule(a, b)
	case token.GTR:
		if x.sg {
			return tt.Slt(b, a)
		}
		return tt.Ult(b, a)
	case token.GEQ:
		if x.sg {
			return tt.Sle(b, a)
		}
		return tt.Ule(b, a)
	}
	panic(engErr("binop %v", x.tok))
}

func (g *G) binGen(op token.Token, a, b Value) Value {
	tt := g.w.tt
	switch op {
	case token.EQL:
		return g.eq(a, b)
	case token.NEQ:
		return tt.BNot(g.eq(a, b))
	}
	switch a := a.(type) {
	case Str:
		bs := b.(Str)
		switch op {
		case token.ADD:
			return concat(a, bs)
		case token.LSS:
			return g.strLess(a, bs)
		case token.GTR:
			return g.strLess(bs, a)
		case token.LEQ:
			return tt.BNot(g.strLess(bs, a))
		case token.GEQ:
			return tt.BNot(g.strLess(a, bs))
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return a + y
		case token.SUB:
			return a - y
		case token.MUL:
			return a * y
		case token.QUO:
			return a / y
		case token.LSS:
			return CB(a < y)
		case token.LEQ:
			return CB(a <= y)
		case token.GTR:
			return CB(a > y)
		case token.GEQ:
			return CB(a >= y)
		}
	}
	panic(engErr("binop %v on %T", op, a))
}

// toIdx widens an index to 64 bits.
func (g *G) toIdx(t *Term, w uint8, sg bool) *Term {
	if t.w == 64 {
		return t
	}
	if sg {
		return g.w.tt.SExt(t, 64)
	}
	return g.w.tt.ZExt(t, 64)
}

func (g *G) boundsCheck(idx *Term, n int) {
	if idx.op == OpConst {
		if idx.k >= uint64(n) {
			g.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.k), n))
		}
		return
	}
	if !g.branch(g.w.tt.Ult(idx, C(64, uint64(n)))) {
		g.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (g *G) indexAddr(x *instr, base Value, i *Term) Value {
	var el []Value
	switch b := base.(type) {
	case Slice:
		el = b
	case *Value:
		if b == nil {
			g.nilDeref()
		}
		el = (*b).(Array)
	default:
		panic(engErr("indexaddr on %T in %s", base, g.stack()))
	}
	idx := g.toIdx(i, x.w, x.sg)
	g.boundsCheck(idx, len(el))
	if idx.op == OpConst {
		return &el[idx.k]
	}
	if x.x.(bool) {
		return symPtr{el, idx}
	}
	k := g.p.concretise(idx, g.w.run.maxConc)
	return &el[k]
}

func (g *G) iteSelect(el []Value, idx *Term) Value {
	tt := g.w.tt
	n := len(el)
	hi := idx.hi
	if hi >= uint64(n) {
		hi = uint64(n - 1)
	}
	var r *Term
	j := int(hi)
	for j >= int(idx.lo) {
		v := el[j].(*Term)
		s := j
		for s > int(idx.lo) && same(el[s-1].(*Term), v) {
			s--
		}
		if r == nil {
			r = v
		} else {
			// idx <= j ? v : r   (s..j), with everything above already decided
			r = tt.Ite(tt.Ule(idx, C(64, uint64(j))), v, r)
		}
		j = s - 1
	}
	return r
}

func (g *G) index(x *instr, base Value, i *Term) Value {
	idx := g.toIdx(i, x.w, x.sg)
	switch b := base.(type) {
	case Str:
		g.boundsCheck(idx, b.Len())
		if idx.op == OpConst {
			return b.At(int(idx.k))
		}
		return g.iteSelect(b.toSlice(), idx)
	case Array:
		g.boundsCheck(idx, len(b))
		if idx.op == OpConst {
			return b[idx.k]
		}
		if len(b) > 0 {
			if _, ok := b[0].(*Term); ok {
				return g.iteSelect(b, idx)
			}
		}
		return b[g.p.concretise(idx, g.w.run.maxConc)]
	}
	panic(engErr("index on %T", base))
}

func (g *G) lookup(x *instr, base, key Value) Value {
	in := x.i.(*ssa.Lookup)
	switch b := base.(type) {
	case Str:
		return g.index(x, base, key.(*Term))
	case *MapV:
		e := b.find(g, key)
		if ifc, ok := key.(Iface); ok && ifc.t != nil {
			switch ifc.t.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Signature:
				g.rtPanic("hash of unhashable type " + ifc.t.String())
			}
		}
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, CB(e != nil)}
		}
		return v
	}
	panic(engErr("lookup on %T", base))
}

func (g *G) slice(fr *frame, x *instr) Value {
	env := fr.env
	in := x.i.(*ssa.Slice)
	get := func(k int, v ssa.Value) *Term {
		if x.args[k] < 0 {
			return nil
		}
		t := env[x.args[k]].(*Term)
		w, sg, _ := intInfo(v.Type())
		return g.toIdx(t, w, sg)
	}
	lo, hi, max := get(0, in.Low), get(1, in.High), get(2, in.Max)
	base := env[x.a]
	var ln, cp int
	switch b := base.(type) {
	case Str:
		ln, cp = b.Len(), b.Len()
	case Slice:
		ln, cp = len(b), cap(b)
	case *Value:
		if b == nil {
			g.nilDeref()
		}
		a := (*b).(Array)
		ln, cp = len(a), cap(a)
		if cp > len(a) {
			cp = len(a)
		}
	default:
		panic(engErr("slice of %T", base))
	}
	tt := g.w.tt
	m := cp
	if max != nil {
		if max.op != OpConst {
			if !g.branch(tt.Ule(max, C(64, uint64(cp)))) {
				g.rtPanic("slice bounds out of range")
			}
			m = g.concInt(max)
		} else {
			m = int(max.k)
			if m < 0 || m > cp {
				g.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cp))
			}
		}
	}
	h := ln
	if hi != nil {
		if hi.op != OpConst {
			if !g.branch(tt.Ule(hi, C(64, uint64(m)))) {
				g.rtPanic("slice bounds out of range")
			}
			h = g.concInt(hi)
		} else {
			h = int(hi.k)
			if h < 0 || h > m {
				g.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
			}
		}
	}
	l := 0
	if lo != nil {
		if lo.op != OpConst {
			if !g.branch(tt.Ule(lo, C(64, uint64(h)))) {
				g.rtPanic("slice bounds out of range")
			}
			l = g.concInt(lo)
		} else {
			l = int(lo.k)
			if l < 0 || l > h {
				g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
		}
	} else if l > h {
		g.rtPanic("slice bounds out of range")
	}
	switch b := base.(type) {
	case Str:
		return b.Slice(l, h)
	case Slice:
		if b == nil {
			return b
		}
		return b[l:h:m]
	case *Value:
		return Slice((*b).(Array))[l:h:m]
	}
	return nil
}

const maxAlloc = 1 << 22

func (g *G) makeSlice(x *instr, n, c *Term) Value {
	el := x.x.(types.Type)
	tt := g.w.tt
	ln := g.allocSize(g.toIdx(n, x.w, true), "makeslice: len out of range", tt)
	cp := ln
	if c != n {
		cp = g.allocSize(g.toIdx(c, x.w, true), "makeslice: cap out of range", tt)
		if cp < ln {
			g.rtPanic("makeslice: cap out of range")
		}
	}
	return makeSliceOf(el, ln, cp)
}

func makeSliceOf(el types.Type, ln, cp int) Slice {
	s := make(Slice, cp)
	if isStructArr(el) {
		for i := range s {
			s[i] = zero(el)
		}
	} else {
		z := zero(el)
		for i := range s {
			s[i] = z
		}
	}
	return s[:ln]
}

func (g *G) allocSize(t *Term, msg string, tt *TT) int {
	if t.op == OpConst {
		v := int64(t.k)
		if v < 0 || v > 1<<47 {
			g.rtPanic(msg)
		}
		if v > maxAlloc {
			panic(pathEnd{"huge", fmt.Sprintf("allocation of %d bytes", v)})
		}
		return int(v)
	}
	if g.branch(tt.Ult(C(64, 1<<47), t)) { // negative or too large
		g.rtPanic(msg)
	}
	small := uint64(g.w.run.maxSymAlloc)
	if g.branch(tt.Ult(C(64, small), t)) {
		// one representative above the bound; the rest is outside the claim
		g.w.run.noteOutside(fmt.Sprintf("symbolic allocation sizes above %d are represented by a single larger size", small))
		v := g.p.eval(t)
		if g.p.replaying() {
			v = 0
		}
		return g.reprSize(t, v)
	}
	return g.concInt(t)
}

// reprSize picks one representative large size, preferring a moderate one.
func (g *G) reprSize(t *Term, v uint64) int {
	p := g.p
	tt := g.w.tt
	lim := C(64, 70000)
	if p.branchOne(tt.Ule(t, lim)) {
		return int(p.pickOne(t))
	}
	panic(pathEnd{"huge", "allocation beyond 70000 bytes of a symbolic size"})
}

// branchOne is true when c is feasible; c is then assumed. (The other side is dropped deliberately.)
func (p *Path) branchOne(c *Term) bool {
	if c.op == OpConst {
		return c.k != 0
	}
	if p.replaying() {
		d := p.take('b')
		if d.out {
			p.addPC(c)
		}
		return d.out
	}
	if p.eval(c) != 0 {
		p.addPC(c)
		p.dec = append(p.dec, Decision{kind: 'b', out: true})
		p.pos = len(p.dec)
		return true
	}
	r := p.query(c)
	if r.sat == 1 {
		p.adopt(r)
		p.addPC(c)
		p.dec = append(p.dec, Decision{kind: 'b', out: true})
		p.pos = len(p.dec)
		return true
	}
	p.dec = append(p.dec, Decision{kind: 'b', out: false})
	p.pos = len(p.dec)
	return false
}

// pickOne fixes t to one feasible value.
func (p *Path) pickOne(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if p.replaying() {
		d := p.take('v')
		p.addPC(p.tt().Eq(t, C(t.w, d.val)))
		return d.val
	}
	v := p.eval(t)
	p.addPC(p.tt().Eq(t, C(t.w, v)))
	p.dec = append(p.dec, Decision{kind: 'v', out: true, val: v})
	p.pos = len(p.dec)
	return v
}

func (g *G) convert(x *instr, v Value) Value {
	var from, to types.Type
	switch in := x.i.(type) {
	case *ssa.Convert:
		from, to = in.X.Type(), in.Type()
	case *ssa.MultiConvert:
		from, to = in.X.Type(), in.Type()
	}
	return g.convertT(from.Underlying(), to.Underlying(), v)
}

func (g *G) convertT(from, to types.Type, v Value) Value {
	tt := g.w.tt
	if tw, _, ok := intInfo(to); ok && tw > 0 {
		if fw, fs, ok := intInfo(from); ok {
			t := v.(*Term)
			switch {
			case tw == fw:
				return t
			case tw < fw:
				return tt.Extract(t, 0, tw)
			case fs:
				return tt.SExt(t, tw)
			default:
				return tt.ZExt(t, tw)
			}
		}
		switch f := v.(type) {
		case float64:
			if _, sg, _ := intInfo(to); sg {
				return C(tw, uint64(int64(f)))
			}
			return C(tw, uint64(f))
		case UPtr: // uintptr(unsafe.Pointer)
			if isNilPtr(f.v) {
				return C(64, 0)
			}
			return C(64, uint64(uintptr(ptrOf(f.v))))
		}
	}
	switch to := to.(type) {
	case *types.Basic:
		switch {
		case to.Info()&types.IsString != 0:
			switch v := v.(type) {
			case Str:
				return v
			case *Term: // string(rune)
				if v.op != OpConst {
					_, sg, _ := intInfo(from)
					return g.runeStr(v, sg)
				}
				return Str{s: string(rune(sext64(v.k, v.w)))}
			case Slice:
				el := from.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Int32 {
					r := Str{}
					for _, e := range v {
						r = concat(r, g.convertT(types.Typ[types.Rune], to, e).(Str))
					}
					return r
				}
				return bytesToStr(v)
			}
		case to.Info()&types.IsFloat != 0:
			switch v := v.(type) {
			case float64:
				if to.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				if v.op != OpConst {
					panic(engErr("symbolic int to float in %s", g.stack()))
				}
				if _, sg, _ := intInfo(from); sg {
					return float64(sext64(v.k, v.w))
				}
				return float64(v.k)
			}
		case to.Kind() == types.UnsafePointer:
			if u, ok := v.(UPtr); ok {
				return u
			}
			if t, ok := v.(*Term); ok {
				if t.op == OpConst && t.k == 0 {
					return UPtr{}
				}
				panic(engErr("uintptr to unsafe.Pointer in %s", g.stack()))
			}
			return UPtr{v}
		}
	case *types.Slice:
		s, ok := v.(Str)
		if ok {
			el := to.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Int32 {
				r := Slice{}
				if s.b != nil {
					for it := (&strIter{s: s}); ; {
						t := it.next(g, nil).(Tuple)
						if t[0] == Value(False) {
							return r
						}
						r = append(r, t[2])
					}
				}
				for _, c := range s.s {
					r = append(r, C(32, uint64(uint32(c))))
				}
				return r
			}
			return s.toSlice()
		}
		return v
	case *types.Pointer:
		if u, ok := v.(UPtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
		return v
	}
	panic(engErr("convert %v -> %v (%T) in %s", from, to, v, g.stack()))
}

// runeStr is string(r) of a symbolic rune.
func (g *G) runeStr(v *Term, signed bool) Str {
	tt := g.w.tt
	if signed {
		v = tt.SExt(v, 64)
	} else {
		v = tt.ZExt(v, 64)
	}
	low := func(shift, n uint8, pre uint64) *Term {
		return tt.Or(tt.ZExt(tt.Extract(v, shift, n), 8), C(8, pre))
	}
	lt := func(k uint64) bool { return g.branch(tt.Ult(v, C(64, k))) }
	switch {
	case lt(0x80):
		return Str{b: []*Term{tt.Extract(v, 0, 8)}}
	case lt(0x800):
		return Str{b: []*Term{low(6, 5, 0xc0), low(0, 6, 0x80)}}
	case lt(0x10000):
		if !lt(0xd800) && lt(0xe000) {
			return Str{s: "\uFFFD"}
		}
		return Str{b: []*Term{low(12, 4, 0xe0), low(6, 6, 0x80), low(0, 6, 0x80)}}
	case lt(0x110000):
		return Str{b: []*Term{low(18, 3, 0xf0), low(12, 6, 0x80), low(6, 6, 0x80), low(0, 6, 0x80)}}
	}
	return Str{s: "\uFFFD"}
}

func ptrOf(v Value) unsafe.Pointer {
	switch p := v.(type) {
	case *Value:
		return unsafe.Pointer(p)
	}
	return nil
}

// ---- iteration

type iter interface {
	next(g *G, in *ssa.Next) Value
}

type strIter struct {
	s Str
	i int
}

type mapIter struct {
	ents []*MapEntry
	i    int
}

func (g *G) rangeIter(v Value) Value {
	switch v := v.(type) {
	case Str:
		return &strIter{s: v}
	case *MapV:
		if v == nil {
			return &mapIter{}
		}
		var e []*MapEntry
		for _, x := range v.ents {
			if !x.deleted {
				e = append(e, x)
			}
		}
		if g.p.mapFork && len(e) > 1 && len(e) <= 3 && g.top.fi.repo {
			// every iteration order
			for i := 0; i < len(e)-1; i++ {
				j := i + g.p.choose(len(e)-i)
				e[i], e[j] = e[j], e[i]
			}
			g.p.trace = append(g.p.trace, "map order chosen")
		}
		return &mapIter{ents: e}
	}
	panic(engErr("range over %T", v))
}

func (it *strIter) next(g *G, in *ssa.Next) Value {
	if it.i >= it.s.Len() {
		return Tuple{False, C(64, 0), C(32, 0)}
	}
	i := it.i
	if it.s.b == nil {
		r, n := utf8.DecodeRuneInString(it.s.s[i:])
		it.i += n
		return Tuple{True, C(64, uint64(i)), C(32, uint64(uint32(r)))}
	}
	c := it.s.At(i)
	tt := g.w.tt
	if g.branch(tt.Ult(c, C(8, 0x80))) {
		it.i++
		return Tuple{True, C(64, uint64(i)), tt.ZExt(c, 32)}
	}
	t := g.call(g.w.run.fnDecodeRune, []Value{it.s.Slice(i, it.s.Len())}).(Tuple)
	it.i += g.concInt(t[1].(*Term))
	return Tuple{True, C(64, uint64(i)), t[0]}
}

func (it *mapIter) next(g *G, in *ssa.Next) Value {
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.deleted {
			continue
		}
		return Tuple{True, e.k, copyVal(e.v)}
	}
	tup := in.Type().(*types.Tuple)
	z := func(i int) Value {
		t := tup.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return Tuple{False, z(1), z(2)}
}

// ---- interfaces

func (g *G) typeAssert(in *ssa.TypeAssert, t types.Type, v Iface) Value {
	ok := false
	var r Value
	if v.t != nil {
		if it, isI := t.Underlying().(*types.Interface); isI {
			ok = g.w.implements(v.t, it)
			r = v
		} else {
			ok = v.t == t
			r = v.v
		}
	}
	if in.CommaOk {
		if !ok {
			r = zero(t)
		}
		return Tuple{r, CB(ok)}
	}
	if !ok {
		s := "nil"
		if v.t != nil {
			s = v.t.String()
		}
		g.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", s, t))
	}
	return r
}

// ---- builtins

func (g *G) builtin(fr *frame, b *ssa.Builtin, x *instr, args []Value) Value {
	tt := g.w.tt
	switch b.Name() {
	case "Sizeof":
		return C(64, uint64(g.w.sizes.Sizeof(x.i.(ssa.CallInstruction).Common().Args[0].Type())))
	case "len":
		switch v := args[0].(type) {
		case Str:
			return C(64, uint64(v.Len()))
		case Slice:
			return C(64, uint64(len(v)))
		case *MapV:
			if v == nil {
				return C(64, 0)
			}
			return C(64, uint64(v.count))
		case *ChanV:
			if v == nil {
				return C(64, 0)
			}
			return C(64, uint64(len(v.buf)))
		case Array:
			return C(64, uint64(len(v)))
		case *Value:
			return C(64, uint64(len((*v).(Array))))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return C(64, uint64(cap(v)))
		case *ChanV:
			if v == nil {
				return C(64, 0)
			}
			return C(64, uint64(v.cap))
		case Array:
			return C(64, uint64(len(v)))
		case *Value:
			return C(64, uint64(len((*v).(Array))))
		}
	case "append":
		var add Slice
		switch v := args[1].(type) {
		case Str:
			add = v.toSlice()
		case Slice:
			add = v
		}
		sig := b.Type().(*types.Signature)
		el := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		return appendSlice(args[0].(Slice), add, el)
	case "copy":
		dst := args[0].(Slice)
		var src Slice
		switch v := args[1].(type) {
		case Str:
			src = v.toSlice()
		case Slice:
			src = v
		}
		n := copySlice(dst, src)
		return C(64, uint64(n))
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			m.del(g, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			if v != nil {
				for _, e := range v.ents {
					e.deleted = true
				}
				v.ents, v.idx, v.nsym, v.count = nil, map[string]*MapEntry{}, 0, 0
			}
		case Slice:
			sig := b.Type().(*types.Signature)
			el := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				storeTo(&v[i], zero(el))
			}
		}
		return nil
	case "close":
		g.closeChan(args[0].(*ChanV))
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v, where: g.stack(), msg: g.panicMsg(v)})
	case "recover":
		// fr is the deferred function's frame
		if pf := fr.parent; pf != nil && pf.panicking {
			pf.panicking = false
			return pf.pv.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		sig := b.Type().(*types.Signature)
		_, sg, _ := intInfo(sig.Params().At(0).Type())
		for _, a := range args[1:] {
			var less *Term
			switch a := a.(type) {
			case *Term:
				if sg {
					less = tt.Slt(a, r.(*Term))
				} else {
					less = tt.Ult(a, r.(*Term))
				}
				if b.Name() == "max" {
					less = tt.BNot(less)
				}
				r = tt.Ite(less, a, r.(*Term))
			case float64:
				if (b.Name() == "min") == (a < r.(float64)) {
					r = a
				}
			case Str:
				if g.branch(g.strLess(a, r.(Str))) == (b.Name() == "min") {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			g.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		p, _ := args[0].(*Value)
		n := g.concInt(args[1].(*Term))
		if n == 0 {
			return Str{}
		}
		if p == nil {
			g.nilDeref()
		}
		return bytesToStr(unsafe.Slice(p, n))
	case "StringData":
		s := args[0].(Str)
		if s.Len() == 0 {
			return (*Value)(nil)
		}
		sl := s.toSlice()
		return &sl[0]
	case "Slice":
		p, _ := args[0].(*Value)
		n := g.concInt(args[1].(*Term))
		if p == nil {
			return Slice(nil)
		}
		return Slice(unsafe.Slice(p, n))
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	}
	panic(engErr("builtin %s on %T in %s", b.Name(), args[0], g.stack()))
}

func copySlice(dst, src Slice) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	if n == 0 {
		return 0
	}
	switch src[0].(type) {
	case Struct, Array:
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&dst[i], tmp[i])
		}
	default:
		copy(dst, src[:n])
	}
	return n
}

func appendSlice(s, add Slice, el types.Type) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		copySlice(r[len(s):], add)
		return r
	}
	c := cap(s) * 2
	if c < n {
		c = n
	}
	if c < 8 {
		c = 8
	}
	if cap(s) > 1024 && n < cap(s)+cap(s)/4 {
		c = cap(s) + cap(s)/4
	}
	r := make(Slice, c)
	comp := isStructArr(el)
	if comp {
		for i, v := range s {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		for i := n; i < c; i++ {
			r[i] = zero(el)
		}
	} else {
		copy(r, s)
		copy(r[len(s):], add)
		z := zero(el)
		for i := n; i < c; i++ {
			r[i] = z
		}
	}
	return r[:n]
}

package main

/*
#cgo LDFLAGS: -lz3
#include <z3.h>
#include <stdlib.h>
#include <stdint.h>

static void vx_err(Z3_context c, Z3_error_code e) { }

static Z3_context vx_ctx(void) {
	Z3_config cfg = Z3_mk_config();
	Z3_context c = Z3_mk_context(cfg);
	Z3_set_error_handler(c, vx_err);
	Z3_del_config(cfg);
	return c;
}
static Z3_solver vx_solver(Z3_context c, int kind, unsigned timeout_ms) {
	Z3_solver s;
	if (kind == 1) s = Z3_mk_simple_solver(c);
	else s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
	Z3_solver_inc_ref(c, s);
	Z3_params p = Z3_mk_params(c);
	Z3_params_inc_ref(c, p);
	Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout_ms);
	Z3_solver_set_params(c, s, p);
	Z3_params_dec_ref(c, p);
	return s;
}
static Z3_ast vx_num(Z3_context c, uint64_t v, unsigned w) {
	return Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w));
}
static Z3_ast vx_var(Z3_context c, unsigned i, unsigned w) {
	Z3_symbol s = Z3_mk_int_symbol(c, i);
	return Z3_mk_const(c, s, w == 0 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, w));
}
static int vx_eval(Z3_context c, Z3_model m, Z3_ast a, int isbool, uint64_t *out) {
	Z3_ast r;
	if (!Z3_model_eval(c, m, a, 1, &r)) return 0;
	if (isbool) { *out = Z3_get_bool_value(c, r) == Z3_L_TRUE; return 1; }
	return Z3_get_numeral_uint64(c, r, out);
}
*/
import "C"

import (
	"fmt"
	"time"
	"unsafe"
)

type Solver struct {
	tt      *TT
	ctx     C.Z3_context
	consts  map[constKey]C.Z3_ast
	cache   map[string]*qres
	nast    int
	queries int
	hits    int
	unknown int
	spent   time.Duration
	longest time.Duration
	timeout uint
}

type constKey struct {
	w uint8
	k uint64
}

type qres struct {
	sat  int8 // 1 sat, 0 unsat, -1 unknown
	vars []uint32
	vals []uint64
}

func newSolver(tt *TT, timeoutMs uint) *Solver {
	return &Solver{tt: tt, ctx: C.vx_ctx(), consts: map[constKey]C.Z3_ast{}, cache: map[string]*qres{}, timeout: timeoutMs}
}

func (s *Solver) Close() { C.Z3_del_context(s.ctx) }

func (s *Solver) num(w uint8, k uint64) C.Z3_ast {
	key := constKey{w, k}
	if a, ok := s.consts[key]; ok {
		return a
	}
	var a C.Z3_ast
	if w == 0 {
		if k != 0 {
			a = C.Z3_mk_true(s.ctx)
		} else {
			a = C.Z3_mk_false(s.ctx)
		}
	} else {
		a = C.vx_num(s.ctx, C.uint64_t(k), C.uint(w))
	}
	s.consts[key] = a
	return a
}

func (s *Solver) ast(t *Term) C.Z3_ast {
	if t.op == OpConst {
		return s.num(t.w, t.k)
	}
	if t.ast != 0 {
		return C.Z3_ast(unsafe.Pointer(t.ast))
	}
	s.nast++
	c := s.ctx
	var r C.Z3_ast
	arg := func(i int) C.Z3_ast { return s.ast(t.args[i]) }
	switch t.op {
	case OpVar:
		r = C.vx_var(c, C.uint(t.k), C.uint(t.w))
	case OpLin:
		for i, a := range t.args {
			x := s.ast(a)
			k := t.coefs[i]
			switch {
			case k == 1:
			case k == mask(t.w):
				x = C.Z3_mk_bvneg(c, x)
			default:
				x = C.Z3_mk_bvmul(c, s.num(t.w, k), x)
			}
			if r == nil {
				r = x
			} else {
				r = C.Z3_mk_bvadd(c, r, x)
			}
		}
		if t.k != 0 {
			r = C.Z3_mk_bvadd(c, r, s.num(t.w, t.k))
		}
	case OpMul:
		r = C.Z3_mk_bvmul(c, arg(0), arg(1))
	case OpUDiv:
		r = C.Z3_mk_bvudiv(c, arg(0), arg(1))
	case OpURem:
		r = C.Z3_mk_bvurem(c, arg(0), arg(1))
	case OpSDiv:
		r = C.Z3_mk_bvsdiv(c, arg(0), arg(1))
	case OpSRem:
		r = C.Z3_mk_bvsrem(c, arg(0), arg(1))
	case OpAnd:
		r = C.Z3_mk_bvand(c, arg(0), arg(1))
	case OpOr:
		r = C.Z3_mk_bvor(c, arg(0), arg(1))
	case OpXor:
		r = C.Z3_mk_bvxor(c, arg(0), arg(1))
	case OpNot:
		r = C.Z3_mk_bvnot(c, arg(0))
	case OpShl:
		r = C.Z3_mk_bvshl(c, arg(0), arg(1))
	case OpLShr:
		r = C.Z3_mk_bvlshr(c, arg(0), arg(1))
	case OpAShr:
		r = C.Z3_mk_bvashr(c, arg(0), arg(1))
	case OpConcat:
		r = arg(0)
		for i := 1; i < len(t.args); i++ {
			r = C.Z3_mk_concat(c, r, arg(i))
		}
	case OpExtract:
		r = C.Z3_mk_extract(c, C.uint(t.k)+C.uint(t.w)-1, C.uint(t.k), arg(0))
	case OpSExt:
		r = C.Z3_mk_sign_ext(c, C.uint(t.w-t.args[0].w), arg(0))
	case OpIte:
		r = C.Z3_mk_ite(c, arg(0), arg(1), arg(2))
	case OpEq:
		r = C.Z3_mk_eq(c, arg(0), arg(1))
	case OpUlt:
		r = C.Z3_mk_bvult(c, arg(0), arg(1))
	case OpUle:
		r = C.Z3_mk_bvule(c, arg(0), arg(1))
	case OpSlt:
		r = C.Z3_mk_bvslt(c, arg(0), arg(1))
	case OpSle:
		r = C.Z3_mk_bvsle(c, arg(0), arg(1))
	case OpBAnd, OpBOr:
		as := make([]C.Z3_ast, len(t.args))
		for i := range t.args {
			as[i] = arg(i)
		}
		if t.op == OpBAnd {
			r = C.Z3_mk_and(c, C.uint(len(as)), &as[0])
		} else {
			r = C.Z3_mk_or(c, C.uint(len(as)), &as[0])
		}
	case OpBNot:
		r = C.Z3_mk_not(c, arg(0))
	default:
		panic(fmt.Sprintf("z3: op %d", t.op))
	}
	if r == nil {
		panic("z3: nil ast for " + t.String())
	}
	t.ast = uintptr(unsafe.Pointer(r))
	return r
}

// Check decides the conjunction cs; vars are the variables occurring in it.
func (s *Solver) Check(cs []*Term, vars []uint32) *qres {
	key := make([]byte, 0, len(cs)*4)
	for _, c := range cs {
		key = append(key, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	if r, ok := s.cache[string(key)]; ok {
		s.hits++
		return r
	}
	r := s.solve(cs, vars)
	s.cache[string(key)] = r
	return r
}

func (s *Solver) solve(cs []*Term, vars []uint32) *qres {
	t0 := time.Now()
	s.queries++
	defer func() {
		d := time.Since(t0)
		s.spent += d
		if d > s.longest {
			s.longest = d
		}
	}()
	kind := 1
	sv := C.vx_solver(s.ctx, C.int(kind), C.uint(s.timeout))
	defer C.Z3_solver_dec_ref(s.ctx, sv)
	for _, c := range cs {
		C.Z3_solver_assert(s.ctx, sv, s.ast(c))
	}
	for _, v := range vars {
		t := s.tt.vars[v]
		if t.w > 0 && t.hi != mask(t.w) {
			C.Z3_solver_assert(s.ctx, sv, C.Z3_mk_bvule(s.ctx, s.ast(t), s.num(t.w, t.hi)))
		}
	}
	st := C.Z3_solver_check(s.ctx, sv)
	if e := C.Z3_get_error_code(s.ctx); e != 0 {
		s.unknown++
		return &qres{sat: -1}
	}
	switch st {
	case C.Z3_L_FALSE:
		return &qres{sat: 0}
	case C.Z3_L_TRUE:
		m := C.Z3_solver_get_model(s.ctx, sv)
		C.Z3_model_inc_ref(s.ctx, m)
		r := &qres{sat: 1, vars: vars, vals: make([]uint64, len(vars))}
		for i, v := range vars {
			t := s.tt.vars[v]
			var out C.uint64_t
			C.vx_eval(s.ctx, m, s.ast(t), C.int(b2u(t.w == 0)), &out)
			r.vals[i] = uint64(out)
		}
		C.Z3_model_dec_ref(s.ctx, m)
		return r
	}
	s.unknown++
	return &qres{sat: -1}
}

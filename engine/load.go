package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const (
	repoPath    = "go.f110.dev/go-memcached"
	harnessPath = "verif/harness"
	vxPath      = "verif/harness/vx"
)

type Harness struct {
	name string
	prop string
	fn   *ssa.Function
}

type canonTab struct {
	mu sync.Mutex
	m  typeutil.Map
}

func (c *canonTab) get(t types.Type) types.Type {
	t = types.Unalias(t)
	c.mu.Lock()
	defer c.mu.Unlock()
	if x := c.m.At(t); x != nil {
		return x.(types.Type)
	}
	c.m.Set(t, t)
	return t
}

// load builds SSA for the harness, the repository and the standard library.
func (r *Run) load(dir string, overlay map[string][]byte) error {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./h", "./model")
	if err != nil {
		return err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, repoPath) || strings.HasPrefix(p.PkgPath, harnessPath) {
				bad += e.Error() + "\n"
			}
		}
	})
	if bad != "" {
		return fmt.Errorf("load errors:\n%s", bad)
	}
	prog, ssapkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r.prog = prog
	r.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		r.pkgs[p.Pkg.Path()] = p
	}
	r.hpkg = ssapkgs[0]
	rt := r.pkgs["runtime"]
	if rt == nil {
		return fmt.Errorf("no runtime package")
	}
	r.rtErrorType = r.canon.get(rt.Type("errorString").Type())
	r.fnDecodeRune = r.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	r.models = map[string]*ssa.Function{}
	mp := r.pkgs[harnessPath+"/model"]
	for name, fn := range modelFuncs {
		f := mp.Func(fn)
		if f == nil {
			return fmt.Errorf("model function %s missing", fn)
		}
		r.models[name] = f
	}
	for name, m := range r.hpkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || len(name) < 5 || name[0] != 'C' || name[3] != '_' || f.Signature.Params().Len() != 0 {
			continue
		}
		r.all = append(r.all, &Harness{name: name, prop: name[:3], fn: f})
	}
	sort.Slice(r.all, func(i, j int) bool { return r.all[i].name < r.all[j].name })
	return nil
}

func (w *W) canon(t types.Type) types.Type {
	if c, ok := w.canonCache[t]; ok {
		return c
	}
	c := w.run.canon.get(t)
	w.canonCache[t] = c
	return c
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *W) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if b, ok := w.implCache[k]; ok {
		return b
	}
	w.run.typesMu.Lock()
	b := types.Implements(t, i)
	w.run.typesMu.Unlock()
	w.implCache[k] = b
	return b
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *W) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	w.run.typesMu.Lock()
	f := w.run.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.run.typesMu.Unlock()
	if f == nil {
		panic(engErr("no method %s on %v", m.Name(), t))
	}
	w.methCache[k] = f
	return f
}

func (w *W) lookupMethod(t types.Type, name string) *ssa.Function {
	w.run.typesMu.Lock()
	defer w.run.typesMu.Unlock()
	ms := w.run.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return w.run.prog.MethodValue(s)
		}
	}
	return nil
}

func (w *W) isOurs(p *ssa.Package) bool {
	return strings.HasPrefix(p.Pkg.Path(), repoPath) || strings.HasPrefix(p.Pkg.Path(), harnessPath)
}

func (w *W) global(v *ssa.Global) *Value {
	if p, ok := w.globals[v]; ok {
		return p
	}
	p := new(Value)
	*p = zero(v.Type().Underlying().(*types.Pointer).Elem())
	w.globals[v] = p
	if v.Pkg != nil && w.isOurs(v.Pkg) {
		w.ourGlobals = append(w.ourGlobals, v)
	}
	return p
}

// packages whose initialisers are not run (their state is never needed, or they talk to the OS)
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "syscall": true, "reflect": true,
	"internal/godebug": true, "internal/godebugs": true, "internal/runtime/sys": true, "log/internal": true,
	"vendor/golang.org/x/net/dns/dnsmessage": true, "internal/syscall/unix": true, "internal/testlog": true,
	"log": true, "crypto": true, "unique": true, "internal/reflectlite": true,
}

// initPkg runs a library package's initialiser once per worker, on first use.
func (g *G) initPkg(p *ssa.Package) {
	w := g.w
	if w.inited[p] || w.isOurs(p) {
		return
	}
	w.inited[p] = true
	path := p.Pkg.Path()
	if skipInit[path] || strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "crypto/") {
		// error variables are still needed
		if path != "os" && path != "syscall" {
			return
		}
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	w.initing++
	top, depth := g.top, g.depth
	steps := g.p.steps
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.run.debugf("init %s: %v", path, r)
			}
		}()
		g.runInit(fn, true)
	}()
	g.p.steps = steps
	g.top, g.depth = top, depth
	w.initing--
}

func (g *G) runInit(fn *ssa.Function, tolerant bool) {
	fi := g.w.info(fn)
	if !fi.compiled {
		g.compile(fi)
	}
	fr := &frame{fi: fi, parent: g.top, prev: -1, tolerant: tolerant}
	fr.env = make([]Value, fi.n)
	copy(fr.env, fi.tmpl)
	g.top = fr
	g.exec(fr)
	g.top = fr.parent
}

// resetOurs re-initialises the globals of the repository and the harness for a new path.
func (g *G) resetOurs() {
	w := g.w
	for _, v := range w.ourGlobals {
		*w.globals[v] = zero(v.Type().Underlying().(*types.Pointer).Elem())
	}
	g.runInit(w.run.hpkg.Func("init"), false)
}

package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Scheduling points at shared variables. Reads and writes of the network, mutexes and channels are scheduling
// points anyway; what goroutines share without any of them are package-level variables and fields of long-lived
// values (servers, proxies, pools, rings). A statement that mentions one that is not constant after its
// initialisation is preceded by a call of vx.Gate, in the encoding and in the native replay alike.

type srcFile struct {
	path string
	src  []byte
	ast  *ast.File
}

type srcPkg struct {
	dir   string
	files []*srcFile
	vars  map[string]ast.Expr            // package-level variables: type or initialiser
	flds  map[string]map[string]ast.Expr // struct type -> field -> type
	hot   map[string]bool                // "v" or "T.f"
	alias map[*ast.Object]string         // local variables and parameters that refer to such a variable
	funcs map[string][]*ast.FuncDecl
}

// perConn are types whose values belong to one goroutine at a time, or that are guarded by a mutex.
func perConn(name string) bool {
	n := strings.ToLower(name)
	return strings.HasPrefix(name, "ServerWith") || strings.Contains(n, "conn") || strings.Contains(n, "header") || strings.Contains(n, "request") || strings.Contains(n, "response") || name == "Item" || name == "Node" || strings.Contains(n, "option")
}

func instrument(repo string, fset *token.FileSet) (map[string][]byte, error) {
	pkgs := map[string]*srcPkg{}
	err := filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if path != repo && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			return nil // the type checker reports it
		}
		dir := filepath.Dir(path)
		p := pkgs[dir]
		if p == nil {
			p = &srcPkg{dir: dir, vars: map[string]ast.Expr{}, flds: map[string]map[string]ast.Expr{}, hot: map[string]bool{}, alias: map[*ast.Object]string{}, funcs: map[string][]*ast.FuncDecl{}}
			pkgs[dir] = p
		}
		p.files = append(p.files, &srcFile{path, b, f})
		return nil
	})
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, p := range pkgs {
		p.declared()
		for _, f := range p.files {
			p.findHot(f)
		}
		if len(p.hot) == 0 {
			continue
		}
		for n := -1; n != len(p.alias); { // until nothing changes
			n = len(p.alias)
			for _, f := range p.files {
				p.findAliases(f)
			}
		}
		for _, f := range p.files {
			if s := p.rewrite(f, fset); s != nil {
				out[f.path] = s
			}
		}
	}
	return out, nil
}

func (p *srcPkg) declared() {
	for _, f := range p.files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					if g.Tok != token.VAR {
						continue
					}
					for i, n := range s.Names {
						var e ast.Expr = s.Type
						if e == nil && i < len(s.Values) {
							e = s.Values[i]
						}
						p.vars[n.Name] = e
					}
				case *ast.TypeSpec:
					st, ok := s.Type.(*ast.StructType)
					if !ok || perConn(s.Name.Name) {
						continue
					}
					m := map[string]ast.Expr{}
					for _, fl := range st.Fields.List {
						for _, n := range fl.Names {
							m[n.Name] = fl.Type
						}
					}
					p.flds[s.Name.Name] = m
				}
			}
		}
	}
}

// safe says whether a value of the type (or with the initialiser) synchronises itself or cannot be changed in place.
func safe(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr:
		x, ok := e.X.(*ast.Ident)
		return ok && (x.Name == "sync" || x.Name == "atomic")
	case *ast.CompositeLit:
		return safe(e.Type)
	case *ast.UnaryExpr:
		return safe(e.X)
	case *ast.StarExpr:
		return safe(e.X)
	case *ast.IndexExpr:
		return safe(e.X)
	}
	return false
}

// scratch says whether the declaration looks like memory that is written in place.
func scratch(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ArrayType:
		return e.Len != nil || isByte(e.Elt)
	case *ast.StarExpr:
		return scratch(e.X)
	case *ast.StructType:
		return true
	case *ast.SelectorExpr:
		x, ok := e.X.(*ast.Ident)
		return ok && (x.Name == "bytes" && e.Sel.Name == "Buffer" || x.Name == "strings" && e.Sel.Name == "Builder" || x.Name == "hash" || x.Name == "bufio")
	case *ast.CallExpr:
		if n, ok := e.Fun.(*ast.Ident); ok && (n.Name == "make" || n.Name == "new") && len(e.Args) > 0 {
			_, isMap := e.Args[0].(*ast.MapType)
			_, isChan := e.Args[0].(*ast.ChanType)
			return !isMap && !isChan && !safe(e.Args[0])
		}
		if s, ok := e.Fun.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				return (x.Name == "crc32" || x.Name == "sha1" || x.Name == "md5" || x.Name == "fnv" || x.Name == "bytes" || x.Name == "bufio" || x.Name == "rand") && strings.HasPrefix(s.Sel.Name, "New")
			}
		}
	case *ast.UnaryExpr:
		return e.Op == token.AND && scratch(e.X)
	case *ast.CompositeLit:
		if safe(e.Type) {
			return false
		}
		switch t := e.Type.(type) {
		case *ast.ArrayType:
			return t.Len != nil && len(e.Elts) == 0
		case *ast.Ident, *ast.SelectorExpr:
			return len(e.Elts) == 0
		}
	}
	return false
}

func isByte(e ast.Expr) bool {
	x, ok := e.(*ast.Ident)
	return ok && (x.Name == "byte" || x.Name == "uint8")
}

// name resolves an expression to a shared variable, "" if it is none.
func (p *srcPkg) name(e ast.Expr, recv, typ string) string {
	switch e := e.(type) {
	case *ast.Ident:
		if _, ok := p.vars[e.Name]; ok && e.Name != "_" {
			if e.Obj == nil {
				return e.Name
			}
			if _, ok := e.Obj.Decl.(*ast.ValueSpec); ok && e.Obj.Kind == ast.Var && p.topLevel(e.Obj) {
				return e.Name
			}
		}
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok && recv != "" && x.Name == recv {
			if _, ok := p.flds[typ][e.Sel.Name]; ok {
				return typ + "." + e.Sel.Name
			}
		}
	}
	return ""
}

func (p *srcPkg) topLevel(o *ast.Object) bool {
	for _, f := range p.files {
		if f.ast.Scope != nil && f.ast.Scope.Lookup(o.Name) == o {
			return true
		}
	}
	return false
}

func (p *srcPkg) declOf(n string) ast.Expr {
	if i := strings.IndexByte(n, '.'); i >= 0 {
		return p.flds[n[:i]][n[i+1:]]
	}
	return p.vars[n]
}

// root strips indexing, slicing, dereferences and (below a shared variable) fields off an expression.
func (p *srcPkg) root(e ast.Expr, recv, typ string) string {
	for {
		if n := p.name(e, recv, typ); n != "" {
			return n
		}
		switch x := e.(type) {
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		default:
			return ""
		}
	}
}

func recvOf(fd *ast.FuncDecl) (string, string) {
	if fd.Recv == nil || len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) != 1 {
		return "", ""
	}
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if x, ok := t.(*ast.Ident); ok {
		return fd.Recv.List[0].Names[0].Name, x.Name
	}
	return "", ""
}

// findHot collects the shared variables that are changed after their initialisation.
func (p *srcPkg) findHot(f *srcFile) {
	for _, d := range f.ast.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		recv, typ := recvOf(fd)
		mark := func(e ast.Expr) {
			if n := p.root(e, recv, typ); n != "" && !safe(p.declOf(n)) {
				p.hot[n] = true
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					for _, l := range n.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				}
			case *ast.Ident, *ast.SelectorExpr:
				e := n.(ast.Expr)
				if v := p.name(e, recv, typ); v != "" && scratch(p.declOf(v)) && !safe(p.declOf(v)) {
					p.hot[v] = true
				}
			case *ast.CallExpr:
				if x, ok := n.Fun.(*ast.Ident); ok && (x.Name == "delete" || x.Name == "copy" || x.Name == "clear") && len(n.Args) > 0 {
					mark(n.Args[0])
				}
			}
			return true
		})
	}
}

// refers resolves an expression that refers to the memory of a hot variable.
func (p *srcPkg) refers(e ast.Expr, recv, typ string) string {
	switch x := e.(type) {
	case *ast.Ident:
		if v := p.alias[x.Obj]; v != "" && x.Obj != nil {
			return v
		}
		if v := p.name(e, recv, typ); p.hot[v] && !isArray(p.declOf(v)) {
			return v
		}
	case *ast.SelectorExpr:
		if v := p.name(e, recv, typ); p.hot[v] && !isArray(p.declOf(v)) {
			return v
		}
	case *ast.ParenExpr:
		return p.refers(x.X, recv, typ)
	case *ast.SliceExpr:
		if v := p.refers(x.X, recv, typ); v != "" {
			return v
		}
		if v := p.root(x.X, recv, typ); p.hot[v] {
			return v
		}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if v := p.root(x.X, recv, typ); p.hot[v] {
				return v
			}
		}
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.Ident); ok && f.Name == "append" && len(x.Args) > 0 {
			return p.refers(x.Args[0], recv, typ)
		}
		if f, ok := x.Fun.(*ast.SelectorExpr); ok && strings.HasPrefix(f.Sel.Name, "Append") && len(x.Args) > 0 {
			return p.refers(x.Args[0], recv, typ)
		}
	}
	return ""
}

func isArray(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ArrayType:
		return e.Len != nil
	case *ast.CompositeLit:
		return isArray(e.Type)
	case *ast.Ident:
		switch e.Name {
		case "int", "int64", "int32", "uint", "uint16", "uint32", "uint64", "uint8", "byte", "bool", "string":
			return true
		}
	case *ast.BasicLit:
		return true
	}
	return false
}

// findAliases follows references into local variables and parameters of functions of the package.
func (p *srcPkg) findAliases(f *srcFile) {
	for _, d := range f.ast.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if len(p.funcs[fd.Name.Name]) == 0 || !hasDecl(p.funcs[fd.Name.Name], fd) {
			p.funcs[fd.Name.Name] = append(p.funcs[fd.Name.Name], fd)
		}
		recv, typ := recvOf(fd)
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if len(n.Lhs) != len(n.Rhs) {
					return true
				}
				for i, l := range n.Lhs {
					x, ok := l.(*ast.Ident)
					if !ok || x.Obj == nil || x.Obj.Kind != ast.Var || x.Name == "_" || p.topLevel(x.Obj) {
						continue
					}
					if v := p.refers(n.Rhs[i], recv, typ); v != "" {
						p.alias[x.Obj] = v
					}
				}
			case *ast.CallExpr:
				name := ""
				switch c := n.Fun.(type) {
				case *ast.Ident:
					name = c.Name
				case *ast.SelectorExpr:
					name = c.Sel.Name
				}
				for i, a := range n.Args {
					v := p.refers(a, recv, typ)
					if v == "" {
						continue
					}
					for _, c := range p.funcs[name] {
						k := 0
						for _, fl := range c.Type.Params.List {
							for _, nm := range fl.Names {
								if k == i && nm.Obj != nil && nm.Name != "_" {
									p.alias[nm.Obj] = v
								}
								k++
							}
						}
					}
				}
			}
			return true
		})
	}
}

func hasDecl(l []*ast.FuncDecl, d *ast.FuncDecl) bool {
	for _, x := range l {
		if x == d {
			return true
		}
	}
	return false
}

type insertion struct {
	at int
	s  string
}

// rewrite puts a gate before each statement that mentions a hot variable; line numbers stay.
func (p *srcPkg) rewrite(f *srcFile, fset *token.FileSet) []byte {
	var ins []insertion
	pos := func(x token.Pos) int { return fset.Position(x).Offset }
	for _, d := range f.ast.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		recv, typ := recvOf(fd)
		// mentions finds hot variables in a node, leaving nested blocks out
		mentions := func(s ast.Stmt) []string {
			seen := map[string]bool{}
			var l []string
			ast.Inspect(s, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
					return false
				case *ast.Ident, *ast.SelectorExpr:
					v := p.name(n.(ast.Expr), recv, typ)
					if x, ok := n.(*ast.Ident); ok && x.Obj != nil && p.alias[x.Obj] != "" {
						v = p.alias[x.Obj]
					}
					if v != "" && p.hot[v] && !seen[v] {
						seen[v] = true
						l = append(l, v)
					}
				}
				return true
			})
			sort.Strings(l)
			return l
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.LabeledStmt); ok {
					continue
				}
				for _, v := range mentions(s) {
					ins = append(ins, insertion{pos(s.Pos()), fmt.Sprintf("vxgate.Gate(%q); ", "shared."+v)})
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
	}
	if len(ins) == 0 {
		return nil
	}
	ins = append(ins, insertion{pos(f.ast.Name.End()), "; import vxgate \"verif/harness/vx\""})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	var out []byte
	last := 0
	for _, x := range ins {
		out = append(out, f.src[last:x.at]...)
		out = append(out, x.s...)
		last = x.at
	}
	return append(out, f.src[last:]...)
}

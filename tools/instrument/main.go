// Command instrument copies the non-test Go files of a package directory and
// rewrites the copy so that the harness owns its nondeterminism.
//
//	instrument -src /repo -dst DIR -mode plain|ctl|sched|schedg [-nosplit] [-nopoints]
//
// ctl:   runtime.SetFinalizer/AddCleanup/GC/KeepAlive and sync.Mutex/RWMutex go
//        to package vrt.
// sched: ctl, and a call to vrt.Point() before every statement that may touch
//        shared memory; read-modify-write statements and assignments to shared
//        locations are split around a vrt.Point().
//
// schedg: like sched, but only where a package-level variable is mentioned; the
// accesses to package-level variables and to maps are reported to package vrt,
// which looks for data races.
//
// A JSON summary is printed on stdout.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type summary struct {
	Files      int      `json:"files"`
	Redirects  int      `json:"redirects"`
	Points     int      `json:"points"`
	Splits     int      `json:"splits"`
	Unmodelled []string `json:"unmodelled"`
}

var sum summary

type inst struct {
	fset     *token.FileSet
	file     *ast.File
	info     *types.Info
	pkgvars  map[string]bool
	mode     string
	nosplit  bool
	nopoints bool
	globals  bool // points only where a package-level variable is mentioned
	used     map[string]bool
	imports  map[string]string // local name -> path
	strange  bool              // the file synchronizes in ways that are not modelled
}

func main() {
	src := flag.String("src", "", "")
	dst := flag.String("dst", "", "")
	mode := flag.String("mode", "ctl", "")
	nosplit := flag.Bool("nosplit", false, "")
	nopoints := flag.Bool("nopoints", false, "")
	flag.Parse()
	names, _ := filepath.Glob(filepath.Join(*src, "*.go"))
	if err := os.MkdirAll(*dst, 0o755); err != nil {
		fatal(err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var headers [][]byte
	var outs []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		data, err := os.ReadFile(n)
		if err != nil {
			fatal(err)
		}
		out := filepath.Join(*dst, filepath.Base(n))
		if *mode == "plain" {
			if err := os.WriteFile(out, data, 0o644); err != nil {
				fatal(err)
			}
			sum.Files++
			continue
		}
		f, err := parser.ParseFile(fset, n, data, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		pos := fset.Position(f.Package).Offset
		headers = append(headers, append([]byte{}, data[:pos]...))
		f.Comments = nil
		f.Doc = nil
		files = append(files, f)
		outs = append(outs, out)
	}
	// package-level variables, over all the files (whatever their build tags)
	pkgvars := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						pkgvars[id.Name] = true
					}
				}
			}
		}
	}
	for i, f := range files {
		in := &inst{fset: fset, file: f, pkgvars: pkgvars, mode: *mode, globals: *mode == "schedg", nosplit: *nosplit, nopoints: *nopoints,
			used: map[string]bool{}, imports: map[string]string{}}
		in.info = typecheck(fset, files, f)
		in.run()
		var buf bytes.Buffer
		buf.Write(headers[i])
		if err := format.Node(&buf, fset, strip(f)); err != nil {
			fatal(err)
		}
		if err := os.WriteFile(outs[i], buf.Bytes(), 0o644); err != nil {
			fatal(err)
		}
		sum.Files++
	}
	if sum.Unmodelled == nil {
		sum.Unmodelled = []string{}
	}
	json.NewEncoder(os.Stdout).Encode(sum)
}

func strip(f *ast.File) *ast.File {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	return f
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(2)
}

// typecheck finds the types of expressions in f, as far as possible with
// imports replaced by empty packages. Files of other build configurations
// that redeclare things in f are left out.
type noimport struct{}

func (noimport) Import(path string) (*types.Package, error) {
	name := path[strings.LastIndex(path, "/")+1:]
	p := types.NewPackage(path, name)
	p.MarkComplete()
	return p, nil
}

func declared(f *ast.File) map[string]bool {
	res := map[string]bool{}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil {
				res[x.Name.Name] = true
			} else {
				res["m."+x.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					res[y.Name.Name] = true
				case *ast.ValueSpec:
					for _, id := range y.Names {
						res[id.Name] = true
					}
				}
			}
		}
	}
	delete(res, "init")
	delete(res, "_")
	return res
}

func constraint(f *ast.File, fset *token.FileSet) string {
	data, err := os.ReadFile(fset.Position(f.Package).Filename)
	if err != nil {
		return ""
	}
	head := string(data[:fset.Position(f.Package).Offset])
	for _, l := range strings.Split(head, "\n") {
		if strings.HasPrefix(l, "// +build") || strings.HasPrefix(l, "//go:build") {
			return strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(l, "// +build"), "//go:build"))
		}
	}
	return ""
}

func typecheck(fset *token.FileSet, files []*ast.File, f *ast.File) *types.Info {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	group := []*ast.File{f}
	taken := declared(f)
	mine := constraint(f, fset)
	add := func(want func(c string) bool) {
		for _, g := range files {
			if g == f {
				continue
			}
			dup := false
			for _, h := range group {
				if h == g {
					dup = true
				}
			}
			if dup || !want(constraint(g, fset)) {
				continue
			}
			dg := declared(g)
			for k := range dg {
				if taken[k] && !strings.HasPrefix(k, "m.") {
					dup = true
				}
			}
			if dup {
				continue
			}
			for k := range dg {
				taken[k] = true
			}
			group = append(group, g)
		}
	}
	add(func(c string) bool { return c == mine })
	add(func(c string) bool { return c == "" })
	add(func(c string) bool { return true })
	conf := types.Config{Importer: noimport{}, Error: func(error) {}}
	func() {
		defer func() { recover() }()
		conf.Check("p", fset, group, info)
	}()
	return info
}

func (in *inst) run() {
	f := in.file
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		in.imports[name] = p
	}
	// redirections
	redirected := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			in.unmodelled(n, "go statement")
		case *ast.SelectStmt:
			in.unmodelled(n, "select statement")
		case *ast.ChanType:
			in.unmodelled(n, "channel type")
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			path := in.imports[id.Name]
			to := false
			switch path {
			case "runtime":
				switch x.Sel.Name {
				case "SetFinalizer", "AddCleanup", "KeepAlive", "GC", "Gosched":
					to = true
				}
			case "sync":
				switch x.Sel.Name {
				case "Mutex", "RWMutex", "Once", "Pool":
					to = true
				case "Cond", "WaitGroup", "NewCond":
					in.unmodelled(n, "sync."+x.Sel.Name)
				}
			}
			if to {
				redirected[id.Name] = true
				id.Name = "vrt"
				sum.Redirects++
			}
		}
		return true
	})
	if (in.mode == "sched" || in.globals) && !in.nopoints {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				in.block(fd.Body)
			} else {
				// function literals in initialisers of package variables
				in.lits(d)
			}
		}
	}
	// imports and dummy uses
	spec := &ast.ImportSpec{Name: ast.NewIdent("vrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/vrt"`}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	decls := []ast.Decl{gd}
	decls = append(decls, f.Decls...)
	use := func(e string) {
		x, err := parser.ParseExpr(e)
		if err != nil {
			fatal(err)
		}
		decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{x}}}})
	}
	use("vrt.Point")
	// the package-level variables, which the harness resets between executions
	var vars []ast.Stmt
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						vars = append(vars, &ast.ExprStmt{X: &ast.CallExpr{
							Fun:  &ast.SelectorExpr{X: ast.NewIdent("vrt"), Sel: ast.NewIdent("Global")},
							Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(id.Name)}},
						}})
					}
				}
			}
		}
	}
	if in.strange {
		vars = append(vars, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vrt"), Sel: ast.NewIdent("Strange")}}})
	}
	if vars != nil {
		decls = append(decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: vars}})
	}
	for name := range redirected {
		switch in.imports[name] {
		case "runtime":
			use(name + ".NumCPU")
		case "sync":
			use(name + ".NewCond")
		}
	}
	f.Decls = decls
}

func (in *inst) unmodelled(n ast.Node, what string) {
	in.strange = true
	if len(sum.Unmodelled) < 20 {
		sum.Unmodelled = append(sum.Unmodelled, fmt.Sprintf("%s at %s", what, in.fset.Position(n.Pos())))
	}
}

// lits instruments the function literals below n
func (in *inst) lits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			in.block(fl.Body)
			return false
		}
		return true
	})
}

// first makes sure that b starts with a point.
func (in *inst) first(b *ast.BlockStmt) {
	if len(b.List) == 0 || !isPoint(b.List[0]) {
		b.List = append([]ast.Stmt{in.point()}, b.List...)
	}
}

func (in *inst) point() ast.Stmt {
	sum.Points++
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vrt"), Sel: ast.NewIdent("Point")}}}
}

// shared tells if evaluating n (function literals excluded) can touch memory
// that is not local
func (in *inst) shared(nodes ...ast.Node) bool {
	res := false
	for _, n := range nodes {
		switch x := n.(type) {
		case nil:
			continue
		case ast.Expr:
			if x == nil {
				continue
			}
		case ast.Stmt:
			if x == nil {
				continue
			}
		}
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil && in.imports[id.Name] != "" {
					// a name of another package
					if in.imports[id.Name] == "sync/atomic" {
						res = true
					}
					return false
				}
				if id, ok := x.X.(*ast.Ident); ok && id.Name == "vrt" {
					return false
				}
				res = res || !in.globals
			case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr:
				res = res || !in.globals
			case *ast.Ident:
				if in.pkgvars[x.Name] && in.isPkgVar(x) {
					res = true
				}
			}
			return true
		})
	}
	return res
}

func (in *inst) isPkgVar(id *ast.Ident) bool {
	if o, ok := in.info.Uses[id]; ok {
		v, ok := o.(*types.Var)
		return ok && !v.IsField() && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	}
	// unknown: the parser may have resolved it to a local
	return id.Obj == nil || id.Obj.Kind != ast.Var
}

func (in *inst) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.list(b.List)
	}
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var res []ast.Stmt
	for _, s := range l {
		res = append(res, in.stmt(s)...)
	}
	return res
}

func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x)
		return []ast.Stmt{x}
	case *ast.LabeledStmt:
		r := in.stmt(x.Stmt)
		x.Stmt = r[len(r)-1]
		return append(r[:len(r)-1:len(r)-1], x)
	case *ast.IfStmt:
		pre := in.shared(x.Init, x.Cond)
		acc := in.accesses(false, nil, x.Init, x.Cond)
		in.lits(x.Cond)
		if x.Init != nil {
			in.lits(x.Init)
		}
		in.block(x.Body)
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			in.block(e)
		case *ast.IfStmt:
			x.Else = &ast.BlockStmt{List: in.stmt(e)}
		}
		return in.with(pre, x, acc...)
	case *ast.ForStmt:
		pre := in.shared(x.Init, x.Cond, x.Post)
		acc := in.accesses(false, nil, x.Init, x.Cond, x.Post)
		in.block(x.Body)
		if in.shared(x.Cond, x.Post) {
			in.first(x.Body)
		}
		return in.with(pre, x, acc...)
	case *ast.RangeStmt:
		pre := in.shared(x.X)
		acc := in.accesses(false, nil, x.X)
		acc = append(acc, in.ranged(x.X)...)
		in.block(x.Body)
		if pre {
			in.first(x.Body)
		}
		return in.with(pre, x, acc...)
	case *ast.SwitchStmt:
		pre := in.shared(x.Init, x.Tag)
		acc := in.accesses(false, nil, x.Init, x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				if in.shared(e) {
					pre = true
				}
				acc = append(acc, in.accesses(false, nil, e)...)
			}
			cc.Body = in.list(cc.Body)
		}
		return in.with(pre, x, acc...)
	case *ast.TypeSwitchStmt:
		pre := in.shared(x.Init, x.Assign)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.list(cc.Body)
		}
		return in.with(pre, x)
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = in.list(cc.Body)
		}
		return in.with(true, x)
	case *ast.IncDecStmt:
		pre := in.shared(x.X)
		acc := in.accesses(true, []ast.Expr{x.X})
		if pre && in.splittable(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return in.with(true, in.rmw(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}), acc...)
		}
		return in.with(pre, x, acc...)
	case *ast.AssignStmt:
		pre := in.shared(x)
		var written []ast.Expr
		if x.Tok != token.DEFINE {
			written = x.Lhs
		}
		read := make([]ast.Node, 0, len(x.Rhs))
		for _, r := range x.Rhs {
			read = append(read, r)
		}
		acc := in.accesses(true, written, read...)
		for _, r := range x.Rhs {
			in.lits(r)
		}
		if pre && len(x.Lhs) == 1 && len(x.Rhs) == 1 && in.shared(x.Lhs[0]) && in.splittable(x.Lhs[0]) {
			switch x.Tok {
			case token.ASSIGN:
				if in.shared(x.Rhs[0]) && !in.calls(x.Rhs[0]) && !isLit(x.Rhs[0]) {
					sum.Splits++
					return in.with(true, &ast.ExprStmt{X: &ast.CallExpr{
						Fun:  &ast.SelectorExpr{X: ast.NewIdent("vrt"), Sel: ast.NewIdent("Store")},
						Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: x.Lhs[0]}, x.Rhs[0]}}}, acc...)
				}
			case token.DEFINE:
			default:
				if op, ok := binop[x.Tok]; ok && !in.calls(x.Rhs[0]) {
					return in.with(true, in.rmw(x.Lhs[0], op, x.Rhs[0]), acc...)
				}
			}
		}
		return in.with(pre, x, acc...)
	case *ast.ExprStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.GoStmt, *ast.DeclStmt, *ast.SendStmt:
		acc := in.accesses(true, nil, s)
		in.lits(s)
		return in.with(in.shared(s) && (in.globals || !locking(s)), s, acc...)
	}
	return []ast.Stmt{s}
}

// locking tells if s only locks (the lock has a scheduling point of its own) or
// only registers an unlock.
func locking(s ast.Stmt) bool {
	var c *ast.CallExpr
	names := []string{"Lock", "RLock"}
	switch x := s.(type) {
	case *ast.ExprStmt:
		c, _ = x.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		c = x.Call
		names = []string{"Unlock", "RUnlock"}
	}
	if c == nil || len(c.Args) != 0 {
		return false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	if _, ok := f.X.(*ast.Ident); !ok {
		return false
	}
	return f.Sel.Name == names[0] || f.Sel.Name == names[1]
}

func isPoint(s ast.Stmt) bool {
	x, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := x.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || f.Sel.Name != "Point" {
		return false
	}
	id, ok := f.X.(*ast.Ident)
	return ok && id.Name == "vrt"
}

var binop = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func isLit(e ast.Expr) bool {
	switch e.(type) {
	case *ast.BasicLit, *ast.CompositeLit, *ast.FuncLit:
		return true
	}
	return false
}

func (in *inst) calls(e ast.Expr) bool {
	res := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "len", "cap", "int", "int32", "int64", "uint64", "uint", "uint32", "byte":
					return true
				}
			}
			res = true
		}
		return true
	})
	return res
}

// splittable tells if we know that e is addressable (and not in a map)
func (in *inst) splittable(e ast.Expr) bool {
	if in.nosplit {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.splittable(x.X)
	case *ast.Ident:
		return in.isPkgVar(x)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		tv, ok := in.info.Types[x.X]
		if !ok || tv.Type == nil {
			return false
		}
		switch t := tv.Type.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return in.splittable(x.X)
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		}
		return false
	case *ast.SelectorExpr:
		tv, ok := in.info.Types[x.X]
		if !ok || tv.Type == nil {
			return false
		}
		switch tv.Type.Underlying().(type) {
		case *types.Pointer:
			return true
		case *types.Struct:
			if id, ok := x.X.(*ast.Ident); ok && !in.isPkgVar(id) {
				return true // a local struct variable
			}
			return in.splittable(x.X)
		}
		return false
	}
	return false
}

// rmw returns { p := &lhs; v := *p; vrt.Point(); *p = v op rhs }
func (in *inst) rmw(lhs ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	sum.Splits++
	p, v := ast.NewIdent("vrtp"), ast.NewIdent("vrtv")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: lhs}}},
		&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.StarExpr{X: p}}},
		in.point(),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN,
			Rhs: []ast.Expr{&ast.BinaryExpr{X: v, Op: op, Y: &ast.ParenExpr{X: rhs}}}},
	}}
}

func (in *inst) with(pre bool, s ast.Stmt, acc ...ast.Stmt) []ast.Stmt {
	if pre {
		return append(append([]ast.Stmt{in.point()}, acc...), s)
	}
	return append(append([]ast.Stmt{}, acc...), s)
}

// ------------------------------------------------------------- data races

func (in *inst) vrtcall(name string, args ...ast.Expr) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vrt"), Sel: ast.NewIdent(name)}, Args: args}}
}

func (in *inst) where(n ast.Node) ast.Expr {
	p := in.fset.Position(n.Pos())
	var buf bytes.Buffer
	format.Node(&buf, in.fset, n)
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s (%s:%d)", buf.String(), filepath.Base(p.Filename), p.Line))}
}

func boolean(b bool) ast.Expr {
	if b {
		return ast.NewIdent("true")
	}
	return ast.NewIdent("false")
}

// syncnames are the methods of package atomic and of sync.Map: they order the
// goroutines that use them.
var syncnames = map[string]bool{"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true, "Add": true, "And": true, "Or": true,
	"LoadOrStore": true, "LoadAndDelete": true, "Delete": true, "CompareAndDelete": true, "Range": true, "Clear": true}

// accesses returns statements that report the accesses made by a statement: to
// the package-level variables that it mentions, and to maps. The expressions in
// written are assigned to; elements tells if all the variables in the
// statement are in scope before it.
func (in *inst) accesses(elements bool, written []ast.Expr, nodes ...ast.Node) []ast.Stmt {
	if !in.globals {
		return nil
	}
	var res []ast.Stmt
	sync := false
	var read func(n ast.Node)
	var access func(e ast.Expr, write bool)
	root := func(e ast.Expr) *ast.Ident {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.Ident:
				return x
			default:
				return nil
			}
		}
	}
	pkgvar := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && id.Name != "_" && in.pkgvars[id.Name] && in.isPkgVar(id)
	}
	// path: a variable, or fields of a struct in a variable
	var path func(e ast.Expr) bool
	path = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return pkgvar(x)
		case *ast.SelectorExpr:
			if !path(x.X) {
				return false
			}
			tv, ok := in.info.Types[x.X]
			if !ok || tv.Type == nil {
				return false
			}
			_, ok = tv.Type.Underlying().(*types.Struct)
			return ok
		}
		return false
	}
	// pure: identifiers and fields only
	var pure func(e ast.Expr) bool
	pure = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name != "_" && (elements || pkgvar(x))
		case *ast.SelectorExpr:
			return pure(x.X)
		case *ast.StarExpr:
			return pure(x.X)
		case *ast.BasicLit:
			return true
		}
		return false
	}
	typeof := func(e ast.Expr) types.Type {
		tv, ok := in.info.Types[e]
		if !ok || tv.Type == nil {
			if id, ok := e.(*ast.Ident); ok {
				if o := in.info.Uses[id]; o != nil && o.Type() != nil {
					return o.Type().Underlying()
				}
			}
			return nil
		}
		return tv.Type.Underlying()
	}
	mapacc := func(e ast.Expr, write bool) {
		if _, ok := typeof(e).(*types.Map); ok && pure(e) {
			res = append(res, in.vrtcall("AccMap", &ast.FuncLit{
				Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("any")}}}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}}},
			}, boolean(write), in.where(e)))
		}
	}
	access = func(e ast.Expr, write bool) {
		if path(e) {
			res = append(res, in.vrtcall("Acc", &ast.UnaryExpr{Op: token.AND, X: e}, boolean(write), in.where(e)))
			return
		}
		switch x := e.(type) {
		case *ast.ParenExpr:
			access(x.X, write)
		case *ast.SelectorExpr:
			access(x.X, false)
		case *ast.StarExpr:
			access(x.X, false)
		case *ast.SliceExpr:
			access(x.X, false)
			for _, i := range []ast.Expr{x.Low, x.High, x.Max} {
				if i != nil {
					read(i)
				}
			}
		case *ast.IndexExpr:
			access(x.X, false)
			read(x.Index)
			switch typeof(x.X).(type) {
			case *types.Map:
				mapacc(x.X, write)
			case *types.Slice:
				if elements && pure(x.X) && pure(x.Index) && root(x.X) != nil && pkgvar(root(x.X)) && path(x.X) {
					res = append(res, in.vrtcall("AccElem", x.X, x.Index, boolean(write), in.where(x)))
				}
			}
		default:
			if id, ok := e.(*ast.Ident); !ok || id == nil {
				read(e)
			}
		}
	}
	read = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					return false // an address, which is used by someone else
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						read(kv.Value)
					} else {
						read(e)
					}
				}
				return false
			case *ast.CallExpr:
				for _, a := range x.Args {
					read(a)
				}
				switch f := x.Fun.(type) {
				case *ast.Ident:
					if (f.Name == "delete" || f.Name == "clear") && len(x.Args) > 0 && f.Obj == nil {
						mapacc(x.Args[0], true)
					}
				case *ast.SelectorExpr:
					if id, ok := f.X.(*ast.Ident); ok && id.Obj == nil && in.imports[id.Name] == "sync/atomic" {
						sync = true
					} else if syncnames[f.Sel.Name] {
						sync = true
					}
					// the receiver is the business of the method
					if i, ok := f.X.(*ast.IndexExpr); ok {
						access(i, false)
					} else if c, ok := f.X.(*ast.CallExpr); ok {
						read(c)
					}
				default:
					read(f)
				}
				return false
			case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.Ident:
				if sel, ok := x.(*ast.SelectorExpr); ok {
					if id, ok := sel.X.(*ast.Ident); ok && id.Obj == nil && in.imports[id.Name] != "" {
						return false
					}
				}
				access(x.(ast.Expr), false)
				return false
			}
			return true
		})
	}
	for _, n := range nodes {
		switch x := n.(type) {
		case nil:
			continue
		case ast.Expr:
			if x == nil {
				continue
			}
		case ast.Stmt:
			if x == nil {
				continue
			}
		}
		switch x := n.(type) {
		case *ast.AssignStmt: // in the head of another statement
			for _, r := range x.Rhs {
				read(r)
			}
			if x.Tok != token.DEFINE {
				for _, l := range x.Lhs {
					access(l, true)
				}
			}
		case *ast.IncDecStmt:
			access(x.X, true)
		case *ast.DeclStmt:
			if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, v := range s.(*ast.ValueSpec).Values {
						read(v)
					}
				}
			}
		default:
			read(n)
		}
	}
	for _, w := range written {
		access(w, true)
	}
	if sync {
		res = append([]ast.Stmt{in.vrtcall("Sync")}, res...)
	}
	return res
}

// ranged reports the iteration over a map.
func (in *inst) ranged(e ast.Expr) []ast.Stmt {
	if !in.globals {
		return nil
	}
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
		if _, ok := tv.Type.Underlying().(*types.Map); ok {
			ok := true
			ast.Inspect(e, func(n ast.Node) bool {
				switch n.(type) {
				case nil, *ast.Ident, *ast.SelectorExpr:
				default:
					ok = false
				}
				return true
			})
			if ok {
				return []ast.Stmt{in.vrtcall("AccMap", &ast.FuncLit{
					Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("any")}}}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}}},
				}, boolean(false), in.where(e))}
			}
		}
	}
	return nil
}

// Command instr rewrites the concurrency of a module's packages to run under package vsched.
//
//	instr REPO OUTDIR GOFLAGS...
//
// It writes the rewritten files to OUTDIR and their overlay entries to OUTDIR/files.json. Exit code 3: the sources use
// something that cannot be rewritten.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const base = "github.com/dmitryikh/leaves/zzverif/"

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Main bool }
}

type unsupported string

func unsup(fset *token.FileSet, n ast.Node, why string) {
	panic(unsupported(fset.Position(n.Pos()).String() + ": " + why))
}

func main() {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("instr:", r)
			os.Exit(3)
		}
	}()
	repo, out := os.Args[1], os.Args[2]
	args := append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module"}, os.Args[3:]...)
	cmd := exec.Command("go", append(args, "./...")...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	var pkgs []pkg
	exports := map[string]string{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkg
		if err := d.Decode(&p); err != nil {
			if err == io.EOF {
				break
			}
			panic(err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Module.Main && !strings.Contains(p.ImportPath, "/zzverif") {
			pkgs = append(pkgs, p)
		}
	}
	files := map[string]string{}
	for i := range pkgs {
		one(&pkgs[i], exports, out, files)
	}
	js, _ := json.MarshalIndent(files, "", " ")
	if err := os.WriteFile(filepath.Join(out, "files.json"), js, 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("instr: %d packages, %d files rewritten\n", len(pkgs), len(files))
}

func one(p *pkg, exports map[string]string, out string, files map[string]string) {
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		fs = append(fs, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}), Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, fs, info); err != nil {
		panic(err)
	}
	for i, f := range fs {
		r := &rewriter{fset: fset, info: info, recv: map[ast.Expr]*ast.CallExpr{}, send: map[ast.Stmt][2]ast.Expr{}, elem: map[ast.Expr]ast.Expr{}, made: map[ast.Node]bool{}}
		r.file(f)
		if !r.changed {
			continue
		}
		f.Comments = nil
		name := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+p.GoFiles[i])
		w, err := os.Create(name)
		if err != nil {
			panic(err)
		}
		if err := format.Node(w, fset, f); err != nil {
			panic(err)
		}
		w.Close()
		files[filepath.Join(p.Dir, p.GoFiles[i])] = name
	}
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	changed bool
	uses    bool // of zzvsched
	n       int
	recv    map[ast.Expr]*ast.CallExpr
	send    map[ast.Stmt][2]ast.Expr
	elem    map[ast.Expr]ast.Expr // rewritten channel type -> element type
	made    map[ast.Node]bool
	timePkg string
}

func (r *rewriter) fresh(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", s, r.n))
}

func (r *rewriter) vs(name string) ast.Expr {
	r.uses, r.changed = true, true
	return &ast.SelectorExpr{X: ast.NewIdent("zzvsched"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: paren(x), Sel: ast.NewIdent(name)}, args...)
}

func paren(x ast.Expr) ast.Expr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.ParenExpr, *ast.IndexExpr:
		return x
	}
	return &ast.ParenExpr{X: x}
}

var swapped = map[string]string{"sync": "vsync", "sync/atomic": "vatomic", "runtime": "vruntime"}

func (r *rewriter) file(f *ast.File) {
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if to, ok := swapped[path]; ok {
			if s.Name == nil {
				s.Name = ast.NewIdent(filepath.Base(path))
			}
			s.Path.Value = strconv.Quote(base + to)
			s.EndPos = 0
			r.changed = true
		}
		switch path {
		case "context", "os/signal", "testing", "reflect":
			if path != "reflect" {
				unsup(r.fset, s, "import of "+path)
			}
		case "C":
			unsup(r.fset, s, "cgo")
		}
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		r.walk(reflect.ValueOf(d))
	}
	if r.uses {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzvsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	if r.timePkg != "" {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Type: &ast.SelectorExpr{X: ast.NewIdent(r.timePkg), Sel: ast.NewIdent("Duration")}}}})
	}
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

// walk rewrites the children of a node, then the node itself
func (r *rewriter) walk(v reflect.Value) {
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	s := v.Elem()
	if s.Kind() != reflect.Struct {
		return
	}
	if n, ok := v.Interface().(ast.Node); ok {
		r.before(n)
	}
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		if !f.CanSet() {
			continue
		}
		r.value(f)
	}
	if n, ok := v.Interface().(ast.Node); ok {
		r.after(n)
	}
}

func (r *rewriter) value(f reflect.Value) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		if _, ok := f.Interface().(ast.Node); !ok {
			return
		}
		r.walk(f.Elem())
		switch f.Type() {
		case exprType:
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		case stmtType:
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		}
	case reflect.Ptr:
		if f.IsNil() {
			return
		}
		if _, ok := f.Interface().(ast.Node); ok {
			r.walk(f)
			if x, ok := f.Interface().(ast.Expr); ok { // e.g. DeferStmt.Call
				if y := r.expr(x); y != x {
					if reflect.TypeOf(y) != f.Type() {
						unsup(r.fset, x, "expression in this place")
					}
					f.Set(reflect.ValueOf(y))
				}
			}
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.value(f.Index(i))
		}
	}
}

func (r *rewriter) isChan(x ast.Expr) bool {
	t, ok := r.info.Types[x]
	if !ok || t.Type == nil {
		return false
	}
	_, ok = t.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) builtin(x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) pkgFunc(x ast.Expr) (string, string) {
	if s, ok := x.(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if p, ok := r.info.Uses[id].(*types.PkgName); ok {
				return p.Imported().Path() + "." + s.Sel.Name, id.Name
			}
		}
	}
	return "", ""
}

// before looks at nodes whose original form is needed
func (r *rewriter) before(n ast.Node) {
	switch n := n.(type) {
	case *ast.RangeStmt:
		if r.isChan(n.X) {
			r.made[n] = true
		}
	case *ast.TypeSpec:
		if t, ok := r.info.Defs[n.Name]; ok && t != nil {
			if _, ok := t.Type().Underlying().(*types.Chan); ok {
				unsup(r.fset, n, "named channel type")
			}
		}
	case *ast.SelectorExpr:
		switch f, _ := r.pkgFunc(n); f {
		case "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc", "runtime.SetFinalizer", "runtime.LockOSThread":
			unsup(r.fset, n, f)
		}
	case *ast.CallExpr:
		switch r.builtin(n.Fun) {
		case "len", "cap", "close":
			if r.isChan(n.Args[0]) {
				r.made[n] = true
			}
		case "make":
			if r.isChan(n.Args[0]) {
				r.made[n] = true
			}
		}
	case *ast.GoStmt:
		for _, a := range n.Call.Args {
			if t, ok := r.info.Types[a]; ok {
				if _, ok := t.Type.(*types.Tuple); ok {
					unsup(r.fset, n, "go with a multi-value argument")
				}
			}
		}
		if b := r.builtin(n.Call.Fun); b != "" && b != "close" {
			unsup(r.fset, n, "go with a builtin")
		}
	}
}

func (r *rewriter) after(n ast.Node) {
	switch n := n.(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			r.two(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.two(n.Values[0])
		}
	}
}

// two turns a receive into its two-value form
func (r *rewriter) two(x ast.Expr) {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if c, ok := r.recv[x]; ok {
		c.Fun.(*ast.SelectorExpr).Sel.Name = "Recv2"
	}
}

func (r *rewriter) expr(x ast.Expr) ast.Expr {
	switch e := x.(type) {
	case *ast.ChanType:
		t := &ast.StarExpr{X: &ast.IndexExpr{X: r.vs("Chan"), Index: e.Value}}
		r.elem[t] = e.Value
		return t
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.changed = true
			c := method(e.X, "Recv")
			r.recv[c] = c
			return c
		}
	case *ast.CallExpr:
		if r.made[e] {
			id, ok := e.Fun.(*ast.Ident)
			if !ok {
				unsup(r.fset, e, "builtin in this form")
			}
			r.changed = true
			switch id.Name {
			case "len":
				return method(e.Args[0], "Len")
			case "cap":
				return method(e.Args[0], "Cap")
			case "close":
				return method(e.Args[0], "Close")
			case "make":
				t := e.Args[0]
				for {
					p, ok := t.(*ast.ParenExpr)
					if !ok {
						break
					}
					t = p.X
				}
				el, ok := r.elem[t]
				if !ok {
					unsup(r.fset, e, "make of a named channel type")
				}
				var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
				if len(e.Args) > 1 {
					size = call(ast.NewIdent("int"), e.Args[1])
				}
				return call(&ast.IndexExpr{X: r.vs("NewChan"), Index: el}, size)
			}
		}
		if f, p := r.pkgFunc(e.Fun); f == "time.Sleep" {
			r.timePkg = p
			return call(r.vs("Sleep"), e.Args...)
		}
	}
	return x
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		r.changed = true
		x := &ast.ExprStmt{X: method(s.Chan, "Send", s.Value)}
		r.send[x] = [2]ast.Expr{s.Chan, s.Value}
		return x
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.RangeStmt:
		if r.made[s] {
			return r.rangeStmt(s)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s)
	}
	return s
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	lit, isLit := c.Fun.(*ast.FuncLit)
	if isLit && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(r.vs("Go"), lit)}
	}
	b := &ast.BlockStmt{}
	fun := c.Fun
	if !isLit {
		if _, isSel := fun.(*ast.SelectorExpr); isSel || !isIdent(fun) {
			f := r.fresh("f")
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
			fun = f
		}
	}
	var args []ast.Expr
	for _, a := range c.Args {
		t, ok := r.info.Types[a]
		if ok && (t.Value != nil || t.IsNil()) {
			args = append(args, a)
			continue
		}
		v := r.fresh("a")
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, v)
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis != token.NoPos {
		inner.Ellipsis = 1
	}
	b.List = append(b.List, &ast.ExprStmt{X: call(r.vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	return b
}

func isIdent(x ast.Expr) bool { _, ok := x.(*ast.Ident); return ok }

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	c, ok := r.fresh("c"), r.fresh("ok")
	var v ast.Expr = ast.NewIdent("_")
	body := s.Body
	if s.Key != nil {
		if s.Tok == token.DEFINE {
			v = s.Key
		} else if id, isID := s.Key.(*ast.Ident); !isID || id.Name != "_" {
			t := r.fresh("v")
			v = t
			body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}}}, body.List...)
		}
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{c, v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("Range"), s.X)}},
		Cond: ok,
		Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{method(c, "Recv2")}},
		Body: body,
	}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var names, inits, args []ast.Expr
	dflt := false
	var last *ast.CaseClause
	for _, st := range s.Body.List {
		cc := st.(*ast.CommClause)
		cl := &ast.CaseClause{Body: cc.Body}
		sw.Body.List = append(sw.Body.List, cl)
		if cc.Comm == nil {
			dflt = true
			continue
		}
		last = cl
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(names))}}
		v := r.fresh("s")
		names = append(names, v)
		args = append(args, v)
		ch := func(x ast.Expr) ast.Expr {
			for {
				p, ok := x.(*ast.ParenExpr)
				if !ok {
					break
				}
				x = p.X
			}
			c, ok := r.recv[x]
			if !ok {
				unsup(r.fset, cc, "case of a select")
			}
			return c.Fun.(*ast.SelectorExpr).X
		}
		switch cm := cc.Comm.(type) {
		case *ast.ExprStmt:
			if sd, ok := r.send[cm]; ok {
				inits = append(inits, call(r.vs("NewSendCase"), sd[0], sd[1]))
			} else {
				inits = append(inits, call(r.vs("NewRecvCase"), ch(cm.X)))
			}
		case *ast.AssignStmt:
			inits = append(inits, call(r.vs("NewRecvCase"), ch(cm.Rhs[0])))
			m := "Val"
			if len(cm.Lhs) == 2 {
				m = "Val2"
			}
			cl.Body = append([]ast.Stmt{&ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{method(v, m)}}}, cl.Body...)
		default:
			unsup(r.fset, cc, "case of a select")
		}
	}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: inits}
	}
	d := "false"
	if dflt {
		d = "true"
	} else if last != nil {
		last.List = nil // a select without default ends like a switch with default
	}
	sw.Tag = call(r.vs("Select"), append([]ast.Expr{ast.NewIdent(d)}, args...)...)
	return sw
}

// rewrite produces, from the Go packages of the repository as they are now,
// copies in which every source of nondeterminism goes through the controlled
// runtime (package verifrt), plus the overlay file that makes the go command
// build those copies in place of the originals. It works on syntax trees and
// types only: it has no knowledge of what the code does.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const rtPath = "github.com/carlakc/boltnd/verifrt"

type goPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct{ Path string }
	Incomplete bool
	DepsErrors []*struct{ Err string }
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	rt := flag.String("rt", "", "runtime sources")
	harness := flag.String("harness", "", "harness sources")
	tags := flag.String("tags", "nolog", "build tags")
	skip := flag.String("skip", "offersrpc,itest,testutils",
		"packages (by last element) left as they are")
	raw := flag.Bool("raw", false, "do not rewrite, only lay over")
	flag.Parse()

	skipped := make(map[string]bool)
	for _, s := range strings.Split(*skip, ",") {
		skipped[s] = true
	}

	// Which packages are there. The integration tests are left out: they
	// pull in all of lnd and are not part of what runs.
	cmd := exec.Command("go", "list", "-tags", *tags, "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	outBytes, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	args := []string{
		"list", "-export", "-deps",
		"-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module",
		"-tags", *tags,
	}
	for _, p := range strings.Fields(string(outBytes)) {
		if filepath.Base(p) != "itest" {
			args = append(args, p)
		}
	}

	cmd = exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	outBytes, err = cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}

	pkgs := make(map[string]*goPkg)
	var order []string
	dec := json.NewDecoder(bytes.NewReader(outBytes))
	for {
		p := &goPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("decode: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}

	overlay := struct{ Replace map[string]string }{
		Replace: make(map[string]string),
	}

	var modPath string
	for _, p := range pkgs {
		if p.Dir == *repo && p.Module != nil {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("no root package in %v", *repo)
	}

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser,
		error) {

		p, ok := pkgs[path]
		if !ok || p.Export == "" {
			return nil, fmt.Errorf("no export data for %v", path)
		}
		return os.Open(p.Export)
	})

	nfiles := 0
	for _, path := range order {
		p := pkgs[path]
		if p.Standard || p.Module == nil || p.Module.Path != modPath ||
			skipped[filepath.Base(path)] || *raw {

			continue
		}

		var files []*ast.File
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(
				fset, filepath.Join(p.Dir, name), nil,
				parser.ParseComments,
			)
			if err != nil {
				die("parse %v: %v", name, err)
			}
			files = append(files, f)
		}

		info := &types.Info{
			Types:      make(map[ast.Expr]types.TypeAndValue),
			Uses:       make(map[*ast.Ident]types.Object),
			Defs:       make(map[*ast.Ident]types.Object),
			Selections: make(map[*ast.SelectorExpr]*types.Selection),
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, err := conf.Check(path, fset, files, info)
		if err != nil {
			die("typecheck %v: %v", path, err)
		}

		for i, f := range files {
			src := filepath.Join(p.Dir, p.GoFiles[i])
			rel, err := filepath.Rel(*repo, src)
			if err != nil {
				die("rel: %v", err)
			}

			rw := &rewriter{info: info, fset: fset}
			rw.file(f)

			dst := filepath.Join(*out, "src", rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
				die("%v", err)
			}

			var buf bytes.Buffer
			// Keep the build constraints, drop everything else.
			for _, cg := range f.Comments {
				if cg.End() > f.Package {
					break
				}
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:build") {
						buf.WriteString(c.Text + "\n\n")
					}
				}
			}
			f.Comments = nil
			f.Doc = nil
			cfg := printer.Config{Mode: printer.TabIndent, Tabwidth: 8}
			if err := cfg.Fprint(&buf, token.NewFileSet(), f); err != nil {
				die("print %v: %v", src, err)
			}
			if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
				die("%v", err)
			}
			overlay.Replace[src] = dst
			nfiles++
		}
	}

	add := func(dir, as string) {
		entries, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range entries {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			overlay.Replace[filepath.Join(*repo, as, e.Name())] =
				filepath.Join(dir, e.Name())
		}
	}
	if *rt != "" {
		add(*rt, "verifrt")
	}
	if *harness != "" {
		add(*harness, "verifmc")
	}

	b, err := json.MarshalIndent(overlay, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(
		filepath.Join(*out, "overlay.json"), b, 0644,
	); err != nil {
		die("%v", err)
	}
	fmt.Fprintf(os.Stderr, "rewrite: %d files\n", nfiles)
}

type rewriter struct {
	info *types.Info
	fset *token.FileSet
	used bool
	n    int
}

func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{
		X: ast.NewIdent("verifrt"), Sel: ast.NewIdent(name),
	}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("_v%s%d", p, r.n))
}

var syncNames = map[string]string{
	"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup",
	"Once": "Once", "Cond": "Cond", "NewCond": "NewCond", "Map": "Map",
	"Locker": "Locker", "Pool": "Pool", "OnceFunc": "OnceFunc",
	"OnceValue": "OnceValue",
}

var atomicNames = map[string]string{}

var timeNames = map[string]string{
	"After": "After", "Sleep": "Sleep", "NewTimer": "NewTimer",
	"Timer": "Timer", "AfterFunc": "AfterFunc", "NewTicker": "NewTicker",
	"Ticker": "Ticker", "Tick": "Tick", "Now": "Now", "Since": "Since",
	"Until": "Until",
}

var contextNames = map[string]string{
	"WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline",
}

var lndNames = map[string]string{"NewLndServices": "NewLndServices"}

func init() {
	for _, op := range []string{
		"Add", "Load", "Store", "Swap", "CompareAndSwap",
	} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
			atomicNames[op+t] = op + t
		}
	}
	for _, t := range []string{
		"Int32", "Int64", "Uint32", "Uint64", "Bool", "Value", "Pointer",
	} {
		atomicNames[t] = t
	}
}

func (r *rewriter) file(f *ast.File) {
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		r.node(d)
	}

	// Strip all comments from declarations, the printer would misplace
	// them.
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})

	r.imports(f)
}

// imports adds the runtime import and turns imports that are no longer used
// into blank ones.
func (r *rewriter) imports(f *ast.File) {
	usedNames := make(map[string]bool)
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				usedNames[id.Name] = true
			}
		}
		return true
	})

	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else {
				switch path {
				case "sync", "time", "context":
					name = path
				case "sync/atomic":
					name = "atomic"
				case "github.com/lightninglabs/lndclient":
					name = "lndclient"
				default:
					continue
				}
			}
			if name == "_" || name == "." {
				continue
			}
			if !usedNames[name] {
				is.Name = ast.NewIdent("_")
			}
		}
	}

	if r.used {
		spec := &ast.ImportSpec{
			Name: ast.NewIdent("verifrt"),
			Path: &ast.BasicLit{
				Kind: token.STRING, Value: strconv.Quote(rtPath),
			},
		}
		f.Decls = append([]ast.Decl{&ast.GenDecl{
			Tok: token.IMPORT, Specs: []ast.Spec{spec},
		}}, f.Decls...)
	}
}

var (
	exprType  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeType  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	objType   = reflect.TypeOf((*ast.Object)(nil))
	scopeType = reflect.TypeOf((*ast.Scope)(nil))
)

// node rewrites the children of n.
func (r *rewriter) node(n ast.Node) {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return
	}
	v := reflect.ValueOf(n).Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		r.field(v.Field(i), v.Type().Field(i).Name)
	}
}

func (r *rewriter) field(f reflect.Value, name string) {
	t := f.Type()
	switch {
	case t == objType || t == scopeType:
		return

	case t == exprType:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		}

	case t == stmtType:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		}

	case t.Kind() == reflect.Slice && t.Elem() == stmtType:
		list := f.Interface().([]ast.Stmt)
		f.Set(reflect.ValueOf(r.stmts(list)))

	case t.Kind() == reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.field(f.Index(i), name)
		}

	case t.Kind() == reflect.Ptr && t.Implements(nodeType):
		if f.IsNil() {
			return
		}
		n := f.Interface().(ast.Node)
		if e, ok := n.(ast.Expr); ok {
			ne := r.expr(e)
			nv := reflect.ValueOf(ne)
			if nv.Type().AssignableTo(t) {
				f.Set(nv)
			}
			return
		}
		if s, ok := n.(ast.Stmt); ok {
			ns := r.stmt(s)
			nv := reflect.ValueOf(ns)
			if nv.Type().AssignableTo(t) {
				f.Set(nv)
			}
			return
		}
		r.node(n)

	case t.Kind() == reflect.Interface && t.Implements(nodeType):
		if !f.IsNil() {
			r.node(f.Interface().(ast.Node))
		}
	}
}

func (r *rewriter) point() ast.Stmt {
	return &ast.ExprStmt{X: r.call("P")}
}

func (r *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			// The elements of a switch or select body.
			r.node(s)
			out = append(out, s)
			continue

		case *ast.EmptyStmt:
			continue
		}
		out = append(out, r.point(), r.stmt(s))
	}
	return out
}

func isArrow(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{
			Fun:  r.call("SendTo", r.expr(s.Chan)),
			Args: []ast.Expr{r.expr(s.Value)},
		}}

	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := isArrow(s.Rhs[0]); ok {
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return s
			}
		}

	case *ast.GoStmt:
		return r.goStmt(s)

	case *ast.SelectStmt:
		return r.selectStmt(s, nil)

	case *ast.LabeledStmt:
		switch inner := s.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(inner, s.Label)
		}

	case *ast.RangeStmt:
		if t := r.info.TypeOf(s.X); t != nil {
			switch t.Underlying().(type) {
			case *types.Chan:
				return r.rangeChan(s)
			case *types.Map:
				return r.rangeMap(s)
			}
		}
	}

	r.node(s)

	return s
}

func (r *rewriter) rangeChan(s *ast.RangeStmt) ast.Stmt {
	ok := r.tmp("ok")
	key := s.Key
	tok := s.Tok
	if key == nil {
		key, tok = ast.NewIdent("_"), token.DEFINE
	}
	if tok == token.ASSIGN {
		r.node(s)
		return s
	}
	ch := r.expr(s.X)
	mk := func(t token.Token) *ast.AssignStmt {
		return &ast.AssignStmt{
			Lhs: []ast.Expr{key, ok}, Tok: t,
			Rhs: []ast.Expr{r.call("Recv2", ch)},
		}
	}
	r.node(s.Body)
	return &ast.ForStmt{
		Init: mk(token.DEFINE), Cond: ok, Post: mk(token.ASSIGN),
		Body: s.Body,
	}
}

func (r *rewriter) rangeMap(s *ast.RangeStmt) ast.Stmt {
	if s.Tok == token.ASSIGN {
		r.node(s)
		return s
	}
	blank := func(e ast.Expr) ast.Expr {
		if e == nil {
			return ast.NewIdent("_")
		}
		return e
	}
	it := r.tmp("it")
	k, v := blank(s.Key), blank(s.Value)
	init := &ast.AssignStmt{
		Lhs: []ast.Expr{k, v, it}, Tok: token.DEFINE,
		Rhs: []ast.Expr{r.call("RangeMap", r.expr(s.X))},
	}
	post := &ast.AssignStmt{
		Lhs: []ast.Expr{k, v}, Tok: token.ASSIGN,
		Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{
			X: it, Sel: ast.NewIdent("Next"),
		}}},
	}
	r.node(s.Body)
	return &ast.ForStmt{
		Init: init,
		Cond: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("More")},
		Post: post,
		Body: s.Body,
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	call := s.Call
	var pre []ast.Stmt

	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.node(fl)
		return &ast.ExprStmt{X: r.call("Go", fl)}
	}

	hoist := func(e ast.Expr) ast.Expr {
		tv, ok := r.info.Types[e]
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsType() ||
			tv.IsBuiltin()) {

			return r.expr(e)
		}
		id := r.tmp("a")
		pre = append(pre, &ast.AssignStmt{
			Lhs: []ast.Expr{id}, Tok: token.DEFINE,
			Rhs: []ast.Expr{r.expr(e)},
		})
		return id
	}

	fun := call.Fun
	if fl, ok := fun.(*ast.FuncLit); ok {
		r.node(fl)
		fun = fl
	} else {
		fun = hoist(fun)
	}
	args := make([]ast.Expr, len(call.Args))
	for i, a := range call.Args {
		args[i] = hoist(a)
	}
	body := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: call.Ellipsis}
	if call.Ellipsis != token.NoPos {
		body.Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: body},
		}},
	})})

	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var (
		pre        []ast.Stmt
		cases      []ast.Expr
		clauses    []ast.Stmt
		hasDefault bool
	)

	if len(s.Body.List) == 0 {
		return &ast.ExprStmt{X: r.call("Select", ast.NewIdent("false"))}
	}

	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := r.stmts(cc.Body)

		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: body})
			continue
		}

		id := r.tmp("c")
		idx := &ast.BasicLit{
			Kind: token.INT, Value: strconv.Itoa(len(cases)),
		}
		var first []ast.Stmt

		field := func(name string) ast.Expr {
			return &ast.SelectorExpr{X: id, Sel: ast.NewIdent(name)}
		}

		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{
				Lhs: []ast.Expr{id}, Tok: token.DEFINE,
				Rhs: []ast.Expr{&ast.CallExpr{
					Fun:  r.call("CaseSend", r.expr(comm.Chan)),
					Args: []ast.Expr{r.expr(comm.Value)},
				}},
			})

		case *ast.ExprStmt:
			u, ok := isArrow(comm.X)
			if !ok {
				die("unexpected select case")
			}
			pre = append(pre, &ast.AssignStmt{
				Lhs: []ast.Expr{id}, Tok: token.DEFINE,
				Rhs: []ast.Expr{r.call("CaseRecv", r.expr(u.X))},
			})

		case *ast.AssignStmt:
			u, ok := isArrow(comm.Rhs[0])
			if !ok {
				die("unexpected select case")
			}
			pre = append(pre, &ast.AssignStmt{
				Lhs: []ast.Expr{id}, Tok: token.DEFINE,
				Rhs: []ast.Expr{r.call("CaseRecv", r.expr(u.X))},
			})
			lhs := make([]ast.Expr, len(comm.Lhs))
			for i := range comm.Lhs {
				lhs[i] = r.expr(comm.Lhs[i])
			}
			rhs := []ast.Expr{field("Val")}
			if len(lhs) == 2 {
				rhs = append(rhs, field("OK"))
			}
			first = append(first, &ast.AssignStmt{
				Lhs: lhs, Tok: comm.Tok, Rhs: rhs,
			})

		default:
			die("unexpected select case %T", comm)
		}

		cases = append(cases, id)
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{idx}, Body: append(first, body...),
		})
	}

	if !hasDefault {
		clauses = append(clauses, &ast.CaseClause{
			Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
				Fun: ast.NewIdent("panic"),
				Args: []ast.Expr{&ast.BasicLit{
					Kind:  token.STRING,
					Value: `"verifrt: unreachable select"`,
				}},
			}}},
		})
	}

	args := append(
		[]ast.Expr{ast.NewIdent(strconv.FormatBool(hasDefault))},
		cases...,
	)
	var sw ast.Stmt = &ast.SwitchStmt{
		Tag:  r.call("Select", args...),
		Body: &ast.BlockStmt{List: clauses},
	}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}

	return &ast.BlockStmt{List: append(pre, sw)}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}

	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "close" {
			if _, ok := r.info.Uses[id].(*types.Builtin); ok {
				return r.call("Close", r.expr(e.Args[0]))
			}
		}

	case *ast.SelectorExpr:
		id, ok := e.X.(*ast.Ident)
		if !ok {
			break
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			break
		}
		var names map[string]string
		switch pn.Imported().Path() {
		case "sync":
			names = syncNames
		case "sync/atomic":
			names = atomicNames
		case "time":
			names = timeNames
		case "context":
			names = contextNames
		case "github.com/lightninglabs/lndclient",
			"github.com/carlakc/lndclient":
			names = lndNames
		}
		if n, ok := names[e.Sel.Name]; ok {
			return r.rt(n)
		}
		return e

	case *ast.FuncLit:
		r.node(e.Body)
		r.node(e.Type)
		return e
	}

	r.node(e)

	return e
}

var _ = sort.Strings

// mutate lists small changes of the repository's non-test sources, one JSON
// object per line, for measuring what the checks miss. It is a development
// tool: no check uses it.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type goPkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct{ Path string }
}

type mutant struct {
	File, Kind, Func string
	Line, From, To   int
	Old, New         string
}

type gen struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	src  []byte
	file string
	fn   string
	out  []mutant
}

func (g *gen) off(p token.Pos) int { return g.fset.Position(p).Offset }

func (g *gen) text(n ast.Node) string {
	return string(g.src[g.off(n.Pos()):g.off(n.End())])
}

func (g *gen) add(kind string, from, to token.Pos, repl string) {
	a, b := g.off(from), g.off(to)
	g.out = append(g.out, mutant{
		File: g.file, Kind: kind, Func: g.fn,
		Line: g.fset.Position(from).Line,
		From: a, To: b, Old: string(g.src[a:b]), New: repl,
	})
}

func isLog(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "log" {
				found = true
			}
		}
		return !found
	})
	return found
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="},
	token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
	token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	token.SHL: {">>"}, token.SHR: {"<<"},
}

// same is whether b may stand where a stands.
func (g *gen) sameType(a, b ast.Expr) bool {
	ta, tb := g.info.TypeOf(a), g.info.TypeOf(b)
	return ta != nil && tb != nil && types.Identical(ta, tb)
}

func (g *gen) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false

		case *ast.FuncDecl:
			g.fn = n.Name.Name

		case *ast.CallExpr:
			if isLog(n.Fun) {
				return false
			}
			for i := 0; i+1 < len(n.Args); i++ {
				a, b := n.Args[i], n.Args[i+1]
				if g.sameType(a, b) && g.text(a) != g.text(b) {
					g.add("swap-args", a.Pos(), b.End(),
						g.text(b)+", "+g.text(a))
				}
			}

		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				g.add("operator", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				g.add("left", n.Pos(), n.End(), g.text(n.X))
				g.add("right", n.Pos(), n.End(), g.text(n.Y))
			}

		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				g.add("negation", n.Pos(), n.End(), g.text(n.X))
			}

		case *ast.BasicLit:
			if n.Kind == token.INT {
				g.add("constant", n.Pos(), n.End(), "("+n.Value+"+1)")
				g.add("constant", n.Pos(), n.End(), "("+n.Value+"-1)")
			}

		case *ast.IfStmt:
			g.add("if-true", n.Cond.Pos(), n.Cond.End(),
				"("+g.text(n.Cond)+") || true")
			g.add("if-false", n.Cond.Pos(), n.Cond.End(),
				"("+g.text(n.Cond)+") && false")

		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt,
			*ast.DeferStmt:

			if !isLog(n) {
				g.add("delete", n.Pos(), n.End(), "{}")
			}
		case *ast.GoStmt:
			g.add("no-go", n.Pos(), n.Call.Pos(), "")

		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				var keep []string
				for _, r := range n.Rhs {
					keep = append(keep, g.text(r))
				}
				if len(n.Rhs) == 1 && len(n.Lhs) == 1 {
					g.add("delete", n.Pos(), n.End(),
						"_ = "+keep[0])
				}
			}

		case *ast.BranchStmt:
			if n.Tok == token.BREAK {
				g.add("break", n.Pos(), n.End(), "{}")
			}
			if n.Tok == token.CONTINUE {
				g.add("continue", n.Pos(), n.End(), "{}")
				g.add("continue", n.Pos(), n.End(), "break")
			}

		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				e := n.Results[k-1]
				t := g.info.TypeOf(e)
				if t != nil && t.String() == "error" ||
					t != nil && strings.HasSuffix(t.String(), "Error") {

					g.add("nil-error", e.Pos(), e.End(), "nil")
				}
			}

		case *ast.CommClause:
			if n.Comm != nil {
				g.add("no-case", n.Pos(), n.Colon+1, "case <-(chan struct{})(nil):")
				g.add("del-case", n.Pos(), n.End(), "")
			}
		case *ast.CaseClause:
			g.add("del-case", n.Pos(), n.End(), "")

		case *ast.KeyValueExpr:
			if _, ok := n.Key.(*ast.Ident); ok {
				end := n.End()
				if g.off(end) < len(g.src) && g.src[g.off(end)] == ',' {
					g.add("no-field", n.Pos(), end+1, "")
				}
			}

		case *ast.SliceExpr:
			if n.Low != nil {
				g.add("slice", n.Low.Pos(), n.Low.End(), g.text(n.Low)+"+1")
			}
			if n.High != nil {
				g.add("slice", n.High.Pos(), n.High.End(), g.text(n.High)+"-1")
			}
		case *ast.RangeStmt:
			g.add("range-tail", n.X.Pos(), n.X.End(), g.text(n.X)+"[1:]")

		case *ast.SelectorExpr:
			// Another field of the same type.
			sel, ok := g.info.Selections[n]
			if !ok || sel.Kind() != types.FieldVal {
				return true
			}
			t := sel.Recv()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return true
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Name() != n.Sel.Name &&
					types.Identical(f.Type(), sel.Type()) &&
					(f.Exported() || f.Pkg() == g.pkg) {

					g.add("field", n.Sel.Pos(), n.Sel.End(), f.Name())
				}
			}

		case *ast.Ident:
			obj, ok := g.info.Uses[n].(*types.Var)
			if ok && !obj.IsField() {
				// Another variable of the same type in scope.
				sc := g.pkg.Scope().Innermost(n.Pos())
				seen := 0
				for s := sc; s != nil && s != types.Universe; s = s.Parent() {
					for _, name := range s.Names() {
						o, ok := s.Lookup(name).(*types.Var)
						if !ok || o == obj || name == "_" ||
							s != g.pkg.Scope() && o.Pos() >= n.Pos() {
							continue
						}
						if types.Identical(o.Type(), obj.Type()) &&
							seen < 3 {
							seen++
							g.add("variable", n.Pos(), n.End(), name)
						}
					}
				}
				if b, ok := obj.Type().Underlying().(*types.Basic); ok &&
					b.Info()&types.IsInteger != 0 {
					g.add("plus1", n.Pos(), n.End(), "("+n.Name+"+1)")
				}
				return true
			}
			c, ok := g.info.Uses[n].(*types.Const)
			if ok && c.Pkg() == g.pkg {
				for _, name := range g.pkg.Scope().Names() {
					o, ok := g.pkg.Scope().Lookup(name).(*types.Const)
					if ok && o != c && types.Identical(o.Type(), c.Type()) {
						g.add("const", n.Pos(), n.End(), name)
						break
					}
				}
			}
		}
		return true
	})
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-tags", "nolog",
		"-json=ImportPath,Dir,Export,GoFiles,Standard,Module", ".",
		"./lnwire", "./offers", "./onionmsg", "./routes", "./rpcserver")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	pkgs := map[string]*goPkg{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &goPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			check(err)
		}
		pkgs[p.ImportPath] = p
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		return os.Open(pkgs[path].Export)
	})
	var all []mutant
	for _, p := range pkgs {
		if p.Standard || !strings.HasPrefix(p.ImportPath, "github.com/carlakc/boltnd") {
			continue
		}
		switch filepath.Base(p.Dir) {
		case "offersrpc", "testutils":
			continue
		}
		var fs []*ast.File
		for _, n := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, 0)
			check(err)
			fs = append(fs, f)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Uses:       map[*ast.Ident]types.Object{},
			Defs:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(p.ImportPath, fset, fs, info)
		check(err)
		for i, f := range fs {
			n := p.GoFiles[i]
			if n == "log.go" || n == "testutils.go" {
				continue
			}
			full := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(full)
			check(err)
			rel, _ := filepath.Rel(*repo, full)
			g := &gen{fset: fset, info: info, pkg: tp, src: src, file: rel}
			g.walk(f)
			all = append(all, g.out...)
		}
	}
	sort.SliceStable(all, func(i, j int) bool {
		if all[i].File != all[j].File {
			return all[i].File < all[j].File
		}
		return all[i].From < all[j].From
	})
	enc := json.NewEncoder(os.Stdout)
	for _, m := range all {
		check(enc.Encode(m))
	}
}

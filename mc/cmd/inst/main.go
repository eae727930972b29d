// Command inst writes an instrumented copy of the library and an overlay file
// for "go build -overlay": a scheduling point before every statement, package
// sync replaced by vsync, and per-package functions restoring package-level
// state. It works on the syntax tree of whatever the repository contains.
//
//	inst REPO OUTDIR
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const schedPath = "github.com/mewmew/float/vmc/vsched"

var (
	points   int
	warnings []string
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	byDir := map[string][]string{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok {
			return nil
		}
		byDir[filepath.Dir(p)] = append(byDir[filepath.Dir(p)], p)
		return nil
	})
	check(err)
	for dir, files := range byDir {
		sort.Strings(files)
		instrument(repo, out, dir, files, overlay)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	b, _ = json.Marshal(map[string]any{"points": points, "files": len(overlay), "packages": len(byDir), "warnings": warnings})
	check(os.WriteFile(filepath.Join(out, "inst.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "inst:", err)
		os.Exit(3)
	}
}

type pkgVar struct {
	names []string // assigned together
	value ast.Expr // nil: zero
	typ   ast.Expr
	file  int
	fn    string
	deps  map[string]bool
	done  bool
}

func instrument(repo, out, dir string, paths []string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, p := range paths {
		f, err := parser.ParseFile(fset, p, nil, 0) // comments dropped, except see directives below
		check(err)
		files = append(files, f)
	}
	if files[0].Name.Name == "main" {
		return
	}
	// package-level objects
	funcs := map[string]*ast.FuncDecl{}
	methods := map[string][]*ast.FuncDecl{}
	vars := map[string]*pkgVar{}
	var order []*pkgVar
	inits := map[int][]string{}
	nInit := 0
	for fi, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv != nil {
					methods[d.Name.Name] = append(methods[d.Name.Name], d)
				} else if d.Name.Name == "init" {
					d.Name.Name = fmt.Sprintf("vInit%d", nInit)
					inits[fi] = append(inits[fi], d.Name.Name)
					nInit++
				} else {
					funcs[d.Name.Name] = d
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) == 1 && len(vs.Names) > 1 {
						v := &pkgVar{value: vs.Values[0], file: fi}
						for _, n := range vs.Names {
							v.names = append(v.names, n.Name)
							vars[n.Name] = v
						}
						order = append(order, v)
						continue
					}
					for i, n := range vs.Names {
						v := &pkgVar{names: []string{n.Name}, file: fi, typ: vs.Type}
						if len(vs.Values) > 0 {
							v.value = vs.Values[i]
						}
						if n.Name != "_" {
							vars[n.Name] = v
							order = append(order, v)
						}
					}
				}
			}
		}
	}
	pkgVars = map[string]bool{}
	for n := range vars {
		pkgVars[n] = true
	}
	// dependency-ordered re-initialisation
	var sorted []*pkgVar
	var visit func(v *pkgVar)
	seenFn := map[*ast.FuncDecl]map[string]bool{}
	var refs func(n ast.Node, m map[string]bool)
	refs = func(n ast.Node, m map[string]bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			id, ok := x.(*ast.Ident)
			if !ok {
				return true
			}
			if vars[id.Name] != nil {
				m[id.Name] = true
			}
			var fns []*ast.FuncDecl
			if f := funcs[id.Name]; f != nil {
				fns = append(fns, f)
			}
			fns = append(fns, methods[id.Name]...)
			for _, f := range fns {
				if seenFn[f] == nil {
					seenFn[f] = map[string]bool{}
					if f.Body != nil {
						refs(f.Body, seenFn[f])
					}
				}
				for k := range seenFn[f] {
					m[k] = true
				}
			}
			return true
		})
	}
	visit = func(v *pkgVar) {
		if v.done {
			return
		}
		v.done = true
		if v.value != nil {
			m := map[string]bool{}
			refs(v.value, m)
			for _, o := range order { // declaration order
				for _, n := range o.names {
					if m[n] {
						visit(o)
						break
					}
				}
			}
		}
		sorted = append(sorted, v)
	}
	for _, v := range order {
		visit(v)
	}
	expr := func(e ast.Expr) string {
		var b bytes.Buffer
		check(printer.Fprint(&b, fset, e))
		return b.String()
	}
	extra := make([]string, len(files))
	var calls []string
	for i, v := range sorted {
		fn := fmt.Sprintf("vReset%d", i)
		switch {
		case v.value == nil:
			extra[v.file] += fmt.Sprintf("\nfunc %s() {\n\tvar z %s\n\t%s = z\n}\n", fn, expr(v.typ), v.names[0])
		default:
			extra[v.file] += fmt.Sprintf("\nfunc %s() {\n\t%s = %s\n}\n", fn, strings.Join(v.names, ", "), expr(v.value))
		}
		calls = append(calls, "\t"+fn+"()\n")
	}
	var initCalls []string
	for fi := range files {
		for _, n := range inits[fi] {
			initCalls = append(initCalls, "\t"+n+"()\n")
		}
	}
	extra[0] += "\nfunc init() {\n" + strings.Join(initCalls, "") + "\tvsched.RegisterReset(vResetAll)\n}\n\nfunc vResetAll() {\n" + strings.Join(calls, "") + strings.Join(initCalls, "") + "}\n"
	rel, _ := filepath.Rel(repo, dir)
	od := filepath.Join(out, "inst", rel)
	check(os.MkdirAll(od, 0o755))
	for fi, f := range files {
		rewriteImports(f)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				block(fset, fd.Body)
			}
			if gd, ok := d.(*ast.GenDecl); ok {
				ast.Inspect(gd, func(n ast.Node) bool {
					if fl, ok := n.(*ast.FuncLit); ok {
						block(fset, fl.Body)
						return false
					}
					return true
				})
			}
		}
		addImport(f)
		var b bytes.Buffer
		// positions would make the printer keep odd line breaks; fine
		check(printer.Fprint(&b, fset, f))
		b.WriteString(extra[fi])
		b.WriteString("\nvar _ = vsched.P\n")
		src, err := format.Source(b.Bytes())
		if err != nil {
			src = b.Bytes()
		}
		p := filepath.Join(od, filepath.Base(paths[fi]))
		check(os.WriteFile(p, src, 0o644))
		overlay[paths[fi]] = p
	}
}

func rewriteImports(f *ast.File) {
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			im.Path.Value = `"github.com/mewmew/float/vmc/vsync"`
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
	}
}

func addImport(f *ast.File) {
	spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + schedPath + `"`}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

func point() ast.Stmt {
	points++
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent("P")}, Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(points)}}}}
}

func block(fset *token.FileSet, b *ast.BlockStmt) {
	if b != nil {
		b.List = list(fset, b.List)
	}
}

func list(fset *token.FileSet, l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		}
		if s2 := split(s); s2 != nil {
			out = append(out, point(), s2)
			continue
		}
		stmt(fset, s)
		out = append(out, point(), s)
	}
	return out
}

// pkgVars are the package-level variables of the package being instrumented.
var pkgVars map[string]bool

// split separates the read and the write of x++, x-- and x op= e where x is, or
// is part of, a package-level variable, so that another thread can come
// between.
func split(s ast.Stmt) ast.Stmt {
	var x, e ast.Expr
	var op token.Token
	switch s := s.(type) {
	case *ast.IncDecStmt:
		x, e, op = s.X, &ast.BasicLit{Kind: token.INT, Value: "1"}, token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
	case *ast.AssignStmt:
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		o, ok := ops[s.Tok]
		if !ok {
			return nil
		}
		x, e, op = s.Lhs[0], &ast.ParenExpr{X: s.Rhs[0]}, o
	default:
		return nil
	}
	if e != nil && hasCall(e) || !shared(x) {
		return nil
	}
	v := ast.NewIdent("vOld")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
		point(),
		&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: v, Op: op, Y: e}}},
	}}
}

func hasCall(e ast.Expr) (b bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			b = true
		}
		return true
	})
	return
}

func shared(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return pkgVars[x.Name]
	case *ast.ParenExpr:
		return shared(x.X)
	case *ast.SelectorExpr:
		return shared(x.X)
	case *ast.StarExpr:
		return shared(x.X)
	case *ast.IndexExpr:
		return shared(x.X) && !hasCall(x.Index)
	}
	return false
}

func stmt(fset *token.FileSet, s ast.Stmt) {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		stmt(fset, s.Stmt)
		return
	case *ast.BlockStmt:
		block(fset, s)
		return
	case *ast.IfStmt:
		lits(fset, s.Init, s.Cond)
		block(fset, s.Body)
		if s.Else != nil {
			stmt(fset, s.Else)
		}
		return
	case *ast.ForStmt:
		lits(fset, s.Init, s.Cond, s.Post)
		block(fset, s.Body)
		if len(s.Body.List) == 0 { // spinning
			s.Body.List = []ast.Stmt{point()}
		}
		return
	case *ast.RangeStmt:
		lits(fset, s.X)
		block(fset, s.Body)
		return
	case *ast.SwitchStmt:
		lits(fset, s.Init, s.Tag)
		clauses(fset, s.Body)
		return
	case *ast.TypeSwitchStmt:
		lits(fset, s.Init)
		clauses(fset, s.Body)
		return
	case *ast.SelectStmt:
		warn(fset, s, "select statement not controlled")
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = list(fset, cc.Body)
		}
		return
	case *ast.GoStmt:
		warn(fset, s, "go statement not controlled")
	case *ast.SendStmt:
		warn(fset, s, "channel send not controlled")
	}
	lits(fset, s)
}

func clauses(fset *token.FileSet, b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for _, e := range cc.List {
			lits(fset, e)
		}
		cc.Body = list(fset, cc.Body)
	}
}

// lits instruments function literals inside expressions and simple statements.
func lits(fset *token.FileSet, ns ...ast.Node) {
	for _, n := range ns {
		if n == nil || isNil(n) {
			continue
		}
		ast.Inspect(n, func(x ast.Node) bool {
			if fl, ok := x.(*ast.FuncLit); ok {
				block(fset, fl.Body)
				return false
			}
			return true
		})
	}
}

func isNil(n ast.Node) bool {
	switch n := n.(type) {
	case ast.Stmt:
		return n == nil
	case ast.Expr:
		return n == nil
	}
	return false
}

func warn(fset *token.FileSet, n ast.Node, s string) {
	warnings = append(warnings, fmt.Sprintf("%s: %s", fset.Position(n.Pos()), s))
}

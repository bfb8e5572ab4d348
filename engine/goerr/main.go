// goerr: error discipline of Go sources, decided on the syntax tree (the dependencies' types are not available here).
// Every call known to report an error must have the error bound; every bound error must be tested, returned or handed on
// before it is bound again or goes out of scope; the branch taken on an error must not fall through to the normal path.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type finding struct{ Fn, What, Pos string }
type report struct {
	Functions, Calls, Bound int
	Findings                []finding
}

var fset = token.NewFileSet()
var local = map[string]*ast.FuncType{}
var rep report

// methods and functions of the used libraries whose only result is an error, or whose last result is one
var reports = map[string]bool{"ReadFrom": true, "WriteTo": true, "Verify": true, "Prove": true, "Setup": true, "Compile": true, "Decode": true, "Encode": true, "Unmarshal": true,
	"Marshal": true, "MarshalIndent": true, "DecodeString": true, "Open": true, "Create": true, "WriteFile": true, "ReadFile": true, "Write": true, "WriteString": true, "Read": true, "ReadAll": true,
	"Copy": true, "Flush": true, "Sync": true, "Remove": true, "Rename": true, "Mkdir": true, "MkdirAll": true, "IsSolved": true, "NewWitness": true, "Public": true, "NewVerifier": true,
	"AssertProof": true, "ValueOfProof": true, "ValueOfVerifyingKey": true, "ValueOfVerifyingKeyFixed": true, "Pair": true, "PairingCheck": true, "SetBytesCanonical": true, "UnsafeReadFrom": true, "Close": true, "Wait": false}

func callee(c *ast.CallExpr) (string, bool) {
	f := c.Fun
	for {
		switch x := f.(type) {
		case *ast.IndexExpr:
			f = x.X
			continue
		case *ast.IndexListExpr:
			f = x.X
			continue
		case *ast.ParenExpr:
			f = x.X
			continue
		}
		break
	}
	switch x := f.(type) {
	case *ast.Ident:
		return x.Name, true
	case *ast.SelectorExpr:
		return x.Sel.Name, false
	}
	return "", false
}
func isErr(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "error" }
func lastIsErr(t *ast.FuncType) bool {
	return t.Results != nil && len(t.Results.List) > 0 && isErr(t.Results.List[len(t.Results.List)-1].Type)
}

// reportsErr: the last result of the call is an error
func reportsErr(e ast.Expr) (string, bool) {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return "", false
	}
	rep.Calls++
	n, plain := callee(c)
	if t, ok := local[n]; ok {
		if !plain {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil && x.Name != "eigen" {
					return n, reports[n]
				}
			}
		}
		return n, lastIsErr(t)
	}
	return n, !plain && reports[n]
}
func mentions(n ast.Node, name string) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok && i.Name == name {
			found = true
		}
		return !found
	})
	return found
}

// assigned: the statement binds the name
func assigned(s ast.Stmt, name string) bool {
	a, ok := s.(*ast.AssignStmt)
	if !ok {
		return false
	}
	for _, l := range a.Lhs {
		if i, ok := l.(*ast.Ident); ok && i.Name == name {
			return true
		}
	}
	return false
}
func pos(n ast.Node) string {
	p := fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

type walker struct {
	fn  string
	ret *ast.FuncType
}

func (w *walker) bad(n ast.Node, f string, a ...interface{}) {
	rep.Findings = append(rep.Findings, finding{w.fn, fmt.Sprintf(f, a...), pos(n)})
}

// stops: control does not continue after the statements, and where the function can report errors it reports one
func (w *walker) stops(l []ast.Stmt, name string) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		if w.ret != nil && lastIsErr(w.ret) && len(x.Results) > 0 {
			if i, ok := x.Results[len(x.Results)-1].(*ast.Ident); ok && i.Name == "nil" {
				return false
			}
		}
		if w.ret == nil || !lastIsErr(w.ret) {
			return len(x.Results) > 0 && mentions(x, name)
		}
		return true
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			n, plain := callee(c)
			return plain && n == "panic" || !plain && (strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") || n == "Exit" || n == "Goexit") || plain && n == "NoError"
		}
	case *ast.BlockStmt:
		return w.stops(x.List, name)
	case *ast.IfStmt:
		return x.Else != nil && w.stops(x.Body.List, name) && w.stops([]ast.Stmt{x.Else}, name)
	}
	return false
}

// tested: what an if statement says about the name: +1 the body runs on failure, -1 the else branch does, 0 nothing
func tested(c ast.Expr, name string) int {
	switch x := c.(type) {
	case *ast.ParenExpr:
		return tested(x.X, name)
	case *ast.BinaryExpr:
		if x.Op == token.LOR {
			if r := tested(x.X, name); r != 0 {
				return r
			}
			return tested(x.Y, name)
		}
		i, ok := x.X.(*ast.Ident)
		if !ok {
			if j, ok2 := x.Y.(*ast.Ident); ok2 && j.Name == name {
				i, ok = j, true
			}
		}
		if ok && i.Name == name && x.Op == token.NEQ {
			return 1
		}
		if ok && i.Name == name && x.Op == token.EQL {
			return -1
		}
	case *ast.UnaryExpr:
		if i, ok := x.X.(*ast.Ident); ok && i.Name == name && x.Op == token.NOT {
			return 1
		}
	case *ast.Ident:
		if x.Name == name {
			return -1
		}
	}
	return 0
}

// settled: the statement accounts for the bound error; second result: it was looked at but the failing branch goes on
func (w *walker) settled(s ast.Stmt, name string) (bool, bool) {
	if x, ok := s.(*ast.IfStmt); ok {
		switch tested(x.Cond, name) {
		case 1:
			return true, !w.stops(x.Body.List, name)
		case -1:
			if x.Else != nil {
				return true, !w.stops([]ast.Stmt{x.Else}, name)
			}
			return true, true
		}
	}
	if x, ok := s.(*ast.SwitchStmt); ok && mentions(x, name) {
		return true, false
	}
	if a, ok := s.(*ast.AssignStmt); ok {
		for _, r := range a.Rhs {
			if mentions(r, name) {
				for _, l := range a.Lhs {
					if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
						return true, false
					}
				}
				return false, false
			}
		}
		return false, false
	}
	if e, ok := s.(*ast.ExprStmt); ok {
		if c, ok := e.X.(*ast.CallExpr); ok {
			n, plain := callee(c)
			if !plain && (strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Log") || strings.HasPrefix(n, "Debug") || strings.HasPrefix(n, "Warn") || strings.HasPrefix(n, "Error")) {
				return false, false
			}
		}
		return mentions(s, name), false
	}
	if _, ok := s.(*ast.ReturnStmt); ok {
		return mentions(s, name), false
	}
	if _, ok := s.(*ast.DeferStmt); ok {
		return false, false
	}
	return mentions(s, name), false
}

func (w *walker) follow(at ast.Node, what, name string, rest []ast.Stmt) {
	for _, s := range rest {
		ok, falls := w.settled(s, name)
		if falls {
			w.bad(s, "the failure of %s is looked at, but the failing branch goes on", what)
			return
		}
		if ok {
			return
		}
		if assigned(s, name) {
			break
		}
	}
	w.bad(at, "the failure of %s is bound but never looked at", what)
}

func (w *walker) call(n ast.Node, rhs []ast.Expr, lhs []ast.Expr, rest []ast.Stmt) {
	for i, r := range rhs {
		what, yes := reportsErr(r)
		var target ast.Expr
		okForm := false
		switch x := r.(type) {
		case *ast.TypeAssertExpr:
			okForm = len(lhs) == 2
			what = "the type assertion"
		case *ast.CallExpr:
			if s, _ := callee(x); s == "SetString" && len(lhs) == 2 {
				okForm = true
				what = s
			}
		}
		if !yes && !okForm {
			continue
		}
		if len(lhs) == 0 {
			if yes {
				w.bad(n, "the failure of %s is discarded", what)
			}
			continue
		}
		if len(rhs) == 1 {
			target = lhs[len(lhs)-1]
		} else {
			target = lhs[i]
		}
		id, ok := target.(*ast.Ident)
		if !ok {
			continue
		}
		rep.Bound++
		if id.Name == "_" {
			w.bad(n, "the failure of %s is discarded", what)
			continue
		}
		w.follow(n, what, id.Name, rest)
	}
}

func (w *walker) block(l []ast.Stmt) {
	for i, s := range l {
		rest := l[i+1:]
		switch x := s.(type) {
		case *ast.ExprStmt:
			w.call(x, []ast.Expr{x.X}, nil, rest)
		case *ast.AssignStmt:
			w.call(x, x.Rhs, x.Lhs, rest)
		case *ast.GoStmt:
			w.call(x, []ast.Expr{x.Call}, nil, rest)
		case *ast.DeclStmt:
			if g, ok := x.Decl.(*ast.GenDecl); ok {
				for _, sp := range g.Specs {
					if v, ok := sp.(*ast.ValueSpec); ok && len(v.Values) > 0 {
						var lhs []ast.Expr
						for _, n := range v.Names {
							lhs = append(lhs, n)
						}
						w.call(x, v.Values, lhs, rest)
					}
				}
			}
		case *ast.IfStmt:
			if a, ok := x.Init.(*ast.AssignStmt); ok {
				w.call(a, a.Rhs, a.Lhs, []ast.Stmt{&ast.IfStmt{Cond: x.Cond, Body: x.Body, Else: x.Else}})
			}
		}
		w.inner(s)
	}
}
func (w *walker) inner(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		w.block(x.List)
	case *ast.IfStmt:
		w.block(x.Body.List)
		if x.Else != nil {
			w.inner(x.Else)
		}
	case *ast.ForStmt:
		w.block(x.Body.List)
	case *ast.RangeStmt:
		w.block(x.Body.List)
	case *ast.SwitchStmt:
		for _, c := range x.Body.List {
			w.block(c.(*ast.CaseClause).Body)
		}
	case *ast.LabeledStmt:
		w.inner(x.Stmt)
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch f := n.(type) {
		case *ast.FuncLit:
			(&walker{w.fn + " closure", f.Type}).block(f.Body.List)
			return false
		case ast.Stmt:
			return f == s || func() bool { _, b := f.(*ast.BlockStmt); return !b }()
		}
		return true
	})
}

func main() {
	var files []*ast.File
	filepath.Walk(os.Args[1], func(p string, i os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			f, err := parser.ParseFile(fset, p, nil, 0)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			files = append(files, f)
		}
		return nil
	})
	for _, f := range files {
		for _, d := range f.Decls {
			if x, ok := d.(*ast.FuncDecl); ok {
				local[x.Name.Name] = x.Type
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if x, ok := d.(*ast.FuncDecl); ok && x.Body != nil {
				rep.Functions++
				(&walker{x.Name.Name, x.Type}).block(x.Body.List)
			}
		}
	}
	sort.Slice(rep.Findings, func(i, j int) bool { return rep.Findings[i].Pos < rep.Findings[j].Pos })
	json.NewEncoder(os.Stdout).Encode(rep)
}

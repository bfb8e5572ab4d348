// For every function exported to C: the package-function calls it makes and, per argument, the parameter the argument was converted from;
// and the parameter names of the functions of the sub-packages.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type Call struct {
	Callee string
	Args   []string
}
type Out struct {
	Exports map[string][]string
	Calls   map[string][]Call
	Params  map[string][]string
}

func params(f *ast.FuncDecl) []string {
	r := []string{}
	for _, p := range f.Type.Params.List {
		for _, n := range p.Names {
			r = append(r, n.Name)
		}
	}
	return r
}

// origin: the parameter an expression is a conversion of, through one-argument calls, parentheses and local definitions
func origin(e ast.Expr, env map[string]string) string {
	switch x := e.(type) {
	case *ast.Ident:
		return env[x.Name]
	case *ast.ParenExpr:
		return origin(x.X, env)
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			return origin(x.Args[0], env)
		}
	}
	return ""
}

func main() {
	out := Out{map[string][]string{}, map[string][]Call{}, map[string][]string{}}
	fs := token.NewFileSet()
	root := os.Args[1]
	err := filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Body == nil {
				continue
			}
			out.Params[f.Name.Name+"."+fd.Name.Name] = params(fd)
			exp := false
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					exp = exp || strings.HasPrefix(c.Text, "//export ")
				}
			}
			if !exp {
				continue
			}
			out.Exports[fd.Name.Name] = params(fd)
			env := map[string]string{}
			for _, n := range params(fd) {
				env[n] = n
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if len(x.Lhs) == len(x.Rhs) {
						vals := []string{}
						for _, r := range x.Rhs {
							vals = append(vals, origin(r, env))
						}
						for k, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok {
								env[id.Name] = vals[k]
							}
						}
					}
				case *ast.ValueSpec:
					for k, id := range x.Names {
						if k < len(x.Values) {
							env[id.Name] = origin(x.Values[k], env)
						}
					}
				case *ast.CallExpr:
					s, ok := x.Fun.(*ast.SelectorExpr)
					if !ok {
						return true
					}
					p, ok := s.X.(*ast.Ident)
					if !ok || p.Name == "C" || p.Name == "unsafe" {
						return true
					}
					c := Call{p.Name + "." + s.Sel.Name, []string{}}
					for _, a := range x.Args {
						c.Args = append(c.Args, origin(a, env))
					}
					out.Calls[fd.Name.Name] = append(out.Calls[fd.Name.Name], c)
				}
				return true
			})
		}
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// mutate lists single-edit mutants of the non-test Go files of a directory, as
// JSON lines {file, off, end, new, fn, kind, line}. tools/mutants.py drives it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Fn   string `json:"fn"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
}

var bin = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
}

var asg = map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<=", token.AND_ASSIGN: "|=", token.MUL_ASSIGN: "/="}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, dir := range os.Args[1:] {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, 0)
			if err != nil {
				panic(err)
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				fn := fd.Name.Name
				emit := func(a, b token.Pos, nw, kind string) {
					_ = enc.Encode(mut{f, off(a), off(b), nw, fn, kind, fset.Position(a).Line})
				}
				text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
				// identifiers of the function, for wrong-variable mutants
				names := map[string]bool{}
				var order []string
				add := func(n string) {
					if n != "_" && !names[n] {
						names[n] = true
						order = append(order, n)
					}
				}
				for _, p := range fd.Type.Params.List {
					for _, n := range p.Names {
						add(n.Name)
					}
				}
				if fd.Recv != nil {
					for _, p := range fd.Recv.List {
						for _, n := range p.Names {
							add(n.Name)
						}
					}
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						if x.Tok == token.DEFINE {
							for _, l := range x.Lhs {
								if id, ok := l.(*ast.Ident); ok {
									add(id.Name)
								}
							}
						}
					case *ast.ValueSpec:
						for _, id := range x.Names {
							add(id.Name)
						}
					case *ast.RangeStmt:
						if id, ok := x.Key.(*ast.Ident); ok {
							add(id.Name)
						}
						if id, ok := x.Value.(*ast.Ident); ok {
							add(id.Name)
						}
					}
					return true
				})
				lhs := map[*ast.Ident]bool{}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BinaryExpr:
						for _, o := range bin[x.Op] {
							emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
						}
					case *ast.IfStmt:
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "iffalse")
						emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "iftrue")
					case *ast.ExprStmt:
						emit(x.Pos(), x.End(), "", "delete")
					case *ast.IncDecStmt:
						emit(x.Pos(), x.End(), "", "delete")
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							emit(x.Pos(), x.End(), "", "delete")
						}
						if o, ok := asg[x.Tok]; ok {
							emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), o, "asgop")
						}
						for _, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok {
								lhs[id] = true
							}
						}
					case *ast.BasicLit:
						switch x.Kind {
						case token.INT:
							if v, err := strconv.ParseUint(strings.ReplaceAll(x.Value, "_", ""), 0, 64); err == nil {
								emit(x.Pos(), x.End(), fmt.Sprint(v+1), "lit")
								if v > 0 {
									emit(x.Pos(), x.End(), fmt.Sprint(v-1), "lit")
								}
							}
						case token.FLOAT:
							if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
								emit(x.Pos(), x.End(), fmt.Sprintf("%v", v*1.25+0.001), "lit")
							}
						}
					case *ast.Ident:
						if x.Name == "true" {
							emit(x.Pos(), x.End(), "false", "bool")
						} else if x.Name == "false" {
							emit(x.Pos(), x.End(), "true", "bool")
						} else if names[x.Name] && !lhs[x] {
							k := 0
							for i := range order {
								o := order[(i+off(x.Pos()))%len(order)]
								if o != x.Name && k < 2 {
									emit(x.Pos(), x.End(), o, "var")
									k++
								}
							}
						}
					case *ast.BranchStmt:
						if x.Label == nil && x.Tok == token.BREAK {
							emit(x.Pos(), x.End(), "continue", "branch")
						} else if x.Label == nil && x.Tok == token.CONTINUE {
							emit(x.Pos(), x.End(), "break", "branch")
						}
					case *ast.UnaryExpr:
						if x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR {
							emit(x.Pos(), x.X.Pos(), "", "unary")
						}
					case *ast.CallExpr:
						switch text(x.Fun) {
						case "fmt.Errorf", "errors.New", "fmt.Sprintf", "fmt.Fprintf", "fmt.Printf", "fmt.Println", "sb.WriteString", "result.WriteString", "panic":
							return false // message texts
						}
						for i := 0; i+1 < len(x.Args); i++ {
							a, b := x.Args[i], x.Args[i+1]
							if text(a) != text(b) {
								emit(a.Pos(), b.End(), text(b)+", "+text(a), "swap")
							}
						}
					case *ast.SelectorExpr:
						return true
					}
					return true
				})
			}
		}
	}
}

// Instrument writes copies of the library's source files in which every
// statement is preceded by a scheduling point, and an overlay that puts the
// copies in place of the originals. What a statement does is not changed.
//
//	instrument REPO OUTDIR BASE_OVERLAY.json > overlay.json
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)


func main() {
	repo, out := os.Args[1], os.Args[2]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(os.Args[3])
	die(err)
	die(json.Unmarshal(b, &ov))
	n, points := 0, 0
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." || fi.Name() == "examples" || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, c, err := instrument(p, src, points)
		if err != nil || c == 0 {
			return nil // what does not parse is left to the compiler
		}
		dst := filepath.Join(out, rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			return err
		}
		ov.Replace[p] = dst
		n++
		points += c
		return nil
	})
	die(err)
	b, err = json.Marshal(ov)
	die(err)
	os.Stdout.Write(b)
	fmt.Fprintf(os.Stderr, "instrumented %d files, %d scheduling points\n", n, points)
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(name string, src []byte, first int) ([]byte, int, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	if f.Name.Name == "main" {
		return nil, 0, nil
	}
	var at []int
	var funcs []int // where functions start, for the grouping of points
	add := func(list []ast.Stmt) {
		for _, st := range list {
			if _, ok := st.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fs.PositionFor(st.Pos(), false).Offset)
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.FuncDecl:
			funcs = append(funcs, fs.PositionFor(v.Pos(), false).Offset)
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			if len(v.List) > 0 {
				switch v.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(v.List)
		case *ast.CaseClause:
			add(v.Body)
		case *ast.CommClause:
			add(v.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, 0, nil
	}
	sort.Ints(at)
	var o bytes.Buffer
	pos := fs.PositionFor(f.Name.End(), false).Offset
	o.Write(src[:pos])
	o.WriteString("; import simyield \"math/rand\"")
	sort.Ints(funcs)
	fn, group := 0, first
	for i, a := range at {
		for fn < len(funcs) && funcs[fn] < a {
			fn++
			group = first + i
		}
		o.Write(src[pos:a])
		fmt.Fprintf(&o, "simyield.SimYield(%d,%d);", first+i, group)
		pos = a
	}
	o.Write(src[pos:])
	return o.Bytes(), len(at), nil
}

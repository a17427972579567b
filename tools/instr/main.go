// Command instr writes instrumented copies of Go files: imports of packages
// that synchronise or touch the file system are redirected to the shims, and
// on request a scheduling step is inserted before every statement.
//
//	instr [-steps] [-map sync,atomic,os,signal] SRCDIR DSTDIR
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var shims = map[string][2]string{
	"sync":   {"sync", "verif.local/shim/vsync"},
	"atomic": {"sync/atomic", "verif.local/shim/vatomic"},
	"os":     {"os", "verif.local/shim/vos"},
	"rand":   {"math/rand", "verif.local/shim/vrand"},
	"signal": {"os/signal", "verif.local/shim/vsignal"},
}

func main() {
	steps := flag.Bool("steps", false, "insert steps")
	which := flag.String("map", "sync,atomic,os", "packages to redirect")
	flag.Parse()
	src, dst := flag.Arg(0), flag.Arg(1)
	m := map[string]string{}
	for _, k := range strings.Split(*which, ",") {
		m[shims[k][0]] = shims[k][1]
		if k == "os" {
			m["path/filepath"] = "verif.local/shim/vfilepath"
			m["io/ioutil"] = "verif.local/shim/vioutil"
		}
	}
	check(os.MkdirAll(dst, 0o755))
	es, err := os.ReadDir(src)
	check(err)
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		check(err)
		// Index encoders run many times inside every operation and are pure.
		out, err := rewrite(filepath.Join(src, n), b, m, *steps && n != "indexer.go")
		check(err)
		check(os.WriteFile(filepath.Join(dst, n), out, 0o644))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func rewrite(name string, b []byte, m map[string]string, steps bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if q, ok := m[p]; ok {
			if s.Name == nil {
				s.Name = ast.NewIdent(filepath.Base(p))
			}
			s.Path.Value = strconv.Quote(q)
			s.EndPos = 0
		}
	}
	if !steps {
		var buf bytes.Buffer
		err = (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, f)
		return buf.Bytes(), err
	}
	// Insert steps textually, from the end of the file to its start.
	var at []int
	n := 0
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		n++
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			var list []ast.Stmt
			switch y := x.(type) {
			case *ast.BlockStmt:
				list = y.List
			case *ast.CaseClause:
				list = y.Body
			case *ast.CommClause:
				list = y.Body
			}
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt, *ast.EmptyStmt:
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
			return true
		})
	}
	src := string(b)
	type edit struct {
		off int
		del int
		ins string
	}
	var es []edit
	for _, o := range at {
		es = append(es, edit{o, 0, "_vsched.Step(); "})
	}
	for _, s := range f.Imports {
		o := fset.Position(s.Path.Pos()).Offset
		// The path in the source text (it may have been replaced in the tree).
		end := o + 1
		for src[end] != src[o] {
			end++
		}
		old, _ := strconv.Unquote(src[o : end+1])
		if q, ok := m[old]; ok {
			ins := strconv.Quote(q)
			if s.Name != nil && fset.Position(s.Name.Pos()).Offset == 0 {
				ins = filepath.Base(old) + " " + ins
			}
			es = append(es, edit{o, end + 1 - o, ins})
		}
	}
	if n > 0 {
		o := fset.Position(f.Name.End()).Offset
		es = append(es, edit{o, 0, `; import _vsched "verif.local/shim/vsched"`}, edit{len(src), 0, "\nvar _ = _vsched.Step\n"})
	}
	for i := 1; i < len(es); i++ {
		for j := i; j > 0 && es[j].off > es[j-1].off; j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	for _, e := range es {
		src = src[:e.off] + e.ins + src[e.off+e.del:]
	}
	return []byte(src), nil
}

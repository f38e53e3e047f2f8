// instr inserts a yield point before every statement of the given packages and redirects package sync
// to the cooperative one. It writes the instrumented copies and an overlay file for go build.
//
//	instr OUTDIR OVERLAY.json DIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
	del  int
}

var site uint32
var sites strings.Builder

func main() {
	out, ovFile := os.Args[1], os.Args[2]
	ov := map[string]string{}
	for _, dir := range os.Args[3:] {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			res, err := instrument(f, src)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			name := filepath.Join(out, strings.NewReplacer("/", "_", "@", "_").Replace(f))
			if err := os.WriteFile(name, res, 0o644); err != nil {
				panic(err)
			}
			ov[f] = name
		}
	}
	b, _ := json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(ovFile, b, 0o644); err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(out, "sites.txt"), []byte(sites.String()), 0o644)
	fmt.Println("sites", site)
}

func instrument(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var list []ins
	y := func(p token.Pos) {
		site++
		ps := fset.Position(p)
		fmt.Fprintf(&sites, "%d %s:%d\n", site, filepath.Base(ps.Filename), ps.Line)
		list = append(list, ins{off: off(p), text: fmt.Sprintf("vsched_.Y(%d);", site)})
	}
	stmts := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch t := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.LabeledStmt:
				y(t.Pos())
				switch t.Stmt.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.LabeledStmt:
				default:
					y(t.Stmt.Pos())
				}
			default:
				y(s.Pos())
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && (fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil) {
			continue
		}
		// elist_head keeps differences of pointers in unsafe.Pointer: no call may be in between
		if ok && strings.HasPrefix(fd.Name.Name, "diffPtr") {
			continue
		}
		if ok && fd.Doc != nil {
			skip := false
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:nosplit") {
					skip = true
				}
			}
			if skip {
				continue
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.BlockStmt:
				stmts(t.List)
				if len(t.List) == 0 {
					y(t.Rbrace)
				}
			case *ast.CaseClause:
				stmts(t.Body)
			case *ast.CommClause:
				stmts(t.Body)
			case *ast.SwitchStmt:
				// body of switch has only clauses
				for _, c := range t.Body.List {
					ast.Inspect(c, func(ast.Node) bool { return false })
				}
			}
			return true
		})
	}
	// blocks of switch/select contain only clauses: remove yields put in front of them
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.CaseClause:
			bad[off(t.Pos())] = true
		case *ast.CommClause:
			bad[off(t.Pos())] = true
		case *ast.SwitchStmt:
			if len(t.Body.List) == 0 {
				bad[off(t.Body.Rbrace)] = true
			}
		case *ast.TypeSwitchStmt:
			if len(t.Body.List) == 0 {
				bad[off(t.Body.Rbrace)] = true
			}
		case *ast.SelectStmt:
			if len(t.Body.List) == 0 {
				bad[off(t.Body.Rbrace)] = true
			}
		}
		return true
	})
	used := false
	var keep []ins
	for _, i := range list {
		if !bad[i.off] {
			keep = append(keep, i)
			used = true
		}
	}
	list = keep
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			nm := "sync "
			if im.Name != nil {
				nm = ""
			}
			list = append(list, ins{off: off(im.Path.Pos()), text: nm + `"github.com/kazu/skiplistmap/zz_vsched/vsync"`, del: len(im.Path.Value)})
		}
	}
	if used {
		// import declaration must be in front of other declarations
		list = append(list, ins{off: off(f.Name.End()), text: `;import vsched_ "github.com/kazu/skiplistmap/zz_vsched"`})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b strings.Builder
	last := 0
	for _, i := range list {
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off + i.del
	}
	b.Write(src[last:])
	return []byte(b.String()), nil
}

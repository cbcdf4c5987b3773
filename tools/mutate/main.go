// mutate lists or writes the mutants of a Go package: mutate DIR OUT writes
// OUT/N.go and OUT/list.txt with the lines "N file line operator text".
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	op       string
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	n := 0
	var list strings.Builder
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") || filepath.Base(f) == "doc.go" {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		var es []edit
		add := func(a, b token.Pos, text, op string) {
			es = append(es, edit{pos(a), pos(b), text, op})
		}
		txt := func(x ast.Node) string { return string(src[pos(x.Pos()):pos(x.End())]) }
		ast.Inspect(af, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate")
				if x.Init == nil {
					add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && alwaysFalse", "false")
					add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || !alwaysFalse", "true")
				}
			case *ast.BinaryExpr:
				a, b := x.X.End(), x.Y.Pos()
				rep := map[token.Token][]string{
					token.LAND: {"||"}, token.LOR: {"&&"},
					token.EQL: {"!="}, token.NEQ: {"=="},
					token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="},
					token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"},
				}
				for _, r := range rep[x.Op] {
					add(a, b, " "+r+" ", x.Op.String()+"->"+r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x.Pos(), x.End(), "("+txt(x.X)+")", "left")
					add(x.Pos(), x.End(), "("+txt(x.Y)+")", "right")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x.Pos(), x.End(), strconv.Itoa(v+1), "int+1")
						if v > 0 {
							add(x.Pos(), x.End(), strconv.Itoa(v-1), "int-1")
						}
					}
				}
				if x.Kind == token.CHAR {
					add(x.Pos(), x.End(), "'\\x01'", "char")
				}
				if x.Kind == token.STRING && len(x.Value) > 2 && len(x.Value) < 14 {
					add(x.Pos(), x.End(), "\"\"", "emptystring")
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "bool")
				}
				if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					add(x.Pos(), x.End(), "continue", "branch")
				}
				if x.Label == nil && x.Tok == token.CONTINUE {
					add(x.Pos(), x.End(), "break", "branch")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), x.X.Pos(), "", "not")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s, add)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s, add)
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), txt(x.Low)+"+1", "slicelow")
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), txt(x.High)+"-1", "slicehigh")
				}
			}
			return true
		})
		for _, e := range es {
			m := string(src[:e.from]) + e.text + string(src[e.to:])
			if strings.Contains(e.text, "alwaysFalse") {
				m += "\n\nvar alwaysFalse = false\n"
			}
			os.WriteFile(filepath.Join(out, fmt.Sprintf("%d.go", n)), []byte(m), 0o644)
			line := 1 + strings.Count(string(src[:e.from]), "\n")
			what := strings.Join(strings.Fields(string(src[e.from:e.to])), " ")
			if len(what) > 70 {
				what = what[:70]
			}
			fmt.Fprintf(&list, "%d %s %d %s %s => %.60s\n", n, filepath.Base(f), line,
				e.op, what, strings.Join(strings.Fields(e.text), " "))
			n++
		}
	}
	os.WriteFile(filepath.Join(out, "list.txt"), []byte(list.String()), 0o644)
	fmt.Println(n, "mutants")
}

// del deletes a statement.
func del(s ast.Stmt, add func(a, b token.Pos, text, op string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
		add(s.Pos(), s.End(), "", "delete")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "", "delete")
		}
	case *ast.ForStmt, *ast.RangeStmt:
		add(s.Pos(), s.End(), "", "deleteloop")
	}
}

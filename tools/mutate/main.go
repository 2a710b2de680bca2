// mutate lists or applies small changes to the library's source, to find what
// no check notices. A development aid.
//
//	mutate list TREE            one line per mutant: index file:line what
//	mutate apply TREE INDEX     changes the file in TREE
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	file       string
	line       int
	start, end int
	text, what string
}

func main() {
	tree := os.Args[2]
	var all []mutant
	var files []string
	for _, d := range []string{"asn1", "embertree", "errors", "logger", "socket"} {
		fs, _ := filepath.Glob(filepath.Join(tree, d, "*.go"))
		files = append(files, fs...)
	}
	sort.Strings(files)
	for _, f := range files {
		if !strings.HasSuffix(f, "_test.go") {
			all = append(all, mutants(f)...)
		}
	}
	if os.Args[1] == "list" {
		for i, m := range all {
			r, _ := filepath.Rel(tree, m.file)
			fmt.Printf("%d %s:%d %s\n", i, r, m.line, strings.Join(strings.Fields(m.what), " "))
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[3])
	m := all[i]
	b, _ := os.ReadFile(m.file)
	out := append(append(append([]byte{}, b[:m.start]...), m.text...), b[m.end:]...)
	if err := os.WriteFile(m.file, out, 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("%s:%d %s\n", m.file, m.line, m.what)
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.GTR: {">=", "<="}, token.LEQ: {"<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	token.SHL: {">>"}, token.SHR: {"<<"},
}

func mutants(f string) (all []mutant) {
	src, _ := os.ReadFile(f)
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, f, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(a, b token.Pos, text, what string) {
		old := string(bytes.Join(bytes.Fields(src[off(a):off(b)]), []byte(" ")))
		if len(old) > 60 {
			old = old[:60]
		}
		all = append(all, mutant{f, fset.Position(a).Line, off(a), off(b), text, what + ": " + old + " -> " + text})
	}
	table := 0
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CompositeLit:
			if len(x.Elts) > 50 {
				table++
				if e, ok := x.Elts[77].(*ast.BasicLit); ok {
					add(e.Pos(), e.End(), "0x1234", "table")
				}
				return false
			}
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "literal")
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "bool")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "bool")
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "never")
		case *ast.ForStmt:
			if x.Cond != nil {
				add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "never")
			}
		case *ast.ExprStmt:
			if t := string(src[off(x.Pos()):off(x.End())]); !strings.Contains(t, "logger.") {
				add(x.Pos(), x.End(), "", "deleted")
			}
		case *ast.DeferStmt:
			add(x.Pos(), x.End(), "", "deleted")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				t := ""
				if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					t = "_ = " + string(src[off(x.Rhs[0].Pos()):off(x.Rhs[0].End())])
				}
				add(x.Pos(), x.End(), t, "deleted")
			}
		case *ast.IncDecStmt:
			add(x.Pos(), x.End(), "", "deleted")
		case *ast.BranchStmt:
			add(x.Pos(), x.End(), "", "deleted")
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if t := string(src[off(r.Pos()):off(r.End())]); t == "err" || t == "e" || strings.HasPrefix(t, "errors.") {
					add(r.Pos(), r.End(), "nil", "no error")
				}
			}
		}
		return true
	})
	return all
}

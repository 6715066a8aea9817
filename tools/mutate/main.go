// Command mutate writes mutants of a Go file, one file each, and a list of them.
//
// usage: mutate FILE OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	N    int    `json:"n"`
	Line int    `json:"line"`
	Desc string `json:"desc"`
	File string `json:"file"`
}

func main() {
	path, dir := os.Args[1], os.Args[2]
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mutant
	seen := map[string]bool{}
	edit := func(from, to token.Pos, repl, desc string) {
		out := string(src[:off(from)]) + repl + string(src[off(to):])
		if seen[out] || out == string(src) {
			return
		}
		seen[out] = true
		m := mutant{N: len(ms), Line: fset.Position(from).Line, Desc: desc}
		m.File = filepath.Join(dir, fmt.Sprintf("%s.%04d.go", strings.TrimSuffix(filepath.Base(path), ".go"), m.N))
		if err := os.WriteFile(m.File, []byte(out), 0o644); err != nil {
			panic(err)
		}
		ms = append(ms, m)
	}
	// Fields of the structs, for replacing one by another.
	siblings := map[string][]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.IfStmt:
			edit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
			edit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never "+text(n.Cond))
			edit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always "+text(n.Cond))
		case *ast.BinaryExpr:
			for _, r := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}[n.Op] {
				edit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, fmt.Sprintf("%s: %s to %s", text(n), n.Op, r))
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				edit(n.Pos(), n.End(), text(n.X), "only the left of "+text(n))
				edit(n.Pos(), n.End(), text(n.Y), "only the right of "+text(n))
			}
			if n.Op == token.ADD {
				edit(n.Pos(), n.End(), text(n.Y)+" + "+text(n.X), "swap "+text(n))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				edit(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+" + 1")
				if n.Value != "0" {
					edit(n.Pos(), n.End(), "("+n.Value+"-1)", n.Value+" - 1")
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				edit(n.Pos(), n.End(), text(n.X), "drop ! of "+text(n))
			}
		case *ast.Ident:
			if n.Name == "true" {
				edit(n.Pos(), n.End(), "false", "true to false")
			}
			if n.Name == "false" {
				edit(n.Pos(), n.End(), "true", "false to true")
			}
		case *ast.CallExpr:
			for i := range n.Args {
				for j := i + 1; j < len(n.Args); j++ {
					a, b := n.Args[i], n.Args[j]
					edit(a.Pos(), b.End(), text(b)+string(src[off(a.End()):off(b.Pos())])+text(a), fmt.Sprintf("swap arguments %d and %d of %s", i, j, text(n)))
				}
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
				edit(n.Pos(), n.End(), text(n.Args[0]), "drop "+text(n))
			}
		case *ast.BlockStmt:
			for i, s := range n.List {
				stmt(s, text, edit)
				if i+1 < len(n.List) {
					t := n.List[i+1]
					switch s.(type) {
					case *ast.ExprStmt, *ast.AssignStmt:
						switch t.(type) {
						case *ast.ExprStmt, *ast.AssignStmt:
							edit(s.Pos(), t.End(), text(t)+"\n"+text(s), "swap statements "+text(s)+" and "+text(t))
						}
					}
				}
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				stmt(s, text, edit)
			}
			if len(n.List) > 1 {
				for i, e := range n.List {
					if i > 0 {
						edit(n.List[i-1].End(), e.End(), "", "drop case "+text(e))
					} else {
						edit(e.Pos(), n.List[1].Pos(), "", "drop case "+text(e))
					}
				}
			}
		case *ast.CompositeLit:
			var kvs []*ast.KeyValueExpr
			for _, e := range n.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					kvs = append(kvs, kv)
				}
			}
			if len(kvs) < 12 {
				for i, kv := range kvs {
					end := kv.End()
					if src[off(end)] == ',' {
						end++
					}
					edit(kv.Pos(), end, "", "drop field "+text(kv))
					for _, o := range kvs[i+1:] {
						edit(kv.Pos(), o.End(), text(kv.Key)+": "+text(o.Value)+string(src[off(kv.End()):off(o.Pos())])+text(o.Key)+": "+text(kv.Value), "swap values of "+text(kv)+" and "+text(o))
					}
				}
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				siblings[x.Name] = append(siblings[x.Name], n.Sel.Name)
				for _, o := range pairs[n.Sel.Name] {
					edit(n.Sel.Pos(), n.Sel.End(), o, fmt.Sprintf("%s to .%s", text(n), o))
				}
			}
		case *ast.ReturnStmt:
			if len(n.Results) == 1 && text(n.Results[0]) != "nil" {
				edit(n.Results[0].Pos(), n.Results[0].End(), "nil", "return nil instead of "+text(n.Results[0]))
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				edit(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "slice from one later "+text(n))
			}
			if n.High != nil {
				edit(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "slice to one before "+text(n))
			}
		}
		return true
	})
	for _, m := range ms {
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
	}
}

var pairs = map[string][]string{"Left": {"Right"}, "Right": {"Left"}, "S": {"E"}, "E": {"S"}, "TO0": {"TO1"}, "TO1": {"TO0"}, "Leading": {"Trailing"}}

func stmt(s ast.Stmt, text func(ast.Node) string, edit func(from, to token.Pos, repl, desc string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.ReturnStmt:
		edit(s.Pos(), s.End(), "", "drop "+text(s))
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return
		}
		edit(s.Pos(), s.End(), "", "drop "+text(s))
		var us string
		for _, r := range s.Rhs {
			us += "_ = " + text(r) + ";"
		}
		edit(s.Pos(), s.End(), us, "drop assignment "+text(s))
	}
}

package props

import (
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"

	"verif/gen"
	"verif/pbt"
	"verif/refpeg"
)

func init() {
	register(&pbt.Prop{
		ID:   "C06",
		Rule: "histories of 2 to 12 Text, Tree, Word, set-FilePath and modify-an-earlier-result operations on one parser, with a new parser for each call as the model; some run on 4 goroutines with a parser each; non-trivial: at least 3 calls and a modification or two different kinds of calls; distinct: by history",
		Gen:  genC06, Check: checkC06, New: func() any { return &histCase{} },
		Quick: 24000, Thorough: 500000,
	})
}

// An op is an operation on a parser.
type op struct {
	Op   string `json:"op"`             // text, tree, word, path, modify
	N    int    `json:"n,omitempty"`    // word: the offset; modify: the number of the result
	Path string `json:"path,omitempty"` // path
}

type histCase struct {
	Text       Str  `json:"text"`
	Other      Str  `json:"other"` // text of a parser on another goroutine
	Ops        []op `json:"ops"`
	Concurrent bool `json:"concurrent"`
}

func genC06(s *pbt.Source) any {
	c := &histCase{}
	t := anyText(s, 40, 20, 15, 5, 15, 3, 2, 0)
	c.Text = t.Text
	n := 2 + s.Intn(11)
	calls := 0
	for i := 0; i < n; i++ {
		switch weighted(s, 4, 3, 4, 2, 4) {
		case 0:
			c.Ops = append(c.Ops, op{Op: "text"})
			calls++
		case 1:
			c.Ops = append(c.Ops, op{Op: "tree"})
			calls++
		case 2:
			off := s.Intn(len(c.Text) + 1)
			if s.Intn(3) == 0 {
				off = 0
			}
			c.Ops = append(c.Ops, op{Op: "word", N: off})
			calls++
		case 3:
			c.Ops = append(c.Ops, op{Op: "path", Path: []string{"", "a", "b/c.toaq"}[s.Intn(3)]})
		case 4:
			if calls > 0 {
				c.Ops = append(c.Ops, op{Op: "modify", N: s.Intn(calls)})
			}
		}
	}
	if s.Intn(8) == 7 {
		c.Concurrent = true
		c.Other = Str(validText(s, gen.Default))
	}
	return c
}

// A callResult is what a call returned.
type callResult struct {
	text *ast.Text
	tree *peg.Node
	word *ast.Word
	n    int
	err  ast.Error
}

func doCall(p *ast.Parser, o op) callResult {
	var r callResult
	switch o.Op {
	case "text":
		r.text, r.err = p.Text()
	case "tree":
		r.tree, r.err = p.Tree()
	case "word":
		r.word, r.n, r.err = p.Word(o.N)
	}
	return r
}

func (r callResult) dump() string {
	var b strings.Builder
	if r.text != nil {
		b.WriteString(refpeg.FromAST(r.text).Dump(true))
	}
	if r.tree != nil {
		dumpPeg(&b, r.tree)
	}
	if r.word != nil {
		fmt.Fprintf(&b, "%s +%d", refpeg.FromAST(r.word).Dump(true), r.n)
	}
	if r.err != nil {
		fmt.Fprintf(&b, "%s @%d\n", r.err.Error(), r.err.ByteOffset())
		dumpFail(&b, r.err.Tree())
	}
	return b.String()
}

func dumpPeg(b *strings.Builder, n *peg.Node) {
	fmt.Fprintf(b, "%s %q(", n.Name, n.Text)
	for _, k := range n.Kids {
		dumpPeg(b, k)
	}
	b.WriteString(")")
}

// dumpFail dumps a fail tree, which is a DAG:
// each different subtree is dumped once, and is numbered.
func dumpFail(b *strings.Builder, n *peg.Fail) {
	ids := make(map[string]int)     // by dump
	memo := make(map[*peg.Fail]int) // by pointer
	var walk func(*peg.Fail) int
	walk = func(n *peg.Fail) int {
		if id, ok := memo[n]; ok {
			return id
		}
		var s strings.Builder
		fmt.Fprintf(&s, "%s %d %q", n.Name, n.Pos, n.Want)
		for _, k := range n.Kids {
			fmt.Fprintf(&s, " %d", walk(k))
		}
		id, ok := ids[s.String()]
		if !ok {
			id = len(ids)
			ids[s.String()] = id
			fmt.Fprintf(b, "%d: %s\n", id, s.String())
		}
		memo[n] = id
		return id
	}
	if n != nil {
		walk(n)
	}
}

// modify changes everything it can in a result.
func (r callResult) modify() {
	if r.text != nil {
		trashAST(reflect.ValueOf(r.text))
	}
	if r.word != nil {
		trashAST(reflect.ValueOf(r.word))
	}
	if r.tree != nil {
		var walk func(n *peg.Node)
		walk = func(n *peg.Node) {
			for i, k := range n.Kids {
				walk(k)
				n.Kids[i] = nil
			}
			n.Name, n.Text, n.Kids = "x", "x", nil
		}
		walk(r.tree)
	}
	if r.err != nil && r.err.Tree() != nil {
		seen := make(map[*peg.Fail]bool)
		var walk func(n *peg.Fail)
		walk = func(n *peg.Fail) {
			if seen[n] {
				return
			}
			seen[n] = true
			for i, k := range n.Kids {
				walk(k)
				n.Kids[i] = &peg.Fail{Want: "x"}
			}
			n.Name, n.Pos, n.Want = "x", n.Pos+1, "x"
		}
		walk(r.err.Tree())
	}
}

// trashAST overwrites the words and lists of an AST.
func trashAST(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			trashAST(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			trashAST(v.Index(i))
		}
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(v.Index(i).Type()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			trashAST(f)
			switch f.Kind() {
			case reflect.String:
				f.SetString("x")
			case reflect.Int:
				f.SetInt(-7)
			case reflect.Ptr, reflect.Interface, reflect.Slice:
				f.Set(reflect.Zero(f.Type()))
			}
		}
	}
}

// A heldResult is a result with its dump, and the parts that it held on to.
type heldResult struct {
	res      callResult
	dump     string
	modified bool
}

func checkHistory(text string, ops []op) string {
	p := ast.NewParser(text)
	path := ""
	var held []*heldResult
	for i, o := range ops {
		switch o.Op {
		case "path":
			p.FilePath, path = o.Path, o.Path
			continue
		case "modify":
			if o.N < len(held) {
				held[o.N].modified = true
				held[o.N].res.modify()
			}
			continue
		}
		m := ast.NewParser(text)
		m.FilePath = path
		want := doCall(m, o).dump()
		res := doCall(p, o)
		got := res.dump()
		if got != want {
			return fmt.Sprintf("operation %d %v differs from a new parser: %s", i, o, refpeg.DiffAt(got, want))
		}
		held = append(held, &heldResult{res: res, dump: got})
	}
	for i, h := range held {
		if h.modified {
			continue
		}
		if got := h.res.dump(); got != h.dump {
			return fmt.Sprintf("result %d was changed by later operations: %s", i, refpeg.DiffAt(got, h.dump))
		}
	}
	return ""
}

func checkC06(c any, r *pbt.Result) {
	hc := c.(*histCase)
	text := string(hc.Text)
	kinds := map[string]int{}
	calls := 0
	for _, o := range hc.Ops {
		kinds[o.Op]++
		if o.Op != "path" && o.Op != "modify" {
			calls++
		}
	}
	for k := range kinds {
		r.Class("has " + k)
	}
	if rejects(text) {
		r.Class("rejected")
	} else {
		r.Class("accepted")
	}
	if !hc.Concurrent {
		if e := checkHistory(text, hc.Ops); e != "" {
			r.Fail("%s", e)
		}
	} else {
		r.Class("concurrent")
		errs := make([]string, 4)
		var wg sync.WaitGroup
		for g := range errs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						errs[g] = fmt.Sprintf("panic: %v", e)
					}
				}()
				t := text
				if g%2 == 1 {
					t = string(hc.Other)
				}
				ops := append([]op{}, hc.Ops...)
				for i := range ops {
					if ops[i].Op == "word" && ops[i].N > len(t) {
						ops[i].N = len(t)
					}
				}
				errs[g] = checkHistory(t, ops)
			}(g)
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				r.Fail("%s", e)
			}
		}
	}
	if calls >= 3 && (kinds["modify"] > 0 || len(kinds) >= 2) {
		r.Key = fmt.Sprint(*hc)
	}
}

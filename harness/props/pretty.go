package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"

	"verif/gen"
	"verif/pbt"
)

// C30: the printed trees.

func init() {
	register(&pbt.Prop{
		ID:   "C30",
		Rule: "valid texts; the pretty-printed AST and the pretty-printed interpretation, and those of up to 20 nodes of them, against a reference printer that finds the fields by reflection; non-trivial: accepted, at least 3 words; distinct: by text",
		Gen:  genC30, Check: checkC30, New: newTextCase,
		Quick: 60000, Thorough: 2000000,
		Fixed: fixedTexts("", " ", "ha", "m", "kio hó kí", "hu jí", "mai? ji/ kio bei ki"),
	})
}

func genC30(s *pbt.Source) any {
	c := gen.Default
	if s.Intn(2) == 0 {
		c = gen.Supported
	}
	return &TextCase{Text: Str(validText(s, c)), Kind: "sketch"}
}

// prettyWords are the types that are printed with the text of their one word, or their number.
func prettyWord(x any) (string, bool) {
	switch x := x.(type) {
	case ast.Word:
		return `"` + x.T + `"`, true
	case ast.WordPredicate:
		return `WordPredicate("` + x.T + `")`, true
	case ast.Interjection:
		return `Interjection("` + x.T + `")`, true
	case ast.Space:
		return `Space("` + x.T + `")`, true
	case logic.Variable:
		f := ""
		if x.Focus {
			f = "*"
		}
		return f + "Variable(" + strconv.Itoa(x.N) + ")", true
	case logic.Quote:
		return `Quote("` + x.Text + `")`, true
	case logic.Pred:
		return `"` + x.Name + `"`, true
	}
	return "", false
}

// composite returns whether v is a struct or list, behind pointers and interfaces.
func composite(v reflect.Value) bool {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	return v.Kind() == reflect.Struct || v.Kind() == reflect.Slice
}

func absent(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		return v.IsNil()
	case reflect.Slice:
		return v.Len() == 0
	}
	return false
}

// refPretty is the reference printer.
func refPretty(b *strings.Builder, v reflect.Value, indent int) {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		v = v.Elem()
	}
	if s, ok := prettyWord(v.Interface()); ok {
		b.WriteString(s)
		return
	}
	line := func(n int) { b.WriteString("\n" + strings.Repeat("\t", n)) }
	switch v.Kind() {
	case reflect.Slice:
		if v.Len() == 0 {
			b.WriteString("[]")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			line(indent + 1)
			refPretty(b, v.Index(i), indent+1)
		}
		line(indent)
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		var fs []int
		multi := false
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && !absent(v.Field(i)) {
				fs = append(fs, i)
				multi = multi || composite(v.Field(i))
			}
		}
		multi = multi || len(fs) > 1
		for _, i := range fs {
			if multi {
				line(indent + 1)
			}
			b.WriteString(v.Type().Field(i).Name + ": ")
			refPretty(b, v.Field(i), indent+1)
		}
		if multi {
			line(indent)
		}
		b.WriteString("}")
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	default:
		fmt.Fprint(b, v.Interface())
	}
}

func comparePretty(r *pbt.Result, what string, n any) bool {
	var b strings.Builder
	refPretty(&b, reflect.ValueOf(n), 0)
	if got := pretty.String(n); got != b.String() {
		r.Fail("the printed %s is\n%s\nwant\n%s", what, got, b.String())
		return false
	}
	return true
}

func checkC30(cc any, r *pbt.Result) {
	c := cc.(*TextCase)
	text, perr := ast.NewParser(string(c.Text)).Text()
	if perr != nil {
		r.Class("rejected")
		return
	}
	if !comparePretty(r, "AST", text) {
		return
	}
	var nodes []ast.Node
	words := 0
	ast.Visit(text, ast.FuncVisitor(func(n ast.Node) {
		if n == nil {
			return
		}
		nodes = append(nodes, n)
		if _, ok := n.(*ast.Word); ok {
			words++
		}
	}))
	r.Class("accepted")
	for i := 0; i < len(nodes); i += 1 + len(nodes)/20 {
		if !comparePretty(r, fmt.Sprintf("%T", nodes[i]), nodes[i]) {
			return
		}
	}
	if words >= 3 {
		r.Key = string(c.Text)
	}
	st, unsupported := func() (st logic.Statement, unsupported bool) {
		defer func() { unsupported = recover() != nil }()
		return logic.Interpret(text), false
	}()
	switch {
	case unsupported:
		r.Class("unsupported")
		return
	case st == nil:
		r.Class("no sentence")
		return
	}
	logic.NillOutAST(st)
	if !comparePretty(r, "interpretation", st) {
		return
	}
	var forms []logic.Node
	st.Visit(func(n logic.Node) { forms = append(forms, n) })
	for i := 0; i < len(forms); i += 1 + len(forms)/20 {
		if !comparePretty(r, fmt.Sprintf("%T", forms[i]), forms[i]) {
			return
		}
	}
	r.Class("interpretation printed")
}

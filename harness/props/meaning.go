package props

import (
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"

	"verif/gen"
	"verif/pbt"
	"verif/reflogic"
	"verif/refpeg"
)

// meaning compares the interpretation of a text with that of the reference.
// It returns the reference AST and whether there was something to compare.
func meaning(text string, focus bool, r *pbt.Result) (*refpeg.Node, bool) {
	ref, _ := reference(text)
	t, err := ast.NewParser(text).Text()
	if err != nil || ref == nil {
		r.Class("rejected")
		return nil, false
	}
	want, un := reflogic.Interpret(ref)
	if un != "" {
		r.Class("no reference: " + string(un))
		return nil, false
	}
	got := logic.Interpret(t)
	if (got == nil) != (want == nil) {
		r.Fail("the interpretation of %q is nil: %v, want %v", text, got == nil, want == nil)
		return nil, false
	}
	if want == nil {
		r.Class("no sentence")
		return ref, false
	}
	if reflogic.Size(want, 4000) > 4000 {
		r.Class("no reference: too large")
		return nil, false
	}
	g, w := reflogic.Canon(reflogic.FromLogic(got), focus), reflogic.Canon(want, focus)
	if g != w {
		r.Fail("the interpretation of %q is\n%s\nIn canonical form:\ngot:  %s\nwant: %s\n%s", text, logic.String(got), refpeg.Clip(g), refpeg.Clip(w), refpeg.DiffAt(g, w))
	}
	return ref, true
}

// unquoted returns the nodes of a reference AST that are not quoted.
func unquoted(n *refpeg.Node) []*refpeg.Node {
	var ns []*refpeg.Node
	var walk func(n *refpeg.Node)
	walk = func(n *refpeg.Node) {
		if n == nil {
			return
		}
		ns = append(ns, n)
		for _, f := range n.Fields {
			if n.Kind == "MIPredicate" && f.Name == "Phrase" || n.Kind == "MOPredicate" && f.Name == "Discourse" {
				continue
			}
			walk(f.Node)
		}
		for _, k := range n.List {
			walk(k)
		}
	}
	walk(n)
	return ns
}

func isDo(n *refpeg.Node) bool {
	return n.Kind == "WordPredicate" && (reflogic.IsVariable(n.T) || reflogic.Base(n.T) == "hoa")
}

// aspects says which aspects of meaning occur in a text.
func aspects(ref *refpeg.Node) map[string]bool {
	as := map[string]bool{}
	if len(ref.Get("Discourse").List) > 1 {
		as["places"] = true
	}
	for _, n := range unquoted(ref) {
		k := n.Kind
		if strings.HasPrefix(k, "CoP") || k == "TermSet" {
			if k == "CoPArgument" && reflogic.IsRoi(n) {
				as["quantifiers"] = true
			} else {
				as["connectives"] = true
				as[k] = true
			}
		}
		switch k {
		case "LinkedTerm", "PrenexStatement":
			as["places"] = true
		case "Predication":
			if t := n.Get("Terms"); t != nil && len(t.List) > 1 {
				as["places"] = true
			}
		case "PredicateArgument":
			if n.Get("Quantifier") != nil || n.Get("Focus") != nil {
				as["quantifiers"] = true
			}
		case "PredicationRelative", "LURelative":
			as["variables"] = true
		case "WordPredicate":
			if isDo(n) {
				as["variables"] = true
			}
		case "MIPredicate", "MOPredicate", "POPredicate", "LUPredicate", "LUContent", "PredicationContent", "SerialPredicate":
			as["predicatizers"] = true
			as[k] = true
		case "PredicateAdverb", "PredicationPreposition":
			as["modals"] = true
		}
	}
	return as
}

var aspectNames = map[string]string{
	"connectives": "a connective other than roi", "places": "a linked term, a prenex, two terms of a predication, or two sentences or fragments",
	"quantifiers": "a quantifier, focus or roi", "variables": "a do-variable, hoa or relative clause",
	"predicatizers": "a predicatizer, content clause or serial", "modals": "an adverb or prepositional phrase",
}

func meaningProp(id, aspect string, focus bool, quick int, tune func(*gen.Cfg)) *pbt.Prop {
	target := gen.Supported
	tune(&target)
	return &pbt.Prop{
		ID: id, New: newTextCase, Quick: quick, Thorough: 1500000,
		Rule: "texts are generated along the grammar, 3 of 4 with many constructs of this property, from random choices (size, words, spelling, spacing, modifiers); a case is non-trivial if the text is accepted, has a reference interpretation, which the interpretation was compared with in full, and has " + aspectNames[aspect] + " outside of quotes; cases are distinct by text",
		Gen: func(s *pbt.Source) any {
			c := target
			if s.Intn(4) == 3 {
				c = gen.Supported
			}
			return &TextCase{Text: Str(validText(s, c)), Kind: "sketch"}
		},
		Check: func(c any, r *pbt.Result) {
			text := string(c.(*TextCase).Text)
			ref, ok := meaning(text, focus, r)
			if !ok {
				return
			}
			as := aspects(ref)
			for a := range as {
				r.Class("has " + a)
			}
			if as[aspect] {
				r.Key = text
			}
		},
		Fixed: fixedTexts(gen.Corpus...),
	}
}

//
// C13
//

// A MeaningCase is a sequence of texts.
type MeaningCase struct {
	Texts []Str `json:"texts"`
}

// supportedOnly returns whether all connectives are supported.
func supportedOnly(ref *refpeg.Node) bool {
	ok := true
	ref.Walk(func(n *refpeg.Node) {
		if !strings.HasPrefix(n.Kind, "CoP") && n.Kind != "TermSet" {
			return
		}
		ru := n.Get("RU")
		if ru == nil {
			return
		}
		switch reflogic.Base(ru.T) {
		case "ru":
		case "ra", "ri":
			ok = ok && n.Kind != "CoPSentence"
		case "roi":
			ok = ok && n.Kind == "CoPArgument"
		default:
			ok = false
		}
	})
	return ok
}

// dumpLogic returns a string with all there is in a formula,
// showing which nodes are shared, but not the AST.
func dumpLogic(n logic.Node) string {
	var b strings.Builder
	ids := map[any]int{}
	var dump func(v reflect.Value)
	dump = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			dump(v.Elem())
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if id, ok := ids[v.Interface()]; ok {
				fmt.Fprintf(&b, "#%d", id)
				return
			}
			ids[v.Interface()] = len(ids)
			fmt.Fprintf(&b, "#%d=", len(ids)-1)
			dump(v.Elem())
		case reflect.Struct:
			b.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).Name == "AST" || !v.Type().Field(i).IsExported() {
					continue
				}
				b.WriteString(v.Type().Field(i).Name + ":")
				dump(v.Field(i))
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Slice:
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				dump(v.Index(i))
				b.WriteString(",")
			}
			b.WriteString("]")
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		default:
			fmt.Fprintf(&b, "%v", v.Interface())
		}
	}
	dump(reflect.ValueOf(n))
	return b.String()
}

// scribble changes everything in a formula that can be changed.
func scribble(n logic.Node) {
	var nodes []logic.Node
	seen := map[logic.Node]bool{}
	n.Visit(func(n logic.Node) {
		if !seen[n] {
			seen[n] = true
			nodes = append(nodes, n)
		}
	})
	for _, n := range nodes {
		v := reflect.ValueOf(n).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			switch f.Kind() {
			case reflect.Slice:
				for j := 0; j < f.Len(); j++ {
					f.Index(j).Set(reflect.Zero(f.Type().Elem()))
				}
				f.Set(reflect.Zero(f.Type()))
			case reflect.String:
				f.SetString("scribbled")
			case reflect.Int:
				f.SetInt(77777)
			case reflect.Bool:
				f.SetBool(!f.Bool())
			default:
				f.Set(reflect.Zero(f.Type()))
			}
		}
	}
}

func interpret(t *ast.Text) (st logic.Statement, failed string) {
	defer func() {
		if e := recover(); e != nil {
			st, failed = nil, fmt.Sprint("panic: ", e)
		}
	}()
	return logic.Interpret(t), ""
}

func hasSentence(ref *refpeg.Node) bool {
	for _, k := range ref.Get("Discourse").List {
		if k.Kind == "StatementSentence" || k.Kind == "CoPSentence" {
			return true
		}
	}
	return false
}

func checkTotal(c any, r *pbt.Result) {
	type res struct {
		text, dump, tree string
		t                *ast.Text
		st               logic.Statement
		ok               bool
	}
	var all []res
	for _, s := range c.(*MeaningCase).Texts {
		text := string(s)
		t, err := ast.NewParser(text).Text()
		if err != nil {
			r.Class("rejected")
			continue
		}
		ref := refpeg.FromAST(t)
		x := res{text: text, t: t, tree: refpeg.FromAST(t).Dump(true), ok: supportedOnly(ref)}
		st, failed := interpret(t)
		if failed != "" && x.ok {
			r.Fail("Interpret(%q): %s", text, failed)
			return
		}
		if failed != "" {
			r.Class("unsupported")
		}
		if x.ok && (st != nil) != hasSentence(ref) {
			r.Fail("Interpret(%q) returns nil: %v, but the text has a sentence: %v", text, st == nil, hasSentence(ref))
			return
		}
		x.st = st
		if st != nil {
			x.dump = dumpLogic(st)
		}
		if tree := refpeg.FromAST(t).Dump(true); tree != x.tree {
			r.Fail("Interpret(%q) modifies the tree: %s", text, refpeg.DiffAt(tree, x.tree))
			return
		}
		all = append(all, x)
	}
	// Interpret the same trees again, in another order, at the same time,
	// and equal trees of other parsers.
	again := make([]logic.Statement, 2*len(all))
	var wg sync.WaitGroup
	for i := len(all) - 1; i >= 0; i-- {
		x := all[i]
		t2, err := ast.NewParser(x.text).Text()
		if err != nil {
			r.Fail("%q is rejected the second time: %v", x.text, err)
			return
		}
		for k, t := range []*ast.Text{x.t, t2} {
			wg.Add(1)
			go func(n int, t *ast.Text) {
				defer wg.Done()
				again[n], _ = interpret(t)
			}(2*i+k, t)
		}
	}
	wg.Wait()
	key := ""
	for i, x := range all {
		for k := 0; k < 2; k++ {
			y := again[2*i+k]
			if (x.st == nil) != (y == nil) {
				r.Fail("interpreting %q again returns nil: %v, first: %v", x.text, y == nil, x.st == nil)
				return
			}
			if x.st == nil {
				continue
			}
			key += x.text + "\x00"
			if d := dumpLogic(y); d != x.dump {
				r.Fail("interpreting %q again (%v) differs: %s", x.text, []string{"the same tree", "an equal tree"}[k], refpeg.DiffAt(d, x.dump))
				return
			}
		}
		if tree := refpeg.FromAST(x.t).Dump(true); tree != x.tree {
			r.Fail("interpreting %q again modifies the tree: %s", x.text, refpeg.DiffAt(tree, x.tree))
			return
		}
	}
	// Scribble over one result at a time.
	for i := range again {
		if again[i] == nil {
			continue
		}
		scribble(again[i])
		for j, x := range all {
			if x.st != nil {
				if d := dumpLogic(x.st); d != x.dump {
					r.Fail("changing an interpretation of %q changes one of %q: %s", all[i/2].text, x.text, refpeg.DiffAt(d, x.dump))
					return
				}
			}
			for k := 0; k < 2; k++ {
				if n := 2*j + k; n > i && again[n] != nil {
					if d := dumpLogic(again[n]); d != x.dump {
						r.Fail("changing an interpretation of %q changes another one of %q: %s", all[i/2].text, x.text, refpeg.DiffAt(d, x.dump))
						return
					}
				}
			}
		}
	}
	for _, x := range all {
		if tree := refpeg.FromAST(x.t).Dump(true); tree != x.tree {
			r.Fail("changing the interpretation of %q changes its tree: %s", x.text, refpeg.DiffAt(tree, x.tree))
			return
		}
		if x.st == nil {
			continue
		}
		st, _ := interpret(x.t)
		if st == nil || dumpLogic(st) != x.dump {
			r.Fail("after changing other interpretations, %q is interpreted differently", x.text)
			return
		}
	}
	r.Key = key
}

//
// C14
//

// scoped checks the invariants of a formula.
func scoped(st logic.Statement) error {
	next := 0
	numbered := map[logic.Node]bool{}
	inScope := map[*logic.Binding]int{}
	steps := 0
	var node func(n logic.Node) error
	isNil := func(n logic.Node) bool { return n == nil || reflect.ValueOf(n).IsNil() }
	number := func(n logic.Node, got int) error {
		if numbered[n] {
			return nil
		}
		numbered[n] = true
		if got != next {
			return fmt.Errorf("%T has number %d, but the next one is %d", n, got, next)
		}
		next++
		return nil
	}
	all := func(ns ...logic.Node) error {
		for _, n := range ns {
			if isNil(n) {
				return fmt.Errorf("a required part is nil")
			}
			if err := node(n); err != nil {
				return err
			}
		}
		return nil
	}
	args := func(n logic.Node, as []logic.Argument, empty bool) error {
		for i, a := range as {
			if a == nil && empty {
				continue
			}
			if isNil(a) {
				return fmt.Errorf("argument %d of %T is nil", i, n)
			}
			switch a.(type) {
			case *logic.Variable, *logic.Plurality, *logic.Quote, *logic.Abstraction:
			default:
				return fmt.Errorf("a %T as an argument", a)
			}
			if err := node(a); err != nil {
				return err
			}
		}
		return nil
	}
	node = func(n logic.Node) error {
		if steps++; steps > 100000 {
			return nil
		}
		switch n := n.(type) {
		case *logic.Binding:
			switch n.Quantifier {
			case logic.The, logic.Lambda, logic.Each, logic.All, logic.Some, logic.None, logic.Hi:
			default:
				return fmt.Errorf("bad quantifier %q", n.Quantifier)
			}
			if inScope[n] > 0 {
				return fmt.Errorf("a binding (%d) is inside of itself", n.N)
			}
			if err := number(n, n.N); err != nil {
				return err
			}
			inScope[n]++
			defer func() { inScope[n]-- }()
			if !isNil(n.Restriction) {
				if err := node(n.Restriction); err != nil {
					return err
				}
			} else if n.Restriction != nil {
				return fmt.Errorf("a restriction that is a nil pointer")
			}
			return all(n.Scope)
		case *logic.Connection:
			switch n.Connector {
			case logic.And, logic.Or, logic.Ri:
			default:
				return fmt.Errorf("bad connector %q", n.Connector)
			}
			return all(n.Left, n.Right)
		case *logic.Predication:
			if err := all(n.Predicate); err != nil {
				return err
			}
			return args(n, n.Arguments, true)
		case *logic.Variable:
			if n.Def == nil {
				return number(n, n.N)
			}
			if inScope[n.Def] == 0 {
				return fmt.Errorf("variable %d is outside of the scope of its binding", n.N)
			}
			if n.N != n.Def.N {
				return fmt.Errorf("variable has number %d, but its binding has %d", n.N, n.Def.N)
			}
		case *logic.Plurality:
			if len(n.Arguments) < 2 {
				return fmt.Errorf("a plurality of %d", len(n.Arguments))
			}
			return args(n, n.Arguments, false)
		case *logic.Abstraction:
			return all(n.Statement)
		case *logic.Serial:
			return all(n.Left, n.Right)
		case *logic.Swap:
			return all(n.Predicate)
		case *logic.Pred:
			if n.Name == "" {
				return fmt.Errorf("a predicate without a name")
			}
		case *logic.Quote:
		default:
			return fmt.Errorf("unknown node %T", n)
		}
		return nil
	}
	return all(st)
}

func checkScoped(c any, r *pbt.Result) {
	text := string(c.(*TextCase).Text)
	t, err := ast.NewParser(text).Text()
	if err != nil {
		r.Class("rejected")
		return
	}
	st, failed := interpret(t)
	if failed != "" {
		r.Class("unsupported")
		return
	}
	if st == nil {
		r.Class("no sentence")
		return
	}
	if err := scoped(st); err != nil {
		r.Fail("the interpretation of %q: %v\n%s", text, err, logic.String(st))
	}
	bindings, shared := map[logic.Node]int{}, false
	free := 0
	st.Visit(func(n logic.Node) {
		switch n := n.(type) {
		case *logic.Binding:
			bindings[n]++
			shared = shared || bindings[n] > 1
		case *logic.Variable:
			if n.Def == nil {
				free++
			}
		}
	})
	if shared {
		r.Class("has a shared binding")
	}
	if free > 0 {
		r.Class("has a free variable")
	}
	if len(bindings) > 3 {
		r.Class("has more than 3 bindings")
	}
	if len(bindings)+free > 1 {
		r.Key = text
	}
}

func init() {
	register(&pbt.Prop{
		ID: "C13", New: func() any { return &MeaningCase{} }, Quick: 12000, Thorough: 800000,
		Rule: "1 to 3 texts are generated along the grammar (1 of 4 of them with unsupported connectives), and interpreted once, and then twice more at the same time in goroutines, from the same and from equal trees; the trees and results are compared by all their fields, and then each result is overwritten, and the others are compared again; a case is non-trivial if at least one text has an interpretation; cases are distinct by texts",
		Gen: func(s *pbt.Source) any {
			c := &MeaningCase{}
			for n := s.Intn(3); n >= 0; n-- {
				cfg := gen.Supported
				if s.Intn(4) == 3 {
					cfg = gen.Default
				}
				c.Texts = append(c.Texts, Str(validText(s, cfg)))
			}
			return c
		},
		Check: checkTotal,
		Fixed: func() []any {
			var cs []any
			for _, s := range gen.Corpus {
				cs = append(cs, &MeaningCase{Texts: []Str{Str(s)}})
			}
			// Long chains, without connectives.
			for _, s := range [][3]string{
				{"mai? kue\\ sia do/ ", "gi\\ gi/ ", "choa\\ do/"},
				{"sa do/ bi mai? ", "gi\\ do/ ", "choa\\ do/ ji/"},
				{"sa do/ bi mai? ", "gi~ ", "do/"},
				{"sa do/ bi mai? do/ ", "gi~ poq\\ gi/ ", "da"},
				{"mai? ", "sa do/ poqV ", "do/"},
				{"mai? ", "sa do/gi- ", "da"},
				{"mai? ", "po/ ", "sa do/"},
			} {
				cs = append(cs, &MeaningCase{Texts: []Str{Str(s[0] + strings.Repeat(s[1], 40) + s[2])}})
			}
			return cs
		},
	})
	scopeCfg := gen.Supported
	scopeCfg.Conn, scopeCfg.Quant, scopeCfg.Var, scopeCfg.Relative = 30, 45, 30, 30
	register(&pbt.Prop{
		ID: "C14", New: newTextCase, Quick: 80000, Thorough: 5000000,
		Rule: "texts are generated along the grammar, half of them with many quantifiers, variables, relative clauses and connectives; a case is non-trivial if its interpretation has at least two bindings or free variables; cases are distinct by text",
		Gen: func(s *pbt.Source) any {
			c := gen.Supported
			if s.Intn(2) == 1 {
				c = scopeCfg
			}
			return &TextCase{Text: Str(validText(s, c)), Kind: "sketch"}
		},
		Check: checkScoped,
		Fixed: fixedTexts(gen.Corpus...),
	})
	register(meaningProp("C15", "connectives", false, 40000, func(c *gen.Cfg) {
		c.Conn, c.CopStmt, c.TermSet, c.Roomy = 40, 35, 25, 4
	}))
	register(meaningProp("C16", "places", false, 40000, func(c *gen.Cfg) {
		c.Linked, c.Prenex, c.TermSet, c.CopStmt, c.Fragment, c.Sentences, c.Roomy = 35, 45, 15, 25, 12, 4, 5
	}))
	register(meaningProp("C17", "quantifiers", true, 40000, func(c *gen.Cfg) {
		c.Quant, c.Focus, c.Roi, c.Conn, c.Var, c.Prenex = 55, 25, 55, 25, 25, 30
	}))
	register(meaningProp("C18", "variables", false, 40000, func(c *gen.Cfg) {
		c.Var, c.Hoa, c.Relative, c.Quant, c.PredVar, c.Prenex = 45, 20, 40, 45, 12, 25
	}))
	register(meaningProp("C19", "predicatizers", false, 40000, func(c *gen.Cfg) {
		c.LU, c.MI, c.PO, c.MO, c.ContentC, c.Serial, c.PredVar = 22, 15, 22, 12, 22, 25, 8
	}))
	register(meaningProp("C20", "modals", false, 40000, func(c *gen.Cfg) {
		c.Adverb, c.PrepT, c.Quant, c.Var, c.Roomy = 30, 30, 45, 30, 4
	}))
}

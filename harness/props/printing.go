package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"

	"verif/gen"
	"verif/pbt"
	"verif/reflogic"
	"verif/refpeg"
)

//
// A reader of formulas, as printed by logic.String.
//

// An sx is a formula read from a string: a list of strings and lists.
// Variables are written as $0, $1, and so on, in the order of first occurrence.
type reader struct {
	in     string
	i      int
	names  map[string]int
	pretty strings.Builder // what PrettyString should print
}

type readError string

func (p *reader) fail(format string, args ...any) {
	panic(readError(fmt.Sprintf("at byte %d: ", p.i) + fmt.Sprintf(format, args...)))
}

func (p *reader) has(s string) bool { return strings.HasPrefix(p.in[p.i:], s) }

func (p *reader) skip(s string) bool {
	if !p.has(s) {
		return false
	}
	p.i += len(s)
	p.pretty.WriteString(s)
	return true
}

func (p *reader) want(s string) {
	if !p.skip(s) {
		p.fail("want %q", s)
	}
}

var quantifierGlyphs = []string{"ι", "λ", "∀", "Λ", "∃", "∄", "¿"}

func (p *reader) quantifier() string {
	for _, q := range quantifierGlyphs {
		if p.has(q) {
			p.i += len(q)
			if q == "ι" {
				p.pretty.WriteString("\u2129")
			} else {
				p.pretty.WriteString(q)
			}
			return q
		}
	}
	return ""
}

func (p *reader) variable() (string, bool) {
	j := p.i
	if j >= len(p.in) || p.in[j] < 'A' || p.in[j] > 'Z' {
		return "", false
	}
	for j++; j < len(p.in) && '0' <= p.in[j] && p.in[j] <= '9'; j++ {
	}
	name := p.in[p.i:j]
	p.i = j
	p.pretty.WriteString(string(rune(name[0]-'A')+0x1D434) + name[1:])
	if _, ok := p.names[name]; !ok {
		p.names[name] = len(p.names)
	}
	return "$" + strconv.Itoa(p.names[name]), true
}

func (p *reader) word() (string, bool) {
	for _, op := range []string{"=", "≺"} {
		if p.skip(op) {
			return op, true
		}
	}
	j := p.i
	for j < len(p.in) {
		r, w := utf8.DecodeRuneInString(p.in[j:])
		if !unicode.IsLower(r) {
			break
		}
		j += w
	}
	w := p.in[p.i:j]
	p.i = j
	p.pretty.WriteString(w)
	return w, w != ""
}

func (p *reader) formula() string {
	if p.skip("[") {
		q := p.quantifier()
		v, ok := p.variable()
		if q == "" || !ok {
			p.fail("want a quantifier and a variable")
		}
		p.want(" : ")
		r := p.formula()
		p.want("] ")
		return "(" + q + " " + v + " " + r + " " + p.formula() + ")"
	}
	if q := p.quantifier(); q != "" {
		v, ok := p.variable()
		if !ok {
			p.fail("want a variable")
		}
		p.want(" ")
		return "(" + q + " " + v + " - " + p.formula() + ")"
	}
	parts := []string{p.unit()}
	op := ""
	for {
		found := ""
		for _, o := range []string{"∧", "∨", "?"} {
			if p.has(" " + o + " ") {
				found = o
			}
		}
		if found == "" {
			break
		}
		if op != "" && found != op {
			p.fail("mixed connectors")
		}
		op = found
		p.want(" " + op + " ")
		parts = append(parts, p.unit())
	}
	if op == "" {
		return parts[0]
	}
	return "(" + op + " " + strings.Join(parts, " ") + ")"
}

func (p *reader) unit() string {
	if p.has("(") && !p.has("(mu ") {
		p.want("(")
		f := p.formula()
		p.want(")")
		// A parenthesised connection with the same connector is a part of the connection.
		return f
	}
	return p.predication()
}

// prim returns a predicate or argument, and whether it can be one or the other.
func (p *reader) prim() (s string, pred, arg bool) {
	if p.skip("{") {
		f := p.formula()
		p.want("}")
		return "{" + f + "}", true, true
	}
	if v, ok := p.variable(); ok {
		return v, true, true
	}
	if p.skip("·") {
		return "·", false, true
	}
	if p.skip("⌊") {
		as := p.args("⌉")
		return "⌊" + as + "⌉", false, true
	}
	for _, q := range [][2]string{{"‹", "›"}, {"«", "»"}} {
		if p.skip(q[0]) {
			j := strings.Index(p.in[p.i:], q[1])
			if j < 0 {
				p.fail("unterminated quote")
			}
			t := p.in[p.i : p.i+j]
			p.skip(t)
			p.want(q[1])
			return q[0] + strconv.Quote(t) + q[1], false, true
		}
	}
	if p.skip("(mu ") {
		q := p.predicate()
		p.want(")")
		return "(mu " + q + ")", true, false
	}
	if w, ok := p.word(); ok {
		return w, true, false
	}
	p.fail("want a predicate or argument")
	return "", false, false
}

func (p *reader) args(end string) string {
	var as []string
	for !p.skip(end) {
		if len(as) > 0 {
			p.want(", ")
		}
		as = append(as, p.argument())
	}
	return strings.Join(as, ", ")
}

func (p *reader) argument() string {
	a, _, ok := p.prim()
	if !ok {
		p.fail("want an argument")
	}
	return a
}

func (p *reader) serial(first string) string {
	parts := []string{first}
	for p.skip("∘") {
		q, ok, _ := p.prim()
		if !ok {
			p.fail("want a predicate")
		}
		parts = append(parts, q)
	}
	if len(parts) == 1 {
		return first
	}
	return "<" + strings.Join(parts, "∘") + ">"
}

func (p *reader) predicate() string {
	q, ok, _ := p.prim()
	if !ok {
		p.fail("want a predicate")
	}
	return p.serial(q)
}

func (p *reader) predication() string {
	x, pred, arg := p.prim()
	if arg {
		for _, op := range []string{"=", "≺"} {
			if p.skip(op) {
				return op + "(" + x + ", " + p.argument() + ")"
			}
		}
	}
	if !pred {
		p.fail("want a predicate")
	}
	x = p.serial(x)
	p.want("(")
	return x + "(" + p.args(")") + ")"
}

// read reads a string that was printed for a node.
func read(s string, n logic.Node) (sx, pretty string, names map[string]int, err error) {
	p := &reader{in: s, names: map[string]int{}}
	defer func() {
		if e := recover(); e != nil {
			msg, ok := e.(readError)
			if !ok {
				panic(e)
			}
			err = fmt.Errorf("%s", string(msg))
		}
	}()
	switch n.(type) {
	case *logic.Binding, *logic.Connection, *logic.Predication:
		sx = p.formula()
	case *logic.Variable, *logic.Plurality, *logic.Quote:
		sx = p.argument()
	case *logic.Abstraction:
		sx, _, _ = p.prim()
	default:
		sx = p.predicate()
	}
	p.skip(".")
	if p.i < len(s) {
		p.fail("the formula ends here")
	}
	return sx, p.pretty.String(), p.names, nil
}

// A writer writes a formula in the form of the reader.
type writer struct {
	ids map[any]int
}

func (w *writer) variable(b *logic.Binding, n int) string {
	var k any = b
	if b == nil {
		k = n
	}
	if _, ok := w.ids[k]; !ok {
		w.ids[k] = len(w.ids)
	}
	return "$" + strconv.Itoa(w.ids[k])
}

func (w *writer) args(as []logic.Argument) string {
	var ss []string
	for _, a := range as {
		if a == nil {
			ss = append(ss, "·")
		} else {
			ss = append(ss, w.node(a))
		}
	}
	return strings.Join(ss, ", ")
}

func (w *writer) node(n logic.Node) string {
	switch n := n.(type) {
	case *logic.Binding:
		v := w.variable(n, 0)
		r := "-"
		if n.Restriction != nil {
			r = w.node(n.Restriction)
		}
		return "(" + string(n.Quantifier) + " " + v + " " + r + " " + w.node(n.Scope) + ")"
	case *logic.Connection:
		var parts []string
		var flatten func(n logic.Statement, c logic.Connector)
		flatten = func(s logic.Statement, c logic.Connector) {
			if k, ok := s.(*logic.Connection); ok && k.Connector == c {
				flatten(k.Left, c)
				flatten(k.Right, c)
				return
			}
			parts = append(parts, w.node(s))
		}
		flatten(n, n.Connector)
		return "(" + string(n.Connector) + " " + strings.Join(parts, " ") + ")"
	case *logic.Predication:
		if p, ok := n.Predicate.(*logic.Pred); ok && len(n.Arguments) == 2 && (p.Name == "=" || p.Name == "≺") {
			return p.Name + "(" + w.args(n.Arguments) + ")"
		}
		return w.node(n.Predicate) + "(" + w.args(n.Arguments) + ")"
	case *logic.Variable:
		return w.variable(n.Def, n.N)
	case *logic.Plurality:
		return "⌊" + w.args(n.Arguments) + "⌉"
	case *logic.Quote:
		if n.FullText {
			return "«" + strconv.Quote(n.Text) + "»"
		}
		return "‹" + strconv.Quote(n.Text) + "›"
	case *logic.Pred:
		return n.Name
	case *logic.Abstraction:
		return "{" + w.node(n.Statement) + "}"
	case *logic.Serial:
		var parts []string
		var flatten func(p logic.Predicate)
		flatten = func(p logic.Predicate) {
			if s, ok := p.(*logic.Serial); ok {
				flatten(s.Left)
				flatten(s.Right)
				return
			}
			parts = append(parts, w.node(p))
		}
		flatten(n)
		return "<" + strings.Join(parts, "∘") + ">"
	case *logic.Swap:
		return "(mu " + w.node(n.Predicate) + ")"
	}
	panic(fmt.Sprintf("unknown node %T", n))
}

// initial returns the letter that the name of a variable starts with.
func initial(v *logic.Variable) string {
	if v.Def == nil {
		return "U"
	}
	st := v.Def.Restriction
	for {
		c, ok := st.(*logic.Connection)
		if !ok {
			break
		}
		st = c.Left
	}
	p, ok := st.(*logic.Predication)
	if !ok {
		return "X"
	}
	// The predicates of a serial, from the left.
	var parts []logic.Predicate
	var flatten func(q logic.Predicate)
	flatten = func(q logic.Predicate) {
		if s, ok := q.(*logic.Serial); ok {
			flatten(s.Left)
			flatten(s.Right)
			return
		}
		parts = append(parts, q)
	}
	flatten(p.Predicate)
	for i, q := range parts {
		w, ok := q.(*logic.Pred)
		if !ok || w.Name == "=" || w.Name == "≺" {
			return "X"
		}
		if w.Name == "shi" && i < len(parts)-1 {
			continue
		}
		for _, r := range w.Name {
			return string(unicode.ToUpper(r))
		}
	}
	return "X"
}

// variableNames returns the names of the variables of a formula, by their numbers.
func variableNames(ns []logic.Node) map[int]string {
	byLetter := map[string][]int{}
	seen := map[int]bool{}
	max := -1
	for _, n := range ns {
		if v, ok := n.(*logic.Variable); ok && !seen[v.N] {
			seen[v.N] = true
			byLetter[initial(v)] = append(byLetter[initial(v)], v.N)
			if v.N > max {
				max = v.N
			}
		}
	}
	names := map[int]string{}
	if max >= len(seen) {
		for v := range seen {
			names[v] = "X" + strconv.Itoa(v)
		}
		return names
	}
	for l, vs := range byLetter {
		for i, v := range vs {
			switch {
			case len(vs) == 1:
				names[v] = l
			case l == "X" && len(vs) < 4:
				names[v] = string("XYZ"[i])
			default:
				names[v] = l + strconv.Itoa(i)
			}
		}
	}
	return names
}

// occurrences returns the nodes of a formula in the order of Visit.
// Shared nodes occur as often as they do in the formula.
func occurrences(n logic.Node, max int) []logic.Node {
	var ns []logic.Node
	var walk func(n logic.Node)
	walk = func(n logic.Node) {
		if n == nil || len(ns) > max {
			return
		}
		ns = append(ns, n)
		switch n := n.(type) {
		case *logic.Binding:
			if n.Restriction != nil {
				walk(n.Restriction)
			}
			walk(n.Scope)
		case *logic.Connection:
			walk(n.Left)
			walk(n.Right)
		case *logic.Predication:
			walk(n.Predicate)
			for _, a := range n.Arguments {
				if a != nil {
					walk(a)
				}
			}
		case *logic.Plurality:
			for _, a := range n.Arguments {
				if a != nil {
					walk(a)
				}
			}
		case *logic.Abstraction:
			walk(n.Statement)
		case *logic.Serial:
			walk(n.Left)
			walk(n.Right)
		case *logic.Swap:
			walk(n.Predicate)
		case *logic.Variable, *logic.Quote, *logic.Pred:
		default:
			panic(fmt.Sprintf("unknown node %T", n))
		}
	}
	walk(n)
	return ns
}

const maxOccurrences = 5000

// formulaOf interprets a text; it returns nil if that is not possible.
func formulaOf(text string, r *pbt.Result) (logic.Statement, *ast.Text) {
	t, err := ast.NewParser(text).Text()
	if err != nil {
		r.Class("rejected")
		return nil, nil
	}
	st, failed := interpret(t)
	if failed != "" {
		r.Class("unsupported")
		return nil, nil
	}
	if st == nil {
		r.Class("no sentence")
		return nil, nil
	}
	if len(occurrences(st, maxOccurrences)) > maxOccurrences {
		r.Class("too large")
		return nil, nil
	}
	return st, t
}

func checkString(c any, r *pbt.Result) {
	text := string(c.(*TextCase).Text)
	st, _ := formulaOf(text, r)
	if st == nil {
		return
	}
	before := dumpLogic(st)
	ns := occurrences(st, maxOccurrences)
	seen := map[logic.Node]bool{}
	printed := 0
	for i, n := range ns {
		if seen[n] || i > 0 && printed >= 60 {
			continue
		}
		seen[n] = true
		printed++
		s, pretty := logic.String(n), logic.PrettyString(n)
		delim := false
		for _, o := range occurrences(n, maxOccurrences) {
			if q, ok := o.(*logic.Quote); ok {
				delim = delim || strings.ContainsAny(q.Text, "›»")
			}
		}
		if delim {
			r.Class("a quote contains a closing quotation mark")
			continue
		}
		got, wantPretty, names, err := read(s, n)
		if err != nil {
			r.Fail("String of a %T of %q cannot be read, %v:\n%s", n, text, err, s)
			return
		}
		wr := &writer{map[any]int{}}
		want := wr.node(n)
		if got != want {
			r.Fail("String of a %T of %q is\n%s\nwhich reads %s\nbut it is %s", n, text, s, refpeg.Clip(got), refpeg.Clip(want))
			return
		}
		wantName := variableNames(occurrences(n, maxOccurrences))
		id := map[int]string{}
		for name, k := range names {
			id[k] = name
		}
		for k, i := range wr.ids {
			v, ok := k.(int)
			if !ok {
				v = k.(*logic.Binding).N
			}
			if w, ok := wantName[v]; ok && w != id[i] {
				r.Fail("String of a %T of %q is\n%s\nwhere variable %d is named %s, want %s", n, text, s, v, id[i], w)
				return
			}
		}
		if pretty != wantPretty {
			r.Fail("PrettyString of a %T of %q is\n%s\nwant %s\nString is %s", n, text, pretty, wantPretty, s)
			return
		}
		if s2 := logic.String(n); s2 != s {
			r.Fail("String of a %T of %q differs the second time:\n%s\n%s", n, text, s, s2)
			return
		}
	}
	if d := dumpLogic(st); d != before {
		r.Fail("printing the interpretation of %q modifies it: %s", text, refpeg.DiffAt(d, before))
		return
	}
	s := logic.String(st)
	if !strings.HasSuffix(s, ".") {
		r.Class("does not end with a period")
	}
	vars := map[int]bool{}
	for _, n := range ns {
		switch n := n.(type) {
		case *logic.Binding:
			vars[n.N] = true
		case *logic.Variable:
			vars[n.N] = true
		case *logic.Serial:
			r.Class("has a serial")
		case *logic.Plurality:
			r.Class("has a plurality")
		case *logic.Quote:
			r.Class("has a quote")
		}
	}
	if strings.Contains(s, "·") {
		r.Class("has an empty place")
	}
	if len(vars) > 3 {
		r.Class("has more than 3 variables")
	}
	if len(vars) > 1 {
		r.Key = s
	}
}

//
// C23
//

// astRef describes the AST field of a node.
func astField(n logic.Node) ast.Node {
	v := reflect.ValueOf(n).Elem().FieldByName("AST")
	if !v.IsValid() {
		harness("no field AST in %T", n)
	}
	if v.IsNil() {
		return nil
	}
	return v.Interface().(ast.Node)
}

// A NodeCase is a text and a node of its interpretation.
type NodeCase struct {
	Text Str `json:"text"`
	Pick int `json:"pick"`
}

// astIndex has the nodes of a text's AST, and their parents.
type astIndex struct {
	parent map[ast.Node]ast.Node
	ref    map[ast.Node]*refpeg.Node
	exempt map[logic.Node]bool // nodes that need not have an AST
}

// withoutAST returns the nodes that stem from no phrase: the conjunction of a relative clause with
// the bound of its variable, the body of a content clause or quote, the body of a predicate's abstraction, and an implied hoa.
func withoutAST(ns []logic.Node) map[logic.Node]bool {
	m := map[logic.Node]bool{}
	for _, n := range ns {
		switch n := n.(type) {
		case *logic.Binding:
			for c, ok := n.Restriction.(*logic.Connection); ok && c.Connector == logic.And; c, ok = c.Left.(*logic.Connection) {
				m[c] = true
			}
			if n.Restriction != nil {
				for _, k := range occurrences(n.Restriction, maxOccurrences) {
					if v, ok := k.(*logic.Variable); ok && v.Def == n {
						m[v] = true
					}
				}
			}
			if p, ok := n.Scope.(*logic.Predication); ok && n.Quantifier == logic.Lambda {
				m[p] = true
			}
		case *logic.Predication:
			for _, a := range n.Arguments {
				switch a.(type) {
				case *logic.Abstraction, *logic.Quote:
					m[n] = true
				}
			}
		}
	}
	return m
}

func comparable(n ast.Node) bool { return reflect.TypeOf(n).Comparable() }

func indexAST(t *ast.Text) *astIndex {
	x := &astIndex{parent: map[ast.Node]ast.Node{}, ref: map[ast.Node]*refpeg.Node{}}
	for _, p := range refpeg.Pairs(t) {
		if comparable(p.Real) {
			x.ref[p.Real] = p.Ref
		}
	}
	var walk func(n, parent ast.Node)
	walk = func(n, parent ast.Node) {
		if comparable(n) {
			if parent != nil && x.parent[n] == nil {
				x.parent[n] = parent
			}
			parent = n
		}
		for _, k := range children(n) {
			walk(k, parent)
		}
	}
	walk(t, nil)
	return x
}

// phrase returns the adverb, the preposition or the predication with terms whose predicate has the word, or nil.
func (x *astIndex) phrase(w ast.Node) ast.Node {
	for k := x.parent[w]; k != nil; k = x.parent[k] {
		switch k := k.(type) {
		case *ast.SerialPredicate, *ast.CoPPredicate, *ast.CoP:
			continue
		case *ast.PredicateAdverb, *ast.PredicationPreposition:
			return k
		case *ast.Predication:
			if k.Terms != nil {
				return k
			}
		}
		return nil
	}
	return nil
}

// checkAST checks the AST field of a node.
func checkAST(n logic.Node, x *astIndex) error {
	a := astField(n)
	if (n.ASTNode() == nil) != (a == nil) {
		return fmt.Errorf("ASTNode is nil: %v, the field is nil: %v", n.ASTNode() == nil, a == nil)
	}
	if a == nil || !comparable(a) {
		if a == nil {
			if !x.exempt[n] {
				return fmt.Errorf("the AST is nil: %s", logic.String(n))
			}
		}
		return nil
	}
	if n.ASTNode() != a {
		return fmt.Errorf("ASTNode is not the field AST")
	}
	ref := x.ref[a]
	if _, ok := n.(*logic.Abstraction); !ok && ref == nil {
		return fmt.Errorf("the AST, a %T, is not a node of the text's AST", a)
	}
	switch n := n.(type) {
	case *logic.Pred:
		if ref.Kind != "WordPredicate" {
			switch n.Name {
			case "=", "≺", "raq", "chua":
				return nil
			}
			return fmt.Errorf("the AST of the predicate %s is a %s", n.Name, ref.Kind)
		}
		want := reflogic.Base(ref.T)
		switch want {
		case "mea":
			want = "≺"
		case "jeqtu":
			want = "="
		}
		if n.Name != want {
			return fmt.Errorf("the AST of the predicate %s is the word %s", n.Name, ref.T)
		}
	case *logic.Quote:
		var b strings.Builder
		for _, w := range ref.Words() {
			b.WriteString(w.T)
		}
		if got := strings.TrimSpace(b.String()); got != n.Text {
			return fmt.Errorf("the AST of the quote %q is %q", n.Text, got)
		}
	case *logic.Variable:
		arg, ok := a.(*ast.PredicateArgument)
		if !ok || n.Def != nil && astField(n.Def) == a {
			return nil
		}
		if w, ok := arg.Predicate.(*ast.WordPredicate); !ok || !isDo(x.ref[w]) {
			return fmt.Errorf("the AST of variable %d is an argument of another binding", n.N)
		}
	case *logic.Binding:
		if ref.Kind != "PredicateArgument" {
			return nil
		}
		want := "ι"
		if q := ref.Get("Quantifier"); q != nil {
			want = map[string]string{"ke": "ι", "ja": "λ", "sa": "∃", "tu": "∀", "sia": "∄", "hi": "¿"}[reflogic.Base(q.T)]
		}
		if q := string(n.Quantifier); q != want && q != "Λ" {
			return fmt.Errorf("the AST of the binding of %s%d is an argument with quantifier %s", q, n.N, want)
		}
	case *logic.Connection:
		ru := ref.Get("RU")
		if !ref.IsCoP() || ru == nil {
			return nil
		}
		if want := map[string]string{"ru": "∧", "ra": "∨", "ri": "?"}[reflogic.Base(ru.T)]; want != "" && want != string(n.Connector) {
			return fmt.Errorf("the AST of a connection by %s is connected by %s", n.Connector, ru.T)
		}
	case *logic.Predication:
		var leaf func(p logic.Predicate) error
		leaf = func(p logic.Predicate) error {
			switch p := p.(type) {
			case *logic.Serial:
				if err := leaf(p.Left); err != nil {
					return err
				}
				return leaf(p.Right)
			case *logic.Pred:
				w, ok := p.AST.(*ast.WordPredicate)
				if !ok {
					return nil
				}
				if around := x.phrase(w); around != nil && around != a {
					return fmt.Errorf("the AST of the predication of %s is a %T, want the %T around it", p.Name, a, around)
				}
				if ast.Node(w) == a {
					return nil
				}
				for k := x.parent[w]; k != a; k = x.parent[k] {
					switch k := k.(type) {
					case *ast.SerialPredicate, *ast.CoPPredicate, *ast.CoP, *ast.LUPredicate, *ast.LUPhrase:
						continue
					case *ast.PredicateArgument:
						if _, ok := x.parent[k].(*ast.CoP); ok {
							continue
						}
					}
					return fmt.Errorf("the AST of the predication of %s is a %T with other words", p.Name, a)
				}
			}
			return nil
		}
		return leaf(n.Predicate)
	}
	return nil
}

func checkVisit(c any, r *pbt.Result) {
	text := string(c.(*NodeCase).Text)
	st, t := formulaOf(text, r)
	if st == nil {
		return
	}
	before := dumpLogic(st)
	tree := refpeg.FromAST(t).Dump(true)
	x := indexAST(t)
	all := occurrences(st, maxOccurrences)
	x.exempt = withoutAST(all)
	var nodes []logic.Node
	seen := map[logic.Node]bool{}
	for _, n := range all {
		if !seen[n] {
			seen[n] = true
			nodes = append(nodes, n)
		}
	}
	for i, n := range nodes {
		if err := checkAST(n, x); err != nil {
			r.Fail("a %T of the interpretation of %q: %v\n%s", n, text, err, logic.String(st))
			return
		}
		if i > 100 {
			continue
		}
		var got []logic.Node
		n.Visit(func(n logic.Node) { got = append(got, n) })
		want := occurrences(n, maxOccurrences)
		for j, w := range want {
			if j >= len(got) || got[j] != w {
				g := "nothing"
				if j < len(got) {
					g = fmt.Sprintf("a %T", got[j])
				}
				r.Fail("Visit of a %T of the interpretation of %q visits %s instead of a %T as node %d:\n%s", n, text, g, w, j, logic.String(st))
				return
			}
		}
		if len(got) > len(want) {
			r.Fail("Visit of a %T of the interpretation of %q visits %d nodes, want %d:\n%s", n, text, len(got), len(want), logic.String(st))
			return
		}
	}
	pick := nodes[c.(*NodeCase).Pick%len(nodes)]
	for _, root := range []logic.Node{pick, st} {
		asts := map[logic.Node]ast.Node{}
		for _, n := range nodes {
			asts[n] = astField(n)
		}
		inside := map[logic.Node]bool{}
		for _, n := range occurrences(root, maxOccurrences) {
			inside[n] = true
		}
		logic.NillOutAST(root)
		for _, n := range nodes {
			a := astField(n)
			switch {
			case inside[n] && a != nil:
				r.Fail("NillOutAST of a %T of the interpretation of %q leaves the AST of a %T:\n%s", root, text, n, logic.String(st))
				return
			case !inside[n] && (a == nil) != (asts[n] == nil), !inside[n] && a != nil && comparable(a) && a != asts[n]:
				r.Fail("NillOutAST of a %T of the interpretation of %q changes the AST of a %T that is not in it:\n%s", root, text, n, logic.String(st))
				return
			}
		}
		if d := dumpLogic(st); d != before {
			r.Fail("NillOutAST of a %T of the interpretation of %q changes something else: %s", root, text, refpeg.DiffAt(d, before))
			return
		}
	}
	if d := refpeg.FromAST(t).Dump(true); d != tree {
		r.Fail("Visit or NillOutAST changes the tree of %q: %s", text, refpeg.DiffAt(d, tree))
		return
	}
	if len(all) > len(nodes) {
		r.Class("has shared nodes")
	}
	if len(nodes) > 20 {
		r.Class("has more than 20 nodes")
	}
	for n := range seen {
		r.Class(fmt.Sprintf("has %T", n))
	}
	if len(nodes) > 4 {
		r.Key = before
	}
}

func init() {
	c := gen.Supported
	c.Serial, c.Roi, c.Linked = 15, 35, 20
	register(&pbt.Prop{
		ID: "C22", New: newTextCase, Quick: 40000, Thorough: 3000000,
		Rule: "texts are generated along the grammar; their interpretations, and up to 60 subformulas of each, are printed, and the strings are read by a reader of formulas that is independent of the printer; a case is non-trivial if the interpretation has at least two variables; cases are distinct by the printed formula",
		Gen:  genValid(c), Check: checkString, Fixed: fixedTexts(gen.Corpus...),
	})
	register(&pbt.Prop{
		ID: "C23", New: func() any { return &NodeCase{} }, Quick: 40000, Thorough: 3000000,
		Rule: "texts are generated along the grammar; Visit of up to 100 nodes of each interpretation is compared with the order of the fields, the AST field of every node with the text's AST, and NillOutAST is called on one random node and then on the root; a case is non-trivial if the interpretation has more than 4 nodes; cases are distinct by interpretation",
		Gen: func(s *pbt.Source) any {
			return &NodeCase{Pick: s.Intn(100), Text: Str(validText(s, c))}
		},
		Check: checkVisit,
		Fixed: func() []any {
			var cs []any
			for i, s := range gen.Corpus {
				cs = append(cs, &NodeCase{Text: Str(s), Pick: i})
			}
			return cs
		},
	})
}

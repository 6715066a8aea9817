package refpeg

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A Node is a node of the reference AST.
// Kind is the name of the AST's type.
type Node struct {
	Kind   string
	Fields []Field // of structs
	List   []*Node // of Discourse and Terms

	// For words (Word, WordPredicate, Interjection, Space).
	T    string
	S, E int
	M    *Node
}

// A Field is a named part of a node; nil if absent.
type Field struct {
	Name string
	Node *Node
}

var wordKinds = map[string]bool{"Word": true, "WordPredicate": true, "Interjection": true, "Space": true}

// IsWord returns whether the node is a kind of word.
func (n *Node) IsWord() bool { return wordKinds[n.Kind] }

// Get returns a field.
func (n *Node) Get(name string) *Node {
	for _, f := range n.Fields {
		if f.Name == name {
			return f.Node
		}
	}
	return nil
}

func (n *Node) set(name string, v *Node) {
	for i := range n.Fields {
		if n.Fields[i].Name == name {
			n.Fields[i].Node = v
			return
		}
	}
	panic("no field " + name + " in " + n.Kind)
}

// FieldNames are the fields of each kind of node that is not a word or list.
var FieldNames = map[string][]string{
	"Text":                   {"Leading", "Discourse"},
	"StatementSentence":      {"JE", "Statement", "DA"},
	"Prenex":                 {"Terms", "BI"},
	"PrenexStatement":        {"Prenex", "Statement"},
	"Predication":            {"Predicate", "Terms", "NA"},
	"SerialPredicate":        {"Left", "Right"},
	"PrefixedPredicate":      {"MU", "Predicate"},
	"MIPredicate":            {"MI", "Phrase", "GA"},
	"POPredicate":            {"PO", "Argument", "GA"},
	"MOPredicate":            {"MO", "Discourse", "TEO"},
	"LinkedTerm":             {"GO", "Argument"},
	"PredicateArgument":      {"Focus", "Quantifier", "Predicate", "Relative"},
	"PredicationRelative":    {"Predication"},
	"PredicationContent":     {"Predication"},
	"PredicateAdverb":        {"Predicate"},
	"PredicationPreposition": {"Predicate", "Argument"},
	"Parenthetical":          {"KIO", "Discourse", "KI"},
	"Incidental":             {"JU", "Statement"},
	"Vocative":               {"HU", "Argument"},
	"LUPredicate":            {"LU", "Statement"},
	"LURelative":             {"LU", "Statement"},
	"LUContent":              {"LU", "Statement"},
	"LUPhrase":               {"LU", "Statement"},
}

func init() {
	for _, k := range []string{"CoP", "CoPSentence", "CoPStatement", "CoPPredicate", "TermSet", "CoPArgument",
		"CoPRelative", "CoPAdverb", "CoPPreposition", "CoPContent"} {
		FieldNames[k] = []string{"TO0", "RU", "Left", "TO1", "Right"}
	}
}

// IsCoP returns whether the node is a connective phrase.
func (n *Node) IsCoP() bool { return n.Kind == "TermSet" || strings.HasPrefix(n.Kind, "CoP") }

// Ordered returns the non-nil parts of a node in textual order, excluding M of words.
func (n *Node) Ordered() []*Node {
	if n.List != nil {
		return n.List
	}
	if n.IsCoP() && n.Get("TO0") == nil {
		return []*Node{n.Get("Left"), n.Get("RU"), n.Get("Right")}
	}
	var ks []*Node
	for _, f := range n.Fields {
		if f.Node != nil {
			ks = append(ks, f.Node)
		}
	}
	return ks
}

func mk(kind string, vals ...*Node) *Node {
	names, ok := FieldNames[kind]
	if !ok || len(names) != len(vals) {
		panic("bad node " + kind)
	}
	n := &Node{Kind: kind}
	for i, v := range vals {
		n.Fields = append(n.Fields, Field{names[i], v})
	}
	return n
}

// String returns a full dump of the tree, including offsets.
func (n *Node) String() string { return n.Dump(true) }

// Dump returns a dump of the tree, with or without offsets.
func (n *Node) Dump(offs bool) string {
	var b strings.Builder
	n.dump(&b, offs)
	return b.String()
}

func (n *Node) dump(b *strings.Builder, offs bool) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	b.WriteString(n.Kind)
	if n.IsWord() {
		b.WriteByte('{')
		b.WriteString(strconv.Quote(n.T))
		if offs {
			fmt.Fprintf(b, "@%d-%d", n.S, n.E)
		}
		if n.M != nil {
			b.WriteString(" M:")
			n.M.dump(b, offs)
		}
		b.WriteByte('}')
		return
	}
	if n.Fields == nil {
		b.WriteByte('[')
		for i, k := range n.List {
			if i > 0 {
				b.WriteByte(' ')
			}
			k.dump(b, offs)
		}
		b.WriteByte(']')
		return
	}
	b.WriteByte('{')
	first := true
	for _, f := range n.Fields {
		if f.Node == nil {
			continue
		}
		if !first {
			b.WriteByte(' ')
		}
		first = false
		b.WriteString(f.Name)
		b.WriteByte(':')
		f.Node.dump(b, offs)
	}
	b.WriteByte('}')
}

// Words returns all words in textual order, including those of modifiers.
func (n *Node) Words() []*Node {
	var ws []*Node
	n.walk(func(m *Node) {
		if m.IsWord() {
			ws = append(ws, m)
		}
	})
	return ws
}

// walk calls f on all nodes in textual order, parents first.
func (n *Node) walk(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	if n.IsWord() {
		n.M.walk(f)
		return
	}
	for _, k := range n.Ordered() {
		k.walk(f)
	}
}

// Walk calls f on all nodes in textual order, parents first.
func (n *Node) Walk(f func(*Node)) { n.walk(f) }

// Span returns the expected Start and End of a node.
func (n *Node) Span() (int, int) {
	// One side at a time: both at once would take a time exponential in the depth.
	first, last := n.edge(false), n.edge(true)
	if first == nil || last == nil {
		return 0, 0
	}
	return first.S, last.E
}

// edge returns the first or last word of a node that counts for its span.
func (n *Node) edge(last bool) *Node {
	for {
		if n.IsWord() {
			return n
		}
		if n.Kind == "Text" {
			if d := n.Get("Discourse"); len(d.List) > 0 {
				n = d
				continue
			}
			if n = n.Get("Leading"); n == nil {
				return nil
			}
			continue
		}
		ks := n.Ordered()
		if len(ks) == 0 {
			return nil
		}
		if n = ks[0]; last {
			n = ks[len(ks)-1]
		}
	}
}

//
// Building the AST from the parse tree
//

type builder struct{ text string }

// BuildText returns the AST of a full_text parse.
func BuildText(text string, t *Tree) *Node {
	return (&builder{text}).text_(t.kid("text"))
}

// BuildWord returns the AST of a word parse.
func BuildWord(text string, t *Tree) *Node {
	b := &builder{text}
	for _, k := range t.Kids {
		switch k.Rule {
		case "non_function_word", "toned_function_word", "neutral_function_word":
			w := b.word(k, "Word")
			// The word spans its space too.
			w.E = t.End
			attach(w, b.mods(t.kid("space_word")))
			return w
		}
	}
	panic("bad word")
}

func (t *Tree) kid(rule string) *Tree {
	for _, k := range t.Kids {
		if k.Rule == rule {
			return k
		}
	}
	return nil
}

func (t *Tree) label(l string) *Tree {
	for _, k := range t.Kids {
		if k.Label == l {
			return k
		}
	}
	return nil
}

// attach attaches a chain of modifiers to the last word of a node.
func attach(n *Node, m *Node) *Node {
	if m == nil {
		return n
	}
	lastWord(n).M = m
	return n
}

func lastWord(n *Node) *Node {
	if n.IsWord() {
		if n.M != nil {
			return lastWord(n.M)
		}
		return n
	}
	ks := n.Ordered()
	return lastWord(ks[len(ks)-1])
}

func (b *builder) word(t *Tree, kind string) *Node {
	if t == nil {
		return nil
	}
	return &Node{Kind: kind, T: NormalizeWord(b.text[t.Start:t.End]), S: t.Start, E: t.End}
}

func (b *builder) space(t *Tree) *Node {
	return &Node{Kind: "Space", T: b.text[t.Start:t.End], S: t.Start, E: t.End}
}

func (b *builder) text_(t *Tree) *Node {
	var lead *Node
	if s := t.kid("space_word"); s != nil {
		lead = b.space(s)
	}
	d := &Node{Kind: "Discourse"}
	if k := t.kid("discourse"); k != nil {
		d = b.discourse(k)
	}
	return mk("Text", lead, d)
}

func (b *builder) discourse(t *Tree) *Node {
	d := &Node{Kind: "Discourse"}
	for _, k := range t.Kids {
		switch k.Rule {
		case "sentence":
			d.List = append(d.List, b.sentence(k))
		case "fragment":
			d.List = append(d.List, b.fragment(k))
		case "_":
			attach(d, b.mods(k))
		}
	}
	return d
}

// mods returns a chain of modifiers for a _, space_or_freemod or space_word.
func (b *builder) mods(t *Tree) *Node {
	if t == nil {
		return nil
	}
	switch t.Rule {
	case "_":
		return b.mods(t.kid("space_or_freemod"))
	case "space_word", "questions":
		return b.space(t)
	case "space_or_freemod":
		var m *Node
		if f := t.kid("freemod"); f != nil {
			m = b.freemod(f)
		} else {
			m = b.space(t.kid("space_word"))
		}
		return attach(m, b.mods(t.kid("space_or_freemod")))
	}
	panic("bad mods " + t.Rule)
}

func (b *builder) freemod(t *Tree) *Node {
	k := t.Kids[0]
	switch k.Rule {
	case "interjection":
		return b.word(k, "Interjection")
	case "parenthetical":
		p := k.kid("parenthetical_1")
		kio := attach(b.word(p.kid("start_parenthetical"), "Word"), b.mods(p.kid("_")))
		d := attach(b.discourse(p.kid("discourse")), b.mods(k.kid("_")))
		return mk("Parenthetical", kio, d, b.word(k.kid("end_parenthetical"), "Word"))
	case "incidental":
		ju := attach(b.word(k.kid("start_incidental"), "Word"), b.mods(k.kid("_")))
		return mk("Incidental", ju, b.statement(k.kid("statement")))
	case "vocative":
		hu := attach(b.word(k.kid("vocative_marker"), "Word"), b.mods(k.kid("_")))
		return mk("Vocative", hu, b.any(k.kid("argument")))
	}
	panic("bad freemod")
}

func (b *builder) fragment(t *Tree) *Node {
	var f *Node
	switch t.Kids[0].Label {
	case "x":
	}
	k := t.Kids[0]
	switch k.Rule {
	case "afterthought_cop":
		f = b.cop(k, "CoPRelative")
	case "relative_clause":
		f = b.any(k)
	case "prenex":
		f = b.prenex(k)
	case "terms":
		f = b.terms(k)
	case "freemod":
		f = b.freemod(k)
	default:
		panic("bad fragment " + k.Rule)
	}
	for _, k := range t.Kids[1:] {
		if k.Rule == "_" {
			attach(f, b.mods(k))
		}
	}
	return f
}

func (b *builder) sentence(t *Tree) *Node {
	k := t.Kids[0]
	switch k.Rule {
	case "afterthought_cop", "forethought_cop":
		return b.cop(k, "CoPSentence")
	case "sentence_1", "sentence_2":
		return b.sentence(k)
	}
	// sentence_2
	var je *Node
	if p := t.kid("sentence_prefix_spaces"); p != nil {
		je = attach(b.word(p.kid("sentence_prefix"), "Word"), b.mods(p.kid("_")))
	}
	s := t.kid("sentence_3")
	st := attach(b.statement(s.kid("statement")), b.mods(s.kid("_")))
	var da *Node
	if i := s.kid("illocutionary"); i != nil {
		if q := i.kid("moq"); q != nil {
			da = b.word(q, "Word")
			attach(da, b.mods(i.kid("questions")))
		} else {
			da = b.word(i, "Word")
		}
	}
	return mk("StatementSentence", je, st, da)
}

func (b *builder) statement(t *Tree) *Node {
	switch t.Rule {
	case "statement":
		st := b.statement(t.kid("statement_1"))
		if p := t.kid("prenex_spaces"); p != nil {
			pre := attach(b.prenex(p.kid("prenex")), b.mods(p.kid("_")))
			return mk("PrenexStatement", pre, st)
		}
		return st
	case "statement_3":
		return b.predication(t, "predication")
	}
	switch k := t.Kids[0]; k.Rule {
	case "afterthought_cop", "forethought_cop":
		return b.cop(k, "CoPStatement")
	default:
		return b.statement(k)
	}
}

// predication handles statement_3, relative_clause_3, and content_statement.
func (b *builder) predication(t *Tree, rule string) *Node {
	p := t.kid(rule)
	pred := attach(b.any(p.Kids[0]), b.mods(p.kid("_")))
	var ts *Node
	if k := p.kid("terms"); k != nil {
		ts = b.terms(k)
	}
	n := attach(mk("Predication", pred, ts, nil), b.mods(t.kid("_")))
	n.set("NA", b.word(t.kid("end_statement"), "Word"))
	return n
}

func (b *builder) prenex(t *Tree) *Node {
	ts := attach(b.terms(t.kid("terms")), b.mods(t.kid("_")))
	return mk("Prenex", ts, b.word(t.kid("end_prenex"), "Word"))
}

func (b *builder) terms(t *Tree) *Node {
	n := &Node{Kind: "Terms"}
	for _, k := range t.Kids {
		switch k.Rule {
		case "term":
			n.List = append(n.List, b.any(k))
		case "_":
			attach(n, b.mods(k))
		default: // terms_2, terms, terms_II etc.
			n.List = append(n.List, b.terms(k).List...)
		}
	}
	return n
}

func (b *builder) side(t *Tree) *Node {
	switch {
	case t.Rule == "sentence" || t.Rule == "sentence_1":
		return b.sentence(t)
	case strings.HasPrefix(t.Rule, "statement"):
		return b.statement(t)
	case strings.HasPrefix(t.Rule, "terms"):
		return b.terms(t)
	case t.Rule == "arg_5":
		return mk("PredicateArgument", nil, nil, b.arg5(t), nil)
	}
	return b.any(t)
}

func (b *builder) cop(t *Tree, kind string) *Node {
	if t.Rule == "afterthought_cop" {
		// The left-hand-side is always the first kid.
		l := attach(b.side(t.Kids[0]), b.mods(t.kid("_")))
		bar := t.kid("cop_bar")
		ru := attach(b.word(bar.kid("connective"), "Word"), b.mods(bar.kid("_")))
		return mk(kind, nil, ru, l, nil, b.side(bar.Kids[len(bar.Kids)-1]))
	}
	con := t.kid("forethought_connective")
	to0 := attach(b.word(con.kid("forethought_marker"), "Word"), b.mods(con.kid("_")))
	ru := attach(b.word(con.kid("connective"), "Word"), b.mods(t.kid("_")))
	c1 := t.kid("forethought_cop_1")
	l := attach(b.side(c1.Kids[0]), b.mods(c1.kid("_")))
	bar := c1.kid("forethought_cop_bar")
	to1 := attach(b.word(bar.kid("forethought_marker"), "Word"), b.mods(bar.kid("_")))
	return mk(kind, to0, ru, l, to1, b.side(bar.Kids[len(bar.Kids)-1]))
}

func (b *builder) arg5(t *Tree) *Node { return b.any(t.Kids[0]) }

func (b *builder) lu(t *Tree, kind string) *Node {
	lu := attach(b.word(t.kid("LU_word"), "Word"), b.mods(t.kid("_")))
	return mk(kind, lu, b.statement(t.kid("statement")))
}

// any converts predicates, arguments, relatives, adverbs, prepositions, content clauses, and terms.
func (b *builder) any(t *Tree) *Node {
	switch t.Rule {
	case "predicate_word":
		return b.word(t, "WordPredicate")
	case "predicate_3":
		return attach(b.any(t.Kids[0]), b.mods(t.kid("_")))
	case "serial":
		l := attach(b.any(t.Kids[0]), b.mods(t.kid("_")))
		return mk("SerialPredicate", l, b.any(t.kid("serial_predicate")))
	case "afterthought_cop_pred", "forethought_cop_pred":
		return b.cop(t.Kids[0], "CoPPredicate")
	case "LU_predicate":
		return b.lu(t.Kids[0], "LUPredicate")
	case "MI_phrase":
		p := t.kid("MI_phrase_1")
		mi := attach(b.word(p.kid("MI_word"), "Word"), b.mods(p.kid("_")))
		n := attach(mk("MIPredicate", mi, b.any(p.kid("MI_complement").Kids[0]), nil), b.mods(t.kid("_")))
		n.set("GA", b.word(t.kid("end_predicatizer"), "Word"))
		return n
	case "PO_phrase":
		p := t.kid("PO_phrase_1")
		po := attach(b.word(p.kid("PO_word"), "Word"), b.mods(p.kid("_")))
		n := attach(mk("POPredicate", po, b.any(p.kid("argument")), nil), b.mods(t.kid("_")))
		n.set("GA", b.word(t.kid("end_predicatizer"), "Word"))
		return n
	case "MO_phrase":
		p := t.kid("MO_phrase_1")
		mo := attach(b.word(p.kid("MO_word"), "Word"), b.mods(p.kid("space_word")))
		d := attach(b.discourse(p.kid("discourse")), b.mods(t.kid("_")))
		return mk("MOPredicate", mo, d, b.word(t.kid("end_quote"), "Word"))

	case "predicate_1", "preposition", "preposition_1":
		return b.copOr(t, "CoPPredicate")
	case "term":
		return b.any(t.Kids[0])
	case "linked_argument":
		a := b.any(t.kid("argument"))
		if g := t.kid("linking_word_spaces"); g != nil {
			w := attach(b.word(g.kid("linking_word"), "Word"), b.mods(g.kid("_")))
			return mk("LinkedTerm", w, a)
		}
		return a
	case "termset":
		return b.cop(t.Kids[0], "TermSet")
	case "argument", "arg_1":
		return b.copOr(t, "CoPArgument")
	case "arg_2":
		var ku, q *Node
		if f := t.kid("focus_spaces"); f != nil {
			ku = attach(b.word(f.kid("focus"), "Word"), b.mods(f.kid("_")))
		}
		a3 := t.kid("arg_3")
		if f := a3.kid("quantifier_spaces"); f != nil {
			q = attach(b.word(f.kid("quantifier"), "Word"), b.mods(f.kid("_")))
		}
		a4 := a3.kid("arg_4")
		p := attach(b.arg5(a4.kid("arg_5")), b.mods(a4.kid("_")))
		var rel *Node
		if r := a4.kid("relative_clause"); r != nil {
			rel = b.any(r)
		}
		return mk("PredicateArgument", ku, q, p, rel)

	case "relative_clause", "relative_clause_1", "relative_clause_2":
		if t.Kids[0].Rule == "LU_phrase" {
			return b.lu(t.Kids[0], "LURelative")
		}
		return b.copOr(t, "CoPRelative")
	case "relative_clause_3":
		return mk("PredicationRelative", b.predication(t, "relative_predication"))

	case "adverb", "adverb_1":
		return b.copOr(t, "CoPAdverb")
	case "adverb_2":
		return mk("PredicateAdverb", b.any(t.Kids[0]))

	case "prepositional_phrase", "prepositional_phrase_1":
		return b.copOr(t, "CoPPreposition")
	case "prepositional_phrase_2":
		p := attach(b.any(t.kid("preposition")), b.mods(t.kid("_")))
		return mk("PredicationPreposition", p, b.any(t.kid("argument")))

	case "content_clause":
		return b.copOr(t, "CoPContent")
	case "content_clause_1":
		if t.Kids[0].Rule == "LU_phrase" {
			return b.lu(t.Kids[0], "LUContent")
		}
		return b.any(t.Kids[0])
	case "content_statement":
		return mk("PredicationContent", b.predication(t, "content_predication"))

	case "predicate", "predicate_2", "serial_predicate", "arg_6", "arg_7",
		"relative_predicate", "relative_predicate_1", "relative_predicate_2",
		"adverb_3", "adverb_4", "preposition_2", "preposition_3", "preposition_4",
		"content_predicate", "content_predicate_1", "content_predicate_2":
		return b.any(t.Kids[0])
	}
	panic("unexpected rule " + t.Rule)
}

func (b *builder) copOr(t *Tree, kind string) *Node {
	switch k := t.Kids[0]; k.Rule {
	case "afterthought_cop", "forethought_cop":
		return b.cop(k, kind)
	default:
		return b.any(k)
	}
}

//
// Spelling
//

const toneMarks = `-/V?^\~`

// toneOf maps all tone marks to their index in toneMarks.
var toneOf = map[rune]int{
	'-': 0, '1': 0, '\u0304': 0,
	'/': 1, '2': 1, '\u0301': 1,
	'V': 2, '3': 2, '\u030C': 2, '\u0306': 2,
	'?': 3, '4': 3, '\u0309': 3,
	'^': 4, '5': 4, '\u0302': 4,
	'\\': 5, '6': 5, '\u0300': 5,
	'~': 6, '7': 6, '\u0303': 6,
}

// Toned are the precomposed letters by tone, for each of Vowels.
var (
	Vowels = []rune("auioeAUIOE")
	Toned  = [][]rune{
		[]rune("āūīōēĀŪĪŌĒ"),
		[]rune("áúíóéÁÚÍÓÉ"),
		[]rune("ǎǔǐǒěǍǓǏǑĚ"),
		[]rune("ảủỉỏẻẢỦỈỎẺ"),
		[]rune("âûîôêÂÛÎÔÊ"),
		[]rune("àùìòèÀÙÌÒÈ"),
		[]rune("ãũĩõẽÃŨĨÕẼ"),
	}
	Breve = []rune("ăŭĭŏĕĂŬĬŎĔ")
)

func vowelIndex(r rune) int {
	if r == 'ı' {
		r = 'i'
	}
	for i, v := range Vowels {
		if v == r {
			return i
		}
	}
	return -1
}

func isToned(r rune) bool {
	for _, t := range Toned {
		for _, v := range t {
			if v == r {
				return true
			}
		}
	}
	for _, v := range Breve {
		if v == r {
			return true
		}
	}
	return false
}

// NormalizeWord returns the normal spelling of a word:
// tone marks are moved to the first vowel of their syllable
// as precomposed letters, and other i are dotless.
func NormalizeWord(w string) string {
	var out []rune
	first := -1 // index in out of the first vowel of the current syllable
	inSyl := false
	for len(w) > 0 {
		r, n := utf8.DecodeRuneInString(w)
		w = w[n:]
		if t, ok := toneOf[r]; ok && first >= 0 {
			out[first] = Toned[t][vowelIndex(out[first])]
			continue
		}
		switch {
		case vowelIndex(r) >= 0 || isToned(r):
			if r == 'i' {
				r = 'ı'
			}
			if !inSyl {
				first = len(out)
				inSyl = true
			}
		case r == 'q' || r == 'Q':
		default:
			inSyl, first = false, -1
		}
		out = append(out, r)
	}
	return string(out)
}

// Package refpeg is a reference implementation of the Toaq grammar.
//
// It interprets a frozen copy of the grammar's text (toaq.peggy) directly,
// with textbook PEG semantics and memoisation,
// and shares no code with the generated parser that it is compared to.
package refpeg

import (
	_ "embed"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

//go:embed toaq.peggy
var grammarText string

type opKind int

const (
	opChoice opKind = iota
	opSeq
	opCall
	opLit
	opClass
	opAny
	opAnd
	opNot
	opOpt
	opPlus
	opStar
	opPunct // the only code predicate of the grammar: the previous rune is punctuation.
	opEmpty
)

// source expression
type expr struct {
	op    opKind
	label string
	name  string   // opCall
	args  []string // opCall
	lit   string
	class []rune
	kids  []*expr
}

type srcRule struct {
	name   string
	params []string
	named  bool
	title  string // of a named rule
	body   *expr
}

type inst struct {
	id    int
	base  string
	args  []string
	named bool
	title string
	leaf  bool
	body  *node
}

// instantiated expression
type node struct {
	op    opKind
	label string
	call  *inst
	lit   string
	class map[rune]bool
	kids  []*node
}

// A Grammar is a compiled grammar.
type Grammar struct {
	src   map[string]*srcRule
	insts map[string]*inst
	list  []*inst
}

var toaq *Grammar

func init() {
	g, err := compile(grammarText)
	if err != nil {
		panic(err)
	}
	toaq = g
}

// leafRules are rules for which the parse tree has no kids, just the span.
var leafRules = map[string]bool{
	"predicate_word": true, "focus": true, "end_quote": true, "end_predicatizer": true,
	"end_statement": true, "sentence_prefix": true, "end_prenex": true,
	"start_incidental": true, "start_parenthetical": true, "end_parenthetical": true,
	"vocative_marker": true, "linking_word": true, "connective": true, "moq": true,
	"quantifier": true, "interjection": true, "forethought_marker": true,
	"LU_word": true, "MI_word": true, "PO_word": true, "MO_word": true,
	"space_word": true, "questions": true, "EOF": true,
	"non_function_word": true, "toned_function_word": true, "neutral_function_word": true,
}

//
// Grammar source
//

type token struct {
	kind rune // 'i' ident, 's' string, 'c' class, '{' code, else the punctuation; 'a' is the arrow
	text string
}

func lex(s string) ([]token, error) {
	var ts []token
	for len(s) > 0 {
		r, w := utf8.DecodeRuneInString(s)
		switch {
		case unicode.IsSpace(r):
			s = s[w:]
		case r == '#':
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				i = len(s)
			}
			s = s[i:]
		case strings.HasPrefix(s, "<-"):
			ts = append(ts, token{'a', "<-"})
			s = s[2:]
		case r == '_' || unicode.IsLetter(r):
			i := 0
			for i < len(s) {
				r, w := utf8.DecodeRuneInString(s[i:])
				if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
					break
				}
				i += w
			}
			ts = append(ts, token{'i', s[:i]})
			s = s[i:]
		case r == '"' || r == '\'':
			i := 1
			for s[i] != byte(r) {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			ts = append(ts, token{'s', unescape(s[1:i])})
			s = s[i+1:]
		case r == '[':
			i := 1
			for s[i] != ']' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			ts = append(ts, token{'c', unescape(s[1:i])})
			s = s[i+1:]
		case r == '{':
			depth, i := 0, 0
			for {
				switch s[i] {
				case '{':
					depth++
				case '}':
					depth--
				case '"', '`':
					q := s[i]
					for i++; s[i] != q; i++ {
						if s[i] == '\\' && q == '"' {
							i++
						}
					}
				case '\'':
					for i++; s[i] != '\''; i++ {
						if s[i] == '\\' {
							i++
						}
					}
				}
				i++
				if depth == 0 {
					break
				}
			}
			ts = append(ts, token{'{', s[:i]})
			s = s[i:]
		case strings.ContainsRune("<>,()/*+?&!:.", r):
			ts = append(ts, token{r, string(r)})
			s = s[w:]
		default:
			return nil, fmt.Errorf("grammar: bad character %q", r)
		}
	}
	return ts, nil
}

// Unescape returns what a string or class of the grammar says.
func Unescape(s string) string { return unescape(s) }

func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			i++
			continue
		}
		i++
		switch s[i] {
		case 't':
			b.WriteByte('\t')
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 'u':
			var r rune
			fmt.Sscanf(s[i+1:i+5], "%x", &r)
			b.WriteRune(r)
			i += 4
		default:
			b.WriteByte(s[i])
		}
		i++
	}
	return b.String()
}

type gparser struct {
	ts []token
	i  int
}

func (p *gparser) peek(n int) token {
	if p.i+n < len(p.ts) {
		return p.ts[p.i+n]
	}
	return token{}
}

// ruleStart returns whether a rule begins at the current token.
func (p *gparser) ruleStart() bool {
	j := p.i
	at := func() token {
		if j < len(p.ts) {
			return p.ts[j]
		}
		return token{}
	}
	if at().kind != 'i' {
		return false
	}
	j++
	if at().kind == '<' {
		for at().kind != '>' {
			if at().kind == 0 {
				return false
			}
			j++
		}
		j++
	}
	if at().kind == 's' {
		j++
	}
	return at().kind == 'a'
}

func (p *gparser) rule() *srcRule {
	r := &srcRule{name: p.peek(0).text}
	p.i++
	if p.peek(0).kind == '<' {
		r.params = p.args()
	}
	if p.peek(0).kind == 's' {
		r.named, r.title = true, p.peek(0).text
		p.i++
	}
	p.i++ // arrow
	r.body = p.choice()
	return r
}

func (p *gparser) args() []string {
	var as []string
	p.i++ // <
	for {
		t := p.peek(0)
		p.i++
		switch t.kind {
		case 'i':
			as = append(as, t.text)
		case ',':
		case '>':
			return as
		default:
			panic("bad template arguments")
		}
	}
}

func (p *gparser) choice() *expr {
	e := &expr{op: opChoice, kids: []*expr{p.seq()}}
	for p.peek(0).kind == '/' {
		p.i++
		e.kids = append(e.kids, p.seq())
	}
	if len(e.kids) == 1 {
		return e.kids[0]
	}
	return e
}

func (p *gparser) seq() *expr {
	e := &expr{op: opSeq}
	for {
		t := p.peek(0)
		if t.kind == 0 || t.kind == ')' || t.kind == '/' || t.kind == 'i' && p.ruleStart() {
			break
		}
		if t.kind == '{' { // action
			p.i++
			continue
		}
		e.kids = append(e.kids, p.labeled())
	}
	if len(e.kids) == 1 {
		return e.kids[0]
	}
	return e
}

func (p *gparser) labeled() *expr {
	if p.peek(0).kind == 'i' && p.peek(1).kind == ':' {
		l := p.peek(0).text
		p.i += 2
		return &expr{op: opSeq, label: l, kids: []*expr{p.prefixed()}}
	}
	return p.prefixed()
}

func (p *gparser) prefixed() *expr {
	switch t := p.peek(0); t.kind {
	case '&', '!':
		p.i++
		if p.peek(0).kind == '{' {
			if !strings.Contains(p.peek(0).text, "unicode.IsPunct(r)") || t.kind == '!' {
				panic("unsupported code predicate: " + p.peek(0).text)
			}
			p.i++
			return &expr{op: opPunct}
		}
		op := opAnd
		if t.kind == '!' {
			op = opNot
		}
		return &expr{op: op, kids: []*expr{p.suffixed()}}
	}
	return p.suffixed()
}

func (p *gparser) suffixed() *expr {
	e := p.primary()
	switch p.peek(0).kind {
	case '?':
		p.i++
		return &expr{op: opOpt, kids: []*expr{e}}
	case '+':
		p.i++
		return &expr{op: opPlus, kids: []*expr{e}}
	case '*':
		p.i++
		return &expr{op: opStar, kids: []*expr{e}}
	}
	return e
}

func (p *gparser) primary() *expr {
	t := p.peek(0)
	p.i++
	switch t.kind {
	case '(':
		e := p.choice()
		if p.peek(0).kind != ')' {
			panic("expected )")
		}
		p.i++
		return e
	case '.':
		return &expr{op: opAny}
	case 's':
		return &expr{op: opLit, lit: t.text}
	case 'c':
		return &expr{op: opClass, class: []rune(t.text)}
	case 'i':
		e := &expr{op: opCall, name: t.text}
		if p.peek(0).kind == '<' {
			e.args = p.args()
		}
		return e
	}
	panic(fmt.Sprintf("unexpected token %q", t.text))
}

func compile(src string) (g *Grammar, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &gparser{ts: ts}
	if p.peek(0).kind == '{' { // prelude
		p.i++
	}
	g = &Grammar{src: make(map[string]*srcRule), insts: make(map[string]*inst)}
	for p.peek(0).kind != 0 {
		if !p.ruleStart() {
			return nil, fmt.Errorf("grammar: expected a rule at %q", p.peek(0).text)
		}
		r := p.rule()
		if g.src[r.name] != nil {
			return nil, fmt.Errorf("grammar: duplicate rule %q", r.name)
		}
		g.src[r.name] = r
	}
	g.inst("full_text", nil)
	g.inst("word", nil)
	return g, nil
}

func (g *Grammar) inst(name string, args []string) *inst {
	key := name
	if len(args) > 0 {
		key += "<" + strings.Join(args, ",") + ">"
	}
	if in, ok := g.insts[key]; ok {
		return in
	}
	r := g.src[name]
	if r == nil || len(r.params) != len(args) {
		panic("grammar: undefined " + key)
	}
	in := &inst{id: len(g.list), base: name, args: args, named: r.named, title: r.title, leaf: leafRules[name]}
	g.insts[key] = in
	g.list = append(g.list, in)
	env := make(map[string]string)
	for i, p := range r.params {
		env[p] = args[i]
	}
	in.body = g.instExpr(r.body, env)
	return in
}

func (g *Grammar) instExpr(e *expr, env map[string]string) *node {
	n := &node{op: e.op, label: e.label, lit: e.lit}
	if e.op == opClass {
		n.class = make(map[rune]bool)
		for _, r := range e.class {
			n.class[r] = true
		}
	}
	for _, k := range e.kids {
		n.kids = append(n.kids, g.instExpr(k, env))
	}
	if e.op == opCall {
		name := e.name
		if a, ok := env[name]; ok {
			name = a
		}
		var args []string
		for _, a := range e.args {
			if b, ok := env[a]; ok {
				a = b
			}
			args = append(args, a)
		}
		n.call = g.inst(name, args)
	}
	return n
}

//
// Parsing
//

// A Tree is a node of the parse tree.
// The kids are the rules called in the body of the rule,
// excluding those in lookahead.
type Tree struct {
	Rule       string
	Arg        string // the first template argument
	Start, End int
	Label      string
	Kids       []*Tree
}

type result struct {
	done bool
	end  int32 // -1 if failed
	perr int32
	tree *Tree
}

type machine struct {
	g    *Grammar
	text string
	memo [][]result
}

// An Outcome is the outcome of parsing a rule.
type Outcome struct {
	OK   bool
	End  int // if OK
	Err  int // the deepest failure
	Tree *Tree
}

// Parse parses a rule at an offset of a text.
// For full_text, the OK is true only if all of the text was consumed.
func Parse(text, rule string, start int) Outcome {
	m := &machine{g: toaq, text: text, memo: make([][]result, len(text)+1)}
	r := m.call(toaq.insts[rule], start)
	if r.end < 0 {
		return Outcome{Err: int(r.perr)}
	}
	if rule == "full_text" && int(r.end) < len(text) {
		return Outcome{Err: int(r.end)}
	}
	return Outcome{OK: true, End: int(r.end), Err: int(r.perr), Tree: r.tree}
}

// Wants returns what was wanted at the position of the deepest failure of a rule,
// as a set of classes ([ and the sorted letters), quoted literals, names of rules,
// and failed lookaheads (& or !, and the rule, or … if it is not one rule).
func Wants(text, rule string, start, deepest int) map[string]bool {
	m := &machine{g: toaq, text: text, memo: make([][]result, len(text)+1)}
	w := &wants{m: m, at: deepest, done: make(map[[2]int][]string)}
	var ws []string
	w.call(toaq.insts[rule], start, &ws)
	set := make(map[string]bool)
	for _, s := range ws {
		set[s] = true
	}
	return set
}

type wants struct {
	m    *machine
	at   int
	done map[[2]int][]string
}

func (w *wants) call(in *inst, start int, out *[]string) int {
	r := w.m.call(in, start)
	if int(r.perr) < w.at {
		return int(r.end)
	}
	key := [2]int{in.id, start}
	ws, ok := w.done[key]
	if !ok {
		seen := make(map[string]bool)
		var all []string
		w.eval(in.body, start, &all)
		if in.named {
			all = nil
			if r.end < 0 && start == w.at {
				all = []string{in.title}
			}
		}
		for _, s := range all {
			if !seen[s] {
				seen[s] = true
				ws = append(ws, s)
			}
		}
		w.done[key] = ws
	}
	*out = append(*out, ws...)
	return int(r.end)
}

func (w *wants) fail(pos int, want string, out *[]string) int {
	if pos == w.at {
		*out = append(*out, want)
	}
	return -1
}

// Class returns the canonical form of a class.
func Class(rs []rune) string {
	rs = append([]rune{}, rs...)
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return "[" + string(rs)
}

func (w *wants) eval(n *node, pos int, out *[]string) int {
	switch n.op {
	case opChoice:
		for _, k := range n.kids {
			if e := w.eval(k, pos, out); e >= 0 {
				return e
			}
		}
		return -1
	case opSeq:
		for _, k := range n.kids {
			if pos = w.eval(k, pos, out); pos < 0 {
				return -1
			}
		}
		return pos
	case opCall:
		return w.call(n.call, pos, out)
	case opAnd, opNot:
		var ignored []string
		e := w.eval(n.kids[0], pos, &ignored)
		if (e >= 0) == (n.op == opAnd) {
			return pos
		}
		s := "&"
		if n.op == opNot {
			s = "!"
		}
		if n.kids[0].op == opCall {
			return w.fail(pos, s+n.kids[0].call.base, out)
		}
		return w.fail(pos, s+"…", out)
	case opOpt:
		if e := w.eval(n.kids[0], pos, out); e >= 0 {
			return e
		}
		return pos
	case opPlus, opStar:
		for i := 0; ; i++ {
			e := w.eval(n.kids[0], pos, out)
			if e < 0 {
				if i == 0 && n.op == opPlus {
					return -1
				}
				return pos
			}
			pos = e
		}
	}
	perr := -1
	if e := w.m.eval(n, pos, &perr, nil, ""); e >= 0 {
		return e
	}
	switch n.op {
	case opLit:
		return w.fail(pos, strconv.Quote(n.lit), out)
	case opClass:
		var rs []rune
		for r := range n.class {
			rs = append(rs, r)
		}
		return w.fail(pos, Class(rs), out)
	case opAny:
		return w.fail(pos, ".", out)
	}
	return w.fail(pos, "punctuation", out)
}

func (m *machine) call(in *inst, start int) *result {
	if m.memo[start] == nil {
		m.memo[start] = make([]result, len(m.g.list))
	}
	r := &m.memo[start][in.id]
	if r.done {
		return r
	}
	perr := -1
	var kids []*Tree
	var kp *[]*Tree
	if !in.leaf {
		kp = &kids
	}
	end := m.eval(in.body, start, &perr, kp, "")
	if in.named { // failures inside a named rule are reported at its start
		perr = start
	}
	r.done = true
	r.end, r.perr = int32(end), int32(perr)
	if end >= 0 && (in.leaf || treeRule(in.base)) {
		arg := ""
		if len(in.args) > 0 {
			arg = in.args[0]
		}
		r.tree = &Tree{Rule: in.base, Arg: arg, Start: start, End: end, Kids: kids}
	}
	return r
}

// lexical rules have neither trees nor contribute kids.
var lexical = map[string]bool{
	"syllable": true, "initial_syllable": true, "space": true, "punctuation": true,
	"tone": true, "boundary": true, "initial": true, "desinence": true, "function_word": true,
}

func treeRule(base string) bool {
	if lexical[base] || strings.HasSuffix(base, "_syllable") || strings.HasSuffix(base, "_desinence") ||
		strings.HasSuffix(base, "_tone") || strings.HasSuffix(base, "_combiner") {
		return false
	}
	if utf8.RuneCountInString(base) == 1 && base != "_" {
		return false
	}
	return strings.ToUpper(base) != base || base == "_"
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (m *machine) eval(n *node, pos int, perr *int, kids *[]*Tree, label string) int {
	if n.label != "" {
		label = n.label
	}
	switch n.op {
	case opChoice:
		for _, k := range n.kids {
			mark := 0
			if kids != nil {
				mark = len(*kids)
			}
			if e := m.eval(k, pos, perr, kids, label); e >= 0 {
				return e
			}
			if kids != nil {
				*kids = (*kids)[:mark]
			}
		}
		return -1
	case opSeq:
		for _, k := range n.kids {
			if pos = m.eval(k, pos, perr, kids, label); pos < 0 {
				return -1
			}
		}
		return pos
	case opCall:
		r := m.call(n.call, pos)
		*perr = max(*perr, int(r.perr))
		if r.end < 0 {
			return -1
		}
		if kids != nil && r.tree != nil {
			t := *r.tree
			t.Label = label
			*kids = append(*kids, &t)
		}
		return int(r.end)
	case opLit:
		if !strings.HasPrefix(m.text[pos:], n.lit) {
			*perr = max(*perr, pos)
			return -1
		}
		return pos + len(n.lit)
	case opClass:
		r, w := utf8.DecodeRuneInString(m.text[pos:])
		if w == 0 || r == utf8.RuneError || !n.class[r] {
			*perr = max(*perr, pos)
			return -1
		}
		return pos + w
	case opAny:
		r, w := utf8.DecodeRuneInString(m.text[pos:])
		if w == 0 || r == utf8.RuneError {
			*perr = max(*perr, pos)
			return -1
		}
		return pos + w
	case opPunct:
		r, _ := utf8.DecodeLastRuneInString(m.text[:pos])
		if !unicode.IsPunct(r) {
			*perr = max(*perr, pos)
			return -1
		}
		return pos
	case opAnd, opNot:
		saved := *perr
		e := m.eval(n.kids[0], pos, perr, nil, "")
		if (e >= 0) == (n.op == opAnd) {
			*perr = saved
			return pos
		}
		*perr = max(saved, pos)
		return -1
	case opOpt:
		mark := 0
		if kids != nil {
			mark = len(*kids)
		}
		if e := m.eval(n.kids[0], pos, perr, kids, label); e >= 0 {
			return e
		}
		if kids != nil {
			*kids = (*kids)[:mark]
		}
		return pos
	case opPlus, opStar:
		for i := 0; ; i++ {
			mark := 0
			if kids != nil {
				mark = len(*kids)
			}
			e := m.eval(n.kids[0], pos, perr, kids, label)
			if e < 0 {
				if kids != nil {
					*kids = (*kids)[:mark]
				}
				if i == 0 && n.op == opPlus {
					return -1
				}
				return pos
			}
			pos = e
		}
	}
	panic("impossible op")
}

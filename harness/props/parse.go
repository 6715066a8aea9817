package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"

	"verif/gen"
	"verif/pbt"
	"verif/refpeg"
)

func init() {
	register(&pbt.Prop{
		ID:   "C01",
		Rule: "texts rendered from random syntax sketches (all constructs, spellings, spacings, free modifiers), plus strings of the repository's tests; non-trivial: accepted by the reference grammar, at least 3 non-space words and a space or free modifier; distinct: by text",
		Gen:  genValid(gen.Default), Check: checkC01, New: newTextCase,
		Quick: 80000, Thorough: 2500000,
		Fixed: fixedTexts("", " ", "kỉ", "kio hỉo ki bei. ", "hu jí bei ju dẻ hó na moq??"),
	})
	register(&pbt.Prop{
		ID:   "C02",
		Rule: "valid texts, texts with mutated words, letters or bytes, random words, letters and bytes; oracle: an independent interpreter of a frozen copy of the grammar; non-trivial: at least 2 words, and accepted or a failure beyond the first word; distinct: by text",
		Gen:  genAny(40, 25, 12, 5, 12, 3, 2, 1), Check: checkC02, New: newTextCase,
		Quick: 80000, Thorough: 2500000,
		Fixed: corpusCases,
	})
	register(&pbt.Prop{
		ID:   "C03",
		Rule: "as C01; each node of each tree is checked against the span of its own words; non-trivial: accepted, at least 3 words; distinct: by text",
		Gen:  genValid(gen.Default), Check: checkC03, New: newTextCase,
		Quick: 80000, Thorough: 2500000,
		Fixed: fixedTexts("", " ", ". ", "kỉ", "kỉ. "),
	})
	register(&pbt.Prop{
		ID:   "C04",
		Rule: "mutated or random texts over several lines, and long repetitive texts, with random file paths; oracle: deepest failure of the reference interpreter; non-trivial: rejected, with the failure beyond the first byte; distinct: by text",
		Gen:  genC04, Check: checkC04, New: func() any { return &errCase{} },
		Quick: 60000, Thorough: 2000000,
	})
	register(&pbt.Prop{
		ID:   "C05",
		Rule: "random and mutated bytes and letters, deeply nested and long repetitive texts; all functions on all results; non-trivial: the text is not empty and contains a letter of the Toaq alphabet; distinct: by text",
		Gen:  genC05, Check: checkC05, New: newTextCase,
		Quick: 40000, Thorough: 1000000,
		Fixed: fixedTexts("", " ", "\uFFFD", "kỉ\xff", "\xff", "mai4", "kỉ "),
	})
	register(&pbt.Prop{
		ID:   "C07",
		Rule: "as C02, with Word called on all (or, for long texts, 40 random) offsets, and repeatedly; non-trivial: at least one Word call succeeds and one fails; distinct: by text",
		Gen:  genC07, Check: checkC07, New: func() any { return &wordCase{} },
		Quick: 40000, Thorough: 1000000,
	})
}

func corpusCases() []any { return fixedTexts(gen.Corpus...)() }

// parse parses with a new parser, and requires exactly one of a tree and an error.
func parse(r *pbt.Result, text string) (*ast.Text, ast.Error) {
	t, err := ast.NewParser(text).Text()
	if (t == nil) == (err == nil) {
		r.Fail("Text returned tree %v and error %v", t, err)
	}
	return t, err
}

// accepted returns the real and the reference tree of a text that both accept.
// If only one accepts it, that is a violation of C02 and not of the calling property,
// so the text is skipped.
func accepted(r *pbt.Result, text string) (*ast.Text, *refpeg.Node) {
	ref, _ := reference(text)
	if ref == nil {
		r.Class("rejected")
		return nil, nil
	}
	t, err := ast.NewParser(text).Text()
	if err != nil || t == nil {
		r.Class("skipped: only accepted by the reference")
		return nil, nil
	}
	r.Class("accepted")
	return t, ref
}

// rejects returns whether the implementation rejects the text.
func rejects(text string) bool {
	t, err := ast.NewParser(text).Text()
	return err != nil || t == nil
}

func checkC01(c any, r *pbt.Result) {
	text := string(c.(*TextCase).Text)
	t, err := ast.NewParser(text).Text()
	if err != nil || t == nil {
		r.Class("rejected")
		return
	}
	r.Class("accepted")
	ref, _ := reference(text)
	real := refpeg.FromAST(t)
	words := real.Words()
	at, mods := 0, 0
	var ts, norm strings.Builder
	for i, w := range words {
		if w.S != at || w.E < w.S || w.E > len(text) {
			r.Fail("word %d %q has [S,E)=[%d,%d), want S=%d", i, w.T, w.S, w.E, at)
			return
		}
		at = w.E
		in := text[w.S:w.E]
		want := in
		if w.Kind != "Space" {
			want = refpeg.NormalizeWord(in)
		} else {
			mods++
		}
		if w.T != want {
			r.Fail("word %d spelled %q has T=%q, want %q", i, in, w.T, want)
			return
		}
		ts.WriteString(w.T)
		norm.WriteString(want)
	}
	if at != len(text) {
		r.Fail("the words end at %d, but the text at %d", at, len(text))
		return
	}
	// The same words in Visit order.
	i := 0
	ast.Visit(t, ast.FuncVisitor(func(n ast.Node) {
		w, ok := n.(*ast.Word)
		if !ok {
			return
		}
		if i >= len(words) || words[i].S != w.S || words[i].E != w.E || words[i].T != w.T {
			r.Fail("visited word %d is %q [%d,%d), which is not next in the text", i, w.T, w.S, w.E)
		}
		i++
	}))
	if i != len(words) {
		r.Fail("Visit reached %d of %d words", i, len(words))
	}
	// Modifiers are on the words they follow.
	if ref != nil {
		rw := ref.Words()
		if len(rw) == len(words) {
			for i, w := range words {
				if got, want := w.M.Dump(true), rw[i].M.Dump(true); got != want {
					r.Fail("modifier of word %d %q: %s", i, w.T, refpeg.DiffAt(got, want))
					return
				}
			}
		}
		features(r, ref)
		if nwords(real) >= 3 && mods > 0 {
			r.Key = text
		}
	}
}

func checkC02(c any, r *pbt.Result) {
	text := string(c.(*TextCase).Text)
	r.Class("kind " + c.(*TextCase).Kind)
	ref, out := reference(text)
	p := ast.NewParser(text)
	t, err := p.Text()
	if (t == nil) == (err == nil) {
		r.Fail("Text returned tree %v and error %v", t, err)
		return
	}
	tree, terr := ast.NewParser(text).Tree()
	if (tree == nil) == (terr == nil) {
		r.Fail("Tree returned tree %v and error %v", tree, terr)
		return
	}
	if (err == nil) != (ref != nil) {
		r.Fail("Text: got error %v, but the grammar %s", err, acc(ref != nil))
		return
	}
	if (terr == nil) != (ref != nil) {
		r.Fail("Tree: got error %v, but the grammar %s", terr, acc(ref != nil))
		return
	}
	if ref == nil {
		r.Class("rejected")
		if out.Err > 4 && len(strings.Fields(text)) > 1 {
			r.Key = text
		}
		return
	}
	r.Class("accepted")
	features(r, ref)
	if got, want := refpeg.FromAST(t).Dump(false), ref.Dump(false); got != want {
		r.Fail("AST: %s", refpeg.DiffAt(got, want))
		return
	}
	if got, want := pegRules(tree), refRules(out.Tree, text); got != want {
		r.Fail("parse tree: %s", refpeg.DiffAt(got, want))
		return
	}
	if s := pegText(tree); s != text {
		r.Fail("the leaves of the parse tree spell %q", s)
		return
	}
	if nwords(ref) > 1 {
		r.Key = text
	}
}

func acc(b bool) string {
	if b {
		return "accepts the text"
	}
	return "rejects the text"
}

func pegText(n *peg.Node) string {
	if len(n.Kids) == 0 {
		return n.Text
	}
	var b strings.Builder
	for _, k := range n.Kids {
		b.WriteString(pegText(k))
	}
	return b.String()
}

// treeRules are the names of rules that are compared in parse trees.
var treeRules = map[string]bool{
	"discourse": true, "fragment": true, "sentence": true, "sentence_2": true, "statement": true, "statement_3": true, "predication": true,
	"prenex": true, "predicate": true, "terms": true, "term": true, "linked_argument": true, "argument": true, "arg_4": true,
	"relative_clause": true, "relative_predication": true, "adverb": true, "prepositional_phrase": true, "content_clause": true,
	"content_predication": true, "freemod": true, "parenthetical": true, "incidental": true, "vocative": true, "MI_complement": true,
}

func pegRules(n *peg.Node) string {
	var b strings.Builder
	var walk func(*peg.Node)
	walk = func(n *peg.Node) {
		if treeRules[n.Name] {
			fmt.Fprintf(&b, "%s %q\n", n.Name, n.Text)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
	return b.String()
}

func refRules(t *refpeg.Tree, text string) string {
	var b strings.Builder
	var walk func(*refpeg.Tree)
	walk = func(t *refpeg.Tree) {
		if treeRules[t.Rule] {
			fmt.Fprintf(&b, "%s %q\n", t.Rule, text[t.Start:t.End])
		}
		for _, k := range t.Kids {
			walk(k)
		}
	}
	walk(t)
	return b.String()
}

func checkC03(c any, r *pbt.Result) {
	text := string(c.(*TextCase).Text)
	t, err := ast.NewParser(text).Text()
	if err != nil || t == nil {
		r.Class("rejected")
		return
	}
	r.Class("accepted")
	for _, p := range refpeg.Pairs(t) {
		s, e := p.Ref.Span()
		if gs, ge := p.Real.Start(), p.Real.End(); gs != s || ge != e {
			r.Fail("%T with the words %q spans [%d,%d), want [%d,%d)", p.Real, wordsOf(p.Ref), gs, ge, s, e)
			return
		}
	}
	// Derived nodes, nesting and order.
	var check func(n ast.Node)
	check = func(n ast.Node) {
		s, e := n.Start(), n.End()
		if s < 0 || e < s || e > len(text) {
			r.Fail("%T spans [%d,%d) in a text of length %d", n, s, e, len(text))
		}
		if _, ok := n.(*ast.Word); ok {
			for _, k := range children(n) {
				check(k)
			}
			return
		}
		at := s
		if _, ok := n.(*ast.Text); ok {
			at = 0
		}
		for _, k := range children(n) {
			if d, ok := k.(*ast.Discourse); ok && len(*d) == 0 {
				continue
			}
			ks, ke := k.Start(), k.End()
			if ks < at || ke > e && e > 0 {
				r.Fail("%T [%d,%d) is outside of or out of order in its parent %T [%d,%d)", k, ks, ke, n, s, e)
			}
			at = ke
			check(k)
		}
	}
	check(t)
	real := refpeg.FromAST(t)
	features(r, real)
	if nwords(real) >= 3 {
		r.Key = text
	}
}

func wordsOf(n *refpeg.Node) string {
	var ws []string
	for _, w := range n.Words() {
		ws = append(ws, w.T)
	}
	return strings.Join(ws, "")
}

type errCase struct {
	Text     Str    `json:"text"`
	FilePath string `json:"file_path"`
	Kind     string `json:"kind"`
}

// repetitive returns a text with a repeated part.
func repetitive(s *pbt.Source, max int) string {
	g := gen.New(s, gen.Default)
	unit := func(n int) []gen.Tok {
		var ts []gen.Tok
		for ; n > 0; n-- {
			ts = append(ts, g.RandTok())
		}
		return ts
	}
	openers := [][]string{
		{"kio"}, {"mo?"}, {"lu?"}, {"to", "ru"}, {"mi?"}, {"po?"}, {"ju"}, {"hu"}, {"ma/"}, {"ji?", "po/"}, {"to", "ra", "ji/", "to"},
		{"ji/", "ru"}, {"ji?", "ru"}, {"ji/", "bi"}, {"maiV"}, {"mai^"}, {"ji?", "na", "ru"}, {"shu\\"}, {"lo~"}, {"ji?", "kio"}, {"sa", "mai/", "maiV"},
	}
	var parts []string
	st := gen.Plain
	parts = append(parts, g.Spell(unit(s.Intn(3)), st))
	var rep string
	if s.Intn(2) == 0 {
		rep = g.Spell(unit(1+s.Intn(3)), st)
	} else {
		rep = strings.Join(openers[s.Intn(len(openers))], " ")
	}
	n := 2 + s.Intn(max)
	for i := 0; i < n; i++ {
		parts = append(parts, rep)
	}
	parts = append(parts, g.Spell(unit(s.Intn(4)), st))
	return strings.Join(parts, " ")
}

func genC04(s *pbt.Source) any {
	var t *TextCase
	if s.Intn(12) == 11 {
		t = &TextCase{Text: Str(repetitive(s, 38)), Kind: "repetitive"}
	} else {
		t = anyText(s, 5, 30, 25, 8, 20, 6, 6, 2)
	}
	// Several lines.
	b := []byte(t.Text)
	if s.Intn(2) == 1 {
		for i := range b {
			if b[i] == ' ' && s.Intn(4) == 3 {
				b[i] = '\n'
			}
		}
	}
	path := []string{"", "x.toaq", "dir/a b.txt", "☺", "a:1.2: b"}[s.Intn(5)]
	return &errCase{Text: Str(b), FilePath: path, Kind: t.Kind}
}

// lineCol returns the 1-based line and column (in letters) of an offset.
func lineCol(text string, offs int) (int, int) {
	before := text[:offs]
	line := 1 + strings.Count(before, "\n")
	if i := strings.LastIndexByte(before, '\n'); i >= 0 {
		before = before[i+1:]
	}
	return line, 1 + utf8.RuneCountInString(before)
}

// firstInvalid returns the offset of the first invalid UTF-8 or U+FFFD, or -1.
func firstInvalid(text string) int {
	for i, r := range text {
		if r == utf8.RuneError {
			return i
		}
	}
	return -1
}

// wanted returns what an error message says was wanted, in the form of refpeg.Wants.
func wanted(msg string) (map[string]bool, bool) {
	_, s, ok := strings.Cut(msg, ": want ")
	i := strings.LastIndex(s, "; got ")
	if !ok || i < 0 {
		return nil, false
	}
	set := map[string]bool{}
	s = s[:i]
	for s != "" {
		var w string
		switch {
		case s[0] == '[':
			j := 1
			for j < len(s) && s[j] != ']' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, false
			}
			w, s = refpeg.Class([]rune(refpeg.Unescape(s[1:j]))), s[j+1:]
		default:
			j := len(s)
			for _, sep := range []string{", ", " or "} {
				if k := strings.Index(s, sep); k >= 0 && k < j {
					j = k
				}
			}
			w, s = s[:j], s[j:]
			if w[0] == '&' || w[0] == '!' {
				if strings.Trim(w[1:], "_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz") != "" {
					w = w[:1] + "…"
				}
			}
		}
		set[w] = true
		for _, sep := range []string{", or ", " or ", ", "} {
			if strings.HasPrefix(s, sep) {
				s = s[len(sep):]
				break
			}
		}
	}
	return set, true
}

// checkWants checks what an error says was wanted at an offset.
func checkWants(r *pbt.Result, what string, err ast.Error, text, rule string, start, at int) {
	if firstInvalid(text) >= 0 {
		return
	}
	got, ok := wanted(err.Error())
	want := refpeg.Wants(text, rule, start, at)
	if want["space"] && len(got) == 1 && got["space"] {
		// The letter after the offset has been read to see that it isn't punctuation,
		// so to the generated parser, this is where it got furthest.
		r.Class("wants only space")
		return
	}
	if !ok || !reflect.DeepEqual(got, want) {
		r.Fail("%s error at %d: %v\nthis wants %q, but the grammar wants %q", what, at, err, keysOf(got), keysOf(want))
	}
	r.Class("wants compared")
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func checkErr(r *pbt.Result, what string, err ast.Error, text, path string, want int) {
	if got := err.ByteOffset(); got != want {
		r.Fail("%s error at %d, want %d: %v", what, got, want, err)
		return
	}
	if err.Tree() == nil {
		r.Fail("%s error has no fail tree", what)
	}
	if strings.Contains(err.Error(), ": want ; got") {
		r.Fail("%s error does not say what was wanted: %v", what, err)
	}
	if want < len(text) && !utf8.RuneStart(text[want]) {
		return // inside of a letter
	}
	line, col := lineCol(text, want)
	if pre := fmt.Sprintf("%s:%d.%d: ", path, line, col); !strings.HasPrefix(err.Error(), pre) {
		r.Fail("%s error %q does not begin with the location %q", what, err.Error(), pre)
	}
}

func checkC04(c any, r *pbt.Result) {
	ec := c.(*errCase)
	text := string(ec.Text)
	r.Class("kind " + ec.Kind)
	p := ast.NewParser(text)
	p.FilePath = ec.FilePath
	t, err := p.Text()
	p = ast.NewParser(text)
	p.FilePath = ec.FilePath
	_, terr := p.Tree()
	if err == nil || t != nil || terr == nil {
		r.Class("accepted")
		return
	}
	r.Class("rejected")
	ref, out := reference(text)
	if ref != nil {
		r.Class("skipped: only accepted by the reference")
		return
	}
	want := out.Err
	if bad := firstInvalid(text); bad >= 0 && want > bad {
		harness("the reference fails at %d, beyond invalid text at %d", want, bad)
	}
	checkErr(r, "Text", err, text, ec.FilePath, want)
	checkErr(r, "Tree", terr, text, ec.FilePath, want)
	checkWants(r, "Text", err, text, "full_text", 0, want)
	if want > 0 {
		r.Key = text
	}
	if strings.Contains(text[:want], "\n") {
		r.Class("not in the first line")
	}
	if want < len(text) && utf8.RuneCountInString(text[:want]) != want {
		r.Class("after multi-byte letters")
	}
}

func genC05(s *pbt.Source) any {
	switch s.Intn(10) {
	case 0, 1:
		return &TextCase{Text: Str(repetitive(s, 28)), Kind: "repetitive"}
	}
	return anyText(s, 10, 20, 20, 10, 15, 20, 25, 20)
}

var tones = []rune{0, '-', '/', 'V', '?', '^', '\\', '~'}

func checkC05(c any, r *pbt.Result) {
	text := string(c.(*TextCase).Text)
	r.Class("kind " + c.(*TextCase).Kind)
	t, err := parse(r, text)
	if t != nil && err == nil && !utf8.ValidString(text) {
		r.Fail("Text accepted invalid UTF-8")
	}
	if err != nil {
		useErr(r, err, len(text))
	}
	tree, terr := ast.NewParser(text).Tree()
	if (tree == nil) == (terr == nil) {
		r.Fail("Tree returned tree %v and error %v", tree, terr)
	}
	if terr == nil && !utf8.ValidString(text) {
		r.Fail("Tree accepted invalid UTF-8")
	}
	if terr != nil {
		useErr(r, terr, len(text))
	}
	p := ast.NewParser(text)
	step := 1
	if len(text) > 60 {
		step = len(text) / 30
	}
	for i := 0; i <= len(text); i += step {
		w, n, err := p.Word(i)
		if (w == nil) == (err == nil) {
			r.Fail("Word(%d) returned %v and error %v", i, w, err)
			return
		}
		if err != nil {
			useErr(r, err, len(text))
			continue
		}
		if n <= 0 || i+n > len(text) || !utf8.ValidString(text[i:i+n]) {
			r.Fail("Word(%d) returned the length %d for %q", i, n, text[i:])
			return
		}
		useTones(w.T)
	}
	useTones(text)
	if t != nil && err == nil {
		r.Class("accepted")
		useTree(t)
	}
	if strings.ContainsAny(text, "aeiou") {
		r.Key = text
	}
}

func useErr(r *pbt.Result, err ast.Error, n int) {
	if o := err.ByteOffset(); o < 0 || o > n {
		r.Fail("error at %d in a text of length %d", o, n)
	}
	if err.Error() == "" || err.Tree() == nil {
		r.Fail("error %q with tree %v", err.Error(), err.Tree())
	}
}

func useTones(s string) {
	tone.ToASCII(s)
	tone.Strip(s)
	tone.Tone(s)
	for _, t := range tones {
		tone.WithTone(s, t)
	}
}

func useTree(t *ast.Text) {
	ns := allNodes(t)
	for i, n := range ns {
		n.Start()
		n.End()
		if len(ns) < 200 || i%(len(ns)/100) == 0 {
			ast.BracesString(n)
			ast.Visit(n, ast.FuncVisitor(func(ast.Node) {}))
		}
		ast.Equal(n, n)
		ast.Equal(n, ns[(i*7+3)%len(ns)])
		ast.Equal(n, nil)
		ast.Equal(nil, n)
	}
	ast.ToASCII(t)
	ast.BracesString(t)
}

type wordCase struct {
	Text    Str    `json:"text"`
	Offsets []int  `json:"offsets"` // all, if nil
	Kind    string `json:"kind"`
}

func genC07(s *pbt.Source) any {
	t := anyText(s, 35, 15, 10, 5, 20, 10, 3, 2)
	wc := &wordCase{Text: t.Text, Kind: t.Kind}
	if len(t.Text) > 60 {
		for i := 0; i < 40; i++ {
			wc.Offsets = append(wc.Offsets, s.Intn(len(t.Text)+1))
		}
	}
	return wc
}

func checkC07(c any, r *pbt.Result) {
	wc := c.(*wordCase)
	text := string(wc.Text)
	r.Class("kind " + wc.Kind)
	offs := wc.Offsets
	if offs == nil {
		for i := 0; i <= len(text); i++ {
			offs = append(offs, i)
		}
	}
	p := ast.NewParser(text)
	ok, failed := false, false
	word := func(off int) int {
		out := refpeg.Parse(text, "word", off)
		w, n, err := p.Word(off)
		if (w == nil) == (err == nil) {
			r.Fail("Word(%d) returned %v and error %v", off, w, err)
			return -1
		}
		if (err == nil) != out.OK {
			r.Fail("Word(%d) got error %v, but the grammar has word=%v there", off, err, out.OK)
			return -1
		}
		if err != nil {
			failed = true
			checkErr(r, fmt.Sprintf("Word(%d)", off), err, text, "", out.Err)
			checkWants(r, fmt.Sprintf("Word(%d)", off), err, text, "word", off, out.Err)
			return -1
		}
		ok = true
		want := refpeg.BuildWord(text, out.Tree)
		if w.S != off || w.T != want.T || n != out.End-off {
			r.Fail("Word(%d) returned %q at %d with length %d, want %q at %d with length %d", off, w.T, w.S, n, want.T, off, out.End-off)
			return -1
		}
		if got, want := refpeg.FromAST(w).M.Dump(true), want.M.Dump(true); got != want {
			r.Fail("Word(%d) returned %q with the modifier %s, want %s", off, w.T, got, want)
			return -1
		}
		return off + n
	}
	for _, off := range offs {
		word(off)
	}
	// Walk all of the text.
	if ref, _ := reference(text); ref != nil {
		r.Class("walked")
		off := 0
		if l := ref.Get("Leading"); l != nil {
			off = l.E
		}
		for off < len(text) {
			if off = word(off); off < 0 {
				// The word rule does not match moq followed by question marks.
				if strings.Contains(strings.ToLower(text), "moq?") {
					r.Class("walk ended by moq?")
				} else {
					r.Fail("repeated calls of Word do not reach the end of the text")
				}
				break
			}
		}
	}
	if ok && failed {
		r.Key = text
	}
}

var _ = time.Second

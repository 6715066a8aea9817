package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"

	"verif/gen"
	"verif/pbt"
	"verif/refpeg"
)

func init() {
	register(&pbt.Prop{
		ID:   "C08",
		Rule: "the words of valid, mutated and random sketches, spelled twice with independently chosen tone notation, case, dots and breves, equally spaced; metamorphic oracle: both are rejected, or both trees are equal up to case and breves; non-trivial: accepted, at least 3 words, different spellings; distinct: by both texts",
		Gen:  genC08, Check: checkC08, New: func() any { return &spellCase{} },
		Quick: 80000, Thorough: 2500000,
	})
	register(&pbt.Prop{
		ID:   "C09",
		Rule: "words of 1 to 4 random syllables with random tones in random spelling, as read by Parser.Word; oracle: the known letters and tones of the syllables; non-trivial: toned or several syllables; distinct: by spelling",
		Gen:  genC09, Check: checkC09, New: func() any { return &toneCase{} },
		Quick: 400000, Thorough: 10000000,
	})
}

type spellCase struct {
	A, B Str
	Kind string `json:"kind"`
}

func genC08(s *pbt.Source) any {
	g := gen.New(s, sized(s, gen.Default))
	var ts []gen.Tok
	kind := "sketch"
	switch s.Intn(8) {
	case 6:
		kind = "mutated"
		ts = g.MutateToks(g.Tokens(g.Text(), gen.Varied))
	case 7:
		kind = "random words"
		for n := s.Intn(8); n >= 0; n-- {
			ts = append(ts, g.RandTok())
		}
	default:
		ts = g.Tokens(g.Text(), gen.Varied)
	}
	var seps []string
	for i, t := range ts {
		// moq? is moq and a question mark, and not mỏq.
		if len(t.W) == 1 && t.W[0] == (gen.Syl{Base: "moq", Tone: gen.Verb}) {
			ts[i].W = []gen.Syl{{Base: "moq", Tone: gen.Arg}}
		}
		if g.P(10) {
			seps = append(seps, "")
		} else {
			seps = append(seps, g.Space(gen.Varied))
		}
	}
	st := gen.Style{Case: 25, Tones: 75, Dotless: 40}
	spell := func() Str {
		var b strings.Builder
		for i, t := range ts {
			for _, syl := range t.W {
				b.WriteString(g.SpellSyl(syl, st))
			}
			b.WriteString(seps[i])
		}
		return Str(b.String())
	}
	return &spellCase{A: spell(), B: spell(), Kind: kind}
}

// fold maps words to lower case, and breves to carons.
func fold(s string) string {
	return strings.Map(func(r rune) rune {
		for i, b := range refpeg.Breve {
			if r == b {
				r = refpeg.Toned[gen.Rel][i]
			}
		}
		for i, v := range refpeg.Vowels {
			for _, t := range refpeg.Toned {
				if r == t[i] {
					return lowerToned(t, v)
				}
			}
		}
		if r == 'I' || r == 'ı' || r == 'i' {
			return 'ı'
		}
		if 'A' <= r && r <= 'Z' {
			return r + 'a' - 'A'
		}
		return r
	}, s)
}

func lowerToned(t []rune, v rune) rune {
	if 'A' <= v && v <= 'Z' {
		v += 'a' - 'A'
	}
	if v == 'ı' {
		v = 'i'
	}
	for i, w := range refpeg.Vowels {
		if w == v {
			return t[i]
		}
	}
	panic("no such vowel")
}

// folded returns a dump of the tree with folded words and without offsets.
func folded(n *refpeg.Node) string {
	n.Walk(func(n *refpeg.Node) {
		if n.IsWord() && n.Kind != "Space" {
			n.T = fold(n.T)
		}
	})
	return n.Dump(false)
}

func checkC08(c any, r *pbt.Result) {
	sc := c.(*spellCase)
	r.Class("kind " + sc.Kind)
	a, aerr := ast.NewParser(string(sc.A)).Text()
	b, berr := ast.NewParser(string(sc.B)).Text()
	if (aerr == nil) != (berr == nil) {
		r.Fail("one spelling is accepted and the other not: %v, %v", aerr, berr)
		return
	}
	if aerr != nil {
		r.Class("rejected")
		return
	}
	r.Class("accepted")
	ra, rb := refpeg.FromAST(a), refpeg.FromAST(b)
	// Without differences in case and breves, the texts of the words are equal.
	wa, wb := ra.Words(), rb.Words()
	for i := range wa {
		if i < len(wb) && wa[i].Kind != "Space" && wa[i].T != wb[i].T && letters(wa[i].T) == letters(wb[i].T) {
			r.Fail("word %d is %q in one spelling and %q in the other", i, wa[i].T, wb[i].T)
			return
		}
	}
	if fa, fb := folded(ra), folded(rb); fa != fb {
		r.Fail("the trees differ: %s", refpeg.DiffAt(fb, fa))
		return
	}
	ast.ToASCII(a)
	ast.ToASCII(b)
	wa, wb = refpeg.FromAST(a).Words(), refpeg.FromAST(b).Words()
	for i := range wa {
		if wa[i].Kind != "Space" && !strings.EqualFold(wa[i].T, wb[i].T) {
			r.Fail("ToASCII of word %d is %q in one spelling and %q in the other", i, wa[i].T, wb[i].T)
			return
		}
	}
	if sc.A != sc.B && nwords(ra) >= 3 {
		r.Key = string(sc.A + "|" + sc.B)
	}
}

// letters returns the base letters of a word with case, and which have a breve.
func letters(s string) string {
	var b strings.Builder
	for _, r := range s {
		found := false
		for i, v := range refpeg.Vowels {
			if r == refpeg.Breve[i] {
				fmt.Fprintf(&b, "%c breve", v)
				found = true
				break
			}
			for _, t := range refpeg.Toned {
				if r == t[i] {
					b.WriteRune(v)
					found = true
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			b.WriteRune(r)
		}
	}
	return b.String()
}

type toneCase struct {
	Word  Str       `json:"word"`
	Syls  []gen.Syl `json:"syllables"`
	Bases []string  `json:"bases"` // the syllables with case
}

func genC09(s *pbt.Source) any {
	g := gen.New(s, gen.Default)
	c := &toneCase{}
	n := 1
	if s.Intn(2) == 1 {
		n = 1 + s.Intn(4)
	}
	for i := 0; i < n; i++ {
		syl := gen.Syl{Base: g.RandSyl(), Tone: gen.Compound}
		if i == 0 {
			syl.Tone = 1 + s.Intn(6)
			if n == 1 && s.Intn(3) == 0 {
				syl.Tone = gen.Neutral
				syl.Base = []string{"da", "na", "ru", "to", "sa", "bi", "kio", "moq", "bei", "teo", "roi", "lu", "shu", "tio"}[s.Intn(14)]
			}
		}
		// The case is chosen here, to know the letters.
		base := []byte(syl.Base)
		switch s.Intn(4) {
		case 1:
			base[0] -= 'a' - 'A'
		case 2:
			base = []byte(strings.ToUpper(syl.Base))
		case 3:
			for i := range base {
				if s.Intn(2) == 1 {
					base[i] -= 'a' - 'A'
				}
			}
		}
		c.Syls = append(c.Syls, syl)
		c.Bases = append(c.Bases, string(base))
		c.Word += Str(g.SpellSyl(gen.Syl{Base: string(base), Tone: syl.Tone}, gen.Style{Tones: 80, Dotless: 50}))
	}
	return c
}

const marks = `-/V?^\~`

func checkC09(c any, r *pbt.Result) {
	tc := c.(*toneCase)
	w, n, err := ast.NewParser(string(tc.Word)).Word(0)
	if err != nil || w == nil || n != len(tc.Word) {
		// For example, neutral words of LU.
		r.Class("not read as one word")
		return
	}
	word := w.T
	// The reader of words is the subject of C07.
	if word != refpeg.NormalizeWord(string(tc.Word)) {
		r.Class("skipped: normalised otherwise")
		return
	}
	var ascii, strip strings.Builder
	for i, b := range tc.Bases {
		ascii.WriteString(b)
		strip.WriteString(b)
		if t := tc.Syls[i].Tone; t >= 0 {
			ascii.WriteByte(marks[t])
		}
	}
	eq := func(what string, got, want any) {
		if got != want {
			r.Fail("%s of %q is %q, want %q", what, word, got, want)
		}
	}
	eq("ToASCII", tone.ToASCII(word), ascii.String())
	for _, ch := range tone.ToASCII(word) {
		if ch >= utf8.RuneSelf {
			r.Fail("ToASCII of %q is %q", word, tone.ToASCII(word))
		}
	}
	eq("Strip", tone.Strip(word), strip.String())
	eq("Strip of ToASCII", tone.Strip(tone.ToASCII(word)), strip.String())
	eq("Strip of Strip", tone.Strip(tone.Strip(word)), strip.String())
	eq("ToASCII of ToASCII", tone.ToASCII(tone.ToASCII(word)), ascii.String())
	var first rune
	if t := tc.Syls[0].Tone; t >= 0 {
		first = rune(marks[t])
	}
	eq("Tone", tone.Tone(word), first)
	eq("Tone of ToASCII", tone.Tone(tone.ToASCII(word)), first)
	eq("Tone of Strip", tone.Tone(tone.Strip(word)), rune(0))

	hasBreve := false
	for _, ch := range word {
		for _, b := range refpeg.Breve {
			hasBreve = hasBreve || ch == b
		}
	}
	for ti, t := range tones {
		got := tone.WithTone(word, t)
		want := withTone(word, ti-1)
		if got != want {
			r.Fail("WithTone(%q, %q) is %q, want %q", word, t, got, want)
		}
		eq("Tone of WithTone", tone.Tone(got), t)
		eq("Strip of WithTone", tone.Strip(got), strip.String())
		if back := tone.WithTone(got, first); !hasBreve && back != word {
			r.Fail("re-toning %q by %q and back by %q gives %q", word, t, first, back)
		}
	}
	// Parsing the ASCII spelling gives back the word.
	w2, _, err := ast.NewParser(tone.ToASCII(word)).Word(0)
	if err != nil || w2 == nil {
		r.Fail("ToASCII of %q cannot be parsed: %v", word, err)
	} else if want := caron(word); w2.T != want {
		r.Fail("ToASCII of %q parses as %q, want %q", word, w2.T, want)
	}
	// The functions on trees.
	ast.ToASCII(w)
	eq("ast.ToASCII", w.T, ascii.String())

	if len(tc.Syls) > 1 || tc.Syls[0].Tone >= 0 {
		r.Key = string(tc.Word)
	}
	r.Class(fmt.Sprintf("%d syllables", len(tc.Syls)))
	r.Class(fmt.Sprintf("tone %d", tc.Syls[0].Tone))
	if hasBreve {
		r.Class("with breve")
	}
}

// caron replaces breves by carons.
func caron(s string) string {
	return strings.Map(func(r rune) rune {
		for i, b := range refpeg.Breve {
			if r == b {
				return refpeg.Toned[gen.Rel][i]
			}
		}
		return r
	}, s)
}

// withTone is the reference for tone.WithTone; t is an index of marks, or -1.
func withTone(s string, t int) string {
	rs := []rune(s)
	for k, r := range rs {
		for i, v := range refpeg.Vowels {
			is := r == v || r == refpeg.Breve[i] || r == 'ı' && v == 'i'
			for _, tab := range refpeg.Toned {
				is = is || r == tab[i]
			}
			if !is {
				continue
			}
			rs[k] = v
			if t >= 0 {
				rs[k] = refpeg.Toned[t][i]
			} else if v == 'i' {
				rs[k] = 'ı'
			}
			return string(rs)
		}
	}
	return s
}

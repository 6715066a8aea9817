package gen

import (
	"strings"
	"unicode"

	"verif/refpeg"
)

// A Style says how a sketch is spelled.
type Style struct {
	Case    int // percentage of syllables with some upper-case
	Tones   int // percentage of toned syllables not spelled in ASCII with a final mark
	NoSpace int // percentage of missing spaces
	Spaces  int // percentage of spaces that are not just one space
	Dotless int // percentage of neutral i spelled ı
	Fore    int // percentage of connectives in forethought form, where there is a choice
	Close   int // percentage of optional closers present
	Mods    int // percentage of spaces with a free modifier
}

// Plain is the plainest style.
var Plain = Style{Fore: 30, Close: 30}

// Varied is a style with all variations.
var Varied = Style{Case: 15, Tones: 60, NoSpace: 10, Spaces: 20, Dotless: 30, Fore: 30, Close: 30, Mods: 3}

// Modified is a style with many free modifiers.
var Modified = Style{Case: 10, Tones: 30, NoSpace: 5, Spaces: 10, Dotless: 10, Fore: 30, Close: 50, Mods: 15}

var spaces = []string{"  ", "\n", ", ", ". ", "\t", "! ", ": ", " — ", "«", "» ", "\r\n", "; ", " (", ") ", "… ", "“", "\n\n", "。", "'", "·", "؟", "_"}

// A Tok is a rendered word.
type Tok struct {
	W     []Syl
	Quote bool
}

// Tokens returns the words of a sketch.
func (g *Gen) Tokens(n *G, st Style) []Tok {
	var ts []Tok
	g.tokens(n, st, false, &ts)
	return ts
}

func (g *Gen) tokens(n *G, st Style, quote bool, ts *[]Tok) {
	switch n.Op {
	case 'w':
		if len(*ts) > 0 && !quote && g.P(st.Mods) {
			g.fuel = 2 + g.N(6)
			g.tokens(g.freemod(), st, true, ts)
		}
		*ts = append(*ts, Tok{n.W, quote})
	case 's':
		for _, k := range n.Kids {
			g.tokens(k, st, quote || n.Quote, ts)
		}
	case 'c':
		fore := n.Fore
		if n.Fore && n.After {
			fore = g.P(st.Fore)
		}
		if fore {
			g.tokens(fn("to"), st, quote, ts)
			g.tokens(fn(n.RU), st, quote, ts)
			g.tokens(n.Kids[0], st, quote, ts)
			g.tokens(fn("to"), st, quote, ts)
			g.tokens(n.Kids[1], st, quote, ts)
			return
		}
		g.tokens(n.Kids[0], st, quote, ts)
		g.tokens(fn(n.RU), st, quote, ts)
		g.tokens(n.Kids[1], st, quote, ts)
	case 'o':
		if g.P(st.Close) {
			g.tokens(n.Kids[0], st, quote, ts)
		}
	}
}

// Render returns the text of a sketch.
func (g *Gen) Render(n *G, st Style) string { return g.Spell(g.Tokens(n, st), st) }

// Spell returns the text of words.
func (g *Gen) Spell(ts []Tok, st Style) string {
	var b strings.Builder
	if g.P(st.Spaces / 4) {
		b.WriteString(spaces[g.N(len(spaces))])
	}
	for i, t := range ts {
		if i > 0 && !g.P(st.NoSpace) {
			b.WriteString(g.Space(st))
		}
		for _, s := range t.W {
			b.WriteString(g.SpellSyl(s, st))
		}
		if len(t.W) == 1 && t.W[0].Base == "moq" && t.W[0].Tone == Neutral && g.P(st.Spaces) {
			b.WriteString(strings.Repeat("?", 1+g.geo(3)))
		}
	}
	if g.P(st.Spaces / 2) {
		b.WriteString(g.Space(st))
	}
	return b.String()
}

// Space returns a space.
func (g *Gen) Space(st Style) string {
	if !g.P(st.Spaces) {
		return " "
	}
	s := g.space()
	if g.N(4) == 3 {
		for n := 1 + g.geo(1); n > 0; n-- {
			s += g.space()
		}
	}
	return s
}

func (g *Gen) space() string {
	if g.N(16) == 15 {
		return string(puncts[g.N(len(puncts))])
	}
	return spaces[g.N(len(spaces))]
}

// geo returns a number less than n, but sometimes a much larger one.
func (g *Gen) geo(n int) int {
	i := g.N(n)
	if g.N(12) == 11 {
		i += 1 + g.N(6)
		if g.N(4) == 3 {
			i += g.N(40)
		}
	}
	return i
}

// puncts are all punctuation but for the tone marks.
var puncts = func() []rune {
	var rs []rune
	for _, r := range unicode.Punct.R16 {
		for c := rune(r.Lo); c <= rune(r.Hi); c += rune(r.Stride) {
			if !strings.ContainsRune("-/?\\", c) {
				rs = append(rs, c)
			}
		}
	}
	for _, r := range unicode.Punct.R32 {
		for c := rune(r.Lo); c <= rune(r.Hi); c += rune(r.Stride) {
			rs = append(rs, c)
		}
	}
	return rs
}()

var combiners = [][]string{{"\u0304"}, {"\u0301"}, {"\u030C", "\u0306"}, {"\u0309"}, {"\u0302"}, {"\u0300"}, {"\u0303"}}

// SpellSyl spells a syllable.
func (g *Gen) SpellSyl(s Syl, st Style) string {
	rs := []rune(s.Base)
	if g.P(st.Case) {
		switch g.N(3) {
		case 0:
			rs[0] = unicode.ToUpper(rs[0])
		case 1:
			for i := range rs {
				rs[i] = unicode.ToUpper(rs[i])
			}
		default:
			for i := range rs {
				if g.N(2) == 1 {
					rs[i] = unicode.ToUpper(rs[i])
				}
			}
		}
	}
	v := -1
	for i, r := range rs {
		if strings.ContainsRune("auioeAUIOE", r) {
			v = i
			break
		}
	}
	// A combining mark or a precomposed letter replaces or follows the first vowel.
	pre, post, end := "", "", ""
	if s.Tone >= 0 && v >= 0 {
		if !g.P(st.Tones) {
			end = string(`-/V?^\~`[s.Tone])
		} else {
			c := combiners[s.Tone]
			switch g.N(6) {
			case 0:
				pre = precomposed(rs[v], s.Tone, false)
			case 1:
				post = c[g.N(len(c))]
			case 2:
				post = string(`-/V?^\~`[s.Tone])
			case 3:
				post = string("1234567"[s.Tone])
			case 4:
				end = string("1234567"[s.Tone])
			default:
				pre = precomposed(rs[v], s.Tone, true)
			}
		}
	}
	var b strings.Builder
	for i, r := range rs {
		switch {
		case i == v && pre != "":
			b.WriteString(pre)
			continue
		case r == 'i' && g.P(st.Dotless):
			r = 'ı'
		}
		b.WriteRune(r)
		if i == v {
			b.WriteString(post)
		}
	}
	return b.String() + end
}

func precomposed(r rune, tone int, breve bool) string {
	for i, v := range refpeg.Vowels {
		if v == r {
			if breve && tone == Rel {
				return string(refpeg.Breve[i])
			}
			return string(refpeg.Toned[tone][i])
		}
	}
	panic("not a vowel")
}

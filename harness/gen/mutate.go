package gen

import (
	_ "embed"
	"encoding/json"
	"strings"
)

//go:embed corpus.json
var corpusJSON []byte

// Corpus are texts (and other strings) that occur in the repository's tests.
var Corpus = func() []string {
	var ss []string
	if err := json.Unmarshal(corpusJSON, &ss); err != nil {
		panic(err)
	}
	return ss
}()

var neutrals = []string{
	"da", "na", "ru", "to", "sa", "bi", "pa", "ka", "so", "ba", "moq", "ga", "go", "fi", "cu", "ta", "bei", "hu", "ju", "ku",
	"ki", "kio", "keo", "je", "ra", "ri", "roi", "ro", "re", "ke", "tu", "sia", "hi", "ja", "teo",
}

var tonables = []string{"lu", "li", "lo", "ma", "tio", "mi", "shu", "mo", "jei", "po"}

// RandTok returns a random word of the vocabulary.
func (g *Gen) RandTok() Tok {
	t := g.N(7)
	if t == 0 {
		t = Verb
	}
	switch g.N(8) {
	case 0, 1:
		return Tok{W: g.word(t).W}
	case 2, 3, 4:
		return Tok{W: fn(neutrals[g.N(len(neutrals))]).W}
	case 5:
		return Tok{W: toned(tonables[g.N(len(tonables))], t).W}
	case 6:
		return Tok{W: g.variable(t).W}
	default:
		switch g.N(3) {
		case 0:
			return Tok{W: toned("hoa", t).W}
		case 1: // a function word with a tone or compound
			return Tok{W: toned(neutrals[g.N(len(neutrals))], t).W}
		default:
			return Tok{W: []Syl{{neutrals[g.N(len(neutrals))], g.N(8) - 1}, {g.RandSyl(), Compound}}}
		}
	}
}

// MutateToks returns mutated words.
func (g *Gen) MutateToks(ts []Tok) []Tok {
	ts = append([]Tok{}, ts...)
	for n := 1 + g.N(3); n > 0; n-- {
		if len(ts) == 0 {
			return append(ts, g.RandTok())
		}
		i := g.N(len(ts))
		switch g.N(6) {
		case 0: // delete
			ts = append(ts[:i:i], ts[i+1:]...)
		case 1: // insert
			ts = append(ts[:i:i], append([]Tok{g.RandTok()}, ts[i:]...)...)
		case 2: // replace
			ts[i] = g.RandTok()
		case 3: // swap
			j := g.N(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case 4: // change a tone
			w := append([]Syl{}, ts[i].W...)
			w[g.N(len(w))].Tone = g.N(8) - 1
			ts[i].W = w
		default: // duplicate a range
			j := i + 1 + g.N(3)
			if j > len(ts) {
				j = len(ts)
			}
			ts = append(ts[:j:j], ts[i:]...)
		}
	}
	return ts
}

var runes = []rune("aeiouıAEIOUbcdfghjklmnpqrstBCDFGHJKLMNPQRST āáǎảâàãăÁǍẢÂÀÃĂíǐỉîìĩĭÍóǒỏôòõŏúǔủûùũŭéěẻêèẽĕ-/V?^\\~1234567\u0304\u0301\u030C\u0309\u0302\u0300\u0303\u0306 \n.,?!xyzvw089αжπ汉🙂\u00A0\u2028\uFFFD\u0000\u200B$+<=>|`ſ\u212Aİ𐄀\u0345")

// MutateRunes returns a text mutated on the level of letters or bytes.
func (g *Gen) MutateRunes(s string, bytes bool) string {
	rs := []rune(s)
	for n := 1 + g.N(3); n > 0; n-- {
		if len(rs) == 0 {
			rs = append(rs, runes[g.N(len(runes))])
			continue
		}
		i := g.N(len(rs))
		switch g.N(5) {
		case 0:
			rs = append(rs[:i:i], rs[i+1:]...)
		case 1:
			rs = append(rs[:i:i], append([]rune{runes[g.N(len(runes))]}, rs[i:]...)...)
		case 2:
			rs[i] = runes[g.N(len(runes))]
		case 3:
			rs = rs[:i]
		default:
			j := g.N(len(rs))
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	s = string(rs)
	if bytes && len(s) > 0 {
		b := []byte(s)
		for n := 1 + g.N(2); n > 0; n-- {
			b[g.N(len(b))] = byte(g.N(256))
		}
		s = string(b)
	}
	return s
}

// RandRunes returns random letters.
func (g *Gen) RandRunes(n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteRune(runes[g.N(len(runes))])
	}
	return b.String()
}

// Package props has the checks of the properties.
package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"unicode/utf8"

	"verif/gen"
	"verif/pbt"
	"verif/refpeg"
)

// Props are all properties, by ID.
var Props = map[string]*pbt.Prop{}

func register(p *pbt.Prop) { Props[p.ID] = p }

// A Str is a string of arbitrary bytes that is JSON-able without loss.
type Str string

// MarshalJSON encodes strings that are not valid UTF-8 in base64.
func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"base64": base64.StdEncoding.EncodeToString([]byte(s))})
}

// UnmarshalJSON is the inverse of MarshalJSON.
func (s *Str) UnmarshalJSON(b []byte) error {
	var str string
	if err := json.Unmarshal(b, &str); err == nil {
		*s = Str(str)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["base64"])
	*s = Str(d)
	return err
}

// A TextCase is a case that is one text.
type TextCase struct {
	Text Str    `json:"text"`
	Kind string `json:"kind"`
}

func newTextCase() any { return &TextCase{} }

func fixedTexts(ss ...string) func() []any {
	return func() []any {
		var cs []any
		for _, s := range ss {
			cs = append(cs, &TextCase{Text: Str(s), Kind: "fixed"})
		}
		return cs
	}
}

// weighted returns the index of one of the weights.
func weighted(s *pbt.Source, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	n := s.Intn(sum)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	panic("unreachable")
}

func style(s *pbt.Source) gen.Style {
	switch s.Intn(8) {
	case 0, 1:
		return gen.Plain
	case 7:
		return gen.Modified
	}
	return gen.Varied
}

// cfg returns the configuration with a random size.
func sized(s *pbt.Source, c gen.Cfg) gen.Cfg {
	switch s.Intn(6) {
	case 0:
		c.Fuel = 3
	case 1, 2:
		c.Fuel = 6
	case 3, 4:
		c.Fuel = 12
	default:
		c.Fuel = 24
	}
	return c
}

// validText generates a text that is most probably valid.
func validText(s *pbt.Source, c gen.Cfg) string {
	if s.Intn(40) == 39 {
		return gen.Corpus[s.Intn(len(gen.Corpus))]
	}
	g := gen.New(s, sized(s, c))
	if s.Intn(30) == 29 {
		return g.Render(g.Long(), style(s))
	}
	return g.Render(g.Text(), style(s))
}

func genValid(c gen.Cfg) func(*pbt.Source) any {
	return func(s *pbt.Source) any { return &TextCase{Text: Str(validText(s, c)), Kind: "sketch"} }
}

// anyText generates a text that may or may not be valid.
func anyText(s *pbt.Source, ws ...int) *TextCase {
	kind := weighted(s, ws...)
	var t string
	switch kind {
	case 0:
		t = validText(s, gen.Default)
	case 1: // mutated words
		g := gen.New(s, sized(s, gen.Default))
		st := style(s)
		ts := g.Tokens(g.Text(), st)
		t = g.Spell(g.MutateToks(ts), st)
	case 2: // mutated letters
		g := gen.New(s, sized(s, gen.Default))
		t = g.MutateRunes(g.Render(g.Text(), style(s)), false)
	case 3: // mutated corpus
		g := gen.New(s, gen.Default)
		t = g.MutateRunes(gen.Corpus[s.Intn(len(gen.Corpus))], false)
	case 4: // random words
		g := gen.New(s, gen.Default)
		var ts []gen.Tok
		for n := s.Intn(10); n >= 0; n-- {
			ts = append(ts, g.RandTok())
		}
		t = g.Spell(ts, style(s))
	case 5: // random letters
		t = gen.New(s, gen.Default).RandRunes(s.Intn(20))
	case 6: // mutated bytes
		g := gen.New(s, sized(s, gen.Default))
		t = g.MutateRunes(g.Render(g.Text(), style(s)), true)
	case 7: // random bytes
		b := make([]byte, s.Intn(24))
		for i := range b {
			b[i] = byte(s.Intn(256))
		}
		t = string(b)
	}
	return &TextCase{Text: Str(t), Kind: []string{"sketch", "mutated words", "mutated letters", "mutated corpus", "random words", "random letters", "mutated bytes", "random bytes"}[kind]}
}

func genAny(ws ...int) func(*pbt.Source) any {
	return func(s *pbt.Source) any { return anyText(s, ws...) }
}

// reference returns the reference parse of a text, and nil if it is rejected.
func reference(text string) (*refpeg.Node, refpeg.Outcome) {
	o := refpeg.Parse(text, "full_text", 0)
	if !o.OK {
		return nil, o
	}
	return refpeg.BuildText(text, o.Tree), o
}

// shape returns the distinct kinds of nodes in a tree, as a key that is coarser than the text.
func shape(n *refpeg.Node) string {
	var b strings.Builder
	n.Walk(func(n *refpeg.Node) {
		if !n.IsWord() {
			b.WriteString(n.Kind)
			b.WriteByte(' ')
		}
	})
	return b.String()
}

// features adds classes for the kinds of nodes.
func features(r *pbt.Result, n *refpeg.Node) {
	seen := map[string]bool{}
	n.Walk(func(n *refpeg.Node) {
		if !seen[n.Kind] {
			seen[n.Kind] = true
			r.Class("has " + n.Kind)
		}
	})
}

func nwords(n *refpeg.Node) int {
	k := 0
	for _, w := range n.Words() {
		if w.Kind != "Space" {
			k++
		}
	}
	return k
}

func harness(format string, args ...any) {
	panic(pbt.HarnessError(fmt.Sprintf(format, args...)))
}

// known returns whether a finding is listed in the file of known findings.
func known(id, key string) bool {
	knownOnce.Do(func() {
		path := os.Getenv("VERIF_KNOWN")
		if path == "" {
			path = "/verif/known-findings.txt"
		}
		b, err := os.ReadFile(path)
		if err != nil {
			harness("%v", err)
		}
		knownFindings = make(map[string]bool)
		for _, l := range strings.Split(string(b), "\n") {
			var id, key string
			if _, err := fmt.Sscanf(l, "known: property=%s key=%q", &id, &key); err == nil {
				knownFindings[id+" "+key] = true
			}
		}
	})
	return knownFindings[id+" "+key]
}

var (
	knownOnce     sync.Once
	knownFindings map[string]bool
)

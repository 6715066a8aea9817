package props

import (
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"

	"verif/gen"
	"verif/pbt"
	"verif/reflogic"
	"verif/refpeg"
)

// A PairCase is two texts.
type PairCase struct {
	A Str `json:"a"`
	B Str `json:"b"`
}

// abstract returns a string that says what a text consists of
// without spelling, modifiers, optional closers,
// and whether connectives are in forethought form.
// Its 2nd return is the exact text of all quotes.
func abstract(n *refpeg.Node) (string, string) {
	var b, q strings.Builder
	var walk func(n *refpeg.Node)
	walk = func(n *refpeg.Node) {
		if n == nil {
			b.WriteString("- ")
			return
		}
		if n.IsWord() {
			if n.Kind == "Space" {
				return
			}
			b.WriteString(n.Kind)
			b.WriteByte(' ')
			for _, r := range strings.ToLower(toneless(n.T)) {
				b.WriteRune(r)
			}
			b.WriteByte(' ')
			return
		}
		b.WriteString(n.Kind + "{")
		for _, f := range n.Fields {
			switch {
			case f.Name == "NA" || f.Name == "GA" || f.Name == "TO0" || f.Name == "TO1" || f.Name == "Leading":
				continue
			case n.Kind == "MIPredicate" && f.Name == "Phrase" || n.Kind == "MOPredicate" && f.Name == "Discourse":
				for _, w := range f.Node.Words() {
					q.WriteString(w.T)
				}
				q.WriteByte(0)
			}
			walk(f.Node)
		}
		for _, k := range n.List {
			walk(k)
		}
		b.WriteString("}")
	}
	walk(n)
	return b.String(), q.String()
}

// toneless returns a word with its tones spelled after each vowel.
func toneless(w string) string {
	var b strings.Builder
	for _, r := range w {
		if r == 'ı' {
			r = 'i'
		}
		tone := ""
		for t, row := range refpeg.Toned {
			for i, v := range row {
				if r == v || t == gen.Rel && r == refpeg.Breve[i] {
					r = refpeg.Vowels[i]
					tone = string(rune('1' + t))
					break
				}
			}
			if tone != "" {
				break
			}
		}
		b.WriteRune(r)
		b.WriteString(tone)
	}
	return b.String()
}

func checkRespell(c any, r *pbt.Result) {
	a, b := string(c.(*PairCase).A), string(c.(*PairCase).B)
	ra, _ := reference(a)
	rb, _ := reference(b)
	if ra == nil || rb == nil {
		r.Class("rejected")
		return
	}
	aa, qa := abstract(ra)
	ab, qb := abstract(rb)
	if aa != ab {
		r.Class("differ in more than spelling")
		return
	}
	ta, err := ast.NewParser(a).Text()
	if err != nil {
		r.Fail("%q is rejected: %v", a, err)
		return
	}
	tb, err := ast.NewParser(b).Text()
	if err != nil {
		r.Fail("%q is rejected, but not %q: %v", b, a, err)
		return
	}
	sa, fa := interpret(ta)
	sb, fb := interpret(tb)
	if fa != "" || fb != "" {
		if (fa == "") != (fb == "") {
			r.Fail("%q and %q mean the same, but Interpret: %q, %q", a, b, fa, fb)
		}
		r.Class("unsupported")
		return
	}
	if (sa == nil) != (sb == nil) {
		r.Fail("%q and %q mean the same, but Interpret returns nil: %v, %v", a, b, sa == nil, sb == nil)
		return
	}
	if sa == nil {
		r.Class("no sentence")
		return
	}
	if qa != qb {
		r.Class("quotes differ")
		for _, st := range []logic.Statement{sa, sb} {
			st.Visit(func(n logic.Node) {
				if q, ok := n.(*logic.Quote); ok {
					q.Text = "Q"
				}
			})
		}
	}
	if x, y := logic.String(sa), logic.String(sb); x != y {
		r.Fail("%q and %q mean the same, but are interpreted as\n%s\n%s", a, b, x, y)
		return
	}
	x := reflogic.Canon(reflogic.FromLogic(sa), true)
	if y := reflogic.Canon(reflogic.FromLogic(sb), true); x != y {
		r.Fail("%q and %q mean the same, but are interpreted as\n%s\n%s", a, b, x, y)
		return
	}
	_, nfa := count(ra)
	_, nfb := count(rb)
	r.Class("same")
	if nfa != nfb {
		r.Class("forethought differs")
	}
	if ca, cb := closers(ra), closers(rb); ca != cb {
		r.Class("closers differ")
	}
	if ma, _ := count(ra); ma > 0 {
		r.Class("has free modifiers")
	} else if mb, _ := count(rb); mb > 0 {
		r.Class("has free modifiers")
	}
	if a != b {
		r.Key = a + "\x00" + b
	}
}

// count returns the number of free modifiers and of forethought connectives.
func count(n *refpeg.Node) (mods, fore int) {
	n.Walk(func(n *refpeg.Node) {
		switch {
		case n.Kind == "Parenthetical" || n.Kind == "Incidental" || n.Kind == "Vocative" || n.Kind == "Interjection":
			mods++
		case n.IsCoP() && n.Get("TO0") != nil:
			fore++
		}
	})
	return mods, fore
}

func closers(n *refpeg.Node) int {
	k := 0
	n.Walk(func(n *refpeg.Node) {
		for _, f := range []string{"NA", "GA"} {
			if n.Get(f) != nil {
				k++
			}
		}
	})
	return k
}

var respellStyles = []gen.Style{
	{},
	{Fore: 100},
	{Close: 100},
	{Fore: 50, Close: 50},
	{Case: 30, Tones: 70, Dotless: 30},
	{Spaces: 40},
	{Spaces: 10, Mods: 12},
	{Case: 15, Tones: 60, NoSpace: 5, Spaces: 20, Dotless: 30, Fore: 50, Close: 50, Mods: 5},
}

func init() {
	register(&pbt.Prop{
		ID: "C21", New: func() any { return &PairCase{} }, Quick: 32000, Thorough: 1500000,
		Rule: "a syntax sketch of a text is generated along the grammar, and spelled twice in different styles (tone notation, case, spacing, free modifiers, optional closers, fore- and afterthought); a case is non-trivial if the texts differ, both are accepted by the reference parser with trees that are equal but for these, and they have an interpretation; cases are distinct by both texts",
		Gen: func(s *pbt.Source) any {
			c := gen.Supported
			c.Mods = 0
			if s.Intn(2) == 1 {
				c.Conn, c.CopStmt, c.TermSet = 35, 25, 12
			}
			g := gen.New(s, sized(s, c))
			t := g.Text()
			i := s.Intn(len(respellStyles))
			j := s.Intn(len(respellStyles))
			if j == i {
				j = (i + 1) % len(respellStyles)
			}
			return &PairCase{Str(g.Render(t, respellStyles[i])), Str(g.Render(t, respellStyles[j]))}
		},
		Check: checkRespell,
	})
}

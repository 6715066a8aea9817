// Package gen generates Toaq texts.
//
// Generation has two steps: a syntax sketch (a tree of *G) is generated
// following the shape of the grammar, and the sketch is then rendered to text.
// All choices of both steps are drawn from a Source,
// so that they shrink and replay.
package gen

// A Source is a source of choices.
type Source interface {
	// Intn returns a number in [0,n); smaller numbers are simpler.
	Intn(n int) int
}

// The tones, by index in toneMarks.
const (
	Compound = iota // -
	Arg             // /
	Rel             // V
	Verb            // ?
	Content         // ^
	Prep            // \
	Adv             // ~
	Neutral  = -1
)

// A Syl is a syllable: base is its lower-case ASCII spelling.
type Syl struct {
	Base string
	Tone int
}

// A G is a node of a syntax sketch.
type G struct {
	Op   byte // 'w' word, 's' sequence, 'c' connective, 'o' optional closer
	W    []Syl
	Kids []*G // 'c': left, right
	RU   string
	// Fore and After are whether a connective can be written in that form.
	Fore, After bool
	// Quote is whether the sequence is quoted: no modifiers are added.
	Quote bool
}

// Cfg holds the weights of the generator.
// Each is a percentage unless it says otherwise.
type Cfg struct {
	Fuel      int // number of predicate words, roughly
	Conn      int // connectives
	Quant     int // quantified arguments
	Var       int // variables instead of predicates in arguments
	Hoa       int // hoa instead of predicates in arguments
	PredVar   int // variables as predicates
	Relative  int
	ContentC  int
	LU        int
	MI        int
	PO        int
	MO        int
	Serial    int
	Adverb    int
	PrepT     int
	Prenex    int
	Linked    int
	TermSet   int
	Focus     int
	Roi       int
	OddConn   int // connectives ro and re, and roi outside of arguments
	Close     int // optional closers
	Fragment  int
	Sentences int // the maximum number
	Illoc     int
	Je        int
	CopStmt   int
	RandWord  int // words with random syllables
	Mods      int // free modifiers between words
	Roomy     int // terms per predication: max
}

// Default is a general purpose configuration.
var Default = Cfg{
	Fuel: 12, Conn: 20, Quant: 30, Var: 15, Hoa: 8, PredVar: 3, Relative: 15, ContentC: 8, LU: 8, MI: 5, PO: 6, MO: 5,
	Serial: 10, Adverb: 8, PrepT: 8, Prenex: 15, Linked: 10, TermSet: 8, Focus: 8, Roi: 20, OddConn: 5, Close: 30,
	Fragment: 12, Sentences: 3, Illoc: 30, Je: 8, CopStmt: 15, RandWord: 10, Mods: 5, Roomy: 3,
}

// Supported is like Default, but avoids connectives that the interpreter does not support.
var Supported = func() Cfg {
	c := Default
	c.OddConn = 0
	c.Fragment = 4
	c.Mods = 1
	return c
}()

// A Gen generates sketches and renders them.
type Gen struct {
	src  Source
	cfg  Cfg
	fuel int
	// depth of modifiers
	modDepth int
}

// New returns a new generator.
func New(src Source, cfg Cfg) *Gen { return &Gen{src: src, cfg: cfg, fuel: cfg.Fuel} }

// N returns a number in [0,n).
func (g *Gen) N(n int) int { return g.src.Intn(n) }

// P returns true with the given percentage.
// False is simpler.
func (g *Gen) P(pct int) bool {
	if pct <= 0 {
		return false
	}
	return g.src.Intn(100) >= 100-pct
}

// rich returns true with the given percentage, if there is fuel.
func (g *Gen) rich(pct int) bool {
	if g.fuel <= 0 || pct <= 0 {
		return false
	}
	return g.P(pct)
}

func fn(s string) *G              { return &G{Op: 'w', W: []Syl{{s, Neutral}}} }
func toned(s string, t int) *G    { return &G{Op: 'w', W: []Syl{{s, t}}} }
func seq(ks ...*G) *G             { return &G{Op: 's', Kids: ks} }
func (g *Gen) closer(s string) *G { return &G{Op: 'o', Kids: []*G{fn(s)}} }

func (g *Gen) choose(ss ...string) string { return ss[g.N(len(ss))] }

var (
	preds    = []string{"mai", "ji", "suq", "poq", "gi", "hoq", "de", "fa", "nuo", "choa", "kue", "joe", "rua", "lue", "shi", "mea", "seo", "geo", "tai", "nai"}
	initials = []string{"b", "ch", "c", "d", "f", "g", "h", "j", "k", "l", "m", "n", "p", "r", "sh", "s", "t"}
	// desinences with the tone on the first vowel.
	desinences = []string{
		"a", "u", "i", "o", "e",
		"aq", "ai", "ao",
		"uq", "uaq", "uai", "uao", "ua", "ui", "uoq", "uoi", "uo", "ueq", "ue",
		"iq", "iaq", "iai", "iao", "ia", "iuq", "iu", "ioi", "ioq", "io", "ieq", "ie",
		"oq", "oaq", "oai", "oao", "oa", "oi", "oeq", "oe",
		"eq", "eaq", "eai", "eao", "ea", "ei", "eoq", "eo", "eu",
	}
	suffixes = []string{"kuai", "tu", "gi", "si", "moa", "cho", "fu"}
)

// RandSyl returns a random syllable's spelling.
func (g *Gen) RandSyl() string {
	return initials[g.N(len(initials))] + desinences[g.N(len(desinences))]
}

// word returns a predicate word in the given tone.
func (g *Gen) word(t int) *G {
	g.fuel--
	if g.P(g.cfg.RandWord) {
		w := []Syl{{g.RandSyl(), t}}
		for i := g.N(3); i >= 0 && len(w) < 4; i-- {
			w = append(w, Syl{g.RandSyl(), Compound})
		}
		if g.N(3) == 0 {
			w = w[:1]
		}
		return &G{Op: 'w', W: w}
	}
	switch k := g.N(len(preds) + 4); {
	case k < len(preds):
		return toned(preds[k], t)
	case k == len(preds):
		return &G{Op: 'w', W: []Syl{{"jeq", t}, {"tu", Compound}}}
	default:
		return &G{Op: 'w', W: []Syl{{preds[g.N(8)], t}, {suffixes[g.N(len(suffixes))], Compound}}}
	}
}

func (g *Gen) variable(t int) *G {
	g.fuel--
	switch k := g.N(6); {
	case k < 4:
		return toned("do", t)
	case k == 4:
		return &G{Op: 'w', W: []Syl{{"do", t}, {"shi", Compound}}}
	default:
		return &G{Op: 'w', W: []Syl{{"do", t}, {"gi", Compound}}}
	}
}

func (g *Gen) ru(arg bool) string {
	if g.P(g.cfg.OddConn) {
		return g.choose("ro", "re", "roi")
	}
	if arg && g.P(g.cfg.Roi) {
		return "roi"
	}
	return g.choose("ru", "ra", "ri")
}

func (g *Gen) conn(ru string, fore, after bool, l, r *G) *G {
	return &G{Op: 'c', RU: ru, Fore: fore, After: after, Kids: []*G{l, r}}
}

// cop connects things that are not connected themselves on the left, or, in forethought form, may be.
func (g *Gen) cop(ru string, one, left, right func() *G) *G {
	if g.N(4) == 3 {
		return g.conn(ru, true, false, left(), right())
	}
	return g.conn(ru, true, true, one(), right())
}

// Text returns a sketch of a text.
func (g *Gen) Text() *G { return g.discourse(g.cfg.Sentences, true) }

func (g *Gen) discourse(max int, frag bool) *G {
	n := 1
	if max > 1 {
		n += g.N(max)
		if n > 1 && g.N(2) == 0 {
			n = 1
		}
	}
	d := seq()
	for i := 0; i < n; i++ {
		if frag && g.P(g.cfg.Fragment) {
			d.Kids = append(d.Kids, g.fragment())
			continue
		}
		s := g.sentence()
		d.Kids = append(d.Kids, s)
	}
	return d
}

func (g *Gen) fragment() *G {
	switch g.N(5) {
	case 0:
		return g.terms(1 + g.N(2))
	case 1:
		return g.prenex()
	case 2:
		return g.relative()
	case 3:
		return g.freemod()
	default:
		return g.adverb()
	}
}

// Sentence returns a sketch of a sentence.
func (g *Gen) sentence() *G {
	if g.rich(g.cfg.Conn / 4) {
		ru := "ru"
		if g.cfg.OddConn > 0 {
			ru = g.ru(false)
		}
		if g.N(4) == 3 {
			return g.conn(ru, true, false, g.sentence(), g.sentence())
		}
		return g.conn(ru, true, true, g.simpleSentence(true), g.simpleSentence(false))
	}
	return g.simpleSentence(false)
}

func (g *Gen) simpleSentence(illoc bool) *G {
	s := seq()
	if g.P(g.cfg.Je) {
		s.Kids = append(s.Kids, fn(g.choose("je", "keo")))
	}
	s.Kids = append(s.Kids, g.statement())
	if illoc || g.P(g.cfg.Illoc) {
		s.Kids = append(s.Kids, fn(g.choose("da", "moq", "ka", "ba")))
	}
	return s
}

func (g *Gen) statement() *G {
	if g.rich(g.cfg.Prenex) {
		return seq(g.prenex(), g.statement1())
	}
	return g.statement1()
}

func (g *Gen) statement1() *G {
	if g.rich(g.cfg.CopStmt) {
		if g.N(4) == 3 {
			return g.conn(g.ru(false), true, false, g.statement(), g.statement())
		}
		return g.conn(g.ru(false), true, true, g.closedPredication(Verb, true), g.statement())
	}
	return g.predication(Verb, true)
}

func (g *Gen) prenex() *G {
	return seq(g.terms(1+g.N(2)), fn(g.choose("bi", "pa")))
}

// predication returns a predication; lu is whether LU phrases are allowed.
func (g *Gen) predication(t int, lu bool) *G {
	p := g.openPredication(t, lu)
	if g.cfg.Close > 0 {
		p.Kids = append(p.Kids, g.closer("na"))
	}
	return p
}

// closedPredication returns a predication that ends with na.
func (g *Gen) closedPredication(t int, lu bool) *G {
	p := g.openPredication(t, lu)
	p.Kids = append(p.Kids, fn("na"))
	return p
}

func (g *Gen) openPredication(t int, lu bool) *G {
	if lu && g.rich(g.cfg.LU/4) {
		n := 1 + g.N(3)
		p := seq(g.lambda(t, n), seq())
		if g.N(6) == 5 {
			n += 1 - 2*g.N(2)
		}
		for ; n > 0; n-- {
			p.Kids[1].Kids = append(p.Kids[1].Kids, g.argument())
		}
		return p
	}
	p := seq(g.predicate(t, lu))
	max := g.cfg.Roomy
	if max > g.fuel {
		max = g.fuel
	}
	if max > 0 {
		if n := g.N(max + 1); n > 0 {
			p.Kids = append(p.Kids, g.terms(n))
		}
	}
	return p
}

func (g *Gen) predicate(t int, lu bool) *G {
	if g.rich(g.cfg.Serial) {
		return seq(g.predicate1(t, lu), g.predicate(Verb, true))
	}
	return g.predicate1(t, lu)
}

func (g *Gen) predicate1(t int, lu bool) *G {
	if g.rich(g.cfg.Conn / 2) {
		if t == Verb && g.N(4) == 3 {
			return g.conn(g.ru(false), true, false, g.predicate(t, true), g.predicate(t, true))
		}
		return g.conn(g.ru(false), true, true, g.predicate2(t, lu), g.predicate1(Verb, true))
	}
	return g.predicate2(t, lu)
}

// lambda returns a function of n variables, as a predicate.
func (g *Gen) lambda(t, n int) *G {
	g.fuel--
	head := toned(g.choose("li", "lu"), t)
	var vs []*G
	if head.W[0].Base == "lu" {
		vs = append(vs, toned("hoa", Arg))
	}
	p := seq()
	names := g.N(len(varNames))
	for len(vs) < n {
		w := []Syl{{"do", Arg}}
		if g.N(3) < 2 {
			w = append(w, Syl{varNames[(names+len(vs))%len(varNames)], Compound})
		}
		v := &G{Op: 'w', W: w}
		vs = append(vs, v)
		p.Kids = append(p.Kids, fn("ja"), v)
	}
	use := func(t int) *G {
		v := vs[g.N(len(vs))]
		w := append([]Syl{}, v.W...)
		w[0].Tone = t
		return &G{Op: 'w', W: w}
	}
	if len(p.Kids) > 0 {
		p.Kids = append(p.Kids, fn("bi"))
	}
	b := seq(g.word(Verb))
	switch g.N(8) {
	case 5:
		b = seq(use(Verb))
	case 6:
		b = seq(g.word(Verb), use(Verb))
	case 7:
		b = seq(use(Verb), g.word(Verb))
	}
	for i := g.N(n + 2); i > 0; i-- {
		if g.N(4) == 3 {
			b.Kids = append(b.Kids, g.term())
		} else {
			b.Kids = append(b.Kids, use(Arg))
		}
	}
	return seq(head, p, b, fn("na"))
}

func (g *Gen) predicate2(t int, lu bool) *G {
	switch {
	case lu && g.rich(g.cfg.LU/4):
		return g.lambda(t, 1+g.N(2))
	case lu && g.rich(g.cfg.LU):
		g.fuel--
		return seq(toned(g.choose("lu", "li", "lo", "ma", "tio"), t), g.statement())
	case g.rich(g.cfg.MI):
		g.fuel--
		var c *G
		switch g.N(4) {
		case 0:
			c = g.predicate(Verb, true)
		case 1:
			c = g.argument()
		case 2:
			c = g.adverb()
		default:
			c = g.prepPhrase()
		}
		return seq(toned(g.choose("mi", "shu"), t), &G{Op: 's', Kids: []*G{c}, Quote: true}, g.closer("ga"))
	case g.rich(g.cfg.PO):
		g.fuel--
		return seq(toned(g.choose("po", "jei"), t), g.argument(), g.closer("ga"))
	case g.rich(g.cfg.MO):
		g.fuel--
		d := g.discourse(2, true)
		d.Quote = true
		return seq(toned("mo", t), d, fn("teo"))
	case g.P(g.cfg.PredVar):
		if g.N(3) == 0 {
			g.fuel--
			return toned("hoa", t)
		}
		return g.variable(t)
	}
	return g.word(t)
}

func (g *Gen) terms(n int) *G {
	ts := seq()
	for i := 0; i < n; i++ {
		ts.Kids = append(ts.Kids, g.term())
	}
	return ts
}

func (g *Gen) term() *G {
	switch {
	case g.rich(g.cfg.Adverb):
		return g.adverb()
	case g.rich(g.cfg.PrepT):
		return g.prepPhrase()
	case g.rich(g.cfg.TermSet):
		n := 2
		if g.N(4) == 3 {
			n = 3 + g.N(3)
		}
		return g.conn(g.ru(false), true, false, g.terms(n), g.terms(n))
	case g.P(g.cfg.Linked):
		return seq(fn(g.choose("go", "fi", "cu", "ta")), g.argument())
	}
	return g.argument()
}

func (g *Gen) argument() *G {
	if g.rich(g.cfg.Conn) {
		return g.cop(g.ru(true), g.argument1, g.argument, g.argument)
	}
	return g.argument1()
}

func (g *Gen) argument1() *G {
	a := seq()
	if g.P(g.cfg.Focus) {
		a.Kids = append(a.Kids, fn("ku"))
	}
	quantified := g.P(g.cfg.Quant)
	if quantified {
		a.Kids = append(a.Kids, fn(g.choose("sa", "tu", "sia", "ja", "hi", "ke")))
	}
	switch {
	case g.rich(g.cfg.ContentC):
		a.Kids = append(a.Kids, g.contentClause())
	case g.P(g.cfg.Var):
		a.Kids = append(a.Kids, g.variable(Arg))
	case g.P(g.cfg.Hoa) && (!quantified || g.cfg.OddConn > 0):
		g.fuel--
		a.Kids = append(a.Kids, toned("hoa", Arg))
	default:
		a.Kids = append(a.Kids, g.argPredicate())
	}
	if g.rich(g.cfg.Relative) {
		a.Kids = append(a.Kids, g.relative())
	}
	return a
}

func (g *Gen) argPredicate() *G {
	if g.rich(g.cfg.Serial / 2) {
		return seq(g.argPredicate1(), g.predicate(Verb, true))
	}
	return g.argPredicate1()
}

func (g *Gen) argPredicate1() *G {
	if g.rich(g.cfg.Conn / 3) {
		if g.N(2) == 0 {
			return g.conn(g.ru(false), true, true, g.word(Arg), g.predicate(Verb, true))
		}
		return g.conn(g.ru(false), true, false, g.argPredicate(), g.predicate(Verb, true))
	}
	return g.predicate2(Arg, true)
}

func (g *Gen) relative() *G {
	if g.rich(g.cfg.Conn / 2) {
		var r *G
		if g.N(4) == 3 {
			r = g.statement()
		} else {
			r = g.relative()
		}
		return g.cop(g.ru(false), func() *G { return g.closedPredication(Rel, false) }, g.relative, func() *G { return r })
	}
	if g.rich(g.cfg.LU) {
		return seq(toned(g.choose("lu", "li", "lo"), Rel), g.statement())
	}
	return g.predication(Rel, false)
}

func (g *Gen) contentClause() *G {
	g.fuel--
	if g.rich(g.cfg.Conn / 2) {
		return g.conn(g.ru(false), false, true, g.closedPredication(Content, false), g.statement())
	}
	if g.rich(g.cfg.LU) {
		return seq(toned(g.choose("lu", "li", "lo", "ma", "tio"), Content), g.statement())
	}
	return g.predication(Content, false)
}

func (g *Gen) adverb() *G {
	if g.rich(g.cfg.Conn / 2) {
		return g.cop(g.ru(false), g.adverb1, g.adverb, g.adverb)
	}
	return g.adverb1()
}

func (g *Gen) adverb1() *G {
	if g.rich(g.cfg.Conn / 4) {
		return g.conn(g.ru(false), true, true, g.word(Adv), g.predicate(Verb, true))
	}
	if g.rich(g.cfg.Serial) {
		return seq(g.predicate2(Adv, true), g.predicate(Verb, true))
	}
	return g.predicate2(Adv, true)
}

func (g *Gen) prepPhrase() *G {
	if g.rich(g.cfg.Conn / 2) {
		return g.cop(g.ru(false), g.prepPhrase1, g.prepPhrase, g.prepPhrase)
	}
	return g.prepPhrase1()
}

func (g *Gen) prepPhrase1() *G {
	return seq(g.preposition(), g.argument())
}

func (g *Gen) preposition() *G {
	if g.rich(g.cfg.Conn / 3) {
		return g.cop(g.ru(false), g.preposition1, g.preposition, g.preposition)
	}
	return g.preposition1()
}

func (g *Gen) preposition1() *G {
	switch {
	case g.rich(g.cfg.Conn / 4):
		return g.conn(g.ru(false), true, true, g.word(Prep), g.predicate(Verb, true))
	case g.rich(g.cfg.Serial):
		return seq(g.predicate2(Prep, true), g.predicate(Verb, true))
	}
	return g.predicate2(Prep, true)
}

func (g *Gen) freemod() *G {
	g.modDepth++
	defer func() { g.modDepth-- }()
	if g.modDepth > 2 {
		return fn("bei")
	}
	save := g.fuel
	if max := 3 + g.N(4); g.fuel > max {
		g.fuel = max
	}
	defer func() { g.fuel = save - 1 }()
	switch g.N(6) {
	case 0, 1:
		return fn("bei")
	case 2, 3:
		return seq(fn("kio"), g.discourse(2, true), fn("ki"))
	case 4:
		if g.N(3) == 2 {
			return seq(fn("ju"), g.statement(), fn("na"))
		}
		return seq(fn("ju"), g.predication(Verb, true), fn("na"))
	default:
		if g.N(4) == 3 {
			return seq(fn("hu"), g.argument())
		}
		return seq(fn("hu"), g.argument1())
	}
}

// small limits the fuel of what f generates.
func (g *Gen) small(f func() *G) *G {
	save := g.fuel
	g.fuel = g.N(3)
	defer func() { g.fuel = save }()
	return f()
}

// Long returns a sketch of a text with a long chain or a deep nesting of one construct,
// made from otherwise small parts.
func (g *Gen) Long() *G {
	d := seq()
	if g.N(4) == 3 {
		d.Kids = append(d.Kids, g.small(g.sentence))
	}
	if g.N(6) == 5 {
		d.Kids = append(d.Kids, g.huge(12+g.N(70)))
	} else {
		d.Kids = append(d.Kids, g.long(4+g.N(8)))
	}
	if g.N(4) == 3 {
		d.Kids = append(d.Kids, g.small(g.sentence))
	}
	return d
}

// chain connects n of what one generates.
func (g *Gen) chain(n int, ru func() string, one, right func() *G) *G {
	c := g.small(right)
	for ; n > 1; n-- {
		c = g.conn(ru(), true, true, g.small(one), c)
	}
	return c
}

// huge returns a sentence with n simple parts.
// There are no connectors in the parts, since the meaning of many connectors is exponentially large.
func (g *Gen) huge(n int) *G {
	arg := func() *G {
		k := seq()
		if g.P(g.cfg.Quant) {
			k.Kids = append(k.Kids, fn(g.choose("sa", "tu", "sia", "ja", "ke")))
		}
		if g.P(g.cfg.Var) {
			k.Kids = append(k.Kids, g.variable(Arg))
		} else {
			k.Kids = append(k.Kids, g.word(Arg))
		}
		return k
	}
	repeat := func(f func() *G) *G {
		d := seq()
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, f())
		}
		return d
	}
	chain := func(ru string, f func() *G) *G {
		c := f()
		for i := 1; i < n; i++ {
			c = g.conn(ru, true, true, f(), c)
		}
		return c
	}
	sentence := func() *G { return seq(g.word(Verb), arg(), fn("da")) }
	switch g.N(12) {
	case 0:
		return seq(g.word(Verb), repeat(arg), fn("da"))
	case 1:
		return repeat(sentence)
	case 2:
		return seq(g.word(Verb), repeat(func() *G { return g.word(Verb) }), arg(), fn("da"))
	case 3:
		w := []Syl{{g.RandSyl(), Verb}}
		for i := 1; i < n; i++ {
			w = append(w, Syl{g.RandSyl(), Compound})
		}
		return seq(&G{Op: 'w', W: w}, arg(), fn("da"))
	case 4:
		return seq(g.word(Verb), repeat(func() *G { return g.word(Adv) }), fn("da"))
	case 5:
		return seq(repeat(arg), fn("bi"), g.word(Verb), arg(), fn("da"))
	case 6:
		return seq(g.word(Verb), chain("roi", arg), fn("da"))
	case 7:
		a := arg()
		for i := 0; i < n; i++ {
			a = seq(toned(g.choose("po", "jei"), Arg), a)
		}
		return seq(g.word(Verb), a, fn("da"))
	case 8:
		a := arg()
		for i := 0; i < n; i++ {
			a = seq(arg(), g.word(Rel), a, fn("na"))
		}
		return seq(g.word(Verb), a, fn("da"))
	case 9:
		s := seq(g.word(Verb), arg(), fn("na"))
		for i := 0; i < n; i++ {
			s = seq(g.word(Verb), toned(g.choose("lu", "li"), Content), s, fn("na"))
		}
		return seq(s, fn("da"))
	case 10:
		return seq(g.word(Verb), toned("mo", Arg), repeat(sentence), fn("teo"), fn("da"))
	default:
		return seq(g.word(Verb), repeat(func() *G { return seq(g.word(Prep), arg()) }), fn("da"))
	}
}

func (g *Gen) long(n int) *G {
	ru := g.ru(false)
	same := func() string { return ru }
	if g.N(4) == 3 {
		same = func() string { return g.choose("ru", "ra", "ri") }
	}
	withArgs := func(as ...*G) *G {
		p := seq(g.word(Verb), seq(as...))
		if g.N(2) == 1 {
			p.Kids[1].Kids = append(p.Kids[1].Kids, g.small(g.term))
		}
		return seq(p, fn("na"), fn("da"))
	}
	verbPredicate := func() *G { return g.predicate2(Verb, false) }
	switch g.N(16) {
	case 0:
		return withArgs(g.chain(n, func() string { return "roi" }, g.argument1, g.argument1))
	case 1:
		if g.N(2) == 1 {
			same = func() string { return g.choose("ru", "ra", "roi") }
		}
		return withArgs(g.chain(n-1, same, g.argument1, g.argument1))
	case 2:
		ts := seq()
		for i := 0; i < n; i++ {
			ts.Kids = append(ts.Kids, g.small(g.term))
		}
		return withArgs(ts)
	case 3:
		d := seq()
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, g.small(func() *G { return g.simpleSentence(true) }))
		}
		return d
	case 4:
		t := []int{Verb, Arg, Adv, Prep, Rel, Content}[g.N(6)]
		p := seq(g.word(t))
		for i := 1; i < n; i++ {
			p.Kids = append(p.Kids, g.word(Verb))
		}
		switch t {
		case Verb:
			return seq(p, g.small(g.term), fn("da"))
		case Prep:
			p = seq(p, g.small(g.argument1))
		case Rel:
			p = seq(g.word(Arg), p, fn("na"))
		case Content:
			p = seq(p, fn("na"))
		}
		return withArgs(p)
	case 5:
		a := g.small(g.argument1)
		for i := 0; i < n; i++ {
			k := seq()
			if g.P(g.cfg.Quant) {
				k.Kids = append(k.Kids, fn(g.choose("sa", "tu", "sia", "ja", "hi", "ke")))
			}
			k.Kids = append(k.Kids, toned(g.choose("po", "jei"), Arg), a)
			a = k
		}
		return withArgs(a)
	case 6:
		t := g.small(g.argument1)
		for i := 0; i < n; i++ {
			k := seq()
			if g.P(g.cfg.Quant) {
				k.Kids = append(k.Kids, fn(g.choose("sa", "tu", "sia", "ja", "hi", "ke")))
			}
			if g.P(g.cfg.Var) {
				k.Kids = append(k.Kids, g.variable(Arg))
			} else {
				k.Kids = append(k.Kids, g.word(Arg))
			}
			k.Kids = append(k.Kids, g.word(Rel), t, fn("na"))
			if g.N(3) == 2 {
				k.Kids = append(k.Kids[:len(k.Kids)-1], toned("hoa", Arg), fn("na"))
			}
			t = k
		}
		return withArgs(t)
	case 7:
		ts := seq()
		for i := 1; i < n; i++ {
			f := g.adverb1
			if g.N(2) == 1 {
				f = g.prepPhrase1
			}
			ts.Kids = append(ts.Kids, g.small(f))
		}
		return withArgs(ts)
	case 8:
		ts := seq()
		for i := 0; i < n; i++ {
			ts.Kids = append(ts.Kids, g.small(g.term))
		}
		return seq(ts, fn(g.choose("bi", "pa")), g.small(func() *G { return g.closedPredication(Verb, true) }), fn("da"))
	case 9:
		return seq(g.chain(n, same, func() *G { return g.closedPredication(Verb, true) }, func() *G { return g.closedPredication(Verb, true) }), fn("da"))
	case 10:
		w := []Syl{{g.RandSyl(), Verb}}
		for i := 0; i < n; i++ {
			w = append(w, Syl{g.RandSyl(), Compound})
		}
		return seq(&G{Op: 'w', W: w}, g.small(g.term), fn("da"))
	case 11:
		return seq(g.chain(n, same, verbPredicate, verbPredicate), g.small(g.term), fn("da"))
	case 12:
		s := g.small(func() *G { return g.closedPredication(Verb, true) })
		for i := 0; i < n; i++ {
			if g.N(2) == 1 {
				s = seq(g.word(Verb), toned(g.choose("lu", "li", "lo"), Content), s, fn("na"))
			} else {
				s = seq(toned(g.choose("lu", "li", "lo"), Verb), s, g.small(g.argument1), fn("na"))
			}
		}
		return seq(s, fn("da"))
	case 13:
		a := g.small(g.argument1)
		for i := 2; i < n; i++ {
			a = g.conn(same(), true, false, a, g.small(g.argument1))
			if g.N(2) == 1 {
				a.Kids[0], a.Kids[1] = a.Kids[1], a.Kids[0]
			}
		}
		return withArgs(a)
	case 14:
		s := seq(g.small(g.sentence))
		if n > 7 {
			n = 7
		}
		for i := 2; i < n; i++ {
			s = seq(g.word(Verb), fn("kio"), s, fn("ki"), g.small(g.argument1), fn("da"))
		}
		return s
	default:
		// Many different variables.
		p := seq()
		for i := 0; i < n; i++ {
			v := &G{Op: 'w', W: []Syl{{"do", Arg}, {varNames[g.N(len(varNames))], Compound}}}
			p.Kids = append(p.Kids, fn(g.choose("sa", "tu", "ke")), v)
			if g.N(3) == 2 {
				p.Kids = append(p.Kids, g.word(Rel), v, fn("na"))
			}
		}
		p.Kids = append(p.Kids, fn("bi"))
		ts := seq(g.word(Verb))
		for i := 0; i < n; i++ {
			ts.Kids = append(ts.Kids, &G{Op: 'w', W: []Syl{{"do", Arg}, {varNames[g.N(len(varNames))], Compound}}})
		}
		return seq(p, ts, fn("na"), fn("da"))
	}
}

var varNames = []string{"shi", "ko", "fa", "bi", "gu", "soa", "jo", "kie", "ne", "pao", "ruq", "tei"}

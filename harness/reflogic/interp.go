package reflogic

import (
	"strings"
	"unicode"

	"verif/refpeg"
)

// Unsupported is why a text has no reference interpretation.
type Unsupported string

type scope struct {
	name string
	b    *Binder
	next *scope
}

type hoas struct {
	b    *Binder
	next *hoas
}

// An env says what variables and hoa refer to. It is immutable.
type env struct {
	vars *scope
	hoa  *hoas
}

func (e env) lookup(name string) *Binder {
	for s := e.vars; s != nil; s = s.next {
		if s.name == name {
			return s.b
		}
	}
	return nil
}

func (e env) with(name string, b *Binder) env {
	e.vars = &scope{name, b, e.vars}
	return e
}

func (e env) withHoa(b *Binder) env {
	e.hoa = &hoas{b, e.hoa}
	return e
}

// lifted is a binder that is bound elsewhere.
type lifted struct {
	b *Binder
	r F
	// free are the names of the free variables of r, including those of lifted binders that it uses.
	free map[string]bool
}

type clause struct {
	env  env
	hi   []*lifted
	memo map[*refpeg.Node]*lifted
}

type arg struct {
	t   Tm
	pos int
}

type interp struct {
	top     []*lifted
	isTop   map[*Binder]*lifted
	memo    map[*refpeg.Node]*lifted
	clauses []*clause
	// unbound are the names of free variables.
	unbound map[*V]string
	steps   int
	// dry is whether this only evaluates a restriction for comparison.
	dry bool
}

// MaxSteps is the maximum number of steps of an interpretation.
const MaxSteps = 20000

// Interpret returns the interpretation of a text, and nil if it has no sentences.
// It returns a reason if the text uses unsupported constructs.
func Interpret(text *refpeg.Node) (f F, un Unsupported) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(Unsupported); ok {
				f, un = nil, u
				return
			}
			panic(e)
		}
	}()
	in := &interp{isTop: map[*Binder]*lifted{}, memo: map[*refpeg.Node]*lifted{}, unbound: map[*V]string{}}
	for _, k := range text.Get("Discourse").List {
		if k.Kind != "StatementSentence" && k.Kind != "CoPSentence" {
			continue
		}
		s := in.sentence(k)
		if f == nil {
			f = s
		} else {
			f = &Conn{"∧", f, s}
		}
	}
	if f == nil {
		return nil, ""
	}
	for i := len(in.top) - 1; i >= 0; i-- {
		f = &Bind{in.top[i].b, in.top[i].r, f}
	}
	return simplify(addHoa(f, nil)), ""
}

func (in *interp) step() {
	if in.steps++; in.steps > MaxSteps {
		panic(Unsupported("too large"))
	}
}

// base returns the letters of a word without tones, in lower case.
func base(w string) string {
	var b strings.Builder
	for _, r := range w {
		if r == 'ı' {
			r = 'i'
		}
		for _, row := range append([][]rune{refpeg.Breve}, refpeg.Toned...) {
			for i, t := range row {
				if r == t {
					r = refpeg.Vowels[i]
				}
			}
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

func op(ru *refpeg.Node) string {
	switch w := base(ru.T); w {
	case "ru":
		return "∧"
	case "ra":
		return "∨"
	case "ri":
		return "?"
	default:
		panic(Unsupported("connective " + w))
	}
}

func isRoi(n *refpeg.Node) bool { return n.Kind == "CoPArgument" && base(n.Get("RU").T) == "roi" }

func conn(n *refpeg.Node, f func(*refpeg.Node) F) F {
	o := op(n.Get("RU"))
	l := f(n.Get("Left"))
	return &Conn{o, l, f(n.Get("Right"))}
}

func (in *interp) sentence(n *refpeg.Node) F {
	if n.Kind == "CoPSentence" {
		if base(n.Get("RU").T) != "ru" {
			panic(Unsupported("sentence connective"))
		}
		return conn(n, in.sentence)
	}
	return in.clause(env{}, n.Get("Statement"))
}

// clause interprets a statement that is a clause of its own.
func (in *interp) clause(e env, n *refpeg.Node) F {
	c := &clause{env: e, memo: map[*refpeg.Node]*lifted{}}
	in.clauses = append(in.clauses, c)
	f := in.statement(e, nil, n)
	in.clauses = in.clauses[:len(in.clauses)-1]
	for i := len(c.hi) - 1; i >= 0; i-- {
		f = &Bind{c.hi[i].b, in.unbind(c, i), f}
	}
	return f
}

// unbind returns the restriction of a hi-binder, with the variables
// unbound that the binder is lifted over.
func (in *interp) unbind(c *clause, i int) F {
	bound := map[*Binder]bool{}
	for _, h := range c.hi[:i+1] {
		bound[h.b] = true
	}
	for _, t := range in.top {
		bound[t.b] = true
	}
	for s := c.env.vars; s != nil; s = s.next {
		bound[s.b] = true
	}
	for h := c.env.hoa; h != nil; h = h.next {
		bound[h.b] = true
	}
	visit(c.hi[i].r, func(*V, bool) {}, func(b *Binder) { bound[b] = true })
	return mapVars(c.hi[i].r, func(v *V) *V {
		if v.B == nil || bound[v.B] {
			return v
		}
		return &V{nil, v.Focus}
	})
}

func mapVars(x interface{}, f func(*V) *V) interface{} {
	args := func(as []Tm) []Tm {
		var bs []Tm
		for _, a := range as {
			bs = append(bs, mapVars(a, f))
		}
		return bs
	}
	switch x := x.(type) {
	case *Bind:
		return &Bind{x.B, mapVars(x.R, f), mapVars(x.S, f)}
	case *Conn:
		return &Conn{x.Op, mapVars(x.L, f), mapVars(x.R, f)}
	case *Atom:
		return &Atom{mapVars(x.P, f), args(x.Args)}
	case *V:
		return f(x)
	case *Pl:
		return &Pl{args(x.Args)}
	case *Ab:
		return &Ab{mapVars(x.F, f)}
	case *Ser:
		return &Ser{mapVars(x.L, f), mapVars(x.R, f)}
	}
	return x
}

func (in *interp) statement(e env, as []arg, n *refpeg.Node) F {
	in.step()
	switch n.Kind {
	case "PrenexStatement":
		pre := n.Get("Prenex")
		keep := base(pre.Get("BI").T) == "pa"
		return in.terms(e, as, pre.Get("Terms").List, !keep, func(e env, as []arg) F {
			if !keep {
				as = nil
			}
			return in.statement(e, as, n.Get("Statement"))
		})
	case "Predication":
		var ts []*refpeg.Node
		if t := n.Get("Terms"); t != nil {
			ts = t.List
		}
		return in.terms(e, as, ts, false, func(e env, as []arg) F {
			return in.predication(e, n.Get("Predicate"), as)
		})
	case "CoPStatement":
		return conn(n, func(m *refpeg.Node) F { return in.statement(e, as, m) })
	}
	panic("bad statement " + n.Kind)
}

func concat(a, b []*refpeg.Node) []*refpeg.Node {
	return append(append([]*refpeg.Node{}, a...), b...)
}

// terms interprets terms followed by a continuation.
func (in *interp) terms(e env, as []arg, ts []*refpeg.Node, bi bool, k func(env, []arg) F) F {
	in.step()
	if len(ts) == 0 {
		return k(e, as)
	}
	t, rest := ts[0], ts[1:]
	with := func(pos int) func(env, Tm) F {
		return func(e env, tm Tm) F {
			return in.terms(e, append(as[:len(as):len(as)], arg{tm, pos}), rest, bi, k)
		}
	}
	switch t.Kind {
	case "TermSet":
		return conn(t, func(m *refpeg.Node) F { return in.terms(e, as, concat(m.List, rest), bi, k) })
	case "PredicateArgument", "CoPArgument":
		return in.argument(e, t, bi, with(0))
	case "LinkedTerm":
		pos := map[string]int{"fi": 1, "go": 2, "cu": 3, "ta": 4}[base(t.Get("GO").T)]
		return in.argument(e, t.Get("Argument"), false, with(pos))
	case "PredicateAdverb", "CoPAdverb":
		tail := in.terms(e, as, rest, bi, k)
		return in.adverb(e, t, &Ab{tail})
	case "PredicationPreposition", "CoPPreposition":
		return in.prep(e, t, func(e env) Tm { return &Ab{in.terms(e, as, rest, bi, k)} })
	}
	panic("bad term " + t.Kind)
}

func (in *interp) adverb(e env, n *refpeg.Node, tail Tm) F {
	if n.Kind == "CoPAdverb" {
		return conn(n, func(m *refpeg.Node) F { return in.adverb(e, m, tail) })
	}
	return in.predication(e, n.Get("Predicate"), []arg{{tail, 0}})
}

func (in *interp) prep(e env, n *refpeg.Node, tail func(env) Tm) F {
	if n.Kind == "CoPPreposition" {
		return conn(n, func(m *refpeg.Node) F { return in.prep(e, m, tail) })
	}
	return in.argument(e, n.Get("Argument"), false, func(e env, a Tm) F {
		return in.predication(e, n.Get("Predicate"), []arg{{tail(e), 0}, {a, 0}})
	})
}

// argument interprets an argument followed by a continuation.
// bi is whether a focus is kept on the binder.
func (in *interp) argument(e env, n *refpeg.Node, bi bool, k func(env, Tm) F) F {
	in.step()
	if n.Kind == "CoPArgument" {
		if isRoi(n) {
			b := &Binder{Q: "ι"}
			r := in.argument(e, n.Get("Left"), false, func(e env, l Tm) F {
				return in.argument(e, n.Get("Right"), false, func(e env, r Tm) F {
					return &Atom{W("="), []Tm{&V{B: b}, &Pl{[]Tm{l, r}}}}
				})
			})
			return &Bind{b, r, k(e, &V{B: b})}
		}
		return conn(n, func(m *refpeg.Node) F { return in.argument(e, m, bi, k) })
	}
	b, r, t, e1 := in.predArg(e, n)
	if b == nil {
		return k(e1, t)
	}
	if bi && n.Get("Focus") != nil {
		b.Focus = true
	}
	return &Bind{b, r, k(e1, t)}
}

func wordOf(p *refpeg.Node) string {
	if p.Kind != "WordPredicate" {
		return ""
	}
	return base(p.T)
}

// IsVariable returns whether a word, in any tone, is a variable.
func IsVariable(w string) bool { return isVar(base(w)) }

// Base returns the letters of a word without tones, in lower case.
func Base(w string) string { return base(w) }

// IsRoi returns whether a node is connected by roi.
func IsRoi(n *refpeg.Node) bool { return isRoi(n) }

// isVar returns whether a word without tone is do,
// possibly followed by further syllables.
func isVar(w string) bool {
	return strings.HasPrefix(w, "do") && (len(w) == 2 || !strings.ContainsRune("aeiouq", rune(w[2])))
}

func (in *interp) free(name string, focus bool) *V {
	v := &V{Focus: focus}
	in.unbound[v] = name
	return v
}

func (in *interp) varOrFree(e env, name string, focus bool) *V {
	if b := e.lookup(name); b != nil {
		return &V{b, focus}
	}
	return in.free(name, focus)
}

var quantifiers = map[string]string{"ke": "ι", "ja": "λ", "sa": "∃", "tu": "∀", "sia": "∄", "hi": "¿"}

// predArg interprets an argument that is a predicate.
// If the returned binder is not nil, then it is to be bound in place.
func (in *interp) predArg(e env, n *refpeg.Node) (*Binder, F, Tm, env) {
	focus := n.Get("Focus") != nil
	pred, rel, quant := n.Get("Predicate"), n.Get("Relative"), n.Get("Quantifier")
	w := wordOf(pred)
	if isVar(w) {
		if quant != nil {
			b := &Binder{Q: quantifiers[base(quant.T)]}
			e = e.with(w, b)
			var r F
			if rel != nil {
				r = in.relative(e.withHoa(b), rel)
			}
			return b, r, &V{b, focus}, e
		}
		if rel == nil {
			return nil, nil, in.varOrFree(e, w, focus), e
		}
		return in.among(e, in.varOrFree(e, w, false), rel, focus)
	}
	if w == "hoa" {
		hoa := func(focus bool) *V {
			if e.hoa == nil {
				return in.free("", focus)
			}
			return &V{e.hoa.b, focus}
		}
		if rel == nil && quant == nil {
			return nil, nil, hoa(focus), e
		}
		b, r, y, e := in.among(e, hoa(false), rel, focus)
		if quant != nil {
			b.Q = quantifiers[base(quant.T)]
		}
		return b, r, y, e
	}

	q := "ι"
	if quant != nil {
		q = quantifiers[base(quant.T)]
	}
	cl := in.clauses[len(in.clauses)-1]
	if l := in.memo[n]; l != nil && q == "ι" {
		captured := false
		for name := range l.free {
			captured = captured || e.lookup(name) != nil
		}
		if !captured {
			return nil, nil, &V{l.b, focus}, e
		}
	}
	if l := cl.memo[n]; l != nil && q == "¿" {
		in.sameHi(e, n, cl, l)
		return nil, nil, &V{l.b, focus}, e
	}
	b := &Binder{Q: q}
	r := in.restriction(e, n, b, focus)
	switch q {
	case "ι":
		l := &lifted{b: b, r: r, free: map[string]bool{}}
		if in.lift(l) {
			in.memo[n] = l
			in.top = append(in.top, l)
			in.isTop[b] = l
			return nil, nil, &V{b, focus}, e
		}
		b.Q = "Λ"
	case "¿":
		l := &lifted{b: b, r: r}
		cl.hi = append(cl.hi, l)
		cl.memo[n] = l
		return nil, nil, &V{b, focus}, e
	}
	return b, r, &V{b, focus}, e
}

func (in *interp) restriction(e env, n *refpeg.Node, b *Binder, focus bool) F {
	r := in.predication(e, n.Get("Predicate"), []arg{{&V{b, focus}, 0}})
	if rel := n.Get("Relative"); rel != nil {
		r = &Conn{"∧", r, in.relative(e.withHoa(b), rel)}
	}
	return r
}

// lift returns whether the restriction uses no variables bound elsewhere than at the top,
// and collects the names of free variables.
func (in *interp) lift(l *lifted) bool {
	inside := map[*Binder]bool{l.b: true}
	visit(l.r, func(*V, bool) {}, func(b *Binder) { inside[b] = true })
	ok := true
	visit(l.r, func(v *V, _ bool) {
		if v.B == nil {
			if name := in.unbound[v]; name != "" {
				l.free[name] = true
			}
			return
		}
		if t := in.isTop[v.B]; t != nil {
			for name := range t.free {
				l.free[name] = true
			}
			return
		}
		if !inside[v.B] {
			ok = false
		}
	}, func(*Binder) {})
	return ok
}

// sameHi makes sure that a hi-binding means the same if it is interpreted in another branch.
// If it doesn't, the text is ambiguous: it is bound once, but depends on the branch.
func (in *interp) sameHi(e env, n *refpeg.Node, cl *clause, l *lifted) {
	if in.dry {
		return
	}
	sub := &interp{isTop: map[*Binder]*lifted{}, memo: map[*refpeg.Node]*lifted{}, unbound: map[*V]string{}, dry: true, steps: in.steps}
	sub.top = append(sub.top, in.top...)
	for k, v := range in.isTop {
		sub.isTop[k] = v
	}
	for k, v := range in.memo {
		sub.memo[k] = v
	}
	c2 := &clause{env: cl.env, memo: map[*refpeg.Node]*lifted{}}
	for k, v := range cl.memo {
		if k != n {
			c2.memo[k] = v
		}
	}
	i := 0
	for cl.hi[i] != l {
		i++
	}
	c2.hi = append(c2.hi, cl.hi[:i]...)
	sub.clauses = []*clause{c2}
	ntop := len(sub.top)
	b := &Binder{Q: "¿"}
	r := sub.restriction(e, n, b, false)
	if len(c2.hi) != i || len(sub.top) != ntop {
		panic(Unsupported("branch-dependent hi"))
	}
	c2.hi = append(c2.hi, &lifted{b: b, r: r})
	one := mapVars(in.unbind(cl, i), func(v *V) *V {
		if v.B == l.b {
			return &V{b, false}
		}
		return &V{v.B, false}
	})
	two := mapVars(sub.unbind(c2, i), func(v *V) *V { return &V{v.B, false} })
	if alpha(one) != alpha(two) {
		panic(Unsupported("branch-dependent hi"))
	}
}

// alpha returns a string that is equal for formulas that are equal
// up to renaming of variables bound inside.
func alpha(f F) string {
	c := &canon{names: map[*Binder]string{}, set: map[*Binder]bool{}}
	outer := 0
	inside := map[*Binder]bool{}
	visit(f, func(*V, bool) {}, func(b *Binder) { inside[b] = true })
	ids := map[*Binder]bool{}
	visit(f, func(v *V, _ bool) {
		if v.B != nil && !inside[v.B] && !ids[v.B] {
			ids[v.B] = true
			outer++
		}
	}, func(*Binder) {})
	for b := range ids {
		c.names[b] = ptr(b)
	}
	return c.f(f)
}

// among returns the binder of those among a variable.
func (in *interp) among(e env, x *V, rel *refpeg.Node, focus bool) (*Binder, F, Tm, env) {
	b := &Binder{Q: "Λ"}
	y := &V{b, focus}
	var r F = &Atom{W("≺"), []Tm{y, x}}
	if rel != nil {
		r = &Conn{"∧", r, in.relative(e.withHoa(b), rel)}
	}
	return b, r, y, e
}

func (in *interp) relative(e env, n *refpeg.Node) F {
	switch n.Kind {
	case "CoPRelative":
		return conn(n, func(m *refpeg.Node) F { return in.relative(e, m) })
	case "PredicationRelative":
		return in.clause(e, n.Get("Predication"))
	case "LURelative":
		return in.clause(e, n.Get("Statement"))
	}
	return in.clause(e, n) // a statement
}

// pconn is a connection of predicates.
type pconn struct {
	op   string
	l, r interface{}
}

func (in *interp) predication(e env, n *refpeg.Node, as []arg) F {
	return distribute(in.predicate(e, n), order(as))
}

func distribute(p interface{}, as []Tm) F {
	if c, ok := p.(*pconn); ok {
		return &Conn{c.op, distribute(c.l, as), distribute(c.r, as)}
	}
	return &Atom{p, as}
}

// order puts arguments in their places.
func order(as []arg) []Tm {
	n := len(as)
	linked := map[int]bool{}
	for _, a := range as {
		if a.pos > n {
			n = a.pos
		}
		if a.pos > 0 {
			if linked[a.pos] {
				panic(Unsupported("a place is linked twice"))
			}
			linked[a.pos] = true
		}
	}
	ts := make([]Tm, n)
	next := 1
	for _, a := range as {
		if a.pos > 0 {
			ts[a.pos-1] = a.t
			continue
		}
		for linked[next] {
			next++
		}
		ts[next-1] = a.t
		next++
	}
	return ts
}

func serial(l, r interface{}) interface{} {
	if c, ok := l.(*pconn); ok {
		return &pconn{c.op, serial(c.l, r), serial(c.r, r)}
	}
	if c, ok := r.(*pconn); ok {
		return &pconn{c.op, serial(l, c.l), serial(l, c.r)}
	}
	return &Ser{l, r}
}

func lambda(f func(x *V) F) Pr {
	b := &Binder{Q: "λ"}
	return &Ab{&Bind{b, nil, f(&V{B: b})}}
}

func equals(t Tm) Pr {
	return lambda(func(x *V) F { return &Atom{W("="), []Tm{x, t}} })
}

func quote(n *refpeg.Node, full bool) *Qt {
	var b strings.Builder
	for _, w := range n.Words() {
		b.WriteString(w.T)
	}
	return &Qt{strings.TrimSpace(b.String()), full}
}

func (in *interp) predicate(e env, n *refpeg.Node) interface{} {
	in.step()
	switch n.Kind {
	case "WordPredicate":
		w := base(n.T)
		switch {
		case isVar(w):
			return in.varOrFree(e, w, false)
		case w == "hoa":
			if e.hoa == nil {
				return in.free("", false)
			}
			return &V{e.hoa.b, false}
		case w == "mea":
			return W("≺")
		case w == "jeqtu":
			return W("=")
		}
		return W(w)
	case "SerialPredicate":
		l := in.predicate(e, n.Get("Left"))
		return serial(l, in.predicate(e, n.Get("Right")))
	case "MIPredicate":
		q := quote(n.Get("Phrase"), false)
		if base(n.Get("MI").T) == "mi" {
			return lambda(func(x *V) F { return &Atom{W("chua"), []Tm{q, x}} })
		}
		return equals(q)
	case "MOPredicate":
		return equals(quote(n.Get("Discourse"), true))
	case "POPredicate":
		p := W("raq")
		if base(n.Get("PO").T) == "jei" {
			p = W("=")
		}
		return lambda(func(x *V) F {
			return in.argument(e, n.Get("Argument"), false, func(e env, t Tm) F { return &Atom{p, []Tm{x, t}} })
		})
	case "LUPredicate":
		if base(n.Get("LU").T) == "lu" {
			b := &Binder{Q: "λ"}
			return &Ab{&Bind{b, nil, in.clause(e.withHoa(b), n.Get("Statement"))}}
		}
		return &Ab{in.clause(e, n.Get("Statement"))}
	case "CoPPredicate", "CoPContent":
		l := n.Get("Left")
		if l.Kind == "PredicateArgument" {
			l = l.Get("Predicate")
		}
		o := op(n.Get("RU"))
		pl := in.predicate(e, l)
		return &pconn{o, pl, in.predicate(e, n.Get("Right"))}
	case "PredicationContent":
		return equals(&Ab{in.clause(e, n.Get("Predication"))})
	case "LUContent":
		return equals(&Ab{in.clause(e, n.Get("Statement"))})
	case "Predication", "PrenexStatement", "CoPStatement": // on the right of CoPContent
		return equals(&Ab{in.clause(e, n)})
	}
	panic("bad predicate " + n.Kind)
}

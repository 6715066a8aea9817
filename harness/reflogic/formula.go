// Package reflogic is a reference interpreter of Toaq texts.
//
// It interprets the reference AST (of package refpeg) in continuation-passing
// style over immutable formulas, and shares no code with package logic.
package reflogic

import (
	"fmt"
	"sort"
	"strings"
)

// A Binder is the identity of a bound variable.
type Binder struct {
	Q     string
	Focus bool
}

// F is a formula.
type F interface{}

// Tm is a term, which is an argument: *V, *Pl, *Qt, *Ab, or nil for an empty place.
type Tm interface{}

// Pr is a predicate: W, *V, *Ab, *Ser, or *Mu.
type Pr interface{}

type (
	// Bind binds a variable.
	Bind struct {
		B    *Binder
		R, S F
	}
	// Conn connects formulas.
	Conn struct {
		Op   string
		L, R F
	}
	// Atom applies a predicate.
	Atom struct {
		P    Pr
		Args []Tm
	}
	// V is a variable; B is nil if it is free.
	V struct {
		B     *Binder
		Focus bool
	}
	// Pl is a plurality.
	Pl struct{ Args []Tm }
	// Qt is a quote.
	Qt struct {
		Text string
		Full bool
	}
	// Ab is an abstraction.
	Ab struct{ F F }
	// W is a word predicate.
	W string
	// Ser is a serial predicate.
	Ser struct{ L, R Pr }
	// Mu is a predicate with swapped places.
	Mu struct {
		P   Pr
		Pos int
	}
)

// visit calls f on all variables (and whether they are predicates) and binders,
// binders before anything in their scope.
func visit(x interface{}, v func(*V, bool), b func(*Binder)) {
	switch x := x.(type) {
	case nil:
	case *Bind:
		b(x.B)
		visit(x.R, v, b)
		visit(x.S, v, b)
	case *Conn:
		visit(x.L, v, b)
		visit(x.R, v, b)
	case *Atom:
		visitPred(x.P, v, b)
		for _, a := range x.Args {
			visit(a, v, b)
		}
	case *V:
		v(x, false)
	case *Pl:
		for _, a := range x.Args {
			visit(a, v, b)
		}
	case *Ab:
		visit(x.F, v, b)
	case *Qt, W, *Ser, *Mu:
		visitPred(x, v, b)
	default:
		panic(fmt.Sprintf("bad formula %T", x))
	}
}

func visitPred(p Pr, v func(*V, bool), b func(*Binder)) {
	switch p := p.(type) {
	case *V:
		v(p, true)
	case *Ser:
		visitPred(p.L, v, b)
		visitPred(p.R, v, b)
	case *Mu:
		visitPred(p.P, v, b)
	case *Ab:
		visit(p.F, v, b)
	case W, *Qt:
	default:
		panic(fmt.Sprintf("bad predicate %T", p))
	}
}

// Size returns the number of nodes, but at most about max.
func Size(x interface{}, max int) int {
	n := 0
	var size func(x interface{})
	size = func(x interface{}) {
		if n++; n > max {
			return
		}
		switch x := x.(type) {
		case *Bind:
			size(x.R)
			size(x.S)
		case *Conn:
			size(x.L)
			size(x.R)
		case *Atom:
			size(x.P)
			for _, a := range x.Args {
				size(a)
			}
		case *Pl:
			for _, a := range x.Args {
				size(a)
			}
		case *Ab:
			size(x.F)
		case *Ser:
			size(x.L)
			size(x.R)
		case *Mu:
			size(x.P)
		}
	}
	size(x)
	return n
}

//
// Canonical form
//

// Canon returns a string that is equal for formulas that are equal
// up to renaming of variables, the order of adjacent ι-binders at the top,
// the order of adjacent ¿-binders, and associativity of ∧ and of ∨.
// Free variables are not distinguished.
// If focus is true, then it shows the focus of arguments.
func Canon(f F, focus bool) string {
	c := &canon{names: map[*Binder]string{}, set: map[*Binder]bool{}, focus: focus}
	var bs []*Bind
	for {
		b, ok := f.(*Bind)
		if !ok || b.B.Q != "ι" {
			break
		}
		bs = append(bs, b)
		f = b.S
	}
	return c.bindSet(bs, f)
}

type canon struct {
	names map[*Binder]string
	set   map[*Binder]bool // unordered, and not yet named
	defs  []*Binder        // unordered, in the order that they were named
	own   []*Binder        // binders of which this is the restriction
	n     int
	focus bool
}

func (c *canon) fresh() string {
	c.n++
	return fmt.Sprintf("x%d", c.n)
}

// bindSet prints a set of binders around a formula.
func (c *canon) bindSet(bs []*Bind, body F) string {
	save := c.defs
	c.defs = nil
	byB := map[*Binder]*Bind{}
	for _, b := range bs {
		c.set[b.B] = true
		byB[b.B] = b
	}
	out := c.f(body)
	var defs []string
	done := map[*Binder]bool{}
	outer := save
	for {
		var next *Binder
		for _, b := range c.defs {
			if byB[b] != nil && !done[b] {
				next = b
				break
			}
		}
		if next == nil {
			break
		}
		done[next] = true
		defs = append(defs, c.def(byB[next]))
	}
	// Those that aren't used.
	var unused []string
	for _, b := range bs {
		if done[b.B] {
			continue
		}
		// It may be used by other unused ones; each is printed on its own.
		d := &canon{names: map[*Binder]string{}, set: map[*Binder]bool{}, focus: c.focus}
		for k, v := range c.names {
			d.names[k] = v
		}
		for o := range c.set {
			if _, ok := d.names[o]; !ok {
				d.names[o] = "outer"
			}
		}
		for _, o := range bs {
			if !done[o.B] {
				d.names[o.B] = "unused"
			}
		}
		d.names[b.B] = "self"
		d.n = 1000000
		unused = append(unused, d.def(b))
	}
	for _, b := range bs {
		delete(c.set, b.B)
	}
	for _, b := range c.defs {
		if byB[b] == nil {
			outer = append(outer, b)
		}
	}
	c.defs = outer
	for _, b := range bs {
		delete(c.names, b.B)
	}
	sort.Strings(unused)
	if len(bs) == 0 {
		return out
	}
	return "SET{" + strings.Join(defs, " ") + " | " + strings.Join(unused, " ") + "} " + out
}

func (c *canon) def(b *Bind) string {
	s := "[" + b.B.Q
	if b.B.Focus && c.focus {
		s += "*"
	}
	s += c.names[b.B]
	if b.R != nil {
		c.own = append(c.own, b.B)
		s += " : " + c.f(b.R)
		c.own = c.own[:len(c.own)-1]
	}
	return s + "]"
}

func (c *canon) f(f F) string {
	switch f := f.(type) {
	case *Bind:
		if f.B.Q == "¿" {
			var bs []*Bind
			var g F = f
			for {
				b, ok := g.(*Bind)
				if !ok || b.B.Q != "¿" {
					break
				}
				bs = append(bs, b)
				g = b.S
			}
			return "(" + c.bindSet(bs, g) + ")"
		}
		save, had := c.names[f.B]
		c.names[f.B] = c.fresh()
		s := "(" + c.def(f) + " " + c.f(f.S) + ")"
		if had {
			c.names[f.B] = save
		} else {
			delete(c.names, f.B)
		}
		return s
	case *Conn:
		var parts []string
		c.flatten(f.Op, f.L, &parts)
		c.flatten(f.Op, f.R, &parts)
		return "(" + strings.Join(parts, " "+f.Op+" ") + ")"
	case *Atom:
		return c.p(f.P) + "(" + c.args(f.Args) + ")"
	}
	return fmt.Sprintf("BAD FORMULA %T", f)
}

func (c *canon) flatten(op string, f F, parts *[]string) {
	if k, ok := f.(*Conn); ok && k.Op == op && (op == "∧" || op == "∨") {
		c.flatten(op, k.L, parts)
		c.flatten(op, k.R, parts)
		return
	}
	*parts = append(*parts, c.f(f))
}

func (c *canon) args(as []Tm) string {
	var ss []string
	for _, a := range as {
		ss = append(ss, c.t(a))
	}
	return strings.Join(ss, ", ")
}

func (c *canon) v(v *V, arg bool) string {
	s := ""
	if v.Focus && c.focus && arg {
		s = "*"
		for _, o := range c.own {
			if o == v.B {
				s = ""
			}
		}
	}
	if v.B == nil {
		return s + "U"
	}
	if n, ok := c.names[v.B]; ok {
		return s + n
	}
	if c.set[v.B] {
		c.names[v.B] = c.fresh()
		c.defs = append(c.defs, v.B)
		return s + c.names[v.B]
	}
	return s + "DANGLING"
}

func (c *canon) t(t Tm) string {
	switch t := t.(type) {
	case nil:
		return "·"
	case *V:
		return c.v(t, true)
	case *Pl:
		return "⌊" + c.args(t.Args) + "⌉"
	case *Qt:
		if t.Full {
			return fmt.Sprintf("«%q»", t.Text)
		}
		return fmt.Sprintf("‹%q›", t.Text)
	case *Ab:
		return "{" + c.f(t.F) + "}"
	}
	return fmt.Sprintf("BAD TERM %T", t)
}

func (c *canon) p(p Pr) string {
	switch p := p.(type) {
	case W:
		return string(p)
	case *V:
		return c.v(p, false)
	case *Ab:
		return "{" + c.f(p.F) + "}"
	case *Ser:
		return "(" + c.p(p.L) + "∘" + c.p(p.R) + ")"
	case *Mu:
		return fmt.Sprintf("(mu%d %s)", p.Pos, c.p(p.P))
	}
	return fmt.Sprintf("BAD PREDICATE %T", p)
}

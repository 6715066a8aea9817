package reflogic

import "fmt"

func ptr(b *Binder) string { return fmt.Sprintf("%p", b) }

// addHoa adds the head of a relative clause as the argument of predications without any.
func addHoa(x interface{}, b *Binder) interface{} {
	args := func(as []Tm) []Tm {
		var bs []Tm
		for _, a := range as {
			bs = append(bs, addHoa(a, nil))
		}
		return bs
	}
	switch x := x.(type) {
	case *Bind:
		return &Bind{x.B, addHoa(x.R, x.B), addHoa(x.S, nil)}
	case *Conn:
		return &Conn{x.Op, addHoa(x.L, b), addHoa(x.R, b)}
	case *Atom:
		p := addHoa(x.P, nil)
		if b == nil || len(x.Args) > 0 {
			return &Atom{p, args(x.Args)}
		}
		used := false
		visitPred(x.P, func(v *V, _ bool) { used = used || v.B == b }, func(*Binder) {})
		if used {
			return &Atom{p, nil}
		}
		return &Atom{p, []Tm{&V{B: b}}}
	case *Pl:
		return &Pl{args(x.Args)}
	case *Ab:
		return &Ab{addHoa(x.F, nil)}
	case *Ser:
		return &Ser{addHoa(x.L, nil), addHoa(x.R, nil)}
	}
	return x
}

type simplifier struct {
	predVars map[*Binder]bool
	sub      map[*Binder]Tm
	steps    int
}

func simplify(f F) F {
	s := &simplifier{predVars: map[*Binder]bool{}, sub: map[*Binder]Tm{}}
	visit(f, func(v *V, pred bool) {
		if pred && v.B != nil {
			s.predVars[v.B] = true
		}
	}, func(*Binder) {})
	return s.f(f)
}

func (s *simplifier) f(f F) F {
	if s.steps++; s.steps > 4*MaxSteps {
		panic(Unsupported("too large"))
	}
	switch f := f.(type) {
	case *Bind:
		delete(s.sub, f.B) // it may be set from another occurrence
		var r F
		if f.R != nil {
			r = s.f(f.R)
		}
		if t := s.definition(f.B, r); t != nil {
			s.sub[f.B] = t
			return s.f(f.S)
		}
		return &Bind{f.B, r, s.f(f.S)}
	case *Conn:
		return &Conn{f.Op, s.f(f.L), s.f(f.R)}
	case *Atom:
		var as []Tm
		for _, a := range f.Args {
			as = append(as, s.t(a))
		}
		if a, ok := f.P.(*Ab); ok {
			if g := s.apply(a, as); g != nil {
				return g
			}
		}
		return &Atom{s.p(f.P), as}
	}
	panic(fmt.Sprintf("bad formula %T", f))
}

// definition returns what a binder's variable is defined to equal, or nil.
func (s *simplifier) definition(b *Binder, r F) Tm {
	a, ok := r.(*Atom)
	if !ok || b.Q != "ι" && b.Q != "Λ" || a.P != Pr(W("=")) || len(a.Args) != 2 || s.predVars[b] {
		return nil
	}
	l, r2 := a.Args[0], a.Args[1]
	if _, ok := l.(*V); !ok {
		l, r2 = r2, l
	}
	v, ok := l.(*V)
	if !ok || v.B != b {
		return nil
	}
	switch r2.(type) {
	case *Qt, *Pl, *Ab:
	default:
		return nil
	}
	used := false
	visit(r2, func(v *V, _ bool) { used = used || v.B == b }, func(*Binder) {})
	if used {
		return nil
	}
	return r2
}

// apply returns the application of λ to arguments, or nil.
func (s *simplifier) apply(a *Ab, as []Tm) F {
	for _, a := range as {
		if a == nil {
			return nil
		}
	}
	var bs []*Binder
	f := a.F
	for {
		b, ok := f.(*Bind)
		if !ok || b.B.Q != "λ" || b.R != nil {
			break
		}
		if s.predVars[b.B] {
			return nil
		}
		bs = append(bs, b.B)
		f = b.S
	}
	if len(bs) == 0 || len(bs) != len(as) {
		return nil
	}
	for i, b := range bs {
		s.sub[b] = as[i]
	}
	return s.f(f)
}

func (s *simplifier) t(t Tm) Tm {
	switch t := t.(type) {
	case *V:
		if u, ok := s.sub[t.B]; ok && t.B != nil {
			return u
		}
	case *Pl:
		var as []Tm
		for _, a := range t.Args {
			a = s.t(a)
			if p, ok := a.(*Pl); ok {
				as = append(as, p.Args...)
			} else {
				as = append(as, a)
			}
		}
		return &Pl{as}
	case *Ab:
		return &Ab{s.f(t.F)}
	}
	return t
}

func (s *simplifier) p(p Pr) Pr {
	switch p := p.(type) {
	case *Ab:
		return &Ab{s.f(p.F)}
	case *Ser:
		return &Ser{s.p(p.L), s.p(p.R)}
	}
	return p
}

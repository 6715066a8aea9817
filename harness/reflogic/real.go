package reflogic

import (
	"fmt"

	"github.com/eaburns/toaq/logic"
)

// FromLogic converts a formula of the implementation.
// Variables are identified by the Binding that they refer to,
// and not by their numbers.
func FromLogic(n logic.Node) F {
	c := &fromLogic{bs: map[*logic.Binding]*Binder{}, done: map[logic.Node]interface{}{}}
	return c.node(n)
}

type fromLogic struct {
	bs   map[*logic.Binding]*Binder
	done map[logic.Node]interface{}
}

func (c *fromLogic) binder(b *logic.Binding) *Binder {
	if c.bs[b] == nil {
		c.bs[b] = &Binder{Q: string(b.Quantifier), Focus: b.Focus}
	}
	return c.bs[b]
}

func (c *fromLogic) node(n logic.Node) interface{} {
	if x, ok := c.done[n]; ok {
		if x == nil {
			panic(fmt.Sprintf("cyclic formula at %T", n))
		}
		return x
	}
	c.done[n] = nil
	x := c.node1(n)
	c.done[n] = x
	return x
}

func (c *fromLogic) args(as []logic.Argument) []Tm {
	var ts []Tm
	for _, a := range as {
		if a == nil {
			ts = append(ts, nil)
		} else {
			ts = append(ts, c.node(a))
		}
	}
	return ts
}

func (c *fromLogic) node1(n logic.Node) interface{} {
	switch n := n.(type) {
	case *logic.Binding:
		var r F
		if n.Restriction != nil {
			r = c.node(n.Restriction)
		}
		if n.Scope == nil {
			panic("binding without scope")
		}
		return &Bind{c.binder(n), r, c.node(n.Scope)}
	case *logic.Connection:
		if n.Left == nil || n.Right == nil {
			panic("connection without a side")
		}
		return &Conn{string(n.Connector), c.node(n.Left), c.node(n.Right)}
	case *logic.Predication:
		if n.Predicate == nil {
			panic("predication without predicate")
		}
		return &Atom{c.node(n.Predicate), c.args(n.Arguments)}
	case *logic.Variable:
		if n.Def == nil {
			return &V{nil, n.Focus}
		}
		return &V{c.binder(n.Def), n.Focus}
	case *logic.Plurality:
		return &Pl{c.args(n.Arguments)}
	case *logic.Quote:
		return &Qt{n.Text, n.FullText}
	case *logic.Pred:
		return W(n.Name)
	case *logic.Abstraction:
		if n.Statement == nil {
			panic("abstraction without statement")
		}
		return &Ab{c.node(n.Statement)}
	case *logic.Serial:
		if n.Left == nil || n.Right == nil {
			panic("serial without a side")
		}
		return &Ser{c.node(n.Left), c.node(n.Right)}
	case *logic.Swap:
		if n.Predicate == nil {
			panic("swap without predicate")
		}
		return &Mu{c.node(n.Predicate), n.Pos}
	}
	panic(fmt.Sprintf("unknown node %T", n))
}

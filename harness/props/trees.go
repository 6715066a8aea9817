package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/eaburns/toaq/ast"

	"verif/gen"
	"verif/pbt"
	"verif/refpeg"
)

func init() {
	register(&pbt.Prop{
		ID:   "C10",
		Rule: "valid texts with a random choice of start node and of nodes to prune, and a new visitor for each node; oracle: the fields of each node in textual order, found by reflection; non-trivial: at least 8 visited nodes; distinct: by text, start and pruned nodes",
		Gen:  genC10, Check: checkC10, New: func() any { return &visitCase{} },
		Quick: 80000, Thorough: 2500000,
		Fixed: func() []any { return []any{&visitCase{Text: ""}, &visitCase{Text: " "}} },
	})
	register(&pbt.Prop{
		ID:   "C11",
		Rule: "pairs of trees: the same text, the same words at other offsets or spaced otherwise, other spellings, mutated words, and single changes of a word, modifier or optional part made in the tree; all pairs of (up to 60) nodes; oracle: equality of full dumps without offsets; non-trivial: both accepted and at least 3 words; distinct: by both texts",
		Gen:  genC11, Check: checkC11, New: func() any { return &equalCase{} },
		Quick: 50000, Thorough: 1500000,
	})
	register(&pbt.Prop{
		ID:   "C12",
		Rule: "valid texts; BracesString of each node against a reference printer over the reference tree, and of the same words spaced otherwise; non-trivial: at least 3 words; distinct: by text",
		Gen:  genC12, Check: checkC12, New: func() any { return &bracesCase{} },
		Quick: 60000, Thorough: 2000000,
	})
}

type visitCase struct {
	Text  Str   `json:"text"`
	Start int   `json:"start"` // number of the node to start from
	Prune []int `json:"prune"` // numbers of the visits that return nil
}

func genC10(s *pbt.Source) any {
	c := &visitCase{Text: Str(validText(s, gen.Default))}
	if s.Intn(2) == 1 {
		c.Start = s.Intn(30)
	}
	for n := s.Intn(4); n > 0; n-- {
		c.Prune = append(c.Prune, s.Intn(40))
	}
	return c
}

// A visitLog records all calls of visitors.
type visitLog struct {
	events []string
	visits int // number of visits of nodes
	next   int // number of the next visitor
	prune  map[int]bool
}

type logVisitor struct {
	log *visitLog
	id  int
}

func (v logVisitor) Visit(n ast.Node) ast.Visitor {
	if n == nil {
		v.log.events = append(v.log.events, fmt.Sprintf("%d closed", v.id))
		return nil
	}
	v.log.events = append(v.log.events, fmt.Sprintf("%d visits %s", v.id, nodeID(n)))
	k := v.log.visits
	v.log.visits++
	if v.log.prune[k] {
		return nil
	}
	v.log.next++
	return logVisitor{v.log, v.log.next}
}

// refVisit is the reference for ast.Visit.
func refVisit(n ast.Node, v ast.Visitor) {
	v = v.Visit(n)
	if v == nil {
		return
	}
	for _, k := range children(n) {
		refVisit(k, v)
	}
	v.Visit(nil)
}

func checkC10(c any, r *pbt.Result) {
	vc := c.(*visitCase)
	t, err := ast.NewParser(string(vc.Text)).Text()
	if err != nil || t == nil {
		r.Class("rejected")
		return
	}
	r.Class("accepted")
	ns := allNodes(t)
	n := ns[vc.Start%len(ns)]
	prune := map[int]bool{}
	for _, k := range vc.Prune {
		prune[k] = true
	}
	before := refpeg.FromAST(t).Dump(true)
	want := &visitLog{prune: prune}
	refVisit(n, logVisitor{want, 0})
	got := &visitLog{prune: prune}
	ast.Visit(n, logVisitor{got, 0})
	if g, w := strings.Join(got.events, "\n"), strings.Join(want.events, "\n"); g != w {
		r.Fail("Visit of %T: %s", n, refpeg.DiffAt(g, w))
		return
	}
	// FuncVisitor visits each node, followed by nil.
	depth, count := 0, 0
	ast.Visit(n, ast.FuncVisitor(func(n ast.Node) {
		if n == nil {
			depth--
			return
		}
		depth++
		count++
	}))
	if all := len(allNodes(n)); count != all || depth != 0 {
		r.Fail("FuncVisitor visited %d of %d nodes and is left with %d open", count, all, depth)
	}
	ast.Visit(nil, ast.FuncVisitor(func(ast.Node) { r.Fail("Visit(nil) calls the visitor") }))
	if after := refpeg.FromAST(t).Dump(true); after != before {
		r.Fail("Visit changed the tree: %s", refpeg.DiffAt(after, before))
	}
	r.Class("start at " + fmt.Sprintf("%T", n))
	if len(prune) > 0 && want.visits < len(ns) {
		r.Class("pruned")
	}
	if want.visits >= 8 {
		r.Key = fmt.Sprint(*vc)
	}
}

type equalCase struct {
	A, B  Str
	Edits []edit `json:"edits"` // made to B
	Kind  string `json:"kind"`
	Skip  int    `json:"skip"`
}

type edit struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
}

var editKinds = []string{"T", "M", "offsets", "drop", "last"}

func genC11(s *pbt.Source) any {
	g := gen.New(s, sized(s, gen.Default))
	st := style(s)
	c := &equalCase{Skip: s.Intn(50)}
	ts := g.Tokens(g.Text(), st)
	a := g.Spell(ts, st)
	b := a
	switch k := s.Intn(6); k {
	case 0:
		c.Kind = "same"
	case 1:
		c.Kind = "shifted"
		b = "… " + a
	case 2:
		c.Kind = "respelled"
		b = g.Spell(ts, st)
	case 3:
		c.Kind = "mutated"
		b = g.Spell(g.MutateToks(ts), st)
	default:
		c.Kind = "edited"
		for n := 1 + s.Intn(2); n > 0; n-- {
			c.Edits = append(c.Edits, edit{editKinds[s.Intn(len(editKinds))], s.Intn(60)})
		}
	}
	c.A, c.B = Str(a), Str(b)
	return c
}

// applyEdit changes the tree; it changes nothing if there is nothing to change.
func applyEdit(t *ast.Text, e edit) {
	ns := allNodes(t)
	// Start with some node, and edit the first node from there for which it is possible.
	for i := range ns {
		n := ns[(i+e.N)%len(ns)]
		switch n := n.(type) {
		case *ast.Word:
			switch {
			case e.Kind == "T":
				n.T += "q"
				return
			case e.Kind == "M" && n.M != nil:
				n.M = nil
				return
			case e.Kind == "offsets":
				n.S += 3
				n.E += 3
				return
			}
		case *ast.Discourse:
			if e.Kind == "last" && len(*n) > 1 {
				*n = (*n)[:len(*n)-1]
				return
			}
		case ast.Terms:
			continue
		}
		if e.Kind == "drop" || e.Kind == "last" {
			v := reflect.ValueOf(n)
			if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
				continue
			}
			v = v.Elem()
			for _, name := range []string{"JE", "DA", "NA", "GA", "Focus", "Quantifier", "Relative", "Terms"} {
				f := v.FieldByName(name)
				if !f.IsValid() || name == "Terms" && v.Type().Name() != "Predication" {
					continue
				}
				if e.Kind == "drop" && (f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface || f.Kind() == reflect.Slice) && !f.IsNil() {
					f.Set(reflect.Zero(f.Type()))
					return
				}
				if e.Kind == "last" && name == "Terms" && f.Len() > 1 {
					f.Set(f.Slice(0, f.Len()-1))
					return
				}
			}
		}
	}
}

func checkC11(c any, r *pbt.Result) {
	ec := c.(*equalCase)
	a, err := ast.NewParser(string(ec.A)).Text()
	if err != nil || a == nil {
		r.Class("rejected")
		return
	}
	b, err := ast.NewParser(string(ec.B)).Text()
	if err != nil || b == nil {
		r.Class("rejected")
		return
	}
	r.Class("accepted, " + ec.Kind)
	for _, e := range ec.Edits {
		applyEdit(b, e)
	}
	as, bs := pick(allNodes(a), 50, ec.Skip), pick(allNodes(b), 50, ec.Skip)
	ad, bd := dumps(as), dumps(bs)
	eq := 0
	for i, n := range as {
		if !ast.Equal(n, n) {
			r.Fail("%T %s is not equal to itself", n, ad[i])
			return
		}
		for j, m := range bs {
			want := ad[i] == bd[j]
			if got := ast.Equal(n, m); got != want {
				r.Fail("Equal is %v, want %v for %T\n%s\nand %T\n%s", got, want, n, refpeg.Clip(ad[i]), m, refpeg.Clip(bd[j]))
				return
			}
			if got := ast.Equal(m, n); got != want {
				r.Fail("Equal is %v, want %v for %T\n%s\nand %T\n%s", got, want, m, refpeg.Clip(bd[j]), n, refpeg.Clip(ad[i]))
				return
			}
			if want {
				eq++
			}
		}
		if ast.Equal(n, nil) || ast.Equal(nil, n) {
			r.Fail("%T is equal to nil", n)
			return
		}
	}
	if !ast.Equal(nil, nil) {
		r.Fail("nil is not equal to nil")
	}
	for i, n := range as {
		if got := dumpNode(n); got != ad[i] {
			r.Fail("Equal changed its argument: %s", refpeg.DiffAt(got, ad[i]))
			return
		}
	}
	if want := ad[0] == bd[0]; want {
		r.Class("equal texts")
	} else {
		r.Class("different texts")
	}
	if nwords(refpeg.FromAST(a)) >= 3 {
		r.Key = fmt.Sprint(*ec)
	}
}

// pick returns the first node, and up to max others.
func pick(ns []ast.Node, max, skip int) []ast.Node {
	if len(ns) <= max {
		return ns
	}
	out := []ast.Node{ns[0]}
	for i := 0; i < max; i++ {
		out = append(out, ns[1+(skip+i)%(len(ns)-1)])
	}
	return out
}

func dumps(ns []ast.Node) []string {
	var ds []string
	for _, n := range ns {
		ds = append(ds, dumpNode(n))
	}
	return ds
}

func dumpNode(n ast.Node) string { return refpeg.FromAST(n).Dump(false) }

type bracesCase struct {
	Text Str `json:"text"`
	// Other are the same words, spaced otherwise.
	Other Str `json:"other"`
}

func genC12(s *pbt.Source) any {
	if s.Intn(40) == 39 {
		t := gen.Corpus[s.Intn(len(gen.Corpus))]
		return &bracesCase{Text: Str(t), Other: Str(t)}
	}
	g := gen.New(s, sized(s, gen.Default))
	st := style(s)
	ts := g.Tokens(g.Text(), st)
	var words []string
	for _, t := range ts {
		var w string
		for _, syl := range t.W {
			w += g.SpellSyl(syl, st)
		}
		words = append(words, w)
	}
	join := func() string {
		var b strings.Builder
		for i, w := range words {
			if i > 0 {
				b.WriteString(g.Space(st))
			}
			b.WriteString(w)
		}
		return b.String()
	}
	return &bracesCase{Text: Str(join()), Other: Str(join())}
}

// refBraces is the reference for ast.BracesString.
func refBraces(n *refpeg.Node) string {
	return showBraces(n, 0)
}

// shown returns the node with leading spaces skipped, or nil if nothing is shown.
func shown(n *refpeg.Node) *refpeg.Node {
	for n != nil && n.Kind == "Space" {
		n = n.M
	}
	return n
}

func showBraces(n *refpeg.Node, depth int) string {
	var kids []any
	if n = shown(n); n == nil {
		return ""
	}
	if n.IsWord() {
		kids = append(kids, n.T)
		if m := shown(n.M); m != nil {
			kids = append(kids, m)
		}
	} else {
		for _, k := range n.Ordered() {
			if k = shown(k); k != nil {
				kids = append(kids, k)
			}
		}
	}
	multi := len(kids) > 1
	next := depth
	if multi {
		next++
	}
	var parts []string
	for _, k := range kids {
		switch k := k.(type) {
		case string:
			parts = append(parts, k)
		case *refpeg.Node:
			parts = append(parts, showBraces(k, next))
		}
	}
	s := strings.Join(parts, " ")
	if multi {
		s = "({[<"[depth%4:depth%4+1] + s + ")}]>"[depth%4:depth%4+1]
	}
	return s
}

func checkC12(c any, r *pbt.Result) {
	bc := c.(*bracesCase)
	text := string(bc.Text)
	t, err := ast.NewParser(text).Text()
	if err != nil || t == nil {
		r.Class("rejected")
		return
	}
	r.Class("accepted")
	real := refpeg.FromAST(t)
	features(r, real)
	var before string
	for i, n := range allNodes(t) {
		if i > 80 && i%4 != 0 {
			continue
		}
		got, want := ast.BracesString(n), refBraces(refpeg.FromAST(n))
		if got != want {
			r.Fail("BracesString of %T is\n%s\nwant\n%s", n, got, want)
			return
		}
		if i == 0 {
			before = got
		}
	}
	if got := refpeg.FromAST(t).Dump(true); got != real.Dump(true) {
		r.Fail("BracesString changed the tree")
	}
	if other, err := ast.NewParser(string(bc.Other)).Text(); err == nil && other != nil {
		if dropSpaces(refpeg.FromAST(other)) == dropSpaces(real) {
			r.Class("spaced otherwise")
			if got := ast.BracesString(other); got != before {
				r.Fail("spaced otherwise, BracesString is\n%s\nwant\n%s", got, before)
			}
		}
	}
	if nwords(real) >= 3 {
		r.Key = text
	}
}

// dropSpaces returns a dump of the tree without spaces and offsets.
func dropSpaces(n *refpeg.Node) string {
	var strip func(n *refpeg.Node) *refpeg.Node
	strip = func(n *refpeg.Node) *refpeg.Node {
		if n = shown(n); n == nil {
			return nil
		}
		c := *n
		c.M = strip(n.M)
		c.Fields = nil
		for _, f := range n.Fields {
			c.Fields = append(c.Fields, refpeg.Field{Name: f.Name, Node: strip(f.Node)})
		}
		c.List = nil
		for _, k := range n.List {
			c.List = append(c.List, strip(k))
		}
		return &c
	}
	s := strip(n)
	if s == nil {
		return ""
	}
	return s.Dump(false)
}

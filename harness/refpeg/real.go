package refpeg

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/eaburns/toaq/ast"
)

// FromAST converts the AST of the implementation to a reference AST
// by reflection on its exported fields.
func FromAST(n ast.Node) *Node {
	if n == nil {
		return nil
	}
	return fromValue(reflect.ValueOf(n))
}

func fromValue(v reflect.Value) *Node {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	kind := v.Type().Name()
	switch {
	case v.Kind() == reflect.Slice:
		if kind == "Terms" && v.Len() == 0 {
			return nil
		}
		n := &Node{Kind: kind}
		for i := 0; i < v.Len(); i++ {
			n.List = append(n.List, fromValue(v.Index(i)))
		}
		return n
	case wordKinds[kind]:
		return &Node{
			Kind: kind,
			T:    v.FieldByName("T").String(),
			S:    int(v.FieldByName("S").Int()),
			E:    int(v.FieldByName("E").Int()),
			M:    fromValue(v.FieldByName("M")),
		}
	}
	names, ok := FieldNames[kind]
	if !ok {
		panic(fmt.Sprintf("unknown AST type %s", v.Type()))
	}
	n := &Node{Kind: kind}
	for _, name := range names {
		f := v.FieldByName(name)
		if !f.IsValid() {
			panic(fmt.Sprintf("no field %s in %s", name, v.Type()))
		}
		n.Fields = append(n.Fields, Field{name, fromValue(f)})
	}
	return n
}

// A Pair is an AST node of the implementation with its reference counterpart.
type Pair struct {
	Real ast.Node
	Ref  *Node
}

// Pairs returns all nodes of a real AST that implement ast.Node
// and that have their own place in the tree, with their reference counterparts,
// including the nodes that are words or lists.
func Pairs(n ast.Node) []Pair {
	var ps []Pair
	pairs(reflect.ValueOf(n), &ps)
	return ps
}

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

func pairs(v reflect.Value, ps *[]Pair) {
	for v.Kind() == reflect.Interface {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return
	}
	elem := v
	if v.Kind() == reflect.Ptr {
		elem = v.Elem()
	} else if v.Kind() == reflect.Struct && v.CanAddr() {
		v = v.Addr()
	} else if v.Kind() == reflect.Slice && v.CanAddr() && v.Type().Name() == "Discourse" {
		v = v.Addr()
	}
	if elem.Kind() == reflect.Slice && elem.Type().Name() == "Terms" {
		if elem.Len() == 0 {
			return
		}
		v = elem
	}
	if v.Type().Implements(nodeType) {
		r := v.Interface().(ast.Node)
		*ps = append(*ps, Pair{r, FromAST(r)})
	}
	switch elem.Kind() {
	case reflect.Slice:
		for i := 0; i < elem.Len(); i++ {
			pairs(elem.Index(i), ps)
		}
	case reflect.Struct:
		if wordKinds[elem.Type().Name()] {
			pairs(elem.FieldByName("M"), ps)
			return
		}
		for _, name := range FieldNames[elem.Type().Name()] {
			pairs(elem.FieldByName(name), ps)
		}
	}
}

// Clip shortens a string for messages.
func Clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

// DiffAt describes where two strings differ.
func DiffAt(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := i - 80
	if lo < 0 {
		lo = 0
	}
	end := func(s string) string {
		hi := i + 160
		if hi > len(s) {
			hi = len(s)
		}
		return strings.ToValidUTF8(s[lo:hi], "·")
	}
	return fmt.Sprintf("first difference at %d:\n got …%s\nwant …%s", i, end(got), end(want))
}

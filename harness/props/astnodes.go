package props

import (
	"fmt"
	"reflect"

	"github.com/eaburns/toaq/ast"

	"verif/refpeg"
)

// children returns the non-nil children of a real AST node, in textual order,
// as documented for ast.Visit: derived nodes have one child,
// which is the Word, CoP or LUPhrase that they are derived from.
func children(n ast.Node) []ast.Node {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Slice {
		return elems(v)
	}
	elem := v.Elem()
	kind := elem.Type().Name()
	switch {
	case elem.Kind() == reflect.Slice:
		return elems(elem)
	case kind == "WordPredicate" || kind == "Interjection" || kind == "Space":
		return []ast.Node{v.Convert(reflect.TypeOf((*ast.Word)(nil))).Interface().(ast.Node)}
	case kind == "Word":
		return appendNode(nil, elem.FieldByName("M"))
	case kind != "CoP" && (kind == "TermSet" || len(kind) > 3 && kind[:3] == "CoP"):
		return []ast.Node{v.Convert(reflect.TypeOf((*ast.CoP)(nil))).Interface().(ast.Node)}
	case kind == "LUPredicate" || kind == "LURelative" || kind == "LUContent":
		return []ast.Node{v.Convert(reflect.TypeOf((*ast.LUPhrase)(nil))).Interface().(ast.Node)}
	}
	names, ok := refpeg.FieldNames[kind]
	if !ok {
		harness("unknown AST type %s", elem.Type())
	}
	if kind == "CoP" && elem.FieldByName("TO0").IsNil() {
		names = []string{"Left", "RU", "Right"}
	}
	var ks []ast.Node
	for _, name := range names {
		ks = appendNode(ks, elem.FieldByName(name))
	}
	return ks
}

func elems(v reflect.Value) []ast.Node {
	var ks []ast.Node
	for i := 0; i < v.Len(); i++ {
		ks = appendNode(ks, v.Index(i))
	}
	return ks
}

func appendNode(ks []ast.Node, v reflect.Value) []ast.Node {
	for v.Kind() == reflect.Interface {
		if v.IsNil() {
			return ks
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return ks
		}
	case reflect.Slice:
		if v.Type().Name() == "Discourse" {
			v = v.Addr()
		} else if v.Len() == 0 {
			return ks
		}
	case reflect.Struct:
		v = v.Addr()
	}
	n, ok := v.Interface().(ast.Node)
	if !ok {
		harness("not an AST node: %s", v.Type())
	}
	return append(ks, n)
}

// allNodes returns all nodes, in the documented order of ast.Visit.
func allNodes(n ast.Node) []ast.Node {
	ns := []ast.Node{n}
	for _, k := range children(n) {
		ns = append(ns, allNodes(k)...)
	}
	return ns
}

// nodeID identifies a node by its type and place in memory.
func nodeID(n ast.Node) string {
	if n == nil {
		return "nil"
	}
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Slice {
		return fmt.Sprintf("%s@%x+%d", v.Type(), v.Pointer(), v.Len())
	}
	return fmt.Sprintf("%s@%x", v.Type(), v.Pointer())
}

// typedNil returns whether a node is a nil pointer or slice in an interface.
func typedNil(n ast.Node) bool {
	v := reflect.ValueOf(n)
	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice) && v.IsNil()
}

// Package ref holds the reference model: a plain ordered tree, and the oracles that are
// built on it. It shares no code with the library.
package ref

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
)

// T is a node of a plain ordered tree.
type T struct {
	V   interface{}
	Out []*T
}

func N(v interface{}, out ...*T) *T { return &T{v, out} }

func (t *T) Add(v interface{}) *T {
	n := &T{V: v}
	t.Out = append(t.Out, n)
	return n
}

const maxNodes = 20000000

// From copies a graph, that must be a tree.
func From(g *ogdl.Graph) *T {
	n := 0
	return from(g, &n, 0)
}

func from(g *ogdl.Graph, n *int, depth int) *T {
	if g == nil {
		return nil
	}
	*n++
	if *n > maxNodes || depth > 2000000 {
		panic("the graph is not a tree (cycle?)")
	}
	t := &T{V: g.This}
	if len(g.Out) > 0 {
		t.Out = make([]*T, len(g.Out))
		for i, o := range g.Out {
			t.Out[i] = from(o, n, depth+1)
		}
	}
	return t
}

// FromShared is like From, but nodes that are shared remain shared (also with those of
// other calls that use the same map).
func FromShared(g *ogdl.Graph, memo map[*ogdl.Graph]*T) *T {
	if g == nil {
		return nil
	}
	if t := memo[g]; t != nil {
		return t
	}
	t := &T{V: g.This}
	memo[g] = t
	for _, o := range g.Out {
		t.Out = append(t.Out, FromShared(o, memo))
	}
	return t
}

// Graph builds a graph, without using the methods of the library.
func (t *T) Graph() *ogdl.Graph {
	if t == nil {
		return nil
	}
	g := &ogdl.Graph{This: t.V}
	if len(t.Out) > 0 {
		g.Out = make([]*ogdl.Graph, len(t.Out))
		for i, o := range t.Out {
			g.Out[i] = o.Graph()
		}
	}
	return g
}

// GraphCap is Graph with room for more subnodes in the lists (as additions leave it).
func (t *T) GraphCap(room func() int) *ogdl.Graph {
	g := &ogdl.Graph{This: t.V}
	if n := room(); len(t.Out)+n > 0 {
		g.Out = make([]*ogdl.Graph, len(t.Out), len(t.Out)+n)
		for i, o := range t.Out {
			g.Out[i] = o.GraphCap(room)
		}
	}
	return g
}

func (t *T) Clone() *T {
	if t == nil {
		return nil
	}
	c := &T{V: t.V}
	for _, o := range t.Out {
		c.Out = append(c.Out, o.Clone())
	}
	return c
}

// Same compares contents: type and value.
func Same(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	}
	return reflect.DeepEqual(a, b)
}

// SameText compares contents by their text or bytes.
func SameText(a, b interface{}) bool { return Str(a) == Str(b) }

// Str is the text of a content.
func Str(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case []byte:
		return string(x)
	}
	return fmt.Sprint(v)
}

// Diff describes the first difference of two trees (a: expected, b: found); the contents
// of the roots are compared too. It is empty if there is none.
func Diff(a, b *T, same func(a, b interface{}) bool) string {
	return diff(a, b, same, "")
}

// DiffOut is Diff without the contents of the roots.
func DiffOut(a, b *T, same func(a, b interface{}) bool) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("expected nil=%v, got nil=%v", a == nil, b == nil)
	}
	if a == nil {
		return ""
	}
	return diff(&T{Out: a.Out}, &T{Out: b.Out}, same, "")
}

func diff(a, b *T, same func(a, b interface{}) bool, path string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("at %s: expected %s, got %s", path, Short(a), Short(b))
	}
	if !same(a.V, b.V) {
		return fmt.Sprintf("at %s: expected content %s, got %s", path, Show(a.V), Show(b.V))
	}
	for i := range a.Out {
		if i >= len(b.Out) {
			return fmt.Sprintf("at %s (%s): expected %d subnodes, got %d; missing %s", path, Show(a.V), len(a.Out), len(b.Out), Short(a.Out[i]))
		}
		p := path
		if len(p) < 200 {
			p += "/" + strconv.Itoa(i)
		}
		if d := diff(a.Out[i], b.Out[i], same, p); d != "" {
			return d
		}
	}
	if len(b.Out) > len(a.Out) {
		return fmt.Sprintf("at %s (%s): expected %d subnodes, got %d; extra %s", path, Show(a.V), len(a.Out), len(b.Out), Short(b.Out[len(a.Out)]))
	}
	return ""
}

func Show(v interface{}) string {
	s := fmt.Sprintf("%T(%q)", v, Str(v))
	if len(s) > 300 {
		s = s[:200] + fmt.Sprintf("...(%d)", len(Str(v))) + s[len(s)-60:]
	}
	return s
}

func Short(t *T) string {
	s := t.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// String is a one line form of a tree: content(sub sub ...)
func (t *T) String() string {
	var b strings.Builder
	t.str(&b)
	return b.String()
}

func (t *T) str(b *strings.Builder) {
	if t == nil {
		b.WriteString("nil")
		return
	}
	if b.Len() > 1<<20 {
		return
	}
	switch v := t.V.(type) {
	case string:
		b.WriteString(strconv.Quote(v))
	case nil:
		b.WriteString("<nil>")
	default:
		fmt.Fprintf(b, "%T:%q", v, Str(v))
	}
	if len(t.Out) > 0 {
		b.WriteByte('(')
		for i, o := range t.Out {
			if i > 0 {
				b.WriteByte(' ')
			}
			o.str(b)
		}
		b.WriteByte(')')
	}
}

// Size counts nodes.
func (t *T) Size() int {
	if t == nil {
		return 0
	}
	n := 1
	for _, o := range t.Out {
		n += o.Size()
	}
	return n
}

// Depth is 0 for a leaf.
func (t *T) Depth() int {
	d := 0
	for _, o := range t.Out {
		if n := o.Depth() + 1; n > d {
			d = n
		}
	}
	return d
}

// Walk visits all nodes, depth first.
func (t *T) Walk(f func(*T)) {
	if t == nil {
		return
	}
	f(t)
	for _, o := range t.Out {
		o.Walk(f)
	}
}

// Skip returns a copy without the nodes of empty content: their subnodes take their place.
// The root is kept.
func (t *T) Skip() *T {
	c := &T{V: t.V}
	for _, o := range t.Out {
		s := o.Skip()
		if Str(o.V) == "" {
			c.Out = append(c.Out, s.Out...)
		} else {
			c.Out = append(c.Out, s)
		}
	}
	return c
}

// Node is the first subnode with the given text.
func (t *T) Node(s string) *T {
	if t == nil {
		return nil
	}
	for _, o := range t.Out {
		if Str(o.V) == s {
			return o
		}
	}
	return nil
}

package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P11",
		Rule:  "random sequences of editing operations on a pool of graphs (which may come to share subnodes) and on reference trees; all graphs are compared after every operation. Distinct by sequence.",
		Quick: 500000, Thoro: 800000, Case: p11,
		Must: []string{"Add", "Add graph", "AddNodes", "Delete", "DeleteAt", "Clear", "Create", "NodeOrNew", "NodeSet", "Copy", "Clone", "Substitute", "Merge", "DeleteAt out of range", "Selection", "lists of more than 100"},
	})
	core.Register(&core.Prop{
		ID:    "P12",
		Rule:  "random trees: clones and copies (also from and to nodes of one graph) compared with the original and checked for shared nodes, then one side is changed and the other compared with a snapshot; pairs of trees that are equal or differ in one place compared with Equals both ways. Distinct by tree and change.",
		Quick: 1000000, Thoro: 1000000, Case: p12,
		Must:   []string{"clones", "copies", "changes", "equal", "different content", "different type", "different shape", "nil", "empty and nil lists", "copies within a graph", "additions to a copy", "lists of different length"},
		Assume: []string{"content is of scalar types or []byte, without NaN; contents themselves are not changed in place"},
	})
}

func scalarVal(c *C) interface{} {
	switch c.Intn(14) {
	case 0:
		return int64(c.Range(-3, 3))
	case 1:
		return c.Range(-3, 3)
	case 2:
		return float64(c.Range(-6, 6)) / 2
	case 3:
		return c.P(50)
	case 4:
		return []byte(c.Str("a", "b", "\x00", "0"))
	case 5:
		return noCtlBytes(c.DictStr(), "\n") + "x"
	case 6:
		return text(c, true) + "x"
	}
	return c.Str("a", "b", "c", "d", "0", "1", "true", "é", "a b")
}

// at is the node of a graph at a position.
func at(g *ogdl.Graph, pos []int) *ogdl.Graph {
	for _, i := range pos {
		g = g.Out[i]
	}
	return g
}

// pick chooses a node of a tree and tells its position.
func pickNode(c *C, t *T) (*T, []int) {
	var pos []int
	for len(t.Out) > 0 && c.P(55) {
		i := c.Intn(len(t.Out))
		pos = append(pos, i)
		t = t.Out[i]
	}
	return t, pos
}

func reach(from *T, n *T) bool {
	if from == n {
		return true
	}
	for _, o := range from.Out {
		if reach(o, n) {
			return true
		}
	}
	return false
}

// mergeRef replaces the content of the nodes that exist, and appends those that do not.
func mergeRef(t, src *T) {
	for _, n := range src.Out {
		if x := t.Node(ref.Str(n.V)); x != nil {
			x.Out = append([]*T(nil), n.Out...)
		} else {
			t.Out = append(t.Out, n)
		}
	}
}

func substRef(t *T, s string, v interface{}) {
	for _, n := range t.Out {
		if ref.Str(n.V) == s {
			n.V = v
		}
		substRef(n, s, v)
	}
}

// distinctTree is a tree whose sibling names are distinct.
func distinctTree(c *C, n int) *T {
	root := &T{V: "_"}
	all := []*T{root}
	for i := 0; i < n; i++ {
		p := all[c.Intn(len(all))]
		v := scalarVal(c)
		if p.Node(ref.Str(v)) == nil {
			all = append(all, p.Add(v))
		}
	}
	return root
}

func p11(c *C) {
	var roots []*T
	var graphs []*ogdl.Graph
	room := func() int { return []int{0, 0, 0, 1, 3}[c.Intn(5)] }
	for i := c.Range(1, 3); i > 0; i-- {
		size := c.Size(12)
		wide := c.One(30)
		if wide {
			size = c.Num(250)
		}
		t := shape(c, size, func(int) interface{} { return scalarVal(c) })
		if wide {
			// most of them in one list
			for len(t.Out) < size {
				t.Add(scalarVal(c))
			}
			if len(t.Out) > 100 {
				c.Ev("lists of more than 100")
			}
		}
		roots = append(roots, t)
		graphs = append(graphs, t.GraphCap(room))
	}
	var hist []string
	c.Info = func() string {
		s := strings.Join(hist, "\n")
		for i, r := range roots {
			s += fmt.Sprintf("\nexpected %d: %s", i, ref.Short(r))
		}
		return s
	}
	for i, r := range roots {
		hist = append(hist, fmt.Sprintf("%d: %s", i, r))
	}
	note := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
	last := func() string { return hist[len(hist)-1] }

	for k := c.Range(1, 30); k > 0; k-- {
		ri := c.Intn(len(roots))
		n, pos := pickNode(c, roots[ri])
		g := at(graphs[ri], pos)
		where := fmt.Sprint(ri, pos)
		big := 0
		for _, r := range roots {
			big += r.Size()
		}
		name := func() string {
			if len(n.Out) > 0 && c.P(65) {
				return ref.Str(n.Out[c.Intn(len(n.Out))].V)
			}
			return c.Str("a", "b", "new", "0")
		}
		var ret *ogdl.Graph // what must have been returned, with its position below n
		rpos := -1
		op := c.Intn(14)
		if big > 400 && (op == 1 || op == 2 || op == 9 || op == 10) {
			op = 3
		}
		switch op {
		case 0:
			v := scalarVal(c)
			note("%s Add(%s)", where, ref.Show(v))
			ret = g.Add(v)
			n.Add(v)
			rpos = len(n.Out) - 1
			c.Ev("Add")
		case 1:
			sub := shape(c, c.Size(5), func(int) interface{} { return scalarVal(c) })
			sub.V = scalarVal(c)
			sg := sub.GraphCap(room)
			note("%s Add(graph %s)", where, sub)
			ret = g.Add(sg)
			if ret != sg {
				c.Fail("%s does not return the graph added", last())
			}
			n.Out = append(n.Out, sub)
			rpos = len(n.Out) - 1
			c.Ev("Add graph")
		case 2:
			// the source may be another graph, that is used afterwards
			sub := shape(c, c.Size(5), func(int) interface{} { return scalarVal(c) })
			sg := sub.GraphCap(room)
			src := "new"
			if c.P(60) {
				j := c.Intn(len(roots))
				m, p2 := pickNode(c, roots[j])
				loop := false
				for _, o := range m.Out {
					loop = loop || reach(o, n)
				}
				if !loop {
					sub, sg = m, at(graphs[j], p2)
					src = fmt.Sprint(j, p2)
				}
			} else if c.P(50) && len(roots) < 6 {
				roots, graphs = append(roots, sub), append(graphs, sg)
			}
			note("%s AddNodes(%s %s)", where, src, sub)
			g.AddNodes(sg)
			n.Out = append(append([]*T(nil), n.Out...), sub.Out...)
			c.Ev("AddNodes")
		case 3:
			v := scalarVal(c)
			if len(n.Out) > 0 && c.P(80) {
				v = n.Out[c.Intn(len(n.Out))].V
			}
			note("%s Delete(%s)", where, ref.Show(v))
			g.Delete(v)
			var out []*T
			for _, o := range n.Out {
				if !ref.Same(o.V, v) {
					out = append(out, o)
				}
			}
			n.Out = out
			c.Ev("Delete")
		case 4:
			i := c.Range(-1, len(n.Out))
			note("%s DeleteAt(%d)", where, i)
			g.DeleteAt(i)
			if i >= 0 && i < len(n.Out) {
				n.Out = append(append([]*T(nil), n.Out[:i]...), n.Out[i+1:]...)
				c.Ev("DeleteAt")
			} else {
				c.Ev("DeleteAt out of range")
			}
		case 5:
			if !c.One(3) {
				continue
			}
			note("%s Clear()", where)
			g.Clear()
			n.Out = nil
			c.Ev("Clear")
		case 6:
			s := name()
			note("%s Create(%q)", where, s)
			ret = g.Create(s)
			m := n.Node(s)
			if m == nil {
				m = n.Add(s)
			}
			m.Out = nil
			rpos = index(n, m)
			c.Ev("Create")
		case 7:
			s := name()
			note("%s NodeOrNew(%q)", where, s)
			ret = g.NodeOrNew(s)
			m := n.Node(s)
			if m == nil {
				m = n.Add(s)
			}
			rpos = index(n, m)
			c.Ev("NodeOrNew")
		case 8:
			s, v := name(), scalarVal(c)
			note("%s NodeSet(%q, %s)", where, s, ref.Show(v))
			g.NodeSet(s, v)
			m := n.Node(s)
			if m == nil {
				m = n.Add(s)
			}
			m.Out = []*T{{V: v}}
			c.Ev("NodeSet")
		case 9:
			j := c.Intn(len(roots))
			m, p2 := pickNode(c, roots[j])
			if reach(m, n) {
				continue // a copy of itself into itself
			}
			note("%s Copy(%d %v)", where, j, p2)
			g.Copy(at(graphs[j], p2))
			n.Out = append(append([]*T(nil), n.Out...), m.Clone().Out...)
			c.Ev("Copy")
		case 10:
			if len(roots) >= 6 {
				continue
			}
			note("clone of %s", where)
			cl := g.Clone()
			roots, graphs = append(roots, n.Clone()), append(graphs, cl)
			c.Ev("Clone")
		case 11:
			s, v := c.Str("a", "b", "0"), scalarVal(c)
			if len(n.Out) > 0 {
				m, _ := pickNode(c, n)
				if m != n {
					s = ref.Str(m.V)
				}
			}
			note("%s Substitute(%q, %s)", where, s, ref.Show(v))
			g.Substitute(s, v)
			substRef(n, s, v)
			c.Ev("Substitute")
		case 12:
			// the subnodes that a selector finds, in a list of their own
			var names []string
			for _, o := range n.Out {
				if s := ref.Str(o.V); ref.IsToken(s, isTok) && asciiLetter(s[0]) {
					names = append(names, s)
				}
			}
			if len(roots) >= 6 || len(names) == 0 {
				continue
			}
			s := names[c.Intn(len(names))]
			note("%s Get(%s{}) is graph %d", where, s, len(roots))
			r := ref.Walk(n, []ref.Step{{Kind: 'n', Name: s}, {Kind: '{', N: -1}})
			got := g.Get(s + "{}")
			if r.Node == nil || got == nil {
				c.Fail("%s: nothing found", last())
			}
			sel := &T{V: got.This, Out: append([]*T(nil), r.Node.Out...)}
			roots, graphs = append(roots, sel), append(graphs, got)
			c.Ev("Selection")
		default:
			src := distinctTree(c, c.Size(8))
			if len(n.Out) > 0 && c.P(70) {
				// with something that exists
				v := n.Out[c.Intn(len(n.Out))].V
				if src.Node(ref.Str(v)) == nil {
					x := src.Add(v)
					x.Out = distinctTree(c, c.Intn(4)).Out
				}
			}
			note("%s Merge(%s)", where, src)
			g.Merge(src.Graph())
			mergeRef(n, src)
			c.Ev("Merge")
		}
		for i := range roots {
			if d := ref.Diff(roots[i], ref.From(graphs[i]), ref.Same); d != "" {
				c.Fail("graph %d after %s: %s", i, last(), d)
			}
		}
		if rpos >= 0 && ret != g.Out[rpos] {
			c.Fail("%s does not return the node at position %d", last(), rpos)
		}
		if g.Len() != len(n.Out) {
			c.Fail("Len is %d instead of %d", g.Len(), len(n.Out))
		}
		if i := c.Range(-1, len(n.Out)); i >= 0 && i < len(n.Out) {
			if g.GetAt(i) != g.Out[i] {
				c.Fail("GetAt(%d) gives another node", i)
			}
		} else if g.GetAt(i) != nil {
			c.Fail("GetAt(%d) of %d subnodes is not nil", i, len(n.Out))
		}
	}
	c.SeenStr(strings.Join(hist, ";"))
}

func index(n, m *T) int {
	for i, o := range n.Out {
		if o == m {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------------------

func nodeSet(g *ogdl.Graph, m map[*ogdl.Graph]bool) {
	if g == nil || m[g] {
		return
	}
	m[g] = true
	for _, o := range g.Out {
		nodeSet(o, m)
	}
}

// mutate makes random changes, with the methods of the library and without.
func mutate(c *C, g *ogdl.Graph) {
	for k := c.Range(1, 6); k > 0; k-- {
		n := g
		for len(n.Out) > 0 && c.P(60) {
			n = n.Out[c.Intn(len(n.Out))]
		}
		switch c.Intn(9) {
		case 0:
			n.Add("changed")
		case 1:
			n.This = "changed"
		case 2:
			n.DeleteAt(0)
		case 3:
			n.Clear()
		case 4:
			if len(n.Out) > 0 {
				n.Out[0] = &ogdl.Graph{This: "changed"}
			}
		case 5:
			g.Substitute("a", "changed")
		case 6:
			n.Set("a.b", "changed")
		case 7:
			if len(n.Out) > 0 {
				n.Delete(n.Out[0].This)
			}
		default:
			// reorder
			for i, j := 0, len(n.Out)-1; i < j; i, j = i+1, j-1 {
				n.Out[i], n.Out[j] = n.Out[j], n.Out[i]
			}
		}
	}
}

// eqLong compares long lists with shorter ones.
func eqLong(c *C) {
	k := []int{1, 2, 128, 255, 256, 512, 4096, 32768, 65535, 65536, 65537, 131072}[c.Intn(12)]
	n := c.Intn(3)
	if c.P(30) {
		n = c.Range(3, 70000)
	}
	v := scalarVal(c)
	for k2 := 0; v == nil && k2 < 50; k2++ {
		v = scalarVal(c)
	}
	if v == nil {
		v = "x"
	}
	c.Info = func() string { return fmt.Sprintf("lists of %d and %d nodes %v", n, n+k, v) }
	g, h := ogdl.New("_"), ogdl.New("_")
	for i := 0; i < n+k; i++ {
		g.Add(v)
		if i < n {
			h.Add(v)
		}
	}
	if g.Equals(h) || h.Equals(g) {
		c.Fail("they are equal")
	}
	cp := g.Clone()
	if cp.Len() != n+k || !cp.Equals(g) {
		c.Fail("the clone of the longer one differs, or has %d nodes", cp.Len())
	}
	h.Copy(g)
	if h.Len() != 2*n+k {
		c.Fail("after copying the longer one to the other it has %d nodes", h.Len())
	}
	c.Ev("lists of different length")
	c.SeenStr(fmt.Sprint("eqlong", n, k))
}

func p12(c *C) {
	if c.One(10000) {
		eqLong(c)
		return
	}
	val := pool(c, 20, func() interface{} {
		if c.One(12) {
			return nil
		}
		if c.One(15) {
			return ""
		}
		return scalarVal(c)
	})
	n := c.Size(30)
	if c.One(40) {
		n = c.Num(2000)
	}
	t := shape(c, n, func(int) interface{} { return val() })
	t.V = val()
	if c.One(40) {
		x := t
		for i := c.Num(3000); i > 0; i-- {
			x = x.Add("deep")
		}
	}
	g := t.GraphCap(func() int { return []int{0, 0, 0, 1, 3}[c.Intn(5)] })
	what := ""
	c.Info = func() string { return what + "\ntree " + t.String() }

	if c.One(12) && n < 100 {
		// a copy of a graph to a part of it, or the other way
		nodes := []*T{}
		t.Walk(func(x *T) {
			if len(nodes) < 200 {
				nodes = append(nodes, x)
			}
		})
		g := t.Graph()
		for k := 0; k < 3; k++ {
			i, j := c.Intn(len(nodes)), c.Intn(len(nodes))
			if c.P(50) {
				j = 0
			}
			if c.One(4) {
				j = i
			}
			to, from := nodes[i], nodes[j]
			find := func(x *T) *ogdl.Graph {
				var r *ogdl.Graph
				var f func(t *T, g *ogdl.Graph)
				f = func(t *T, g *ogdl.Graph) {
					if t == x {
						r = g
					}
					for i, o := range t.Out {
						f(o, g.Out[i])
					}
				}
				f(t, g)
				return r
			}
			what = fmt.Sprintf("Copy, in a graph, from %s to %s", from, to)
			if t.Size() > 5000 {
				break
			}
			find(to).Copy(find(from))
			to.Out = append(to.Out, from.Clone().Out...)
			if d := ref.Diff(t, ref.From(g), ref.Same); d != "" {
				c.Fail("the result differs: %s", d)
			}
			set := map[*ogdl.Graph]bool{}
			nodeSet(g, set)
			if len(set) != t.Size() {
				c.Fail("%d different nodes instead of %d", len(set), t.Size())
			}
			c.Ev("copies within a graph")
		}
		c.SeenStr(t.String() + what)
		return
	}
	if c.P(50) {
		// clones and copies
		for k := 0; k < 2; k++ {
			var cp *ogdl.Graph
			if c.P(50) {
				what = "Clone"
				cp = g.Clone()
				if d := ref.Diff(t, ref.From(cp), ref.Same); d != "" {
					c.Fail("the clone differs: %s", d)
				}
				if !cp.Equals(g) || !g.Equals(cp) {
					c.Fail("a clone is not equal to the original")
				}
				c.Ev("clones")
			} else {
				what = "Copy"
				cp = &ogdl.Graph{This: g.This}
				if c.P(30) {
					cp.Out = []*ogdl.Graph{}
				}
				cp.Copy(g)
				if d := ref.Diff(t, ref.From(cp), ref.Same); d != "" {
					c.Fail("the copy differs: %s", d)
				}
				if !cp.Equals(g) || !g.Equals(cp) {
					c.Fail("a copy is not equal to the original")
				}
				c.Ev("copies")
			}
			a, b := map[*ogdl.Graph]bool{}, map[*ogdl.Graph]bool{}
			nodeSet(g, a)
			nodeSet(cp, b)
			for x := range b {
				if a[x] {
					c.Fail("%s: a node is shared with the original: %s", what, ref.Short(ref.From(x)))
				}
			}
			if c.One(3) {
				// additions to the copy reach only the node they are made to
				t2 := t.Clone()
				for k := c.Range(1, 5); k > 0; k-- {
					x, y := t2, cp
					for len(x.Out) > 0 && c.P(75) {
						i := c.Intn(len(x.Out))
						x, y = x.Out[i], y.Out[i]
					}
					x.Add("added")
					y.Add("added")
				}
				if d := ref.Diff(t2, ref.From(cp), ref.Same); d != "" {
					c.Fail("%s: nodes added to it reach other places: %s", what, d)
				}
				if d := ref.Diff(t, ref.From(g), ref.Same); d != "" {
					c.Fail("%s: nodes added to the copy change the original: %s", what, d)
				}
				c.Ev("additions to a copy")
			} else if c.P(50) {
				mutate(c, cp)
				if d := ref.Diff(t, ref.From(g), ref.Same); d != "" {
					c.Fail("%s: a change of the copy changes the original: %s", what, d)
				}
			} else {
				g2 := t.Graph()
				mutate(c, g)
				if d := ref.Diff(t, ref.From(cp), ref.Same); d != "" {
					c.Fail("%s: a change of the original changes the copy: %s", what, d)
				}
				g = g2
			}
			c.Ev("changes")
		}
		c.SeenStr(t.String())
		return
	}

	// equality
	o := t.Clone()
	all := []*T{}
	o.Walk(func(x *T) { all = append(all, x) })
	x := all[c.Intn(len(all))]
	ev := ""
	switch c.Intn(8) {
	case 0, 1:
		ev = "equal"
	case 2:
		x.V = scalarVal(c)
		ev = "different content"
	case 3:
		// same text, other type
		switch v := x.V.(type) {
		case string:
			x.V = []byte(v)
		case []byte:
			x.V = string(v)
		case int:
			x.V = int64(v)
		case int64:
			x.V = float64(v)
		case nil:
			x.V = ""
		default:
			x.V = ref.Str(v)
		}
		ev = "different type"
	case 4:
		if len(x.Out) > 0 && c.P(50) {
			x.Out = x.Out[:len(x.Out)-1]
		} else {
			x.Add(val())
		}
		ev = "different shape"
	case 5:
		if len(x.Out) > 1 {
			i := c.Intn(len(x.Out) - 1)
			x.Out[i], x.Out[i+1] = x.Out[i+1], x.Out[i]
		}
		ev = "different shape"
	case 6:
		// a subnode moves one level down
		if len(x.Out) > 1 {
			i := c.Range(1, len(x.Out)-1)
			m := x.Out[i]
			x.Out = append(append([]*T(nil), x.Out[:i]...), x.Out[i+1:]...)
			x.Out[i-1].Out = append(append([]*T(nil), x.Out[i-1].Out...), m)
		}
		ev = "different shape"
	default:
		ev = "nil"
		var null *ogdl.Graph
		if g.Equals(nil) || null.Equals(g) || !null.Equals(nil) {
			c.Fail("Equals with nil: graph and nil %v, nil and graph %v, nil and nil %v", g.Equals(nil), null.Equals(g), null.Equals(nil))
		}
	}
	og := o.Graph()
	if c.P(40) {
		// no subnodes: nil or empty list
		c.Ev("empty and nil lists")
		m := map[*ogdl.Graph]bool{}
		nodeSet(og, m)
		for x := range m {
			if len(x.Out) == 0 {
				x.Out = []*ogdl.Graph{}
			} else {
				x.Out = append(make([]*ogdl.Graph, 0, len(x.Out)+3), x.Out...)
			}
		}
	}
	want := equalTrees(t, o)
	what = ev + " " + o.String()
	if g.Equals(og) != want || og.Equals(g) != want {
		c.Fail("Equals gives %v and %v, but should be %v", g.Equals(og), og.Equals(g), want)
	}
	if !g.Equals(g) || !og.Equals(og) {
		c.Fail("a graph is not equal to itself")
	}
	c.Ev(ev)
	c.SeenStr(t.String() + o.String())
}

func equalTrees(a, b *T) bool {
	if !reflect.DeepEqual(a.V, b.V) || len(a.Out) != len(b.Out) {
		return false
	}
	for i := range a.Out {
		if !equalTrees(a.Out[i], b.Out[i]) {
			return false
		}
	}
	return true
}

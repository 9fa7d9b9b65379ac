package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P09",
		Rule:  "random trees with few distinct names; paths made of existing elements and of missing ones, in random notation; the result is compared with a step-by-step walk, node identity included. Non-trivial: at least 2 elements; distinct by path and tree.",
		Quick: 200000, Thoro: 1500000, Case: p09,
		Must: []string{"found", "nothing", "names", "quoted names", "indexes", "selectors", "empty selectors", "all of a name", "selector with nothing", "chained", "expressions", "many elements", "computed indexes", "nodes without a name"},
	})
	core.Register(&core.Prop{
		ID:    "P10",
		Rule:  "random sequences of Set and of assignments (also compound, also in templates) on random trees, with existing and missing paths; after each, the whole graph is compared with a reference tree on which the same was done. Distinct by sequence.",
		Quick: 200000, Thoro: 800000, Case: p10,
		Must: []string{"set", "assigned", "assigned in template", "compound", "compound on nothing", "graph stored", "graph stored again", "extended", "created", "computed indexes"},
	})
}

// treeNames gives the names of a tree for lookups.
func treeNames(c *C) func() interface{} {
	return pool(c, c.Range(2, 12), func() interface{} {
		for {
			var s string
			switch c.Intn(8) {
			case 0, 1, 2:
				s = c.Str("a", "b", "c", "ab", "a1", "é", "x_y")
			case 3:
				s = ident(c)
			case 4:
				s = strconv.Itoa(c.Intn(12))
			case 5:
				s = noCtlBytes(c.DictStr(), "\n\t")
			case 6:
				s = noCtlBytes(text(c, false), "\t\n")
			default:
				switch c.Intn(5) {
				case 0:
					return int64(c.Range(-3, 20))
				case 1:
					return c.Range(0, 20)
				case 2:
					return float64(c.Range(-10, 10)) / 4
				case 3:
					return c.P(50)
				}
				return []byte(c.Str("a", "b", "bytes", "0"))
			}
			if s == "" || s[0] == '!' || s[0] == '_' || len(s) > 5000 {
				continue
			}
			return s
		}
	})
}

// randPath walks a tree at random; at times what it asks for does not exist. Selectors only
// come directly after a name.
func randPath(c *C, t *T, maxLen int, sel bool) []ref.Step {
	var steps []ref.Step
	n := c.Range(1, maxLen)
	for len(steps) < n {
		r := ref.Walk(t, steps)
		cur := r.Node
		if len(steps) == 0 {
			cur = t
		} else if r.Wrapped {
			cur = cur.Out[0]
		}
		if cur == nil {
			if c.P(60) {
				break
			}
			cur = t // some more, that exists elsewhere
		}
		lastName := len(steps) > 0 && steps[len(steps)-1].Kind == 'n'
		switch k := c.Intn(12); {
		case k < 3 && sel && lastName:
			name := steps[len(steps)-1].Name
			parent := t
			if len(steps) > 1 {
				pr := ref.Walk(t, steps[:len(steps)-1])
				parent = pr.Node
				if pr.Wrapped {
					parent = parent.Out[0]
				}
			}
			cnt := 0
			if parent != nil {
				for _, o := range parent.Out {
					if ref.Str(o.V) == name {
						cnt++
					}
				}
			}
			i := -1
			if c.P(75) {
				i = c.Intn(cnt + 1)
				if c.One(15) {
					i = c.Num(100000)
					if c.P(50) {
						i = 1<<uint(c.Range(7, 62)) + c.Intn(cnt+1)
					}
				}
			}
			steps = append(steps, ref.Step{Kind: '{', N: i})
		case k < 6:
			i := c.Intn(len(cur.Out) + 1)
			if c.One(25) {
				i = c.Num(1 << 40)
				if c.P(50) {
					// one that is an index if some bits are lost
					i = 1<<uint(c.Range(7, 62)) + c.Intn(len(cur.Out)+1)
				}
			} else if len(cur.Out) > 0 && c.P(70) {
				i = c.Intn(len(cur.Out))
			}
			steps = append(steps, ref.Step{Kind: '[', N: i})
		default:
			name := "a"
			if len(cur.Out) > 0 && c.P(92) {
				name = ref.Str(cur.Out[c.Intn(len(cur.Out))].V)
			} else if c.P(50) {
				name = "missing"
			}
			if name == "" || name[0] == '!' || name[0] == '_' || noCtlBytes(name, "\n\t") != name {
				name = "b"
			}
			steps = append(steps, ref.Step{Kind: 'n', Name: name})
		}
	}
	return steps
}

// ladder adds a long chain of nodes to a tree, and returns the path to its end.
func ladder(c *C, t *T) []ref.Step {
	var st []ref.Step
	n := t
	names := c.P(30)
	for k := c.Num(1200) + 8; k > 0; k-- {
		nm := c.Str("a", "b", "c", "step", "é", "two words", "7")
		m := n.Node(nm)
		if m == nil {
			if c.One(4) {
				n.Add("other").Add(k)
			}
			m = n.Add(nm)
		}
		if names || c.P(70) {
			st = append(st, ref.Step{Kind: 'n', Name: nm})
		} else {
			for i, o := range n.Out {
				if o == m {
					st = append(st, ref.Step{Kind: '[', N: i})
				}
			}
		}
		n = m
	}
	n.Add("end")
	return st
}

// indexVars adds integers to a tree, that can be used as indexes, and others with the same
// names elsewhere in it.
func indexVars(c *C, t *T) {
	var all []*T
	t.Walk(func(n *T) {
		if n != t {
			all = append(all, n)
		}
	})
	for i := 0; i < 3; i++ {
		nm := "ix" + strconv.Itoa(i)
		t.Add(nm).Add([]interface{}{int64(c.Intn(4)), c.Intn(4), uint8(c.Intn(4))}[c.Intn(3)])
		for _, n := range all {
			if c.One(4) {
				n.Add(nm).Add(int64(c.Intn(4)))
			}
		}
	}
}

// oddNodes adds nodes to a tree that no name stands for.
func oddNodes(c *C, t *T) {
	t.Walk(func(n *T) {
		if !c.One(3) {
			return
		}
		m := &T{V: []interface{}{"", "_", nil, "!p", "!a", "!i", "!string", "[", "{", "_len", []byte{}, "-", "\x00", " "}[c.Intn(14)]}
		if c.One(3) {
			m.Add(c.Str("a", "", "x"))
		}
		if c.P(50) {
			n.Out = append(n.Out, m)
		} else {
			i := c.Intn(len(n.Out) + 1)
			n.Out = append(n.Out[:i:i], append([]*T{m}, n.Out[i:]...)...)
		}
	})
	c.Ev("nodes without a name")
}

// indexExprs writes some of the numbers in a path as expressions with the variables of
// indexVars.
func indexExprs(c *C, t *T, st []ref.Step) []ref.Step {
	st = append([]ref.Step{}, st...)
	if s := st[0]; strings.HasPrefix(s.Name, "ix") || s.Kind == '[' && s.N < len(t.Out) && strings.HasPrefix(ref.Str(t.Out[s.N].V), "ix") {
		return st // setting it may change the variable
	}
	for i, s := range st {
		if s.Kind == 'n' || s.N < 0 || s.N > 1<<30 || c.P(40) {
			continue
		}
		nm := "ix" + strconv.Itoa(c.Intn(3))
		n := t.Node(nm)
		if n == nil || len(n.Out) != 1 || len(n.Out[0].Out) != 0 {
			continue
		}
		v, ok := canon(n.Out[0].V).(int64)
		if !ok {
			continue
		}
		switch d := s.N - int(v); {
		case d < 0:
			st[i].Expr = nm + c.Str("-", " - ") + strconv.Itoa(-d)
		case d > 0:
			st[i].Expr = c.Str(nm+"+"+strconv.Itoa(d), strconv.Itoa(d)+" + "+nm)
		default:
			st[i].Expr = c.Str(nm, nm, "("+nm+")", nm+"[0]")
		}
		c.Ev("computed indexes")
	}
	return st
}

// mapNodes pairs the nodes of two equal trees.
func mapNodes(t *T, g *ogdl.Graph, m map[*T]*ogdl.Graph) {
	m[t] = g
	for i, o := range t.Out {
		mapNodes(o, g.Out[i], m)
	}
}

func onlyNames(st []ref.Step) bool {
	for _, s := range st {
		if s.Kind != 'n' {
			return false
		}
	}
	return true
}

func p09(c *C) {
	voc := treeNames(c)
	n := c.Size(40)
	if c.One(20) {
		n = c.Num(1500)
	}
	t := shape(c, n, func(int) interface{} { return voc() })
	if c.P(40) {
		// many of the same name
		h := t.Add("a")
		i := c.Range(1, 30)
		if c.One(60) {
			i = c.Num(1000)
		}
		nm := voc
		if c.One(5) {
			// or all of them
			same := voc()
			nm = func() interface{} { return same }
		}
		for ; i > 0; i-- {
			h.Add(nm()).Add(voc())
		}
	}
	var long []ref.Step
	if c.One(100) {
		// many elements
		long = ladder(c, t)
		c.Ev("many elements")
	}
	if c.P(25) {
		oddNodes(c, t)
	}
	if c.P(30) {
		indexVars(c, t)
	}
	g := t.Graph()
	nodes := map[*T]*ogdl.Graph{}
	mapNodes(t, g, nodes)
	path := ""
	c.Info = func() string { return "path " + path + "\ntree " + t.String() }
	hash := core.HashStr(t.String())

	for k := 0; k < 6; k++ {
		st := randPath(c, t, 5, true)
		if k < 3 && long != nil {
			st = long[:len(long)-k*c.Intn(len(long))/3]
			if c.One(3) {
				st = append(append([]ref.Step{}, st...), ref.Step{Kind: 'n', Name: "missing"})
			}
		}
		st = indexExprs(c, t, st)
		path = writePath(c, st, false)
		want := ref.Walk(t, st)
		got := g.Get(path)
		checkLookup(c, path, want, got, nodes, "Get")
		if again := g.Get(path); ref.DiffOut(ref.From(got), ref.From(again), ref.Same) != "" {
			c.Fail("Get(%q) gives something else the second time", path)
		}
		for i, s := range st {
			switch {
			case s.Kind == '[':
				c.Ev("indexes")
			case s.Kind == '{' && s.N < 0:
				c.Ev("all of a name")
			case s.Kind == '{':
				c.Ev("selectors")
			case strings.ContainsAny(path, "\"'`") && i == 0:
				c.Ev("quoted names")
			default:
				c.Ev("names")
			}
		}
		if want.Node == nil {
			c.Ev("nothing")
		} else {
			c.Ev("found")
			if len(want.Node.Out) == 0 && want.Selected {
				c.Ev("selector with nothing")
			}
			if want.Selected && st[len(st)-1].N < 0 {
				c.Ev("empty selectors")
			}
		}
		if len(st) > 1 {
			c.Seen(core.Hash(hash, []byte(path)))
		}

		// Typed lookups and defaults
		if want.Node == nil || want.Selected && len(want.Node.Out) == 0 {
			_, e1 := g.GetString(path)
			_, e2 := g.GetInt64(path)
			_, e3 := g.GetFloat64(path)
			_, e4 := g.GetBool(path)
			_, e5 := g.GetBytes(path)
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil {
				c.Fail("%q finds nothing, but a typed lookup reports no error (%v %v %v %v %v)", path, e1, e2, e3, e4, e5)
			}
			if s := got.String("dflt"); s != "dflt" {
				c.Fail("%q finds nothing, but String gives %q instead of the default", path, s)
			}
			if got.Int64(77) != 77 || got.Float64(7.5) != 7.5 || !got.Bool(true) {
				c.Fail("%q finds nothing, but an accessor does not give the default", path)
			}
		} else if len(want.Node.Out) > 0 {
			s, err := g.GetString(path)
			if w := ref.Str(want.Node.Out[0].V); err != nil || s != w {
				c.Fail("GetString(%q) gives %q, %v instead of %q", path, s, err, w)
			}
		}

		// One element at a time
		if onlyNames(st) {
			cur := g
			for _, s := range st {
				cur = cur.Get(writePath(c, []ref.Step{s}, false))
			}
			checkLookup(c, path, want, cur, nodes, "chained Get")
			cur = g
			for _, s := range st {
				cur = cur.Node(s.Name)
			}
			checkLookup(c, path, want, cur, nodes, "chained Node")
			c.Ev("chained")
		}

		// Evaluation finds the same
		e := ogdl.NewPath(path)
		how := "as a path"
		if ref.IsToken(st[0].Name, isTok) && st[0].Kind == 'n' && asciiLetter(path[0]) && c.P(50) {
			e = ogdl.NewExpression(path)
			how = "as an expression"
			c.Ev("expressions")
		}
		v, err := g.Eval(e)
		checkEval(c, path+" "+how, want, v, err)
	}
	if d := ref.Diff(t, ref.From(g), ref.Same); d != "" {
		c.Fail("lookups change the graph: %s", d)
	}
}

func asciiLetter(b byte) bool { return b|32 >= 'a' && b|32 <= 'z' }

func checkLookup(c *C, path string, want ref.Result, got *ogdl.Graph, nodes map[*T]*ogdl.Graph, how string) {
	if want.Node == nil {
		if got != nil {
			c.Fail("%s(%q) gives %s instead of nil", how, path, ref.Short(ref.From(got)))
		}
		return
	}
	if got == nil {
		c.Fail("%s(%q) gives nil instead of %s", how, path, ref.Short(want.Node))
	}
	if d := ref.DiffOut(want.Node, ref.From(got), ref.Same); d != "" {
		c.Fail("%s(%q) does not give what is there: %s", how, path, d)
	}
	switch {
	case want.Wrapped:
		if got.Out[0] != nodes[want.Node.Out[0]] {
			c.Fail("%s(%q) gives another node than that of the index", how, path)
		}
	case !want.Selected:
		if got != nodes[want.Node] {
			c.Fail("%s(%q) gives a node with the same subnodes, but not the node found by walking", how, path)
		}
	}
}

// checkEval compares the result of an evaluation with that of a lookup.
func checkEval(c *C, path string, want ref.Result, v interface{}, err error) {
	gr, isGraph := v.(*ogdl.Graph)
	if want.Node == nil {
		if err == nil && v != nil && !(isGraph && gr == nil) {
			c.Fail("%s finds nothing, but evaluates to %s", path, ref.Show(v))
		}
		return
	}
	if err != nil {
		c.Fail("%s: %v", path, err)
	}
	if len(want.Node.Out) == 1 && len(want.Node.Out[0].Out) == 0 {
		w := want.Node.Out[0].V
		if isGraph {
			if gr == nil || len(gr.Out) != 1 || !ref.Same(gr.Out[0].This, w) {
				c.Fail("%s evaluates to %s instead of %s", path, ref.Short(ref.From(gr)), ref.Show(w))
			}
		} else if !ref.Same(v, w) {
			c.Fail("%s evaluates to %s instead of %s", path, ref.Show(v), ref.Show(w))
		}
		return
	}
	if !isGraph {
		c.Fail("%s evaluates to %s instead of %s", path, ref.Show(v), ref.Short(want.Node))
	}
	if d := ref.DiffOut(want.Node, ref.From(gr), ref.Same); d != "" {
		c.Fail("%s evaluates to something else: %s", path, d)
	}
}

// ---------------------------------------------------------------------------

type filler struct{}

// sameFill takes anything for the content of a node that was made to fill a list.
func sameFill(a, b interface{}) bool {
	if _, ok := a.(filler); ok {
		return true
	}
	return ref.Same(a, b)
}

// setRef sets a path, with marks in the nodes that fill a list.
func setRef(t *T, st []ref.Step, v interface{}) {
	before := map[*T]bool{}
	t.Walk(func(n *T) { before[n] = true })
	if x, ok := v.(*T); ok {
		x.Walk(func(n *T) { before[n] = true })
	}
	ref.Set(t, st, v)
	t.Walk(func(n *T) {
		if !before[n] && n.V == "_" && len(n.Out) == 0 {
			n.V = filler{}
		}
	})
}

func setVal(c *C) interface{} {
	switch c.Intn(9) {
	case 0:
		return c.Range(-100, 100)
	case 1:
		return int64(c.Uint64())
	case 2:
		return float64(c.Range(-100, 100)) / 8
	case 3:
		return c.P(50)
	case 4:
		return []byte(rawText(c, c.Range(1, 5), "b0"))
	case 5:
		return text(c, true) + "x"
	}
	return c.Str("v", "w", "a", "new value", "1", "true", "é")
}

// setPath makes a path of names and indexes that can be set.
func setPath(c *C, t *T, names bool) []ref.Step {
	for {
		st := randPath(c, t, c.Range(1, 4), false)
		ok := true
		for i, s := range st {
			if s.Kind == '[' {
				if names {
					ok = false
				}
				if s.N > 300 {
					st[i].N = c.Range(0, 300)
				}
			} else if s.Kind != 'n' {
				ok = false
			}
		}
		if c.P(35) {
			// what is missing
			k := c.Range(1, 3)
			if c.One(60) {
				k = c.Num(300)
			}
			for ; k > 0; k-- {
				if c.P(30) && !names {
					st = append(st, ref.Step{Kind: '[', N: c.Intn(4)})
				} else {
					st = append(st, ref.Step{Kind: 'n', Name: c.Str("new", "other", "a", "é", "7", "two words")})
				}
			}
		}
		if ok {
			return st
		}
	}
}

func letterPath(st []ref.Step) bool {
	return st[0].Kind == 'n' && asciiLetter(st[0].Name[0]) && ref.IsToken(st[0].Name, isTok)
}

// storedGraph is a graph that has been set as value of a path.
type storedGraph struct {
	t *T
	g *ogdl.Graph
}

func p10(c *C) {
	voc := treeNames(c)
	t := shape(c, c.Size(25), func(int) interface{} { return voc() })
	for i := 0; i < 3; i++ {
		// numbers, for the compound assignments
		t.Add("n" + strconv.Itoa(i)).Add([]interface{}{int64(c.Range(-50, 50)), c.Range(1, 9), float64(c.Range(-40, 40)) / 4}[c.Intn(3)])
		l := t.Add("l" + strconv.Itoa(i))
		for j := c.Intn(4); j >= 0; j-- {
			l.Add(int64(c.Range(-5, 50)))
		}
	}
	if c.P(30) {
		indexVars(c, t)
	}
	g := t.GraphCap(func() int { return []int{0, 0, 1, 3}[c.Intn(4)] })
	start := t.String()
	var hist []string
	var stored []storedGraph
	refresh := func() {
		memo := map[*ogdl.Graph]*T{}
		t = ref.FromShared(g, memo)
		for i, s := range stored {
			stored[i].t = ref.FromShared(s.g, memo)
		}
	}
	c.Info = func() string { return "tree " + start + "\n" + strings.Join(hist, "\n") }

	var below []ref.Step // where a graph was stored
	for k := c.Range(1, 10); k > 0; k-- {
		st := setPath(c, t, false)
		if below != nil && c.P(60) {
			st = append([]ref.Step{}, below...)
			if n := ref.Walk(t, st).Node; n != nil && len(n.Out) > 0 {
				st = append(st, ref.Step{Kind: '[', N: c.Intn(len(n.Out))})
				c.Ev("within a stored graph")
			}
		}
		below = nil
		before := t.Size()
		var want interface{}
		ev := ""
		switch mode := c.Intn(10); {
		case mode < 4:
			v := setVal(c)
			st = indexExprs(c, t, st)
			p := writePath(c, st, false)
			hist = append(hist, fmt.Sprintf("Set(%q, %s)", p, ref.Show(v)))
			g.Set(p, v)
			want = v
			ev = "set"
		case mode < 5:
			// a graph
			st = setPath(c, t, true)
			// (a new one, or one that has been stored before: the nodes are then shared)
			var sub *T
			var sg *ogdl.Graph
			if len(stored) > 0 && c.P(60) && t.Size() < 1000 {
				i := c.Intn(len(stored))
				sub, sg = stored[i].t, stored[i].g
				c.Ev("graph stored again")
			} else {
				n := c.Size(8)
				if c.One(8) {
					n = c.Num(60)
				}
				sub = shape(c, n, func(int) interface{} { return voc() })
				sub.V = "root"
				if c.One(15) {
					for n := c.Range(10, 60); n > 0; n-- {
						sub.Add(voc())
					}
				}
				if len(sub.Out) > 16 {
					c.Ev("long list stored")
				}
				sg = sub.GraphCap(func() int { return []int{0, 0, 1, 3}[c.Intn(4)] })
				stored = append(stored, storedGraph{sub, sg})
			}
			p := writePath(c, st, false)
			hist = append(hist, fmt.Sprintf("Set(%q, graph %s)", p, sub))
			// the path is created first; a graph that includes the node is copied
			n := t
			for _, s := range st {
				m := n.Node(s.Name)
				if m == nil {
					m = n.Add(s.Name)
				}
				n = m
			}
			val := sub
			if reach(sub, n) {
				val = sub.Clone()
			} else {
				val = &T{V: sub.V, Out: append([]*T(nil), sub.Out...)}
			}
			g.Set(p, sg)
			setRef(t, st, val)
			c.Ev("graph stored")
			below = st
			for _, s := range stored {
				if d := ref.Diff(s.t, ref.From(s.g), sameFill); d != "" {
					c.Fail("after %s, a graph stored before: %s", hist[len(hist)-1], d)
				}
			}
			if d := ref.Diff(t, ref.From(g), sameFill); d != "" {
				c.Fail("after %s: %s", hist[len(hist)-1], d)
			}
			if d := ref.DiffOut(val, ref.From(g.Get(p)), ref.Same); d != "" {
				c.Fail("after %s, Get does not give the graph: %s", hist[len(hist)-1], d)
			}
			refresh()
			continue
		case mode < 7:
			// assignment
			for !letterPath(st) {
				st = setPath(c, t, false)
			}
			x := &ectx{T: t, vars: map[byte][]pathVar{}}
			for i := 0; i < 3; i++ {
				nm := ref.Step{Kind: 'n', Name: "n" + strconv.Itoa(i)}
				if n := t.Node(nm.Name); n != nil && len(n.Out) == 1 {
					switch canon(n.Out[0].V).(type) {
					case int64:
						x.vars['i'] = append(x.vars['i'], pathVar{[]ref.Step{nm}, nm.Name})
					case float64:
						x.vars['f'] = append(x.vars['f'], pathVar{[]ref.Step{nm}, nm.Name})
					}
				}
			}
			e := genTyped(c, x, c.Byte("iifs"), c.Intn(3))
			v, _ := e.eval(t)
			st = indexExprs(c, t, st)
			p := writePath(c, st, true)
			src := p + c.Str("=", " = ") + e.write(c, 30)
			hist = append(hist, src)
			if c.P(50) {
				g.Eval(ogdl.NewExpression(src))
				ev = "assigned"
			} else {
				out := ogdl.NewTemplate("a$(" + src + ")b").Process(g)
				if string(out) != "ab" {
					c.Fail("the assignment %s in a template writes %q", src, out)
				}
				ev = "assigned in template"
			}
			want = v
		default:
			// compound, on a number
			var cand [][]ref.Step
			for i := 0; i < 3; i++ {
				nm := ref.Step{Kind: 'n', Name: "n" + strconv.Itoa(i)}
				cand = append(cand, []ref.Step{nm})
				l := ref.Step{Kind: 'n', Name: "l" + strconv.Itoa(i)}
				if n := t.Node(l.Name); n != nil && len(n.Out) > 0 {
					cand = append(cand, []ref.Step{l, {Kind: '[', N: c.Intn(len(n.Out))}})
				}
			}
			st = cand[c.Intn(len(cand))]
			r := ref.Walk(t, st)
			if r.Node == nil || len(r.Node.Out) == 0 || len(r.Node.Out) > 1 || len(r.Node.Out[0].Out) > 0 {
				continue
			}
			old := canon(r.Node.Out[0].V)
			switch old.(type) {
			case int64, float64:
			default:
				continue
			}
			op := c.Str("+", "-", "*", "/", "%")
			e := genTyped(c, &ectx{T: t}, c.Byte("if"), c.Intn(2))
			v, ok := e.eval(t)
			if c.One(4) {
				// what does not exist is taken for zero
				op = c.Str("+", "-", "*")
				st = []ref.Step{{Kind: 'n', Name: "new" + strconv.Itoa(k)}}
				if c.One(3) {
					st = append(st, ref.Step{Kind: 'n', Name: "x"})
				} else if c.One(3) {
					st = append([]ref.Step{{Kind: 'n', Name: "l0"}}, st...)
				}
				if !ok || ref.Walk(t, st).Node != nil {
					continue
				}
				c.Ev("compound on nothing")
				switch op {
				case "-":
					v, ok = binary("-", int64(0), v)
				case "*":
					v = int64(0)
				}
			} else if ok {
				v, ok = binary(op, old, v)
			}
			if !ok {
				continue
			}
			st = indexExprs(c, t, st)
			src := writePath(c, st, true) + c.Str("", " ") + op + "=" + c.Str("", " ") + e.write(c, 30)
			hist = append(hist, src)
			if c.P(50) {
				g.Eval(ogdl.NewExpression(src))
			} else {
				ogdl.NewTemplate("$(" + src + ")").Process(g)
			}
			want = v
			ev = "compound"
		}
		setRef(t, st, want)
		same := sameFill
		if ev != "set" {
			// the value of an expression is of a normalised type
			same = func(a, b interface{}) bool { return sameFill(a, b) || ref.Same(canon(a), canon(b)) }
		}
		if d := ref.Diff(t, ref.From(g), same); d != "" {
			c.Fail("after %s: %s", hist[len(hist)-1], d)
		}
		c.Ev(ev)
		if t.Size() > before+1 {
			if st[len(st)-1].Kind == '[' {
				c.Ev("extended")
			} else {
				c.Ev("created")
			}
		}
		// Read it back
		for i := range st {
			st[i].Expr = "" // it may have been changed
		}
		p := writePath(c, indexExprs(c, t, st), false)
		v := g.Get(p).Interface()
		if !same(want, v) {
			c.Fail("after %s, Get(%q) gives %s instead of %s", hist[len(hist)-1], p, ref.Show(v), ref.Show(want))
		}
		if s, err := g.GetString(p); err != nil || s != ref.Str(v) {
			c.Fail("after %s, GetString(%q) gives %q, %v", hist[len(hist)-1], p, s, err)
		}
		for _, s := range stored {
			if d := ref.Diff(s.t, ref.From(s.g), same); d != "" {
				c.Fail("after %s, a graph stored before: %s", hist[len(hist)-1], d)
			}
		}
		// The graph can be used
		refresh()
		g.Text()
		g.Show()
		g.Binary()
		g.JSON()
		if !g.Equals(g.Clone()) {
			c.Fail("after %s, the graph is not equal to its clone", hist[len(hist)-1])
		}
	}
	c.SeenStr(start + strings.Join(hist, ";"))
}

package props

import (
	"fmt"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P24",
		Rule:  "a random schema (literals and types, at all levels, empty nodes) and a graph made to conform to it, with further subnodes, and then changed at one or more places (type, literal, a missing or moved node, a nil node); the answer is compared with an own recursive definition of conformance and the message must name a node of the schema that is not satisfied. Non-trivial: every one; distinct by schema and graph.",
		Quick: 2500000, Thoro: 10000000, Case: p24,
		Must:   []string{"accepted", "refused", "extra subnodes", "missing node", "wrong literal", "wrong type", "!int", "!float", "!bool", "!string", "!binary", "deep refusal", "nil graph", "read from text", "large schema", "very deep refusal"},
		Assume: []string{"schema nodes that begin with '!' and are none of the five types, and integers as booleans are outside of the domain"},
	})
	core.Register(&core.Prop{
		ID:    "P25",
		Rule:  "random lists of nodes with keys (missing, equal, numeric and other text, all scalar types, at various depths, reached by names, indexes and selectors), sorted as text and as integers; identity of the nodes, their subtrees and the order of the keys are checked, also when sorted again or by another key. Non-trivial: at least 2 nodes with different keys; distinct by list and path.",
		Quick: 70000, Thoro: 1000000, Case: p25,
		Must: []string{"as text", "as integer", "missing keys", "equal keys", "long", "deep path", "long common beginnings", "integers beyond 2^53", "out of order before", "sorted again", "thousands"},
	})
}

var schemaTypes = []string{"!int", "!float", "!bool", "!string", "!binary"}

// conformVal makes a content that a node of the schema accepts.
func conformVal(c *C, s string) interface{} {
	switch s {
	case "!int":
		switch c.Intn(4) {
		case 0:
			return int64(c.Range(-1000, 1000))
		case 1:
			return fltLit(c)
		case 2:
			return uint8(c.Intn(256))
		}
		return c.Str("0", "-1", "12", "007", "9223372036854775807", "-9223372036854775808", "+5")
	case "!float":
		switch c.Intn(4) {
		case 0:
			return c.Range(-5, 5)
		case 1:
			return fltLit(c)
		case 2:
			return float32(c.Range(-5, 5)) / 2
		}
		return c.Str("0", "-1.5", "1e3", ".5", "2.", "-3E-2", "12345678901234567890")
	case "!bool":
		if c.P(50) {
			return c.P(50)
		}
		return c.Str("true", "false")
	case "!string":
		return strLit(c)
	case "!binary":
		return []byte(rawText(c, c.Num(20), "bc0"))
	}
	// a literal
	if c.One(10) {
		return []byte(s)
	}
	return s
}

// conforms tells if a content is what the node of the schema wants; known is false if that
// is not defined.
func conforms(s string, v interface{}) (ok, known bool) {
	if len(s) == 0 || s[0] != '!' {
		return ref.Str(v) == s, true
	}
	if v == nil {
		return false, s != "!string"
	}
	switch s {
	case "!string":
		_, ok = v.(string)
		return ok, true
	case "!binary":
		_, ok = v.([]byte)
		return ok, true
	}
	w := convOf(v)
	if str, isStr := v.(string); isStr && !w.isF && !w.isB && weirdNumber(str) {
		return false, false
	}
	if b, isB := v.([]byte); isB && !w.isF && !w.isB && weirdNumber(string(b)) {
		return false, false
	}
	switch s {
	case "!int":
		return w.isI, true
	case "!float":
		return w.isF, true
	case "!bool":
		if w.isI {
			// numbers as booleans
			switch v.(type) {
			case string, []byte:
			default:
				return false, false
			}
		}
		return w.isB, true
	}
	return false, false
}

// weirdNumber tells if a text might be taken for a number by Go.
func weirdNumber(s string) bool {
	s = strings.ToLower(strings.TrimSpace(s))
	return strings.Contains(s, "inf") || strings.Contains(s, "nan") || strings.Contains(s, "0x") || strings.Contains(s, "_") || s != "" && (s[0] == '+' || s[0] == '.') || strings.HasSuffix(s, ".") || strings.Contains(s, ".e")
}

// refused collects the nodes of a schema that the graph does not satisfy.
func refused(s, g *T, out *[]string, depth int, maxd *int) (known bool) {
	known = true
	for i, ns := range s.Out {
		var nx *T
		if g != nil && i < len(g.Out) {
			nx = g.Out[i]
		}
		ok := false
		if nx != nil {
			var k bool
			ok, k = conforms(ref.Str(ns.V), nx.V)
			if !k {
				known = false
			}
		}
		if !ok {
			*out = append(*out, ref.Str(ns.V))
			if depth > *maxd {
				*maxd = depth
			}
		}
		if !refused(ns, nx, out, depth+1, maxd) {
			known = false
		}
	}
	return known
}

func p24(c *C) {
	size := c.Num(30)
	if c.One(3000) {
		size = c.Num(3000)
	}
	if size > 300 {
		c.Ev("large schema")
	}
	s := shape(c, size, func(int) interface{} {
		if c.P(60) {
			return schemaTypes[c.Intn(len(schemaTypes))]
		}
		switch c.Intn(8) {
		case 0:
			return ""
		case 1:
			return int64(c.Intn(5))
		case 2:
			return "x!int"
		}
		v := strLit(c)
		if strings.HasPrefix(v, "!") {
			v = "x" + v
		}
		return v
	})
	deep := c.One(250)
	if deep {
		for i := c.Num(400); i > 0; i-- {
			n := &T{V: c.Str("a", "b", "!int", "!string", "!bool", ""), Out: s.Out}
			s = &T{V: s.V, Out: []*T{n}}
			if c.One(4) {
				s.Add("z")
			}
		}
	}
	var build func(s *T) *T
	build = func(s *T) *T {
		n := &T{V: conformVal(c, ref.Str(s.V))}
		for _, o := range s.Out {
			n.Out = append(n.Out, build(o))
		}
		for c.One(6) {
			n.Out = append(n.Out, &T{V: scalarVal(c)})
			c.Ev("extra subnodes")
		}
		return n
	}
	g := build(s)
	g.V = strLit(c)
	if c.P(60) {
		for i := c.Range(1, 3); i > 0; i-- {
			n, _ := pickNode(c, g)
			if deep {
				for n = g; len(n.Out) > 0 && n.Out[0] != nil && !c.One(500); n = n.Out[0] {
				}
				if c.P(50) {
					i = 1
				}
			}
			k := len(n.Out)
			switch c.Intn(7) {
			case 0:
				n.V = accessAny(c)
			case 1:
				if k > 0 {
					n.Out = n.Out[:k-1]
				}
			case 2:
				if k > 0 {
					j := c.Intn(k)
					n.Out = append(append([]*T(nil), n.Out[:j]...), n.Out[j+1:]...)
				}
			case 3:
				if k > 1 {
					j, l := c.Intn(k), c.Intn(k)
					n.Out[j], n.Out[l] = n.Out[l], n.Out[j]
				}
			case 4:
				if k > 0 && c.One(4) {
					n.Out[c.Intn(k)] = nil
					i = 0
				}
			case 5:
				if str, ok := n.V.(string); ok {
					n.V = c.Str(str+" ", " "+str, str+"0", strings.ToUpper(str), "!int", "!string", "", "x", "1 2", "9223372036854775808", "1e400", "1.5x", "--1", "True", "yes", "1e", "5x")
				}
			default:
				n.V = nil
			}
		}
	}
	var gg, sg *ogdl.Graph
	gg, sg = g.Graph(), s.Graph()
	if c.One(40) {
		g, gg = nil, nil
		c.Ev("nil graph")
	}
	if c.One(10) && g != nil {
		// both as a document
		clean := true
		check := func(t *T) {
			t.Walk(func(n *T) {
				str, ok := n.V.(string)
				if !ok || !plainOK(str) {
					clean = false
				}
				for _, o := range n.Out {
					clean = clean && o != nil
				}
			})
		}
		for _, o := range s.Out {
			check(o)
		}
		for _, o := range g.Out {
			if o == nil {
				clean = false
				break
			}
			check(o)
		}
		if clean {
			sg, gg = ogdl.FromString(sg.Text()), ogdl.FromString(gg.Text())
			c.Ev("read from text")
		}
	}
	str := func() string {
		x := "nil"
		if gg != nil {
			x = strTree(g)
		}
		return "schema " + s.String() + "\ngraph " + x
	}
	c.Info = str
	var bad []string
	depth := 0
	known := refused(s, g, &bad, 0, &depth)
	ok, msg := sg.Check(gg)
	if !known {
		return
	}
	if ok != (len(bad) == 0) {
		c.Fail("the answer is %v (%s), but these nodes of the schema are not satisfied: %.300q", ok, msg, bad)
	}
	c.SeenStr(str())
	if ok {
		c.Ev("accepted")
		s.Walk(func(n *T) {
			if v := ref.Str(n.V); v != "" && v[0] == '!' {
				c.Ev(v)
			}
		})
		return
	}
	c.Ev("refused")
	if depth > 100 {
		c.Ev("very deep refusal")
	}
	if depth > 2 {
		c.Ev("deep refusal")
	}
	found := false
	for _, b := range bad {
		if strings.Contains(msg, b) {
			found = true
		}
		switch {
		case b == "" || b[0] != '!':
			c.Ev("wrong literal")
		default:
			c.Ev("wrong type")
		}
	}
	if !found {
		c.Fail("the message %q names none of the nodes of the schema that are not satisfied: %.300q", msg, bad)
	}
	if g == nil || g.Size() < s.Size() {
		c.Ev("missing node")
	}
	// nothing in the way of a second check
	if ok2, msg2 := sg.Check(gg); ok2 || msg2 != msg {
		c.Fail("the second check gives %v %q, the first one gave %v %q", ok2, msg2, ok, msg)
	}
}

func strTree(t *T) string {
	var b strings.Builder
	var f func(t *T)
	f = func(t *T) {
		if t == nil {
			b.WriteString("nil")
			return
		}
		b.WriteString(ref.Show(t.V))
		if len(t.Out) > 0 {
			b.WriteByte('(')
			for i, o := range t.Out {
				if i > 0 {
					b.WriteByte(' ')
				}
				f(o)
			}
			b.WriteByte(')')
		}
	}
	f(t)
	return b.String()
}

func accessAny(c *C) interface{} {
	v, _ := accessVal(c)
	return v
}

// p25 checks the sorts.
func p25(c *C) {
	names := treeNames(c)
	n := c.Num(60)
	if c.One(40) {
		n = c.Num(1000)
		if c.One(40) {
			n = c.Range(1000, 6000)
			c.Ev("thousands")
		}
	}
	if n > 13 {
		c.Ev("long")
	}
	// the path of the key
	var steps []ref.Step
	for i := c.Range(1, 4); i > 0; i-- {
		switch {
		case c.One(5):
			steps = append(steps, ref.Step{Kind: '[', N: c.Intn(3)})
		case c.One(8) && len(steps) > 0 && steps[len(steps)-1].Kind == 'n':
			steps = append(steps, ref.Step{Kind: '{', N: c.Intn(2)})
		default:
			steps = append(steps, ref.Step{Kind: 'n', Name: ref.Str(names())})
		}
	}
	if len(steps) > 2 {
		c.Ev("deep path")
	}
	kind := c.Intn(4)
	near := int64(1)<<uint(c.Range(52, 62)) + int64(c.Range(-3, 3))
	if c.P(50) {
		near = -near
	}
	prefix := ""
	if kind == 0 && c.One(8) {
		// texts that differ only at their end
		prefix = strings.Repeat(c.Str("a", "ab ", "é", "0", "\xff", "\x00"), c.Num(c.Range(1, 1500)))
		c.Ev("long common beginnings")
	}
	key := func() interface{} {
		if kind == 1 && c.P(20) {
			// integers that differ little
			v := near + int64(c.Range(-2, 2))
			if c.P(50) {
				return fmt.Sprint(v)
			}
			return v
		}
		switch kind {
		case 0:
			return prefix + c.Str("a", "b", "B", "aa", "", "10", "9", "é", "z", "中", "\xff", "a b")
		case 1:
			v := int64(c.Uint64()) >> uint(c.Intn(64))
			if v > 1<<53 || v < -(1<<53) {
				c.Ev("integers beyond 2^53")
			}
			if c.P(50) {
				return fmt.Sprint(v)
			}
			return v
		case 2:
			return c.Range(-9, 120)
		}
		switch c.Intn(4) {
		case 0:
			return strLit(c)
		case 1:
			return accessAny(c)
		}
		return c.Range(-9, 9)
	}
	t := &T{V: "_"}
	for i := 0; i < n; i++ {
		m := N2(names, c, 6)
		m.V = names()
		if c.P(85) {
			// put a key where the path leads
			at := m
			for j, s := range steps {
				switch s.Kind {
				case 'n':
					if o := at.Node(s.Name); o != nil && c.P(70) && !(j+1 < len(steps) && steps[j+1].Kind == '{') {
						at = o
						continue
					}
					at = at.Add(s.Name)
				case '[':
					for len(at.Out) <= s.N {
						at.Add(names())
					}
					if j == len(steps)-1 {
						at.Out[s.N].V = key()
						at = nil
						break
					}
					at = at.Out[s.N]
				}
			}
			if at != nil {
				if c.P(50) {
					at.Out = nil
				}
				at.Out = append([]*T{{V: key()}}, at.Out...)
			}
		}
		t.Out = append(t.Out, m)
	}
	path := writePath(c, steps, false)
	keys := map[*T]interface{}{}
	for _, m := range t.Out {
		r := ref.Walk(m, steps)
		if r.Node == nil || len(r.Node.Out) == 0 {
			c.Ev("missing keys")
			keys[m] = nil
			continue
		}
		keys[m] = r.Node.Out[0].V
	}
	c.Info = func() string { return "by " + path + ": " + t.String() }
	g := t.Graph()
	nodes := map[*ogdl.Graph]*T{}
	snaps := map[*ogdl.Graph]*snap{}
	for i, o := range g.Out {
		nodes[o] = t.Out[i]
		snaps[o] = snapshot(o)
	}
	asInt := c.P(50)
	for round := c.Range(1, 2); round > 0; round-- {
		how := "Sort"
		switch {
		case asInt:
			how = "SortAsInt"
			g.SortAsInt(path)
			c.Ev("as integer")
		case c.P(50):
			g.Sort(path)
			c.Ev("as text")
		default:
			how = "SortAsString"
			g.SortAsString(path)
			c.Ev("as text")
		}
		if g.This != "_" {
			c.Fail("%s changes the content of the graph to %s", how, ref.Show(g.This))
		}
		if len(g.Out) != n {
			c.Fail("%s leaves %d of %d nodes", how, len(g.Out), n)
		}
		seen := map[*ogdl.Graph]bool{}
		moved := false
		for i, o := range g.Out {
			if nodes[o] == nil || seen[o] {
				c.Fail("%s: the node at %d is not one of the nodes of the list, or twice in it", how, i)
			}
			seen[o] = true
			if d := snaps[o].changed(); d != "" {
				c.Fail("%s changes a node: %s", how, d)
			}
			if i == 0 {
				continue
			}
			a, b := keys[nodes[g.Out[i-1]]], keys[nodes[o]]
			if asInt {
				x, kx := intKey(a)
				y, ky := intKey(b)
				if !kx || !ky {
					continue
				}
				if x > y {
					c.Fail("%s: %d (%s) comes before %d (%s), at %d", how, x, ref.Show(a), y, ref.Show(b), i)
				}
				if x == y {
					c.Ev("equal keys")
				}
			} else {
				x, y := ref.Str(a), ref.Str(b)
				if x > y {
					c.Fail("%s: %.100q comes before %.100q, at %d", how, x, y, i)
				}
				if x == y {
					c.Ev("equal keys")
				}
			}
			if t.Out[i] != nodes[o] {
				moved = true
			}
		}
		if moved {
			c.Ev("out of order before")
			c.SeenStr(path + t.String())
		}
		if round > 1 {
			asInt = !asInt
			c.Ev("sorted again")
		}
	}
}

// intKey is the integer that a key is sorted by.
func intKey(v interface{}) (int64, bool) {
	if v == nil {
		return 0, true
	}
	w := convOf(v)
	if w.unsure {
		return 0, false
	}
	if !w.isI {
		s := ref.Str(v)
		if _, ok := v.(bool); !ok && weirdNumber(s) || strings.TrimSpace(s) != s {
			return 0, false
		}
		return 0, true
	}
	return w.i, true
}

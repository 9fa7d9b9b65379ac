package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P19",
		Rule:  "nil graphs, graphs without content or subnodes, and results of lookups that find nothing (by name, index, selector, of all kinds of graphs, also chained), passed to every reading method through reflection with random arguments, and to every accessor with the documented result. Non-trivial: every one; distinct by origin, chain and method.",
		Quick: 1000000, Thoro: 4000000, Case: p19,
		Must: []string{"changes to nothing", "nil", "empty", "missed lookups", "chained", "methods called", "defaults", "index out of range", "as argument", "nothing added", "emptied", "lookups of what has been emptied"},
	})
}

// reading are the methods that do not change a graph.
var reading = strings.Fields("Len ThisType Equals Clone Node GetAt Get Text Show Find Int64 Float64 Bool ThisValue Value String StringCSV Strings StringTxt ThisString Bytes ThisBytes Number ThisNumber ThisInt64 ThisFloat64 Scalar ThisScalar Interface GetString GetBytes GetInt64 GetFloat64 GetBool Eval Process Binary JSON Html Check")

// missing makes a graph that is nothing, and describes it.
func missing(c *C) (*ogdl.Graph, string) {
	switch c.Intn(12) {
	case 0:
		return nil, "nil"
	case 1:
		return ogdl.New(nil), "New(nil)"
	case 2:
		return ogdl.New(""), "New(\"\")"
	case 3:
		return &ogdl.Graph{}, "Graph{}"
	case 4:
		s := c.Str("", "\n", "  ", "# comment", "\n\n\t")
		return ogdl.FromString(s), fmt.Sprintf("FromString(%q)", s)
	case 5:
		return ogdl.FromBinary(nil), "FromBinary(nil)"
	case 6:
		g, _ := ogdl.FromJSON([]byte("no"))
		return g, "FromJSON(no)"
	case 7:
		return ogdl.FromFile(c.Tmp + "/there is no such file"), "FromFile"
	case 8:
		if c.One(3) {
			n := c.Num(3000)
			return ogdl.New(strings.Repeat(c.Str("x", "5", "true", "é", " "), n)), fmt.Sprintf("New(content of %d)", n)
		}
		return ogdl.New(c.Str("x", "5", "true", "_", "!int")), "New(content)"
	}
	if c.One(4) {
		// what had subnodes, and has lost them
		t := N2(treeNames(c), c, 6)
		t.V = "emptied"
		g := t.GraphCap(func() int { return c.Intn(2) })
		how := ""
		switch c.Intn(4) {
		case 0:
			for k := 0; g.Len() > 0 && k < 100; k++ {
				g.DeleteAt(c.Intn(g.Len()))
			}
			how = "DeleteAt of all subnodes"
		case 1:
			for k := 0; g.Len() > 0 && k < 100; k++ {
				g.Delete(g.Out[c.Intn(g.Len())].This)
			}
			how = "Delete of all subnodes"
		case 2:
			g.Clear()
			how = "Clear"
		default:
			g.Out = g.Out[:0]
			how = "empty list"
		}
		c.Ev("emptied")
		g.Out = g.Out[:0]
		if c.P(50) {
			// found by a lookup
			o := ogdl.New("_")
			o.Add("x")
			o.Add(g)
			return o.Get("emptied"), how + ", then Get"
		}
		return g, how
	}
	t := N2(treeNames(c), c, 12)
	if c.One(3) {
		n, _ := pickNode(c, t)
		n.V = nil
	}
	return missLookup(c, t.Graph(), t)
}

func missLookup(c *C, g *ogdl.Graph, t *T) (*ogdl.Graph, string) {
	name := "missing_" + exprName(c)
	c.Ev("missed lookups")
	n := 0
	if t != nil {
		n = len(t.Out)
	}
	switch c.Intn(8) {
	case 0:
		return g.Node(name), "Node"
	case 1:
		i := []int{-1, n, n + 1, -1000000, math.MaxInt64, math.MinInt64}[c.Intn(6)]
		c.Ev("index out of range")
		return g.GetAt(i), fmt.Sprintf("GetAt(%d)", i)
	case 2:
		p := fmt.Sprintf("[%d]", n+c.Intn(3))
		c.Ev("index out of range")
		return g.Get(p), "Get(" + p + ")"
	case 3:
		p := name + c.Str("[0]", "{0}", "{}", ".a", ".a.b", "[1][2]", ".'a b'", "[0].x")
		return g.Get(p), "Get(" + p + ")"
	case 4:
		if n > 0 {
			// below something that exists
			i := c.Intn(n)
			k := len(t.Out[i].Out)
			if s, ok := t.Out[i].V.(string); ok && k >= 0 && s != "" && s[0] != '!' && s[0] != '_' && t.Node(s) == t.Out[i] {
				p := ref.QuotePath(s, '"')
				switch c.Intn(3) {
				case 0:
					p += fmt.Sprintf("[%d]", k+c.Intn(2))
					c.Ev("index out of range")
				case 1:
					p += "." + name
				default:
					p += "{999}"
					c.Ev("index out of range")
				}
				return g.Get(p), "Get(" + p + ")"
			}
		}
		return g.Get(name), "Get"
	case 5:
		r, _ := g.Find("^" + name + "$")
		return r, "Find"
	case 6:
		return g.Get(name).Clone(), "Get.Clone"
	}
	return g.Get(name), "Get(" + name + ")"
}

func p19(c *C) {
	g, how := missing(c)
	for c.One(3) {
		var h string
		g, h = missLookup(c, g, ref.From(g))
		how += "." + h
		c.Ev("chained")
	}
	what := ""
	c.Info = func() string { return how + ", then " + what }
	fail := func(f string, a ...interface{}) {
		c.Fail("%s: %s", how, fmt.Sprintf(f, a...))
	}
	if g.Len() > 0 {
		fail("something has been found: %s", show(g))
	}
	if g == nil {
		c.Ev("nil")
	} else {
		c.Ev("empty")
	}
	before := snapshot(g)

	// Results as documented
	i, f, b, s := int64(c.Range(-100, 100)), float64(c.Range(-9, 9))+0.25, c.P(50), "default"+exprName(c)
	nothing := []struct {
		m         string
		got, want interface{}
	}{
		{"Int64", g.Int64(), int64(0)}, {"Int64(def)", g.Int64(i), i},
		{"Float64", math.IsNaN(g.Float64()), true}, {"Float64(def)", g.Float64(f), f},
		{"Bool", g.Bool(), false}, {"Bool(def)", g.Bool(b), b},
		{"String", g.String(), ""}, {"String(def)", g.String(s), s},
		{"StringCSV", g.StringCSV(), ""}, {"StringCSV(def)", g.StringCSV(s), s},
		{"StringTxt", g.StringTxt(), ""}, {"StringTxt(def)", g.StringTxt(s), s},
		{"Strings", len(g.Strings()), 0}, {"Bytes", len(g.Bytes()), 0},
		{"Number", g.Number(), nil}, {"Scalar", g.Scalar(), nil}, {"Interface", g.Interface(), nil},
		{"Value", g.Value().IsValid(), false},
		{"Node", g.Node("a") == nil, true}, {"GetAt", g.GetAt(c.Range(-3, 3)) == nil, true},
		{"Text", g.Text(), ""},
	}
	for _, x := range nothing {
		what = x.m
		if !reflect.DeepEqual(x.got, x.want) {
			fail("%s gives %s instead of %s", x.m, show(x.got), show(x.want))
		}
	}
	c.Ev("defaults")
	if g == nil || g.This == nil || g.This == "" {
		_, ok1 := g.ThisInt64()
		_, ok2 := g.ThisFloat64()
		if g.ThisString() != "" || g.ThisString(s) != s || len(g.ThisBytes()) != 0 || g.ThisNumber() != nil || ok1 || ok2 {
			fail("there is content: ThisString %q %q, ThisBytes %q, ThisNumber %v, %v %v", g.ThisString(), g.ThisString(s), g.ThisBytes(), g.ThisNumber(), ok1, ok2)
		}
		if (g == nil || g.This == nil) && (g.ThisType() != "" || g.ThisValue().IsValid() || g.ThisScalar() != nil) {
			fail("there is content: ThisType %q, ThisScalar %v", g.ThisType(), g.ThisScalar())
		}
	}
	if g == nil {
		if g.Clone() != nil || g.Show() != "" || len(g.Binary()) != 0 || g.Html("x") != "" || len(g.JSON()) != 0 || !g.Equals(nil) || g.Equals(ogdl.New(nil)) || ogdl.New("").Equals(g) {
			fail("a nil graph gives something")
		}
	} else if !g.Equals(g.Clone()) || g.Equals(nil) {
		fail("Equals")
	}
	if r, err := g.Find("."); r != nil || err != nil {
		fail("Find gives %s, %v", show(r), err)
	}

	// Lookups by path
	p := writePath(c, []ref.Step{{Kind: 'n', Name: exprName(c)}}, false) + c.Str("", "", "[0]", "{0}", ".x", ".x[1].y", ".'q'")
	what = "lookups of " + p
	if r := g.Get(p); r.Len() > 0 {
		fail("Get(%s) gives %s", p, show(r))
	}
	if r := g.Get(p).Get(p).Get("x").Int64(i); r != i {
		fail("Get(%s).Int64(%d) gives %d", p, i, r)
	}
	if r := g.Get(p).GetAt(3).Node("x").String(s); r != s {
		fail("a chain from Get(%s) gives %q instead of the default", p, r)
	}
	_, e1 := g.GetString(p)
	_, e2 := g.GetBytes(p)
	_, e3 := g.GetInt64(p)
	_, e4 := g.GetFloat64(p)
	_, e5 := g.GetBool(p)
	if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil {
		fail("typed lookups of %s give no error (%v %v %v %v %v)", p, e1, e2, e3, e4, e5)
	}
	if v, _ := g.Eval(ogdl.NewPath(p)); v != nil {
		if r, ok := v.(*ogdl.Graph); !ok || r.Len() > 0 {
			fail("evaluating %s gives %s", p, show(v))
		}
	}

	if c.One(3) {
		what = "typed lookups of a node that has been emptied"
		par := ogdl.New("_")
		for k := c.Intn(3); k > 0; k-- {
			par.Add("other").Add(int64(1))
		}
		i, path := par.Len(), "emptied"
		n := par.Add("emptied")
		for k := c.Intn(3); k > 0; k-- {
			n = n.Add("sub")
			path += ".sub"
		}
		for k := c.Range(1, 3); k > 0; k-- {
			n.Add(scalarVal(c))
		}
		for n.Len() > 0 {
			if c.P(50) {
				n.DeleteAt(c.Intn(n.Len()))
			} else {
				n.Delete(n.Out[c.Intn(n.Len())].This)
			}
		}
		if c.One(4) {
			n.Out = []*ogdl.Graph{}
		}
		if path == "emptied" && c.P(50) {
			path = fmt.Sprintf("[%d]", i)
		}
		what += " " + path
		_, e1 := par.GetString(path)
		_, e2 := par.GetBytes(path)
		_, e3 := par.GetInt64(path)
		_, e4 := par.GetFloat64(path)
		_, e5 := par.GetBool(path)
		// the content of the node is what [N] gives
		if path[0] != '[' && (e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil) {
			fail("%s: no error (%v %v %v %v %v)", what, e1, e2, e3, e4, e5)
		}
		if x := par.Get(path); path[0] != '[' && (x.Len() != 0 || x.String("nothing") != "nothing" || x.Int64(-7) != -7) {
			fail("%s: Get gives %s", what, show(x))
		}
		c.Ev("lookups of what has been emptied")
	}

	// Every reading method with any arguments
	v := reflect.ValueOf(g)
	for k := 0; k < 6; k++ {
		name := reading[c.Intn(len(reading))]
		m := v.MethodByName(name)
		if !m.IsValid() {
			continue
		}
		var args []reflect.Value
		n := m.Type().NumIn()
		if m.Type().IsVariadic() {
			n = n - 1 + c.Intn(2)
		}
		for j := 0; j < n; j++ {
			var in reflect.Type
			if m.Type().IsVariadic() {
				in = m.Type().In(m.Type().NumIn() - 1).Elem()
			} else {
				in = m.Type().In(j)
			}
			args = append(args, anyArg(c, in))
		}
		what = fmt.Sprintf("%s%v", name, args)
		out := m.Call(args)
		for _, o := range out {
			// what comes back can be used as well
			if r, ok := o.Interface().(*ogdl.Graph); ok {
				_ = r.Get("a").String()
				_ = r.Text()
			}
		}
		c.Ev("methods called")
		c.SeenStr(how + "." + what)
	}

	// As an argument of another graph
	o := ogdl.FromString("a\n  b 1\nc")
	what = "argument"
	switch c.Intn(6) {
	case 0:
		o.Equals(g)
	case 1:
		o.Check(g)
	case 2:
		g.Check(o)
	case 3:
		o.Eval(g)
	case 4:
		g.Process(o)
	default:
		g.Eval(ogdl.NewExpression(c.Str("a+1", "a.b==2", "!a", "a[b]", "x(1)", "1/0", "a{}", "-a")))
	}
	c.Ev("as argument")

	// As an argument of a method that changes a graph: at most, it stays as it is
	if g == nil {
		w := o.Clone()
		what = "nil to a method that changes"
		switch c.Intn(4) {
		case 0:
			o.AddNodes(g)
		case 1:
			o.Copy(g)
		case 2:
			o.Merge(g)
		default:
			o.Node("a").AddNodes(o.Get("missing.path"))
			o.Copy(o.Get("missing"))
		}
		if !o.Equals(w) {
			fail("given to a method that adds, it makes %s of %s", show(o), show(w))
		}
		c.Ev("nothing added")
	}

	if d := before.changed(); d != "" {
		fail("the graph has been changed: %s", d)
	}

	// Changes to a nil graph do nothing
	if g == nil && c.One(3) {
		name := changing[c.Intn(len(changing))]
		m := v.MethodByName(name)
		if !m.IsValid() {
			return
		}
		var args []reflect.Value
		for j := 0; j < m.Type().NumIn(); j++ {
			args = append(args, anyArg(c, m.Type().In(j)))
		}
		what = fmt.Sprintf("%s%v", name, args)
		for _, r := range m.Call(args) {
			if !r.IsNil() {
				fail("%s of a nil graph gives %s", name, show(r.Interface()))
			}
		}
		// and templates and assignments for one
		switch c.Intn(3) {
		case 0:
			g.Eval(ogdl.NewExpression(c.Str("a=1", "a.b += 2", "a[2]='x'", "a*=3")))
		case 1:
			src := c.Str("x$(a=1)y", "$for(i,a)$i$end", "$if(a)b$end", "$a.b[1]", "$(a += 2)$a")
			what += ", template " + src
			if out := string(ogdl.NewTemplate(src).Process(g)); strings.Trim(out, "xy") != "" {
				fail("the template %s writes %q", src, out)
			}
		}
		c.Ev("changes to nothing")
	}
}

// changing are the methods that change a graph.
var changing = []string{"Add", "AddNodes", "Clear", "Copy", "Create", "Delete", "DeleteAt", "Merge", "NodeOrNew", "NodeSet", "Set", "Sort", "SortAsInt", "SortAsString", "Substitute"}

func anyArg(c *C, t reflect.Type) reflect.Value {
	switch t.Kind() {
	case reflect.String:
		if c.P(50) {
			return reflect.ValueOf(soup[c.Intn(len(soup))] + c.Str("", soup[c.Intn(len(soup))]))
		}
		return reflect.ValueOf(c.Str("", "a", "a.b", "[0]", "a[1]", "a{}", "{}", "_", "_len", "_this", "_json", ".", "^", "a()", "'q'", "!p"))
	case reflect.Int:
		return reflect.ValueOf([]int{0, 1, -1, 5, math.MaxInt64, math.MinInt64}[c.Intn(6)])
	case reflect.Int64:
		return reflect.ValueOf(int64(c.Range(-5, 5)))
	case reflect.Float64:
		return reflect.ValueOf(1.5)
	case reflect.Bool:
		return reflect.ValueOf(c.P(50))
	case reflect.Interface:
		return reflect.ValueOf("x")
	case reflect.Ptr:
		if t == kindType['g'] {
			switch c.Intn(4) {
			case 0:
				return reflect.ValueOf((*ogdl.Graph)(nil))
			case 1:
				return reflect.ValueOf(ogdl.New(nil))
			case 2:
				return reflect.ValueOf(ogdl.NewExpression("a.b+1"))
			}
			return reflect.ValueOf(ogdl.FromString("a\n  b 1\nc"))
		}
	}
	return reflect.Zero(t)
}

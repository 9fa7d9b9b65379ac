package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P16",
		Rule:  "every reading operation with random parameters on random graphs: a snapshot of all nodes (identity, content, bytes, unused slots behind the list of subnodes) must be the same after it, and the result the same when repeated and on a fresh copy; templates, paths and expressions (also damaged ones) used several times with different contexts, against fresh ones. Non-trivial: graph of at least 3 nodes; distinct by graph and operation, or template.",
		Quick: 200000, Thoro: 3000000, Case: p16,
		Must: []string{"Get", "Eval path", "Eval expression", "Text", "Show", "Binary", "JSON", "Html", "Clone", "Equals", "Check", "Find", "accessors", "typed lookups", "template reused", "path reused", "computed index", "very many names"},
	})
}

// snap is what a graph was at some moment.
type snap struct {
	g    *ogdl.Graph
	this interface{}
	b    string
	out  []*ogdl.Graph
	kids []*snap
}

// roomy builds a graph whose lists of subnodes have unused room.
func roomy(t *T) *ogdl.Graph {
	g := &ogdl.Graph{This: t.V}
	if b, ok := t.V.([]byte); ok {
		b2 := make([]byte, len(b), len(b)+4)
		copy(b2, b)
		g.This = b2
	}
	if len(t.Out) > 0 {
		g.Out = make([]*ogdl.Graph, len(t.Out), len(t.Out)+2)
		for i, o := range t.Out {
			g.Out[i] = roomy(o)
		}
	}
	return g
}

func snapshot(g *ogdl.Graph) *snap {
	if g == nil {
		return nil
	}
	s := &snap{g: g, this: g.This, out: append([]*ogdl.Graph(nil), g.Out[:cap(g.Out)]...)}
	if b, ok := g.This.([]byte); ok {
		s.b = string(b[:cap(b)])
	}
	for _, o := range g.Out {
		s.kids = append(s.kids, snapshot(o))
	}
	return s
}

// changed describes how the graph differs from the snapshot.
func (s *snap) changed() string {
	if s == nil {
		return ""
	}
	if b, ok := s.g.This.([]byte); ok {
		if string(b[:cap(b)]) != s.b {
			return fmt.Sprintf("bytes %q are now %q", s.b, b[:cap(b)])
		}
	}
	if !sameCtx(s.this, s.g.This) {
		return fmt.Sprintf("the content %s is now %s", ref.Show(s.this), ref.Show(s.g.This))
	}
	if len(s.kids) != len(s.g.Out) {
		return fmt.Sprintf("node %s has %d subnodes instead of %d", ref.Show(s.this), len(s.g.Out), len(s.kids))
	}
	all := s.g.Out[:cap(s.g.Out)]
	for i := range s.kids {
		if s.out[i] != all[i] {
			return fmt.Sprintf("subnode %d of %s is another node", i, ref.Show(s.this))
		}
	}
	for i := len(s.kids); i < len(all) && len(all) == len(s.out); i++ {
		if s.out[i] != all[i] {
			return fmt.Sprintf("the list of subnodes of %s is written behind its end", ref.Show(s.this))
		}
	}
	for _, k := range s.kids {
		if d := k.changed(); d != "" {
			return d
		}
	}
	return ""
}

// show describes a result completely.
func show(v interface{}) string {
	switch x := v.(type) {
	case *ogdl.Graph:
		if x == nil {
			return "nil graph"
		}
		return "graph " + ref.From(x).String()
	case []byte:
		return fmt.Sprintf("bytes %q", x)
	case string:
		return fmt.Sprintf("%q", x)
	case error:
		return "error " + x.Error()
	case []string:
		return fmt.Sprintf("%q", x)
	}
	if k := ref.Show(v); k != "" {
		return fmt.Sprintf("%T %s", v, k)
	}
	return ""
}

// readOp is a reading operation.
type readOp struct {
	ev, name string
	f        func(g *ogdl.Graph) string
}

// makeReadOp chooses a reading operation for a graph that is equal to t.
func makeReadOp(c *C, t *T, x *ectx) readOp {
	path := func() string {
		if x != nil && c.P(60) {
			if p := x.path(c, c.Byte("ifsb")); p != nil {
				return p.src
			}
		}
		return writePath(c, randPath(c, t, 6, true), false)
	}
	switch k := c.Intn(27); k {
	case 0, 1, 2:
		p := path()
		return readOp{"Get", "Get(" + p + ")", func(g *ogdl.Graph) string { return show(g.Get(p)) }}
	case 3, 4:
		p := path()
		if x != nil && c.P(30) {
			p = path() + c.Str("._len", "._this", "._string", "._json", "._thisString")
		}
		e := ogdl.NewPath(p)
		return readOp{"Eval path", "Eval(path " + p + ")", func(g *ogdl.Graph) string {
			v, err := g.Eval(e)
			return show(v) + fmt.Sprint(err)
		}}
	case 5, 6, 7:
		if x == nil {
			x = exprContext(c)
		}
		s := genExpr(c, x, c.Range(1, 4)).write(c, 30)
		e := ogdl.NewExpression(s)
		return readOp{"Eval expression", "Eval(" + s + ")", func(g *ogdl.Graph) string {
			v, err := g.Eval(e)
			return show(v) + fmt.Sprint(err)
		}}
	case 8:
		return readOp{"Text", "Text", func(g *ogdl.Graph) string { return g.Text() }}
	case 9:
		return readOp{"Show", "Show", func(g *ogdl.Graph) string { return g.Show() }}
	case 10:
		return readOp{"Binary", "Binary", func(g *ogdl.Graph) string { return string(g.Binary()) }}
	case 11:
		return readOp{"JSON", "JSON", func(g *ogdl.Graph) string { return string(g.JSON()) }}
	case 12:
		p := c.Str("", "base", "/a/b/")
		return readOp{"Html", "Html", func(g *ogdl.Graph) string { return g.Html(p) }}
	case 13:
		return readOp{"Clone", "Clone", func(g *ogdl.Graph) string { return show(g.Clone()) }}
	case 14:
		return readOp{"Clone", "Copy", func(g *ogdl.Graph) string {
			k := ogdl.New(nil)
			k.Copy(g)
			return show(k)
		}}
	case 15:
		u := t.Clone()
		if c.P(50) {
			n, _ := pickNode(c, u)
			n.V = "other"
		}
		o := u.Graph()
		if c.P(50) {
			return readOp{"Equals", "Equals", func(g *ogdl.Graph) string { return fmt.Sprint(g.Equals(o)) }}
		}
		return readOp{"Equals", "Equals (argument)", func(g *ogdl.Graph) string { return fmt.Sprint(o.Equals(g)) }}
	case 16, 17:
		u := t.Clone()
		for i := c.Intn(4); i > 0; i-- {
			n, _ := pickNode(c, u)
			n.V = c.Str("!int", "!float", "!bool", "!string", "!binary", "x")
		}
		o := u.Graph()
		if c.P(60) {
			return readOp{"Check", "Check (graph)", func(g *ogdl.Graph) string {
				b, s := o.Check(g)
				return fmt.Sprint(b, s)
			}}
		}
		return readOp{"Check", "Check (schema)", func(g *ogdl.Graph) string {
			b, s := g.Check(o)
			return fmt.Sprint(b, s)
		}}
	case 18:
		n, _ := pickNode(c, t)
		re := c.Str(".", "^a", "[0-9]+", "x|b", "(", "é")
		if s := ref.Str(n.V); len(s) < 20 && c.P(50) {
			re = s
		}
		return readOp{"Find", "Find(" + re + ")", func(g *ogdl.Graph) string {
			r, err := g.Find(re)
			return show(r) + fmt.Sprint(err)
		}}
	case 19, 20, 21, 22:
		_, at := pickNode(c, t)
		def := c.P(50)
		s := c.Str("a", "b", ref.Str(t.V))
		i := c.Range(-2, 4)
		return readOp{"accessors", fmt.Sprint("accessors of ", at), func(g *ogdl.Graph) string {
			for _, j := range at {
				g = g.Out[j]
			}
			var v []interface{}
			add := func(a ...interface{}) { v = append(v, a...) }
			if def {
				add(g.Int64(5), g.Float64(1.5), g.Bool(true), g.String("d"), g.StringCSV("d"), g.StringTxt("d"), g.ThisString("d"))
			} else {
				add(g.Int64(), g.Float64(), g.Bool(), g.String(), g.StringCSV(), g.StringTxt(), g.ThisString())
			}
			add(g.Len(), g.ThisType(), g.Strings(), g.Bytes(), g.ThisBytes(), g.Number(), g.ThisNumber(), g.Scalar(), g.ThisScalar(), g.Interface(), g.Node(s), g.GetAt(i))
			a, b := g.ThisInt64()
			add(a, b)
			f, b := g.ThisFloat64()
			add(f, b, g.ThisValue().IsValid(), g.Value().IsValid())
			var sb strings.Builder
			for _, x := range v {
				sb.WriteString(show(x) + ";")
			}
			return sb.String()
		}}
	default:
		p := path()
		return readOp{"typed lookups", "typed lookups of " + p, func(g *ogdl.Graph) string {
			a, e1 := g.GetString(p)
			b, e2 := g.GetInt64(p)
			c, e3 := g.GetFloat64(p)
			d, e4 := g.GetBool(p)
			e, e5 := g.GetBytes(p)
			return fmt.Sprint(a, e1, b, e2, c, e3, d, e4, e, e5)
		}}
	}
}

// readTree makes a graph to be read.
func readTree(c *C) (*T, *ectx) {
	if c.P(50) {
		x := exprContext(c)
		return x.T, x
	}
	f := treeNames(c)
	n := 40
	if c.One(20) {
		n = 400
	}
	t := shape(c, n, func(int) interface{} {
		if c.One(8) {
			return scalarVal(c)
		}
		if c.One(30) {
			return "_"
		}
		return f()
	})
	if c.One(15) {
		// many different names
		n, _ := pickNode(c, t)
		if c.P(30) {
			n = t
		}
		k := c.Range(60, 300)
		if c.One(20) {
			k = c.Range(500, 3000)
			c.Ev("very many names")
		}
		for i := k; i > 0; i-- {
			m := n.Add("n" + strconv.Itoa(i))
			if c.P(50) {
				m.Add(i)
			}
		}
		c.Ev("many names")
	}
	return t, nil
}

func p16(c *C) {
	if c.P(35) {
		p16tmpl(c)
		return
	}
	t, x := readTree(c)
	c.Info = func() string { return t.String() }
	g := roomy(t)
	s := snapshot(g)
	if len(t.Out) > 500 {
		// names that are far away
		for i := 0; i < 20; i++ {
			n := ref.Str(t.Out[c.Intn(len(t.Out))].V)
			if x := g.Node(n); x == nil || x != g.Node(n) {
				c.Fail("Node(%q) gives nothing, or another node the second time", n)
			}
		}
		if d := s.changed(); d != "" {
			c.Fail("Node changes the graph: %s", d)
		}
	}
	for i := c.Range(1, 5); i > 0; i-- {
		op := makeReadOp(c, t, x)
		c.Info = func() string { return op.name + " of " + t.String() }
		r1 := op.f(g)
		if d := s.changed(); d != "" {
			c.Fail("%s changes the graph: %s", op.name, d)
		}
		r2 := op.f(g)
		if r1 != r2 {
			c.Fail("%s gives %s, and then %s", op.name, core.Sample(r1), core.Sample(r2))
		}
		if r3 := op.f(t.Graph()); r1 != r3 {
			c.Fail("%s gives %s, and %s on a copy of the graph", op.name, core.Sample(r1), core.Sample(r3))
		}
		if d := s.changed(); d != "" {
			c.Fail("%s changes the graph the second time: %s", op.name, d)
		}
		c.Ev(op.ev)
		if t.Size() > 2 {
			c.SeenStr(op.name + t.String())
		}
	}
}

var identRe = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_]*$`)

func p16tmpl(c *C) {
	// a template, path or expression used several times
	var x []*T
	var src, kind string
	switch c.Intn(4) {
	case 0:
		kind = "expression"
		e := exprContext(c)
		src = genExpr(c, e, c.Range(1, 4)).write(c, 30)
		x = append(x, e.T, exprContext(c).T)
		if c.P(20) {
			src = exprName(c) + c.Str(" = ", "=", " += ", "-=", " *= ") + src
		}
	case 1:
		kind = "path"
		e := exprContext(c)
		src = writePath(c, randPath(c, e.T, 5, true), false)
		if p := e.path(c, c.Byte("ifsb")); p != nil && c.P(50) {
			src = p.src
		}
		if len(e.T.Out) > 0 && c.One(4) {
			// a computed index
			if n := ref.Str(e.T.Out[c.Intn(len(e.T.Out))].V); identRe.MatchString(n) {
				i := genTyped(c, e, 'i', c.Intn(2)).write(c, 30)
				src = n + c.Str("[", "{") + i
				if strings.Contains(src, "{") {
					src += "}"
				} else {
					src += "]"
				}
				if c.P(30) {
					src += "[0]"
				}
				c.Ev("computed index")
			}
		}
		x = append(x, e.T, exprContext(c).T)
	default:
		kind = "template"
		a := tmplContext(c)
		src = genTemplate(c, a, c.Range(1, 12)).src
		x = append(x, a.T, tmplContext(c).T)
	}
	if c.P(25) {
		src = damage(c, src)
		if !tame(src, kind == "template") || len(src) > 5000 {
			return
		}
	}
	if c.P(40) {
		// the same with other values
		x = append(x, otherValues(c, x[0], true))
	}
	t := x[0]
	c.Info = func() string { return kind + " " + core.Sample(src) + "\nwith " + t.String() }
	parse := func() *ogdl.Graph {
		switch kind {
		case "template":
			return ogdl.NewTemplate(src)
		case "path":
			return ogdl.NewPath(src)
		}
		return ogdl.NewExpression(src)
	}
	use := func(e, ctx *ogdl.Graph) string {
		if kind == "template" {
			return string(e.Process(ctx))
		}
		v, err := ctx.Eval(e)
		return show(v) + fmt.Sprint(err)
	}
	e := parse()
	s := snapshot(e)
	keep := make([]*ogdl.Graph, len(x))
	for i := c.Range(2, 4); i > 0; i-- {
		j := c.Intn(len(x))
		t = x[j]
		ctx := x[j].Graph()
		ctx2 := x[j].Graph()
		if keep[j] != nil && c.P(40) {
			// once more with the context as it was left
			ctx = keep[j]
			ctx2 = ref.From(ctx).Graph()
		}
		got := use(e, ctx)
		if d := s.changed(); d != "" {
			c.Fail("the parsed %s is changed: %s", kind, d)
		}
		want := use(parse(), ctx2)
		if got != want {
			c.Fail("the %s gives %s, and a fresh one %s", kind, core.Sample(got), core.Sample(want))
		}
		if d := ref.Diff(ref.From(ctx2), ref.From(ctx), sameCtx); d != "" {
			c.Fail("the context is left different from that of a fresh %s: %s", kind, d)
		}
		keep[j] = ctx
	}
	c.SeenStr(src)
	c.Ev(kind + " reused")
}

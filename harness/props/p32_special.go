package props

import (
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P32",
		Rule:  "random trees and paths (existing or not) that end in _len, _string, _thisString, _json or _this, or that have elements in parentheses (texts, sums of texts, numbers and paths to a text), evaluated as paths, in expressions, in indexes and in templates; compared with the node that a step-by-step walk finds. Non-trivial: at least 2 elements; distinct by path and tree.",
		Quick: 250000, Thoro: 3000000, Case: p32,
		Must: []string{"_len", "_string", "_thisString", "_json", "_this", "nothing before", "after an index", "after a selector", "of the top node", "in a template", "in an expression", "last by _len", "group", "group of a text", "group of a sum", "group of a path", "group of a number", "empty group", "group first", "group and selector", "group not found", "group that changes", "in a comparison", "nodes without a name", "long list"},
	})
	core.Register(&core.Prop{
		ID:    "P33",
		Rule:  "random lists of nodes of all types of content, searched by regular expressions made from their contents and at random, also invalid ones; the nodes found are compared, by identity and in order, with those whose content matches. Non-trivial: at least one match; distinct by expression and list.",
		Quick: 500000, Thoro: 5000000, Case: p33,
		Must: []string{"all", "some", "none", "invalid expression", "other types", "repeated", "not below", "long list", "long literal beginning", "dot for a character", "dot for a newline"},
	})
}

// found gives the node that a path ends at.
func found(r ref.Result) *T {
	if r.Wrapped {
		return r.Node.Out[0]
	}
	return r.Node
}

// longLen looks at the number of subnodes of a long list.
func longLen(c *C) {
	n := []int{127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537}[c.Intn(10)]
	if c.P(30) {
		n = c.Range(1000, 200000)
	}
	g := ogdl.New("_")
	h := g.Add("a")
	for i := 0; i < n; i++ {
		h.Add("x" + strconv.Itoa(i))
	}
	c.Info = func() string { return "a list of " + strconv.Itoa(n) + " nodes" }
	v, err := g.Eval(ogdl.NewPath("a._len"))
	if i, ok := toI(v); err != nil || !ok || i != int64(n) {
		c.Fail("a._len evaluates to %s, %v, but the node has %d subnodes", ref.Show(v), err, n)
	}
	k := c.Range(1, n)
	want := h.Out[n-k].ThisString()
	src := "a[a._len - " + strconv.Itoa(k) + "]"
	if s := g.Get(src).String(); s != want {
		c.Fail("%s gives %q instead of %q", src, s, want)
	}
	name := "k" + strconv.Itoa(n)
	g.Add(name).Add("found")
	src = "('k' + a._len)"
	if s := g.Get(src).String(); s != "found" {
		c.Fail("%s gives %q instead of that of %s", src, s, name)
	}
	if s := string(ogdl.NewTemplate("$a._len;$a._string").Process(g)); s != strconv.Itoa(n)+";x0" {
		c.Fail("the template gives %q", s)
	}
	c.SeenStr("long " + strconv.Itoa(n))
	c.Ev("long list")
}

func p32(c *C) {
	if c.One(4000) {
		longLen(c)
		return
	}
	voc := treeNames(c)
	n := c.Size(40)
	if c.One(100) {
		n = c.Num(2000)
	}
	t := shape(c, n, func(int) interface{} { return voc() })
	if c.P(40) {
		h := t.Add("a")
		i := c.Range(1, 30)
		if c.One(60) {
			i = c.Num(1000)
		}
		for ; i > 0; i-- {
			h.Add(voc()).Add(voc())
		}
	}
	if c.P(50) {
		h := t.Add("k" + strconv.Itoa(c.Intn(10)))
		for i := c.Range(0, 5); i > 0; i-- {
			h.Add(voc())
		}
	}
	if c.P(25) {
		oddNodes(c, t)
	}
	g := t.Graph()
	nodes := map[*T]*ogdl.Graph{}
	mapNodes(t, g, nodes)
	path := ""
	c.Info = func() string { return "path " + path + "\ntree " + t.String() }
	hash := core.HashStr(t.String())

	for k := 0; k < 4; k++ {
		if c.P(50) {
			path = specialPath(c, t, g, nodes)
		} else {
			path = groupPath(c, t, g, nodes)
		}
		c.Seen(core.Hash(hash, []byte(path)))
	}
	if d := ref.Diff(t, ref.From(g), ref.Same); d != "" {
		c.Fail("evaluation changes the graph: %s", d)
	}
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Ptr && r.IsNil()
}

func specialPath(c *C, t *T, g *ogdl.Graph, nodes map[*T]*ogdl.Graph) string {
	st := randPath(c, t, 4, true)
	if c.One(7) {
		st = nil
	}
	op := c.Str("_len", "_string", "_thisString", "_json", "_this")
	prefix := ""
	r := ref.Result{Node: t}
	if st != nil {
		prefix = writePath(c, st, false)
		r = ref.Walk(t, st)
	}
	path := op
	if prefix != "" {
		path = prefix + "." + op
	}
	e := ogdl.NewPath(path)
	if len(st) > 0 && letterPath(st) && asciiLetter(path[0]) && c.P(50) {
		e = ogdl.NewExpression(path)
		c.Ev("in an expression")
	}
	v, err := g.Eval(e)
	if r.Node == nil {
		if err == nil && !isNil(v) {
			c.Fail("%s: there is no such node, but it evaluates to %s", path, ref.Show(v))
		}
		c.Ev("nothing before")
		return path
	}
	n := found(r)
	gn := nodes[n]
	if err != nil {
		c.Fail("%s: %v", path, err)
	}
	switch {
	case st == nil:
		c.Ev("of the top node")
	case r.Wrapped:
		c.Ev("after an index")
	case r.Selected:
		c.Ev("after a selector")
		gn = g.Get(prefix)
	}
	c.Ev(op)
	want := ""
	switch op {
	case "_len":
		i, ok := toI(v)
		if !ok || i != int64(len(n.Out)) {
			c.Fail("%s evaluates to %s, but the node has %d subnodes", path, ref.Show(v), len(n.Out))
		}
		want = strconv.Itoa(len(n.Out))
	case "_string", "_thisString":
		if op == "_string" {
			if len(n.Out) > 0 {
				want = ref.Str(n.Out[0].V)
			}
		} else {
			if r.Selected {
				return path
			}
			want = ref.Str(n.V)
		}
		s, ok := v.(string)
		if !ok || s != want {
			c.Fail("%s evaluates to %s instead of %q", path, ref.Show(v), want)
		}
	case "_json":
		want = string(gn.JSON())
		if r.Selected {
			return path
		}
		var s string
		switch x := v.(type) {
		case []byte:
			s = string(x)
		case string:
			s = x
		default:
			c.Fail("%s evaluates to %s instead of %q", path, ref.Show(v), want)
		}
		if s != want {
			c.Fail("%s evaluates to %q instead of %q", path, s, want)
		}
	case "_this":
		x, ok := v.(*ogdl.Graph)
		if !ok || x == nil || ref.DiffOut(n, ref.From(x), ref.Same) != "" {
			c.Fail("%s evaluates to %s instead of %s", path, ref.Show(v), ref.Short(n))
		}
		if !r.Selected && x != gn {
			c.Fail("%s evaluates to another node", path)
		}
		return path
	}

	// The same elsewhere
	if len(st) == 0 || !letterPath(st) || !asciiLetter(path[0]) {
		return path
	}
	switch c.Intn(4) {
	case 0:
		if !allTokens(st) || strings.Contains(" if else elseif end for break ", " "+st[0].Name+" ") {
			break
		}
		tm := ogdl.NewTemplate("<$" + path + ">")
		if out := string(tm.Process(g.Clone())); out != "<"+want+">" {
			c.Fail("the template <$%s> gives %q instead of %q", path, out, "<"+want+">")
		}
		c.Ev("in a template")
	case 1:
		if op == "_len" {
			q := path + " == " + want
			if b, err := g.Eval(ogdl.NewExpression(q)); err != nil || b != true {
				c.Fail("%s evaluates to %v, %v", q, b, err)
			}
			q = path + " + 1 > " + want
			if b, err := g.Eval(ogdl.NewExpression(q)); err != nil || b != true {
				c.Fail("%s evaluates to %v, %v", q, b, err)
			}
			c.Ev("in a comparison")
		}
	default:
		if op == "_len" && len(n.Out) > 0 && !r.Selected {
			// the last subnode
			q := prefix + "[" + path + c.Str("-1", " - 1") + "]"
			x := g.Get(q)
			if x == nil || len(x.Out) != 1 || x.Out[0] != nodes[n.Out[len(n.Out)-1]] {
				c.Fail("%s does not give the last subnode", q)
			}
			c.Ev("last by _len")
		}
	}
	return path
}

// allTokens tells if a path can be written in a template without quotes.
func allTokens(st []ref.Step) bool {
	for _, s := range st {
		if s.Kind == 'n' && !ref.IsToken(s.Name, isTok) {
			return false
		}
	}
	return true
}

func groupPath(c *C, t *T, g *ogdl.Graph, nodes map[*T]*ogdl.Graph) string {
	st := randPath(c, t, 4, true)
	var at []int
	for i, s := range st {
		if s.Kind == 'n' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return ""
	}
	k := at[c.Intn(len(at))]
	name := st[k].Name
	src := groupExpr(c, t, name)
	missing := false
	if c.One(15) {
		src = c.Str("''", "\"\"", "nothing.there")
		if src == "nothing.there" && ref.Walk(t, []ref.Step{{Kind: 'n', Name: "nothing"}}).Node != nil {
			return ""
		}
		missing = true
		c.Ev("empty group")
	}
	sp := strings.Repeat(" ", c.Intn(2))
	path := "(" + sp + src + sp + ")"
	if k > 0 {
		path = writePath(c, st[:k], false) + "." + path
	} else {
		c.Ev("group first")
	}
	if k < len(st)-1 {
		p := writePath(c, st[k+1:], false)
		if st[k+1].Kind == 'n' {
			p = "." + p
		} else if st[k+1].Kind == '{' {
			c.Ev("group and selector")
		}
		path += p
	}
	want := ref.Walk(t, st)
	if missing {
		// Nothing, or an error, whatever comes before
		if v := g.Get(path); v != nil {
			c.Fail("Get(%q) gives %s", path, ref.Short(ref.From(v)))
		}
		if v, err := g.Eval(ogdl.NewPath(path)); err == nil && !isNil(v) {
			c.Fail("%q evaluates to %s", path, ref.Show(v))
		}
		return path
	}
	c.Ev("group")
	if want.Node == nil {
		c.Ev("group not found")
	}
	checkLookup(c, path, want, g.Get(path), nodes, "Get")
	p := ogdl.NewPath(path)
	for i := 0; i < 2; i++ {
		v, err := g.Eval(p)
		checkEval(c, path, want, v, err)
	}
	if c.P(40) {
		groupAgain(c, t, g, st, k, nodes)
	}
	return path
}

// groupAgain evaluates a path with a computed name, that changes in between.
func groupAgain(c *C, t *T, g *ogdl.Graph, st []ref.Step, k int, nodes map[*T]*ogdl.Graph) {
	if t.Node("sel_9") != nil {
		return
	}
	st = append([]ref.Step{}, st...)
	tn, gn := t.Add("sel_9"), g.Add("sel_9")
	tl, gl := tn.Add("x"), gn.Add("x")
	nodes[tn], nodes[tl] = gn, gl
	defer func() {
		t.Out = t.Out[:len(t.Out)-1]
		g.Out = g.Out[:len(g.Out)-1]
	}()
	path := "(sel_9)"
	if k > 0 {
		path = writePath(c, st[:k], false) + ".(sel_9)"
	}
	if k < len(st)-1 {
		q := writePath(c, st[k+1:], false)
		if st[k+1].Kind == 'n' {
			q = "." + q
		}
		path += q
	}
	p := ogdl.NewPath(path)
	names := []string{st[k].Name, "missing"}
	at := t
	if k > 0 {
		r := ref.Walk(t, st[:k])
		if at = r.Node; r.Wrapped {
			at = at.Out[0]
		}
	}
	if at != nil {
		for _, o := range at.Out {
			if s := ref.Str(o.V); s != "" && s[0] != '_' && s[0] != '!' && noCtlBytes(s, "\n\t") == s {
				names = append(names, s)
			}
		}
	}
	for i := c.Range(2, 5); i > 0; i-- {
		name := names[c.Intn(len(names))]
		tl.V, gl.This = name, name
		st[k].Name = name
		want := ref.Walk(t, st)
		if c.P(30) {
			checkLookup(c, path, want, g.Get(path), nodes, "with sel_9 "+name+", Get")
		}
		v, err := g.Eval(p)
		checkEval(c, path+" with sel_9 "+name, want, v, err)
		c.Ev("group that changes")
	}
}

// groupExpr writes an expression that gives a text.
func groupExpr(c *C, t *T, name string) string {
	lit := func(s string) string { return ref.QuotePath(s, c.Byte("\"'")) }
	switch c.Intn(4) {
	case 0:
		rs := []rune(name)
		if len(rs) > 1 && string(rs) == name {
			i := c.Range(1, len(rs)-1)
			c.Ev("group of a sum")
			return lit(string(rs[:i])) + c.Str("+", " + ") + lit(string(rs[i:]))
		}
	case 1:
		// a node that holds it
		var got []ref.Step
		for _, o := range t.Out {
			s := ref.Str(o.V)
			if s == "" || s == "true" || s == "false" || !asciiLetter(s[0]) || !ref.IsToken(s, isTok) || t.Node(s) != o {
				continue
			}
			if len(o.Out) == 1 && len(o.Out[0].Out) == 0 && ref.Str(o.Out[0].V) == name {
				got = []ref.Step{{Kind: 'n', Name: s}}
			}
			for j, q := range o.Out {
				if len(q.Out) == 0 && ref.Str(q.V) == name && c.P(30) {
					got = []ref.Step{{Kind: 'n', Name: s}, {Kind: '[', N: j}}
				}
			}
		}
		if got != nil {
			c.Ev("group of a path")
			return writePath(c, got, true)
		}
	case 2:
		if i, err := strconv.ParseInt(name, 10, 32); err == nil && strconv.FormatInt(i, 10) == name && i >= 0 {
			c.Ev("group of a number")
			if c.P(50) && i > 0 {
				return strconv.FormatInt(i-1, 10) + "+1"
			}
			return name
		}
	}
	c.Ev("group of a text")
	return lit(name)
}

// ---------------------------------------------------------------------------

func p33(c *C) {
	voc := treeNames(c)
	if c.P(30) {
		v2 := pool(c, c.Range(1, 6), func() interface{} { v, _ := accessVal(c); return v })
		v1 := voc
		voc = func() interface{} {
			if c.P(50) {
				return v2()
			}
			return v1()
		}
	}
	t := N("_")
	n := c.Size(30)
	if c.One(30) {
		n = c.Num(2000)
	}
	for i := 0; i < n; i++ {
		x := t.Add(voc())
		if c.P(30) {
			x.Add(voc()).Add(voc())
		}
	}
	g := t.Graph()
	re := ""
	c.Info = func() string { return "expression " + re + "\ntree " + t.String() }
	for k := 0; k < 3; k++ {
		pick := "a"
		if len(t.Out) > 0 {
			x := t.Out[c.Intn(len(t.Out))]
			if len(x.Out) > 0 && c.One(3) {
				x = x.Out[0]
			}
			pick = ref.Str(x.V)
			if len(pick) > 60 {
				pick = strings.ToValidUTF8(pick[:60], "")
			}
		}
		switch c.Intn(10) {
		case 8:
			// a part of it, and then something
			r := []rune(pick)
			i := c.Intn(len(r) + 1)
			j := i + c.Intn(len(r)-i+1)
			re = regexp.QuoteMeta(string(r[i:j])) + c.Str(".", "[a-z0-9]", "?", "+", ".?$", "x?", "(.|\n)", "|zz", "\\b")
			if j > i+3 {
				c.Ev("long literal beginning")
			}
			if c.P(30) && j < len(r) {
				// a dot for one character
				re = regexp.QuoteMeta(string(r[i:j])) + "." + regexp.QuoteMeta(string(r[j+1:]))
				c.Ev("dot for a character")
				if r[j] == '\n' {
					c.Ev("dot for a newline")
				}
			}
			if c.One(4) {
				re = c.Str("(?i)", ".", ".*", "(", "x?") + re
			}
		case 0:
			re = "^" + regexp.QuoteMeta(pick) + "$"
		case 1:
			re = regexp.QuoteMeta(pick)
		case 2:
			re = c.Str("", ".", "^$", ".*", "^.$", "(?s).", "[0-9]", "^[a-c]", "a|b", "^(a|b|1)$", "[^a]", "\\d+", "(?i)A", "^-", "e$", "x_y|ab")
		case 3:
			re = c.Str("[", "(", "a{2,1}", "*", "a**", "(?P<", "\\", "[b-a]", "(?<x", "x{1001}")
		case 4:
			re = "^" + regexp.QuoteMeta(string([]rune(pick)[:len([]rune(pick))/2]))
		case 5:
			re = "nowhere to be found"
		case 6:
			re = "[" + c.Str("a-b", "0-4", "é", "a-zA-Z", "^0-9") + "]" + c.Str("", "+", "*$", "$")
		default:
			re = noCtlBytes(rawText(c, c.Range(1, 4), "p"), "")
		}
		exp, bad := regexp.Compile(re)
		r, err := g.Find(re)
		if bad != nil {
			if err == nil || r != nil {
				c.Fail("%q is no valid expression, but Find gives %v, %v", re, r, err)
			}
			if r, err := (*ogdl.Graph)(nil).Find(re); err == nil || r != nil {
				c.Fail("%q is no valid expression, but Find on nil gives %v, %v", re, r, err)
			}
			c.Ev("invalid expression")
			continue
		}
		if err != nil {
			c.Fail("Find(%q): %v", re, err)
		}
		var want []*ogdl.Graph
		types, seen := false, map[string]bool{}
		for i, x := range t.Out {
			s := ref.Str(x.V)
			if exp.MatchString(s) {
				want = append(want, g.Out[i])
				if _, ok := x.V.(string); !ok {
					types = true
				}
				if seen[s] {
					c.Ev("repeated")
				}
				seen[s] = true
			} else if len(x.Out) > 0 && exp.MatchString(ref.Str(x.Out[0].V)) {
				c.Ev("not below")
			}
		}
		if len(want) == 0 {
			if r != nil {
				c.Fail("nothing matches %q, but Find gives %s", re, ref.Short(ref.From(r)))
			}
			c.Ev("none")
			continue
		}
		if r == nil || len(r.Out) != len(want) {
			c.Fail("Find(%q) gives %d nodes instead of %d", re, r.Len(), len(want))
		}
		for i := range want {
			if r.Out[i] != want[i] {
				c.Fail("Find(%q) gives %s at %d instead of the node %s", re, ref.Short(ref.From(r.Out[i])), i, ref.Short(ref.From(want[i])))
			}
		}
		if types {
			c.Ev("other types")
		}
		if len(want) == len(t.Out) {
			c.Ev("all")
		} else {
			c.Ev("some")
		}
		if len(want) > 100 {
			c.Ev("long list")
		}
		c.Seen(core.Hash(core.HashStr(t.String()), []byte(re)))
	}
	if d := ref.Diff(t, ref.From(g), ref.Same); d != "" {
		c.Fail("searches change the graph: %s", d)
	}
}

package props

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/ref"
)

// Templates with a reference interpretation.

type tnode struct {
	kind  byte // t text, v variable, $ escape, i if, f for, b break, a assignment
	text  string
	steps []ref.Step
	src   string
	brace bool
	conds []tcond
	name  string
	op    string
	e     *expr
	body  []*tnode
}

type tcond struct {
	e    *expr
	path []ref.Step // instead of an expression
	src  string
	body []*tnode
	els  bool
}

type tctx struct {
	*ectx
	any   []pathVar // paths to anything
	lists []pathVar // paths to nodes with subnodes
	bools []pathVar // paths to "true" or "false" in text, or to nothing
}

func (x *tctx) String() string { return x.T.String() }

func tmplContext(c *C) *tctx {
	x := &tctx{ectx: exprContext(c)}
	for _, v := range x.vars {
		x.any = append(x.any, v...)
	}
	used := map[string]bool{}
	for _, n := range x.Out {
		used[ref.Str(n.V)] = true
	}
	fresh := func() string {
		for {
			n := exprName(c)
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	p := func(steps ...ref.Step) pathVar { return pathVar{steps, writePath(c, steps, true)} }
	name := func(s string) ref.Step { return ref.Step{Kind: 'n', Name: s} }
	for i := c.Range(1, 4); i > 0; i-- {
		// a list, of scalars or of nodes
		nm := fresh()
		n := x.Add(nm)
		for j := c.Intn(5); j >= 0; j-- {
			e := n.Add(tval(c))
			switch c.Intn(3) {
			case 0:
				e.V = plainWord(c)
				for k := c.Range(1, 3); k > 0; k-- {
					e.Add(tval(c))
				}
			case 1:
				e.V = plainWord(c)
				sub := exprName(c)
				e.Add(sub).Add(tval(c))
				x.any = append(x.any, p(name(nm), ref.Step{Kind: '[', N: len(n.Out) - 1}, name(sub)))
			}
		}
		x.lists = append(x.lists, p(name(nm)))
		x.any = append(x.any, p(name(nm)))
		k := c.Intn(len(n.Out) + 1)
		x.any = append(x.any, p(name(nm), ref.Step{Kind: '[', N: k}))
		x.lists = append(x.lists, p(name(nm), ref.Step{Kind: '[', N: k}))
		if c.P(40) {
			// again the same name
			n := x.Add(nm)
			n.Add(tval(c))
			n.Add(tval(c))
			x.lists = append(x.lists, p(name(nm), ref.Step{Kind: '{', N: -1}), p(name(nm), ref.Step{Kind: '{', N: 1}))
			x.any = append(x.any, p(name(nm), ref.Step{Kind: '{', N: c.Intn(3)}))
		}
	}
	for i := 0; i < 2; i++ {
		nm := fresh()
		x.Add(nm).Add(c.Str("true", "false"))
		x.bools = append(x.bools, p(name(nm)))
		if c.P(50) {
			nm = fresh()
			x.Add(nm).Add(c.P(50))
			x.bools = append(x.bools, p(name(nm)))
		} else if c.P(50) {
			// a number, false if it is zero
			nm = fresh()
			var v interface{} = c.Range(-1, 2)
			if c.P(50) {
				v = int64(v.(int)) << uint(c.Intn(63))
			}
			x.Add(nm).Add(v)
			x.bools = append(x.bools, p(name(nm)))
		}
	}
	if c.One(40) {
		// a long list
		nm := fresh()
		n := x.Add(nm)
		for j := c.Num(2000); j >= 0; j-- {
			e := n.Add(c.Intn(1000))
			if c.One(10) {
				e.V = plainWord(c)
				e.Add(j)
			}
		}
		for i := 0; i < 6; i++ {
			x.lists = append(x.lists, p(name(nm)))
		}
		x.any = append(x.any, p(name(nm), ref.Step{Kind: '[', N: c.Intn(len(n.Out))}))
	}
	none := p(name(fresh()))
	x.bools = append(x.bools, none)
	x.any = append(x.any, none, p(name(ref.Str(x.Out[0].V)), name("nothing")))
	x.lists = append(x.lists, none)
	leaf := fresh()
	x.Add(leaf)
	x.any = append(x.any, p(name(leaf)))
	x.lists = append(x.lists, p(name(leaf)))
	return x
}

// tval is a scalar.
func tval(c *C) interface{} {
	switch c.Intn(8) {
	case 0:
		return int64(c.Range(-5, 1000))
	case 1:
		return c.P(50)
	case 2:
		return float64(c.Range(-50, 50)) / 4
	case 3:
		return c.Str("!if", "!end", "$", "$a", "_", "a b", "<b>", "x\ny", "é", "$(a=1)", "\"q\"", "\\")
	}
	s := rawText(c, c.Range(1, 6), "psu")
	return s
}

type tgen struct {
	c     *C
	x     *tctx
	nums  []string // assigned variables: numbers
	strs  []string
	loops []string // loop variables in scope
	old   []string // loop variables
	left  int
	uniq  int
	// limit of the product of the sizes of nested loops
	depth int
}

type tmpl struct {
	src  string
	want string
	n    map[string]int // what the interpretation has done
	ast  []*tnode
}

// genTemplate makes a template with about n nodes, and its result.
func genTemplate(c *C, x *tctx, n int) *tmpl {
	for try := 0; ; try++ {
		if try > 2 {
			n = n/2 + 1 // a large one may take too many steps
		}
		g := &tgen{c: c, x: x, left: n}
		var nodes []*tnode
		if c.P(60) {
			for i := c.Range(1, 3); i > 0; i-- {
				nm := "v_" + strconv.Itoa(i)
				nodes = append(nodes, &tnode{kind: 'a', name: nm, op: "=", e: &expr{kind: 'i', val: int64(i), lit: strconv.Itoa(i)}})
				g.nums = append(g.nums, nm)
			}
			if c.P(50) {
				nodes = append(nodes, &tnode{kind: 'a', name: "s_1", op: "=", e: &expr{kind: 's', val: "x", lit: "'x'"}})
				g.strs = append(g.strs, "s_1")
			}
		}
		nodes = append(nodes, g.nodes(n, false)...)
		t := &tmpl{n: map[string]int{}, ast: nodes}
		var b strings.Builder
		writeNodes(c, &b, nodes)
		t.src = b.String()
		if !chunksOK(t.src) {
			continue
		}
		it := &interp{ctx: x.T.Clone(), n: t.n}
		it.run(nodes)
		if it.bad || len(it.out) > 1<<20 {
			continue
		}
		t.want = it.out2()
		return t
	}
}

// chunksOK is false if some text of the template is one of the reserved words.
func chunksOK(s string) bool {
	for _, k := range []string{"!e", "!p", "!v", "!s", "!i", "!g", "!a", "!t", "!string", "!if", "!end", "!else", "!elseif", "!for", "!break"} {
		if strings.Contains(s, k) {
			return false
		}
	}
	return true
}

func (g *tgen) nodes(n int, loop bool) []*tnode {
	var out []*tnode
	for i := 0; i < n && g.left > 0; i++ {
		g.left--
		out = append(out, g.node(loop))
	}
	return out
}

func (g *tgen) node(loop bool) *tnode {
	c := g.c
	k := c.Intn(20)
	if k == 19 && !loop {
		k = 0
	}
	switch {
	case k < 5:
		return &tnode{kind: 't', text: tmplText(c)}
	case k < 10:
		// variable
		if len(g.loops) > 0 && c.P(50) {
			v := g.loops[c.Intn(len(g.loops))]
			st := []ref.Step{{Kind: 'n', Name: v}}
			switch c.Intn(5) {
			case 0:
				st = append(st, ref.Step{Kind: '[', N: 0})
			case 1:
				st = append(st, ref.Step{Kind: '[', N: 0}, ref.Step{Kind: '[', N: c.Intn(2)})
			}
			return &tnode{kind: 'v', steps: st, src: writePath(c, st, false), brace: c.P(40)}
		}
		if len(g.nums)+len(g.strs) > 0 && c.P(40) {
			all := append(append([]string{}, g.nums...), g.strs...)
			st := []ref.Step{{Kind: 'n', Name: all[c.Intn(len(all))]}}
			return &tnode{kind: 'v', steps: st, src: writePath(c, st, false), brace: c.P(40)}
		}
		p := g.x.any[c.Intn(len(g.x.any))]
		src := p.src
		if c.One(3) {
			src = writePath(c, p.steps, false)
		}
		return &tnode{kind: 'v', steps: p.steps, src: src, brace: c.P(40)}
	case k < 11:
		return &tnode{kind: '$'}
	case k < 14:
		n := &tnode{kind: 'i'}
		n.conds = append(n.conds, g.cond(loop))
		for c.One(3) {
			n.conds = append(n.conds, g.cond(loop))
		}
		if c.P(50) {
			n.conds = append(n.conds, tcond{els: true, body: g.nodes(c.Intn(4), loop)})
		}
		return n
	case k < 17:
		if g.depth >= 3 {
			return &tnode{kind: 't', text: "-"}
		}
		n := &tnode{kind: 'f'}
		if len(g.loops) > 0 && c.P(30) {
			v := g.loops[c.Intn(len(g.loops))]
			n.steps = []ref.Step{{Kind: 'n', Name: v}}
			if c.P(50) {
				n.steps = append(n.steps, ref.Step{Kind: '[', N: 0})
			}
		} else {
			n.steps = g.x.lists[c.Intn(len(g.x.lists))].steps
		}
		n.src = writePath(c, n.steps, true)
		g.uniq++
		n.name = c.Str("i", "item", "w", "é") + "l_" + strconv.Itoa(g.uniq)
		switch {
		case len(g.loops) > 0 && c.One(5):
			// a loop inside another one, with the same variable
			n.name = g.loops[c.Intn(len(g.loops))]
		case len(g.old) > 0 && c.One(5):
			n.name = g.old[c.Intn(len(g.old))]
		}
		g.old = append(g.old, n.name)
		g.loops = append(g.loops, n.name)
		g.depth++
		n.body = g.nodes(c.Range(0, 4), true)
		g.depth--
		g.loops = g.loops[:len(g.loops)-1]
		return n
	case k < 19:
		if len(g.strs) > 0 && c.P(30) {
			nm := g.strs[c.Intn(len(g.strs))]
			lit := rawText(c, c.Intn(3), "")
			le := &expr{kind: 's', val: lit, lit: "'" + lit + "'"}
			self := &expr{kind: 'p', steps: []ref.Step{{Kind: 'n', Name: nm}}, src: nm}
			return &tnode{kind: 'a', name: nm, op: "=", e: &expr{kind: 'b', op: "+", a: self, b: le}}
		}
		if len(g.nums) > 0 {
			nm := g.nums[c.Intn(len(g.nums))]
			switch c.Intn(4) {
			case 0:
				return &tnode{kind: 'a', name: nm, op: c.Str("+=", "-=", "*=", "%="), e: &expr{kind: 'i', val: int64(3), lit: "3"}}
			case 1:
				return &tnode{kind: 'a', name: nm, op: "=", e: g.numExpr(2)}
			default:
				self := &expr{kind: 'p', steps: []ref.Step{{Kind: 'n', Name: nm}}, src: nm}
				return &tnode{kind: 'a', name: nm, op: "=", e: &expr{kind: 'b', op: "+", a: self, b: &expr{kind: 'i', val: int64(1), lit: "1"}}}
			}
		}
		return &tnode{kind: 'a', name: "n_" + strconv.Itoa(c.Intn(3)), op: "=", e: genTyped(c, g.x.ectx, c.Byte("ifsb"), 2)}
	default:
		return &tnode{kind: 'b'}
	}
}

func (g *tgen) numVar() *expr {
	nm := g.nums[g.c.Intn(len(g.nums))]
	return &expr{kind: 'p', steps: []ref.Step{{Kind: 'n', Name: nm}}, src: nm}
}

func (g *tgen) numExpr(depth int) *expr {
	c := g.c
	if depth == 0 || c.P(30) {
		if len(g.nums) > 0 && c.P(60) {
			return g.numVar()
		}
		i := int64(c.Intn(10))
		return &expr{kind: 'i', val: i, lit: strconv.FormatInt(i, 10)}
	}
	return &expr{kind: 'b', op: c.Str("+", "-", "*"), a: g.numExpr(depth - 1), b: g.numExpr(depth - 1)}
}

func (g *tgen) cond(loop bool) tcond {
	c := g.c
	t := tcond{}
	switch {
	case c.P(25):
		p := g.x.bools[c.Intn(len(g.x.bools))]
		t.path, t.src = p.steps, p.src
	case len(g.nums) > 0 && c.P(60):
		i := int64(c.Intn(6))
		t.e = &expr{kind: 'b', op: c.Str("==", "!=", "<", ">", "<=", ">="), a: g.numVar(), b: &expr{kind: 'i', val: i, lit: strconv.FormatInt(i, 10)}}
	default:
		t.e = genTyped(c, g.x.ectx, 'b', c.Range(0, 3))
		if c.One(6) {
			e := genTyped(c, g.x.ectx, c.Byte("is"), c.Range(0, 2))
			v, _ := e.eval(g.x.T)
			if _, ok := e.truth(g.x.T, v); ok {
				t.e = e
			}
		}
	}
	t.body = g.nodes(c.Intn(4), loop)
	return t
}

// tmplText is literal text.
func tmplText(c *C) string {
	var s string
	switch c.Intn(8) {
	case 0:
		s = c.Str(" ", "\n", "\r\n", ".", ". ", "..", ", ", ") ", "]", "}", "!", "?", ":", ";", "/", "-", "=", "<", ">", "#", "\\", "\"", "'", "`", "@", "%", "&", "_", "a", "(x)", "[0]", "{0}", "{}", ".x", ".'x'", ".[0]", "1", "é")
	case 1:
		s = noCtlBytes(c.DictStr(), "\t\n\r")
	case 2:
		s = rawText(c, c.Num(200), "psstnurb")
	default:
		s = rawText(c, c.Range(1, 10), "psstnu")
	}
	return strings.ReplaceAll(s, "$", "")
}

// continues tells if a text after a variable or directive would be taken for a part of it.
func continues(s string) bool {
	if s == "" {
		return false
	}
	r, _ := utf8.DecodeRuneInString(s)
	if unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || strings.ContainsRune("[({", r) {
		return true
	}
	if r == '.' {
		if len(s) == 1 {
			return false
		}
		r, _ = utf8.DecodeRuneInString(s[1:])
		return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || strings.ContainsRune("[({\"'`", r)
	}
	return false
}

// writeNodes writes a template. A text that would continue what is before it is preceded by
// a space, that is also added to the node.
func writeNodes(c *C, b *strings.Builder, nodes []*tnode) {
	var open bool // what has been written last may be continued
	var dot bool  // and it has been followed by a dot
	var write func(nodes []*tnode)
	write = func(nodes []*tnode) {
		for _, n := range nodes {
			switch n.kind {
			case 't':
				if n.text == "" {
					continue
				}
				if dot && continues("."+n.text) || open && !dot && continues(n.text) {
					n.text = " " + n.text
				}
				b.WriteString(n.text)
				// A dot alone after a variable can be continued by the next text
				dot = open && !dot && n.text == "."
				open = dot
			case '$':
				b.WriteString("$\\")
				open, dot = false, false
			case 'v':
				if n.brace {
					b.WriteString("${" + c.Str("", "", " ") + n.src + c.Str("", "", " ") + "}")
					open = false
				} else {
					b.WriteString("$" + n.src)
					open = true
				}
				dot = false
			case 'a':
				b.WriteString("$(" + n.name + c.Str("", " ") + n.op + c.Str("", " ") + n.e.write(c, 30) + c.Str("", " ") + ")")
				open, dot = false, false
			case 'b':
				b.WriteString("$break")
				open, dot = true, false
			case 'f':
				b.WriteString("$for(" + c.Str("", "", " ") + n.name + c.Str(",", ",", ", ", " , ") + n.src + c.Str("", "", " ") + ")")
				open, dot = true, false
				write(n.body)
				b.WriteString("$end")
				open, dot = true, false
			case 'i':
				for i, k := range n.conds {
					src := k.src
					if k.e != nil {
						src = k.e.write(c, 30)
					}
					switch {
					case i == 0:
						b.WriteString("$if(" + c.Str("", "", " ") + src + c.Str("", "", " ") + ")")
					case k.els:
						b.WriteString("$else")
					default:
						b.WriteString("$elseif(" + c.Str("", "", " ") + src + ")")
					}
					open, dot = true, false
					write(k.body)
				}
				b.WriteString("$end")
				open, dot = true, false
			}
		}
	}
	write(nodes)
}

// interp processes a template.
type interp struct {
	ctx   *T
	out   []byte
	bad   bool
	n     map[string]int
	steps int
	vars  []string // of the loops around
}

func (it *interp) out2() string { return string(it.out) }

// run returns true at $break.
func (it *interp) run(nodes []*tnode) bool {
	for _, n := range nodes {
		it.steps++
		if it.steps > 20000 || len(it.out) > 1<<20 {
			it.bad = true
		}
		if it.bad {
			return false
		}
		switch n.kind {
		case 't':
			it.n["text"]++
			it.out = append(it.out, n.text...)
		case '$':
			it.out = append(it.out, '$')
		case 'v':
			it.n["variables"]++
			it.out = append(it.out, textOf(ref.Walk(it.ctx, n.steps))...)
		case 'a':
			it.n["assignments"]++
			v, ok := n.e.eval(it.ctx)
			if n.op != "=" && ok {
				var old interface{}
				old, ok = (&expr{kind: 'p', steps: []ref.Step{{Kind: 'n', Name: n.name}}}).eval(it.ctx)
				if ok {
					v, ok = binary(n.op[:1], old, v)
				}
			}
			if !ok {
				it.bad = true
				return false
			}
			ref.Set(it.ctx, []ref.Step{{Kind: 'n', Name: n.name}}, v)
		case 'i':
			for i, k := range n.conds {
				yes := k.els
				if k.e != nil {
					v, ok := k.e.eval(it.ctx)
					if !ok {
						it.bad = true
						return false
					}
					yes, ok = k.e.truth(it.ctx, v)
					if !ok {
						it.bad = true
						return false
					}
				} else if k.path != nil {
					r := ref.Walk(it.ctx, k.path)
					if r.Node != nil && len(r.Node.Out) == 1 {
						switch v := r.Node.Out[0].V.(type) {
						case int:
							yes = v != 0
						case int64:
							yes = v != 0
						default:
							yes = ref.Str(v) == "true"
						}
					}
				}
				if yes {
					it.n["branch "+strconv.Itoa(min(i, 2))]++
					if k.els {
						it.n["else"]++
					}
					if it.run(k.body) {
						it.n["break in if"]++
						return true
					}
					break
				}
			}
		case 'f':
			r := ref.Walk(it.ctx, n.steps)
			if r.Node == nil {
				continue
			}
			list := r.Node.Out
			if r.Wrapped {
				list = list[0].Out
			}
			list = append([]*T(nil), list...)
			for i, e := range list {
				// the variable is bound to the element
				ref.Set(it.ctx, []ref.Step{{Kind: 'n', Name: n.name}}, &T{Out: []*T{e}})
				it.n["iterations"]++
				if i == 100 {
					it.n["long lists"]++
				}
				for _, v := range it.vars {
					if v == n.name {
						it.n["same variable inside"]++
						break
					}
				}
				if len(list) == 1 {
					it.n["loops of one"]++
				}
				it.vars = append(it.vars, n.name)
				brk := it.run(n.body)
				it.vars = it.vars[:len(it.vars)-1]
				if brk {
					if i < len(list)-1 {
						it.n["loops ended early"]++
					}
					break
				}
			}
		case 'b':
			it.n["breaks"]++
			return true
		}
	}
	return false
}

// textOf is the text of a value.
func textOf(r ref.Result) string {
	if r.Node == nil {
		return ""
	}
	if len(r.Node.Out) == 1 && len(r.Node.Out[0].Out) == 0 {
		return ref.Str(r.Node.Out[0].V)
	}
	return r.Node.Graph().Text()
}

var _ = fmt.Sprint

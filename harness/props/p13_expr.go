package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P13",
		Rule:  "random typed expressions with a context; the value is compared with that of an own evaluation of the syntax tree, directly and inside assignments, conditions, indexes, selectors, groups and arguments. Non-trivial: at least 3 nodes; distinct by text and context.",
		Quick: 600000, Thoro: 1500000, Case: p13,
		Must:   []string{"value i", "value f", "value s", "value b", "in assignment", "in condition", "in index", "in selector", "in group", "in arguments", "condition of type i", "condition of type s", "condition of type b", "again with other values", "hundreds of terms"},
		Assume: []string{"out of the domain: division by zero, overflow to infinity, mixing text with numbers, ordering of text"},
	})
}

// rec has methods that record their arguments.
type rec struct{ got []interface{} }

func (r *rec) I(i int64) string              { r.got = append(r.got, i); return "ok" }
func (r *rec) F(f float64) string            { r.got = append(r.got, f); return "ok" }
func (r *rec) S(s string) string             { r.got = append(r.got, s); return "ok" }
func (r *rec) B(b bool) string               { r.got = append(r.got, b); return "ok" }
func (r *rec) Two(i int64, f float64) string { r.got = append(r.got, i, f); return "ok" }

func p13(c *C) {
	x := exprContext(c)
	depth := c.Range(1, 4)
	if c.One(30) {
		depth = c.Range(5, 9)
	}
	k := c.Byte("iifsbb")
	e := genTyped(c, x, k, depth)
	if c.One(20) {
		// a long chain of one precedence or of all
		i := c.Range(3, 60)
		if c.One(25) {
			i = c.Num(1500)
			c.Ev("hundreds of terms")
		}
		for ; i > 0; i-- {
			n := gen1(c, x, 'i', 0)
			m := &expr{kind: 'b', op: c.Str("+", "-", "*", "-", "/", "%"), a: e, b: n}
			if _, ok := m.eval(x.T); k == 'i' && ok {
				e = m
			}
		}
	}
	want, _ := e.eval(x.T)
	s := e.write(c, []int{0, 0, 20, 50, 100}[c.Intn(5)])
	ctx := x.T
	c.Info = func() string { return s + "\ncontext " + ctx.String() + "\nexpected " + ref.Show(want) }

	g := ctx.Graph()
	pe := ogdl.NewExpression(s)
	v, err := g.Eval(pe)
	if err != nil || !ref.Same(canon(v), want) {
		c.Fail("%s evaluates to %s (error %v) instead of %s", s, ref.Show(v), err, ref.Show(want))
	}
	if v2, _ := g.Eval(pe); !ref.Same(canon(v2), want) {
		c.Fail("%s evaluates to %s the second time, instead of %s", s, ref.Show(v2), ref.Show(want))
	}
	if c.One(3) {
		// the same expression with other values
		ctx2 := otherValues(c, ctx, false)
		if w2, ok := e.eval(ctx2); ok {
			g2 := ctx2.Graph()
			if v2, err := g2.Eval(pe); err != nil || !ref.Same(canon(v2), w2) {
				c.Fail("%s evaluates first to %s, and then, with the values %s, to %s (error %v) instead of %s", s, ref.Show(v), ctx2.String(), ref.Show(v2), err, ref.Show(w2))
			}
			if v2, _ := g.Eval(pe); !ref.Same(canon(v2), want) {
				c.Fail("%s evaluates to %s after an evaluation with other values, instead of %s", s, ref.Show(v2), ref.Show(want))
			}
			if !ref.Same(want, w2) {
				c.Ev("again with other values")
			}
		}
	}
	if d := ref.Diff(ctx, ref.From(g), ref.Same); d != "" {
		c.Fail("the evaluation changes the context: %s", d)
	}
	c.Ev("value " + string(k))
	if e.size() > 2 {
		c.SeenStr(s + ctx.String())
	}

	// In other places
	for n := 0; n < 2; n++ {
		g := ctx.Graph()
		switch c.Intn(7) {
		case 0:
			target := "result_" + exprName(c)
			t := ogdl.NewTemplate("$(" + target + c.Str("=", " = ", "= ", " =") + s + c.Str("", " ") + ")")
			out := string(t.Process(g))
			if out != "" {
				c.Fail("$(%s=%s) writes %q", target, s, out)
			}
			if v := g.Node(target).Interface(); !ref.Same(canon(v), want) {
				c.Fail("%s assigned to a variable is %s instead of %s", s, ref.Show(v), ref.Show(want))
			}
			c.Ev("in assignment")
		case 1:
			yes, ok := e.truth(x.T, want)
			if !ok {
				continue
			}
			c.Ev("condition of type " + string(k))
			y := fmt.Sprint(yes)
			out := string(ogdl.NewTemplate("$if(" + c.Str("", " ") + s + c.Str("", " ") + ") true$else false$end.").Process(g))
			if out != " "+y+"." {
				c.Fail("$if(%s) takes the branch %q", s, out)
			}
			out = string(ogdl.NewTemplate("$if('a'=='b')x$elseif(" + s + ") true$else false$end").Process(g))
			if out != " "+y {
				c.Fail("$elseif(%s) takes the branch %q", s, out)
			}
			c.Ev("in condition")
		case 2, 3:
			if k != 'i' {
				continue
			}
			// (s)-(K) is the index
			i := c.Intn(5)
			kk := want.(int64) - int64(i)
			idx := "(" + s + ")-(" + strconv.FormatInt(kk, 10) + ")"
			if kk == 0 {
				idx = s
			}
			list := &ogdl.Graph{This: "list_0"}
			for j := 0; j < 5; j++ {
				list.Out = append(list.Out, &ogdl.Graph{This: "e" + strconv.Itoa(j)})
			}
			g.Out = append(g.Out, list)
			p := "list_0[" + c.Str("", " ") + idx + c.Str("", " ") + "]"
			w := "e" + strconv.Itoa(i)
			if v := g.Get(p).String(); v != w {
				c.Fail("Get(%s) gives %q instead of %q", p, v, w)
			}
			if v, _ := g.Eval(ogdl.NewExpression("'<' + " + p + "+'>'")); v != "<"+w+">" {
				c.Fail("%s gives %v instead of %q", p, v, w)
			}
			if out := string(ogdl.NewTemplate("a $" + p + " b").Process(g)); out != "a "+w+" b" {
				c.Fail("$%s gives %q instead of %q", p, out, w)
			}
			c.Ev("in index")
			for j := 0; j < 5; j++ {
				g.Out = append(g.Out, &ogdl.Graph{This: "many_0", Out: []*ogdl.Graph{{This: "m" + strconv.Itoa(j)}}})
			}
			p = "many_0{" + idx + "}"
			if v := g.Get(p).String(); v != "m"+strconv.Itoa(i) {
				c.Fail("Get(%s) gives %q instead of m%d", p, v, i)
			}
			c.Ev("in selector")
		case 4:
			if k != 'i' && k != 's' {
				continue
			}
			name := fmt.Sprint(want)
			if name == "" || strings.HasPrefix(name, "!") {
				continue
			}
			g.Out = append(g.Out, &ogdl.Graph{This: "grp_0", Out: []*ogdl.Graph{{This: "no" + name, Out: []*ogdl.Graph{{This: "wrong"}}}, {This: name, Out: []*ogdl.Graph{{This: "right"}}}}})
			p := "grp_0.(" + s + ")"
			if v := g.Get(p).String(); v != "right" {
				c.Fail("Get(%s) gives %q", p, v)
			}
			if out := string(ogdl.NewTemplate("$" + p + "!").Process(g)); out != "right!" {
				c.Fail("$%s gives %q", p, out)
			}
			c.Ev("in group")
		default:
			r := &rec{}
			g.Out = append(g.Out, &ogdl.Graph{This: "obj_0", Out: []*ogdl.Graph{{This: r}}})
			if _, ok := v.(int); ok {
				continue // the type of % on floats
			}
			m := map[byte]string{'i': "I", 'f': "F", 's': "S", 'b': "B"}[k]
			call := "obj_0." + m + "(" + c.Str("", " ") + s + c.Str("", " ") + ")"
			wantArgs := []interface{}{want}
			if c.P(40) && (k == 'i' || k == 'f') {
				other := byte('i')
				if k == 'i' {
					other = 'f'
				}
				e2 := genTyped(c, x, other, 2)
				w2, _ := e2.eval(x.T)
				s2 := e2.write(c, 20)
				if k == 'i' {
					call = "obj_0.Two(" + s + c.Str(",", ", ") + s2 + ")"
					wantArgs = []interface{}{want, w2}
				} else {
					v2, _ := ctx.Graph().Eval(ogdl.NewExpression(s2))
					if _, ok := v2.(int); ok {
						continue
					}
					call = "obj_0.Two(" + s2 + c.Str(",", ", ") + s + ")"
					wantArgs = []interface{}{w2, want}
				}
			}
			ev := "Eval"
			var out string
			if c.P(50) {
				ov, _ := g.Eval(ogdl.NewPath(call))
				out = fmt.Sprint(ov)
			} else {
				ev = "template"
				out = string(ogdl.NewTemplate("$" + call).Process(g))
			}
			if out != "ok" || len(r.got) != len(wantArgs) {
				c.Fail("%s (%s) gives %q, called with %v", call, ev, out, r.got)
			}
			for i := range wantArgs {
				if !ref.Same(r.got[i], wantArgs[i]) {
					c.Fail("%s: argument %d is %s instead of %s", call, i, ref.Show(r.got[i]), ref.Show(wantArgs[i]))
				}
			}
			c.Ev("in arguments")
		}
	}
}

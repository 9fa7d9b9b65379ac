package props

import (
	"bytes"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

// What the library has returned belongs to the caller: it stays as it is whatever is done
// next, and changing it changes nothing in the library.

// disturb makes some calls that have nothing to do with what was returned before.
func disturb(c *C, n int) {
	word := func() string {
		return c.Str("a", "b", "true", "12", "-3.5", "xyz", "some text", "äß", "name_of_a_node", "'q'")
	}
	t := shape(c, 1+c.Intn(12), func(int) interface{} { return word() })
	g := t.Graph()
	for ; n > 0; n-- {
		switch c.Intn(16) {
		case 0:
			ogdl.FromString(g.Text())
		case 1, 2:
			g.Binary()
		case 3:
			ogdl.FromBinary(g.Binary())
		case 4, 5:
			g.JSON()
		case 6:
			ogdl.FromJSON([]byte(`{"a": [1, "b", {"c": 2.5}], "` + c.Str("a", "b", "c") + `": true}`))
		case 7, 8:
			ogdl.NewTemplate("text $" + c.Str("a", "b", "xyz") + " $if(a==12)x$else y$end $for(i,a)$i$end").Process(g)
		case 9:
			ogdl.NewTemplate("$a$b$c").Process(ogdl.FromString("a 1\nb 2\nc 33333333333333333333333333333333333333333333333333"))
		case 10:
			ogdl.FromStringTypes("a 1\n  b 2.5 true\nc " + c.Str("x", "y"))
		case 11:
			g.Eval(ogdl.NewExpression("a + 1*" + c.Str("2", "3") + " == b.c[1]"))
		case 12:
			g.Get(c.Str("a.b", "a[0]", "b{}", "xyz.a"))
		case 13:
			_, _, _ = g.Html("x"), g.Show(), g.Text()
		case 14:
			g.Clone().Set("a.b", 1)
		default:
			l := &ogdl.Log{}
			l.Add(g)
			l.AddBinary(g.Binary())
		}
	}
}

// keptBytes checks that b, a result of f, stays as it is while f is called for others, and
// that f still gives the same after b has been overwritten. f may be nil.
func keptBytes(c *C, what string, b []byte, f func() []byte) {
	was := append([]byte{}, b...)
	disturb(c, c.Range(1, 4))
	if !bytes.Equal(b, was) {
		c.Fail("what %s returned, %s, has become %s after calls that do not concern it", what, core.Sample(string(was)), core.Sample(string(b)))
	}
	c.Ev("results kept")
	if f == nil {
		return
	}
	b2 := f()
	if !bytes.Equal(b, was) {
		c.Fail("what %s returned, %s, has become %s after the same call", what, core.Sample(string(was)), core.Sample(string(b)))
	}
	if !bytes.Equal(b2, was) {
		c.Fail("%s gives %s the second time, and %s the first", what, core.Sample(string(b2)), core.Sample(string(was)))
	}
	for i := range b {
		b[i] = 'Z'
	}
	if !bytes.Equal(b2, was) {
		c.Fail("two results of %s, %s, share memory", what, core.Sample(string(was)))
	}
	if b3 := f(); !bytes.Equal(b3, was) {
		c.Fail("%s gives %s after its result, %s, was overwritten", what, core.Sample(string(b3)), core.Sample(string(was)))
	}
}

// keptGraph checks that a graph stays as it is during other calls.
func keptGraph(c *C, what string, g *ogdl.Graph) {
	was := ref.From(g)
	disturb(c, c.Range(1, 4))
	if d := ref.Diff(was, ref.From(g), ref.Same); d != "" {
		c.Fail("the graph that %s returned has changed after calls that do not concern it: %s", what, d)
	}
	c.Ev("results kept")
}

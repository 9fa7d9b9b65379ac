package props

import (
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P14",
		Rule:  "random templates (text, variables, conditions, loops, breaks, assignments, nested) with a context, compared with an own interpretation of the syntax tree from which they were written. Non-trivial: more than one node; distinct by source and context.",
		Quick: 400000, Thoro: 1500000, Case: p14,
		Must: []string{"text", "variables", "assignments", "branch 0", "branch 1", "branch 2", "else", "iterations", "loops of one", "loops ended early", "break in if", "breaks", "results kept", "same variable inside", "long lists", "again with another context", "more than ten thousand elements"},
	})
}

// p14Long is a loop over a very long list.
func p14Long(c *C) {
	list, v, o := "l", "v", "o"
	n := c.Range(1000, 10000)
	if c.P(60) {
		n = c.Range(10000, 40000)
	}
	x := &T{}
	l := x.Add(list)
	other := x.Add(o)
	other.Add("start")
	stop, last := -1, "start"
	if c.P(40) {
		stop = c.Intn(n)
	}
	var want strings.Builder
	sep := c.Str(" ", ";", "\n", "-x-")
	for i := 0; i < n; i++ {
		if stop >= 0 && i == stop {
			l.Add("here")
			continue
		}
		e := strconv.Itoa(i)
		l.Add(e)
		if stop < 0 || i < stop {
			want.WriteString(e + sep)
			last = e
		}
	}
	src := "<$for(" + v + "," + list + ")$if(" + v + "=='here')$break$end$(" + o + "=" + v + ")${" + v + "}" + sep + "$end>${" + o + "}"
	exp := "<" + want.String() + ">" + last
	c.Info = func() string {
		return src + "\nwith a list of " + strconv.Itoa(n) + " elements, 'here' at " + strconv.Itoa(stop)
	}
	got := string(ogdl.NewTemplate(src).Process(x.Graph()))
	if got != exp {
		c.Fail("the template gives %s (%d bytes) instead of %s (%d)", core.Sample(got), len(got), core.Sample(exp), len(exp))
	}
	if n > 10000 {
		c.Ev("more than ten thousand elements")
	}
	c.SeenStr(src + strconv.Itoa(n))
}

func p14(c *C) {
	if c.One(3000) {
		p14Long(c)
		return
	}
	x := tmplContext(c)
	n := c.Range(1, 12)
	if c.One(15) {
		n = c.Range(12, 120)
		if c.One(20) {
			n = c.Num(2000) + 100
		}
	}
	t := genTemplate(c, x, n)
	if c.One(400) {
		// a byte order mark is text
		t.src, t.want = "\ufeff"+t.src, "\ufeff"+t.want
		t.ast = append([]*tnode{{kind: 't', text: "\ufeff"}}, t.ast...)
		c.Ev("byte order mark")
	}
	c.Info = func() string {
		return core.Sample(t.src) + "\ncontext " + x.String() + "\nexpected " + core.Sample(t.want)
	}
	g := x.Graph()
	var tp *ogdl.Graph
	if c.P(70) {
		tp = ogdl.NewTemplate(t.src)
	} else {
		tp = ogdl.NewTemplateFromBytes([]byte(t.src))
	}
	got := string(tp.Process(g))
	if got != t.want {
		c.Fail("the template gives %s instead of %s", core.Sample(got), core.Sample(t.want))
	}
	if c.One(3) {
		// the same template with another context
		x2 := otherValues(c, x.T, true)
		it := &interp{ctx: x2.Clone(), n: map[string]int{}}
		it.run(t.ast)
		if !it.bad && len(it.out) < 1<<20 {
			got := string(tp.Process(x2.Graph()))
			if got != it.out2() {
				c.Fail("the template gives first %s, and then with the context %s\n%s instead of %s", core.Sample(t.want), x2.String(), core.Sample(got), core.Sample(it.out2()))
			}
			if got != t.want {
				c.Ev("again with another context")
			}
			if got = string(tp.Process(x.Graph())); got != t.want {
				c.Fail("after processing another context, the template gives %s instead of %s", core.Sample(got), core.Sample(t.want))
			}
		}
	}
	if c.One(5) {
		keptBytes(c, "Process", tp.Process(x.Graph()), func() []byte { return tp.Process(x.Graph()) })
	}
	for k, v := range t.n {
		c.EvN(k, v)
	}
	if len(t.ast) > 1 {
		c.SeenStr(t.src + x.String())
	}
}

var _ = ref.Same

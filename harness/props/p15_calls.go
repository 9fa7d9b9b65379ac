package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P15",
		Rule:  "contexts with functions of random signatures, objects with methods and remote functions, all of which record their calls; calls with literal, computed, stored, nested and subtree arguments, evaluated as paths, expressions and in templates. The recorded calls (callee, order, argument values and types) and the result are compared with those written. Wrong numbers and types of arguments must give an error and no call. Non-trivial: at least one argument; distinct by source.",
		Quick: 200000, Thoro: 3000000, Case: p15,
		Must: []string{"function calls", "method calls", "remote calls", "nested calls", "wrong count", "wrong type", "method with unconvertible argument", "method with missing arguments", "converted node", "graph arguments", "graph results", "path after call", "in template", "in condition", "in index", "in loop", "in assignment", "in operation", "no result", "in Get", "two types of objects", "method that does not exist", "text for a boolean", "variadic methods", "fraction dropped", "many arguments", "calls of what is no function", "missing argument of a function", "missing argument of a method", "types of the same name", "a function that gives another value each time", "text for an integer", "text for a float", "two results", "ten parameters", "many parameters", "arguments on several lines"},
	})
}

type callRec struct {
	name string
	args []interface{} // *T for graphs
}

func (r callRec) String() string {
	var s []string
	for _, a := range r.args {
		s = append(s, showArg(a))
	}
	return r.name + "(" + strings.Join(s, ", ") + ")"
}

func showArg(a interface{}) string {
	if t, ok := a.(*T); ok {
		return ref.Short(t)
	}
	return fmt.Sprintf("%T:%s", a, ref.Show(a))
}

func sameArg(a, b interface{}) bool {
	t, ok := a.(*T)
	u, ok2 := b.(*T)
	if ok || ok2 {
		return ok && ok2 && ref.Diff(t, u, ref.Same) == ""
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return reflect.DeepEqual(a, b)
}

type caller struct {
	log []callRec
}

func (r *caller) note(name string, args ...interface{}) {
	for i, a := range args {
		if g, ok := a.(*ogdl.Graph); ok {
			if g == nil {
				args[i] = nil
			} else {
				args[i] = ref.From(g)
			}
		}
	}
	r.log = append(r.log, callRec{name, args})
}

// obj15 has methods.
type obj15 struct {
	r    *caller
	name string
	Val  int
}

func (o *obj15) I(a int64) int64        { o.r.note(o.name+".I", a); return a + 1 }
func (o *obj15) F(a float64) float64    { o.r.note(o.name+".F", a); return a + 0.5 }
func (o *obj15) S(a string) string      { o.r.note(o.name+".S", a); return a + "!" }
func (o *obj15) B(a bool) bool          { o.r.note(o.name+".B", a); return !a }
func (o *obj15) N(a int) int            { o.r.note(o.name+".N", a); return a + 2 }
func (o *obj15) G(a *ogdl.Graph) string { o.r.note(o.name+".G", a); return "graph" }
func (o *obj15) L(a []string) int64 {
	o.r.note(o.name+".L", append([]string{}, a...))
	return int64(len(a))
}
func (o *obj15) V(a ...string) int64 {
	o.r.note(o.name+".V", append([]string{}, a...))
	return int64(len(a))
}
func (o *obj15) IV(a int64, b ...string) int64 {
	o.r.note(o.name+".IV", a, append([]string{}, b...))
	return a + int64(len(b))
}
func (o *obj15) IS(a int64, b string) { o.r.note(o.name+".IS", a, b) }
func (o *obj15) None() string         { o.r.note(o.name + ".None"); return "none" }
func (o *obj15) SFB(a string, b float64, c bool) string {
	o.r.note(o.name+".SFB", a, b, c)
	return a
}
func (o *obj15) Two(a int64) (int64, string) {
	o.r.note(o.name+".Two", a)
	return a + 5, "second result"
}
func (o *obj15) Err(a string) (string, error) { o.r.note(o.name+".Err", a); return a + "?", nil }
func (o *obj15) Ten(a int64, b string, d float64, e bool, f int64, g string, h float64, i bool, j int, k string) string {
	o.r.note(o.name+".Ten", a, b, d, e, f, g, h, i, j, k)
	return b + g + k
}
func (o *obj15) SSS(a, b, c string) string { o.r.note(o.name+".SSS", a, b, c); return a + b + c }
func (o *obj15) Tree(a string) *ogdl.Graph {
	o.r.note(o.name+".Tree", a)
	return resultTree(a)
}

// wide15 is another type, that has methods of the same names in other places.
type wide15 struct{ *obj15 }

func (o *wide15) Aa(a int64) int64   { o.r.note(o.name+".Aa", a); return a - 1 }
func (o *wide15) E(a string) string  { o.r.note(o.name+".E", a); return "E" + a }
func (o *wide15) H() string          { o.r.note(o.name + ".H"); return "h" }
func (o *wide15) M(a float64) string { o.r.note(o.name+".M", a); return "m" }

var methodsWide = map[string]string{"Aa": "i", "E": "s", "H": "", "M": "f"}

var methods15 = map[string]string{"I": "i", "F": "f", "S": "s", "B": "b", "N": "n", "G": "g", "L": "l", "V": "l", "IV": "il", "IS": "is", "None": "", "SFB": "sfb", "SSS": "sss", "Tree": "s", "Two": "i", "Err": "s", "Ten": "isfbisfbns"}

func resultTree(a string) *ogdl.Graph {
	return &ogdl.Graph{This: "_", Out: []*ogdl.Graph{
		{This: "got", Out: []*ogdl.Graph{{This: a}}},
		{This: "in", Out: []*ogdl.Graph{{This: "deep", Out: []*ogdl.Graph{{This: int64(7)}}}, {This: "x"}}},
	}}
}

// fun15 is a function of a context.
type fun15 struct {
	name, path string
	in         string // kinds of arguments
	out        byte   // i f s b, t: tree, -: nothing
	res        interface{}
	more       bool // two results
}

var kindType = map[byte]reflect.Type{'i': reflect.TypeOf(int64(0)), 'f': reflect.TypeOf(0.5), 's': reflect.TypeOf(""), 'b': reflect.TypeOf(true), 'g': reflect.TypeOf(&ogdl.Graph{}), 't': reflect.TypeOf(&ogdl.Graph{})}

func (f *fun15) make(r *caller) interface{} {
	var in, out []reflect.Type
	for i := range f.in {
		in = append(in, kindType[f.in[i]])
	}
	if f.out != '-' {
		out = append(out, kindType[f.out])
		if f.more {
			out = append(out, kindType['s'])
		}
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) []reflect.Value {
		var a []interface{}
		for _, v := range args {
			a = append(a, v.Interface())
		}
		r.note(f.name, a...)
		var res []reflect.Value
		switch f.out {
		case '-':
			return nil
		case 't':
			res = append(res, reflect.ValueOf(resultTree(f.res.(string))))
		default:
			res = append(res, reflect.ValueOf(f.res))
		}
		if f.more {
			res = append(res, reflect.ValueOf("second result"))
		}
		return res
	}).Interface()
}

type world15 struct {
	*ectx
	c     *C
	r     *caller
	funs  []*fun15
	objs  []*obj15
	wide  []bool
	opath []string
	rem   string // path of the remote function
	trees []pathVar
	leafs map[byte][]pathVar // nodes with one scalar, that is convertible to a kind
	list  string
	g     *ogdl.Graph
}

func newWorld(c *C) *world15 {
	w := &world15{c: c, r: &caller{}, ectx: &ectx{T: &T{V: "_"}, vars: map[byte][]pathVar{}}}
	used := map[string]bool{"l_1": true, "l_2": true}
	fresh := func() string {
		for {
			n := exprName(c)
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	add := func(k byte, v interface{}) {
		n := fresh()
		st := []ref.Step{{Kind: 'n', Name: n}}
		if c.One(3) {
			m := exprName(c)
			w.T.Add(n).Add(m).Add(v)
			st = append(st, ref.Step{Kind: 'n', Name: m})
		} else if c.One(4) {
			l := w.T.Add(n)
			l.Add("zero")
			l.Add(v)
			st = append(st, ref.Step{Kind: '[', N: 1})
		} else {
			w.T.Add(n).Add(v)
		}
		w.vars[k] = append(w.vars[k], pathVar{st, writePath(c, st, true)})
	}
	for i := 0; i < 2; i++ {
		add('i', intLit(c))
		add('f', fltLit(c))
		add('s', strLit(c))
		add('b', c.P(50))
	}
	// subtrees
	for i := 0; i < 2; i++ {
		n := fresh()
		t := w.T.Add(n)
		for j := c.Range(2, 5); j > 0; j-- {
			name := exprName(c)
			if c.P(20) {
				name = []string{"a b", "", " x ", "1,2", "two\nlines", strLit(c)}[c.Intn(6)]
			}
			t.Add(name).Add(c.Range(0, 99))
		}
		st := []ref.Step{{Kind: 'n', Name: n}}
		w.trees = append(w.trees, pathVar{st, writePath(c, st, true)})
	}
	w.leafs = map[byte][]pathVar{}
	for _, k := range []byte("ifbn") {
		for i := 0; i < 2; i++ {
			var v interface{}
			switch k {
			case 'i', 'n':
				x := c.Range(-999, 99999)
				if c.One(4) {
					x = int(c.Uint64()) >> uint(c.Intn(20))
				}
				v = []interface{}{strconv.Itoa(x), x, int64(x)}[c.Intn(3)]
			case 'f':
				x := float64(c.Range(-900, 900)) / 8
				v = []interface{}{strconv.FormatFloat(x, 'f', -1, 64), x}[c.Intn(2)]
			case 'b':
				v = []interface{}{"true", "false", true, false}[c.Intn(4)]
			}
			n := fresh()
			w.T.Add(n).Add(v)
			st := []ref.Step{{Kind: 'n', Name: n}}
			pv := pathVar{st, writePath(c, st, true)}
			w.leafs[k] = append(w.leafs[k], pv)
			w.leafs['s'] = append(w.leafs['s'], pv)
			w.leafs['g'] = append(w.leafs['g'], pv)
		}
	}
	w.list = fresh()
	l := w.T.Add(w.list)
	for i := 0; i < 6; i++ {
		l.Add("e" + strconv.Itoa(i))
	}
	w.g = w.T.Graph()
	// callables
	place := func(v interface{}) string {
		n := fresh()
		st := []ref.Step{{Kind: 'n', Name: n}}
		node := w.g.Add(n)
		for c.One(3) && len(st) < 3 {
			m := c.Str("two words", "f", "Sub", "x-y", "Ünï", "a.b")
			if c.P(50) {
				node.Add("before").Add("z")
			}
			st = append(st, ref.Step{Kind: 'n', Name: m})
			node = node.Add(m)
		}
		node.Add(v)
		return writePath(c, st, true)
	}
	for i := c.Range(2, 5); i > 0; i-- {
		f := &fun15{name: "f" + strconv.Itoa(i), more: c.One(4)}
		j := c.Intn(5)
		if c.One(12) {
			j = c.Range(6, 20)
			c.Ev("many parameters")
		}
		for ; j > 0; j-- {
			f.in += string(c.Byte("ifsbifsbg"))
		}
		f.out = c.Byte("ifsbifsbt-")
		switch f.out {
		case 'i':
			f.res = intLit(c)
		case 'f':
			f.res = fltLit(c)
		case 's', 't':
			f.res = "r" + strconv.Itoa(c.Intn(1000))
		case 'b':
			f.res = c.P(50)
		}
		f.path = place(f.make(w.r))
		w.funs = append(w.funs, f)
	}
	for i := 0; i < 2; i++ {
		o := &obj15{r: w.r, name: "o" + strconv.Itoa(i)}
		w.objs = append(w.objs, o)
		wide := c.P(40)
		w.wide = append(w.wide, wide)
		if wide {
			w.opath = append(w.opath, place(&wide15{o}))
		} else {
			w.opath = append(w.opath, place(o))
		}
	}
	w.rem = place(func(g *ogdl.Graph) (*ogdl.Graph, error) {
		w.r.note("remote", g)
		return resultTree("rem"), nil
	})
	return w
}

// arg makes an argument of a kind: the source, the value and the calls that its evaluation
// makes.
func (w *world15) arg(k byte, depth int) (string, interface{}, []callRec) {
	c := w.c
	if k == 'g' {
		p := w.trees[c.Intn(len(w.trees))]
		c.Ev("graph arguments")
		return p.src, w.T.Node(p.steps[0].Name), nil
	}
	if depth > 0 && c.P(35) {
		// a nested call
		for _, i := range []int{0, 1, 2, 3, 4} {
			if i < len(w.funs) && w.funs[i].out == k {
				s, v, rec := w.call(w.funs[i], depth-1)
				c.Ev("nested calls")
				return s, v, rec
			}
		}
	}
	for {
		e := genTyped(c, w.ectx, k, c.Intn(3))
		s := e.write(c, c.Intn(40))
		v, _ := e.eval(w.T)
		lv, err := w.g.Eval(ogdl.NewExpression(s))
		if err != nil || reflect.TypeOf(lv) != kindType[k] {
			if _, ok := lv.(int); ok {
				continue // the operator %
			}
		}
		return s, v, nil
	}
}

func (w *world15) sp() string {
	if w.c.One(6) {
		return " "
	}
	return ""
}

// asp gives the space around an argument; arguments can be on several lines.
func (w *world15) asp() string {
	if w.c.One(25) {
		w.c.Ev("arguments on several lines")
		return w.c.Str("\n", "\n\t", "\r\n  ", " \n\n ")
	}
	return w.sp()
}

// call makes a call to a function.
func (w *world15) call(f *fun15, depth int) (string, interface{}, []callRec) {
	var src []string
	var rec []callRec
	me := callRec{name: f.name}
	for i := range f.in {
		if w.c.One(20) {
			// what does not exist is passed as the zero value
			src = append(src, w.asp()+w.missing()+w.asp())
			me.args = append(me.args, zero15(f.in[i]))
			w.c.Ev("missing argument of a function")
			continue
		}
		s, v, r := w.arg(f.in[i], depth)
		rec = append(rec, r...)
		src = append(src, w.asp()+s+w.asp())
		me.args = append(me.args, v)
	}
	w.c.Ev("function calls")
	v := f.res
	if f.out == 't' {
		v = ref.From(resultTree(f.res.(string)))
	}
	return f.path + "(" + strings.Join(src, ",") + ")", v, append(rec, me)
}

// expect compares the recorded calls.
func (w *world15) expect(src string, n int, rec []callRec) {
	got := w.r.log
	w.r.log = nil
	var want []callRec
	for ; n > 0; n-- {
		want = append(want, rec...)
	}
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i].name == want[i].name && len(got[i].args) == len(want[i].args)
		for j := 0; ok && j < len(got[i].args); j++ {
			ok = sameArg(want[i].args[j], got[i].args[j])
		}
	}
	if !ok {
		w.c.Fail("%s makes the calls %v instead of %v", src, got, want)
	}
	w.c.EvN("calls recorded", len(want))
}

func sameResult(want, got interface{}) bool {
	if t, ok := want.(*T); ok {
		g, ok := got.(*ogdl.Graph)
		return ok && g != nil && ref.DiffOut(t, ref.From(g), ref.Same) == ""
	}
	return sameArg(want, got)
}

// run evaluates a call in all kinds of places.
func (w *world15) run(src string, want interface{}, rec []callRec) {
	c := w.c
	w.r.log = nil
	var e *ogdl.Graph
	if c.P(50) {
		e = ogdl.NewPath(src)
	} else {
		e = ogdl.NewExpression(src)
	}
	for i := 0; i < 2; i++ {
		v, err := w.g.Eval(e)
		if err != nil || !sameResult(want, v) {
			c.Fail("%s gives %s (error %v) instead of %s", src, showArg(v), err, showArg(want))
		}
		w.expect(src, 1, rec)
	}
	text := ""
	if t, ok := want.(*T); ok {
		text = t.Graph().Text()
		c.Ev("graph results")
	} else if want != nil {
		text = ref.Str(want)
	} else {
		c.Ev("no result")
	}
	t := "<$" + src + ">"
	if out := string(ogdl.NewTemplate(t).Process(w.g)); out != "<"+text+">" {
		c.Fail("the template %s gives %q instead of %q", t, out, "<"+text+">")
	}
	w.expect(t, 1, rec)
	c.Ev("in template")

	switch k := want.(type) {
	case *T:
		// the path continues in the result
		s := src + ".in.deep"
		v, err := w.g.Eval(ogdl.NewPath(s))
		if err != nil || !sameArg(int64(7), v) {
			c.Fail("%s gives %s (error %v) instead of 7", s, showArg(v), err)
		}
		w.expect(s, 1, rec)
		s = "$" + src + ".got;"
		if out := string(ogdl.NewTemplate(s).Process(w.g)); out != k.Node("got").Out[0].V.(string)+";" {
			c.Fail("the template %s gives %q", s, out)
		}
		w.expect(s, 1, rec)
		c.Ev("path after call")
		// the same with Get
		if x := w.g.Get(src); x == nil || ref.DiffOut(k, ref.From(x), ref.Same) != "" {
			c.Fail("Get(%s) gives %s instead of %s", src, ref.Short(ref.From(x)), ref.Short(k))
		}
		w.expect("Get("+src+")", 1, rec)
		s = src + ".in"
		if x := w.g.Get(s); x == nil || ref.DiffOut(k.Node("in"), ref.From(x), ref.Same) != "" {
			c.Fail("Get(%s) gives %s instead of %s", s, ref.Short(ref.From(x)), ref.Short(k.Node("in")))
		}
		w.expect("Get("+s+")", 1, rec)
		if n, err := w.g.GetInt64(src + ".in.deep"); err != nil || n != 7 {
			c.Fail("GetInt64(%s.in.deep) gives %d (error %v) instead of 7", src, n, err)
		}
		w.expect("GetInt64("+src+".in.deep)", 1, rec)
		if x := w.g.Get(src + ".nothing.there"); x != nil {
			c.Fail("Get(%s.nothing.there) gives %s", src, ref.Short(ref.From(x)))
		}
		w.r.log = nil
		c.Ev("in Get")
		// elements of a loop
		s = "$for(l_1," + src + ".in)<$l_1>$end"
		if out := string(ogdl.NewTemplate(s).Process(w.g)); out != "<deep\n  7><x>" {
			c.Fail("the template %s gives %q", s, out)
		}
		w.g.Delete("l_1")
		w.expect(s, 1, rec)
		c.Ev("in loop")
	case int64:
		s := src + " + 1"
		if v, err := w.g.Eval(ogdl.NewExpression(s)); err != nil || !sameArg(k+1, v) {
			c.Fail("%s gives %s (error %v) instead of %d", s, showArg(v), err, k+1)
		}
		w.expect(s, 1, rec)
		c.Ev("in operation")
		if d := k - int64(c.Intn(6)); d > -1000000 && d < 1000000 {
			s = w.list + "[" + src + "-(" + strconv.FormatInt(d, 10) + ")]"
			x := "e" + strconv.FormatInt(k-d, 10)
			if v, err := w.g.Eval(ogdl.NewPath(s)); err != nil || v != x {
				c.Fail("%s gives %s (error %v) instead of %s", s, showArg(v), err, x)
			}
			w.expect(s, 1, rec)
			c.Ev("in index")
		}
	case string:
		s := "'<'+" + src + "+'>'"
		if v, err := w.g.Eval(ogdl.NewExpression(s)); err != nil || v != "<"+k+">" {
			c.Fail("%s gives %s (error %v) instead of %q", s, showArg(v), err, "<"+k+">")
		}
		w.expect(s, 1, rec)
		c.Ev("in operation")
	case bool:
		s := "$if(" + src + ")yes$else no$end"
		out := string(ogdl.NewTemplate(s).Process(w.g))
		if (out == "yes") != k || out != "yes" && out != " no" {
			c.Fail("%s gives %q", s, out)
		}
		w.expect(s, 1, rec)
		c.Ev("in condition")
	}
	if want != nil && c.P(40) {
		s := "$(l_2=" + src + ")"
		if out := string(ogdl.NewTemplate(s).Process(w.g)); out != "" {
			c.Fail("%s writes %q", s, out)
		}
		w.expect(s, 1, rec)
		n := w.g.Node("l_2")
		if t, ok := want.(*T); ok {
			if d := ref.DiffOut(t, ref.From(n), ref.Same); n == nil || d != "" {
				c.Fail("%s stores something else: %s", s, d)
			}
		} else if !sameArg(want, n.Interface()) || n.Len() != 1 {
			c.Fail("%s stores %s instead of %s", s, showArg(n.Interface()), showArg(want))
		}
		w.g.Delete("l_2")
		c.Ev("in assignment")
	}
}

// refuse evaluates a call that is wrong.
func (w *world15) refuse(src string) {
	c := w.c
	w.r.log = nil
	for i := 0; i < 2; i++ {
		v, err := w.g.Eval(ogdl.NewPath(src))
		if err == nil || v != nil {
			c.Fail("%s gives %s and no error", src, showArg(v))
		}
	}
	t := "<$" + src + ">"
	if out := string(ogdl.NewTemplate(t).Process(w.g)); out != "<>" {
		c.Fail("the template %s gives %q", t, out)
	}
	if x := w.g.Get(src); x != nil {
		c.Fail("Get(%s) gives %s", src, ref.Short(ref.From(x)))
	}
	w.expect(src, 0, nil)
}

func p15(c *C) {
	w := newWorld(c)
	before := ref.From(w.g)
	var src string
	c.Info = func() string { return src + "\ncontext " + w.T.String() }

	for n := c.Range(1, 3); n > 0; n-- {
		if c.One(8) {
			switch c.Intn(3) {
			case 0:
				w.noFunction(&src)
			case 1:
				w.twins(&src)
			default:
				w.counter(&src)
			}
			continue
		}
		switch c.Intn(8) {
		case 0, 1, 2:
			f := w.funs[c.Intn(len(w.funs))]
			s, v, rec := w.call(f, c.Intn(3))
			src = s
			w.run(s, v, rec)
			if f.in != "" {
				c.SeenStr(src + w.T.String())
			}
		case 3:
			// wrong number of arguments
			f := w.funs[c.Intn(len(w.funs))]
			var args []string
			for i := range f.in {
				s, _, _ := w.arg(f.in[i], 0)
				args = append(args, s)
			}
			if len(args) > 0 && c.P(50) {
				i := c.Intn(len(args))
				args = append(args[:i], args[i+1:]...)
			} else {
				s, _, _ := w.arg(c.Byte("ifsbg"), 0)
				i := c.Intn(len(args) + 1)
				args = append(args[:i:i], append([]string{s}, args[i:]...)...)
			}
			src = f.path + "(" + strings.Join(args, ",") + ")"
			w.refuse(src)
			c.SeenStr(src)
			c.Ev("wrong count")
		case 4:
			// wrong type of an argument
			f := w.funs[c.Intn(len(w.funs))]
			if f.in == "" {
				continue
			}
			j := c.Intn(len(f.in))
			var args []string
			for i := range f.in {
				k := f.in[i]
				if i == j {
					for k == f.in[i] {
						k = c.Byte("ifsbg")
					}
				}
				s, _, _ := w.arg(k, 0)
				args = append(args, s)
			}
			src = f.path + "(" + strings.Join(args, ",") + ")"
			w.refuse(src)
			c.SeenStr(src)
			c.Ev("wrong type")
		case 5, 6:
			w.method(&src)
		default:
			// remote function
			name := exprName(c)
			node := &T{V: name}
			var args []string
			var rec []callRec
			i := c.Intn(4)
			if c.One(30) {
				i = c.Num(200)
			}
			if i > 20 {
				c.Ev("many arguments")
			}
			for ; i > 0; i-- {
				s, v, r := w.arg(c.Byte("ifsb"), 1)
				args = append(args, w.asp()+s+w.asp())
				node.Add(v)
				rec = append(rec, r...)
			}
			src = w.rem + "." + name + "(" + strings.Join(args, ",") + ")"
			if len(args) == 0 && c.P(50) {
				src = w.rem + "." + name
			}
			rec = append(rec, callRec{"remote", []interface{}{N("_", node)}})
			w.run(src, ref.From(resultTree("rem")), rec)
			c.Ev("remote calls")
			c.SeenStr(src)
		}
	}
	if d := ref.Diff(before, ref.From(w.g), sameCtx); d != "" {
		c.Fail("the calls change the context: %s", d)
	}
}

func N(v interface{}, out ...*T) *T { return ref.N(v, out...) }

func sameCtx(a, b interface{}) bool {
	if reflect.TypeOf(a) != nil && reflect.TypeOf(a).Kind() == reflect.Func {
		return reflect.TypeOf(b) != nil && reflect.TypeOf(b).Kind() == reflect.Func
	}
	return ref.Same(a, b)
}

// noFunction calls something that is not a function.
func (w *world15) noFunction(src *string) {
	c := w.c
	var p string
	switch c.Intn(5) {
	case 0:
		k := c.Byte("ifsb")
		p = w.vars[k][c.Intn(len(w.vars[k]))].src
	case 1:
		p = w.trees[c.Intn(len(w.trees))].src
	case 2:
		p = w.missing()
	case 3:
		p = w.leafs['s'][c.Intn(len(w.leafs['s']))].src + c.Str("", ".nope", "[0]", "{}")
	default:
		// a leaf
		p = w.list + "[" + strconv.Itoa(c.Intn(6)) + "]"
	}
	var args []string
	for j := c.Intn(4); j > 0; j-- {
		s, _, _ := w.arg(c.Byte("ifsbg"), 0)
		args = append(args, s)
	}
	p += "(" + strings.Join(args, ",") + ")"
	*src = p
	w.r.log = nil
	for i := 0; i < 2; i++ {
		v, _ := w.g.Eval(ogdl.NewPath(p))
		if g, ok := v.(*ogdl.Graph); ok && g.Len() > 0 || !ok && v != nil {
			c.Fail("%s is no function and gives %s", p, showArg(v))
		}
	}
	t := "<$" + p + ">"
	if out := string(ogdl.NewTemplate(t).Process(w.g)); out != "<>" {
		c.Fail("%s is no function and the template %s gives %q", p, t, out)
	}
	w.expect(p, 0, nil)
	c.Ev("calls of what is no function")
	c.SeenStr(p)
}

// twins15 makes two types of the same name, each with a function that takes it.
func twins15(r *caller, o *obj15) (v, f [2]interface{}) {
	{
		type twin struct{ *obj15 }
		v[0] = &twin{o}
		f[0] = func(t *twin, n int64) string {
			r.note("fa", t.name, n)
			return "a"
		}
	}
	{
		type twin struct {
			*wide15
			more int
		}
		v[1] = &twin{&wide15{o}, 3}
		f[1] = func(t *twin, n int64) string {
			r.note("fb", t.name, n)
			return "b"
		}
	}
	return
}

// twins calls functions and methods of types of the same name.
func (w *world15) twins(src *string) {
	c := w.c
	o := &obj15{r: w.r, name: "twin"}
	v, f := twins15(w.r, o)
	g, keep := w.g, w.g.Clone()
	var names, funs [2]string
	for i := range v {
		names[i] = "twin_" + strconv.Itoa(i)
		funs[i] = "ftwin_" + strconv.Itoa(i)
		keep.Add(names[i]).Add(v[i])
		keep.Add(funs[i]).Add(f[i])
	}
	w.g = keep
	defer func() { w.g = g }()
	for k := c.Range(2, 5); k > 0; k-- {
		i, j := c.Intn(2), c.Intn(2)
		switch c.Intn(2) {
		case 0:
			n := c.Range(0, 9)
			*src = fmt.Sprintf("%s(%s,%d)", funs[i], names[j], n)
			if i == j {
				w.run(*src, string(rune('a'+i)), []callRec{{"f" + string(rune('a'+i)), []interface{}{"twin", int64(n)}}})
			} else {
				w.refuse(*src)
			}
		default:
			m := c.Str("I", "N", "IS", "S", "H", "E", "M", "Aa", "None")
			*src = names[i] + "." + m + "("
			switch {
			case i == 0 && methodsWide[m] != "" || i == 0 && m == "H":
				w.refuse(*src + ")")
			case m == "I":
				w.run(*src+"4)", int64(5), []callRec{{"twin.I", []interface{}{int64(4)}}})
			case m == "N":
				w.run(*src+"4)", 6, []callRec{{"twin.N", []interface{}{4}}})
			case m == "IS":
				w.run(*src+"4,'x')", nil, []callRec{{"twin.IS", []interface{}{int64(4), "x"}}})
			case m == "S":
				w.run(*src+"'x')", "x!", []callRec{{"twin.S", []interface{}{"x"}}})
			case m == "H":
				w.run(*src+")", "h", []callRec{{"twin.H", nil}})
			case m == "E":
				w.run(*src+"'x')", "Ex", []callRec{{"twin.E", []interface{}{"x"}}})
			case m == "M":
				w.run(*src+"1.5)", "m", []callRec{{"twin.M", []interface{}{1.5}}})
			case m == "Aa":
				w.run(*src+"4)", int64(3), []callRec{{"twin.Aa", []interface{}{int64(4)}}})
			default:
				w.run(*src+")", "none", []callRec{{"twin.None", nil}})
			}
		}
	}
	c.Ev("types of the same name")
	c.SeenStr(*src + w.T.String())
}

// counter calls a function that gives another value each time.
func (w *world15) counter(src *string) {
	c := w.c
	n := int64(c.Intn(50))
	first := n
	g := w.g
	w.g = g.Clone()
	defer func() { w.g = g }()
	w.g.Add("next_1").Add(func() int64 { n++; return n })
	w.g.Add("list_1").Add(func(a, b, c int64) string { return fmt.Sprint(a, " ", b, " ", c) })
	w.g.Add("obj_1").Add(w.objs[0])
	call := "next_1()"
	for i := 0; i < 2; i++ {
		var want interface{}
		switch k := c.Intn(5); k {
		case 0:
			*src, want = "list_1("+call+","+w.sp()+call+","+call+")", fmt.Sprint(n+1, " ", n+2, " ", n+3)
		case 1:
			*src, want = call+w.sp()+"+"+w.sp()+call, 2*n+3
		case 2:
			*src, want = "obj_1.IS("+call+","+"'x'+"+call+")", nil
			w.r.log = nil
		case 3:
			*src, want = call+"=="+call, false
		default:
			*src, want = "list_1("+call+"+"+call+",5,"+call+")", fmt.Sprint(2*n+3, " 5 ", n+3)
		}
		calls := int64(strings.Count(*src, call))
		before := n
		v, err := w.g.Eval(ogdl.NewExpression(*src))
		if strings.HasPrefix(*src, "obj_1") {
			k := w.r.log
			if err != nil || len(k) != 1 || k[0].args[0] != before+1 || k[0].args[1] != "x"+strconv.FormatInt(before+2, 10) {
				c.Fail("%s, with a function that gives %d, %d, ..., calls %v (error %v)", *src, before+1, before+2, k, err)
			}
			w.r.log = nil
		} else if err != nil || !sameArg(want, v) {
			c.Fail("%s, with a function that gives %d, %d, ..., gives %s (error %v) instead of %s", *src, before+1, before+2, showArg(v), err, showArg(want))
		}
		if n != before+calls {
			c.Fail("%s calls the function %d times instead of %d", *src, n-before, calls)
		}
	}
	c.Ev("a function that gives another value each time")
	c.SeenStr(fmt.Sprint(*src, first))
}

// missing is a path that does not exist.
func (w *world15) missing() string {
	c := w.c
	p := "l_9"
	switch c.Intn(3) {
	case 0:
		p = w.trees[c.Intn(len(w.trees))].src + ".nope"
	case 1:
		p = "l_9.l_8"
	}
	return p
}

// zero15 is the zero value of a kind of parameter.
func zero15(k byte) interface{} {
	switch k {
	case 'i':
		return int64(0)
	case 'n':
		return 0
	case 'f':
		return 0.0
	case 's':
		return ""
	case 'b':
		return false
	case 'l':
		return []string{}
	}
	return nil
}

// method calls a method of an object.
func (w *world15) method(src *string) {
	c := w.c
	i := c.Intn(len(w.objs))
	names := []string{"I", "F", "S", "B", "N", "G", "L", "V", "IV", "IS", "None", "SFB", "SSS", "Tree", "Two", "Err", "Ten"}
	m := names[c.Intn(len(names))]
	in, ok := methods15[m]
	if c.One(6) {
		m = c.Str("Aa", "E", "H", "M")
		in = methodsWide[m]
		ok = w.wide[i]
	}
	if c.One(30) {
		m, ok = c.Str("Nope", "i", "Tre", "Trees", "note", "name", "r", "Val", "obj15"), false
		in = ""
	}
	if w.wide[i] {
		c.Ev("two types of objects")
	}
	if !ok {
		// the type has no such method
		*src = w.opath[i] + "." + m + "(" + c.Str("", "1", "'a'", "2.5") + ")"
		w.refuse(*src)
		c.Ev("method that does not exist")
		return
	}
	me := callRec{name: w.objs[i].name + "." + m}
	n := len(in)
	missing := c.One(5)
	if missing {
		n = c.Intn(n + 1)
	}
	bad := -1
	if n > 0 && !missing && c.One(4) {
		bad = c.Intn(n)
	}
	var args []string
	var rec []callRec
	for j := 0; j < len(in); j++ {
		k := in[j]
		if j >= n {
			me.args = append(me.args, zero15(k))
			continue
		}
		if j == bad {
			// a literal that cannot be converted
			switch k {
			case 'i', 'f', 'n':
				args = append(args, c.Str("1==1", "2==3", "!(1==1)"))
			case 's':
				args = append(args, c.Str("1", "2.5", "1==1", "3+4"))
			case 'b':
				args = append(args, c.Str("1", "2.5", "3*1"))
			case 'l':
				args = append(args, c.Str("1", "2.5", "1==1"))
			default:
				args = append(args, c.Str("1", "2.5", "'s'", "1==1"))
			}
			continue
		}
		if c.One(20) {
			args = append(args, w.asp()+w.missing()+w.asp())
			me.args = append(me.args, zero15(k))
			c.Ev("missing argument of a method")
			continue
		}
		var s string
		var v interface{}
		var r []callRec
		if ls := w.leafs[k]; len(ls) > 0 && c.One(4) {
			// a node with a scalar of this or another type
			leaf := ls[c.Intn(len(ls))]
			t := w.T.Node(leaf.steps[0].Name)
			text := ref.Str(t.Out[0].V)
			s = leaf.src
			switch k {
			case 'i':
				v, _ = strconv.ParseInt(text, 10, 64)
			case 'n':
				v, _ = strconv.Atoi(text)
			case 'f':
				v, _ = strconv.ParseFloat(text, 64)
			case 'b':
				v = text == "true"
			case 's':
				v = text
			case 'g':
				v = t
			}
			c.Ev("converted node")
			args = append(args, w.asp()+s+w.asp())
			me.args = append(me.args, v)
			continue
		}
		switch k {
		case 'l':
			p := w.trees[c.Intn(len(w.trees))]
			s = p.src
			l := []string{}
			for _, o := range w.T.Node(p.steps[0].Name).Out {
				l = append(l, ref.Str(o.V))
			}
			v = l
		case 'i':
			if c.One(5) {
				s, v = "'"+strconv.Itoa(j+40)+"'", int64(j+40)
				if c.One(4) {
					n := c.Uint64() >> uint(c.Range(1, 63))
					v = int64(n)
					s = "'" + c.Str("0", "00", "+", "", "") + strconv.FormatUint(n, 10) + "'"
					if c.One(3) && n > 0 {
						v = -int64(n)
						s = "'-" + c.Str("", "0") + s[1:]
						s = strings.Replace(s, "+", "", 1)
					}
					c.Ev("text for an integer")
				}
			} else if c.One(6) {
				s, v = strconv.Itoa(j+3)+c.Str(".0", ".", ".5", ".999"), int64(j+3)
			} else {
				s, v, r = w.arg('i', 1)
			}
		case 'f':
			if c.One(5) {
				s, v = "'1.5'", 1.5
				if c.One(4) {
					x := float64(c.Range(-100000, 100000)) / 64
					v = x
					s = "'" + strconv.FormatFloat(x, byte(c.Str("f", "e", "g")[0]), -1, 64) + "'"
					if x >= 0 && c.P(50) {
						s = "'" + c.Str("+", "0", "00") + s[1:]
					}
					c.Ev("text for a float")
				}
			} else if c.One(4) {
				s, v = "12", 12.0
			} else {
				s, v, r = w.arg('f', 1)
			}
		case 'n':
			x := c.Range(-50, 5000)
			s, v = strconv.Itoa(x), x
			if c.P(50) {
				s = s + ".0"
				if c.P(50) {
					// the fraction is dropped
					s = strconv.Itoa(x) + c.Str(".25", ".5", ".75", ".999")
					c.Ev("fraction dropped")
				}
			} else if c.One(4) {
				x = int(c.Uint64()>>1) >> uint(c.Intn(20))
				s, v = strconv.Itoa(x), x
			}
		case 'b':
			if c.One(5) {
				s, v = "'true'", true
				if c.P(50) {
					s = c.Str("false", "TRUE", "True", "T", "t", "1", "0", "f", "F", "False", "FALSE")
					v, _ = strconv.ParseBool(s)
					s = "'" + s + "'"
					c.Ev("text for a boolean")
				}
			} else {
				s, v, r = w.arg('b', 1)
			}
		default:
			s, v, r = w.arg(k, 1)
		}
		rec = append(rec, r...)
		args = append(args, w.asp()+s+w.asp())
		me.args = append(me.args, v)
	}
	*src = w.opath[i] + "." + m + "(" + strings.Join(args, ",") + ")"
	if len(args) == 0 && c.P(50) {
		*src = w.opath[i] + "." + m
	}
	if len(args) > 0 {
		c.SeenStr(*src)
	}
	if bad >= 0 {
		// calls inside the other arguments are made or not
		if len(rec) == 0 {
			w.refuse(*src)
			c.Ev("method with unconvertible argument")
		}
		return
	}
	if missing && n < len(in) {
		c.Ev("method with missing arguments")
	}
	var want interface{}
	a := me.args
	switch m {
	case "I":
		want = a[0].(int64) + 1
	case "F":
		want = a[0].(float64) + 0.5
	case "S":
		want = a[0].(string) + "!"
	case "B":
		want = !a[0].(bool)
	case "N":
		want = a[0].(int) + 2
	case "G":
		want = "graph"
	case "Aa":
		want = a[0].(int64) - 1
	case "E":
		want = "E" + a[0].(string)
	case "H":
		want = "h"
	case "M":
		want = "m"
	case "L":
		want = int64(len(a[0].([]string)))
	case "V":
		want = int64(len(a[0].([]string)))
		c.Ev("variadic methods")
	case "IV":
		want = a[0].(int64) + int64(len(a[1].([]string)))
		c.Ev("variadic methods")
	case "None":
		want = "none"
	case "SFB":
		want = a[0]
	case "SSS":
		want = a[0].(string) + a[1].(string) + a[2].(string)
	case "Two":
		want = a[0].(int64) + 5
		c.Ev("two results")
	case "Err":
		want = a[0].(string) + "?"
		c.Ev("two results")
	case "Ten":
		want = a[1].(string) + a[5].(string) + a[9].(string)
		c.Ev("ten parameters")
	case "Tree":
		want = ref.From(resultTree(a[0].(string)))
	}
	c.Ev("method calls")
	w.run(*src, want, append(rec, me))
}

var _ = core.Sample

package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P05",
		Rule:  "text (plain and typed), paths, expressions, templates, JSON and XML: damaged, spliced and cut documents, token soup, arbitrary bytes, and long repetitions of one fragment, parsed and then evaluated, processed, printed, encoded, searched, sorted and looked up, with monitors for panics, CPU time, memory and stack, and a limit of allocated bytes for each operation; the CPU time of inputs of up to a megabyte is compared with that of a fifth of them. Non-trivial: not empty; distinct by language and bytes.",
		Quick: 40000, Thoro: 900000, Case: p05, CPU: 60, Wall: 300,
		Must:   []string{"text", "types", "path", "expr", "tmpl", "json", "xml", "damaged", "soup", "repeated", "bytes", "deep", "evaluated", "processed", "printed", "errors", "large inputs"},
		Assume: []string{"loops and assignments of hostile templates are limited in number, since they multiply what they are given"},
	})
}

var soup = strings.Fields("( ) [ ] { } a b x list . , ; + - * / % = == != < <= > >= && || ! += -= *= /= %= ' \" ` \\ # $ $( $a $b.c $x $if( $if(y) $elseif(y) $else $end $for(i,list) $for( $break ${ $\\ 1 0 -1 1.5 1e9 9223372036854775807 -9223372036854775808 99999999999999999999 1e400 .5 5. 0x1p-2 true false null nil _ !p !e !t !g !i !s !a !if !for !end !else !break !elseif !int !bool <a> </a> <b/> <!-- --> <? ?> <![CDATA[ ]]> &lt; & : @id name= %s %d é 中 😀 \u0301 \ufeff")

var soupSpace = []string{"", "", "", "", "", " ", " ", "\n", "\n  ", "\n    ", "\t", "\r\n", "\r", "\n\t", "\x00", "\x01", "\x7f", "\xff", "\xe4\xb8", "\xf0\x9f", "\\\n", " # ", "\n# ", "\n\n"}

var units = []string{"(", "[", "{", "a[", "a(", "a{", "-", "!", "!(", "a.", "a+", "(a)+", "1-", ".(", "((", "a ", "a\n", "'", "\"", "`", "\\", "#", "# \n", "\\\n", ",", "(a", "a,", "(a)", "\n", " ", "\t", "a\n ", "$", "$(", "$a", "$if(", "$if(y)", "$else", "$end", "${", "$a(", "$a[", "$\\", "$break", "<a>", "<", "&", "{\"a\":", "[1,", "a(a", "a.'", "\xff", "\x00", "a  \n", "  a\n", "!if ", "a=", "a b\n c\n", "'a' ", "=", "&&", "1", "1.", "-1,", "'\\'", "é", "a\\\n b\n", "\r", "\r\n ", "$if(y)a$end", "$if(y)$else", "$(x=1)", "$(a.", "<!--", "<?a ", "&lt;", "]]>", "\"a\",", "[[", "[]", "a[0].", "x==", "a()", "a{0}", "a{}.", "!x&&", "$a\n"}

var langs = []string{"text", "types", "path", "expr", "tmpl", "json", "xml"}

func jsonSource(c *C, depth int) string {
	if depth <= 0 || c.P(30) {
		return c.Str("1", "-1.5", "true", "null", "\"a\"", "\"\\u00e9\\n\"", "1e3", "[]", "{}", "123456789012", "\"\\ud83d\\ude00\"", "0.1")
	}
	var b strings.Builder
	n := c.Intn(5)
	if c.P(50) {
		b.WriteString("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(jsonSource(c, depth-1))
		}
		b.WriteString("]")
	} else {
		b.WriteString("{")
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(",\n ")
			}
			b.WriteString("\"k" + strconv.Itoa(i) + "\": " + jsonSource(c, depth-1))
		}
		b.WriteString("}")
	}
	return b.String()
}

func xmlSource(c *C, depth int) string {
	if depth <= 0 {
		return c.Str("text", " ", "&amp;x", "<![CDATA[ <b> ]]>", "<!-- c -->", "<e/>")
	}
	n := c.Str("a", "b-c", "é", "id", "x:y")
	var b strings.Builder
	b.WriteString("<" + n + c.Str("", " id='1'", " name=\"n\" id='2'", " x-y = ''") + ">")
	for i := c.Intn(4); i > 0; i-- {
		b.WriteString(xmlSource(c, depth-1))
	}
	b.WriteString("</" + n + ">")
	return b.String()
}

// sourceOf writes a proper document of a language.
func sourceOf(c *C, lang string) string {
	switch lang {
	case "text", "types":
		return genDoc(c, c.Range(1, 40), true).write(c, genLayout(c))
	case "path":
		t := N2(treeNames(c), c, 12)
		return writePath(c, randPath(c, t, 6, true), c.P(50))
	case "expr":
		x := exprContext(c)
		return genExpr(c, x, c.Range(1, 4)).write(c, c.Intn(60))
	case "tmpl":
		return genTemplate(c, tmplContext(c), c.Range(1, 12)).src
	case "json":
		return jsonSource(c, c.Range(1, 5))
	default:
		return "<?xml version=\"1.0\"?>" + xmlSource(c, c.Range(1, 5))
	}
}

func N2(f func() interface{}, c *C, n int) *T {
	return shape(c, n, func(int) interface{} { return f() })
}

func damage(c *C, s string) string {
	b := []byte(s)
	for i := c.Range(0, 6); i > 0 && len(b) > 0; i-- {
		p := c.Intn(len(b))
		switch c.Intn(8) {
		case 0:
			b[p] = byte(c.Intn(256))
		case 1:
			q := p + 1 + c.Intn(6)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p:p], b[q:]...)
		case 2:
			b = b[:p]
		case 3:
			b = b[p:]
		case 4, 5:
			t := soup[c.Intn(len(soup))] + soupSpace[c.Intn(len(soupSpace))]
			b = append(b[:p:p], append([]byte(t), b[p:]...)...)
		case 6:
			q := p + 1 + c.Intn(30)
			if q > len(b) {
				q = len(b)
			}
			t := append([]byte(nil), b[p:q]...)
			r := c.Intn(len(b))
			b = append(b[:r:r], append(t, b[r:]...)...)
		default:
			b[p] = punct[c.Intn(len(punct))]
		}
	}
	return string(b)
}

var (
	reFor    = regexp.MustCompile(`\$\{?\s*['"]?for`)
	reForOK  = regexp.MustCompile(`\$for\((i|j|item_\d+|l_\d+|\w+l_\d+),`)
	reDigits = regexp.MustCompile(`\d{4}|\d[eE]\d|0[xX]|\d_\d`)
)

// tame tells if evaluating a source is not supposed to multiply what it is given.
func tame(s string, tmpl bool) bool {
	eq := strings.Count(s, "=") - 2*strings.Count(s, "==") - strings.Count(s, "!=") - strings.Count(s, "<=") - strings.Count(s, ">=")
	if eq > 0 && (eq > 8 || strings.Count(s, "=") > 30 || reDigits.MatchString(s)) {
		return false
	}
	if tmpl {
		n := len(reFor.FindAllString(s, -1))
		if strings.Contains(s, "for") && n == 0 && strings.Contains(s, "$") {
			// some other way of writing it
			n = len(reForOK.FindAllString(s, -1)) + 1
		}
		if n > 0 && (n > 4 || n != len(reForOK.FindAllString(s, -1)) || eq > 0) {
			return false
		}
	}
	return true
}

func hostileContext(c *C) *ogdl.Graph {
	g := ogdl.FromString("a\n  b 1\n  c 2\nb\n  c\n    d 7\nx 5\ny true\nz 0\nlist\n  1\n  two\n  3\ne\ns 'some text'\n_\n  1")
	g.Add("n").Add(int64(-3))
	g.Add("f").Add(2.5)
	g.Add("t").Add(false)
	g.Add("fn").Add(func(i int, s string) string { return s + strconv.Itoa(i) })
	g.Add("any").Add(func(a interface{}, b float64) interface{} { return a })
	g.Add("obj").Add(&rec{})
	g.Add("nil").Add(nil)
	g.Add("bytes").Add([]byte{0, 255, 'a'})
	g.Add("other").Add(struct{ A int }{3})
	return g
}

func p05(c *C) { measured(c, p05Case) }

// p05large compares the time for an input with that for a larger one of the same kind.
func p05large(c *C) {
	lang := langs[c.Intn(len(langs))]
	first := c.Str("", "a \\\n", "a '", "a \"", "a `", "# ", "a\n  b \\\n", "(", "$(", "$if(y)", "$for(i,list)", "{\"a\":", "[", "\"", "<a>", "<!--", "<a b='", "<a><![CDATA[", "a.", "a + ", "$a", "'")
	lines := false
	if c.P(50) {
		switch lang {
		case "text", "types":
			lines = true
			first = c.Str("", "a \\\n", "a \\\n", "a '\n", "a\n  b \\\n", "a\n  'b\n", "  a\n", "# \n")
		case "path":
			first = c.Str("", "a", "a.", "'", "a[", "a{", "a(")
		case "expr":
			first = c.Str("", "a", "1", "'", "(", "!", "-", "f(")
		case "tmpl":
			first = c.Str("", "$", "${", "$(", "$if(y)", "$for(i,list)", "$a")
		case "json":
			first = c.Str("[", "{", "\"", "[[", "1", "{\"a\":[")
		case "xml":
			first = c.Str("<a>", "<a b='", "<!--", "<a><![CDATA[", "<a>\n", "<?a ", "<a", "")
		}
	}
	var u string
	n := c.Intn(6)
	if lines {
		n = c.Range(3, 5)
	}
	switch n {
	case 0, 1:
		u = units[c.Intn(len(units))]
	case 2:
		u = units[c.Intn(len(units))] + units[c.Intn(len(units))]
	case 3:
		u = c.Str("", " ", "  ", "   ", "\t") + units[c.Intn(len(units))] + c.Str("", "\n", "\r\n", " ")
	case 4:
		u = c.Str("  b\n", "    b\n", "    b c\n", "b\n\n", " ,", "x", "a.b.", "é", "\\'", "\\\\", "\\\"", "word ", "$\\", "\n\n", "\n  ", "<b c='d'/>", "<b/>t", "&amp;", "1,", "\\u00e9", "\"k\":1,", "$(1)", "$a.b[0] ", "$if(y)a$else b$end", "1*", "y&&", "y||", "'s'==", "-", "1-1<", "\x80", "\xe2\x82", "\U0001f600")
	default:
		u = sourceOf(c, lang)
		if len(u) > 5000 {
			u = u[:5000]
		}
		u += c.Str("", "\n", " ", ".")
	}
	if u == "" {
		u = "a"
	}
	last := c.Str("", "", "'", ")", "\n", "$end", "]", "</a>")
	c.Info = func() string { return fmt.Sprintf("%s: %q, many times %.200q, %q", lang, first, u, last) }
	deep := false
	work := func(n int) time.Duration {
		s := first + strings.Repeat(u, n/len(u)+1) + last
		t := cpuTime()
		var g *ogdl.Graph
		switch lang {
		case "text":
			g = ogdl.FromString(s)
		case "types":
			g = ogdl.FromStringTypes(s)
		case "path":
			g = ogdl.NewPath(s)
		case "expr":
			g = ogdl.NewExpression(s)
		case "tmpl":
			g = ogdl.NewTemplate(s)
		case "json":
			g, _ = ogdl.FromJSON([]byte(s))
		case "xml":
			g = gxml.FromXML([]byte(s))
		}
		_, d, _, _ := measure(g, 1<<40)
		if d > 300 {
			deep = true
		}
		if d < 60 {
			_ = g.Text()
			_ = g.Show()
			g.JSON()
			g.Binary()
			g.Clone().Equals(g)
			if lang == "tmpl" && !strings.ContainsAny(s, "+=") && !strings.Contains(s, "for") {
				ctx := hostileContext(c)
				g.Process(ctx)
			}
		}
		return cpuTime() - t
	}
	t := work(200000)
	c.Ev("large inputs")
	c.SeenStr(lang + first + u + last)
	if t < 70*time.Millisecond || deep {
		return // the stack of a deep recursion is copied and scanned again and again
	}
	// Compared with larger ones, up to a megabyte
	c.Ev("large inputs that take long")
	t1, t2 := t, time.Duration(1<<62)
	for i := 0; i < 3; i++ {
		if x := work(1000000); x < t2 {
			t2 = x
		}
		if t2 < 1500*time.Millisecond {
			return
		}
		if x := work(200000); x < t1 {
			t1 = x
		}
	}
	if t2 > 10*t1 {
		c.Fail("five times the input takes %v, instead of %v", t2, t1)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func p05Case(c *C) {
	if c.Idx%47 == 5 {
		p05large(c)
		return
	}
	lang := langs[c.Intn(len(langs))]
	var s, kind string
	switch k := c.Intn(20); {
	case k < 9:
		src := lang
		if c.P(15) {
			src = langs[c.Intn(len(langs))]
		}
		s = damage(c, sourceOf(c, src))
		if c.P(20) {
			o := sourceOf(c, src)
			s = s[:c.Intn(len(s)+1)] + o[c.Intn(len(o)+1):]
		}
		kind = "damaged"
	case k < 16:
		var b strings.Builder
		n := c.Range(1, 12)
		if c.P(20) {
			n = c.Num(400)
		}
		few := c.Range(1, len(soup))
		if c.P(50) {
			few = c.Range(1, 6)
		}
		base := c.Intn(len(soup))
		for i := 0; i < n; i++ {
			b.WriteString(soup[(base+c.Intn(few)*7)%len(soup)])
			b.WriteString(soupSpace[c.Intn(len(soupSpace))])
			if c.P(3) {
				b.WriteString(c.DictStr())
			}
		}
		s = b.String()
		kind = "soup"
	case k < 18:
		s = rawText(c, c.Num(9000), c.Str("pstnrubc0", "p", "pp s", "b", "c0", "psn", "n s"))
		kind = "bytes"
	default:
		n := c.Range(200, 3000)
		if c.One(4) {
			n = c.Range(3000, 150000)
			if c.Thorough() {
				n = c.Range(3000, 400000)
			}
		}
		u := units[c.Intn(len(units))]
		if c.One(3) {
			u += units[c.Intn(len(units))]
		}
		s = strings.Repeat(u, n/len(u)+1)
		if c.P(40) {
			s = sourceOf(c, lang) + s
		}
		if c.P(40) {
			s += units[c.Intn(len(units))] + c.Str("", "a", ")", "]", "\n")
		}
		kind = "repeated"
	}
	c.Info = func() string { return lang + " " + core.Sample(s) }
	if s != "" {
		c.SeenStr(lang + s)
	}
	c.Ev(lang)
	c.Ev(kind)

	n := int64(len(s))
	m := &meter{c: c, s: lang}
	var g *ogdl.Graph
	m.start()
	switch lang {
	case "text":
		if c.P(50) {
			g = ogdl.FromString(s)
		} else {
			g = ogdl.FromReader(newReader(c, []byte(s)))
		}
	case "types":
		g = ogdl.FromStringTypes(s)
	case "path":
		g = ogdl.NewPath(s)
	case "expr":
		g = ogdl.NewExpression(s)
	case "tmpl":
		g = ogdl.NewTemplate(s)
	case "json":
		var err error
		g, err = ogdl.FromJSON([]byte(s))
		if err != nil {
			c.Ev("errors")
			if g != nil {
				c.Fail("an error (%v) and a graph", err)
			}
		}
	case "xml":
		g = gxml.FromXML([]byte(s))
	}
	m.stop("parsing", 40<<10+n*2200)

	nodes, depth, sum, cyc := measure(g, int(n)*3+100)
	if cyc {
		c.Fail("what has been parsed has more than %d nodes", nodes)
	}
	if depth > 1000 {
		c.Ev("deep")
	}

	ctx := hostileContext(c)
	if c.P(30) {
		ctx = ctx.Clone()
	}
	vals := 0
	look := func(g *ogdl.Graph) {
		// something that came out of an evaluation
		if g == nil {
			return
		}
		nn, d, _, cyc := measure(g, 3000000)
		if cyc {
			c.Fail("the result has too many nodes, or contains itself")
		}
		if nn < 20000 && d < 300 {
			_ = g.Text()
			_ = g.Show()
			g.JSON()
		}
		vals++
	}
	if tame(s, lang == "tmpl") {
		plus := int64(strings.Count(s, "+"))
		switch lang {
		case "path", "expr":
			m.start()
			v, err := ctx.Eval(g)
			m.stop("evaluation", 64<<10+n*6000+plus*plus*60)
			if err != nil {
				c.Ev("errors")
			}
			if gg, ok := v.(*ogdl.Graph); ok {
				look(gg)
			} else {
				ref.Show(v)
			}
			look(ctx)
			m.start()
			ctx = hostileContext(c)
			look(ctx.Get(s))
			ctx.GetString(s)
			ctx.GetInt64(s)
			ctx.GetBool(s)
			ctx.GetFloat64(s)
			ctx.GetBytes(s)
			m.stop("lookup", 256<<10+n*40000)
			if c.P(30) && n < 5000 && !reDigits.MatchString(s) {
				ctx.Set(s, c.Intn(5))
				look(ctx)
				ctx.Set(s, ogdl.FromString("p q\nr"))
				look(ctx)
			}
			if c.P(30) && n < 5000 {
				ogdl.FromString("a b 1\na b 0\na\na b x").Sort(s)
				ogdl.FromString("a b 1\na b 0\na\na b x").SortAsInt(s)
			}
			c.Ev("evaluated")
		case "tmpl":
			m.start()
			if n < 2000 {
				ctx.Delete("i")
			}
			g.Process(ctx)
			if strings.Contains(s, "for") {
				m.stop("processing", 8<<20+n*40000)
			} else {
				m.stop("processing", 256<<10+n*8000+plus*plus*60)
			}
			look(ctx)
			c.Ev("processed")
		}
	}
	if g == nil {
		return
	}

	// What was parsed is used as a graph
	m.start()
	g.Binary()
	k := g.Clone()
	k.Equals(g)
	m.stop("binary, clone", 64<<10+n*1500)
	if depth <= 2000 && sum < 30000000 {
		m.start()
		_ = g.Text()
		m.stop("text", 64<<10+8*(n*600+sum*8))
		if n < 20000 {
			_ = g.Show()
			g.JSON()
			if depth < 300 {
				_ = g.Html(s[:min(len(s), 20)])
			}
			_ = g.String()
			g.StringCSV()
			g.StringTxt()
			g.Scalar()
			g.Number()
			g.Check(k)
			g.Check(ctx)
			ctx.Check(g)
			g.Find(s[:min(len(s), 50)])
			k.Merge(g.Clone())
			k.Sort("a")
			k.Sort(s[:min(len(s), 50)])
			for i := 0; i < 6; i++ {
				o := soup[c.Intn(len(soup))]
				k.Get(o)
				k.GetAt(c.Range(-2, 5))
				k.Node(o)
				k.GetInt64(o)
				// what is not a syntax tree evaluated
				if n < 400 && tame(s, true) && !strings.Contains(s, "=") && !strings.Contains(s, "for") {
					k.Eval(ctx.GetAt(c.Intn(5)))
					hostileContext(c).Eval(g)
					g.Process(hostileContext(c))
				}
			}
		}
		c.Ev("printed")
	}
	if lang == "xml" && depth < 10000 {
		gxml.Simplify(g)
	}
}

type meter struct {
	c  *C
	s  string
	a0 int64
}

func (m *meter) start() { m.a0 = allocated() }
func (m *meter) stop(what string, limit int64) {
	limit = 4*limit + 2<<20 // far above what is needed, and the count advances in steps
	used := allocated() - m.a0
	if used > limit {
		tooMuch(m.c, "%s of %s allocates %d bytes (limit %d)", what, m.s, used, limit)
	}
	if debugMeter != nil {
		debugMeter(m.s+" "+what, float64(used)/float64(limit))
	}
}

var debugMeter func(string, float64)

// measure walks a graph without recursion.
func measure(g *ogdl.Graph, max int) (nodes, depth int, sum int64, over bool) {
	type fr struct {
		g *ogdl.Graph
		d int
	}
	if g == nil {
		return
	}
	st := []fr{{g, 1}}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		nodes++
		sum += int64(f.d)
		if f.d > depth {
			depth = f.d
		}
		if nodes > max {
			return nodes, depth, sum, true
		}
		for _, o := range f.g.Out {
			if o != nil {
				st = append(st, fr{o, f.d + 1})
			}
		}
	}
	return
}

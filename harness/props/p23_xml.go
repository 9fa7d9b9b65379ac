package props

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"github.com/rveen/ogdl/io/gxml"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P23",
		Rule:  "XML documents written from random element trees (names with accents in composed and decomposed form, '-' and name spaces, attributes, text in pieces, CDATA, references, comments, processing instructions, DOCTYPE, white space, depth, long names and texts) and the graph compared with the one prescribed; then the simplification, applied to it or to graphs around its special cases, compared with the documented renaming. Non-trivial: at least 3 elements; distinct by document.",
		Quick: 400000, Thoro: 2500000, Case: p23,
		Must:   []string{"elements", "attributes", "accents", "hyphens", "name spaces", "text", "CDATA", "comments", "instructions", "DOCTYPE", "mixed", "deep", "simplified", "field renamed", "id renamed", "unchanged", "many attributes"},
		Assume: []string{"character data next to each other (text and CDATA, or text around a comment) is not generated, as the pieces may be taken as one or several", "the subnodes of an element that is renamed by its id and has more than one other subnode are outside of the domain of the simplification"},
	})
}

// accents pairs letters with what is left without accents; the second form is decomposed.
var accents = [][3]string{
	{"é", "e\u0301", "e"}, {"ü", "u\u0308", "u"}, {"ñ", "n\u0303", "n"}, {"ç", "c\u0327", "c"}, {"Å", "A\u030a", "A"},
	{"ő", "o\u030b", "o"}, {"Ž", "Z\u030c", "Z"}, {"ế", "e\u0302\u0301", "e"}, {"й", "и\u0306", "и"}, {"ё", "е\u0308", "е"},
	{"ï", "i\u0308", "i"}, {"Ǘ", "U\u0308\u0301", "U"}, {"à", "a\u0300", "a"}, {"ş", "s\u0327", "s"}, {"ṩ", "s\u0323\u0307", "s"}, {"ά", "α\u0301", "α"},
}

// xmlName makes a name, and what is left of it.
func xmlName(c *C) (name, left string) {
	var a, b strings.Builder
	n := c.Range(1, 6)
	switch c.Intn(12) {
	case 0:
		n = c.Num(400)
	case 1:
		if c.One(5) {
			n = c.Num(9000)
		}
	case 2, 3, 4:
		s := c.Str("a", "b", "p", "field", "id", "name", "item", "x-y", "x_y")
		if strings.Contains(s, "-") {
			c.Ev("hyphens")
		}
		return s, strings.Replace(s, "-", "_", -1)
	}
	acc := c.One(3)
	for i := 0; i < max(n, 1); i++ {
		switch k := c.Intn(12); {
		case acc && k < 4:
			x := accents[c.Intn(len(accents))]
			a.WriteString(x[c.Intn(2)])
			b.WriteString(x[2])
			c.Ev("accents")
		case k == 4 && i > 0:
			a.WriteByte('-')
			b.WriteByte('_')
			c.Ev("hyphens")
		case k == 5 && i > 0:
			s := c.Str(".", "_", "7", "0", "\u00b7")
			a.WriteString(s)
			b.WriteString(s)
		case k == 6:
			s := c.Str("ø", "ß", "ж", "中", "한", "あ", "æ", "ł", "_", "Ω", "א")
			a.WriteString(s)
			b.WriteString(s)
		default:
			s := ascii[c.Intn(52)]
			a.WriteByte(s)
			b.WriteByte(s)
		}
	}
	return a.String(), b.String()
}

// xmlText makes text without carriage returns and control characters.
func xmlText(c *C) string {
	var s string
	switch c.Intn(6) {
	case 0:
		s = c.Str("@id", "@name", "p", "5", "true", "#", "a b", "]]>", "<a>", "&amp;", "_", "\u00a0x", "é e\u0301", "a-b", "--", "%s")
	case 1:
		s = rawText(c, c.Num(9000), "psntu")
	case 2:
		s = " \n\t" + text(c, false) + " \n"
	default:
		s = text(c, false)
	}
	return strings.Map(func(r rune) rune {
		if r < 32 && r != '\n' && r != '\t' || r == 0xfffd || r == 0xfffe || r == 0xffff || r == 127 || r == '\ufeff' {
			return -1
		}
		return r
	}, validStr(s))
}

type xmlw struct {
	c      *C
	b      strings.Builder
	budget int
	accent bool
}

func (w *xmlw) ws(min int) {
	for i := min + w.c.Intn(3)*w.c.Intn(2); i > 0; i-- {
		w.b.WriteByte(" \n\t"[w.c.Intn(3)])
	}
}

func (w *xmlw) escape(s string, q byte) {
	c := w.c
	for _, r := range s {
		switch {
		case r == '<':
			w.b.WriteString(c.Str("&lt;", "&#60;", "&#x3c;"))
		case r == '&':
			w.b.WriteString(c.Str("&amp;", "&#38;"))
		case r == '>':
			w.b.WriteString(c.Str("&gt;", "&#x3E;"))
		case q != 0 && (r == '\n' || r == '\t'):
			fmt.Fprintf(&w.b, "&#%d;", r)
		case r == '"' && (q == '"' || c.One(3)):
			w.b.WriteString("&quot;")
		case r == '\'' && (q == '\'' || c.One(3)):
			w.b.WriteString("&apos;")
		case c.One(60):
			fmt.Fprintf(&w.b, "&#x%X;", r)
		default:
			w.b.WriteRune(r)
		}
	}
}

// misc writes what leaves no trace. It never contains text.
func (w *xmlw) misc() {
	c := w.c
	switch c.Intn(6) {
	case 0:
		s := strings.Replace(xmlText(c), "-", "x", -1)
		w.b.WriteString("<!--" + s + "-->")
		c.Ev("comments")
	case 1:
		s := strings.Replace(xmlText(c), "?", "x", -1)
		w.b.WriteString("<?" + c.Str("go", "php", "xml-stylesheet", "x") + " " + s + "?>")
		c.Ev("instructions")
	default:
		w.ws(0)
	}
}

func (w *xmlw) name(first bool) (string, string) {
	a, b := xmlName(w.c)
	if w.c.One(8) {
		w.c.Ev("name spaces")
		return w.c.Str("ns", "x-y", "é", "ogdl") + ":" + a, b
	}
	return a, b
}

func (w *xmlw) element(parent *T, depth int) {
	c := w.c
	w.budget--
	name, left := w.name(true)
	n := parent.Add(left)
	c.Ev("elements")
	w.b.WriteString("<" + name)
	used := map[string]bool{}
	i := c.Intn(4) * c.Intn(2)
	many := c.One(2000)
	if many {
		i = c.Num(300)
		if i > 64 {
			c.Ev("many attributes")
		}
	}
	for ; i > 0; i-- {
		var full, local string
		switch c.Intn(8) {
		case 0, 1, 2:
			local = c.Str("id", "name", "a", "b")
		case 3:
			local = "xmlns"
		default:
			local, _ = xmlName(c)
		}
		if many && local != "xmlns" {
			local += strconv.Itoa(i)
		}
		full = local
		if c.One(8) && local != "xmlns" {
			full = c.Str("xmlns", "x", "ns") + ":" + local
		}
		if used[full] || strings.HasPrefix(strings.ToLower(full), "xml:") {
			continue
		}
		used[full] = true
		v := xmlText(c)
		if c.P(50) {
			v = word(c)
			v = validStr(v)
			v = strings.Map(func(r rune) rune {
				if r == 0xfffd || r == 127 || r == '\ufeff' || r == 0xfffe || r == 0xffff {
					return -1
				}
				return r
			}, v)
		}
		w.ws(1)
		w.b.WriteString(full)
		w.ws(0)
		w.b.WriteByte('=')
		w.ws(0)
		q := c.Byte("\"'")
		w.b.WriteByte(q)
		w.escape(v, q)
		w.b.WriteByte(q)
		n.Add("@" + local).Add(v)
		c.Ev("attributes")
	}
	w.ws(0)
	kids := c.Intn(6)
	if c.One(4) {
		kids = 0
	}
	if kids == 0 && c.P(50) {
		w.b.WriteString("/>")
		return
	}
	w.b.WriteByte('>')
	texts, elems := 0, 0
	last := false // a piece of text came last
	for ; kids > 0; kids-- {
		if last || depth > 0 && w.budget > 0 && c.P(50) {
			if depth <= 0 {
				break
			}
			w.misc1(last)
			w.element(n, depth-1)
			last = false
			elems++
			continue
		}
		s := xmlText(c)
		trimmed := strings.TrimFunc(s, unicode.IsSpace)
		if c.One(4) && !strings.Contains(s, "]]>") {
			w.b.WriteString("<![CDATA[" + s + "]]>")
			c.Ev("CDATA")
		} else {
			w.escape(s, 0)
		}
		if trimmed != "" {
			n.Add(trimmed)
			texts++
			c.Ev("text")
		}
		last = true
	}
	if !last {
		w.misc()
	} else if c.One(4) {
		w.b.WriteString("<!-- -->")
	}
	if texts > 0 && elems > 0 {
		c.Ev("mixed")
	}
	w.b.WriteString("</" + name)
	w.ws(0)
	w.b.WriteByte('>')
}

// misc1 writes a comment or instruction, but no space after a piece of text.
func (w *xmlw) misc1(last bool) {
	if last {
		if w.c.One(4) {
			w.b.WriteString("<!-- x -->")
			w.c.Ev("comments")
		}
		return
	}
	w.misc()
}

// genXML writes a document, and gives the tree that it should yield.
func genXML(c *C, size int) (string, *T) {
	w := &xmlw{c: c, budget: size}
	want := &T{}
	if c.P(30) {
		w.b.WriteString(c.Str("<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?> "))
	}
	w.misc()
	if c.P(30) {
		w.b.WriteString(c.Str("<!DOCTYPE a>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"x.dtd\">", "<!DOCTYPE a [ <!ELEMENT a (b,c)> <!ATTLIST a x CDATA #REQUIRED> ]>\n"))
		c.Ev("DOCTYPE")
	}
	w.misc()
	if c.One(30) {
		n := c.Num(5000)
		var open, shut strings.Builder
		at := want
		for i := 0; i < n; i++ {
			open.WriteString("<d>")
			shut.WriteString("</d>")
			at = at.Add("d")
		}
		w.b.WriteString(open.String())
		w.element(at, 3)
		w.b.WriteString(shut.String())
		if n > 300 {
			c.Ev("deep")
		}
	} else {
		w.element(want, c.Range(0, 8))
	}
	w.misc()
	return w.b.String(), want
}

func p23(c *C) {
	if c.One(3) {
		p23simplify(c, nil)
		return
	}
	size := c.Num(200)
	if c.One(100) {
		size = c.Num(5000)
	}
	src, want := genXML(c, size)
	c.Info = func() string { return src }
	in := []byte(src)
	g := gxml.FromXML(in)
	for i := range in {
		in[i] = 'Z' // the bytes are ours
	}
	if g == nil {
		c.Fail("no graph")
	}
	got := ref.From(g)
	if d := ref.DiffOut(want, got, ref.Same); d != "" {
		c.Fail("%s", d)
	}
	if c.One(10) {
		keptGraph(c, "FromXML", g)
	}
	if d := ref.Diff(got, ref.From(gxml.FromXML([]byte(src))), ref.Same); d != "" {
		c.Fail("another result the second time: %s", d)
	}
	if want.Size() > 3 {
		c.SeenStr(src)
	}
	p23simplify(c, want)
}

// p23simplify applies the simplification to a tree, or to a random one.
func p23simplify(c *C, t *T) {
	if t == nil {
		f := pool(c, 12, func() interface{} {
			if c.One(10) {
				return scalarVal(c)
			}
			return c.Str("@id", "@id", "@name", "@name", "field", "field", "p", "a b", "a", "@x", "x", "", " ")
		})
		t = N2(f, c, 20)
		for i := c.Intn(5); i > 0; i-- {
			// what the step looks for, and what is close to it
			n, _ := pickNode(c, t)
			m := n.Add(c.Str("field", "field", "p", "a", "Field"))
			switch c.Intn(3) {
			case 0:
				m.Add(c.Str("@id", "@x", "@name"))
			case 1:
				m.Add(c.Str("@name", "@id"))
			}
			a := m.Add(c.Str("@name", "@id", "@name"))
			for k := []int{0, 1, 1, 1, 2}[c.Intn(5)]; k > 0; k-- {
				a.Add(c.Str("x", "a b c", "é", "", "@id", "field", " "))
			}
			for k := c.Intn(3); k > 0; k-- {
				m.Add(f()).Add(f())
			}
		}
		c.Info = func() string { return "Simplify " + t.String() }
		c.SeenStr(t.String())
	}
	g := t.Graph()
	gxml.Simplify(g)
	c.Ev("simplified")
	if g == nil {
		return
	}
	if !ref.Same(g.This, t.V) {
		c.Fail("the content of the root is %s after the simplification", ref.Show(g.This))
	}
	simplified(c, t, ref.From(g), "")
	gxml.Simplify(nil)
}

func simplified(c *C, t, got *T, path string) {
	if len(t.Out) != len(got.Out) {
		c.Fail("at %s/%s: %d subnodes instead of %d after the simplification", path, ref.Show(t.V), len(got.Out), len(t.Out))
	}
	for i, n := range t.Out {
		x := got.Out[i]
		p := path
		if len(p) < 200 {
			p += "/" + ref.Str(n.V)
		}
		if len(n.Out) == 0 {
			if d := ref.Diff(n, x, ref.Same); d != "" {
				c.Fail("at %s after the simplification: %s", p, d)
			}
			continue
		}
		first := n.Out[0]
		switch {
		case ref.Str(first.V) == "@id" && len(first.Out) > 0 && len(n.Out) >= 2:
			name := first.Out[0].V
			if s, ok := n.V.(string); ok && s == "p" {
				name = n.V
			}
			if !ref.Same(name, x.V) {
				c.Fail("at %s: the name is %s instead of %s after the simplification", p, ref.Show(x.V), ref.Show(name))
			}
			if len(n.Out) == 2 {
				simplified(c, &T{Out: n.Out[1:]}, &T{Out: x.Out}, p)
			}
			c.Ev("id renamed")
		case ref.Str(first.V) == "@name" && len(first.Out) == 1 && ref.Str(n.V) == "field":
			name := strings.Replace(ref.Str(first.Out[0].V), " ", "_", -1)
			if !ref.Same(name, x.V) {
				c.Fail("at %s: the name is %s instead of %q after the simplification", p, ref.Show(x.V), name)
			}
			simplified(c, &T{Out: n.Out[1:]}, x, p)
			c.Ev("field renamed")
		default:
			if !ref.Same(n.V, x.V) {
				c.Fail("at %s: the name is %s after the simplification", p, ref.Show(x.V))
			}
			simplified(c, n, x, p)
			c.Ev("unchanged")
		}
	}
}

package props

import (
	"fmt"
	"html"
	"math"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P29",
		Rule:  "random sequences of events (items of all types at the current or a given level, level changes, deletions) sent to an event handler of its own or to that of a parser, with the tree built at random moments, compared with the tree that the levels prescribe; in some sequences levels skip a parent, and the items that have one must be unaffected. Non-trivial: at least 3 items; distinct by sequence.",
		Quick: 800000, Thoro: 8000000, Case: p29,
		Must: []string{"items", "bytes", "other types", "at a level", "inc", "dec", "dec at 0", "set level", "deleted", "deleted when empty", "built", "built again", "without parent", "parser", "deep", "very deep", "long", "no content", "slices"},
	})
	core.Register(&core.Prop{
		ID:    "P30",
		Rule:  "random graphs (words, phrases, characters that have a meaning in HTML, nodes without content, repeated names, all shapes, deep, long words) and base paths; the lines of the HTML form are compared one by one with the nodes in depth-first order. Non-trivial: at least 3 nodes; distinct by graph.",
		Quick: 700000, Thoro: 4000000, Case: p30,
		Must: []string{"lines", "links", "nested links", "deep", "repeated names", "siblings after a nested node", "special characters", "phrases", "empty nodes", "double quotes", "double quotes after a backslash"},
	})
}

type evItem struct {
	v  interface{}
	lv int
}

// evTree builds the tree; items without parent are left out and returned.
func evTree(items []evItem) (*T, map[interface{}]bool) {
	root := &T{V: "_"}
	path := []*T{root}
	lost := map[interface{}]bool{}
	for _, it := range items {
		if it.lv < 0 || it.lv >= len(path) {
			if s, ok := it.v.(string); ok {
				lost[s] = true
			}
			continue
		}
		n := path[it.lv].Add(it.v)
		path = append(path[:it.lv+1], n)
	}
	return root, lost
}

func prune(t *T, lost map[interface{}]bool) {
	var out []*T
	for _, o := range t.Out {
		if s, ok := o.V.(string); ok && lost[s] {
			continue
		}
		prune(o, lost)
		out = append(out, o)
	}
	t.Out = out
}

func p29(c *C) {
	var h *ogdl.SimpleEventHandler
	var p *ogdl.Parser
	if c.One(3) {
		p = ogdl.NewStringParser(c.Str("", "text", "a\n b"))
		h = p.Handler()
		c.Ev("parser")
	} else {
		h = &ogdl.SimpleEventHandler{}
	}
	wild := c.One(3) // levels that skip a parent; then all items are different words
	var items []evItem
	var ops []string
	c.Info = func() string {
		o := ops
		if len(o) > 300 {
			o = o[len(o)-300:]
		}
		return strings.Join(o, "; ")
	}
	note := func(f string, a ...interface{}) { ops = append(ops, fmt.Sprintf(f, a...)) }
	cur := 0
	known := true // the current level is known
	serial := 0
	limit := func() int { // the deepest level that has a parent
		if len(items) == 0 {
			return 0
		}
		return items[len(items)-1].lv + 1
	}
	word1 := func() string {
		if wild {
			serial++
			return fmt.Sprintf("w%d", serial)
		}
		return strLit(c)
	}
	builds := 0
	build := func() {
		builds++
		want, lost := evTree(items)
		var g *ogdl.Graph
		if p != nil && c.P(50) {
			g = p.Graph()
		} else {
			g = h.Tree()
		}
		c.Ev("built")
		if builds > 1 {
			c.Ev("built again")
		}
		if g == nil {
			c.Fail("no tree")
		}
		got := ref.From(g)
		if len(lost) > 0 {
			c.Ev("without parent")
			prune(got, lost)
		}
		if d := ref.DiffOut(want, got, ref.Same); d != "" {
			c.Fail("%s", d)
		}
		if want.Depth() > 20 {
			c.Ev("deep")
		}
	}
	n := c.Num(120)
	if c.One(50) {
		n = c.Num(6000)
	}
	if n > 300 {
		c.Ev("long")
	}
	bias := c.Intn(3)
	if !wild && c.One(500) {
		// far down
		for i := c.Range(200, 5000); i > 0; i-- {
			cur = limit()
			h.SetLevel(cur)
			s := word1()
			h.Add(s)
			items = append(items, evItem{s, cur})
		}
		note("SetLevel and Add for levels up to %d", cur)
		if cur > 1100 {
			c.Ev("very deep")
		}
	}
	for i := 0; i < n; i++ {
		k := c.Intn(14)
		if bias == 1 && k >= 10 && k < 12 && c.P(90) {
			k = 0 // deep
		}
		switch {
		case k < 6:
			if !known || !wild && cur > limit() {
				// go to a level where an item may be added
				cur = c.Intn(limit() + 1)
				note("SetLevel(%d)", cur)
				h.SetLevel(cur)
				c.Ev("set level")
				known = true
			}
			var v interface{}
			switch x := c.Intn(5); {
			case x == 0 && !wild:
				b := []byte(strLit(c))
				v = b
				note("AddBytes(%q)@%d", b, cur)
				h.AddBytes(b)
				c.Ev("bytes")
			case x == 1 && !wild:
				v = scalarVal(c)
				switch {
				case c.One(8):
					v = nil
					c.Ev("no content")
				case c.One(8):
					v = [][]string{nil, {}, {"a", "b"}}[c.Intn(3)]
					c.Ev("slices")
				}
				note("AddItf(%#v)@%d", v, cur)
				h.AddItf(v)
				c.Ev("other types")
			case x == 2 && p != nil:
				s := word1()
				v = s
				note("Emit(%q)@%d", s, cur)
				p.Emit(s)
			default:
				s := word1()
				v = s
				note("Add(%q)@%d", s, cur)
				h.Add(s)
			}
			items = append(items, evItem{v, cur})
			c.Ev("items")
			if c.P(30) || bias == 1 && c.P(90) {
				note("Inc")
				h.Inc()
				c.Ev("inc")
				cur++
			}
		case k < 8:
			lv := c.Intn(limit() + 1)
			if bias == 1 && c.P(60) {
				lv = limit()
			}
			if wild && c.One(4) {
				lv = []int{-1, limit() + 1, limit() + 5, math.MaxInt32, math.MaxInt64, math.MinInt64, 100, -1000}[c.Intn(8)]
			}
			var v interface{}
			if !wild && c.One(3) {
				b := []byte(strLit(c))
				v = b
				note("AddBytesAt(%q,%d)", b, lv)
				h.AddBytesAt(b, lv)
			} else {
				s := word1()
				v = s
				note("AddAt(%q,%d)", s, lv)
				h.AddAt(s, lv)
			}
			items = append(items, evItem{v, lv})
			c.Ev("at a level")
		case k < 10:
			if !known {
				continue
			}
			if !wild && cur > limit() {
				continue
			}
			note("Inc")
			c.Ev("inc")
			if p != nil && c.P(50) {
				p.Inc()
			} else {
				h.Inc()
			}
			cur++
		case k < 11:
			if !known {
				continue
			}
			note("Dec")
			c.Ev("dec")
			if p != nil && c.P(50) {
				p.Dec()
			} else {
				h.Dec()
			}
			if cur > 0 {
				cur--
			} else {
				c.Ev("dec at 0")
			}
		case k < 12:
			cur = c.Intn(limit() + 1)
			known = true
			if wild && c.One(4) {
				cur = limit() + c.Intn(20)
			}
			note("SetLevel(%d)", cur)
			h.SetLevel(cur)
			c.Ev("set level")
		case k < 13:
			note("Delete")
			h.Delete()
			if len(items) > 0 {
				items = items[:len(items)-1]
				c.Ev("deleted")
			} else {
				c.Ev("deleted when empty")
			}
		default:
			if c.One(4) {
				note("Tree")
				build()
			}
		}
		if known && h.Level() != cur {
			c.Fail("the level is %d instead of %d", h.Level(), cur)
		}
	}
	build()
	if c.P(50) {
		build()
	}
	if len(items) > 2 {
		c.SeenStr(strings.Join(ops, ";"))
	}
}

// p30 checks the HTML form.
// htmlShows tells if a line shows the text, which may be in double quotes. The
// double quotes of the text may have a backslash in front of them, and have one if
// the text is in double quotes.
func htmlShows(line, text string) bool {
	if line == text {
		return true
	}
	same := func(s string, quoted bool) bool {
		j := 0
		for i := 0; i < len(text); i++ {
			if text[i] == '"' && j < len(s) && s[j] == '\\' {
				j++
			}
			if text[i] == '"' && quoted && (j == 0 || s[j-1] != '\\') {
				return false
			}
			if j >= len(s) || s[j] != text[i] {
				return false
			}
			j++
		}
		return j == len(s)
	}
	return same(line, false) || len(line) > 1 && line[0] == '"' && line[len(line)-1] == '"' && same(line[1:len(line)-1], true)
}

func p30(c *C) {
	n := c.Num(80)
	if c.One(60) {
		n = c.Num(600)
		if c.One(10) {
			n = c.Num(3000)
		}
	}
	hard := c.P(60)
	words := pool(c, c.Range(1, 40), func() interface{} {
		if !hard || c.P(50) {
			return plainWord(c)
		}
		switch c.Intn(6) {
		case 0:
			return c.Str("a b", "<b>", "a<b", "b>a", "&amp;", "&", "it's", "f(x)", "a, b", "</a>", "'", "x&lt;y", "\\", "a\\ b", " a", "a ", "a  b", "&nbsp;", "<br>", "_", "a/b", "?a=1&b=2")
		case 1:
			if c.P(50) {
				return ""
			}
			return nil
		case 2:
			return c.Range(-100, 100)
		case 3:
			return noCtlBytes(rawText(c, c.Range(1, 8), "psu"), "")
		case 4:
			return pieces(c, 5, `"`, `\"`, `""`, "a", " ", "'", "\\", "é", "&quot;")
		default:
			return word(c) + c.Str(" ", "&", "'", "<", ">", ",", "(", `"`, `""`, `\"`) + word(c)
		}
	})
	t := shape(c, n, func(int) interface{} { return words() })
	t.V = c.Str("_", "root", "")
	base := c.Str("", "/", "base", "/a/b", "http://h:8080/x", "é", "..", "/base/", "/x?a=1&b=2")
	c.Info = func() string { return fmt.Sprintf("Html(%q) of %s", base, t) }
	g := t.Graph()
	got := g.Html(base)
	type line struct {
		lv         int
		text, link string
	}
	var want []line
	depth := 0
	var walk func(t *T, lv int, path string)
	walk = func(t *T, lv int, path string) {
		depth = max(depth, lv)
		names := map[string]bool{}
		nested := false
		for _, o := range t.Out {
			s := ref.Str(o.V)
			if s == "" {
				s = "_"
				c.Ev("empty nodes")
			}
			if names[s] {
				c.Ev("repeated names")
			}
			names[s] = true
			p := path + "/" + s
			if nested {
				c.Ev("siblings after a nested node")
			}
			l := line{lv: lv, text: s}
			if strings.ContainsAny(s, "<>&") {
				c.Ev("special characters")
			}
			if strings.Contains(s, `"`) {
				c.Ev("double quotes")
				if strings.Contains(s, `\"`) {
					c.Ev("double quotes after a backslash")
				}
			}
			if strings.ContainsAny(s, " ',()") {
				c.Ev("phrases")
			}
			if len(o.Out) > 0 {
				l.link = p
				c.Ev("links")
				if lv > 0 {
					c.Ev("nested links")
				}
				nested = true
			}
			want = append(want, l)
			walk(o, lv+1, p)
		}
	}
	walk(t, 0, base)
	if depth > 20 {
		c.Ev("deep")
	}
	if got == "" && len(want) == 0 {
		return
	}
	lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	for i, l := range lines {
		if i >= len(want) {
			c.Fail("line %d, %.300q, is of no node", i, l)
		}
		w := want[i]
		r, ok := strings.CutSuffix(l, "<br>")
		if !ok {
			c.Fail("line %d, %.300q, does not end with a line break", i, l)
		}
		// indentation and link, in any order
		ind := 0
		link := ""
		for {
			if x, ok := strings.CutPrefix(r, "&nbsp;"); ok {
				r = x
				ind++
				continue
			}
			if x, ok := strings.CutPrefix(r, "<a href='"); ok && link == "" {
				k := strings.IndexByte(x, '\'')
				if k < 0 || !strings.HasPrefix(x[k:], "'>") {
					c.Fail("line %d, %.300q, has a broken link", i, l)
				}
				link = html.UnescapeString(x[:k])
				r = x[k+2:]
				continue
			}
			break
		}
		if link != w.link {
			c.Fail("line %d, %.300q, links to %q instead of %q", i, l, link, w.link)
		}
		if w.link != "" {
			if r, ok = strings.CutSuffix(r, "</a>"); !ok {
				c.Fail("line %d, %.300q, does not close the link", i, l)
			}
		}
		if ind != 2*w.lv {
			c.Fail("line %d, %.300q, is indented by %d instead of %d", i, l, ind, 2*w.lv)
		}
		if strings.ContainsAny(r, "<>") {
			c.Fail("line %d, %.300q, has other elements", i, l)
		}
		if r = html.UnescapeString(r); !htmlShows(r, w.text) {
			c.Fail("line %d, %.300q, shows %q instead of %q", i, l, r, w.text)
		}
		c.Ev("lines")
	}
	if len(lines) < len(want) {
		c.Fail("there are %d lines for %d nodes; missing: %.300q", len(lines), len(want), want[len(lines)].text)
	}
	if len(want) > 2 {
		c.SeenStr(t.String())
	}
}

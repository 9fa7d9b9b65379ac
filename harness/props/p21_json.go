package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P21",
		Rule:  "JSON documents written from random values (all nesting, escapes, number forms, white space); the graph is compared with the one the values prescribe, the members of an object being a set; imports are repeated. Damaged documents must be refused exactly if encoding/json finds them invalid. Non-trivial: at least 3 values; distinct by document.",
		Quick: 800000, Thoro: 3000000, Case: p21,
		Must: []string{"objects", "arrays", "integers", "floats", "strings", "booleans", "nulls", "repeated", "refused", "accepted after damage", "deep", "thousands of elements", "thousands of members"},
	})
	core.Register(&core.Prop{
		ID:    "P22",
		Rule:  "random graphs with all kinds of scalar content, '_' nodes, mixed lists and names; the JSON text is checked by encoding/json and its tokens are matched, in order, with the nodes. Non-trivial: at least 3 nodes; distinct by graph.",
		Quick: 500000, Thoro: 3000000, Case: p22,
		Must: []string{"numbers", "booleans", "strings", "members", "arrays", "sets of names", "repeated names", "empty"},
	})
}

// jv is a JSON value.
type jv struct {
	kind byte // o a s n b z
	keys []string
	sub  []*jv
	str  string // string, or number as written
	b    bool
}

func jsonStr(c *C) string {
	switch c.Intn(8) {
	case 0:
		return c.Str("", "_", "!p", "a", "true", "5", "null", "#", "a b", "\\", "\"", "'", "\x00", "\u2028", "/", "\x7f", "id", "%s")
	case 1, 2:
		return text(c, true)
	case 3:
		return rawText(c, c.Num(300), "psntucr0")
	}
	return word(c)
}

func validStr(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return strings.ToValidUTF8(s, "\ufffd")
}

func genJSON(c *C, depth int, budget *int) *jv {
	*budget--
	k := c.Intn(10)
	if depth <= 0 || *budget <= 0 {
		k = 4 + c.Intn(6)
	}
	switch {
	case k < 2:
		v := &jv{kind: 'o'}
		used := map[string]bool{}
		n := c.Intn(6)
		if c.One(20) {
			n = c.Intn(40)
		}
		if c.One(3000) {
			for n = c.Range(3000, 9000); n > 0; n-- {
				v.keys = append(v.keys, "k"+strconv.Itoa(n))
				v.sub = append(v.sub, &jv{kind: 'n', str: strconv.Itoa(c.Intn(50))})
			}
			c.Ev("thousands of members")
			return v
		}
		for ; n > 0; n-- {
			s := validStr(jsonStr(c))
			if used[s] {
				continue
			}
			used[s] = true
			v.keys = append(v.keys, s)
			v.sub = append(v.sub, genJSON(c, depth-1, budget))
		}
		return v
	case k < 4:
		v := &jv{kind: 'a'}
		n := c.Intn(6)
		if c.One(20) {
			n = c.Intn(60)
		}
		if c.One(2000) {
			// many
			for n = c.Range(3000, 20000); n > 0; n-- {
				v.sub = append(v.sub, &jv{kind: 'n', str: strconv.Itoa(c.Intn(50))})
			}
			c.Ev("thousands of elements")
			return v
		}
		for ; n > 0; n-- {
			v.sub = append(v.sub, genJSON(c, depth-1, budget))
		}
		return v
	case k < 6:
		return &jv{kind: 's', str: validStr(jsonStr(c))}
	case k < 8:
		for {
			var s string
			switch c.Intn(5) {
			case 0:
				s = strconv.Itoa(c.Range(-50, 50))
			case 1:
				s = strconv.FormatInt(int64(c.Uint64())>>uint(c.Intn(64)), 10)
			default:
				s = typedWord(c)
			}
			if jsonNumber(s) {
				if f, err := strconv.ParseFloat(s, 64); err == nil && !math.IsInf(f, 0) {
					return &jv{kind: 'n', str: s}
				}
			}
		}
	case k == 8:
		return &jv{kind: 'b', b: c.P(50)}
	}
	return &jv{kind: 'z'}
}

func jsonNumber(s string) bool {
	var n json.Number
	return s != "" && (s[0] == '-' || s[0] >= '0' && s[0] <= '9') && json.Unmarshal([]byte(s), &n) == nil
}

func (v *jv) ws(c *C, b *strings.Builder) {
	if c.One(4) {
		for i := c.Range(1, 3); i > 0; i-- {
			b.WriteByte(" \n\t\r"[c.Intn(4)])
		}
	}
}

func (v *jv) write(c *C, b *strings.Builder) {
	v.ws(c, b)
	switch v.kind {
	case 'o':
		b.WriteByte('{')
		for i, k := range v.keys {
			if i > 0 {
				b.WriteByte(',')
			}
			v.ws(c, b)
			writeJSONString(c, b, k)
			v.ws(c, b)
			b.WriteByte(':')
			v.sub[i].write(c, b)
		}
		v.ws(c, b)
		b.WriteByte('}')
	case 'a':
		b.WriteByte('[')
		for i := range v.sub {
			if i > 0 {
				b.WriteByte(',')
			}
			v.sub[i].write(c, b)
		}
		v.ws(c, b)
		b.WriteByte(']')
	case 's':
		writeJSONString(c, b, v.str)
	case 'n':
		b.WriteString(v.str)
	case 'b':
		b.WriteString(strconv.FormatBool(v.b))
	default:
		b.WriteString("null")
	}
	v.ws(c, b)
}

func writeJSONString(c *C, b *strings.Builder, s string) {
	b.WriteByte('"')
	all := c.One(5)
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n' && !all:
			b.WriteString("\\n")
		case r == '\t' && !all:
			b.WriteString("\\t")
		case r == '/' && c.P(50):
			b.WriteString("\\/")
		case r < 32 || all || r > 127 && c.One(4):
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(b, "\\u%04x\\u%04X", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(b, "\\u%04x", r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// content is what a value gives as subnodes.
func (v *jv) content(c *C) []*T {
	switch v.kind {
	case 'o':
		c.Ev("objects")
		n := &T{V: "_"}
		for i, k := range v.keys {
			n.Out = append(n.Out, &T{V: k, Out: v.sub[i].content(c)})
		}
		return []*T{n}
	case 'a':
		c.Ev("arrays")
		var out []*T
		for _, s := range v.sub {
			out = append(out, &T{V: "_", Out: s.content(c)})
		}
		return out
	case 's':
		c.Ev("strings")
		return []*T{{V: v.str}}
	case 'n':
		if i, err := strconv.ParseInt(v.str, 10, 64); err == nil {
			c.Ev("integers")
			return []*T{{V: i}}
		}
		c.Ev("floats")
		f, _ := strconv.ParseFloat(v.str, 64)
		return []*T{{V: f}}
	case 'b':
		c.Ev("booleans")
		return []*T{{V: v.b}}
	}
	c.Ev("nulls")
	return nil
}

// sameJSON compares the nodes of a value with those of a graph.
func (v *jv) same(c *C, want, got []*T, path string) {
	if len(want) != len(got) {
		c.Fail("at %s there are %d nodes instead of %d: %s", path, len(got), len(want), ref.Short(&T{V: "", Out: got}))
	}
	switch v.kind {
	case 'o':
		w, g := want[0], got[0]
		if g.V != "_" || len(g.Out) != len(w.Out) {
			c.Fail("at %s there is %s instead of an object with %d members", path, ref.Short(g), len(w.Out))
		}
		m := map[string]*T{}
		for _, o := range g.Out {
			s, ok := o.V.(string)
			if !ok || m[s] != nil {
				c.Fail("at %s there is an unexpected member %s", path, ref.Show(o.V))
			}
			m[s] = o
		}
		for i, k := range v.keys {
			if m[k] == nil {
				c.Fail("at %s there is no member %q", path, k)
			}
			v.sub[i].same(c, w.Out[i].Out, m[k].Out, path+"/"+k)
		}
	case 'a':
		for i := range want {
			if got[i].V != "_" {
				c.Fail("element %d at %s is %s", i, path, ref.Short(got[i]))
			}
			v.sub[i].same(c, want[i].Out, got[i].Out, path+"/"+strconv.Itoa(i))
		}
	default:
		for i := range want {
			if !ref.Same(want[i].V, got[i].V) || len(got[i].Out) != 0 {
				c.Fail("at %s there is %s instead of %s", path, ref.Short(got[i]), ref.Show(want[i].V))
			}
		}
	}
}

func p21(c *C) {
	budget := c.Range(1, 60)
	depth := c.Range(0, 6)
	if c.One(30) {
		budget = 600
		depth = 12
	}
	v := genJSON(c, depth, &budget)
	if c.One(40) {
		// deep
		i := c.Range(20, 300)
		if c.One(30) {
			i = c.Range(300, 3000)
		}
		lists := []int{50, 0, 100, 95, 5}[c.Intn(5)]
		for ; i > 0; i-- {
			if c.P(lists) {
				v = &jv{kind: 'a', sub: []*jv{v}}
			} else {
				v = &jv{kind: 'o', keys: []string{"k"}, sub: []*jv{v}}
			}
		}
		c.Ev("deep")
	}
	var b strings.Builder
	v.write(c, &b)
	s := b.String()
	c.Info = func() string { return core.Sample(s) }
	if c.One(4) {
		// damaged
		s = damage(c, s)
		if c.P(20) {
			s += c.Str("}", "]", ",", "x", "1", "{}", " null", "\x00")
		}
		g, err := ogdl.FromJSON([]byte(s))
		if ok := json.Valid([]byte(s)); ok != (err == nil) {
			c.Fail("the error is %v, but encoding/json finds the text valid=%v", err, ok)
		}
		if err != nil {
			c.Ev("refused")
			if g != nil {
				c.Fail("an error (%v) and a graph: %s", err, show(g))
			}
		} else {
			c.Ev("accepted after damage")
		}
		c.SeenStr(s)
		return
	}
	in := []byte(s)
	g, err := ogdl.FromJSON(in)
	if err != nil {
		c.Fail("error %v", err)
	}
	if string(in) != s {
		c.Fail("the bytes given are changed")
	}
	got := ref.From(g)
	want := v.content(c)
	switch v.kind {
	case 'a':
		if got == nil || got.V != "_" {
			c.Fail("the root is %s", show(g))
		}
		v.same(c, want, got.Out, "")
	case 'z':
		if got != nil && (len(got.Out) > 0 || ref.Str(got.V) != "") {
			c.Fail("null gives %s", show(g))
		}
	default:
		if got == nil {
			c.Fail("there is no graph")
		}
		v.same(c, want, []*T{got}, "")
	}
	if c.One(10) && g != nil {
		for i := range in {
			in[i] = 'Z' // the bytes are ours
		}
		keptGraph(c, "FromJSON", g)
		if d := ref.Diff(got, ref.From(g), ref.Same); d != "" {
			c.Fail("the graph changes when the bytes given are overwritten: %s", d)
		}
	}
	for i := c.Intn(4); i > 0; i-- {
		h, _ := ogdl.FromJSON([]byte(s))
		if d := ref.Diff(got, ref.From(h), ref.Same); d != "" {
			c.Fail("another import gives another graph: %s", d)
		}
		c.Ev("repeated")
	}
	if len(v.sub) > 1 {
		c.SeenStr(s)
	}
}

// ---------------------------------------------------------------------------

// oj is a parsed JSON value that keeps the order of members.
type oj struct {
	kind byte
	keys []string
	sub  []*oj
	v    interface{}
}

func parseOJ(d *json.Decoder) (*oj, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		o := &oj{kind: 'o'}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			s, err := parseOJ(d)
			if err != nil {
				return nil, err
			}
			o.keys = append(o.keys, k.(string))
			o.sub = append(o.sub, s)
		}
		_, err = d.Token()
		return o, err
	case json.Delim('['):
		o := &oj{kind: 'a'}
		for d.More() {
			s, err := parseOJ(d)
			if err != nil {
				return nil, err
			}
			o.sub = append(o.sub, s)
		}
		_, err = d.Token()
		return o, err
	}
	return &oj{kind: 'v', v: t}, nil
}

func isList(t *T) bool { return len(t.Out) > 0 && ref.Str(t.V) == "_" }

// match compares the subnodes of a node with the value written for them.
func matchJSON(c *C, nodes []*T, v *oj, path string) {
	i := 0
	next := func() *T {
		if i >= len(nodes) {
			c.Fail("at %q there is more than the %d subnodes", path, len(nodes))
		}
		i++
		return nodes[i-1]
	}
	members := func(v *oj) {
		for k := range v.keys {
			n := next()
			if len(n.Out) == 0 || isList(n) || ref.Str(n.V) != v.keys[k] {
				c.Fail("at %q there is the member %q instead of %s", path, v.keys[k], ref.Short(n))
			}
			c.Ev("members")
			matchJSON(c, n.Out, v.sub[k], path+"/"+v.keys[k])
		}
	}
	leaf := func(v *oj) {
		n := next()
		if len(n.Out) > 0 {
			c.Fail("at %q there is the value %v instead of %s", path, v.v, ref.Short(n))
		}
		if !sameJSONValue(c, n.V, v.v) {
			c.Fail("at %q there is the value %T %v instead of %s", path, v.v, v.v, ref.Show(n.V))
		}
	}
	switch v.kind {
	case 'v':
		leaf(v)
	case 'o':
		members(v)
	case 'a':
		if len(nodes) == 1 && isList(nodes[0]) {
			c.Ev("arrays")
			nodes = nodes[0].Out
		}
		for _, e := range v.sub {
			switch e.kind {
			case 'v':
				leaf(e)
			case 'o':
				members(e)
			case 'a':
				n := next()
				if !isList(n) {
					c.Fail("at %q there is an array instead of %s", path, ref.Short(n))
				}
				matchJSON(c, []*T{n}, e, path+"/_")
			}
		}
	}
	if i != len(nodes) {
		c.Fail("at %q only %d of %d subnodes are written", path, i, len(nodes))
	}
}

func sameJSONValue(c *C, v, j interface{}) bool {
	switch x := v.(type) {
	case bool:
		c.Ev("booleans")
		return j == x
	case float64:
		if !math.IsNaN(x) && !math.IsInf(x, 0) {
			n, ok := j.(json.Number)
			f, err := strconv.ParseFloat(string(n), 64)
			c.Ev("numbers")
			return ok && err == nil && f == x
		}
	case float32:
		if f := float64(x); !math.IsNaN(f) && !math.IsInf(f, 0) {
			n, ok := j.(json.Number)
			f, err := strconv.ParseFloat(string(n), 32)
			c.Ev("numbers")
			return ok && err == nil && float32(f) == x
		}
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		n, ok := j.(json.Number)
		c.Ev("numbers")
		return ok && string(n) == fmt.Sprint(x)
	}
	s, ok := j.(string)
	c.Ev("strings")
	return ok && s == ref.Str(v)
}

func p22(c *C) {
	names := treeNames(c)
	val := func() interface{} {
		for {
			var v interface{}
			switch c.Intn(6) {
			case 0:
				v = scalarVal(c)
			case 1:
				v, _ = accessVal(c)
			case 2:
				v = validStr(jsonStr(c))
			case 3:
				if c.One(4) {
					return []interface{}{math.NaN(), math.Inf(1), math.Inf(-1), "", nil, uint64(math.MaxUint64), float32(0.1), float32(1e30), math.Copysign(0, -1)}[c.Intn(9)]
				}
				v = "_"
			default:
				v = names()
			}
			if utf8.ValidString(ref.Str(v)) {
				return v
			}
		}
	}
	var t *T
	set := false
	switch c.Intn(5) {
	case 0:
		// set of names
		t = &T{V: names()}
		used := map[string]bool{"_": true}
		for i := c.Range(1, 8); i > 0; i-- {
			k := validStr(jsonStr(c))
			if used[k] {
				continue
			}
			used[k] = true
			v := val()
			t.Add(k).Add(v)
		}
		set = len(t.Out) > 0
	case 1:
		t = shape(c, 30, func(int) interface{} {
			if c.P(40) {
				return "_"
			}
			return val()
		})
	default:
		n := 30
		if c.One(20) {
			n = 400
			if c.One(20) {
				n = c.Num(4000)
			}
		}
		t = shape(c, n, func(int) interface{} { return val() })
		if n > 400 {
			c.Ev("hundreds of nodes")
		}
	}
	t.Walk(func(n *T) {
		if !utf8.ValidString(ref.Str(n.V)) {
			n.V = "x"
		}
	})
	c.Info = func() string { return t.String() }
	b := t.Graph().JSON()
	if c.One(5) {
		g := t.Graph()
		keptBytes(c, "JSON", g.JSON(), g.JSON)
	}
	if !json.Valid(b) {
		c.Fail("this is not JSON: %s", core.Sample(string(b)))
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := parseOJ(d)
	if err != nil || d.More() {
		c.Fail("this is not one JSON value (%v): %s", err, core.Sample(string(b)))
	}
	if len(t.Out) == 0 {
		if v.kind != 'v' || v.v != "" && v.v != nil {
			c.Fail("an empty graph gives %s", b)
		}
		c.Ev("empty")
		return
	}
	matchJSON(c, t.Out, v, "")
	if set {
		var m map[string]interface{}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if err := d.Decode(&m); err != nil || len(m) != len(t.Out) {
			c.Fail("%d names with one value each do not give an object (%v): %s", len(t.Out), err, b)
		}
		for _, n := range t.Out {
			if !sameJSONValue(c, n.Out[0].V, m[ref.Str(n.V)]) {
				c.Fail("%s is %v", ref.Short(n), m[ref.Str(n.V)])
			}
		}
		c.Ev("sets of names")
	}
	used := map[string]bool{}
	for _, n := range t.Out {
		if used[ref.Str(n.V)] {
			c.Ev("repeated names")
		}
		used[ref.Str(n.V)] = true
	}
	if t.Size() > 2 {
		c.SeenStr(t.String())
	}
}

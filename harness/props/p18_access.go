package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P18",
		Rule:  "contents of all scalar types (integers of all widths, floats, booleans, text, bytes), numbers at all limits and text that only looks like one, read through every accessor with and without default, directly and by path, and compared with an own table of conversions. Non-trivial: every value; distinct by type and value.",
		Quick: 1500000, Thoro: 8000000, Case: p18,
		Must:   []string{"integer", "float", "boolean", "text", "bytes", "integer text", "float text", "boolean text", "other text", "defaults", "not convertible", "by path", "path not found", "lists", "long lists", "32-bit floats that are not short", "numbers that no float can hold"},
		Assume: []string{"out of the domain: inf, nan, hexadecimal floats and numbers with underscores as text, unsigned values above the signed range, integers as booleans in typed lookups"},
	})
}

// conv is what a content can be converted to.
type conv struct {
	i      int64
	f      float64
	b      bool
	isI    bool
	isF    bool
	isB    bool
	unsure bool // a number out of the range of its type: no integer, but maybe a number
	str    string
	num    interface{} // number, in the type of its accessor
	scalar interface{}
}

func convOf(v interface{}) conv {
	r := conv{str: ref.Str(v)}
	switch x := v.(type) {
	case bool:
		r.b, r.isB = x, true
	case float32:
		r.f, r.isF = float64(x), true
		r.i, r.isI = int64(x), true
		r.num = r.f
	case float64:
		r.f, r.isF = x, true
		r.i, r.isI = int64(x), true
		r.num = r.f
	case string, []byte:
		s := r.str
		switch {
		case s == "true" || s == "false":
			r.b, r.isB = s == "true", true
		case integer.MatchString(s):
			i, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				r.unsure = true
			} else {
				r.i, r.isI = i, true
				r.num = i
			}
			fallthrough
		case decimal.MatchString(s):
			f, err := strconv.ParseFloat(s, 64)
			if err == nil {
				r.f, r.isF = f, true
				if r.num == nil {
					r.num = f
				}
			}
		}
	default:
		r.i, r.isI = reflectInt(v), true
		r.f, r.isF = float64(r.i), true
		r.num = r.i
	}
	r.scalar = v
	if r.num != nil {
		r.scalar = r.num
	} else if r.isB {
		r.scalar = r.b
	}
	return r
}

func reflectInt(v interface{}) int64 {
	switch x := v.(type) {
	case int:
		return int64(x)
	case int8:
		return int64(x)
	case int16:
		return int64(x)
	case int32:
		return int64(x)
	case int64:
		return x
	case uint:
		return int64(x)
	case uint8:
		return int64(x)
	case uint16:
		return int64(x)
	case uint32:
		return int64(x)
	case uint64:
		return int64(x)
	}
	panic(fmt.Sprintf("%T", v))
}

func accessVal(c *C) (interface{}, string) {
	switch c.Intn(10) {
	case 0, 1:
		n := c.Uint64() >> uint(c.Intn(64))
		if c.P(50) {
			n = -n
		}
		if c.One(6) {
			n = []uint64{0, 1, math.MaxInt64, 1 << 63, 1<<63 + 1, 1<<32 - 1, 1 << 32, 1<<31 - 1, 1 << 31, 1<<16 - 1, 1 << 15, 255, 128, 127, 1 << 53, 1<<53 + 1, ^uint64(0)}[c.Intn(17)]
		}
		switch c.Intn(11) {
		case 0:
			return int(n), "integer"
		case 1:
			return int8(n), "integer"
		case 2:
			return int16(n), "integer"
		case 3:
			return int32(n), "integer"
		case 4, 5:
			return int64(n), "integer"
		case 6:
			return uint(n & math.MaxInt64), "integer"
		case 7:
			return uint8(n), "integer"
		case 8:
			return uint16(n), "integer"
		case 9:
			return uint32(n), "integer"
		}
		return n & math.MaxInt64, "integer"
	case 2:
		switch c.Intn(6) {
		case 0:
			if c.P(50) {
				// any bits, but those of numbers that are none
				if f := math.Float32frombits(uint32(c.Uint64())); f == f && f-f == 0 {
					return f, "float"
				}
				return float32(c.Range(-8000, 8000)) / 10, "float"
			}
			return float32(c.Range(-8000, 8000)) / 8, "float"
		case 1:
			return fltLit(c), "float"
		case 2:
			return []float64{0, math.Copysign(0, -1), 1e15, 1e16, 1e17, 123456789.125, 1e-7, -1e-300, 0.1, 1.0 / 3, 1 << 53, 9.2e18, math.SmallestNonzeroFloat64, 1e20, 1e21, math.MaxFloat64}[c.Intn(16)], "float"
		}
		return float64(int64(c.Uint64())>>uint(c.Intn(64))) / float64(uint64(1)<<uint(c.Intn(63))), "float"
	case 3:
		return c.P(50), "boolean"
	case 4, 5, 6, 7:
		s := typedWord(c)
		return s, "text"
	case 8:
		if c.One(5) {
			// too big for a type
			return c.Str("", "-", "+") + digits(c, 1) + c.Str("", ".5") + "e" + strconv.Itoa(c.Range(300, 420)), "text"
		}
		s := strLit(c)
		if c.One(4) {
			s = strings.Repeat(s, c.Range(2, 40))
		}
		if c.P(30) {
			s = c.Str(" ", "\t", "") + typedWord(c) + c.Str(" ", "\n", "\t ")
		}
		if _, err := strconv.ParseFloat(s, 64); err == nil && !decimal.MatchString(s) {
			s = "x" + s
		}
		return s, "text"
	}
	return []byte(typedWord(c)), "bytes"
}

func p18(c *C) {
	v, kind := accessVal(c)
	c.Info = func() string { return fmt.Sprintf("%T ", v) + core.Sample(ref.Str(v)) }
	w := convOf(v)
	c.Ev(kind)
	if kind == "text" || kind == "bytes" {
		switch {
		case w.isI:
			c.Ev("integer text")
		case w.isF:
			c.Ev("float text")
		case w.isB:
			c.Ev("boolean text")
		default:
			c.Ev("other text")
		}
	}
	c.SeenStr(fmt.Sprintf("%T", v) + w.str)

	name := exprName(c)
	var g *ogdl.Graph // its first subnode holds the value
	root := ogdl.New("_")
	switch c.Intn(5) {
	case 0:
		g = &ogdl.Graph{This: name, Out: []*ogdl.Graph{{This: v}}}
		root.Add(g)
	case 1:
		g = root.Add(name)
		g.Add(v)
	case 2:
		root.Set(name, v)
		g = root.Node(name)
	case 3:
		root.NodeSet(name, v)
		g = root.Node(name)
	default:
		g = root.Add(name)
		g.Add(v)
		g = root.Clone().Node(name)
	}
	if g == nil || g.Len() != 1 {
		c.Fail("the value has not been stored: %s", show(root))
	}
	if c.One(3) {
		// what comes next does not matter
		g.Add("more").Add("1")
	}
	this := g.Out[0]

	eq := func(what string, got, want interface{}) {
		if f, ok := got.(float64); ok {
			if h, ok := want.(float64); ok && (f == h || math.IsNaN(f) && math.IsNaN(h)) {
				return
			}
		}
		if !reflect.DeepEqual(got, want) {
			c.Fail("%s of %T %s is %T %s instead of %T %s", what, v, core.Sample(w.str), got, core.Sample(ref.Str(got)), want, core.Sample(ref.Str(want)))
		}
	}

	// as it is
	eq("Interface", g.Interface(), v)
	eq("Value", g.Value().Interface(), v)
	eq("ThisValue", this.ThisValue().Interface(), v)
	eq("String", g.String(), w.str)
	eq("ThisString", this.ThisString(), w.str)
	if w.str != "" {
		eq("String(def)", g.String("default"), w.str)
		eq("ThisString(def)", this.ThisString("default"), w.str)
	} else {
		eq("String(def)", g.String("default"), "default")
		eq("ThisString(def)", this.ThisString("default"), "default")
	}
	if s := string(g.Bytes()); s != w.str {
		eq("Bytes", s, w.str)
	}
	if s := string(this.ThisBytes()); s != w.str {
		eq("ThisBytes", s, w.str)
	}
	eq("ThisType", this.ThisType(), fmt.Sprintf("%T", v))

	// the node that holds it has no content
	if g == nil || this.Len() == 0 {
		d := c.P(50)
		eq("Int64(def) of a leaf", this.Int64(5), int64(5))
		eq("Float64(def) of a leaf", this.Float64(2.5), 2.5)
		eq("Bool(def) of a leaf", this.Bool(d), d)
		eq("Bool of a leaf", this.Bool(), false)
		eq("String(def) of a leaf", this.String("d"), "d")
		eq("Strings of a leaf", len(this.Strings()), 0)
		c.Ev("leaf")
	}

	// as integer
	di, df, db := int64(c.Range(-99, 99)), float64(c.Range(-99, 99))+0.5, c.P(50)
	inRange := !w.isF || math.Abs(w.f) < 9e18 || w.num == interface{}(w.i)
	if w.isI && inRange {
		eq("Int64", g.Int64(), w.i)
		eq("Int64(def)", g.Int64(di), w.i)
		i, ok := this.ThisInt64()
		eq("ThisInt64", i, w.i)
		eq("ThisInt64 ok", ok, true)
		if _, isFloat := v.(float64); !isFloat {
			c.Ev("integers read")
		}
	} else if !w.isI {
		eq("Int64", g.Int64(), int64(0))
		eq("Int64(def)", g.Int64(di), di)
		_, ok := this.ThisInt64()
		eq("ThisInt64 ok", ok, false)
		c.Ev("not convertible")
		c.Ev("defaults")
	}
	// as float
	wf := w.f
	if w.isF {
		if _, ok := v.(float32); ok {
			// (or what its text says)
			if f, err := strconv.ParseFloat(w.str, 64); err == nil && f != w.f {
				c.Ev("32-bit floats that are not short")
				if g.Float64() == f {
					wf = f
				}
			}
		}
		eq("Float64", g.Float64(), wf)
		eq("Float64(def)", g.Float64(df), wf)
		f, ok := this.ThisFloat64()
		eq("ThisFloat64", f, w.f)
		eq("ThisFloat64 ok", ok, true)
	} else {
		eq("Float64", g.Float64(), math.NaN())
		eq("Float64(def)", g.Float64(df), df)
		_, ok := this.ThisFloat64()
		eq("ThisFloat64 ok", ok, false)
		c.Ev("not convertible")
		if decimal.MatchString(w.str) {
			c.Ev("numbers that no float can hold")
		}
	}
	// as boolean
	if w.isB {
		eq("Bool", g.Bool(), w.b)
		eq("Bool(def)", g.Bool(db), w.b)
	} else {
		eq("Bool", g.Bool(), false)
		eq("Bool(def)", g.Bool(db), db)
	}
	// numbers and scalars
	if !w.unsure && !strings.HasPrefix(w.str, "+") {
		eq("Number", g.Number(), w.num)
		eq("ThisNumber", this.ThisNumber(), w.num)
		eq("Scalar", g.Scalar(), w.scalar)
		eq("ThisScalar", this.ThisScalar(), w.scalar)
	} else if !w.unsure && w.num != nil {
		f, _ := toF(g.Number())
		eq("Number", f, w.f)
		f, _ = toF(g.Scalar())
		eq("Scalar", f, w.f)
	}

	// by path
	top := &ogdl.Graph{This: "_", Out: []*ogdl.Graph{{This: "other", Out: []*ogdl.Graph{{This: "1"}}}, g}}
	path := writePath(c, []ref.Step{{Kind: 'n', Name: name}}, false)
	if c.P(30) {
		top = &ogdl.Graph{This: "_", Out: []*ogdl.Graph{{This: "a b", Out: top.Out}}}
		path = "'a b'." + path
	}
	if c.One(5) {
		path, top = "", g
	}
	s, err := top.GetString(path)
	eq("GetString", s, w.str)
	eq("GetString error", err, nil)
	bs, err := top.GetBytes(path)
	eq("GetBytes", string(bs), w.str)
	eq("GetBytes error", err, nil)
	i, err := top.GetInt64(path)
	if w.isI && inRange {
		eq("GetInt64", i, w.i)
		eq("GetInt64 error", err, nil)
	} else if !w.isI && path != "" && err == nil {
		c.Fail("GetInt64 of %s gives no error", ref.Show(v))
	}
	f, err := top.GetFloat64(path)
	if w.isF {
		if path != "" {
			wf = w.f
		}
		eq("GetFloat64", f, wf)
		eq("GetFloat64 error", err, nil)
	} else if path != "" && err == nil {
		c.Fail("GetFloat64 of %s gives no error", ref.Show(v))
	}
	b, err := top.GetBool(path)
	if w.isB {
		eq("GetBool", b, w.b)
		eq("GetBool error", err, nil)
	} else if kind != "integer" && path != "" && err == nil {
		c.Fail("GetBool of %s gives no error", ref.Show(v))
	}
	c.Ev("by path")
	if c.One(4) && path != "" {
		p := path + ".missing"
		if c.P(50) {
			p = c.Str("missing", "missing.x", "missing[0]")
		}
		_, e1 := top.GetString(p)
		_, e2 := top.GetInt64(p)
		_, e3 := top.GetFloat64(p)
		_, e4 := top.GetBool(p)
		_, e5 := top.GetBytes(p)
		if p != path+".missing" && (e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil) {
			c.Fail("a typed lookup of %s, that does not exist, gives no error (%v %v %v %v %v)", p, e1, e2, e3, e4, e5)
		}
		c.Ev("path not found")
	}

	// lists
	if c.One(6) {
		l := ogdl.New("l")
		var ss []string
		n, long := c.Range(0, 6), c.One(30)
		if long && c.P(50) {
			n = c.Num(1000)
			if n > 100 {
				c.Ev("long lists")
			}
		}
		for ; n > 0; n-- {
			v, _ := accessVal(c)
			if long && c.One(n+1) {
				v = strings.Repeat(validStr(word(c))+c.Str(" ", "", ","), c.Num(300))
			}
			l.Out = append(l.Out, &ogdl.Graph{This: v})
			ss = append(ss, ref.Str(v))
		}
		got := l.Strings()
		if len(got) != len(ss) || strings.Join(got, "\x00") != strings.Join(ss, "\x00") {
			c.Fail("Strings gives %q instead of %q", got, ss)
		}
		if len(ss) > 0 {
			eq("StringCSV", l.StringCSV(), strings.Join(ss, ", "))
			eq("StringTxt", l.StringTxt("d"), strings.Join(ss, " "))
		} else {
			eq("StringCSV(def)", l.StringCSV("d"), "d")
			eq("StringTxt(def)", l.StringTxt("d"), "d")
		}
		c.Ev("lists")
	}
}

package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P01",
		Rule:  "documents of random lines (indentation, words bare/quoted/block) written in random layouts; the parsed tree is compared with that of a stack over the indentations. Non-trivial: more than two lines or a quoted word or block; distinct by text.",
		Quick: 500000, Thoro: 1500000, Case: p01,
		Must:   []string{"documents", "blocks", "quoted words", "comments or blanks", "over 4096 bytes", "CRLF", "CR", "hundreds of levels"},
		Assume: []string{"the reference tree is computed from the generated lines, not from the text"},
	})
	core.Register(&core.Prop{
		ID:    "P02",
		Rule:  "one input delivered in two ways (reader behaviours, padding, prefix); results compared node by node. Non-trivial: at least 2 bytes; distinct by kind and text.",
		Quick: 100000, Thoro: 400000, Case: p02,
		Must: []string{"text readers", "binary readers", "comment prefix", "template prefix", "expression padding", "long path", "straddled limits", "named pipes", "failing readers", "failing binary readers", "special beginnings and ends"},
	})
	core.Register(&core.Prop{
		ID:    "P03",
		Rule:  "random trees written by Text and read back by FromString; compared with the tree without empty nodes. Non-trivial: at least 2 nodes; distinct by tree.",
		Quick: 250000, Thoro: 1200000, Case: p03,
		Must: []string{"trees", "quoted output", "empty nodes", "single scalars", "numbers and booleans", "with the top node", "very deep", "long contents"},
	})
	core.Register(&core.Prop{
		ID:    "P20",
		Rule:  "documents as in P01 with words that are numbers, booleans or nearly so; contents compared by type and value. Distinct by text.",
		Quick: 500000, Thoro: 800000, Case: p20,
		Must: []string{"int64", "float64", "bool", "string", "quoted number", "written and read"},
	})
}

func p01(c *C) {
	var d *document
	if c.One(10) {
		n := 600
		if c.One(60) {
			n = 6000
		}
		d = genDoc(c, n, false)
	} else {
		d = genDoc(c, 12, false)
	}
	l := genLayout(c)
	s := d.write(c, l)
	c.Info = func() string { return core.Sample(s) }
	want := d.tree(plainVal)

	var g *ogdl.Graph
	switch c.Intn(6) {
	case 0:
		b := []byte(s)
		g = ogdl.FromBytes(b)
		for i := range b {
			b[i] = 'Z' // the bytes are ours
		}
	case 1:
		g = ogdl.FromReader(strings.NewReader(s))
	case 2:
		p := ogdl.NewStringParser(s)
		p.Ogdl()
		g = p.Graph()
	case 3:
		if c.One(4) {
			f := filepath.Join(c.Tmp, "d.ogdl")
			os.WriteFile(f, []byte(s), 0666)
			g = ogdl.FromFile(f)
			break
		}
		fallthrough
	default:
		g = ogdl.FromString(s)
	}
	if diff := ref.DiffOut(want, ref.From(g), ref.Same); diff != "" {
		c.Fail("the tree is not that of the layout: %s", diff)
	}
	if c.One(10) {
		keptGraph(c, "parsing", g)
		if diff := ref.DiffOut(want, ref.From(ogdl.FromString(s)), ref.Same); diff != "" {
			c.Fail("the second time the tree is not that of the layout: %s", diff)
		}
	}
	c.Ev("documents")
	c.EvN("lines", len(d.lines))
	nt := len(d.lines) > 2
	for _, ln := range d.lines {
		for _, w := range ln.words {
			if w.style != 'b' {
				c.Ev("quoted words")
				nt = true
			}
		}
		if ln.block != nil {
			c.Ev("blocks")
			nt = true
		}
	}
	if l.comments+l.blanks > 0 {
		c.Ev("comments or blanks")
	}
	if l.crlf > 0 {
		c.Ev("CRLF")
	}
	if l.cr > 0 {
		c.Ev("CR")
	}
	if len(s) > 4096 {
		c.Ev("over 4096 bytes")
	}
	if d.ladder {
		c.Ev("hundreds of levels")
	}
	if nt {
		c.SeenStr(s)
	}
}

var decimal = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
var integer = regexp.MustCompile(`^[+-]?[0-9]+$`)

// typedVal is the content that a typed parser gives to a word, according to property P20.
func typedVal(s string, style byte) interface{} {
	if style != 'b' {
		return s
	}
	if integer.MatchString(s) {
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return i
		}
	}
	if decimal.MatchString(s) {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
		return s
	}
	switch s {
	case "true":
		return true
	case "false":
		return false
	}
	return s
}

// typedWord makes words that are numbers or booleans, or look like them.
func typedWord(c *C) string {
	for {
		s := typedWord1(c)
		if s == "" {
			continue
		}
		if _, err := strconv.ParseFloat(s, 64); err == nil && !decimal.MatchString(s) {
			continue // inf, nan, hexadecimal, 1_000
		}
		return s
	}
}

func digits(c *C, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + c.Intn(10))
	}
	return string(b)
}

func typedWord1(c *C) string {
	switch c.Intn(16) {
	case 0:
		return strconv.Itoa(c.Range(-20, 20))
	case 1:
		return strconv.FormatInt(int64(c.Uint64())>>uint(c.Intn(64)), 10)
	case 2:
		return c.Str("9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "9223372036854775806", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740992", "9007199254740993", "-9007199254740993", "99999999999999999999")
	case 3:
		return c.Str("true", "false", "True", "FALSE", "t", "f", "T", "F", "yes", "no", "truefalse", "true.", "tru", "null", "nil", "TRUE", "False", "on", "off")
	case 4:
		return c.Str("", "-", "+") + digits(c, c.Range(1, 4)) + "." + digits(c, c.Intn(4))
	case 5:
		return c.Str("", "-", "+") + "." + digits(c, c.Range(1, 4))
	case 6:
		return c.Str("", "-", "+") + digits(c, c.Range(1, 20)) + "." + digits(c, c.Intn(25))
	case 7:
		return c.Str("", "-") + digits(c, 1) + c.Str("", ".", ".5") + c.Str("e", "E") + c.Str("", "-", "+") + strconv.Itoa(c.Intn(330))
	case 8:
		return "0" + digits(c, c.Range(1, 5))
	case 9:
		return c.Str("0", "-0", "+0", "00", "0.0", "-0.0", "1.", ".", "-", "+", "-.", "1e", "1e+", "e1", "1.2.3", "1-2", "--1", "+-1", "1,2", "1,", "0b1", "0o7", "08", "1f", "1d", "12a", "a12", "1:2", "192.168.1.1", "2024-01-01", "1%", "$1", "#1", "1/2", "٣", "１", "²")
	case 10:
		return strconv.FormatFloat(float64(int64(c.Uint64()))/float64(uint64(1)<<uint(c.Intn(63))), byte("gefG"[c.Intn(4)]), -1, 64)
	case 11:
		return digits(c, c.Range(15, 45))
	case 12:
		// numbers of a special length
		return c.Str("", "-") + "1" + digits(c, c.Num(400))
	case 13:
		return strconv.Itoa(c.Range(0, 9)) + string(runes[c.Intn(len(runes))])
	default:
		return word(c)
	}
}

// scalar gives a number or a boolean.
func scalar(c *C) interface{} {
	switch c.Intn(8) {
	case 0:
		return c.P(50)
	case 1:
		return c.Range(-1000, 1000)
	case 2:
		return int64(c.Uint64()) >> uint(c.Intn(64))
	case 3:
		return uint32(c.Uint64()) >> uint(c.Intn(32))
	case 4:
		return float64(c.Range(-1000, 1000)) / 16
	case 5:
		f := math.Float64frombits(c.Uint64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 1e300
		}
		return f
	case 6:
		return float64(int64(c.Uint64()) >> uint(c.Intn(64)))
	}
	return int16(c.Uint64())
}

// sameValue compares numbers by value.
func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case nil, bool, string:
		return a == b
	case float64:
		switch y := b.(type) {
		case float64:
			return x == y
		case int64:
			return x == float64(y)
		}
		return false
	}
	i, ok := toI(a)
	y, ok2 := b.(int64)
	return ok && ok2 && i == y
}

// p20Text: numbers and booleans written as text keep their value.
func p20Text(c *C) {
	n := c.Range(1, 30)
	if c.One(100) {
		n = c.Num(3000)
	}
	t := shape(c, n, func(d int) interface{} {
		if c.One(4) {
			if d > 1 && c.P(30) {
				return c.Str("two words", "1 2", "\"1\"", "3,4", "(true)")
			}
			return c.Str("a", "word", "é", "x1")
		}
		return scalar(c)
	})
	c.Info = func() string { return t.String() }
	s := t.Graph().Text()
	if d := ref.DiffOut(t, ref.From(ogdl.FromStringTypes(s)), sameValue); d != "" {
		c.Fail("the text of numbers and booleans, read with types, gives other values: %s\ntext %s", d, core.Sample(s))
	}
	c.Ev("written and read")
	c.SeenStr(s)
}

func p20(c *C) {
	if c.One(6) {
		p20Text(c)
		return
	}
	n := 10
	if c.One(15) {
		n = 300
		if c.One(20) {
			n = 3000
		}
	}
	d := genDoc(c, n, true)
	// words outside the domain
	for i := range d.lines {
		for j := range d.lines[i].words {
			w := &d.lines[i].words[j]
			if w.style == 'b' {
				if _, err := strconv.ParseFloat(w.s, 64); err == nil && !decimal.MatchString(w.s) {
					w.s = "x"
				}
			}
		}
	}
	s := d.write(c, genLayout(c))
	c.Info = func() string { return core.Sample(s) }
	var g *ogdl.Graph
	if c.P(50) {
		g = ogdl.FromStringTypes(s)
	} else {
		p := ogdl.NewParser(newReader(c, []byte(s)))
		p.OgdlTypes()
		g = p.Graph()
	}
	want := d.tree(typedVal)
	if diff := ref.DiffOut(want, ref.From(g), ref.Same); diff != "" {
		c.Fail("typed tree: %s", diff)
	}
	want.Walk(func(t *T) { c.Ev(fmt.Sprintf("%T", t.V)) })
	for _, l := range d.lines {
		for _, w := range l.words {
			if w.style != 'b' && decimal.MatchString(w.s) {
				c.Ev("quoted number")
			}
		}
	}
	c.SeenStr(s)
}

// ---------------------------------------------------------------------------- P02

// chunkReader delivers bytes in one of several ways.
type chunkReader struct {
	b    []byte
	next func(left int) (n int, empty bool)
	eof  bool // deliver EOF with the last bytes
	end  error
}

var errBroken = errors.New("broken")

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.end
	}
	n, empty := r.next(len(r.b))
	if empty || len(p) == 0 {
		return 0, nil
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if len(r.b) == 0 && r.eof {
		return n, r.end
	}
	return n, nil
}

// newReader gives a reader of some behaviour.
func newReader(c *C, b []byte) io.Reader { return newChunks(c, b) }

func newChunks(c *C, b []byte) *chunkReader {
	r := &chunkReader{b: b, eof: c.P(50), end: io.EOF}
	rnd := c.Fork()
	maxN := []int{2, 3, 10, 100, 1000, 3000, 5000}[c.Intn(7)]
	empties := 0
	limit := []int{0, 0, 1, 5, 90}[c.Intn(5)]
	switch c.Intn(5) {
	case 0:
		r.next = func(int) (int, bool) { return 1, false }
	case 1:
		k := []int{1, 2047, 2048, 2049, 4095, 4096, 4097, 7, 512, 1024}[c.Intn(10)]
		r.next = func(int) (int, bool) { return k, false }
	case 2:
		r.next = func(left int) (int, bool) { return left, false }
	case 3:
		// all but the last byte first
		r.next = func(left int) (int, bool) { return max(left-1, 1), false }
	default:
		r.next = func(int) (int, bool) {
			if empties < limit && rnd.P(40) {
				empties++
				return 0, true
			}
			empties = 0
			return 1 + rnd.Intn(maxN), false
		}
	}
	return r
}

// anyDoc is a well-formed document, or a damaged one, or any bytes.
func anyDoc(c *C) string {
	if c.One(30) {
		// beginnings and ends that other formats have
		c.Ev("special beginnings and ends")
		s := anyDoc1(c)
		if c.P(70) {
			s = c.Str("\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\x00", "#!x\n", "#!/bin/x y\n", "# -*-\n", "---\n", "%\n", "\x1f\x8b", "\x01G\x00", "_\n", "\n\n", "\r\n", "\t", " ", "\f\n", "\x0b") + s
		}
		if c.P(50) {
			s += c.Str("\x1a", "\x00", "\x04", "\xef\xbb\xbf", "\n\n\n", "\r", "\\", "\\\n", " ", "\t", "#", "# x", "\"", "...\n", "\n\x0c")
		}
		return s
	}
	return anyDoc1(c)
}

func anyDoc1(c *C) string {
	switch c.Intn(6) {
	case 0:
		return rawText(c, c.Num(9000), "psstnnurbc0")
	case 1:
		s := []byte(genDoc(c, 200, false).write(c, genLayout(c)))
		for i := c.Intn(5); i > 0 && len(s) > 0; i-- {
			p := c.Intn(len(s))
			switch c.Intn(3) {
			case 0:
				s[p] = byte(c.Intn(256))
			case 1:
				s = append(s[:p], s[p+1:]...)
			default:
				s = s[:p]
			}
		}
		return string(s)
	case 2:
		// much text without a line end, so that every limit falls inside a word
		var b strings.Builder
		w := c.Str("é", "中", "😀", "ab", "\\\"", "x y", "'a' ", "\\ ", "# ", "\"\\\\\" ")
		b.WriteString(strings.Repeat("z", c.Intn(5)))
		if c.P(50) {
			b.WriteByte("\"'`"[c.Intn(3)])
		}
		for n := c.Range(4000, 9000); b.Len() < n; {
			b.WriteString(w)
		}
		if strings.Contains(w, " ") {
			// not too deep
			return strings.Replace(b.String(), " ", "\n", -1)
		}
		return b.String()
	default:
		n := 20
		if c.One(3) {
			n = 500
		}
		return genDoc(c, n, false).write(c, genLayout(c))
	}
}

// viaFifo writes bytes to a named pipe, in some pieces, while read reads it.
func viaFifo(c *C, b []byte, read func(f string)) {
	f := filepath.Join(c.Tmp, "fifo")
	os.Remove(f)
	if err := syscall.Mkfifo(f, 0666); err != nil {
		read("/dev/null")
		panic(err)
	}
	defer os.Remove(f)
	var cuts []int
	for k := c.Intn(4); k > 0; k-- {
		cuts = append(cuts, c.Intn(len(b)+1))
	}
	sort.Ints(cuts)
	cuts = append(cuts, len(b))
	done := make(chan bool)
	go func() {
		defer close(done)
		w, err := os.OpenFile(f, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer w.Close()
		i := 0
		for _, k := range cuts {
			if _, err := w.Write(b[i:k]); err != nil {
				return
			}
			i = k
			time.Sleep(50 * time.Microsecond)
		}
	}()
	read(f)
	for {
		// if nobody has read it, the writer still waits
		r, err := os.OpenFile(f, os.O_RDONLY|syscall.O_NONBLOCK, 0)
		select {
		case <-done:
			if err == nil {
				r.Close()
			}
			return
		case <-time.After(time.Millisecond):
		}
		if err == nil {
			io.Copy(io.Discard, r)
			r.Close()
		}
	}
}

func p02(c *C) {
	switch c.Intn(8) {
	case 0, 1, 2:
		s := anyDoc(c)
		c.Info = func() string { return core.Sample(s) }
		if len(s) > 1 {
			c.SeenStr("r" + s)
		}
		if len(s) > 4096 {
			c.Ev("straddled limits")
		}
		want := ref.From(ogdl.FromBytes([]byte(s)))
		for k := 0; k < 3; k++ {
			got := ref.From(ogdl.FromReader(newReader(c, []byte(s))))
			if d := ref.Diff(want, got, ref.Same); d != "" {
				c.Fail("FromReader differs from FromBytes: %s", d)
			}
			c.Ev("text readers")
		}
		if d := ref.Diff(want, ref.From(ogdl.FromString(s)), ref.Same); d != "" {
			c.Fail("FromString differs from FromBytes: %s", d)
		}
		if c.P(40) && len(s) > 0 {
			// A reader that fails, or that has nothing more to say
			k := c.Intn(len(s) + 1)
			if c.One(3) {
				k = min(len(s), []int{2048, 4096, 6144, 8192}[c.Intn(4)]-c.Intn(3))
			}
			r := newChunks(c, []byte(s[:k]))
			r.end = errBroken
			if c.One(4) {
				r.end = nil
			}
			want := ref.From(ogdl.FromBytes([]byte(s[:k])))
			if d := ref.Diff(want, ref.From(ogdl.FromReader(r)), ref.Same); d != "" {
				c.Fail("a reader that fails (%v) after %d of %d bytes does not give the tree of these bytes: %s", r.end, k, len(s), d)
			}
			c.Ev("failing readers")
		}
		if len(s) > 0 && c.One(4) {
			f := filepath.Join(c.Tmp, "d.ogdl")
			os.WriteFile(f, []byte(s), 0666)
			if d := ref.Diff(want, ref.From(ogdl.FromFile(f)), ref.Same); d != "" {
				c.Fail("FromFile differs from FromBytes: %s", d)
			}
			c.Ev("files")
		}
		if len(s) > 0 && c.One(30) {
			var got *T
			viaFifo(c, []byte(s), func(f string) { got = ref.From(ogdl.FromFile(f)) })
			if d := ref.Diff(want, got, ref.Same); d != "" {
				c.Fail("FromFile from a named pipe differs from FromBytes: %s", d)
			}
			c.Ev("named pipes")
		}
		if c.One(100) {
			f := c.Str("/proc/version", "/proc/filesystems", "/proc/self/cmdline", "/proc/cpuinfo")
			b1, _ := os.ReadFile(f)
			got := ref.From(ogdl.FromFile(f))
			b2, err := os.ReadFile(f)
			if err == nil && len(b1) > 0 && string(b1) == string(b2) {
				if d := ref.Diff(ref.From(ogdl.FromBytes(b1)), got, ref.Same); d != "" {
					c.Fail("FromFile(%s) differs from FromBytes: %s", f, d)
				}
				c.Ev("special files")
			}
		}
	case 3:
		// comment prefix
		s := anyDoc(c)
		var b strings.Builder
		n := c.Num(9000)
		for b.Len() < n {
			b.WriteString("# ")
			b.WriteString(strings.Repeat("c", c.Intn(n-b.Len()+1)))
			b.WriteString("\n")
			if c.P(40) {
				n = min(n, b.Len()+c.Intn(2000))
			}
		}
		pre := b.String()
		c.Info = func() string { return "prefix of " + strconv.Itoa(len(pre)) + " + " + core.Sample(s) }
		want := ref.From(ogdl.FromString(s))
		got := ref.From(ogdl.FromReader(newReader(c, []byte(pre+s))))
		if d := ref.Diff(want, got, ref.Same); d != "" {
			c.Fail("tree changes after %d bytes of comments: %s", len(pre), d)
		}
		c.Ev("comment prefix")
		c.SeenStr("c" + strconv.Itoa(len(pre)) + s)
	case 4:
		// binary
		t := binTree(c)
		b := t.Graph().Binary()
		if c.P(30) {
			b = ref.EncodeBinary(t, func(n int) int { return c.Intn(n) })
		}
		if c.P(30) {
			b = b[:c.Intn(len(b)+1)]
		}
		c.Info = func() string { return core.Sample(string(b)) }
		want := ref.From(ogdl.FromBinary(b))
		got := ref.From(ogdl.FromBinaryReader(newReader(c, b)))
		if d := ref.Diff(want, got, ref.Same); d != "" {
			c.Fail("FromBinaryReader differs from FromBinary: %s", d)
		}
		if c.P(30) && len(b) > 0 {
			k := c.Intn(len(b) + 1)
			r := newChunks(c, b[:k])
			r.end = errBroken
			if c.One(4) {
				r.end = nil
			}
			want := ref.From(ogdl.FromBinary(b[:k]))
			if d := ref.Diff(want, ref.From(ogdl.FromBinaryReader(r)), ref.Same); d != "" {
				c.Fail("a reader that fails (%v) after %d of %d bytes does not give what FromBinary gives for these bytes: %s", r.end, k, len(b), d)
			}
			c.Ev("failing binary readers")
		}
		if c.One(4) {
			f := filepath.Join(c.Tmp, "d.bin")
			os.WriteFile(f, b, 0666)
			if len(b) > 0 {
				if d := ref.Diff(want, ref.From(ogdl.FromBinaryFile(f)), ref.Same); d != "" {
					c.Fail("FromBinaryFile differs from FromBinary: %s", d)
				}
			}
		}
		if len(b) > 0 && c.One(30) {
			viaFifo(c, b, func(f string) { got = ref.From(ogdl.FromBinaryFile(f)) })
			if d := ref.Diff(want, got, ref.Same); d != "" {
				c.Fail("FromBinaryFile from a named pipe differs from FromBinary: %s", d)
			}
			c.Ev("named pipes")
		}
		c.Ev("binary readers")
		c.SeenStr("b" + string(b))
	case 5:
		// template prefix
		ctx := tmplContext(c)
		tp := genTemplate(c, ctx, 8)
		k := []int{4096, 6144, 8192, 10240}[c.Intn(4)] - c.Intn(min(len(tp.src), 300)+3)
		if c.One(4) {
			k = c.Num(9000)
		}
		pre := strings.Repeat("p", max(k, 0))
		c.Info = func() string { return strconv.Itoa(len(pre)) + " + " + core.Sample(tp.src) + "\nctx " + ctx.String() }
		want := string(ogdl.NewTemplate(tp.src).Process(ctx.Graph()))
		got := string(ogdl.NewTemplate(pre + tp.src).Process(ctx.Graph()))
		if got != pre+want {
			c.Fail("after %d bytes of text the template gives %s instead of %s", len(pre), core.Sample(strings.TrimPrefix(got, pre)), core.Sample(want))
		}
		got = string(ogdl.NewTemplateFromBytes([]byte(pre + tp.src)).Process(ctx.Graph()))
		if got != pre+want {
			c.Fail("NewTemplateFromBytes: after %d bytes of text the template gives %s instead of %s", len(pre), core.Sample(strings.TrimPrefix(got, pre)), core.Sample(want))
		}
		c.Ev("template prefix")
		c.SeenStr("t" + pre + tp.src)
	case 6:
		// expression padding
		ctx := exprContext(c)
		e := genExpr(c, ctx, c.Range(1, 4))
		s1 := e.write(c, 0)
		n := c.Num(9000)
		s2 := e.writePadded(c, n)
		c.Info = func() string { return core.Sample(s1) + "\n" + core.Sample(s2) }
		g := ctx.Graph()
		v1, e1 := g.Eval(ogdl.NewExpression(s1))
		v2, e2 := g.Eval(ogdl.NewExpression(s2))
		if !ref.Same(norm(v1), norm(v2)) || (e1 == nil) != (e2 == nil) {
			c.Fail("the padded expression gives %v %v instead of %v %v", v2, e2, v1, e1)
		}
		c.Ev("expression padding")
		c.SeenStr("e" + s2)
	default:
		// long paths
		g := ogdl.New("_")
		n := g
		var b strings.Builder
		pad := c.Num(6000)
		for i := 0; b.Len() < pad; i++ {
			w := ident(c)
			if strings.HasPrefix(w, "_") {
				w = "x" + w
			}
			if i > 0 {
				b.WriteByte('.')
			}
			if c.P(20) {
				b.WriteString("'" + w + "'")
			} else {
				b.WriteString(w)
			}
			o := &ogdl.Graph{This: w}
			n.Out = append(n.Out, o)
			n = o
		}
		if b.Len() > 0 {
			b.WriteByte('.')
		}
		w := c.Str("é中", "last", "😀x")
		if w[0] == 0xf0 {
			w = "𝔘𝔘"
		}
		b.WriteString(w)
		n.Out = append(n.Out, &ogdl.Graph{This: w, Out: []*ogdl.Graph{{This: "value"}}})
		s := b.String()
		c.Info = func() string { return core.Sample(s) }
		if v := g.Get(s).String(); v != "value" {
			c.Fail("Get of a path of %d bytes gives %q", len(s), v)
		}
		if v, _ := g.Eval(ogdl.NewPath(s)); v != "value" {
			c.Fail("Eval of a path of %d bytes gives %v", len(s), v)
		}
		g.Set(s, "other")
		if v := g.Get(s).String(); v != "other" {
			c.Fail("Set of a path of %d bytes: %q is read back", len(s), v)
		}
		c.Ev("long path")
		c.SeenStr("p" + s)
	}
}

// norm gives a comparable form of the result of an evaluation.
func norm(v interface{}) interface{} {
	if g, ok := v.(*ogdl.Graph); ok {
		return ref.From(g).String()
	}
	return v
}

// ---------------------------------------------------------------------------- P03

func p03(c *C) {
	if c.P(10) {
		// a single scalar
		s := strings.ReplaceAll(text(c, false), "\n", "")
		if s == "" {
			s = "x"
		}
		c.Info = func() string { return core.Sample(s) }
		g := (&T{V: "any", Out: []*T{{V: s}}}).Graph()
		if got := g.Text(); got != s {
			c.Fail("text of the single scalar %q is %q", s, got)
		}
		c.Ev("single scalars")
		c.SeenStr("1" + s)
		return
	}
	n := c.Size(40)
	if c.One(60) {
		n = c.Num(3000)
	}
	emptyP := 0
	if c.P(40) {
		emptyP = c.Range(1, 40)
	}
	empties := 0
	numbers := c.One(5)
	contents := pool(c, 60, func() interface{} {
		if numbers && c.P(40) {
			return scalar(c)
		}
		return text(c, false)
	})
	plain := pool(c, 20, func() interface{} {
		if numbers && c.P(40) {
			return scalar(c)
		}
		return plainWord(c)
	})
	t := shape(c, n, func(d int) interface{} {
		if c.P(emptyP) {
			empties++
			switch c.Intn(3) {
			case 0:
				return nil
			case 1:
				return []byte{}
			}
			return ""
		}
		return contents()
	})
	// The nodes that are not written at the first level must be there once those without
	// content are left out.
	var top func(t *T)
	top = func(t *T) {
		for _, o := range t.Out {
			if ref.Str(o.V) == "" {
				top(o)
			} else {
				o.V = plain()
			}
		}
	}
	top(t)
	if c.One(4000) {
		// long contents
		x := t.Add(plain())
		for i := c.Range(1, 3); i > 0; i-- {
			s := rawText(c, []int{4096, 32768, 65536, 70000, 131072, 200000}[c.Intn(6)], "psstnu")
			if c.P(30) {
				s = strings.Repeat(c.Str("a b", "\"", "a", "x\n"), len(s)/3) + "."
			}
			y := x.Add(s)
			if c.P(30) {
				x = y
			}
		}
		x.Add("x")
		c.Ev("long contents")
	}
	if c.One(5000) {
		// far away from the margin
		x := t.Add(plain())
		for i := c.Range(1000, 4000); i > 0; i-- {
			x = x.Add("d")
		}
		x.Add(text(c, false))
		x.Add("x")
		c.Ev("very deep")
	}
	if c.P(20) {
		t.Walk(func(n *T) {
			if s, ok := n.V.(string); ok && c.P(20) && s != "" {
				n.V = []byte(s)
			}
		})
	}
	c.Info = func() string { return t.String() }
	want := t.Skip()
	g := t.Graph()
	s := g.Text()
	if s2 := g.Text(); s2 != s {
		c.Fail("Text gives %q and then %q", s, s2)
	}
	if d := ref.Diff(t, ref.From(g), ref.Same); d != "" {
		c.Fail("Text changes the graph: %s", d)
	}
	back := ref.From(ogdl.FromString(s))
	if d := ref.DiffOut(want, back, ref.SameText); d != "" {
		c.Fail("the text does not read back as the tree: %s\ntext %s", d, core.Sample(s))
	}
	if s2 := back.Graph().Text(); s2 != s {
		c.Fail("the text of the tree read back is not the same: %s\n%s", core.Sample(s), core.Sample(s2))
	}
	c.Ev("trees")
	if numbers {
		c.Ev("numbers and booleans")
	}
	if c.One(4) {
		// with the top node
		name := plainWord(c)
		g.This = name
		want := N("_", t.Clone())
		want.Out[0].V = name
		want.Walk(func(n *T) {
			if ref.Str(n.V) == "" {
				n.V = "_"
			}
		})
		s := g.Show()
		if d := ref.DiffOut(want, ref.From(ogdl.FromString(s)), ref.SameText); d != "" {
			c.Fail("what Show writes does not read back as the tree: %s\ntext %s", d, core.Sample(s))
		}
		c.Ev("with the top node")
	}
	c.EvN("nodes", want.Size())
	if strings.Contains(s, "\"") {
		c.Ev("quoted output")
	}
	if empties > 0 {
		c.Ev("empty nodes")
	}
	if want.Size() > 2 {
		c.SeenStr(s)
	}
}

var _ = bytes.MinRead

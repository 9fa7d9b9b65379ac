package props

import (
	"bufio"
	"bytes"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"strings"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P04",
		Rule:  "random trees (content: text, bytes, NUL, sizes and depths around the limits of the variable length numbers): encoded by the library and decoded by an independent strict decoder, and the reverse, and both ways by the library. Non-trivial: at least 2 nodes or 100 bytes; distinct by stream.",
		Quick: 80000, Thoro: 1000000, Case: p04,
		Must: []string{"library encodes", "library decodes", "binary nodes", "empty nodes", "depth over 127", "content over 127", "content over 16383", "content over 2 million", "big binary nodes", "reader with a buffer of another size", "files"},
	})
	core.Register(&core.Prop{
		ID:    "P06",
		Rule:  "damaged, truncated and random binary streams decoded with an allocation and time budget; for truncations the complete nodes are compared with those of the complete stream. Distinct by stream.",
		Quick: 180000, Thoro: 2000000, Case: p06, CPU: 20,
		Must: []string{"truncated", "damaged", "random", "no header", "hostile numbers", "complete nodes checked", "long repetition"},
	})
}

// binContent makes contents for binary OGDL.
func binContent(c *C) interface{} {
	var s string
	switch c.Intn(12) {
	case 0, 1, 2:
		s = word(c)
	case 3:
		s = rawText(c, c.Range(1, 10), "0b")
	case 4:
		s = rawText(c, c.Range(1, 12), "psstnnrubc0")
	case 5:
		s = "\x01" + rawText(c, c.Intn(4), "0b")
	case 6:
		s = string([]byte{byte(c.Intn(256))})
	case 7:
		s = strings.Repeat("\x00", c.Range(1, 5))
	case 8:
		n := c.Num(40000)
		if c.One(2) {
			n = []int{127, 128, 129, 255, 256, 16383, 16384, 4096, 65535, 65536}[c.Intn(10)] + c.Range(-1, 1)
		}
		s = rawText(c, n, c.Str("", "0b", "u"))
		if len(s) > n && n > 0 {
			s = s[:n]
		}
	case 9:
		s = c.DictStr()
	default:
		s = rawText(c, c.Range(1, 6), "u")
	}
	if s == "" {
		s = "e"
	}
	if c.P(30) {
		return []byte(s)
	}
	return s
}

func binTree(c *C) *T {
	n := c.Size(30)
	if c.One(40) {
		n = c.Num(3000)
	}
	emptyP := 0
	if c.P(25) {
		emptyP = c.Range(1, 40)
	}
	cont := pool(c, 25, func() interface{} { return binContent(c) })
	t := shape(c, n, func(d int) interface{} {
		if c.P(emptyP) {
			switch c.Intn(3) {
			case 0:
				return nil
			case 1:
				return []byte{}
			}
			return ""
		}
		return cont()
	})
	if c.One(25) {
		// a chain, of a depth around the limits of the level numbers
		d := []int{126, 127, 128, 129, 130, 254, 255, 256, 257, 1000}[c.Intn(10)]
		if c.One(6) {
			d = []int{16382, 16383, 16384, 16385, 16390}[c.Intn(5)]
		}
		n := t
		for i := 0; i < d; i++ {
			n = n.Add(c.Str("a", "b", "é"))
			if c.One(50) {
				n.Add("side")
			}
		}
	}
	if c.One(240) {
		n := 0
		switch k := c.Intn(60); {
		case k == 0:
			n = 1<<24 + c.Intn(1<<22) // four bytes of length
		case k < 5:
			n = 1<<uint(c.Range(21, 23)) | c.Intn(1<<23) // each bit of four bytes
		case k < 8:
			n = c.Range(1<<21, 1<<22)
		case k < 20:
			n = []int{0x1fffff, 0x200000, 0x200001}[c.Intn(3)]
		default:
			n = 1<<uint(c.Range(15, 21)) + c.Intn(1<<15) // each bit of three bytes
		}
		if n >= 1<<24 {
			c.Ev("content over 16 million")
		} else if n >= 1<<21 {
			c.Ev("content over 2 million")
		}
		b := bytes.Repeat([]byte{byte(c.Range(2, 255))}, n)
		if c.P(75) {
			b[c.Intn(n)] = 0
			if n >= 1<<21 {
				c.Ev("big binary nodes")
			}
		}
		t.Add(b)
		t.Add("after")
	}
	return t
}

func p04(c *C) {
	t := binTree(c)
	c.Info = func() string { return t.String() }
	count := func() {
		t.Walk(func(n *T) {
			switch v := n.V.(type) {
			case []byte:
				c.Ev("binary nodes")
			default:
				if ref.Str(v) == "" {
					c.Ev("empty nodes")
				}
			}
			if l := len(ref.Str(n.V)); l > 16383 {
				c.Ev("content over 16383")
			} else if l > 127 {
				c.Ev("content over 127")
			}
		})
		if t.Depth() > 127 {
			c.Ev("depth over 127")
		}
	}

	if c.P(60) {
		if c.P(30) {
			// other types of content are written as their text
			t.Walk(func(n *T) {
				if c.One(4) {
					switch c.Intn(4) {
					case 0:
						n.V = c.Range(-1000, 1000)
					case 1:
						n.V = int64(c.Uint64())
					case 2:
						n.V = float64(c.Range(-1000, 1000)) / 8
					default:
						n.V = c.P(50)
					}
				}
			})
		}
		g := t.Graph()
		b := g.Binary()
		if d := ref.Diff(t, ref.From(g), ref.Same); d != "" {
			c.Fail("Binary changes the graph: %s", d)
		}
		want := t.Skip()
		dec, n, err := ref.DecodeBinary(b)
		if err != nil {
			c.Fail("the stream written does not follow the grammar: %v (at byte %d of %d) %s", err, n, len(b), core.Sample(clipb(b)))
		}
		if n != len(b) {
			c.Fail("the stream written has %d bytes after its end", len(b)-n)
		}
		if d := ref.DiffOut(want, dec, ref.SameText); d != "" {
			c.Fail("the stream written describes another tree: %s", d)
		}
		var back *ogdl.Graph
		switch k := c.Intn(3); {
		case c.One(400):
			// from a file
			if c.P(50) {
				f := filepath.Join(c.Tmp, "b")
				os.WriteFile(f, b, 0666)
				back = ogdl.FromBinaryFile(f)
			} else {
				viaFifo(c, b, func(f string) { back = ogdl.FromBinaryFile(f) })
			}
			c.Ev("files")
		case k == 0:
			back = ogdl.FromBinary(b)
		case k == 1:
			back = ogdl.FromBinaryReader(newReader(c, b))
		default:
			// Two objects in a row read from one reader
			r := bufio.NewReader(bytes.NewReader(append(append([]byte{}, b...), b...)))
			if c.P(50) {
				r = bufio.NewReaderSize(newReader(c, append(append([]byte{}, b...), b...)), c.Num(6000))
				c.Ev("reader with a buffer of another size")
			}
			back = ogdl.FromBinaryBufioReader(r)
			if d := ref.DiffOut(want, ref.From(ogdl.FromBinaryBufioReader(r)), ref.SameText); d != "" {
				c.Fail("the second object in a stream is not as written: %s", d)
			}
		}
		if d := ref.DiffOut(want, ref.From(back), ref.SameText); d != "" {
			c.Fail("round trip: %s", d)
		}
		if c.One(5) && len(b) < 10000 {
			keptGraph(c, "FromBinary", back)
			keptBytes(c, "Binary", b, g.Binary)
		}
		c.Ev("library encodes")
		count()
		if len(b) > 10 {
			c.SeenStr(string(b))
		}
		return
	}
	// Streams made by the reference encoder, with all that the grammar allows.
	t.Walk(func(n *T) {
		if n.V == nil {
			n.V = ""
		}
	})
	b := ref.EncodeBinary(t, func(n int) int { return c.Intn(n) })
	want, _, err := ref.DecodeBinary(b)
	if err != nil {
		panic("reference encoder: " + err.Error())
	}
	var back *ogdl.Graph
	if c.P(50) {
		back = ogdl.FromBinary(b)
	} else {
		back = ogdl.FromBinaryReader(newReader(c, b))
	}
	// binary nodes give bytes, text nodes strings
	if d := ref.DiffOut(want, ref.From(back), sameBin); d != "" {
		c.Fail("a stream made by the grammar is decoded as something else: %s\n%s", d, core.Sample(string(clipb(b))))
	}
	if c.One(10) && len(b) < 10000 {
		keptGraph(c, "FromBinary", back)
		for i := range b {
			b[i] = 0x55 // the bytes are ours
		}
		if d := ref.DiffOut(want, ref.From(back), sameBin); d != "" {
			c.Fail("the graph decoded changes when the bytes given are overwritten: %s", d)
		}
	}
	c.Ev("library decodes")
	count()
	if len(b) > 10 {
		c.SeenStr(string(b))
	}
}

func clipb(b []byte) string {
	if len(b) > 4000 {
		b = b[:4000]
	}
	return string(b)
}

// sameBin: text as string, binary as bytes.
func sameBin(a, b interface{}) bool {
	_, x := a.([]byte)
	_, y := b.([]byte)
	return x == y && ref.SameText(a, b)
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated tells how many bytes have been allocated. The count advances in steps: what
// has been allocated earlier may be added late. If allocExact is set, it is exact and slow.
func allocated() int64 {
	if allocExact {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.TotalAlloc)
	}
	metrics.Read(allocSample)
	return int64(allocSample[0].Value.Uint64())
}

var allocExact, allocSuspect bool

// measured runs a case. If it seems to allocate too much, the case is repeated with an exact
// count.
func measured(c *C, body func(c *C)) {
	r := *c.Rand
	allocExact, allocSuspect = false, false
	func() {
		defer func() {
			if allocSuspect {
				recover()
			}
		}()
		body(c)
	}()
	if allocSuspect {
		c.Ev("measured exactly")
		*c.Rand = r
		allocExact = true
		defer func() { allocExact = false }()
		body(c)
	}
}

// tooMuch reports that a case allocates too much.
func tooMuch(c *C, f string, a ...interface{}) {
	if !allocExact {
		allocSuspect = true
		panic("suspect")
	}
	c.Fail(f, a...)
}

func p06(c *C) { measured(c, p06Case) }

func p06Case(c *C) {
	t := binTree(c)
	if t.Size() > 400 {
		t = &T{V: "_", Out: []*T{{V: "a", Out: []*T{{V: "b"}}}, {V: []byte{0, 1}}}}
	}
	t.Walk(func(n *T) {
		if n.V == nil {
			n.V = ""
		}
	})
	b, ends := ref.EncodeOffsets(t, func(n int) int { return c.Intn(n) })
	cut := -1
	kind := ""
	switch c.Intn(6) {
	case 0, 1:
		cut = c.Intn(len(b) + 1)
		if c.P(50) && len(ends) > 0 {
			// around the end of a node
			cut = ends[c.Intn(len(ends))] + c.Range(-3, 3)
			if cut < 0 {
				cut = 0
			}
			if cut > len(b) {
				cut = len(b)
			}
		}
		b = b[:cut]
		kind = "truncated"
	case 2:
		for i := 1 + c.Intn(6); i > 0 && len(b) > 0; i-- {
			p := c.Intn(len(b))
			switch c.Intn(4) {
			case 0:
				b[p] = byte(c.Intn(256))
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				b[p] = []byte{0, 1, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xff}[c.Intn(11)]
			default:
				b = append(b[:p], append([]byte{byte(c.Intn(256))}, b[p:]...)...)
			}
		}
		kind = "damaged"
	case 3:
		n := c.Num(5000)
		b = make([]byte, n)
		mode := c.Intn(3)
		for i := range b {
			switch mode {
			case 0:
				b[i] = byte(c.Intn(256))
			case 1:
				b[i] = []byte{0, 1, 2, 3, 'a', 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xff}[c.Intn(14)]
			default:
				b[i] = byte(c.Intn(4))
			}
		}
		if c.P(85) {
			b = append([]byte{1, 'G', 0}, b...)
		}
		kind = "random"
	case 4:
		// numbers that promise more than there is
		b = b[:len(b)-1]
		for i := 1 + c.Intn(4); i > 0; i-- {
			var v []byte
			switch c.Intn(5) {
			case 0:
				v = []byte{0xef, 0xff, 0xff, 0xff}
			case 1:
				v = ref.AppendVarint(nil, c.Intn(0x10000000), 1)
			case 2:
				v = []byte{0xf0 + byte(c.Intn(16)), 0xff, 0xff, 0xff, 0xff}
			case 3:
				v = ref.AppendVarint(nil, 1<<uint(c.Intn(28)), 1)
			default:
				v = ref.AppendVarint(nil, c.Range(1, 5), 1)
			}
			b = append(b, v...)
			switch c.Intn(3) {
			case 0:
				b = append(b, 1)
				b = ref.AppendVarint(b, 1<<uint(c.Intn(28)), 1)
				b = append(b, rawText(c, c.Intn(10), "0b")...)
			case 1:
				b = append(b, "text\x00"...)
			}
		}
		kind = "hostile numbers"
	default:
		h := []byte{1, 'G', 0}
		p := c.Intn(3)
		h[p] ^= byte(1 + c.Intn(255))
		b = append(h, b[3:]...)
		if c.One(3) {
			b = b[:c.Intn(3)]
		}
		kind = "no header"
	}
	if c.One(600) {
		// a long stream of something short
		cut, kind = -1, "long repetition"
		var unit []byte
		switch c.Intn(4) {
		case 0:
			// chunks of one node
			b = []byte{1, 'G', 0, 1, 1}
			unit = ref.AppendVarint(nil, 1, c.Range(1, 2))
			unit = append(unit, 'a')
		case 1:
			b = []byte{1, 'G', 0}
			unit = []byte(c.Str("\x01\x01\x01a\x00", "\x01a\x00", "\x01\x00", "\x01\x01\x00", "\x01a\x00\x02b\x00"))
		default:
			b = []byte{1, 'G', 0}
			unit = []byte(rawText(c, c.Range(1, 12), "0bb"))
			unit[0] = byte(c.Range(1, 3))
		}
		for n := c.Range(50000, 400000); len(b) < n; {
			b = append(b, unit...)
		}
	}
	orig := string(b)
	c.Info = func() string { return kind + " " + core.Sample(orig) }

	a0 := allocated()
	var g *ogdl.Graph
	if c.P(60) {
		g = ogdl.FromBinary(b)
	} else {
		g = ogdl.FromBinaryReader(newReader(c, b))
	}
	used := allocated() - a0
	limit := int64(4<<20 + 2000*len(b))
	if debugMeter != nil {
		debugMeter("P06", float64(used)/float64(limit))
	}
	if used > limit {
		tooMuch(c, "decoding %d bytes allocates %d bytes", len(b), used)
	}
	if string(b) != orig {
		c.Fail("decoding changes the bytes given")
	}
	got := ref.From(g)
	if got != nil {
		// What has been decoded can be used, and does not hold more than was there
		n := 0
		nodes := -1
		got.Walk(func(x *T) {
			n += len(ref.Str(x.V))
			nodes++
		})
		if n > len(b)+1 || nodes > len(b) {
			c.Fail("%d nodes with %d bytes of content have been decoded out of %d bytes", nodes, n, len(b))
		}
		if nodes < 5000 {
			g.Text()
			g.Binary()
		}
	}
	hasHeader := len(b) >= 3 && b[0] == 1 && b[1] == 'G' && b[2] == 0
	if !hasHeader && g != nil {
		c.Fail("bytes without header give a graph: %s", got.String())
	}
	if hasHeader && g == nil {
		c.Fail("a stream with header gives no graph")
	}
	c.Ev(kind)
	c.SeenStr(orig)
	if cut >= 3 {
		whole := 0
		for whole < len(ends) && ends[whole] <= cut {
			whole++
		}
		checkTruncated(c, t, got, whole)
		c.EvN("complete nodes checked", whole)
	}
}

// checkTruncated compares the first n nodes (depth first) of a tree with those decoded from
// a truncated stream, that may have one more, which was cut.
func checkTruncated(c *C, full, got *T, n int) {
	want := preorder(full)
	have := preorder(got)
	if len(have) < n {
		c.Fail("%d nodes are complete in the truncated stream, but %d have been decoded", n, len(have))
	}
	if len(have) > n+1 {
		c.Fail("%d nodes are complete in the truncated stream, but %d have been decoded", n, len(have))
	}
	for i := 0; i < n; i++ {
		if want[i].lv != have[i].lv || !sameBin(binNorm(want[i].t.V), have[i].t.V) {
			c.Fail("node %d of the truncated stream is %s (level %d) instead of %s (level %d)", i, ref.Show(have[i].t.V), have[i].lv, ref.Show(want[i].t.V), want[i].lv)
		}
	}
}

// binNorm: text that cannot be written as a text node comes back as bytes.
func binNorm(v interface{}) interface{} {
	if s, ok := v.(string); ok && s != "" && (s[0] == 1 || strings.IndexByte(s, 0) >= 0) {
		return []byte(s)
	}
	return v
}

type item struct {
	t  *T
	lv int
}

// preorder lists the nodes below the root, depth first, with their level.
func preorder(t *T) []item {
	var out []item
	var walk func(t *T, lv int)
	walk = func(t *T, lv int) {
		for _, o := range t.Out {
			out = append(out, item{o, lv})
			walk(o, lv+1)
		}
	}
	if t != nil {
		walk(t, 0)
	}
	return out
}

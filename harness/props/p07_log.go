package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P07",
		Rule:  "random histories of append, append binary, read, read binary, sync, close and reopen, over a file log, a memory log and a second log on the same file; each read is compared with the list of records, and at the end the whole log is followed from 0. Distinct by the bytes of the log.",
		Quick: 36000, Thoro: 300000, Case: p07,
		Must: []string{"graphs appended", "binary objects appended", "reads", "binary reads", "reopened", "read by a second log", "two logs append in turns", "logs followed", "memory logs", "same object again"},
	})
	core.Register(&core.Prop{
		ID:    "P08",
		Rule:  "logs cut at every byte (small ones) or around the ends of nodes and at random (big ones): all objects before the cut must be read unchanged, the cut one at most in part; and traced processes that append with autosync, where write and flush must come before the return. Distinct by log and cut.",
		Quick: 9000, Thoro: 100000, Case: p08,
		Must:   []string{"cuts", "objects before the cut", "complete nodes of cut objects", "reads after the cut", "appends to cut logs"},
		Assume: []string{"a crash is represented by the loss of a suffix of the file; that the flush reaches the disk is up to the operating system"},
	})
	core.Aux["log"] = auxLog
}

type record struct {
	pos int64
	b   []byte
	t   *T // tree without empty nodes, as read back
}

func logTree(c *C) *T {
	for {
		t := binTree(c)
		if s := t.Size(); s < 200 || c.One(10) && s < 4000 {
			n := 0
			t.Walk(func(x *T) { n += len(ref.Str(x.V)) })
			if n < 100000 {
				return t
			}
		}
	}
}

// binObject makes a stream by the grammar, and the tree that it describes.
func binObject(c *C) ([]byte, *T) {
	t := logTree(c)
	t.Walk(func(n *T) {
		if n.V == nil {
			n.V = ""
		}
	})
	b := ref.EncodeBinary(t, func(n int) int { return c.Intn(n) })
	w, n, err := ref.DecodeBinary(b)
	if err != nil || n != len(b) {
		panic("reference encoder")
	}
	return b, w
}

type logOps struct {
	c      *C
	recs   []record
	last   *T
	size   int64
	hist   []string
	kept   [][]byte // what GetBinary has returned
	keptOf []int
}

func (o *logOps) note(f string, a ...interface{}) {
	if len(o.hist) < 400 {
		o.hist = append(o.hist, fmt.Sprintf(f, a...))
	}
}

// add appends an object to the logs, that must agree.
func (o *logOps) add(logs ...*ogdl.Log) {
	c := o.c
	var r record
	var f func(l *ogdl.Log) int64
	if c.P(55) {
		t := logTree(c)
		if o.last != nil && c.One(5) {
			// the same again
			t = o.last
			c.Ev("same object again")
		}
		o.last = t
		g := t.Graph()
		f = func(l *ogdl.Log) int64 { return l.Add(g) }
		r.t = t.Skip()
		o.note("append graph of %d nodes", t.Size())
		c.Ev("graphs appended")
	} else {
		b, t := binObject(c)
		if c.One(3) {
			b = t.Graph().Binary()
			t = t.Skip()
		} else if n := len(o.recs); n > 0 && c.One(5) {
			b, t = o.recs[n-1].b, o.recs[n-1].t
			c.Ev("same object again")
		}
		r.b, r.t = b, t
		f = func(l *ogdl.Log) int64 {
			bb := append([]byte{}, b...)
			p := l.AddBinary(bb)
			for i := range bb {
				bb[i] ^= 0x55 // the bytes given are ours again
			}
			return p
		}
		o.note("append %d bytes", len(b))
		c.Ev("binary objects appended")
	}
	for i, l := range logs {
		r.pos = f(l)
		if r.pos != o.size {
			c.Fail("append number %d returns position %d instead of %d (log %d)", len(o.recs), r.pos, o.size, i)
		}
		if b := l.Bytes(); b != nil {
			if r.b == nil {
				r.b = append([]byte{}, b[r.pos:]...)
				if _, n, err := ref.DecodeBinary(r.b); err != nil || n != len(r.b) {
					c.Fail("the bytes appended for a graph are not one binary object: %v", err)
				}
			} else if !bytes.Equal(b[r.pos:], r.b) {
				c.Fail("the memory log does not hold the bytes appended")
			}
		}
	}
	o.recs = append(o.recs, r)
	o.size += int64(len(r.b))
}

func (o *logOps) read(l *ogdl.Log, i int, bin bool) int64 {
	c := o.c
	r := o.recs[i]
	want := r.pos + int64(len(r.b))
	if bin {
		b, next, err := l.GetBinary(r.pos)
		if err != nil || !bytes.Equal(b, r.b) {
			c.Fail("GetBinary(%d) gives %d bytes (error %v), not the %d bytes of object %d", r.pos, len(b), err, len(r.b), i)
		}
		if next != want {
			c.Fail("GetBinary(%d) says that the next object is at %d instead of %d", r.pos, next, want)
		}
		o.kept = append(o.kept, b)
		o.keptOf = append(o.keptOf, i)
		c.Ev("binary reads")
		return next
	}
	g, next, err := l.Get(r.pos)
	if err != nil {
		c.Fail("Get(%d): %v", r.pos, err)
	}
	if d := ref.DiffOut(r.t, ref.From(g), ref.SameText); d != "" {
		c.Fail("Get(%d) does not give object %d: %s", r.pos, i, d)
	}
	if next != want {
		c.Fail("Get(%d) says that the next object is at %d instead of %d", r.pos, next, want)
	}
	c.Ev("reads")
	return next
}

// follow reads all from position 0.
func (o *logOps) follow(l *ogdl.Log) {
	bin := o.c.P(40)
	pos := int64(0)
	for i := range o.recs {
		if o.recs[i].pos != pos {
			o.c.Fail("following the log, object %d is at %d instead of %d", i, pos, o.recs[i].pos)
		}
		pos = o.read(l, i, bin)
	}
	o.atEnd(l, pos)
	o.c.Ev("logs followed")
}

// atEnd checks that the end is indicated.
func (o *logOps) atEnd(l *ogdl.Log, pos int64) {
	g, next, _ := l.Get(pos)
	if g != nil && len(g.Out) > 0 || next >= 0 {
		o.c.Fail("Get at the end of the log (%d) gives %s, next %d", pos, ref.Short(ref.From(g)), next)
	}
	b, next, _ := l.GetBinary(pos)
	if len(b) != 0 || next >= 0 {
		o.c.Fail("GetBinary at the end of the log (%d) gives %d bytes, next %d", pos, len(b), next)
	}
}

// p07huge appends to a log that holds an object of gigabytes (of zeros, that take no
// place on the disk).
func p07huge(c *C) {
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) != nil || lim.Cur < 1<<34 {
		return
	}
	file := filepath.Join(c.Tmp, "huge")
	defer os.Remove(file)
	f, err := os.Create(file)
	if err != nil {
		return
	}
	chunks := []int{7, 8, 15, 16, 17, 20}[c.Intn(6)]
	pos := int64(0)
	put := func(b ...byte) {
		if err == nil {
			_, err = f.WriteAt(b, pos)
		}
		pos += int64(len(b))
	}
	put(1, 'G', 0, 1, 1)
	for i := 0; i < chunks; i++ {
		put(0xef, 0xff, 0xff, 0xff)
		pos += 0xfffffff
	}
	put(0, 0)
	if f.Close() != nil || err != nil {
		return // no such files here
	}
	what := ""
	c.Info = func() string { return fmt.Sprintf("log with an object of %d bytes: %s", pos, what) }
	l, err := ogdl.OpenLog(file)
	if err != nil {
		c.Fail("OpenLog: %v", err)
	}
	defer func() { l.Close() }()
	l.SetSync(false)
	size := pos
	var recs []record
	for i := c.Range(2, 6); i > 0; i-- {
		t := logTree(c)
		r := record{t: t.Skip(), b: t.Graph().Binary()}
		if c.P(50) {
			what = "Add"
			r.pos = l.Add(t.Graph())
		} else {
			what = "AddBinary"
			r.pos = l.AddBinary(r.b)
		}
		if r.pos != size {
			c.Fail("returns position %d instead of %d", r.pos, size)
		}
		size += int64(len(r.b))
		recs = append(recs, r)
		if c.One(3) {
			l.Close()
			if l, err = ogdl.OpenLog(file); err != nil {
				c.Fail("OpenLog: %v", err)
			}
		}
	}
	for i, r := range recs {
		want := r.pos + int64(len(r.b))
		what = fmt.Sprintf("Get(%d)", r.pos)
		g, next, err := l.Get(r.pos)
		if err != nil || next != want {
			c.Fail("gives next %d instead of %d (error %v)", next, want, err)
		}
		if d := ref.DiffOut(r.t, ref.From(g), ref.SameText); d != "" {
			c.Fail("does not give object %d: %s", i, d)
		}
		what = fmt.Sprintf("GetBinary(%d)", r.pos)
		b, next, err := l.GetBinary(r.pos)
		if err != nil || next != want || !bytes.Equal(b, r.b) {
			c.Fail("gives %d bytes instead of %d, next %d instead of %d (error %v)", len(b), len(r.b), next, want, err)
		}
	}
	c.Ev("logs of gigabytes")
	c.SeenStr(fmt.Sprint("huge", chunks, size))
}

func p07(c *C) {
	if c.One(3000) {
		p07huge(c)
		return
	}
	o := &logOps{c: c}
	file := filepath.Join(c.Tmp, "log")
	os.Remove(file)
	open := func() *ogdl.Log {
		l, err := ogdl.OpenLog(file)
		if err != nil {
			c.Fail("OpenLog: %v", err)
		}
		return l
	}
	c.Info = func() string {
		s := ""
		for _, h := range o.hist {
			s += h + "\n"
		}
		return s
	}
	l := open()
	defer func() { l.Close() }()
	var other *ogdl.Log
	defer func() {
		if other != nil {
			other.Close()
		}
	}()
	mem := &ogdl.Log{}
	l.SetSync(c.One(4))
	n := c.Range(1, 25)
	for i := 0; i < n; i++ {
		switch k := c.Intn(20); {
		case k < 8 || len(o.recs) == 0:
			// The memory log first, to know the bytes
			to := l
			if other != nil && c.P(50) {
				to = other
				o.note("by the other log")
				c.Ev("two logs append in turns")
			}
			o.add(mem, to)
			if fi, err := os.Stat(file); err != nil || fi.Size() != o.size {
				c.Fail("after an append that ends at %d the file has %d bytes", o.size, fi.Size())
			}
		case k < 14:
			i := c.Intn(len(o.recs))
			o.note("read %d", i)
			if other != nil && c.P(30) {
				o.read(other, i, c.P(50))
			}
			o.read(l, i, c.P(50))
		case k < 15:
			o.note("sync")
			l.Sync()
		case k < 16:
			s := c.P(40)
			o.note("set sync %v", s)
			l.SetSync(s)
		case k < 18:
			o.note("reopen")
			l.Close()
			l = open()
			l.SetSync(c.One(4))
			c.Ev("reopened")
		case k < 19:
			if other != nil {
				o.note("close the other log")
				other.Close()
				other = nil
				continue
			}
			o.note("second log")
			l2 := open()
			i := c.Intn(len(o.recs))
			o.read(l2, i, c.P(50))
			if c.P(30) {
				o.follow(l2)
			}
			c.Ev("read by a second log")
			if c.P(60) {
				o.note("that remains open")
				other = l2
				l2.SetSync(c.One(4))
				continue
			}
			l2.Close()
		default:
			o.note("read at the end")
			o.atEnd(l, o.size)
		}
	}
	o.note("follow")
	o.follow(l)
	b, err := os.ReadFile(file)
	if err != nil || !bytes.Equal(b, mem.Bytes()) {
		c.Fail("the file log and the memory log differ (%d and %d bytes)", len(b), len(mem.Bytes()))
	}
	c.Ev("memory logs")
	for k, b := range o.kept {
		if r := o.recs[o.keptOf[k]]; !bytes.Equal(b, r.b) {
			c.Fail("the bytes of object %d that GetBinary returned have changed since", o.keptOf[k])
		}
	}
	c.SeenStr(string(b))
}

// ---------------------------------------------------------------------------

func p08(c *C) {
	if c.Idx%300 == 0 {
		traceLog(c)
		return
	}
	// A log
	var b []byte
	var recs []record
	var ends [][]int
	n := c.Range(1, 4)
	small := c.P(75)
	for i := 0; i < n; i++ {
		var t *T
		for {
			t = binTree(c)
			t.Walk(func(x *T) {
				if x.V == nil {
					x.V = ""
				}
			})
			if !small || t.Size() < 8 {
				break
			}
		}
		ob, e := ref.EncodeOffsets(t, func(n int) int { return c.Intn(n) })
		if len(ob) > 60000 || small && len(ob) > 300 {
			t = ref.N("_", ref.N("a", ref.N("b")), ref.N([]byte{0, 1}))
			ob, e = ref.EncodeOffsets(t, nil)
		}
		w, _, _ := ref.DecodeBinary(ob)
		recs = append(recs, record{int64(len(b)), ob, w})
		ends = append(ends, e)
		b = append(b, ob...)
	}
	file := filepath.Join(c.Tmp, "cut")
	os.Remove(file)
	defer os.Remove(file)
	l, err := ogdl.OpenLog(file)
	if err != nil {
		c.Fail("OpenLog: %v", err)
	}
	l.SetSync(false)
	for i, r := range recs {
		if p := l.AddBinary(r.b); p != r.pos {
			c.Fail("AddBinary returns %d instead of %d (object %d)", p, r.pos, i)
		}
	}
	l.Close()
	if got, _ := os.ReadFile(file); !bytes.Equal(got, b) {
		c.Fail("the log file is not the sequence of the objects appended")
	}

	var cuts []int
	if len(b) <= 400 {
		for i := len(b); i >= 0; i-- {
			cuts = append(cuts, i)
		}
	} else {
		m := map[int]bool{}
		for i := 0; i < 12; i++ {
			m[c.Intn(len(b)+1)] = true
			k := c.Intn(n)
			if len(ends[k]) > 0 {
				m[int(recs[k].pos)+ends[k][c.Intn(len(ends[k]))]+c.Range(-2, 2)] = true
			}
			m[int(recs[k].pos)+c.Range(0, 4)] = true
		}
		for i := len(b); i >= 0; i-- {
			if m[i] {
				cuts = append(cuts, i)
			}
		}
	}
	cut := 0
	c.Info = func() string { return fmt.Sprintf("cut at %d of %s", cut, core.Sample(clipb(b))) }
	h := core.Hash(0, b)
	for _, cut = range cuts {
		if err := os.Truncate(file, int64(cut)); err != nil {
			panic(err)
		}
		checkCut(c, file, b, recs, ends, cut)
		c.Ev("cuts")
		c.Seen(h + uint64(cut)*0x9e3779b97f4a7c15)
	}
	// Appending to what is left
	if c.P(30) && len(cuts) > 0 {
		cut = cuts[c.Intn(len(cuts))]
		os.WriteFile(file, b[:cut], 0666)
		l, err := ogdl.OpenLog(file)
		if err != nil {
			c.Fail("OpenLog: %v", err)
		}
		defer l.Close()
		l.SetSync(false)
		t := ref.N("_", ref.N("new", ref.N("object")))
		pos := l.Add(t.Graph())
		if pos != int64(cut) {
			c.Fail("an append to a log of %d bytes returns position %d", cut, pos)
		}
		g, _, err := l.Get(pos)
		if err != nil || ref.DiffOut(t, ref.From(g), ref.SameText) != "" {
			c.Fail("the object appended after a cut is not found at the position returned: %s, %v", ref.Short(ref.From(g)), err)
		}
		c.Ev("appends to cut logs")
	}
}

func checkCut(c *C, file string, b []byte, recs []record, ends [][]int, cut int) {
	l, err := ogdl.OpenLog(file)
	if err != nil {
		c.Fail("OpenLog: %v", err)
	}
	defer l.Close()
	pos := int64(0)
	i := 0
	for ; i < len(recs) && int(recs[i].pos)+len(recs[i].b) <= cut; i++ {
		r := recs[i]
		if pos != r.pos {
			c.Fail("cut at %d: object %d is at %d, but following the positions leads to %d", cut, i, r.pos, pos)
		}
		g, next, err := l.Get(pos)
		if err != nil || ref.DiffOut(r.t, ref.From(g), sameBin) != "" {
			c.Fail("cut at %d: Get(%d) gives %s (error %v), not object %d", cut, pos, ref.Short(ref.From(g)), err, i)
		}
		ob, next2, err := l.GetBinary(pos)
		if err != nil || !bytes.Equal(ob, r.b) || next2 != next {
			c.Fail("cut at %d: GetBinary(%d) does not give object %d (%d bytes, next %d, error %v)", cut, pos, i, len(ob), next2, err)
		}
		pos = next
		c.Ev("objects before the cut")
	}
	if i < len(recs) && pos != recs[i].pos {
		c.Fail("cut at %d: following the positions leads to %d instead of %d", cut, pos, recs[i].pos)
	}
	// What remains of the object cut
	at := []int64{int64(cut), int64(cut) + 1, int64(cut) + int64(c.Num(100000))}
	if i < len(recs) && int64(cut) > recs[i].pos {
		r := recs[i]
		left := cut - int(r.pos)
		whole := 0
		for whole < len(ends[i]) && ends[i][whole] <= left {
			whole++
		}
		g, next, err := l.Get(r.pos)
		if next >= 0 && next <= r.pos {
			c.Fail("cut at %d: after the cut object at %d comes %d", cut, r.pos, next)
		}
		if g != nil && err == nil {
			have := preorder(ref.From(g))
			want := preorder(r.t)
			if len(have) > whole+1 {
				c.Fail("cut at %d: the object cut has %d complete nodes, but %d are read", cut, whole, len(have))
			}
			for k := 0; k < whole && k < len(have); k++ {
				if want[k].lv != have[k].lv || !sameBin(want[k].t.V, have[k].t.V) {
					c.Fail("cut at %d: node %d of the object cut is %s (level %d) instead of %s (level %d)", cut, k, ref.Show(have[k].t.V), have[k].lv, ref.Show(want[k].t.V), want[k].lv)
				}
			}
			c.EvN("complete nodes of cut objects", whole)
		}
		ob, _, err := l.GetBinary(r.pos)
		if err == nil && len(ob) > 0 && !bytes.HasPrefix(r.b, ob) {
			c.Fail("cut at %d: GetBinary gives bytes that are not those of the object cut", cut)
		}
	}
	for _, p := range at {
		g, next, err := l.Get(p)
		if err == nil && (g != nil && len(g.Out) > 0 || next >= 0) {
			c.Fail("cut at %d: Get(%d) gives %s, next %d", cut, p, ref.Short(ref.From(g)), next)
		}
		ob, next, err := l.GetBinary(p)
		if err == nil && (len(ob) > 0 || next >= 0) {
			c.Fail("cut at %d: GetBinary(%d) gives %d bytes, next %d", cut, p, len(ob), next)
		}
		c.Ev("reads after the cut")
	}
}

// auxLog appends objects to a log, with marks around each append. Arguments: file, marks
// file, number of objects, mode.
func auxLog(args []string) {
	marks, err := os.OpenFile(args[1], os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	l, err := ogdl.OpenLog(args[0])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	n, _ := strconv.Atoi(args[2])
	switch args[3] {
	case "1":
		l.SetSync(false)
		l.SetSync(true)
	case "3", "4":
		l.SetSync(false)
	case "2":
		l.Add(ogdl.FromString("before"))
		l.Get(0)
	}
	for i := 0; i < n; i++ {
		g := ogdl.FromString(fmt.Sprintf("object %d\n  with some\n    content %d", i, i*i))
		if size := []int{0, 0, 5000, 70000, 300000, 1300000}[(i/2)%6]; size > 0 {
			g.Add(strings.Repeat("x", size))
		}
		b := g.Binary()
		marks.Write([]byte(fmt.Sprintf("begin %d %d", i, len(b))))
		if i%2 == 0 {
			l.Add(g)
		} else {
			l.AddBinary(b)
		}
		if args[3] >= "3" {
			// it is Sync that flushes
			if args[3] == "4" && i%3 > 0 {
				l.SetSync(true)
			}
			l.Sync()
			l.SetSync(false)
		}
		marks.Write([]byte(fmt.Sprintf("end %d", i)))
	}
	l.Close()
}

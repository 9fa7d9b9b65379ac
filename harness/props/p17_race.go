package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P17",
		Rule:  "goroutines that read one shared graph and process one shared template, each with its own context, next to others that parse, build, encode, log and process things of their own; under the race detector, with random yields. The concurrent part comes first, on untouched objects; the results are compared with those of the same operations done one by one on fresh copies afterwards. Some cases run a process whose first use of the library is by several goroutines at once. Non-trivial: at least 3 goroutines; distinct by the set of operations.",
		Quick: 1500, Thoro: 40000, Case: p17, Race: true, CPU: 120,
		Must: []string{"goroutines", "shared graph", "shared template", "shared expression", "own text", "own template", "own binary", "own json", "own xml", "own log", "own lexer", "own edits", "overlapping operations", "cold starts"},
	})
}

// job is an operation whose result is known to depend on nothing else. If shared it is given
// a shared object, and a fresh copy of it when it is run alone.
type job struct {
	ev, name string
	f        func(shared bool) string
}

func p17(c *C) {
	if c.One(20) {
		p17Cold(c)
		return
	}
	var jobs []job
	add := func(ev, name string, f func(bool) string) { jobs = append(jobs, job{ev, name, f}) }

	// shared graph
	t, x := readTree(c)
	g := roomy(t)
	for i := c.Range(2, 12); i > 0; i-- {
		op := makeReadOp(c, t, x)
		add("shared graph", op.name, func(sh bool) string {
			if sh {
				return op.f(g)
			}
			return op.f(t.Graph())
		})
	}
	// shared template
	for n := c.Range(1, 2); n > 0; n-- {
		tx := tmplContext(c)
		src := genTemplate(c, tx, c.Range(1, 12)).src
		tp := ogdl.NewTemplate(src)
		ctxs := []*T{tx.T, tx.T.Clone(), tmplContext(c).T}
		for i := c.Range(2, 6); i > 0; i-- {
			ct := ctxs[c.Intn(len(ctxs))]
			add("shared template", "process "+src, func(sh bool) string {
				k := tp
				if !sh {
					k = ogdl.NewTemplate(src)
				}
				ctx := ct.Graph()
				out := string(k.Process(ctx))
				return out + "\x00" + ref.From(ctx).String()
			})
		}
	}
	// shared expression, with contexts of their own and with the shared graph
	ex := exprContext(c)
	es := genExpr(c, ex, c.Range(1, 4)).write(c, 30)
	ee := ogdl.NewExpression(es)
	for i := c.Range(1, 4); i > 0; i-- {
		own := c.P(50)
		add("shared expression", "evaluate "+es, func(sh bool) string {
			k, ctx := ee, g
			if !sh {
				k, ctx = ogdl.NewExpression(es), t.Graph()
			}
			if own {
				ctx = ex.Graph()
			}
			v, err := ctx.Eval(k)
			return show(v) + fmt.Sprint(err)
		})
	}
	// what belongs to one
	for i := c.Range(2, 10); i > 0; i-- {
		ownJob(c, add)
	}

	n := c.Range(3, 10)
	type run struct {
		job  int
		got  string
		wait int
	}
	runs := make([][]run, n)
	var key []string
	for i := range runs {
		for k := c.Range(1, 6); k > 0; k-- {
			j := c.Intn(len(jobs))
			runs[i] = append(runs[i], run{job: j, wait: c.Intn(6)})
			key = append(key, jobs[j].name)
		}
	}
	if c.One(3) {
		// all do the same
		for i := range runs {
			runs[i] = append([]run(nil), runs[0]...)
		}
	}
	c.Info = func() string { return strings.Join(key, "\n") + "\nshared graph " + t.String() }

	var wg, ready sync.WaitGroup
	gate := make(chan bool)
	crash := make([]string, n)
	var mu sync.Mutex
	active, overlaps := 0, 0
	for i := range runs {
		wg.Add(1)
		ready.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 1<<14)
					crash[i] = fmt.Sprint(e, "\n", string(buf[:runtime.Stack(buf, false)]))
				}
			}()
			ready.Done()
			<-gate
			for k := range runs[i] {
				r := &runs[i][k]
				switch r.wait {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(i*7%13) * time.Microsecond)
				}
				// (the lock orders only the beginnings and ends of operations now and then)
				if r.wait == 2 {
					mu.Lock()
					active++
					if active > 1 {
						overlaps++
					}
					mu.Unlock()
				}
				r.got = jobs[r.job].f(true)
				if r.wait == 2 {
					mu.Lock()
					active--
					mu.Unlock()
				}
			}
		}(i)
	}
	ready.Wait()
	close(gate)
	wg.Wait()

	for i := range crash {
		if crash[i] != "" {
			c.Fail("goroutine %d panics: %s", i, crash[i])
		}
	}
	want := make([]*string, len(jobs))
	for i := range runs {
		for _, r := range runs[i] {
			j := jobs[r.job]
			if want[r.job] == nil {
				s := j.f(false)
				want[r.job] = &s
			}
			if r.got != *want[r.job] {
				c.Fail("%s: %s gives %s concurrently, and %s alone", j.ev, j.name, core.Sample(r.got), core.Sample(*want[r.job]))
			}
			c.Ev(j.ev)
		}
	}
	c.EvN("goroutines", n)
	c.EvN("overlapping operations", overlaps)
	c.SeenStr(strings.Join(key, "\n"))
}

var logSeq int64
var logMu sync.Mutex

func ownJob(c *C, add func(ev, name string, f func(bool) string)) {
	switch c.Intn(9) {
	case 0, 1:
		d := genDoc(c, 30, true)
		s := d.write(c, genLayout(c))
		typed := c.P(50)
		add("own text", "parse "+s, func(bool) string {
			var g *ogdl.Graph
			if typed {
				g = ogdl.FromStringTypes(s)
			} else {
				g = ogdl.FromString(s)
			}
			return show(g) + g.Text() + string(g.Binary())
		})
	case 2:
		x := tmplContext(c)
		src := genTemplate(c, x, c.Range(1, 10)).src
		add("own template", "parse and process "+src, func(bool) string {
			ctx := x.Graph()
			return string(ogdl.NewTemplate(src).Process(ctx)) + "\x00" + ref.From(ctx).String()
		})
	case 3:
		t := binTree(c)
		if t.Size() > 200 {
			t = N("_", N("a", N("b")))
		}
		add("own binary", "binary "+ref.Short(t), func(bool) string {
			b := t.Graph().Binary()
			return string(b) + show(ogdl.FromBinary(b)) + show(ogdl.FromBinaryReader(bytes.NewReader(b)))
		})
	case 4:
		s := jsonSource(c, 4)
		add("own json", "json "+s, func(bool) string {
			g, err := ogdl.FromJSON([]byte(s))
			return show(g) + fmt.Sprint(err) + string(g.JSON())
		})
	case 5:
		s := xmlSource(c, 4) + c.Str("", "", "<")
		add("own xml", "xml "+s, func(bool) string {
			g := gxml.FromXML([]byte(s))
			r := show(g)
			gxml.Simplify(g)
			return r + show(g)
		})
	case 6:
		t1, t2 := logTree(c), logTree(c)
		mem := c.P(50)
		tmp := c.Tmp
		add("own log", "log "+ref.Short(t1), func(bool) string {
			var l *ogdl.Log
			if mem {
				l = &ogdl.Log{}
			} else {
				logMu.Lock()
				logSeq++
				f := filepath.Join(tmp, "race"+strconv.FormatInt(logSeq, 10))
				logMu.Unlock()
				l, _ = ogdl.OpenLog(f)
				defer os.Remove(f)
				defer l.Close()
			}
			p1 := l.Add(t1.Graph())
			p2 := l.Add(t2.Graph())
			p3 := l.AddBinary(t1.Graph().Binary())
			z, n3, e3 := l.Get(p3)
			y, _, _ := l.GetBinary(p2)
			a, n1, e1 := l.Get(p1)
			b, n2, e2 := l.Get(p2)
			return fmt.Sprint(p1, p2, p3, n1, e1, n2, e2, n3, e3, y) + show(a) + show(b) + show(z)
		})
	case 7:
		s := rawText(c, c.Range(1, 300), "pssn")
		add("own lexer", "lexer "+s, func(bool) string {
			l := ogdl.NewLexer(strings.NewReader(s))
			var b strings.Builder
			for i := 0; i < 400; i++ {
				if r, err := l.Rune(); err != nil {
					break
				} else {
					b.WriteRune(r)
				}
				if i%5 == 0 {
					w, _ := l.String()
					b.WriteString("[" + w + "]")
					l.WhiteSpace()
				}
			}
			return b.String()
		})
	default:
		t := N2(treeNames(c), c, 20)
		var ps []string
		for i := c.Range(1, 4); i > 0; i-- {
			ps = append(ps, writePath(c, setPath(c, t, true), false))
		}
		add("own edits", "set "+strings.Join(ps, " "), func(bool) string {
			g := t.Graph()
			for i, p := range ps {
				g.Set(p, i)
			}
			k := g.Clone()
			k.Merge(t.Graph())
			k.SortAsString("a")
			k.Delete("b")
			e := ogdl.NewExpression("zz = 1+2*3")
			k.Eval(e)
			return show(g) + show(k)
		})
	}
}

package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Aux["cold"] = auxCold
}

// p17Cold runs a process whose first use of the library is concurrent: what the library
// prepares on first use is prepared then, with no operation before it.
func p17Cold(c *C) {
	self, _ := os.Executable()
	arg := []string{"aux", "cold", filepath.Join(c.Dir, "dict.json"), strconv.FormatUint(c.Uint64(), 10), c.Tmp}
	c.Info = func() string { return strings.Join(arg, " ") }
	cmd := exec.Command(self, arg...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=8", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	out, err := cmd.CombinedOutput()
	if err != nil {
		s := string(out)
		if len(s) > 12000 {
			s = s[:12000]
		}
		switch {
		case strings.Contains(s, "DATA RACE"):
			c.Fail("a data race when the library is first used by several goroutines at once: %s", s)
		case strings.Contains(s, "fatal error") || strings.Contains(s, "panic:") || strings.Contains(s, "DIFFERENT"):
			c.Fail("first use of the library by several goroutines at once: %v %s", err, s)
		}
		// killed from outside, or could not be started
		c.Ev("cold start not run")
		return
	}
	n, _ := strconv.Atoi(strings.TrimSpace(string(out)))
	if n > 0 {
		c.Ev("cold starts")
		c.EvN("operations at cold starts", n)
		c.SeenStr(strings.Join(arg, " "))
	}
}

// coldJobs are operations that cover the library. No function of it may be called before they run.
func coldJobs(c *C, g *ogdl.Graph) []job {
	var jobs []job
	add := func(ev, name string, f func(bool) string) { jobs = append(jobs, job{ev, name, f}) }
	on := func(name string, f func(g *ogdl.Graph) string) {
		add("shared graph", name, func(bool) string { return f(g) })
	}
	path := c.Str("a.b", "a[1]", "a{}", "a.'x y'", "d.(a.b)", "a{0}.b", "é.ñ", "a._len")
	exp := c.Str("1+2*3", "n*2 > 3 && !false", "-n/3", "'a'+'b' == 'ab'", "(n+1)%2", "d-0.5 <= 1.5 || a[0]", "T(1, a.b)", "n != 7")
	tpl := c.Str("x $a.b y $n", "$for(i,a)<$i>$end", "$if(n>1)big$elseif(n==1)one$else small$end", "$(z=n+1)$z", "$for(i,d)$if(i=='x')$break$end$i$end", "$T(n,'a')")
	re := c.Str("a", "^.$", "[a-c]+", "(?i)D", "x|é")
	on("Get", func(g *ogdl.Graph) string { return show(g.Get(path)) })
	on("Eval path", func(g *ogdl.Graph) string {
		v, err := g.Eval(ogdl.NewPath(path))
		return show(v) + fmt.Sprint(err)
	})
	on("Eval expression", func(g *ogdl.Graph) string {
		v, err := g.Eval(ogdl.NewExpression(exp))
		return show(v) + fmt.Sprint(err)
	})
	add("own template", "template", func(bool) string { return string(ogdl.NewTemplate(tpl).Process(coldTree().Graph())) })
	on("Text", func(g *ogdl.Graph) string { return g.Text() })
	on("Show", func(g *ogdl.Graph) string { return g.Show() })
	on("Binary", func(g *ogdl.Graph) string { return string(g.Binary()) })
	on("JSON", func(g *ogdl.Graph) string { return string(g.JSON()) })
	on("Html", func(g *ogdl.Graph) string { return g.Html("/x") })
	on("Clone", func(g *ogdl.Graph) string { return show(g.Clone()) })
	on("Equals", func(g *ogdl.Graph) string { return fmt.Sprint(g.Equals(g), g.Equals(coldTree().Graph())) })
	on("Check", func(g *ogdl.Graph) string {
		ok, m := (&T{V: "_", Out: []*T{N("a", N("!string"), N("!int"), N("!bool")), N("!float")}}).Graph().Check(g)
		return fmt.Sprint(ok, m)
	})
	on("Find", func(g *ogdl.Graph) string { r, err := g.Find(re); return show(r) + fmt.Sprint(err) })
	on("accessors", func(g *ogdl.Graph) string {
		n := g.Node("n")
		i, err := g.GetInt64("n")
		return fmt.Sprint(n.Int64(), n.Float64(), n.Bool(), n.String(), n.Number(), n.Scalar(), n.ThisScalar(), n.Strings(), n.StringCSV(), n.StringTxt(), i, err)
	})
	add("own edits", "sort", func(bool) string {
		k := coldTree().Graph()
		k.Sort("b")
		k.SortAsInt("b")
		k.SortAsString("b")
		k.Set("a.q[2]", 1)
		k.Set("new.'x y'", "v")
		return show(k)
	})
	add("own text", "text", func(bool) string {
		return show(ogdl.FromString("a b, c\n  'd e'\n  f # g\nh \\\n  i\n")) + show(ogdl.FromStringTypes("1 -2.5 true x"))
	})
	add("own xml", "xml", func(bool) string {
		r := gxml.FromXML([]byte("<r><é-à x='1'>t</é-à><field name='n n'>u</field></r>"))
		gxml.Simplify(r)
		return show(r)
	})
	add("own json", "json", func(bool) string {
		r, err := ogdl.FromJSON([]byte(`{"a": [1, 2.5, "é\n", null, {"b": true}]}`))
		return show(r) + string(r.JSON()) + fmt.Sprint(err)
	})
	for i := 0; i < 6; i++ {
		ownJob(c, add)
	}
	return jobs
}

func coldTree() *T {
	return N("_", N("a", N("x y", N("1")), N("b", N("2")), N("b", N("3"))), N("n", N("7")), N("d", N("1.5"), N("x")), N("é", N("ñ", N("o"))), &T{V: "k", Out: []*T{{V: int64(5)}, {V: 2.5}, {V: true}}})
}

func auxCold(args []string) {
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	c := core.AuxC(args[0], seed, args[2])
	t := coldTree()
	t.Out = append(t.Out, shape(c, c.Size(20), func(int) interface{} { return scalarVal(c) }).Out...)
	g := t.Graph()
	fn := func(n int64, s string) string { return fmt.Sprint(n, s) }
	g.Out = append(g.Out, &ogdl.Graph{This: "T", Out: []*ogdl.Graph{{This: fn}}})
	jobs := coldJobs(c, g)

	n := c.Range(4, 8)
	order := make([][]int, n)
	same := c.P(50)
	for i := range order {
		if same && i > 0 {
			order[i] = order[0]
			continue
		}
		for j := range jobs {
			order[i] = append(order[i], j)
		}
		for j := range jobs {
			k := c.Intn(j + 1)
			order[i][j], order[i][k] = order[i][k], order[i][j]
		}
	}
	got := make([][]string, n)
	var wg, ready sync.WaitGroup
	gate := make(chan bool)
	for i := range order {
		wg.Add(1)
		ready.Add(1)
		got[i] = make([]string, len(jobs))
		go func(i int) {
			defer wg.Done()
			ready.Done()
			<-gate
			for _, j := range order[i] {
				got[i][j] = jobs[j].f(true)
			}
		}(i)
	}
	ready.Wait()
	close(gate)
	wg.Wait()
	done := 0
	before := ref.From(g).String()
	for j, jb := range jobs {
		want := jb.f(true)
		for i := range order {
			if got[i][j] != want {
				fmt.Printf("DIFFERENT: %s gives %s in goroutine %d, and %s alone\n", jb.name, core.Sample(got[i][j]), i, core.Sample(want))
				os.Exit(1)
			}
			done++
		}
	}
	if ref.From(g).String() != before {
		fmt.Println("DIFFERENT: reading changed the graph")
		os.Exit(1)
	}
	runtime.KeepAlive(g)
	fmt.Println(done)
}

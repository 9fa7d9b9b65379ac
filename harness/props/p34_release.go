package props

import (
	"bytes"
	binenc "encoding/binary"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"github.com/rveen/ogdl/ogdlrf"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P34",
		Rule:  "files (existing, missing, empty, folders) read and logs opened, used and closed; clients that call, dial again, are closed, left or cut off, against servers of both protocols, and peers that stay silent; and single operations repeated thousands of times with changing inputs. Open files, goroutines and live heap objects are counted before and after. Non-trivial: every case; distinct by kind and parameters.",
		Quick: 1600, Thoro: 40000, Case: p34, CPU: 200,
		Must:   []string{"files", "missing files", "folders", "logs", "clients", "calls", "dialled again", "cut off", "garbage sent", "silent peers dropped", "silent within a long message", "mute servers given up", "repeated operations", "protocol 1", "protocol 2"},
		Assume: []string{"the time limits of clients and servers are those given to them in seconds; they are considered exceeded after 25 seconds more"},
	})
}

func openFiles() int {
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(e)
}

// settled waits until there are no more files and goroutines than given.
func settled(files, gor int) (int, int, bool) {
	end := time.Now().Add(25 * time.Second)
	for i := 0; ; i++ {
		f, n := openFiles(), runtime.NumGoroutine()
		if f <= files && n <= gor {
			return f, n, true
		}
		if time.Now().After(end) {
			return f, n, false
		}
		if i < 20 {
			runtime.Gosched()
		}
		d := time.Duration(i) * 100 * time.Microsecond
		if d > 50*time.Millisecond {
			d = 50 * time.Millisecond
		}
		time.Sleep(d)
	}
}

func stacks() string {
	b := make([]byte, 1<<15)
	return string(b[:runtime.Stack(b, true)])
}

func p34(c *C) {
	what := ""
	c.Info = func() string { return what }
	// what is not closed must not be closed by the collector
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	switch k := c.Idx / 8 % 40; {
	case k == 7:
		p34Silent(c, &what)
	case k == 9:
		p34Mute(c, &what)
	case k%4 == 1:
		p34Clients(c, &what)
	case k%4 == 2:
		p34Files(c, &what)
	default:
		p34Memory(c, &what)
	}
	c.SeenStr(what)
}

func p34Files(c *C, what *string) {
	f0, g0 := openFiles(), runtime.NumGoroutine()
	dir := filepath.Join(c.Tmp, "p34")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0777)
	defer os.RemoveAll(dir)
	t := shape(c, c.Size(20), func(int) interface{} { return word(c) })
	g := t.Graph()
	name := func(n string) string { return filepath.Join(dir, n) }
	os.WriteFile(name("text"), []byte(g.Text()), 0666)
	os.WriteFile(name("bin"), g.Binary(), 0666)
	os.WriteFile(name("empty"), nil, 0666)
	var ops []string
	rounds := c.Range(1, 4)
	for i := 0; i < rounds; i++ {
		n := c.Str("text", "bin", "empty", "missing", ".", "missing/x")
		switch c.Intn(3) {
		case 0:
			ops = append(ops, "FromFile "+n)
			ogdl.FromFile(name(n))
		case 1:
			ops = append(ops, "FromBinaryFile "+n)
			ogdl.FromBinaryFile(name(n))
		default:
			if n == "bin" || n == "text" {
				n = "log"
			}
			ops = append(ops, "log "+n)
			l, err := ogdl.OpenLog(name(n))
			if err == nil {
				l.SetSync(c.One(10))
				for j := c.Intn(4); j > 0; j-- {
					p := l.Add(g)
					l.Get(p)
					l.GetBinary(p)
					l.Get(p + 1000000)
				}
				l.Close()
				c.Ev("logs")
			} else if l != nil && c.P(50) {
				l.Close()
			}
		}
		c.Ev("files")
		if strings.HasPrefix(n, "missing") {
			c.Ev("missing files")
		} else if n == "." {
			c.Ev("folders")
		}
	}
	*what = strings.Join(ops, ", ")
	if f, n, ok := settled(f0, g0); !ok {
		c.Fail("after %s there are %d open files instead of %d, %d goroutines instead of %d\n%s", *what, f, f0, n, g0, stacks())
	}
}

var p34Servers = map[int]*rfServer{}

// p34Server gives a server that drops silent peers after a second.
func p34Server(proto int) *rfServer {
	if s := p34Servers[proto]; s != nil {
		return s
	}
	log.SetOutput(io.Discard)
	for try := 0; ; try++ {
		s := &rfServer{host: freeHost(), proto: proto, routes: []string{"a"}, err: make(chan error, 1)}
		srv := &ogdlrf.Server{Host: s.host, Timeout: 1, Protocol: proto}
		srv.AddRoute("a", func(_ net.Conn, g *ogdl.Graph) *ogdl.Graph { return g })
		srv.AddRoute("who are you", func(net.Conn, *ogdl.Graph) *ogdl.Graph {
			r := ogdl.New("_")
			r.Add(rfToken)
			return r
		})
		go func() { s.err <- srv.Serve() }()
		if s.ready() {
			p34Servers[proto] = s
			return s
		}
		if try > 20 {
			panic("no server can be started")
		}
	}
}

// baseline waits until what was there before is gone, and counts.
func baseline() (int, int) {
	f, g := openFiles(), runtime.NumGoroutine()
	for i := 0; i < 40; i++ {
		time.Sleep(time.Duration(1+i/4) * time.Millisecond)
		f2, g2 := openFiles(), runtime.NumGoroutine()
		if f2 == f && g2 == g && i > 5 {
			break
		}
		if f2 != f || g2 != g {
			i = 0
		}
		f, g = f2, g2
	}
	return f, g
}

func p34Clients(c *C, what *string) {
	s := p34Server(c.Range(1, 2))
	p34Server(3 - s.proto)
	c.Ev(fmt.Sprint("protocol ", s.proto))
	f0, g0 := baseline()
	n := c.Range(1, 8)
	plans := make([]string, n)
	for i := range plans {
		for j := c.Range(1, 6); j > 0; j-- {
			plans[i] += c.Str("c", "c", "c", "d", "x", "r", "g", "h")
		}
	}
	*what = fmt.Sprint("protocol ", s.proto, ", clients ", plans)
	req := ogdl.FromString("a b\n  " + word(c))
	bin := req.Binary()
	garbage := []byte(rawText(c, c.Range(1, 200), "bc0"))
	var wg sync.WaitGroup
	for i := range plans {
		wg.Add(1)
		go func(plan string) {
			defer wg.Done()
			cl := s.client(s.host)
			defer cl.Close()
			for _, k := range plan {
				switch k {
				case 'c':
					cl.Call(req)
				case 'd':
					cl.Dial()
				case 'x':
					cl.Close()
				default:
					conn, err := net.Dial("tcp", s.host)
					if err != nil {
						continue
					}
					switch k {
					case 'r':
						// half a message
						if s.proto == 2 {
							var l [4]byte
							binenc.BigEndian.PutUint32(l[:], uint32(len(bin)))
							conn.Write(l[:])
						}
						conn.Write(bin[:len(bin)/2])
					case 'g':
						conn.Write(garbage)
					}
					conn.Close()
				}
			}
		}(plans[i])
	}
	wg.Wait()
	all := strings.Join(plans, "")
	c.Ev("clients")
	for k, e := range map[string]string{"c": "calls", "d": "dialled again", "r": "cut off", "g": "garbage sent"} {
		if strings.Contains(all, k) {
			c.Ev(e)
		}
	}
	if f, k, ok := settled(f0, g0); !ok {
		c.Fail("after the clients have left there are %d open files instead of %d, %d goroutines instead of %d\n%s", f, f0, k, g0, stacks())
	}
}

// p34Silent: peers that do not send (the rest of) a message are dropped after the time limit.
func p34Silent(c *C, what *string) {
	s := p34Server(c.Range(1, 2))
	p34Server(3 - s.proto)
	f0, g0 := baseline()
	*what = fmt.Sprint("silent peers, protocol ", s.proto)
	doc := "a b"
	if c.P(75) {
		doc = "a\n"
		for n := c.Range(20, 400); n > 0; n-- {
			doc += "  some_word_" + strconv.Itoa(n) + "\n"
		}
	}
	msg := ogdl.FromString(doc).Binary()
	if len(msg) > 1100 {
		c.Ev("silent within a long message")
	}
	if s.proto == 2 {
		var l [4]byte
		binenc.BigEndian.PutUint32(l[:], uint32(len(msg)))
		msg = append(l[:], msg...)
	}
	type res struct {
		cut  int
		kind string
		err  error
	}
	ch := make(chan res)
	n := c.Range(2, 6)
	whole := msg
	kinds := []string{"part of a message"}
	if s.proto == 2 {
		kinds = append(kinds, "a message of length 0", "a message and another of length 0", "a message that is not a graph", "a message and half of another")
	} else {
		kinds = append(kinds, "a message and half of another")
	}
	for i := 0; i < n; i++ {
		cut := 0
		if i > 0 {
			cut = c.Range(0, len(msg))
		}
		kind, send := kinds[0], msg[:cut]
		if c.P(50) {
			kind = kinds[c.Intn(len(kinds))]
		}
		switch {
		case kind == kinds[0]:
		case strings.HasSuffix(kind, "half of another"):
			send = append(append([]byte(nil), whole...), send...)
		case strings.Contains(kind, "not a graph"):
			send = []byte{0, 0, 0, 3, 'x', 'y', 'z'}
		case strings.Contains(kind, "and"):
			send = append(append([]byte(nil), whole...), 0, 0, 0, 0)
		default:
			send = []byte{0, 0, 0, 0}
		}
		c.Ev(kind)
		go func() {
			conn, err := net.Dial("tcp", s.host)
			if err != nil {
				ch <- res{cut, kind, nil}
				return
			}
			defer conn.Close()
			conn.Write(send)
			conn.SetReadDeadline(time.Now().Add(26 * time.Second))
			_, err = io.Copy(io.Discard, conn)
			if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
				err = nil
			}
			ch <- res{cut, kind, err}
		}()
	}
	for i := 0; i < n; i++ {
		r := <-ch
		if r.err != nil {
			c.Fail("a peer that stays silent after %s (%d of %d bytes) is still connected after 26 seconds, the limit of the server is 1 second", r.kind, r.cut, len(msg))
		}
		c.Ev("silent peers dropped")
	}
	if f, k, ok := settled(f0, g0); !ok {
		c.Fail("after silent peers there are %d open files instead of %d, %d goroutines instead of %d\n%s", f, f0, k, g0, stacks())
	}
}

// p34Mute: a call to a server that does not answer ends with an error.
func p34Mute(c *C, what *string) {
	log.SetOutput(io.Discard)
	*what = "mute server"
	f0, g0 := baseline()
	l, err := net.Listen("tcp", freeHost())
	if err != nil {
		return
	}
	var mu sync.Mutex
	var conns []net.Conn
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns = append(conns, conn)
			mu.Unlock()
		}
	}()
	part := c.Intn(4) // bytes of an answer that are given
	answer := []byte{0, 0, 0, 9}
	if c.P(50) {
		answer = append([]byte{0, 0, byte(c.Intn(100)), 99, 1, 'G', 0, 1, 'a', 0, 2}, strings.Repeat("x", c.Num(3000))...)
		if part = c.Range(4, len(answer)); part > 100+int(answer[2])<<8 {
			part = 50
		}
	}
	cl := &ogdlrf.Client{Host: l.Addr().String(), Timeout: 1, Protocol: 2}
	if part > 0 {
		go func() {
			for i := 0; i < 100; i++ {
				time.Sleep(5 * time.Millisecond)
				mu.Lock()
				if len(conns) > 0 {
					conns[0].Write(answer[:part])
					mu.Unlock()
					return
				}
				mu.Unlock()
			}
		}()
	}
	t0 := time.Now()
	done := make(chan error, 1)
	go func() {
		_, err := cl.Call(ogdl.FromString("a b"))
		done <- err
	}()
	select {
	case err = <-done:
	case <-time.After(40 * time.Second):
		c.Fail("a call to a server that does not answer has not ended after 40 seconds, the limit of the client is 1 second\n%s", stacks())
	}
	if err == nil {
		c.Fail("a call to a server that does not answer succeeds")
	}
	_ = t0
	cl.Close()
	l.Close()
	mu.Lock()
	for _, k := range conns {
		k.Close()
	}
	mu.Unlock()
	c.Ev("mute servers given up")
	time.Sleep(time.Duration(part%4) * time.Millisecond)
	if f, k, ok := settled(f0, g0); !ok {
		c.Fail("after a call without answer there are %d open files instead of %d, %d goroutines instead of %d\n%s", f, f0, k, g0, stacks())
	}
}

// p34Memory repeats an operation and counts the objects that stay.
func p34Memory(c *C, what *string) {
	voc := treeNames(c)
	t := shape(c, c.Range(1, 12), func(int) interface{} { return voc() })
	t.Add("n").Add(int64(5))
	t.Add("l").Add("x")
	t.Node("l").Add("y")
	t.Add("f").Add(func(a int64) int64 { return a + 1 })
	g := t.Graph()
	sg := t.Graph()
	for i := range sg.Out {
		if sg.Out[i].ThisString() == "f" {
			sg.Out = append(sg.Out[:i], sg.Out[i+1:]...)
			break
		}
	}
	doc := sg.Text()
	bin := sg.Binary()
	jsn := sg.JSON()
	tm := ogdl.NewTemplate("a $n b $if(n==5)x$else y$end $for(i,l)<$i>$end $f(n)")
	path := ogdl.NewPath("l[n-4]")
	expr := ogdl.NewExpression("n*2+f(n)")
	schema := ogdl.FromString("n !int\nl !string")
	dir := filepath.Join(c.Tmp, "p34m")
	u := func(i int) string { return fmt.Sprintf("u%d_%d", c.Idx, i) }
	ops := map[string]func(i int){
		"FromString":           func(i int) { ogdl.FromString(u(i) + "\n" + doc) },
		"FromStringTypes":      func(i int) { ogdl.FromStringTypes(u(i) + " 1 2.5 true\n" + doc) },
		"FromReader":           func(i int) { ogdl.FromReader(strings.NewReader(u(i) + "\n" + doc)) },
		"FromBinary":           func(i int) { ogdl.FromBinary(bin) },
		"FromJSON":             func(i int) { ogdl.FromJSON([]byte(`{"` + u(i) + `":[1,2,{"a":"` + u(i) + `"}]}`)); ogdl.FromJSON(jsn) },
		"FromXML":              func(i int) { gxml.FromXML([]byte("<a id='" + u(i) + "'><" + u(i) + "/>" + u(i) + "</a>")) },
		"NewPath and Eval":     func(i int) { sg.Eval(ogdl.NewPath("l." + u(i))) },
		"Get":                  func(i int) { sg.Get("a." + u(i)); sg.Get("l[1]"); sg.Get("n") },
		"typed lookups":        func(i int) { sg.GetInt64("n"); sg.GetString(u(i)); sg.GetFloat64("n"); sg.GetBool(u(i)) },
		"NewExpression":        func(i int) { g.Eval(ogdl.NewExpression("n+'" + u(i) + "'")) },
		"Eval path":            func(i int) { g.Eval(path) },
		"Eval expression":      func(i int) { g.Eval(expr) },
		"NewTemplate, Process": func(i int) { ogdl.NewTemplate("$n " + u(i) + " $" + u(i) + " $if(n>" + u(i) + ")a$end").Process(g) },
		"Process":              func(i int) { tm.Process(g) },
		"Text":                 func(i int) { sg.Text(); sg.Show() },
		"Binary":               func(i int) { sg.Binary() },
		"JSON":                 func(i int) { sg.JSON() },
		"Html":                 func(i int) { sg.Html("/" + u(i)) },
		"Clone":                func(i int) { k := sg.Clone(); k.Add(u(i)); k.Equals(sg) },
		"Check":                func(i int) { schema.Check(sg) },
		"Find":                 func(i int) { sg.Find(u(i) + "|n") },
		"Set and Delete":       func(i int) { sg.Set(u(i)+".a", i); sg.Delete(u(i)) },
		"Add and DeleteAt":     func(i int) { sg.Add(u(i)).Add(u(i)); sg.DeleteAt(sg.Len() - 1) },
		"NodeSet":              func(i int) { sg.NodeSet("l", u(i)) },
		"SetAssign":            func(i int) { g.Eval(ogdl.NewExpression("q='" + u(i) + "'")) },
		"Merge":                func(i int) { k := sg.Clone(); k.Merge(ogdl.FromString(u(i) + " a\nn 4")) },
		"Sort":                 func(i int) { k := sg.Clone(); k.Sort(u(i)); k.SortAsInt("n") },
		"accessors": func(i int) {
			sg.Node("l").Strings()
			sg.StringCSV()
			sg.Int64()
			sg.Scalar()
			sg.Number()
			sg.Bytes()
		},
		"lexer": func(i int) {
			p := ogdl.NewLexer(strings.NewReader(u(i) + " 12 'a b'"))
			p.Token8()
			p.Space()
			p.Number()
			p.Quoted(0)
		},
		"parser events": func(i int) { p := ogdl.NewParser(bytes.NewReader(nil)); p.Emit(u(i)); p.Inc(); p.Emit("x"); p.Graph() },
		"log": func(i int) {
			if i%20 != 0 {
				return
			}
			l, err := ogdl.OpenLog(dir)
			if err == nil {
				l.Add(sg)
				l.Get(0)
				l.Close()
			}
		},
	}
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sortStrings(names)
	name := names[c.Intn(len(names))]
	*what = "repeated " + name + " on " + t.String()
	op := ops[name]
	defer os.RemoveAll(dir)
	const rounds, per = 4, 800
	var objs [rounds + 1]uint64
	k := 0
	do := func(n int) {
		for j := 0; j < n; j++ {
			op(k)
			k++
		}
	}
	count := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapObjects
	}
	do(100)
	for r := 0; r <= rounds; r++ {
		objs[r] = count()
		if r < rounds {
			do(per)
		}
		if r > 0 && objs[r] < objs[r-1]+per/2 {
			// it does not grow
			c.Ev("repeated operations")
			return
		}
	}
	c.Fail("%s, repeated %d times, leaves more and more objects: %v", name, rounds*per, objs)
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var _ = ref.Str

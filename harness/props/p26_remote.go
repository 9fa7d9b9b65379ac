package props

import (
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P26",
		Rule:  "several clients, each in a goroutine, doing calls (with reconnections in between) to a server with several registered names, over both protocols, under the race detector; every call has a request and an answer of its own, of random shape, content and size, and the handler checks the request and counts its runs. Non-trivial: at least 2 calls; distinct by requests and answers.",
		Quick: 1500, Thoro: 100000, Case: p26, Race: true, CPU: 200,
		Must:   []string{"protocol 1", "protocol 2", "calls", "not found", "concurrent clients", "calls on one connection", "reconnected", "big request", "big answer", "binary content", "own server", "serve with a function", "overlapping handlers", "over 16 million", "calls across the time limit", "more than a hundred connections", "handlers slower than the time limit of the server", "a length that is a power of two"},
		Assume: []string{"empty requests and answers are outside of the domain"},
	})
	core.Register(&core.Prop{
		ID:    "P27",
		Rule:  "clients that call through a proxy that splits and delays what it forwards, and closes, resets or holds connections at random bytes of requests and answers, next to undisturbed clients and to peers that send garbage, truncated and oversized messages; and clients of peers that answer garbage. Under the race detector. Calls without an error must give the own answer, calls without faults must succeed, also on a client whose calls failed before. Non-trivial: every case; distinct by faults and requests.",
		Quick: 800, Thoro: 50000, Case: p27, Race: true, CPU: 200,
		Must:   []string{"protocol 1", "protocol 2", "fragmented", "cut request", "cut answer", "refused connection", "reset", "failed calls", "calls that survived a fault", "calls after a fault", "garbage", "truncated message", "oversized length", "held answer", "undisturbed calls", "bad server", "deep messages", "used for long", "messages on a connection in use"},
		Assume: []string{"empty requests and answers are outside of the domain", "a connection whose requests are cut may run a handler more than once, as the client tries again"},
	})
}

type rfCall struct {
	id    string
	route string
	req   *T
	resp  *T
	runs  int32
	bad   atomic.Value // string: what was wrong with the request as seen by the handler
	delay time.Duration
}

// rfTable knows all calls by their number.
var rfTable struct {
	sync.Mutex
	m      map[string]*rfCall
	active int
	over   int
}

var rfOnce sync.Once
var rfToken = fmt.Sprintf("token-%d-%d", os.Getpid(), time.Now().UnixNano())

// rfHandler is what all names do; the answer tells which one ran.
func rfHandler(route string) ogdlrf.Function {
	return func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		if g.Len() == 0 || g.Out[0].Len() == 0 {
			return ogdl.FromString("unexpected")
		}
		id := g.Out[0].Out[0].ThisString()
		rfTable.Lock()
		k := rfTable.m[id]
		rfTable.active++
		if rfTable.active > 1 {
			rfTable.over++
		}
		rfTable.Unlock()
		defer func() {
			rfTable.Lock()
			rfTable.active--
			rfTable.Unlock()
		}()
		if k == nil {
			return ogdl.FromString("unknown")
		}
		atomic.AddInt32(&k.runs, 1)
		if d := ref.DiffOut(k.req.Skip(), ref.From(g), ref.SameText); d != "" {
			k.bad.Store("the handler gets another request: " + d)
		}
		if c == nil || c.RemoteAddr() == nil {
			k.bad.Store("the handler gets no connection")
		}
		if k.delay > 0 {
			time.Sleep(k.delay)
		}
		r := ogdl.New("_")
		r.Add("route").Add(route)
		r.Add("id").Add(id)
		for _, o := range k.resp.Graph().Out {
			r.Out = append(r.Out, o)
		}
		return r
	}
}

// answer is what a call should return.
func (k *rfCall) answer() *T {
	r := N("_", N("route", N(k.route)), N("id", N(k.id)))
	r.Out = append(r.Out, k.resp.Out...)
	return r.Skip()
}

type rfServer struct {
	host   string
	proto  int
	routes []string
	err    chan error
	func1  bool // a plain function, that answers all requests
}

func freeHost() string {
	pid := os.Getpid()
	ip := fmt.Sprintf("127.%d.%d.%d", 1+pid>>14&63, pid>>7&127, 1+pid&127)
	l, err := net.Listen("tcp", ip+":0")
	if err != nil {
		l, err = net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
	}
	defer l.Close()
	return l.Addr().String()
}

func startServer(proto int, routes []string, plain bool, timeout int) *rfServer {
	rfOnce.Do(func() {
		log.SetOutput(io.Discard)
		rfTable.m = map[string]*rfCall{}
	})
	for try := 0; ; try++ {
		s := &rfServer{host: freeHost(), proto: proto, routes: routes, err: make(chan error, 1), func1: plain}
		if plain {
			f := rfHandler("plain")
			h := func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
				if len(g.Out) > 0 && g.Out[0].ThisString() == "who are you" {
					r := ogdl.New("_")
					r.Add(rfToken)
					return r
				}
				return f(c, g)
			}
			go func() {
				if proto == 1 {
					s.err <- ogdlrf.Serve1(s.host, h, timeout)
				} else {
					s.err <- ogdlrf.Serve(s.host, h, timeout)
				}
			}()
		} else {
			srv := &ogdlrf.Server{Host: s.host, Timeout: timeout, Protocol: proto}
			srv.AddRoute("who are you", func(net.Conn, *ogdl.Graph) *ogdl.Graph {
				r := ogdl.New("_")
				r.Add(rfToken)
				return r
			})
			// the handler of a name is the last one registered
			for i, n := range routes {
				if i%2 == 0 {
					srv.AddRoute(n, rfHandler("replaced"))
				}
			}
			for i := range routes {
				n := routes[len(routes)-1-i]
				srv.AddRoute(n, rfHandler(n))
			}
			go func() { s.err <- srv.Serve() }()
		}
		if s.ready() {
			return s
		}
		if try > 20 {
			panic("no server can be started")
		}
	}
}

// ready waits for the server, and makes sure that it is the one.
func (s *rfServer) ready() bool {
	for i := 0; i < 400; i++ {
		select {
		case <-s.err:
			return false
		default:
		}
		conn, err := net.DialTimeout("tcp", s.host, 5*time.Second)
		if err != nil {
			time.Sleep(time.Duration(i+1) * 100 * time.Microsecond)
			continue
		}
		conn.Close()
		break
	}
	cl := s.client(s.host)
	defer cl.Close()
	g, err := cl.Call(ogdl.FromString("'who are you'"))
	return err == nil && g.Len() == 1 && g.Out[0].ThisString() == rfToken
}

func (s *rfServer) client(host string) *ogdlrf.Client {
	return &ogdlrf.Client{Host: host, Timeout: 120, Protocol: s.proto}
}

var rfShared = map[int]*rfServer{}

// rfGet gives a server: one of those that serve many cases, or a new one.
func rfGet(c *C, own bool) *rfServer {
	proto := c.Range(1, 2)
	if own {
		c.Ev("own server")
		if c.P(40) {
			c.Ev("serve with a function")
			return startServer(proto, []string{"plain"}, true, 120)
		}
		var routes []string
		used := map[string]bool{"who are you": true}
		for i := c.Range(1, 5); i > 0; i-- {
			n := text(c, true)
			if c.P(50) {
				n = word(c)
			}
			if n != "" && !used[n] {
				used[n] = true
				routes = append(routes, n)
			}
		}
		if c.One(4) {
			// names that differ only at the end, or only at the beginning
			n := []int{7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 257, 1000, 4096, 65536}[c.Intn(18)]
			long := strings.Repeat(c.Str("a", "é", "a ", "/x", "."), n)[:n]
			for _, d := range []string{"1", "2"} {
				m := long + d
				if c.P(30) {
					m = d + long
				}
				if !used[m] && utf8.ValidString(m) {
					used[m] = true
					routes = append(routes, m)
				}
			}
			c.Ev("long names")
		}
		if len(routes) == 0 {
			routes = []string{"a"}
		}
		return startServer(proto, routes, false, 120)
	}
	if rfShared[proto] == nil {
		rfShared[proto] = startServer(proto, []string{"a", "b", "a b", "é", "5", "echo", "abc", "ab", "A", "a.b", "error", "not\nfound"}, false, 120)
	}
	return rfShared[proto]
}

func rfTree(c *C) *T {
	n := c.Intn(8)
	switch c.Intn(12) {
	case 0:
		n = c.Size(300)
	case 1:
		n = c.Num(40)
	}
	emptyP := c.Intn(2) * c.Intn(20)
	t := shape(c, n, func(int) interface{} {
		if c.P(emptyP) {
			return ""
		}
		if c.P(50) {
			return word(c)
		}
		return binContent(c)
	})
	if c.One(10) {
		x := t
		for n := c.Range(30, 300); n > 0; n-- {
			x = x.Add(c.Str("x", "deep", "é", "0"))
			if c.One(5) {
				x.Add("leaf")
			}
		}
		c.Ev("deep messages")
	}
	if c.One(30) {
		n := c.Num(300000)
		if c.One(3) {
			n = []int{1, 2, 4, 16, 64, 256}[c.Intn(6)]*4096 + c.Range(-20, 20)
		}
		w := word(c) + c.Str("", "\x00", " ")
		t.Add(strings.Repeat(w, n/len(w)+1))
	}
	return t
}

var rfSeq int64

func (s *rfServer) call(c *C) *rfCall {
	id := fmt.Sprintf("%d", atomic.AddInt64(&rfSeq, 1))
	k := &rfCall{id: id, route: s.routes[c.Intn(len(s.routes))], req: rfTree(c), resp: rfTree(c)}
	name := k.route
	if s.func1 {
		name = word(c)
		if name == "who are you" {
			name = "x"
		}
	}
	first := N(name, N(id))
	// the request begins with the name and the number of the call
	k.req.Out = append([]*T{first}, k.req.Out...)
	if c.P(25) {
		first.Out = append(first.Out, k.resp.Out...)
	}
	if c.One(4) {
		k.delay = time.Duration(c.Intn(800)) * time.Microsecond
	}
	rfTable.Lock()
	rfTable.m[id] = k
	rfTable.Unlock()
	return k
}

func forget(calls []*rfCall) {
	rfTable.Lock()
	for _, k := range calls {
		delete(rfTable.m, k.id)
	}
	rfTable.Unlock()
}

func treeBytes(t *T) int {
	n := 0
	t.Walk(func(k *T) { n += len(ref.Str(k.V)) + 3 })
	return n
}

func (k *rfCall) describe() string {
	return fmt.Sprintf("%q: request %s (%d bytes), answer %s (%d bytes)", k.route, core.Sample(k.req.String()), treeBytes(k.req), core.Sample(k.resp.String()), treeBytes(k.resp))
}

// p26 does calls without faults.
func p26(c *C) {
	s := rfGet(c, c.One(12))
	c.Ev(fmt.Sprintf("protocol %d", s.proto))
	nc := []int{1, 1, 2, 3, 5, 8}[c.Intn(6)]
	type step struct {
		k      *rfCall
		miss   *T // a request to a name that is not registered
		close  bool
		pause  int
		result string
	}
	// Calls that take longer together, but not each, than a client or a connection has
	limit, delay, slow := 0, time.Duration(0), 0
	if c.Idx%299 == 11 {
		nc = c.Range(1, 3)
		if s.proto == 1 {
			delay, slow = 1400*time.Millisecond, 8 // the limit is ten seconds
		} else {
			limit, delay, slow = 6, 1700*time.Millisecond, 4
		}
	}
	// Handlers that take longer than the server waits for a message
	patient := c.Idx%503 == 37
	if patient {
		s = startServer(c.Range(1, 2), []string{"a", "b"}, false, 3)
		nc, limit = c.Range(1, 3), 0
		delay, slow = 3700*time.Millisecond, 1
	}
	// Many clients that are all connected at the same time
	many := c.Idx%199 == 23
	if many {
		nc = c.Range(150, 400)
	}
	plan := make([][]*step, nc)
	var all []*rfCall
	var h uint64
	registered := map[string]bool{"who are you": true}
	for _, r := range s.routes {
		registered[r] = true
	}
	for i := range plan {
		n := c.Range(1, 7)
		if slow > 0 {
			n = slow
		}
		if many {
			n = c.Range(1, 2)
		}
		for ; n > 0; n-- {
			st := &step{close: c.One(7) && slow == 0, pause: c.Intn(8)}
			if c.One(8) && !s.func1 && slow == 0 {
				name := word(c)
				if c.P(40) {
					name = s.routes[0] + c.Str(" ", "x", ".", "\n", "\x00")
				}
				if registered[name] {
					name = "nobody"
				}
				st.miss = rfTree(c)
				st.miss.Out = append([]*T{N(name, N("x"))}, st.miss.Out...)
			} else {
				st.k = s.call(c)
				if slow > 0 {
					st.k.delay = delay
				}
				all = append(all, st.k)
				h = core.Hash(h, []byte(st.k.req.Out[0].String()+st.k.resp.String()))
			}
			plan[i] = append(plan[i], st)
		}
	}
	defer forget(all)
	if c.Idx%79 == 7 && len(all) > 0 && s.proto == 2 { // protocol 1 has a fixed limit of ten seconds
		// More than three bytes can tell
		t := all[0].req
		if c.One(3) {
			t = all[0].resp
		}
		w := word(c) + " "
		t.Add(strings.Repeat(w, (1<<24+c.Intn(1<<20))/len(w)+1))
		c.Ev("over 16 million")
	}
	for _, k := range all {
		// Messages of a length that is a power of two, or a multiple, or next to one
		if many || !c.One(8) {
			continue
		}
		t := k.req
		if c.P(50) {
			t = k.resp
		}
		if len(t.Out) == 0 {
			continue
		}
		size := 1 << uint(c.Range(7, 17)) * c.Range(1, 3)
		delta := []int{0, 0, 0, 0, 1, -1, 2, -2, -4, 4}[c.Intn(10)]
		if n := size + delta - len(t.Graph().Binary()) - 2; n > 0 {
			t.Add(strings.Repeat("x", n))
			if len(t.Graph().Binary()) == size {
				c.Ev("a length that is a power of two")
			}
		}
	}
	c.Info = func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "protocol %d, %d clients\n", s.proto, nc)
		for i, p := range plan {
			for _, st := range p {
				if st.k != nil {
					fmt.Fprintf(&b, "client %d: %s\n", i, st.k.describe())
				} else {
					fmt.Fprintf(&b, "client %d: unregistered %s\n", i, core.Sample(st.miss.String()))
				}
			}
		}
		return b.String()
	}
	notFound := N("_", N("error", N("notFound")))
	var wg, first sync.WaitGroup
	if many {
		first.Add(nc)
	}
	for i := range plan {
		wg.Add(1)
		go func(p []*step) {
			defer wg.Done()
			cl := s.client(s.host)
			defer cl.Close()
			var once sync.Once
			called := func() {
				if many {
					once.Do(first.Done)
				}
			}
			defer called()
			if limit > 0 {
				cl.Timeout = limit
			}
			if many {
				cl.Timeout = 40
			}
			for _, st := range p {
				func() {
					defer func() {
						if e := recover(); e != nil {
							b := make([]byte, 8192)
							st.result = fmt.Sprint("panic: ", e, "\n", string(b[:runtime.Stack(b, false)]))
						}
					}()
					req, want := st.miss, notFound
					if st.k != nil {
						req, want = st.k.req, st.k.answer()
					}
					g, err := cl.Call(req.Graph())
					if err != nil {
						st.result = "the call fails: " + err.Error()
						return
					}
					if d := ref.DiffOut(want, ref.From(g), ref.SameText); d != "" {
						st.result = "the answer is not the one given: " + d
					}
				}()
				if st.result != "" {
					return
				}
				if many {
					// keep the connection until everybody has one
					called()
					first.Wait()
				}
				if st.close {
					cl.Close()
				}
				if st.pause == 0 {
					runtime.Gosched()
				}
			}
		}(plan[i])
	}
	wg.Wait()
	calls := 0
	for i, p := range plan {
		open := 0
		for j, st := range p {
			what := "call to an unregistered name"
			if st.k != nil {
				what = st.k.describe()
			}
			if st.result != "" {
				c.Fail("client %d, call %d (%s): %s", i, j, what, st.result)
			}
			if st.k == nil {
				c.Ev("not found")
			} else {
				if n := atomic.LoadInt32(&st.k.runs); n != 1 {
					c.Fail("client %d, call %d: the handler ran %d times (%s)", i, j, n, what)
				}
				if b := st.k.bad.Load(); b != nil {
					c.Fail("client %d, call %d: %s (%s)", i, j, b, what)
				}
				if treeBytes(st.k.req) > 4096 {
					c.Ev("big request")
				}
				if treeBytes(st.k.resp) > 4096 {
					c.Ev("big answer")
				}
				bin := false
				st.k.req.Walk(func(t *T) {
					if strings.IndexByte(ref.Str(t.V), 0) >= 0 {
						bin = true
					}
				})
				if bin {
					c.Ev("binary content")
				}
			}
			calls++
			c.Ev("calls")
			open++
			if open > 2 {
				c.Ev("calls on one connection")
			}
			if st.close && j < len(p)-1 {
				c.Ev("reconnected")
				open = 0
			}
		}
	}
	if patient {
		c.Ev("handlers slower than the time limit of the server")
	} else if slow > 0 {
		c.Ev("calls across the time limit")
	}
	if many {
		c.Ev("more than a hundred connections")
	}
	if nc > 1 {
		c.Ev("concurrent clients")
	}
	rfTable.Lock()
	c.EvN("overlapping handlers", rfTable.over)
	rfTable.over = 0
	rfTable.Unlock()
	if calls > 1 {
		c.Seen(h)
	}
}

// ---------------------------------------------------------------------------

// fault is what happens to a connection that goes through the proxy.
type fault struct {
	req, resp int           // bytes forwarded of each direction before the connection is cut; -1: all
	reset     bool          // cut with a reset
	hold      time.Duration // the answer is held for this time
	frag      int           // pieces of at most this many bytes (0: as they come)
	delay     time.Duration // between pieces, for the first ones
	skip      int           // bytes before the pieces begin
}

func (f fault) String() string {
	return fmt.Sprintf("{request %d, answer %d, reset %v, hold %v, pieces of %d after %d, delay %v}", f.req, f.resp, f.reset, f.hold, f.frag, f.skip, f.delay)
}

// proxy forwards connections to a server.
type proxy struct {
	l    net.Listener
	to   string
	mu   sync.Mutex
	plan []fault
	rest fault
	used int
	open map[net.Conn]bool
	rnd  *core.Rand
}

func newProxy(c *C, to string, plan []fault, rest fault) *proxy {
	host, _, _ := net.SplitHostPort(to)
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		panic(err)
	}
	p := &proxy{l: l, to: to, plan: plan, rest: rest, open: map[net.Conn]bool{}, rnd: c.Fork()}
	go func() {
		for {
			a, err := l.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			f := p.rest
			if p.used < len(p.plan) {
				f = p.plan[p.used]
			}
			p.used++
			p.open[a] = true
			rnd := p.rnd.Fork()
			p.mu.Unlock()
			go p.serve(a, f, rnd)
		}
	}()
	return p
}

// calm lets all new connections pass.
func (p *proxy) calm() {
	p.mu.Lock()
	p.plan = nil
	p.mu.Unlock()
}

func (p *proxy) close() {
	p.l.Close()
	p.mu.Lock()
	for k := range p.open {
		k.Close()
	}
	p.mu.Unlock()
}

func (p *proxy) serve(a net.Conn, f fault, rnd *core.Rand) {
	cut := func() {
		if f.reset {
			a.(*net.TCPConn).SetLinger(0)
		}
		a.Close()
	}
	defer func() {
		p.mu.Lock()
		delete(p.open, a)
		p.mu.Unlock()
	}()
	if f.req == 0 {
		cut()
		return
	}
	b, err := net.Dial("tcp", p.to)
	if err != nil {
		a.Close()
		return
	}
	defer b.Close()
	p.mu.Lock()
	p.open[b] = true
	p.mu.Unlock()
	done := make(chan bool, 2)
	var once sync.Once
	pump := func(dst, src net.Conn, limit int, hold time.Duration, rnd *core.Rand) {
		defer func() { done <- true }()
		buf := make([]byte, 16384)
		sent, pieces := 0, 0
		for {
			n, err := src.Read(buf)
			d := buf[:n]
			if n > 0 && hold > 0 {
				time.Sleep(hold)
				hold = 0
			}
			for len(d) > 0 {
				k := len(d)
				if sent < f.skip && k > f.skip-sent {
					k = f.skip - sent // whole, up to here
				} else if f.frag > 0 && pieces < 200 && k > f.frag {
					k = 1 + rnd.Intn(f.frag)
				}
				if limit >= 0 && sent+k >= limit {
					k = limit - sent
					dst.Write(d[:k])
					once.Do(cut)
					b.Close()
					return
				}
				if _, err := dst.Write(d[:k]); err != nil {
					return
				}
				sent += k
				pieces++
				d = d[k:]
				if f.delay > 0 && pieces < 60 {
					time.Sleep(f.delay)
				}
			}
			if err != nil {
				return
			}
		}
	}
	go pump(b, a, f.req, 0, rnd.Fork())
	go pump(a, b, f.resp, f.hold, rnd.Fork())
	<-done
	once.Do(func() { a.Close() })
	b.Close()
	<-done
	p.mu.Lock()
	delete(p.open, b)
	p.mu.Unlock()
}

func calmFault(c *C) fault {
	f := fault{req: -1, resp: -1}
	switch c.Intn(4) {
	case 0:
		f.frag = []int{1, 2, 3, 7, 100, 2000}[c.Intn(6)]
	case 1:
		f.frag = []int{1, 5, 50, 1000}[c.Intn(4)]
		f.delay = time.Duration(c.Intn(400)) * time.Microsecond
		f.skip = c.Intn(2) * c.Num(3000)
	case 2:
		f.hold = time.Duration(c.Intn(3000)) * time.Microsecond
	}
	return f
}

// length is the number of bytes of a message.
func (k *rfCall) length(proto int, t *T) int {
	n := len(ref.EncodeBinary(t.Skip(), nil))
	if proto != 1 {
		n += 4
	}
	return n
}

func p27(c *C) {
	if c.Idx%199 == 23 {
		p27used(c)
		return
	}
	if c.One(6) {
		p27badServer(c)
		return
	}
	s := rfGet(c, c.One(25))
	c.Ev(fmt.Sprintf("protocol %d", s.proto))
	var notes []string
	var nmu sync.Mutex
	note := func(f string, a ...interface{}) {
		nmu.Lock()
		notes = append(notes, fmt.Sprintf(f, a...))
		nmu.Unlock()
	}
	c.Info = func() string {
		nmu.Lock()
		defer nmu.Unlock()
		return fmt.Sprintf("protocol %d\n", s.proto) + strings.Join(notes, "\n")
	}
	var alloc int64 = allocated()
	sent := 0

	var all []*rfCall
	newCall := func() *rfCall {
		k := s.call(c)
		all = append(all, k)
		sent += 3*treeBytes(k.req) + 3*treeBytes(k.resp)
		return k
	}
	defer func() { forget(all) }()

	var wg sync.WaitGroup
	fails := make(chan string, 1000)
	guard := func(name string, f func() string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					b := make([]byte, 8192)
					fails <- fmt.Sprint(name, ": panic: ", e, "\n", string(b[:runtime.Stack(b, false)]))
				}
			}()
			if r := f(); r != "" {
				fails <- name + ": " + r
			}
		}()
	}
	try := func(cl *ogdlrf.Client, k *rfCall) (bool, string) {
		g, err := cl.Call(k.req.Graph())
		if err != nil {
			return false, ""
		}
		if d := ref.DiffOut(k.answer(), ref.From(g), ref.SameText); d != "" {
			return true, "the answer to " + k.describe() + " is not its own: " + d + "\nanswer " + core.Sample(ref.From(g).String())
		}
		return true, ""
	}

	// disturbed clients
	var proxies []*proxy
	defer func() {
		for _, p := range proxies {
			p.close()
		}
	}()
	for n := c.Range(1, 2); n > 0; n-- {
		kind := c.Intn(8)
		timeout := 120
		var plan []fault
		before := []*rfCall{}
		for i := c.Range(1, 3); i > 0; i-- {
			before = append(before, newCall())
		}
		faults := c.Range(1, 5)
		switch {
		case kind < 2:
			// no faults, only pieces and delays
			c.Ev("fragmented")
			faults = 0
		case kind == 2 && s.proto == 2 && c.One(3):
			// longer than the client waits
			timeout = 1
			for i := c.Range(1, 2); i > 0; i-- {
				plan = append(plan, fault{req: -1, resp: -1, hold: time.Duration(c.Range(1000, 1400)) * time.Millisecond})
			}
			faults = len(plan)
			c.Ev("held answer")
		default:
			for i := 0; i < faults; i++ {
				f := calmFault(c)
				f.hold = 0
				k := before[c.Intn(len(before))]
				f.reset = c.P(30)
				if f.reset {
					c.Ev("reset")
				}
				switch c.Intn(4) {
				case 0:
					f.req = 0
					c.Ev("refused connection")
				case 1:
					m := k.length(s.proto, k.req)
					f.req = 1 + c.Intn(m+3)
					if c.P(30) {
						f.req = 1 + c.Intn(8)
					}
					c.Ev("cut request")
				default:
					m := k.length(s.proto, k.answer())
					f.resp = c.Intn(m + 1)
					if c.P(30) {
						f.resp = c.Intn(8)
					}
					c.Ev("cut answer")
				}
				plan = append(plan, f)
			}
		}
		rest := calmFault(c)
		p := newProxy(c, s.host, plan, rest)
		proxies = append(proxies, p)
		cl := s.client(p.l.Addr().String())
		cl.Timeout = timeout
		after := []*rfCall{newCall(), newCall()}
		note("client through a proxy, time out %d, faults %v, then %v; %d calls, 2 later", timeout, plan, rest, len(before))
		closeFirst := c.One(5)
		guard("disturbed client", func() string {
			defer cl.Close()
			for i, k := range before {
				ok, bad := try(cl, k)
				if bad != "" {
					return bad
				}
				if !ok {
					if faults == 0 {
						return fmt.Sprintf("call %d (%s) fails, though nothing was lost", i, k.describe())
					}
					c.Ev("failed calls")
				} else if faults > 0 {
					c.Ev("calls that survived a fault")
				}
				if n := atomic.LoadInt32(&k.runs); faults == 0 && n != 1 {
					return fmt.Sprintf("the handler of call %d ran %d times", i, n)
				} else if ok && n == 0 {
					return fmt.Sprintf("call %d was answered but its handler did not run", i)
				}
				if b := k.bad.Load(); b != nil {
					return b.(string)
				}
			}
			p.calm()
			if timeout == 1 {
				cl.Timeout = 120
				// an answer that is still on its way must not be taken for that of the next call
				if closeFirst {
					time.Sleep(1500 * time.Millisecond)
				}
			} else if closeFirst {
				cl.Close()
			}
			for i, k := range after {
				ok, bad := try(cl, k)
				if bad != "" {
					return bad
				}
				if !ok {
					return fmt.Sprintf("call %d (%s) fails, though the faults are over", i, k.describe())
				}
				if b := k.bad.Load(); b != nil {
					return b.(string)
				}
				c.Ev("calls after a fault")
			}
			return ""
		})
	}

	// undisturbed clients
	for n := c.Intn(3); n > 0; n-- {
		ks := []*rfCall{}
		for i := c.Range(1, 4); i > 0; i-- {
			ks = append(ks, newCall())
		}
		cl := s.client(s.host)
		guard("undisturbed client", func() string {
			defer cl.Close()
			for i, k := range ks {
				ok, bad := try(cl, k)
				if bad != "" {
					return bad
				}
				if !ok {
					return fmt.Sprintf("call %d (%s) fails", i, k.describe())
				}
				if n := atomic.LoadInt32(&k.runs); n != 1 {
					return fmt.Sprintf("the handler of call %d ran %d times", i, n)
				}
				c.Ev("undisturbed calls")
			}
			return ""
		})
	}

	// bad peers
	for n := c.Intn(4); n > 0; n-- {
		b := badMessage(c, s)
		sent += len(b)
		note("peer that sends %.100q (%d bytes)", b, len(b))
		linger, reset := c.Intn(3), c.One(3)
		guard("bad peer", func() string {
			conn, err := net.Dial("tcp", s.host)
			if err != nil {
				return "the server cannot be reached: " + err.Error()
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(100 * time.Second))
			conn.Write(b)
			if linger > 0 {
				time.Sleep(time.Duration(linger) * time.Millisecond)
			}
			if reset {
				conn.(*net.TCPConn).SetLinger(0)
				return ""
			}
			if linger > 1 {
				conn.(*net.TCPConn).CloseWrite()
				io.Copy(io.Discard, conn)
			}
			return ""
		})
	}
	wg.Wait()

	// the server is still there
	k := newCall()
	cl := s.client(s.host)
	defer cl.Close()
	if ok, bad := try(cl, k); !ok || bad != "" {
		c.Fail("a call (%s) after all others fails %s", k.describe(), bad)
	}
	select {
	case f := <-fails:
		c.Fail("%s", f)
	default:
	}
	select {
	case err := <-s.err:
		c.Fail("the server ends: %v", err)
	default:
	}
	if d := allocated() - alloc; d > 300<<20+400*int64(sent) {
		c.Fail("%d bytes have been allocated for %d bytes of messages", d, sent)
	}
	c.SeenStr(strings.Join(notes, "\n"))
}

// p27used has connections that are used for longer than the server waits for
// a message, but never without one for that long, and a client that is not.
func p27used(c *C) {
	const limit = 3
	c.Ev("used for long")
	proto := c.Range(1, 2)
	s := (*rfServer)(nil)
	if c.P(30) {
		s = startServer(proto, []string{"plain"}, true, limit)
	} else {
		s = startServer(proto, []string{"a", "b"}, false, limit)
	}
	var calls []*rfCall
	defer func() { forget(calls) }()
	c.Info = func() string {
		return fmt.Sprintf("protocol %d, a connection used once per second, of a server that waits %d s", proto, limit)
	}
	for i := 0; i < 6; i++ {
		k := s.call(c)
		k.delay = 0
		calls = append(calls, k)
	}
	fails := make(chan string, 3)
	// a client that has to wait for each answer, for less than it is willing to, but for
	// longer than that in total
	var slow []*rfCall
	defer func() { forget(slow) }()
	for i := 0; i < 5; i++ {
		k := s.call(c)
		k.delay = 800 * time.Millisecond
		slow = append(slow, k)
	}
	go func() {
		cl := s.client(s.host)
		cl.Timeout = limit
		defer cl.Close()
		for i, k := range slow {
			t := time.Now()
			g, err := cl.Call(k.req.Graph())
			if time.Since(t) > (limit-1)*time.Second {
				break // too slow to tell
			}
			if err != nil {
				fails <- fmt.Sprintf("call %d of a client that waits %d s, answered after 0.8 s, fails: %v", i, limit, err)
				return
			}
			if d := ref.DiffOut(k.answer(), ref.From(g), ref.SameText); d != "" {
				fails <- fmt.Sprintf("call %d of a client that waits %d s: the answer is not the one given: %s", i, limit, d)
				return
			}
			if n := atomic.LoadInt32(&k.runs); n != 1 {
				fails <- fmt.Sprintf("call %d of a client that waits %d s, answered after 0.8 s: the handler ran %d times", i, limit, n)
				return
			}
		}
		fails <- ""
	}()
	// a client that leaves its connection alone until the server closes it
	late := calls[4:]
	go func() {
		cl := s.client(s.host)
		defer cl.Close()
		for i, k := range late {
			if i > 0 {
				time.Sleep((limit*1000 + 600) * time.Millisecond)
			}
			g, err := cl.Call(k.req.Graph())
			if err != nil {
				fails <- fmt.Sprintf("call %d of a client, after a while, fails: %v", i, err)
				return
			}
			if d := ref.DiffOut(k.answer(), ref.From(g), ref.SameText); d != "" {
				fails <- fmt.Sprintf("call %d of a client, after a while: the answer is not the one given: %s", i, d)
				return
			}
		}
		fails <- ""
	}()
	conn, err := net.Dial("tcp", s.host)
	if err != nil {
		c.Fail("the server cannot be reached: %v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(100 * time.Second))
	begin := time.Now()
	for i, k := range calls[:4] {
		if i > 0 {
			time.Sleep(time.Duration(i)*1300*time.Millisecond - time.Since(begin))
		}
		if time.Since(begin) > time.Duration(i)*1300*time.Millisecond+time.Second {
			c.Ev("too slow to tell")
			break
		}
		b := ref.EncodeBinary(k.req.Skip(), nil)
		if proto != 1 {
			b = append([]byte{byte(len(b) >> 24), byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
		}
		if _, err := conn.Write(b); err != nil {
			c.Fail("message %d on a connection that is used every 1.3 s cannot be sent: %v", i, err)
		}
		var g *ogdl.Graph
		if proto != 1 {
			h := make([]byte, 4)
			if _, err := io.ReadFull(conn, h); err != nil {
				c.Fail("message %d on a connection that is used every 1.3 s is not answered: %v", i, err)
			}
			r := make([]byte, int(h[0])<<24|int(h[1])<<16|int(h[2])<<8|int(h[3]))
			if _, err := io.ReadFull(conn, r); err != nil {
				c.Fail("message %d on a connection that is used every 1.3 s is not answered: %v", i, err)
			}
			g = ogdl.FromBinary(r)
		} else {
			g = ogdl.FromBinaryReader(conn)
		}
		if d := ref.DiffOut(k.answer(), ref.From(g), ref.SameText); d != "" {
			c.Fail("message %d on a connection that is used every 1.3 s: the answer is not the one given: %s", i, d)
		}
		if n := atomic.LoadInt32(&k.runs); n != 1 {
			c.Fail("message %d on a connection that is used every 1.3 s: the handler ran %d times", i, n)
		}
		c.Ev("messages on a connection in use")
	}
	for i := 0; i < 2; i++ {
		if f := <-fails; f != "" {
			c.Fail("%s", f)
		}
	}
	c.SeenStr(fmt.Sprint(calls[0].id, proto))
}

// badMessage makes bytes that are not a message.
func badMessage(c *C, s *rfServer) []byte {
	switch c.Intn(6) {
	case 0:
		c.Ev("garbage")
		return []byte(rawText(c, c.Num(5000), "psntubc0"))
	case 1, 2:
		// a message cut short
		c.Ev("truncated message")
		t := rfTree(c)
		t.Out = append([]*T{N(s.routes[0], N("none"))}, t.Out...)
		b := ref.EncodeBinary(t.Skip(), nil)
		if s.proto != 1 {
			b = append([]byte{byte(len(b) >> 24), byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
		}
		return b[:c.Intn(len(b))]
	case 3:
		// lengths that are too big
		c.Ev("oversized length")
		if s.proto == 1 {
			return append([]byte("\x01G\x00\x01\x01\xe7\xff\xff\xff"), rawText(c, c.Intn(100), "b")...)
		}
		return append([]byte{byte(c.Range(0x20, 0xff)), byte(c.Intn(256)), byte(c.Intn(256)), byte(c.Intn(256))}, rawText(c, c.Num(3000), "b")...)
	case 4:
		// a length, followed by garbage of that length
		c.Ev("garbage")
		b := []byte(rawText(c, c.Num(3000), "psntubc0"))
		if c.P(50) {
			b = append([]byte("\x01G\x00"), b...)
		}
		return append([]byte{byte(len(b) >> 24), byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
	}
	c.Ev("garbage")
	return append(make([]byte, c.Range(1, 10)), rawText(c, c.Intn(5), "0b")...)
}

// p27badServer calls peers that do not answer as they should, and then one that does.
func p27badServer(c *C) {
	s := rfGet(c, false)
	c.Ev("bad server")
	k := s.call(c)
	defer forget([]*rfCall{k})
	host, _, _ := net.SplitHostPort(s.host)
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		panic(err)
	}
	var msgs [][]byte
	for i := 0; i < 3; i++ {
		msgs = append(msgs, badMessage(c, s))
	}
	c.Info = func() string { return fmt.Sprintf("protocol %d, bad server: %.300q", s.proto, msgs) }
	go func() {
		for i := 0; ; i++ {
			a, err := l.Accept()
			if err != nil {
				return
			}
			m := msgs[i%len(msgs)]
			go func() {
				defer a.Close()
				a.SetDeadline(time.Now().Add(20 * time.Second))
				a.Read(make([]byte, 10))
				a.Write(m)
			}()
		}
	}()
	alloc := allocated()
	cl := s.client(l.Addr().String())
	cl.Call(k.req.Graph()) // anything but a crash
	l.Close()
	if d := allocated() - alloc; d > 300<<20+int64(400*(treeBytes(k.req)+len(msgs[0])+len(msgs[1])+len(msgs[2]))) {
		c.Fail("%d bytes have been allocated for an answer of %d bytes", d, len(msgs[0]))
	}
	// the same client, with the right server
	cl.Host = s.host
	cl.Close()
	defer cl.Close()
	g, err := cl.Call(k.req.Graph())
	if err != nil {
		c.Fail("the call fails: %v", err)
	}
	if d := ref.DiffOut(k.answer(), ref.From(g), ref.SameText); d != "" {
		c.Fail("the answer is not the one given: %s", d)
	}
	c.SeenStr(fmt.Sprint(msgs))
}

package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P31",
		Rule:  "the four tools, built from the working tree, run as processes with random documents (also damaged ones, empty ones, and ones of several megabytes) in files and on standard input, delivered at once, in pieces with pauses, or each piece when the one before has been read; the output is compared, byte for byte, with that of the library calls. Non-trivial: output of more than one line; distinct by arguments and input.",
		Quick: 40000, Thoro: 200000, Case: p31, Setup: buildTools, Wall: 300, CPU: 100,
		Must: []string{"gpath", "gtemplate", "json2ogdl", "xml2ogdl", "file", "standard input", "slow", "whole document", "path", "missing path", "data files", "empty data file", "big", "invalid JSON", "ids simplified", "beyond 64K", "odd path"},
	})
}

func buildTools(dir, repo string) error {
	bin := filepath.Join(dir, "bin")
	if err := os.MkdirAll(bin, 0777); err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-buildvcs=false", "-o", bin+"/", "./cmd/gpath", "./cmd/gtemplate", "./cmd/json2ogdl", "./cmd/xml2ogdl")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GO111MODULE=on", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off")
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

// tool runs a tool and returns what it prints.
func tool(c *C, name string, stdin []byte, args ...string) string {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.Dir, "bin", name), args...)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limitBuf{b: &errb}
	cmd.Dir = c.Tmp
	var w *os.File
	if stdin != nil {
		r, ww, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		cmd.Stdin = r
		w = ww
		defer r.Close()
	}
	c.Ev(name)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	if w != nil {
		go func(rnd *core.Rand) {
			defer w.Close()
			switch rnd.Intn(5) {
			case 2:
				// each piece when the one before has been taken, so that reads end where
				// the pieces do
				for i := 0; i < 40 && len(stdin) > 0; i++ {
					n := 512 << uint(rnd.Intn(8))
					if rnd.Intn(4) == 0 {
						n += rnd.Intn(3) - 1
					}
					if left := len(stdin) - 1; n > left && left > 0 {
						n = 1 + rnd.Intn(left)
					} else if left == 0 {
						n = 1
					}
					if _, err := w.Write(stdin[:n]); err != nil {
						return
					}
					stdin = stdin[n:]
					for j := 0; j < 200 && inPipe(w) > 0; j++ {
						time.Sleep(50 * time.Microsecond)
					}
				}
			case 0:
				// in pieces with pauses
				max := []int{1, 10, 700, 4096, 5000}[rnd.Intn(5)]
				for i := 0; i < 12 && len(stdin) > 0; i++ {
					n := 1 + rnd.Intn(max)
					if n > len(stdin) {
						n = len(stdin)
					}
					if _, err := w.Write(stdin[:n]); err != nil {
						return
					}
					stdin = stdin[n:]
					time.Sleep(time.Duration(rnd.Intn(600)) * time.Microsecond)
				}
			case 1:
				for len(stdin) > 3000 {
					n := 1000 + rnd.Intn(2000)
					if _, err := w.Write(stdin[:n]); err != nil {
						return
					}
					stdin = stdin[n:]
				}
			}
			w.Write(stdin)
		}(c.Fork())
	}
	err := cmd.Wait()
	if err != nil {
		if ctx.Err() != nil {
			c.Fail("%s does not end", name)
		}
		c.Fail("%s fails: %v: %.2000s", name, err, errb.String())
	}
	return out.String()
}

// inPipe returns the number of bytes that are waiting in a pipe.
func inPipe(w *os.File) int {
	var n int32
	if rc, err := w.SyscallConn(); err == nil {
		rc.Control(func(fd uintptr) {
			syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541b, uintptr(unsafe.Pointer(&n)))
		})
	}
	return int(n)
}

type limitBuf struct{ b *bytes.Buffer }

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (c31 *case31) file(b []byte) string {
	c31.n++
	f := filepath.Join(c31.c.Tmp, fmt.Sprintf("f%d%s", c31.n, c31.c.Str("", ".g", ".x", " é")))
	if err := os.WriteFile(f, b, 0666); err != nil {
		panic(err)
	}
	c31.files = append(c31.files, f)
	return f
}

type case31 struct {
	c     *C
	n     int
	files []string
}

// source gives the input as a file or on standard input.
func (x *case31) source(b []byte) (stdin []byte, args []string) {
	if x.c.P(50) {
		x.c.Ev("file")
		return nil, []string{x.file(b)}
	}
	x.c.Ev("standard input")
	if len(b) > 5000 {
		x.c.Ev("slow")
	}
	if b == nil {
		b = []byte{}
	}
	return b, nil
}

// repeat makes a document bigger by repeating it.
func repeat(c *C, s string) string {
	if c.One(8) || len(s) == 16 {
		n := 1 + c.Range(20000, 400000)/(len(s)+1)
		return strings.Repeat(s, n)
	}
	return s
}

func (x *case31) path(t *T) string {
	c := x.c
	switch c.Intn(6) {
	case 0:
		c.Ev("whole document")
		return "."
	case 1:
		c.Ev("missing path")
		return c.Str("nothing.here", "a.b.c.d", "[999]", "x{5}", "'no'")
	case 2:
		if c.P(50) {
			c.Ev("odd path")
			p := c.Str("", "..", ". ", " .", "...", "./", ".a", "a.", "a..b", "'.'", "\"\"", "_", "*", "[0", "[0]]", "a b", "{}", "(", "$a", "a=b", "_len", "%d", "\xff", "é.", "a\n")
			if c.One(3) {
				p = c.DictStr()
			}
			return p
		}
	}
	c.Ev("path")
	return writePath(c, randPath(c, t, 4, true), false)
}

// pathOK tells if a path can be an argument.
func pathOK(p string) bool {
	return (p == "" || p[0] != '-') && !strings.Contains(p, "\x00") && len(p) < 20000
}

func p31(c *C) {
	x := &case31{c: c}
	defer func() {
		for _, f := range x.files {
			os.Remove(f)
		}
	}()
	what, input := "", ""
	c.Info = func() string { return what + "\n" + core.Sample(input) }
	check := func(got, want string) {
		if got != want {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			c.Fail("%s prints %d bytes instead of %d; at %d: %.200q instead of %.200q", what, len(got), len(want), i, got[max(0, i-20):], want[max(0, i-20):])
		}
		if strings.Count(got, "\n") > 1 {
			c.SeenStr(what + input)
		}
		if len(got) > 65536 {
			c.Ev("beyond 64K")
		}
	}
	switch c.Intn(4) {
	case 0:
		doc := ""
		switch c.Intn(4) {
		case 0:
			doc = anyDoc(c)
		case 1:
			doc = repeat(c, N2(treeNames(c), c, 60).Graph().Text()+"\n")
		default:
			doc = genDoc(c, 100, false).write(c, genLayout(c)) + "\n"
			if m := repeat(c, doc); ref.From(ogdl.FromString(m)).Depth() < 200 {
				doc = m
			}
		}
		if len(doc) > 100000 {
			c.Ev("big")
		}
		input = doc
		g := ogdl.FromBytes([]byte(doc))
		path := x.path(ref.From(g))
		if !pathOK(path) {
			path = "."
		}
		want := g
		if path != "." {
			want = g.Get(path)
		}
		text := want.Text()
		if text != "" && text[len(text)-1] != '\n' && text[len(text)-1] != '\r' {
			text += "\n"
		}
		stdin, args := x.source([]byte(doc))
		what = "gpath " + path
		check(tool(c, "gpath", stdin, append([]string{path}, args...)...), text)

	case 1:
		ctx := tmplContext(c)
		t := genTemplate(c, ctx, c.Range(1, 10))
		src := t.src
		if c.One(10) {
			src += repeat(c, " some more text\n")
		}
		if len(src) > 100000 {
			c.Ev("big")
		}
		if c.One(10) {
			src = damage(c, src)
			if !tame(src, true) {
				src = t.src
			}
		}
		data := ogdl.New("_")
		args := []string{x.file([]byte(src))}
		what = "gtemplate"
		// the context, in one or several files
		rest := ctx.Out
		for len(rest) > 0 || c.One(4) {
			n := len(rest)
			if c.P(50) {
				n = c.Intn(n + 1)
			}
			part := (&T{V: "_", Out: rest[:n]}).Graph().Text()
			rest = rest[n:]
			args = append(args, x.file([]byte(part)))
			for _, o := range ogdl.FromBytes([]byte(part)).Out {
				data.Out = append(data.Out, o)
			}
			if part == "" {
				c.Ev("empty data file")
			}
			c.Ev("data files")
			input += "\n-- data\n" + part
		}
		input += "\n-- template\n" + src
		want := string(ogdl.NewTemplate(src).Process(data)) + "\n"
		check(tool(c, "gtemplate", nil, args...), want)

	case 2:
		var b strings.Builder
		budget := 60
		if c.One(6) {
			budget = 20000
		}
		v := genJSON(c, c.Range(1, 8), &budget)
		if c.One(8) {
			v = &jv{kind: 'a', sub: []*jv{v}}
			for i := c.Range(1, 600); i > 0; i-- {
				budget := 50
				v.sub = append(v.sub, genJSON(c, 4, &budget))
			}
		}
		v.write(c, &b)
		doc := b.String()
		if c.One(8) {
			doc = damage(c, doc)
			c.Ev("invalid JSON")
		}
		if len(doc) > 100000 {
			c.Ev("big")
		}
		input = doc
		g, _ := ogdl.FromJSON([]byte(doc))
		stdin, args := x.source([]byte(doc))
		what = "json2ogdl"
		check(tool(c, "json2ogdl", stdin, args...), g.Text()+"\n")

	default:
		doc, t := genXML(c, c.Num(300))
		if c.One(10) {
			doc = damage(c, doc)
		}
		if len(doc) > 100000 {
			c.Ev("big")
		}
		input = doc
		path := x.path(t)
		if !pathOK(path) {
			path = "."
		}
		g := gxml.FromXML([]byte(doc))
		if path != "." {
			g = g.Get(path)
		}
		args := []string{path, x.file([]byte(doc))}
		if c.P(30) {
			field := false
			ref.From(g).Walk(func(n *T) {
				if ref.Str(n.V) == "field" {
					field = true
				}
			})
			if g != nil && !field {
				gxml.Simplify(g)
				args = append([]string{"-id"}, args...)
				c.Ev("ids simplified")
			}
		}
		what = "xml2ogdl " + strings.Join(args[:len(args)-1], " ")
		check(tool(c, "xml2ogdl", nil, args...), g.Text()+"\n")
	}
}

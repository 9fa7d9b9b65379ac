package props

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/rveen/ogdl"
	"verif/core"
	"verif/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:    "P28",
		Rule:  "random sequences of operations (read, peek and unread bytes and runes, up to 2000 bytes back from the furthest byte read, and the token productions) on a lexer over random bytes, for the productions over text, delivered in all manners, compared with a cursor over the complete input. Non-trivial: more than 3 operations; distinct by input and operations.",
		Quick: 400000, Thoro: 3000000, Case: p28,
		Must:   []string{"bytes", "runes", "invalid UTF-8", "rune over a buffer limit", "peeked", "peeked at the end", "unread", "unread far", "end", "end again", "unread the end", "production at the end", "string", "stop", "token", "integer", "number", "not a number", "operator", "space", "limited space", "break", "white space", "comment", "not a comment", "quoted", "template text", "block", "scalar", "beyond the buffer"},
		Assume: []string{"reading at the end counts once for unreading; UnreadRune is only used after Rune; UnreadByte only up to 2000 bytes back from the furthest byte read"},
	})
}

type cursor struct {
	c     *C
	p     *ogdl.Lexer
	b     []byte
	pos   int // len(b)+1 after reading the end
	high  int
	ends  int   // times that the end was read in a row
	stop  bool  // nothing may be unread any more
	runes []int // sizes of the runes that may be unread
	ops   []string
	h     uint64
	n     int
}

func (x *cursor) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(x.ops) >= 40 {
		x.ops = x.ops[1:]
	}
	x.ops = append(x.ops, s)
	x.h = core.Hash(x.h, []byte(s))
	x.n++
}

func (x *cursor) fail(f string, a ...interface{}) {
	x.c.Fail("at %d of %d: %s", x.pos, len(x.b), fmt.Sprintf(f, a...))
}

func (x *cursor) move(n int) {
	x.pos += n
	if x.pos > x.high {
		x.high = x.pos
	}
	if x.pos <= len(x.b) {
		x.ends = 0
	}
}

// end notes that the end has been read.
func (x *cursor) end() {
	x.ends++
	x.pos = len(x.b) + 1
	x.c.Ev("end")
	if x.ends > 1 {
		x.c.Ev("end again")
		x.stop = true
	}
}

func (x *cursor) rest() []byte {
	if x.pos >= len(x.b) {
		return nil
	}
	return x.b[x.pos:]
}

func (x *cursor) byte() {
	x.runes = nil
	c, err := x.p.Byte()
	if x.pos >= len(x.b) {
		if err == nil {
			x.fail("a byte (%q) after the end", c)
		}
		x.end()
		return
	}
	if err != nil {
		x.fail("error %v, but there are more bytes", err)
	}
	if c != x.b[x.pos] {
		x.fail("Byte gives %q instead of %q", c, x.b[x.pos])
	}
	x.move(1)
	x.c.Ev("bytes")
}

func (x *cursor) rune() {
	r, err := x.p.Rune()
	if x.pos >= len(x.b) {
		if err == nil {
			x.fail("a rune (%q) after the end", r)
		}
		x.runes = append(x.runes, 1)
		x.end()
		return
	}
	if err != nil {
		x.fail("error %v, but there is more", err)
	}
	want, n := utf8.DecodeRune(x.rest())
	if r != want {
		x.fail("Rune gives %q instead of %q", r, want)
	}
	if want == utf8.RuneError && n == 1 {
		x.c.Ev("invalid UTF-8")
	}
	if n > 1 && x.pos/2048 != (x.pos+n-1)/2048 {
		x.c.Ev("rune over a buffer limit")
	}
	x.runes = append(x.runes, n)
	x.move(n)
	x.c.Ev("runes")
}

func (x *cursor) peek(isRune bool) {
	x.c.Ev("peeked")
	if x.pos >= len(x.b) {
		x.c.Ev("peeked at the end")
	}
	if isRune {
		r, _ := x.p.PeekRune()
		want := rune(0)
		if b := x.rest(); len(b) > 0 {
			want, _ = utf8.DecodeRune(b)
		}
		if r != want {
			x.fail("PeekRune gives %q instead of %q", r, want)
		}
		return
	}
	c := x.p.PeekByte()
	want := byte(0)
	if b := x.rest(); len(b) > 0 {
		want = b[0]
	}
	if c != want {
		x.fail("PeekByte gives %q instead of %q", c, want)
	}
}

// unread gives bytes back.
func (x *cursor) unread(n int) {
	if x.stop {
		return
	}
	for ; n > 0 && x.pos > 0 && x.pos > x.high-2000; n-- {
		x.runes = nil
		x.p.UnreadByte()
		if x.pos > len(x.b) {
			x.c.Ev("unread the end")
		}
		x.pos--
		x.ends = 0
		x.c.Ev("unread")
	}
	if x.high-x.pos > 1500 {
		x.c.Ev("unread far")
	}
}

func run(b []byte, f func(c byte) bool) []byte {
	i := 0
	for i < len(b) && f(b[i]) {
		i++
	}
	return b[:i]
}

func isSp(c byte) bool { return c == ' ' || c == '\t' }

// took checks a production that returns what it consumes.
func (x *cursor) took(name, got string, ok bool, want []byte) {
	if got != string(want) || ok != (len(want) > 0) {
		x.fail("%s gives %.200q, %v instead of %.200q", name, got, ok, want)
	}
	x.move(len(want))
}

func (x *cursor) production(k int) {
	c := x.c
	x.runes = nil
	b := x.rest()
	spMax := []int{0, 1, 2, 3, 8, 100, 5000}[c.Intn(7)]
	if x.pos > len(x.b) && !(k == 7 && spMax == 0) {
		// reading at the end once more, and unreading it
		x.pos = len(x.b)
		x.ends = 0
	}
	if len(b) == 0 {
		c.Ev("production at the end")
	}
	switch k {
	case 0:
		s, ok := x.p.String()
		w := run(b, func(c byte) bool { return c > 32 })
		x.took("String", s, ok, w)
		if len(w) > 0 {
			c.Ev("string")
		}
	case 1:
		stop := c.Str(",()", "=", "é", "[]{}.", "")
		s, ok := x.p.StringStop([]byte(stop))
		w := run(b, func(c byte) bool { return c > 32 && strings.IndexByte(stop, c) < 0 })
		x.took("StringStop("+stop+")", s, ok, w)
		if len(w) > 0 {
			c.Ev("stop")
		}
	case 2:
		n := 0
		for n < len(b) {
			r, k := utf8.DecodeRune(b[n:])
			if r == utf8.RuneError && k < 2 || !isTok(r) {
				break
			}
			n += k
		}
		s, ok := x.p.Token8()
		x.took("Token8", s, ok, b[:n])
		if n > 0 {
			c.Ev("token")
		}
	case 3:
		s, ok := x.p.Integer()
		w := run(b, func(c byte) bool { return c >= '0' && c <= '9' })
		x.took("Integer", s, ok, w)
		if len(w) > 0 {
			c.Ev("integer")
		}
	case 4:
		s, ok := x.p.Number()
		i, point, digits := 0, false, false
		if i < len(b) && (b[i] == '-' || b[i] == '+') {
			i++
		}
		for i < len(b) && (b[i] >= '0' && b[i] <= '9' || b[i] == '.' && !point) {
			if b[i] == '.' {
				point = true
			} else {
				digits = true
			}
			i++
		}
		if !digits {
			if i > 0 {
				c.Ev("not a number")
			}
			i = 0
		}
		w := b[:i]
		if digits {
			c.Ev("number")
			if s != string(w) && (w[0] != '+' || s != string(w[1:])) || !ok {
				x.fail("Number gives %.200q, %v instead of %.200q", s, ok, w)
			}
			x.move(len(w))
		} else {
			x.took("Number", s, ok, w)
		}
	case 5:
		s, ok := x.p.Operator()
		if !ok {
			if len(b) > 0 && strings.IndexByte("+-*/%=<>!", b[0]) >= 0 || len(b) > 1 && (string(b[:2]) == "&&" || string(b[:2]) == "||") {
				x.fail("Operator does not find the operator in %.20q", b)
			}
			x.took("Operator", s, ok, nil)
			return
		}
		c.Ev("operator")
		if !bytes.HasPrefix(b, []byte(s)) || s == "" {
			x.fail("Operator gives %q, that is not in the input: %.20q", s, b)
		}
		n := 0
		if strings.IndexByte("+-*/%=<>!", b[0]) >= 0 {
			n = 1
		}
		if len(b) > 1 {
			switch string(b[:2]) {
			case "+=", "-=", "*=", "/=", "%=", "==", "!=", "<=", ">=", "&&", "||":
				n = 2
			}
		}
		if n > 0 && s != string(b[:n]) {
			x.fail("Operator gives %q instead of %q", s, b[:n])
		}
		x.move(len(s))
	case 6, 7:
		w := run(b, isSp)
		var n int
		var u byte
		name := "Space"
		if k == 7 {
			m := spMax
			name = fmt.Sprintf("SpaceMax(%d)", m)
			if len(w) > m {
				w = w[:m]
				c.Ev("limited space")
			}
			n, u = x.p.SpaceMax(m)
		} else {
			n, u = x.p.Space()
		}
		sp, tab := bytes.Count(w, []byte(" ")), bytes.Count(w, []byte("\t"))
		want := byte(0)
		if tab == 0 {
			want = ' '
		} else if sp == 0 {
			want = '\t'
		}
		if n != len(w) || u != want {
			x.fail("%s gives %d, %q instead of %d, %q", name, n, u, len(w), want)
		}
		if n > 0 {
			c.Ev("space")
		}
		x.move(n)
	case 8:
		n := 0
		if bytes.HasPrefix(b, []byte("\r\n")) {
			n = 2
		} else if len(b) > 0 && (b[0] == '\r' || b[0] == '\n') {
			n = 1
		}
		if ok := x.p.Break(); ok != (n > 0) {
			x.fail("Break gives %v", ok)
		}
		if n > 0 {
			c.Ev("break")
		}
		x.move(n)
	case 9:
		w := run(b, func(c byte) bool { return isSp(c) || c == '\n' || c == '\r' })
		if ok := x.p.WhiteSpace(); ok != (len(w) > 0) {
			x.fail("WhiteSpace gives %v", ok)
		}
		if len(w) > 0 {
			c.Ev("white space")
		}
		x.move(len(w))
	case 10:
		ok := x.p.Comment()
		if len(b) < 2 || b[0] != '#' || !isSp(b[1]) {
			if ok {
				x.fail("Comment finds a comment")
			}
			if len(b) > 0 && b[0] == '#' {
				c.Ev("not a comment")
			}
			return
		}
		if !ok {
			x.fail("Comment does not find the comment")
		}
		c.Ev("comment")
		n := len(run(b, func(c byte) bool { return c != '\n' && c != '\r' }))
		x.move(n)
		if n == len(b) {
			x.end()
			x.stop = true
		} else {
			x.move(1)
		}
	case 11:
		if len(b) == 0 || strings.IndexByte("\"'`", b[0]) < 0 {
			if s, ok, err := x.p.Quoted(0); ok || err != nil || s != "" {
				x.fail("Quoted gives %.100q, %v, %v", s, ok, err)
			}
			return
		}
		var w []byte
		i := 1
		for ; i < len(b) && b[i] != b[0]; i++ {
			if b[i] == '\\' && b[0] != '`' && i+1 < len(b) && strings.IndexByte("\"'\\", b[i+1]) >= 0 {
				i++
			}
			w = append(w, b[i])
		}
		if i >= len(b) {
			return // no end
		}
		s, ok, err := x.p.Quoted(0)
		if !ok || err != nil || s != string(w) {
			x.fail("Quoted gives %.200q, %v, %v instead of %.200q", s, ok, err, w)
		}
		c.Ev("quoted")
		x.move(i + 1)
	case 12:
		s, ok := x.p.TemplateText()
		w := run(b, func(c byte) bool { return c != '$' })
		x.took("TemplateText", s, ok, w)
		if len(w) > 0 {
			c.Ev("template text")
		}
	case 13:
		// Lines that are indented more than a number of spaces, after a backslash and a break
		nsp := []int{0, 0, 1, 2, 3, 6}[c.Intn(6)]
		for _, ch := range b {
			if ch < 32 && ch != '\t' && ch != '\n' && ch != '\r' {
				return // (a control character)
			}
		}
		i := 0
		if len(b) > 1 && b[0] == '\\' && (b[1] == '\n' || b[1] == '\r') {
			i = 2
			if b[1] == '\r' && len(b) > 2 && b[2] == '\n' {
				i = 3
			}
		}
		if i == 0 {
			if s, ok := x.p.Block(nsp); ok || s != "" {
				x.fail("Block(%d) gives %.100q, %v", nsp, s, ok)
			}
			return
		}
		var w []byte
		sp := 0
		for {
			lead := run(b[i:], isSp)
			sp = len(lead)
			if strings.IndexByte(string(lead), ' ') >= 0 && strings.IndexByte(string(lead), '\t') >= 0 || sp <= nsp {
				break
			}
			i += sp
			for i < len(b) {
				i++
				if b[i-1] != '\r' {
					w = append(w, b[i-1])
				}
				if b[i-1] == '\n' {
					break
				}
			}
		}
		if sp > 1900 {
			return
		}
		want := strings.TrimRight(string(w), "\n")
		s, ok := x.p.Block(nsp)
		if !ok || s != want {
			x.fail("Block(%d) gives %.200q, %v instead of %.200q", nsp, s, ok, want)
		}
		c.Ev("block")
		x.move(i + sp)
		x.pos -= sp
	case 14, 15:
		// A quoted string or a word, with its type or without
		var w []byte
		n := 0
		quoted := len(b) > 0 && strings.IndexByte("\"'`", b[0]) >= 0
		if quoted {
			for n = 1; n < len(b) && b[n] != b[0]; n++ {
				if b[n] == '\\' && b[0] != '`' && n+1 < len(b) && strings.IndexByte("\"'\\", b[n+1]) >= 0 {
					n++
				}
				if b[n] < 32 && b[n] != '\t' && b[n] != '\n' && b[n] != '\r' {
					return
				}
				w = append(w, b[n])
			}
			n++
			if n > len(b) {
				return // no end
			}
		} else {
			w = run(b, func(c byte) bool { return c > 32 })
			n = len(w)
		}
		if k == 14 {
			s, ok := x.p.Scalar(0)
			if ok != (n > 0) || s != string(w) {
				x.fail("Scalar gives %.200q, %v instead of %.200q", s, ok, w)
			}
		} else {
			v, ok := x.p.ScalarType(0)
			var want interface{} = string(w)
			known := true
			if !quoted {
				if i, err := strconv.ParseInt(string(w), 10, 64); err == nil {
					want = i
				} else if f, err := strconv.ParseFloat(string(w), 64); err == nil {
					want = f
					known = strings.Trim(string(w), "+-.eE0123456789") == ""
				} else if string(w) == "true" || string(w) == "false" {
					want = string(w) == "true"
				}
			}
			if ok != (n > 0) || known && !ref.Same(v, want) {
				x.fail("ScalarType gives %s, %v instead of %s", ref.Show(v), ok, ref.Show(want))
			}
		}
		if n > 0 {
			c.Ev("scalar")
		}
		x.move(n)
	default:
		ok := x.p.End()
		if ok != (len(b) == 0) {
			x.fail("End gives %v", ok)
		}
		if ok {
			x.end()
		}
	}
}

// lexText makes input for the productions, with long runs at times.
func lexText(c *C, n int) []byte {
	var b []byte
	for len(b) < n {
		k := 1
		if c.One(5) {
			k = c.Range(1, 10)
		}
		if c.One(50) {
			k = c.Num(5000)
		}
		var s string
		switch c.Intn(15) {
		case 14:
			s = c.Str("\\\n", "\\\r\n", "\\\n  one\n  two\n", "\\\n\n", "\n   ", "\n\t\t", "\\\n \t x\n", "true", "false ", "1e3 ", "-12 ", "'a\n b'", " 0.5 ", "\\\r   x\r\n   y\r\n  z", "\n010 ", "\n0x1F ", "\n1_000 ", "\n0b11 ", "\n-017\n", "\n9223372036854775808 ", "\n-9223372036854775808 ", "\nTRUE ", "\n+5 ", "\n1e400 ", "\n0x1p4 ", "\n00 ", "''x", "\"\"y")
		case 0, 1:
			s = c.Str(" ", " ", "\t", "\n", "\r", "\r\n")
		case 2:
			s = c.Str("+", "-", "*", "/", "%", "=", "!", "<", ">", "&", "|", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "~", "^")
		case 3:
			s = string(rune('0' + c.Intn(10)))
		case 4:
			s = c.Str("1.5", "-2", "+3.", ".5", "-.5", "-.", "+", "..", "1.2.3", "--4")
		case 5:
			s = c.Str("# c", "#\t", "#", "#x", "# ")
		case 6:
			s = c.Str("'", "\"", "`", "\\", "\\'", "$", ",", "(", ")", ".", "[", "]", "{", "}")
		case 7:
			s = string(letters[c.Intn(len(letters))])
		case 8:
			s = string(runes[c.Intn(len(runes))])
		case 9:
			if c.One(4) {
				s = string([]byte{byte(c.Range(0x80, 0xff))})
			} else {
				s = ident(c)
			}
		default:
			s = string([]byte{ascii[c.Intn(len(ascii))]})
		}
		for ; k > 0; k-- {
			b = append(b, s...)
		}
	}
	if len(b) > n && c.P(80) {
		b = b[:n]
	}
	return b
}

func p28(c *C) {
	n := c.Num(12000)
	if c.One(3) {
		n = 2048*c.Range(1, 5) + c.Range(-3, 3)
	}
	prods := c.P(70)
	var b []byte
	if prods {
		b = lexText(c, n)
	} else {
		b = []byte(rawText(c, n, "psntubuc0"))
		if c.P(80) && len(b) > n {
			b = b[:n]
		}
	}
	x := &cursor{c: c, b: b}
	c.Info = func() string {
		s := fmt.Sprintf("%d bytes, last operations %v", len(b), x.ops)
		if len(b) < 3000 {
			s += fmt.Sprintf("\n%q", b)
		}
		return s
	}
	if c.P(20) {
		x.p = &ogdl.NewParser(newReader(c, b)).Lexer
	} else {
		x.p = ogdl.NewLexer(newReader(c, b))
	}
	if c.One(20) {
		if err := x.p.UnreadRune(); err == nil {
			x.fail("UnreadRune before Rune gives no error")
		}
	}
	if len(b) > 4096 {
		c.Ev("beyond the buffer")
	}
	style := c.Intn(4)
	left := 60 + c.Num(400)
	for ; left > 0; left-- {
		k := c.Intn(20)
		switch {
		case k < 4:
			m := 1
			if c.One(4) {
				m = c.Num(5000)
			}
			x.note("Byte*%d", m)
			for ; m > 0 && x.pos < len(b); m-- {
				x.byte()
			}
			if m > 0 && c.P(30) {
				x.byte()
			}
		case k < 8:
			m := 1
			if c.One(4) {
				m = c.Num(3000)
			}
			x.note("Rune*%d", m)
			for ; m > 0 && x.pos < len(b); m-- {
				x.rune()
			}
			if m > 0 && c.P(30) {
				x.rune()
			}
			if !x.stop {
				u := c.Intn(6) * c.Intn(2)
				if c.One(8) {
					u = c.Num(2000)
				}
				for ; u > 0 && len(x.runes) > 0; u-- {
					sz := x.runes[len(x.runes)-1]
					if x.pos-sz < x.high-2000 {
						break
					}
					x.note("UnreadRune")
					if err := x.p.UnreadRune(); err != nil {
						x.fail("UnreadRune: %v", err)
					}
					x.pos -= sz
					x.ends = 0
					x.runes = x.runes[:len(x.runes)-1]
				}
			}
		case k < 10:
			x.note("PeekByte")
			x.peek(false)
		case k < 12:
			x.note("PeekRune")
			x.peek(true)
		case k < 14 || !prods || style == 0 && c.P(50):
			m := c.Range(1, 3)
			if c.One(3) {
				m = c.Num(2000)
			}
			x.note("UnreadByte*%d", m)
			x.unread(m)
		default:
			p := c.Intn(17)
			if r := x.rest(); len(r) > 2 && r[0] == '\\' && r[1] < 32 && c.P(50) {
				p = 13
			}
			if x.pos > 0 && x.pos < len(b) && b[x.pos-1] == '\n' && b[x.pos] != '\\' && c.One(3) {
				p = 15
			}
			x.note("production %d", p)
			x.production(p)
		}
	}
	// the rest
	if c.P(30) {
		x.note("rest")
		for x.pos < len(b) {
			if style == 1 {
				x.rune()
			} else {
				x.byte()
			}
		}
		for i := 0; i < 3; i++ {
			x.byte()
			x.peek(i == 1)
		}
	}
	if x.n > 3 {
		c.Seen(core.Hash(x.h, b))
	}
}

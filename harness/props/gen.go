// Package props holds the checks, one file for each group of properties.
package props

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/core"
	"verif/ref"
)

type C = core.C
type T = ref.T

var runes = []rune("éüñßøλжшЯ中文字漢あア한ابعदก𝔘😀🎉\u00a0\u2028\u0301ſKǅ\ufeff\u200b\ufffd\u0663٣൧x¡€")
var letters = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_éüñßøλжшЯ中文字漢あア한ابदก𝔘ſKǅ")

const ascii = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
const punct = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"

// rawText makes a text out of all kinds of characters. Allowed beyond letters and digits:
// p punctuation, s space, t tab, n newline, r carriage return, u Unicode, b invalid bytes,
// c control characters, 0 NUL.
func rawText(c *C, n int, allow string) string {
	var b strings.Builder
	mode := c.Intn(6)
	for b.Len() < n {
		k := byte('a')
		if mode > 0 && len(allow) > 0 && c.P(15*mode) {
			k = allow[c.Intn(len(allow))]
		}
		switch k {
		case 'p':
			b.WriteByte(punct[c.Intn(len(punct))])
		case 's':
			b.WriteByte(' ')
		case 't':
			b.WriteByte('\t')
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 'u':
			b.WriteRune(anyRune(c))
		case 'b':
			b.WriteByte(byte(c.Range(0x80, 0xff)))
		case 'c':
			b.WriteByte(byte(c.Range(1, 31)))
		case '0':
			b.WriteByte(0)
		default:
			b.WriteByte(ascii[c.Intn(len(ascii))])
		}
	}
	return b.String()
}

// anyRune makes a character beyond ASCII.
func anyRune(c *C) rune {
	if !c.One(5) {
		return runes[c.Intn(len(runes))]
	}
	for {
		r := rune(c.Range(0xa0, 0xffff))
		switch c.Intn(6) {
		case 0:
			r = rune(c.Range(0xa0, 0x7ff))
		case 1:
			r = rune(c.Range(0x10000, 0x10ffff))
		case 2:
			// private, not assigned, format characters
			r = rune(c.Range(0x2000, 0x206f))
		case 3:
			r = rune([]int{0xe000, 0xe0001, 0xf0000, 0x10fffd, 0xfff9, 0xfffd, 0x80, 0x85, 0xad, 0x378, 0xd7ff}[c.Intn(11)])
		}
		if (r < 0xd800 || r > 0xdfff) && r&0xfffe != 0xfffe && (r < 0xfdd0 || r > 0xfdef) {
			return r
		}
	}
}

// ident makes an identifier: a letter or _ followed by letters, digits or _.
func ident(c *C) string {
	var b strings.Builder
	n := 1
	switch c.Intn(8) {
	case 0, 1, 2, 3:
		n = c.Range(1, 3)
	case 4, 5:
		n = c.Range(1, 12)
	case 6:
		n = c.Num(300)
	}
	if n < 1 {
		n = 1
	}
	uni := c.One(3)
	for i := 0; i < n; i++ {
		switch {
		case uni && c.P(40):
			b.WriteRune(letters[c.Intn(len(letters))])
		case i > 0 && c.P(15):
			b.WriteByte('0' + byte(c.Intn(10)))
		case i > 0 && c.P(5):
			b.WriteByte('_')
		default:
			b.WriteByte(ascii[c.Intn(26)])
		}
	}
	return b.String()
}

var smallWords = []string{"a", "b", "c", "ab", "x", "y", "name", "0", "1", "2", "10", "-1", "true", "false", "1.5", "_", "é", "key", "value", "host", "ip", "end", "if", "for", "else"}

// word makes a bare word of OGDL text that is not special in any position of a line.
func word(c *C) string {
	for {
		var s string
		switch c.Intn(12) {
		case 0, 1, 2, 3:
			s = c.Str(smallWords...)
		case 4, 5:
			s = ident(c)
		case 6:
			s = strconv.Itoa(c.Range(-1000, 1000000))
		case 7:
			s = c.DictStr()
		case 8:
			s = rawText(c, c.Num(60), "pu")
		case 9:
			s = rawText(c, c.Range(1, 8), "pub")
		case 10:
			if c.One(6) {
				s = rawText(c, c.Num(9000), "pub")
			} else {
				s = rawText(c, c.Range(1, 5), "p")
			}
		default:
			s = rawText(c, c.Range(1, 3), "")
		}
		if bareOK(s) {
			return s
		}
	}
}

// bareOK tells if a text can be written as a bare word anywhere.
func bareOK(s string) bool {
	if s == "" || s == "#" || s == "\\" {
		return false
	}
	switch s[0] {
	case '"', '\'', '`', ',':
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] <= 32 || s[i] == 127 {
			return false
		}
	}
	return true
}

// plainOK tells if a text is a plain word (as in property P03).
func plainOK(s string) bool {
	return bareOK(s) && !strings.ContainsAny(s, "\"'`,()")
}

func plainWord(c *C) string {
	for {
		s := word(c)
		if plainOK(s) {
			return s
		}
	}
}

// noCtl removes control characters other than those allowed.
func noCtl(s, allowed string) string {
	return strings.Map(func(r rune) rune {
		if (r < 32 || r == 127) && !strings.ContainsRune(allowed, r) {
			return -1
		}
		return r
	}, s)
}

// text makes arbitrary text: Unicode, white space, quotes; no control characters but
// newline and tab (and CR if asked for).
func text(c *C, cr bool) string {
	allow, ctl := "psstnu", "\n\t"
	if cr {
		allow, ctl = "psstnur", "\n\t\r"
	}
	switch c.Intn(10) {
	case 0, 1:
		return word(c)
	case 2:
		return noCtlBytes(c.DictStr(), ctl)
	case 3:
		// several of the strings that matter to the format, together
		var b strings.Builder
		for i := c.Range(1, 6); i > 0; i-- {
			b.WriteString(c.Str(" ", "\n", "\t", "\\", "\"", "'", "`", "\\\"", "\\\\", "\\n", "\\'", "#", "# ", ",", "(", ")", "a", "é", "  ", "\n  ", "\\\n", "_", "[", "{", "$", "!"))
		}
		return b.String()
	case 4:
		return rawText(c, c.Num(3000), allow)
	case 5:
		return rawText(c, c.Range(1, 20), allow+"b")
	default:
		return rawText(c, c.Range(1, 20), allow)
	}
}

func noCtlBytes(s, allowed string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if (s[i] < 32 || s[i] == 127) && strings.IndexByte(allowed, s[i]) < 0 {
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}

// shape makes a tree whose contents come from f(depth).
func shape(c *C, nodes int, f func(depth int) interface{}) *T {
	root := &T{V: "_"}
	type at struct {
		t *T
		d int
	}
	open := []at{{root, 0}}
	style := c.Intn(5)
	for i := 0; i < nodes; i++ {
		var p at
		switch style {
		case 0: // random recursive tree
			p = open[c.Intn(len(open))]
		case 1: // deep
			p = open[len(open)-1-c.Intn(min(len(open), 2))]
		case 2: // flat
			p = open[c.Intn(min(len(open), 3))]
		case 3: // depth first document, as text would give
			k := c.Intn(3)
			p = open[len(open)-1]
			if k == 0 && len(open) > 1 {
				open = open[:1+c.Intn(len(open)-1)]
				p = open[len(open)-1]
			}
		default:
			p = open[c.Intn(len(open))]
			if c.P(50) {
				p = open[len(open)-1]
			}
		}
		n := p.t.Add(f(p.d))
		open = append(open, at{n, p.d + 1})
	}
	return root
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func validUTF8(s string) bool { return utf8.ValidString(s) }

// pool returns a function that gives values of f, repeating old ones often, so that there
// are duplicates.
func pool(c *C, size int, f func() interface{}) func() interface{} {
	var old []interface{}
	return func() interface{} {
		if len(old) >= size || len(old) > 0 && c.P(30) {
			return old[c.Intn(len(old))]
		}
		v := f()
		old = append(old, v)
		return v
	}
}

// pieces puts up to n of the given strings together.
func pieces(c *C, n int, ps ...string) string {
	var b strings.Builder
	for n = c.Range(1, n); n > 0; n-- {
		b.WriteString(c.Str(ps...))
	}
	return b.String()
}

package props

import (
	"strings"

	"verif/ref"
)

// A document of OGDL text, and the tree that its layout describes.

type dword struct {
	s     string
	style byte // b bare, h bare, and must end the line, " ' or ` quoted
}

type dline struct {
	ind   int
	words []dword
	block []string // if not nil, the line ends with a block of these lines
}

type document struct {
	lines  []dline
	ch     byte // character used for indentation
	ladder bool // hundreds of levels
}

// genDoc makes the lines of a document. With typed set, words are mostly those that a
// typed parser distinguishes.
func genDoc(c *C, maxLines int, typed bool) *document {
	d := &document{ch: ' '}
	if c.P(30) {
		d.ch = '\t'
	}
	base := 0
	if c.P(15) {
		base = c.Range(1, 9)
	}
	n := 1 + c.Size(maxLines)
	if n > maxLines {
		n = maxLines
	}
	inds := []int{base}
	step := c.Range(1, 8)
	huge := c.One(40)
	deep := c.One(12)
	if deep && n > 400 {
		n = 400
	}
	ladder := maxLines >= 600 && c.One(50)
	if ladder {
		// hundreds of levels, one by one
		n = c.Range(240, 700)
		d.ladder = true
		step = c.Range(1, 2)
	}
	vocabulary := pool(c, c.Range(2, 40), func() interface{} { return word(c) })
	for i := 0; i < n; i++ {
		var l dline
		if i == 0 {
			l.ind = base
		} else {
			switch {
			case c.P(35) || deep && c.P(60) || ladder && c.P(99):
				s := step
				if !ladder && c.P(20) {
					s = c.Range(1, 12)
				}
				if huge && c.P(10) {
					s = c.Num(6000) + 1
				}
				l.ind = inds[len(inds)-1] + s
			case c.P(50):
				l.ind = inds[len(inds)-1]
			case c.P(70):
				k := c.Intn(len(inds))
				l.ind = inds[k]
			default:
				// some indentation between the first line and this one
				l.ind = c.Range(base, inds[len(inds)-1])
			}
		}
		for len(inds) > 1 && inds[len(inds)-1] >= l.ind {
			inds = inds[:len(inds)-1]
		}
		if l.ind > inds[len(inds)-1] {
			inds = append(inds, l.ind)
		}
		nw := 1
		switch c.Intn(8) {
		case 0, 1, 2:
			nw = 2
		case 3:
			nw = 3
		case 4:
			nw = c.Range(1, 6)
		case 5:
			if c.One(20) {
				nw = c.Num(300) + 1
			}
		}
		if c.P(10) && l.ind < 200 {
			// a block, after some words or alone
			nw = c.Intn(3)
			k := 1 + c.Intn(4)
			if c.One(10) {
				k = c.Num(200) + 1
			}
			for ; k > 0; k-- {
				l.block = append(l.block, blockLine(c))
			}
		}
		for j := 0; j < nw; j++ {
			l.words = append(l.words, genWord(c, typed, vocabulary, l.ind))
		}
		if l.block == nil && c.One(40) {
			// a number sign that ends the line is a word
			l.words[len(l.words)-1] = dword{"#", 'h'}
		}
		d.lines = append(d.lines, l)
	}
	return d
}

func blockLine(c *C) string {
	for {
		s := text(c, false)
		s = strings.ReplaceAll(s, "\n", "x")
		s = strings.TrimLeft(s, " \t")
		if s != "" {
			return s
		}
	}
}

func genWord(c *C, typed bool, voc func() interface{}, ind int) dword {
	if typed && c.P(70) {
		w := typedWord(c)
		if c.P(15) {
			q := c.Byte("\"'`")
			if strings.Contains(w, "`") {
				q = '\''
			}
			return dword{w, q}
		}
		if bareOK(w) {
			return dword{w, 'b'}
		}
		return dword{w, '"'}
	}
	switch c.Intn(10) {
	case 0:
		s := text(c, c.One(8))
		if c.One(10) {
			s = ""
		}
		if ind > 300 {
			s = strings.ReplaceAll(s, "\n", "")
		}
		return dword{s, '"'}
	case 1:
		s := text(c, c.One(8))
		if ind > 300 {
			s = strings.ReplaceAll(s, "\n", "")
		}
		return dword{s, '\''}
	case 2:
		s := strings.ReplaceAll(text(c, c.One(8)), "`", "")
		if ind > 300 {
			s = strings.ReplaceAll(s, "\n", "")
		}
		return dword{s, '`'}
	default:
		w := voc().(string)
		return dword{w, 'b'}
	}
}

// tree is the tree that the layout describes, with the content of each word given by val.
func (d *document) tree(val func(s string, style byte) interface{}) *T {
	root := &T{V: "_"}
	type at struct {
		ind int
		t   *T
	}
	stack := []at{{-1, root}}
	for _, l := range d.lines {
		for stack[len(stack)-1].ind >= l.ind {
			stack = stack[:len(stack)-1]
		}
		p := stack[len(stack)-1].t
		first := true
		for _, w := range l.words {
			p = p.Add(val(w.s, w.style))
			if first {
				stack = append(stack, at{l.ind, p})
				first = false
			}
		}
		if l.block != nil {
			p = p.Add(val(strings.Join(l.block, "\n"), '\\'))
			if first {
				stack = append(stack, at{l.ind, p})
			}
		}
	}
	return root
}

func plainVal(s string, style byte) interface{} { return s }

var _ = ref.N

// layout says how a document is written.
type layout struct {
	crlf     int // percentage of CRLF line ends
	cr       int // percentage of lone CR line ends (outside blocks)
	comments int // percentage
	blanks   int
	trailing int
	pad      bool // put constructs at the limits of the buffers of the lexer
	tightEnd bool // no line end after the last line
	wide     int  // percentage of wide spaces between words
}

func genLayout(c *C) layout {
	l := layout{}
	if c.P(30) {
		l.crlf = []int{100, 100, 50}[c.Intn(3)]
	}
	if c.P(20) {
		l.cr = []int{100, 30, 5}[c.Intn(3)]
	}
	if c.P(50) {
		l.comments = c.Range(1, 40)
	}
	if c.P(50) {
		l.blanks = c.Range(1, 40)
	}
	if c.P(40) {
		l.trailing = c.Range(1, 60)
	}
	l.pad = c.P(35)
	l.tightEnd = c.P(40)
	if c.P(40) {
		l.wide = c.Range(1, 60)
	}
	return l
}

func (d *document) write(c *C, l layout) string {
	var b strings.Builder
	nlBlock := func() {
		if l.crlf > 0 && c.P(l.crlf) {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	nl := func() {
		if l.cr > 0 && c.P(l.cr) {
			b.WriteByte('\r')
			return
		}
		nlBlock()
	}
	comment := func() {
		b.WriteByte('#')
		b.WriteByte(" \t"[c.Intn(2)])
		b.WriteString(strings.ReplaceAll(text(c, false), "\n", "\\"))
	}
	space := func(n int) {
		for ; n > 0; n-- {
			b.WriteByte(" \t"[c.Intn(2)])
		}
	}
	// what can be put between two lines; maxInd is the limit of the indentation (-1: none)
	between := func(maxInd int) {
		for k := 0; k < 3; k++ {
			ind := c.Intn(10)
			if c.One(20) {
				ind = c.Intn(60)
			}
			if maxInd >= 0 && ind > maxInd {
				ind = c.Intn(maxInd + 1)
			}
			if l.comments > 0 && c.P(l.comments) {
				if maxInd < 0 && c.P(30) {
					space(ind)
				} else {
					b.WriteString(strings.Repeat(string(d.ch), ind))
				}
				comment()
				nl()
			}
			if l.blanks > 0 && c.P(l.blanks) {
				if c.P(50) {
					ind = 0
				}
				if maxInd < 0 && c.P(30) {
					space(ind)
				} else {
					b.WriteString(strings.Repeat(string(d.ch), ind))
				}
				nl()
			}
		}
	}

	inBlock := -1 // indentation of the line whose block has just been written
	for i, ln := range d.lines {

		// A line deeper than the line of a block would be part of it: something in between
		// ends it.
		if inBlock >= 0 && ln.ind > inBlock {
			b.WriteString(strings.Repeat(string(d.ch), c.Intn(inBlock+1)))
			if c.P(50) {
				b.WriteString("# ")
			}
			nl()
			inBlock = -1
		}
		between(inBlock)

		if l.pad && c.P(30) && inBlock < 0 {
			padTo(c, &b)
		}
		inBlock = -1

		b.WriteString(strings.Repeat(string(d.ch), ln.ind))
		for j, w := range ln.words {
			if j > 0 {
				b.WriteByte(" \t"[c.Intn(2)])
				if l.wide > 0 && c.P(l.wide) {
					space(c.Intn(30))
				}
			}
			writeWord(c, &b, w, strings.Repeat(string(d.ch), ln.ind))
		}
		last := i == len(d.lines)-1
		if ln.block != nil {
			if len(ln.words) > 0 {
				space(1 + c.Intn(3))
			}
			b.WriteByte('\\')
			nl()
			bi := c.Range(1, 6)
			if c.One(20) {
				bi = c.Range(1, 60)
			}
			for k, s := range ln.block {
				n := bi
				if c.P(20) {
					n = c.Range(1, 8)
				}
				b.WriteString(strings.Repeat(string(d.ch), ln.ind+n))
				b.WriteString(s)
				if k < len(ln.block)-1 || !last || !l.tightEnd {
					nlBlock()
				}
			}
			// blank lines at the end of a block are not part of its text
			for l.blanks > 0 && c.P(l.blanks) && (!last || !l.tightEnd) {
				k := c.Intn(10)
				if c.P(50) {
					k += ln.ind
				}
				b.WriteString(strings.Repeat(string(d.ch), k))
				nlBlock()
				if k <= ln.ind {
					// this one ends the block
					break
				}
			}
			inBlock = ln.ind
			continue
		}
		if n := len(ln.words); n > 0 && ln.words[n-1].style == 'h' {
			if !last || !l.tightEnd {
				nl()
			}
			continue
		}
		if l.trailing > 0 && c.P(l.trailing) {
			space(c.Range(1, 5))
		}
		if l.comments > 0 && c.P(l.comments/2) {
			space(1)
			comment()
		}
		if !last || !l.tightEnd {
			nl()
		}
	}
	if !l.tightEnd {
		between(inBlock)
	}
	return b.String()
}

// padTo writes a comment line such that what follows is at the limit of the buffer of the
// lexer (4096 bytes, then 2048 each time).
func padTo(c *C, b *strings.Builder) {
	n := b.Len()
	next := 4096
	for next < n+10 {
		next += 2048
	}
	next += 2048 * c.Intn(2)
	k := next - n - 3 - c.Intn(24)
	if c.One(3) {
		k = next - n - 3 - c.Intn(200)
	}
	if k < 0 {
		return
	}
	b.WriteString("# ")
	b.WriteString(strings.Repeat("x", k))
	b.WriteByte('\n')
}

func writeWord(c *C, b *strings.Builder, w dword, ind string) {
	if w.style == 'b' || w.style == 'h' {
		b.WriteString(w.s)
		return
	}
	b.WriteByte(w.style)
	eager := c.P(50) // escape also what needs no escape
	for i := 0; i < len(w.s); i++ {
		ch := w.s[i]
		if w.style != '`' {
			switch ch {
			case '\\':
				if eager || i == len(w.s)-1 || strings.IndexByte("\"'\\", w.s[i+1]) >= 0 {
					b.WriteByte('\\')
				}
			case '"', '\'':
				if ch == w.style || eager && c.P(50) {
					b.WriteByte('\\')
				}
			}
		}
		b.WriteByte(ch)
		if ch == '\n' {
			b.WriteString(ind)
		}
	}
	b.WriteByte(w.style)
}

From 8ca94818e2ca61ac648c62a2f8100b82fbaf03a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 01/54] fix: lexer takes a short read, or data returned with
 EOF, as the end of the stream

---
 lexer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index 76c8f72..d92e0e8 100644
--- a/lexer.go
+++ b/lexer.go
@@ -80,19 +80,21 @@ func (p *Lexer) fill() {
 		p.r = 0
 	}
 
-	for i := maxConsecutiveEmptyReads; i > 0; i-- {
+	// A reader may return less than asked for, or data together with an error:
+	// keep reading until the buffer is full or the stream ends, since a partly
+	// filled buffer marks the end of the stream.
+	for i := maxConsecutiveEmptyReads; i > 0 && offset < bufSize; i-- {
 		n, err := p.rd.Read(p.buf[offset:])
 		if n < 0 {
 			panic(errNegativeRead)
 		}
+		offset += n
 		if err != nil {
 			p.err = err
 			break
 		}
-
-		offset += n
-		if offset >= halfSize {
-			break
+		if n > 0 {
+			i = maxConsecutiveEmptyReads
 		}
 	}
 
-- 
2.43.0


From dcbf390f82550e0f8470708677e4a33dd52a3481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 02/54] fix: Lexer.Rune reads stale bytes at the end of the
 stream and splits runes at the buffer end

---
 lexer.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index d92e0e8..5b88457 100644
--- a/lexer.go
+++ b/lexer.go
@@ -158,13 +158,32 @@ func (p *Lexer) UnreadByte() {
 // and returns unicode.ReplacementChar (U+FFFD) with a size of 1.
 func (p *Lexer) Rune() (rune, error) {
 
-	p.fill()
+	c, err := p.Byte()
+	if err != nil {
+		p.lastRuneSize = append(p.lastRuneSize, 1)
+		return 0, err
+	}
 
-	r, size := rune(p.buf[p.r]), 1
+	r, size := rune(c), 1
 	if r >= utf8.RuneSelf {
-		r, size = utf8.DecodeRune(p.buf[p.r:p.lastByte])
+		// The encoded rune may straddle the end of the buffer: read its bytes
+		// one by one, giving back those that do not belong to it.
+		b := [utf8.UTFMax]byte{c}
+		n := 1
+		for n < utf8.UTFMax && !utf8.FullRune(b[:n]) {
+			c, err = p.Byte()
+			if err != nil {
+				p.UnreadByte()
+				break
+			}
+			b[n] = c
+			n++
+		}
+		r, size = utf8.DecodeRune(b[:n])
+		for ; n > size; n-- {
+			p.UnreadByte()
+		}
 	}
-	p.r += size
 	p.lastRuneSize = append(p.lastRuneSize, size)
 	return r, nil
 }
-- 
2.43.0


From 7a0f5a74cf58c9d16a1bba4c6205b3105b1a1bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 03/54] fix: peeking at the end of the stream moves the lexer

---
 lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer.go b/lexer.go
index 5b88457..5aba529 100644
--- a/lexer.go
+++ b/lexer.go
@@ -109,9 +109,11 @@ func (p *Lexer) Error() error {
 
 // PeekByte returns the next byte witohut consuming it
 func (p *Lexer) PeekByte() byte {
+	r := p.r
 	c, err := p.Byte()
 
 	if err != nil {
+		p.r = r
 		return 0
 	}
 
@@ -121,9 +123,12 @@ func (p *Lexer) PeekByte() byte {
 
 // PeekRune returns the next rune witohut consuming it
 func (p *Lexer) PeekRune() (rune, error) {
+	pos := p.r
 	r, err := p.Rune()
 
 	if err != nil {
+		p.UnreadRune()
+		p.r = pos
 		return 0, nil
 	}
 
-- 
2.43.0


From 3020d0b3f8abd6fc39cfba543de4f593c09333ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 04/54] fix: Lexer.Break swallows a lone CR without reporting
 the line break

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 5aba529..dcde937 100644
--- a/lexer.go
+++ b/lexer.go
@@ -245,6 +245,10 @@ func (p *Lexer) Break() bool {
 
 	if c == '\r' {
 		c, _ = p.Byte()
+		if c != '\n' {
+			p.UnreadByte()
+		}
+		return true
 	}
 
 	if c == '\n' {
-- 
2.43.0


From 63575244be5d7904d09f1aab1663de6577e0e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 05/54] fix: a quoted string cannot end in a backslash, and
 backslashes are lost in back quotes

A backslash escapes a quote or another backslash (in single and double
quotes), and is itself otherwise. Runs of backslashes were collapsed,
and a string ending in a backslash was never terminated.
---
 lexer.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/lexer.go b/lexer.go
index dcde937..2a09bab 100644
--- a/lexer.go
+++ b/lexer.go
@@ -373,7 +373,6 @@ func (p *Lexer) Quoted(ind int) (string, bool, error) {
 	}
 
 	var buf []byte
-	var c2 byte
 
 	for {
 		c, _ := p.Byte()
@@ -381,24 +380,21 @@ func (p *Lexer) Quoted(ind int) (string, bool, error) {
 			return "", false, ErrUnterminatedQuotedString
 		}
 
-		if c == c1 && c1 == '`' {
+		if c == c1 {
 			break
 		}
 
-		if c == c1 && c2 != '\\' {
-			break
-		}
-
-		if c == '\\' {
-			c2 = c
+		// \" -> ", \' -> ', \\ -> \ (but not in `)
+		if c == '\\' && c1 != '`' {
+			c, _ = p.Byte()
+			if c != '\'' && c != '"' && c != '\\' {
+				p.UnreadByte()
+				c = '\\'
+			}
+			buf = append(buf, c)
 			continue
 		}
 
-		// \" -> ", \' -> '
-		if c2 == '\\' && c != '\'' && c != '"' {
-			buf = append(buf, '\\')
-		}
-
 		buf = append(buf, c)
 
 		if c == 10 {
@@ -415,7 +411,6 @@ func (p *Lexer) Quoted(ind int) (string, bool, error) {
 				buf = append(buf, u)
 			}*/
 		}
-		c2 = c
 	}
 
 	return string(buf), true, nil
-- 
2.43.0


From f31ac554216ee33670492bf480d356e64a9575ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 06/54] fix: SpaceMax consumes a space when asked for none

The continuation lines of a quoted string that is not indented lost
their first space or tab.
---
 lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 2a09bab..f06fb9b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -335,7 +335,7 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 	spaces := 0
 	tabs := 0
 
-	for {
+	for spaces+tabs < max {
 		c, _ := p.Byte()
 		if c != '\t' && c != ' ' {
 			p.UnreadByte()
@@ -347,9 +347,6 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 		} else {
 			tabs++
 		}
-		if spaces == max || tabs == max {
-			break
-		}
 	}
 
 	var r byte
-- 
2.43.0


From 1fa854984ee08e46e70cbc24a464e905ee1d0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 07/54] fix: blank and comment lines, blocks and deep
 indentation change the structure

Lines with nothing but space or a comment took part in the layout, the line
after a nested block lost its indentation, and an indentation of more than
half the lexer buffer could not be given back.
---
 block.go  | 48 +++++++++++++++++++++++++++++++-----------------
 lexer.go  | 29 ++++++++++++++++++-----------
 parser.go |  5 +++++
 3 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/block.go b/block.go
index e245127..a51e669 100644
--- a/block.go
+++ b/block.go
@@ -16,13 +16,11 @@ import (
 //
 //     Graph ::= Line* End
 func (p *Parser) Ogdl() {
-	n, u := p.Space()
+	n, u := p.indentation()
 	if u == 0 {
 		return // Error
 	}
-	for i := n; i > 0; i-- {
-		p.UnreadByte()
-	}
+	p.unreadIndentation(n, u)
 	p.tree(n, false)
 }
 
@@ -31,16 +29,34 @@ func (p *Parser) Ogdl() {
 // This version tries to convert unquoted strings that can be parsed as ints, floats
 // or bools to their corresponding type in Go (string | int64 | float64 | bool).
 func (p *Parser) OgdlTypes() {
-	n, u := p.Space()
+	n, u := p.indentation()
 	if u == 0 {
 		return // Error
 	}
-	for i := n; i > 0; i-- {
-		p.UnreadByte()
-	}
+	p.unreadIndentation(n, u)
 	p.tree(n, true)
 }
 
+// indentation reads the space in front of a line, skipping the lines that are
+// empty or hold nothing but a comment.
+func (p *Parser) indentation() (int, byte) {
+	if p.hasInd {
+		p.hasInd = false
+		return p.ind, p.indChar
+	}
+
+	n, u := p.Space()
+	for p.Break() || p.Comment() {
+		n, u = p.Space()
+	}
+	return n, u
+}
+
+// unreadIndentation gives back the space in front of a line.
+func (p *Parser) unreadIndentation(n int, u byte) {
+	p.ind, p.indChar, p.hasInd = n, u, true
+}
+
 // tree reads all lines with indentation >= ns
 func (p *Parser) tree(ns int, types bool) {
 	for {
@@ -76,19 +92,15 @@ func (p *Parser) tree(ns int, types bool) {
 //
 func (p *Parser) line(ns int, types bool) (bool, error) {
 
-	n, u := p.Space()
+	n, u := p.indentation()
 
 	if n < ns {
-		for i := n; i > 0; i-- {
-			p.UnreadByte()
-		}
+		p.unreadIndentation(n, u)
 		return false, nil
 	}
 
 	if n > ns {
-		for i := n; i > 0; i-- {
-			p.UnreadByte()
-		}
+		p.unreadIndentation(n, u)
 		p.ev.Inc()
 		p.tree(n, types)
 		p.ev.Dec()
@@ -133,11 +145,13 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 			break
 		}
 
-		s, ok := p.Block(n)
+		s, ind, u, ok := p.block(n)
 
 		if ok {
 			p.ev.Add(s)
-			p.Break()
+			if !p.Break() && !p.Comment() {
+				p.unreadIndentation(ind, u)
+			}
 			break
 		}
 
diff --git a/lexer.go b/lexer.go
index f06fb9b..4699788 100644
--- a/lexer.go
+++ b/lexer.go
@@ -542,30 +542,37 @@ func (p *Lexer) Comment() bool {
 
 // Block ::= '\\' NL LINES_OF_TEXT
 func (p *Lexer) Block(nsp int) (string, bool) {
+	s, ns, _, ok := p.block(nsp)
+	for ; ns > 0; ns-- {
+		p.UnreadByte()
+	}
+	return s, ok
+}
+
+// block reads a block, and also the space in front of the line that follows it,
+// that it returns in the same way as Space().
+func (p *Lexer) block(nsp int) (string, int, byte, bool) {
 
 	c, _ := p.Byte()
 	if c != '\\' {
 		p.UnreadByte()
-		return "", false
+		return "", 0, ' ', false
 	}
 
-	c, _ = p.Byte()
-	if c != 10 && c != 13 {
+	if !p.Break() {
 		p.UnreadByte()
-		p.UnreadByte()
-		return "", false
-	}
-	// Read NL if CR was found
-	if c == 13 {
-		p.Byte()
+		return "", 0, ' ', false
 	}
 
+	var ns int
+	var u byte
+
 	buffer := &bytes.Buffer{}
 
 	// read lines while indentation is > nsp
 
 	for {
-		ns, u := p.Space()
+		ns, u = p.Space()
 
 		if u == 0 || ns <= nsp {
 			break
@@ -608,7 +615,7 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		}
 	}
 
-	return s, true
+	return s, ns, u, true
 }
 
 // Scalar ::= quoted | string
diff --git a/parser.go b/parser.go
index 7b1ea91..fcdead0 100644
--- a/parser.go
+++ b/parser.go
@@ -14,6 +14,11 @@ import (
 type Parser struct {
 	Lexer                     // Buffered byte and rune readed
 	ev    *SimpleEventHandler // The output (event) stream
+
+	// The space in front of the current line, if it has been read already.
+	ind     int
+	indChar byte
+	hasInd  bool
 }
 
 // NewParser return a new Parser from a Reader
-- 
2.43.0


From ae68a99302f408cf3cb84976bf42ffcd48f412bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 08/54] fix: Number consumes a sign or point that is not
 followed by digits

---
 lexer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lexer.go b/lexer.go
index 4699788..6ac1d04 100644
--- a/lexer.go
+++ b/lexer.go
@@ -459,6 +459,8 @@ func (p *Lexer) Number() (string, bool) {
 	var sign byte
 	point := false
 
+	digits := false
+
 	c := p.PeekByte()
 	if c == '-' || c == '+' {
 		sign = c
@@ -476,9 +478,22 @@ func (p *Lexer) Number() (string, bool) {
 			break
 		}
 		buf = append(buf, c)
+		digits = true
 	}
 
 	p.UnreadByte()
+
+	// Not a number: give back the sign and the point
+	if !digits {
+		if point {
+			p.UnreadByte()
+		}
+		if sign != 0 {
+			p.UnreadByte()
+		}
+		return "", false
+	}
+
 	if sign == '-' {
 		return "-" + string(buf), len(buf) > 0
 	}
-- 
2.43.0


From 08a28d64c71dcc1b8a3fae56dfd1f52d4d4b633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 09/54] fix: Operator takes several operators in a row for one

3*-2, a&&!b and x==-1 were not understood.
---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 6ac1d04..47ce11f 100644
--- a/lexer.go
+++ b/lexer.go
@@ -501,7 +501,8 @@ func (p *Lexer) Number() (string, bool) {
 }
 
 // Operator returns true if it finds an operator at the current parser position
-// It returns also the operator found.
+// It returns also the operator found: the longest one that is there (in 'a&&!b'
+// the first operator is '&&').
 func (p *Lexer) Operator() (string, bool) {
 
 	var buf []byte
@@ -511,6 +512,9 @@ func (p *Lexer) Operator() (string, bool) {
 		if !isOperatorChar(c) {
 			break
 		}
+		if len(buf) > 0 && precedence(string(buf)+string(rune(c))) < 0 {
+			break
+		}
 		buf = append(buf, c)
 	}
 
-- 
2.43.0


From 2046e06e4f39da6ca7f6007e19af58aa31b1741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 10/54] fix: text form of words with back quotes or backslashes
 cannot be read back

Text also stripped the quotes that are part of the content of the first node.
---
 graph.go | 41 ++++++++++-------------------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/graph.go b/graph.go
index 710796b..276721d 100644
--- a/graph.go
+++ b/graph.go
@@ -372,14 +372,6 @@ func (g *Graph) Text() string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
@@ -405,14 +397,6 @@ func (g *Graph) Show() string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
@@ -444,7 +428,7 @@ func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 		s = _string(g.This)
 	}
 
-	if strings.ContainsAny(s, "\n\r \t'\",()") {
+	if strings.ContainsAny(s, "\n\r \t'\",()") || s == "\\" || strings.HasPrefix(s, "`") {
 
 		// print quoted, but not at level 0
 		// Do not convert " to \" below if level==0 !
@@ -453,25 +437,20 @@ func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 			buffer.WriteByte('"')
 		}
 
-		var c, cp byte
-
-		cp = 0
+		s = strings.Replace(s, "\r", "", -1) // ignore CR's
 
 		for i := 0; i < len(s); i++ {
-			c = s[i] // byte, not rune
-			if c == 13 {
-				continue // ignore CR's
-			} else if c == 10 {
+			c := s[i] // byte, not rune
+			if c == 10 {
 				buffer.WriteByte('\n')
 				buffer.WriteString(sp)
-			} else if c == '"' && n > 0 {
-				if cp != '\\' {
-					buffer.WriteString("\\\"")
-				}
-			} else {
-				buffer.WriteByte(c)
+				continue
+			}
+			// Escape quotes, and the backslashes that would be taken for an escape
+			if n > 0 && (c == '"' || c == '\\' && (i == len(s)-1 || strings.IndexByte("\"'\\", s[i+1]) >= 0)) {
+				buffer.WriteByte('\\')
 			}
-			cp = c
+			buffer.WriteByte(c)
 		}
 
 		if n > 0 {
-- 
2.43.0


From 32869f6b343936732412e5e5fef73b2e34cd9f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 11/54] fix: time to print a deep graph is cubic in its depth

---
 graph.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/graph.go b/graph.go
index 276721d..7607736 100644
--- a/graph.go
+++ b/graph.go
@@ -405,10 +405,7 @@ func (g *Graph) Show() string {
 // result is printed.
 func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 
-	sp := ""
-	for i := 0; i < n; i++ {
-		sp += "  "
-	}
+	sp := strings.Repeat("  ", n)
 
 	/*
 	   When printing strings with newlines, there are two possibilities:
-- 
2.43.0


From 3a25b15e1cc8549543b874bce07627a991b02b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 12/54] fix: Equals and Delete panic on binary content, and
 Equals on a nil graph

---
 graph.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 7607736..10fae9f 100644
--- a/graph.go
+++ b/graph.go
@@ -38,7 +38,11 @@ func (g *Graph) ThisType() string {
 // Equals returns true if the given graph and the receiver graph are equal.
 func (g *Graph) Equals(c *Graph) bool {
 
-	if c.This != g.This {
+	if g == nil || c == nil {
+		return g == c
+	}
+	// Not ==, that panics if the content cannot be compared (slices for example)
+	if !reflect.DeepEqual(c.This, g.This) {
 		return false
 	}
 	if g.Len() != c.Len() {
@@ -237,7 +241,7 @@ func (g *Graph) Delete(n interface{}) {
 		return
 	}
 	for i := 0; i < g.Len(); i++ {
-		if g.Out[i].This == n {
+		if node := g.Out[i]; node != nil && reflect.DeepEqual(node.This, n) {
 			if i < (g.Len() - 1) {
 				g.Out = append(g.Out[:i], g.Out[i+1:]...)
 			} else {
-- 
2.43.0


From 59eb111177bf17851add7a25bccbbfb9e84a7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 13/54] fix: Copy drops the nodes without content, and all that
 is below them

---
 graph.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 10fae9f..9e27776 100644
--- a/graph.go
+++ b/graph.go
@@ -131,7 +131,12 @@ func (g *Graph) Copy(c *Graph) {
 		return
 	}
 	for _, n := range c.Out {
-		nn := g.Add(n.This)
+		if n == nil {
+			continue
+		}
+		// Not Add(), that ignores nil
+		nn := New(n.This)
+		g.Out = append(g.Out, nn)
 		nn.Copy(n)
 	}
 }
-- 
2.43.0


From 1c0b950d0dca78692fed76029e3d04d139da4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 14/54] fix: Merge looks for the content of the first subnode
 instead of that of the node

---
 graph.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 9e27776..5e0d439 100644
--- a/graph.go
+++ b/graph.go
@@ -502,8 +502,12 @@ func (g *Graph) Substitute(s string, v interface{}) {
 // Merge the given graph into the current (receiver) graph
 func (g *Graph) Merge(src *Graph) {
 
+	if g == nil || src == nil {
+		return
+	}
+
 	for _, node := range src.Out {
-		n := g.Node(node.String())
+		n := g.Node(node.ThisString())
 
 		if n == nil {
 			g.Add(node)
-- 
2.43.0


From 1ae84e7164fda7fcf7ed6ab320af30f15d440bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 15/54] fix: GetAt and ThisType panic, and Add adds a useless
 node, when there is nothing

---
 graph.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/graph.go b/graph.go
index 5e0d439..fe46c34 100644
--- a/graph.go
+++ b/graph.go
@@ -30,8 +30,12 @@ func (g *Graph) Len() int {
 	return len(g.Out)
 }
 
-// ThisType returns the name of the native type contained in the current node.
+// ThisType returns the name of the native type contained in the current node,
+// or an empty string if there is no content.
 func (g *Graph) ThisType() string {
+	if g == nil || g.This == nil {
+		return ""
+	}
 	return reflect.TypeOf(g.This).String()
 }
 
@@ -64,7 +68,10 @@ func (g *Graph) Add(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node)
 		return node
 	}
@@ -81,7 +88,10 @@ func (g *Graph) addNodes(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node.Out...)
 		return node
 	}
@@ -211,7 +221,7 @@ func (g *Graph) Create(s string) *Graph {
 
 // GetAt returns a subnode by index, or nil if the index is out of range.
 func (g *Graph) GetAt(i int) *Graph {
-	if i >= len(g.Out) || i < 0 {
+	if i < 0 || i >= g.Len() {
 		return nil
 	}
 
-- 
2.43.0


From c59b0356baa13248874a236f28c2e850cc3db7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 16/54] fix: accessors panic on a nil graph, or on content that
 is all space

Find also returned an empty graph where its documentation says nil.
---
 gettypes.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index d539673..3e4d8e7 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -24,6 +24,10 @@ func (g *Graph) Find(re string) (*Graph, error) {
 		return nil, err
 	}
 
+	if g == nil {
+		return nil, nil
+	}
+
 	r := New("_")
 
 	for _, node := range g.Out {
@@ -32,6 +36,9 @@ func (g *Graph) Find(re string) (*Graph, error) {
 		}
 	}
 
+	if r.Len() == 0 {
+		return nil, nil
+	}
 	return r, nil
 }
 
@@ -76,7 +83,7 @@ func (g *Graph) Bool(def ...bool) bool {
 
 // ThisValue returns this node as a reflect.Value.
 func (g *Graph) ThisValue() reflect.Value {
-	return reflect.ValueOf(g.This)
+	return reflect.ValueOf(g.this())
 }
 
 // Value returns the node as a reflect.Value.
@@ -192,7 +199,7 @@ func (g *Graph) Bytes() []byte {
 
 // ThisBytes returns the node as []byte, or nil if not possble.
 func (g *Graph) ThisBytes() []byte {
-	return _bytes(g.This)
+	return _bytes(g.this())
 }
 
 // Number returns either a float64, int64 or nil
@@ -202,17 +209,17 @@ func (g *Graph) Number() interface{} {
 
 // ThisNumber returns either a float64, int64 or nil
 func (g *Graph) ThisNumber() interface{} {
-	return number(g.This)
+	return number(g.this())
 }
 
 // ThisInt64 returns a int64 or nil
 func (g *Graph) ThisInt64() (int64, bool) {
-	return _int64f(g.This)
+	return _int64f(g.this())
 }
 
 // ThisFloat64 returns a float64
 func (g *Graph) ThisFloat64() (float64, bool) {
-	return _float64f(g.This)
+	return _float64f(g.this())
 }
 
 // Scalar returns the current node content, reducing the number of types
@@ -231,9 +238,6 @@ func (g *Graph) ThisFloat64() (float64, bool) {
 func (g *Graph) Scalar() interface{} {
 
 	itf := g.Interface()
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
-	}
 
 	// If it can be parsed as a number, return it.
 	n := number(itf)
@@ -254,9 +258,9 @@ func (g *Graph) Scalar() interface{} {
 // ThisScalar returns this node's content as an interface
 func (g *Graph) ThisScalar() interface{} {
 
-	itf := g.This
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
+	itf := g.this()
+	if itf == nil {
+		itf = g.Interface()
 	}
 
 	// If it ca be parsed as a number, return it.
@@ -277,10 +281,15 @@ func (g *Graph) ThisScalar() interface{} {
 
 // Interface returns the first child of this node as an interface
 func (g *Graph) Interface() interface{} {
-	if g != nil && g.Out != nil && len(g.Out) != 0 {
-		return g.Out[0].This
+	return g.GetAt(0).this()
+}
+
+// this returns the content of this node, or nil if there is no node.
+func (g *Graph) this() interface{} {
+	if g == nil {
+		return nil
 	}
-	return nil
+	return g.This
 }
 
 // number tries hard to convert the parameter to an int64 or float64. If it
@@ -470,7 +479,7 @@ func _float64(i interface{}) (float64, bool) {
 func _int64f(i interface{}) (int64, bool) {
 
 	if i2, ok := i.(*Graph); ok {
-		i = i2.This
+		i = i2.this()
 	}
 
 	switch v := i.(type) {
@@ -692,7 +701,7 @@ func isInteger(s string) bool {
 		}
 	}
 
-	if s[i] == '-' {
+	if i < l && s[i] == '-' {
 		i++
 	}
 
-- 
2.43.0


From 9290333e08a4274395c2d5bf8547c63bddc309ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 17/54] fix: the default of the string accessors is not used
 when there is nothing

StringCSV panicked on a graph without subnodes.
---
 gettypes.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index 3e4d8e7..a38c283 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -106,7 +106,11 @@ func (g *Graph) String(def ...string) string {
 		return def[0]
 	}
 
-	return _string(g.Interface())
+	s := _string(g.Interface())
+	if len(s) == 0 && len(def) != 0 {
+		return def[0]
+	}
+	return s
 }
 
 // StringCSV returns a comma separated value representation of all direct subnodes.
@@ -122,10 +126,17 @@ func (g *Graph) StringCSV(def ...string) string {
 		return def[0]
 	}
 
+	if g.Len() == 0 {
+		if len(def) == 0 {
+			return ""
+		}
+		return def[0]
+	}
+
 	s := ""
 
 	for _, n := range g.Out {
-		s += ", " + _string(n.This)
+		s += ", " + _string(n.this())
 	}
 
 	return s[2:]
@@ -146,7 +157,7 @@ func (g *Graph) Strings() []string {
 	var ss []string
 
 	for _, n := range g.Out {
-		ss = append(ss, _string(n.This))
+		ss = append(ss, _string(n.this()))
 	}
 
 	return ss
@@ -166,13 +177,16 @@ func (g *Graph) StringTxt(def ...string) string {
 	}
 
 	if g.Len() == 0 {
-		return ""
+		if len(def) == 0 {
+			return ""
+		}
+		return def[0]
 	}
 
 	s := ""
 
 	for _, n := range g.Out {
-		s += " " + _string(n.This)
+		s += " " + _string(n.this())
 	}
 
 	return s[1:]
@@ -189,7 +203,11 @@ func (g *Graph) ThisString(def ...string) string {
 		return def[0]
 	}
 
-	return _string(g.This)
+	s := _string(g.This)
+	if len(s) == 0 && len(def) != 0 {
+		return def[0]
+	}
+	return s
 }
 
 // Bytes returns the graph as []byte, or nil if not possble.
-- 
2.43.0


From a70316bc84038ad91538a5402f14221bd80d5c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 18/54] fix: Set ignores what follows an index, and leaves nil
 nodes before it

Setting a[2] on a shorter list filled it with nil nodes, on which most
operations panic, a[0].x replaced a[0], and a negative index panicked.
---
 graph.go | 69 +++++++++++++++++++++-----------------------------------
 1 file changed, 26 insertions(+), 43 deletions(-)

diff --git a/graph.go b/graph.go
index fe46c34..3f45b39 100644
--- a/graph.go
+++ b/graph.go
@@ -303,59 +303,42 @@ func (g *Graph) Set(s string, val interface{}) *Graph {
 	return g.set(path, val)
 }
 
-// TODO: Clean this code:
-func (g *Graph) set(path *Graph, val interface{}) *Graph {
+// maxSetIndex limits the number of nodes that set() creates to reach an index.
+const maxSetIndex = 1 << 20
 
-	node := g
+// set sets the first occurrence of the given path to the value given, creating
+// what does not exist. The nodes created to reach an index contain "_".
+func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
-	i := 0
-	var prev *Graph
+	if g == nil || path == nil {
+		return nil
+	}
 
-	for ; i < len(path.Out); i++ {
+	node := g
 
-		prev = node
+	for i, elem := range path.Out {
 
-		elem := path.Out[i]
 		if elem.ThisString() == TypeIndex {
-			i := elem.Int64()
-			if len(node.Out) <= int(i) {
-				o := make([]*Graph, i+1)
-				for j, n := range node.Out {
-					o[j] = n
-				}
-				node.Out = o
+			ix := elem.index(g)
+			if ix < 0 || ix >= len(node.Out)+maxSetIndex {
+				return nil
 			}
-			node.Out[i] = New(val)
-			return node.Out[i]
-		}
-		node = node.Node(elem.ThisString())
-
-		if node == nil {
-			break
-		}
-	}
-
-	if node == nil {
-		node = prev
-
-		for ; i < len(path.Out); i++ {
-			elem := path.Out[i]
-
-			if elem.ThisString() == TypeIndex {
-				i := elem.Int64()
-				if len(node.Out) <= int(i) {
-					o := make([]*Graph, i+1)
-					for j, n := range node.Out {
-						o[j] = n
-					}
-					node.Out = o
-				}
-				node.Out[i] = New(val)
-				return node.Out[i]
+			for len(node.Out) <= ix {
+				node.Add("_")
+			}
+			if i == len(path.Out)-1 {
+				node.Out[ix] = New(val)
+				return node.Out[ix]
 			}
+			node = node.Out[ix]
+			continue
+		}
 
-			node = node.Add(elem.This)
+		next := node.Node(elem.ThisString())
+		if next == nil {
+			next = node.Add(elem.This)
 		}
+		node = next
 	}
 
 	node.Out = nil
-- 
2.43.0


From d0b4f739148efe4f58f48303d3da3eb073f4065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 19/54] fix: Get looks up what follows an index in the wrong
 node

The elements after [N] were searched in a holder of the node instead of in the
node itself (a[0].x), and an index out of range gave a graph on which the
accessors panic.
---
 eval.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index d708441..f43ce56 100644
--- a/eval.go
+++ b/eval.go
@@ -50,6 +50,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 	ctx := g            // Current context node
 	var ctxPrev *Graph  // Previous context node
 	var elemPrev string // Previous path element searched in the context node
+	var addRoot bool
 
 	for i := 0; i < len(p.Out); i++ {
 
@@ -59,6 +60,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		pathNode := p.Out[i]
 		pathElement := pathNode.ThisString()
+		addRoot = false
 
 		switch pathElement {
 
@@ -71,10 +73,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 				return nil, ErrInvalidIndex
 			}
 
-			r := New("[")
-			r.Add(ctx.GetAt(ix))
 			ctxPrev = ctx
-			ctx = r
+			ctx = ctx.GetAt(ix)
+			addRoot = true
 
 		case TypeSelector:
 
@@ -159,6 +160,12 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		}
 	}
 
+	if addRoot && ctx != nil {
+		r := New("[")
+		r.Add(ctx)
+		ctx = r
+	}
+
 	return ctx, nil
 }
 
@@ -302,7 +309,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 		}
 	}
 
-	if addRoot {
+	if addRoot && ctx != nil {
 		r := New("[")
 		r.Add(ctx)
 		ctx = r
-- 
2.43.0


From cc79ef1641adaafbb4c6f833b22c3fe6eb4732f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 20/54] fix: a graph set or looped over below itself becomes
 cyclic

$(a=_this) and $for(a,_this) ended in a stack overflow.
---
 graph.go    | 20 ++++++++++++++++++++
 template.go |  5 ++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 3f45b39..ea58c1d 100644
--- a/graph.go
+++ b/graph.go
@@ -341,11 +341,31 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 		node = next
 	}
 
+	// Do not create a cycle if the value includes the node that is set
+	if v, ok := val.(*Graph); ok && v.includes(node) {
+		val = v.Clone()
+	}
+
 	node.Out = nil
 
 	return node.addNodes(val)
 }
 
+// includes returns true if the node n is part of the graph.
+func (g *Graph) includes(n *Graph) bool {
+	if g == n {
+		return true
+	}
+	if g != nil {
+		for _, node := range g.Out {
+			if node.includes(n) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // Text is the OGDL text emitter. It converts a Graph into OGDL text.
 //
 // Strings are quoted if they contain spaces, newlines or special
diff --git a/template.go b/template.go
index 9602ce2..329509b 100644
--- a/template.go
+++ b/template.go
@@ -144,11 +144,14 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// Assing expression value to path
 			// XXX if not Graph
 
+			// Not the nodes themselves, since the loop variable may be added to them
+			list := append([]*Graph(nil), gi.Out...)
+
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
 			c.Delete(varname)
 			it := c.Add(varname)
 
-			for _, ee := range gi.Out {
+			for _, ee := range list {
 
 				it.Out = nil
 				it.Add(ee)
-- 
2.43.0


From d0af912c16c37f00ded60bc6c49c397dcf1187eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 21/54] fix: parentheses, unary operators and operators in
 arguments and indexes fail

(1+2)*3, !(a==b) and -a panicked, !b was always true, in !a&&b the operator
applied to the whole, in f(1+2) the operators were not recognized (unless there
was one more argument), and in a[1+1] never. Also .5 was not a number, and
paths beginning with some Unicode letters were not paths.
---
 eval.go       | 33 ++++++++++++++++++++++++++++++---
 expression.go | 46 +++++++++++++++++-----------------------------
 flow.go       | 14 ++++++++++++--
 gettypes.go   | 11 ++++++-----
 4 files changed, 65 insertions(+), 39 deletions(-)

diff --git a/eval.go b/eval.go
index f43ce56..7639703 100644
--- a/eval.go
+++ b/eval.go
@@ -328,7 +328,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 	// Return nil and empty strings as is
-	if p.This == nil {
+	if p == nil || p.This == nil {
 		return nil, ErrNilReceiver
 	}
 
@@ -340,19 +340,28 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 	// first check if it is a number because it can have an operatorChar
 	// in front: the minus sign
-	if isNumber(s) {
+	if p.Len() == 0 && isNumber(s) {
 		return p.ThisNumber(), nil
 	}
 
 	switch s {
 	case "!":
 		// Unary expression !expr
-		return !g.evalBool(p.Out[0]), nil
+		itf, err := g.evalExpression(p.GetAt(0), true)
+		if err != nil {
+			return nil, err
+		}
+		b, _ := _boolf(itf)
+		return !b, nil
 	case TypeExpression:
 		return g.evalExpression(p.GetAt(0), simpl)
 	case TypePath:
 		return g.evalPath(p, simpl)
 	case TypeGroup:
+		// A single expression in parentheses
+		if p.Len() == 1 {
+			return g.evalExpression(p.GetAt(0), simpl)
+		}
 		// TODO expression list (could also be OGDL flow!)
 		r := New(TypeGroup)
 		for _, expr := range p.Out {
@@ -401,6 +410,24 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
 
+	switch p.Len() {
+	case 0:
+		return nil // operand missing
+	case 1:
+		// Unary expression
+		i1, err := g.evalExpression(p.Out[0], true)
+		if err != nil {
+			return err // ?
+		}
+		switch p.ThisString() {
+		case "+":
+			return i1
+		case "-":
+			return calc(int64(0), i1, '-')
+		}
+		return nil
+	}
+
 	n1 := p.Out[0]
 
 	i2, err := g.evalExpression(p.Out[1], true)
diff --git a/expression.go b/expression.go
index 9fe3ba0..a97e3b3 100644
--- a/expression.go
+++ b/expression.go
@@ -28,51 +28,39 @@ func (g *Graph) ast() {
 	}
 
 	for _, node := range g.Out {
-		if node.ThisString() == TypeExpression {
+		switch node.ThisString() {
+		case TypeExpression, TypeIndex, TypeSelector:
 			node._ast()
-		} else {
+		default:
 			node.ast()
 		}
 	}
 }
 
+// _ast converts the list of operands and binary operators into a tree. Unary
+// operators have their operand below already.
 func (g *Graph) _ast() {
 
-	if g.Len() < 2 {
-		return
-	}
-
-	for _, node := range g.Out {
-		node.ast()
-	}
-
-	if g.Len() == 2 {
-		node := g.Out[0]
-
-		if node.ThisString() == "!" {
-			node.Add(g.Out[1])
-		}
-		g.DeleteAt(1)
-		return
-	}
-
-	var e1, e2 *Graph
+	g.ast()
 
 	for j := 6; j >= 0; j-- {
 
+		var out []*Graph
+
 		for i := 0; i < len(g.Out); i++ {
 
 			node := g.Out[i]
-			if precedence(node.ThisString()) == j {
-				e1 = g.Out[i-1]
-				e2 = g.Out[i+1]
-				g.Out = append(g.Out[:i-1], g.Out[i:]...)
-				g.Out = append(g.Out[:i], g.Out[i+1:]...)
-				node.Add(e1)
-				node.Add(e2)
-				i--
+			if node.Len() == 0 && precedence(node.ThisString()) == j && len(out) > 0 && i+1 < len(g.Out) {
+				node.Add(out[len(out)-1])
+				node.Add(g.Out[i+1])
+				out[len(out)-1] = node
+				i++
+			} else {
+				out = append(out, node)
 			}
 		}
+
+		g.Out = out
 	}
 }
 
diff --git a/flow.go b/flow.go
index 74089af..07d8cb4 100644
--- a/flow.go
+++ b/flow.go
@@ -15,6 +15,7 @@ func NewPath(s string) *Graph {
 	p.Path()
 	g := p.Graph()
 	g.This = TypePath
+	g.ast()
 	return g
 }
 
@@ -174,9 +175,9 @@ func (p *Parser) Expression() bool {
 // UnaryExpression := cpath | constant | op1 cpath | op1 constant | '(' expr ')' | op1 '(' expr ')'
 func (p *Parser) UnaryExpression() bool {
 
-	c := p.PeekByte()
+	c, _ := p.PeekRune()
 
-	if IsLetter(rune(c)) {
+	if IsLetter(c) {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
 		p.Path()
@@ -202,17 +203,26 @@ func (p *Parser) UnaryExpression() bool {
 	b, ok = p.Operator()
 
 	if ok {
+		// The operand goes below the operator
 		p.ev.Add(b)
+		p.ev.Inc()
+		p.Space()
+		ok = p.UnaryExpression()
+		p.ev.Dec()
+		return ok
 	}
 
 	if p.PeekByte() == '(' {
 		p.Byte() // Consume the '('
 		p.ev.Add(TypeGroup)
 		p.ev.Inc()
+		p.ev.Add(TypeExpression)
+		p.ev.Inc()
 		p.Space()
 		p.Expression()
 		p.Space()
 		p.ev.Dec()
+		p.ev.Dec()
 
 		if p.PeekByte() != ')' {
 			return false
diff --git a/gettypes.go b/gettypes.go
index a38c283..616ecb3 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -692,12 +692,13 @@ func isNumber(s string) bool {
 	if len(s) == 0 {
 		return false
 	}
-	if !IsDigit(rune(s[0])) {
-		if len(s) < 2 || s[0] != '-' || !IsDigit(rune(s[1])) {
-			return false
-		}
+	if s[0] == '-' {
+		s = s[1:]
 	}
-	return true
+	if len(s) != 0 && s[0] == '.' {
+		s = s[1:]
+	}
+	return len(s) != 0 && IsDigit(rune(s[0]))
 }
 
 // IsInteger returns true for strings containing exclusively digits, with an
-- 
2.43.0


From 0b563c0cf73a06cabeee516d10f256f02fd8e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 22/54] fix: integer division by zero in an expression panics

---
 eval.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eval.go b/eval.go
index 7639703..1fab119 100644
--- a/eval.go
+++ b/eval.go
@@ -642,8 +642,14 @@ func calc(v1, v2 interface{}, op int) interface{} {
 		case '*':
 			return i1 * i2
 		case '/':
+			if i2 == 0 {
+				return nil // undefined
+			}
 			return i1 / i2
 		case '%':
+			if i2 == 0 {
+				return nil // undefined
+			}
 			return i1 % i2
 		}
 	}
@@ -683,6 +689,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	case '/':
 		return i3 / i4
 	case '%':
+		if int(i4) == 0 {
+			return nil // undefined
+		}
 		return int(i3) % int(i4)
 	}
 
-- 
2.43.0


From b6eaa0f14140f316c317749e42510ac13550d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 23/54] fix: assignment panics without a context or to a node
 without content

It also changed the context when the left side is not a path.
---
 eval.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 1fab119..3a1b7b4 100644
--- a/eval.go
+++ b/eval.go
@@ -583,6 +583,10 @@ func logic(i1, i2 interface{}, op int) bool {
 // assign modifies the context graph
 func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 
+	if g == nil || p.ThisString() != TypePath {
+		return nil // nothing to assign to
+	}
+
 	if op == '=' {
 		return g.set(p, v)
 	}
@@ -590,7 +594,7 @@ func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 	// if p doesn't exist, just set it to the value given
 	left, _ := g.getPath(p)
 	if left != nil {
-		return g.set(p, calc(left.Out[0].This, v, op))
+		return g.set(p, calc(left.Interface(), v, op))
 	}
 
 	switch op {
-- 
2.43.0


From 966c0efeb12482ed2a5c3a1f4fb024940a4694f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 24/54] fix: functions below the first level of the context get
 the wrong arguments

In a.f(1) and a.obj.method(1) the arguments (and the name of the method) were
taken from a fixed position in the path, and Get called methods a second time.
---
 eval.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/eval.go b/eval.go
index 3a1b7b4..ce00e02 100644
--- a/eval.go
+++ b/eval.go
@@ -38,6 +38,15 @@ func (g *Graph) evalBool(e *Graph) bool {
 	return b
 }
 
+// from returns the part of a path that begins at element i, or all of it if i is
+// negative.
+func (g *Graph) from(i int) *Graph {
+	if i <= 0 {
+		return g
+	}
+	return &Graph{g.This, g.Out[i:]}
+}
+
 // GetPath <-> EvalPath
 func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
@@ -110,7 +119,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		case TypeArguments:
 			// We have hit an argument list of a function
 			if ctx.Len() > 0 {
-				itf, err := g.function(p, ctx.GetAt(0).This)
+				itf, err := g.function(p.from(i-1), ctx.GetAt(0).This)
 				if err != nil {
 					return nil, err
 				}
@@ -146,7 +155,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 			if ctx == nil {
 				if ctxPrev.Len() > 0 {
-					itf, err := g.function(p, ctxPrev.GetAt(0).This)
+					itf, err := g.function(p.from(i-1), ctxPrev.GetAt(0).This)
 					if err != nil {
 						return nil, err
 					}
@@ -155,6 +164,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 					if !ok {
 						return nil, ErrFunctionNoGraph
 					}
+					if p.GetAt(i+1).ThisString() == TypeArguments {
+						i++ // passed to the function already
+					}
 				}
 			}
 		}
@@ -256,7 +268,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 		case TypeArguments:
 			// We have hit an argument list of a function
 			if ctx.Len() > 0 {
-				itf, err := g.function(p, ctx.GetAt(0).This)
+				itf, err := g.function(p.from(i-1), ctx.GetAt(0).This)
 				if err != nil {
 					return nil, err
 				}
@@ -292,7 +304,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 			if ctx == nil {
 				if ctxPrev.Len() > 0 {
-					itf, err := g.function(p, ctxPrev.GetAt(0).This)
+					itf, err := g.function(p.from(i-1), ctxPrev.GetAt(0).This)
 					if err != nil {
 						return nil, err
 					}
@@ -302,7 +314,12 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 						return itf, nil
 					}
 					// fmt.Printf("evalPath function %s %d %d %d\n", pathElement, i, p.Len(), len(p.Out))
-					return itf, nil
+					if p.GetAt(i+1).ThisString() == TypeArguments {
+						i++ // passed to the function already
+					}
+					if i >= len(p.Out)-1 {
+						return itf, nil
+					}
 				}
 			}
 
-- 
2.43.0


From d2fdcb6a51af828793abc7840592e1d646528eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 25/54] fix: function calls with wrong arguments panic

Too many arguments, a path that continues without arguments, arguments that
cannot be converted, and variadic functions.
---
 function.go | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/function.go b/function.go
index bb11df0..62a7852 100644
--- a/function.go
+++ b/function.go
@@ -45,6 +45,10 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 	case reflect.Func:
 
+		if v.IsNil() {
+			return nil, errors.New("No function")
+		}
+
 		//log.Println("function.Func", path.Out[1].ThisString(), path.Out[1].Len())
 		// log.Println("Func type", v.Type())
 		//log.Println(runtime.FuncForPC(v.Pointer()).Name())
@@ -56,7 +60,7 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		if v.Type() == rfType {
 			// Remote function
 			n := New("_")
-			nn := n.Add(path.Out[1].This)
+			nn := n.Add(path.GetAt(1).this())
 			if len(path.Out) > 2 {
 				for _, arg := range path.Out[2].Out {
 					// log.Printf("arg:\n%s\n", arg.Show())
@@ -68,6 +72,9 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			args = append(args, n)
 		} else {
 			// Local function
+			if path.GetAt(1).ThisString() != TypeArguments {
+				return nil, errors.New("No arguments")
+			}
 			for _, arg := range path.Out[1].Out {
 				itf, _ := g.evalExpression(arg, true)
 				args = append(args, itf)
@@ -75,6 +82,12 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
+		// Check that the argument types match, otherwise v.Call() will panic
+		if v.Type().NumIn() != len(args) {
+			// TODO Check that we print the name of the function
+			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
+		}
+
 		for i, arg := range args {
 			if arg == nil {
 				// No untyped nil support :-(
@@ -84,12 +97,6 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
-		// Check that the argument types match, otherwise v.Call() will panic
-		if v.Type().NumIn() != len(args) {
-			// TODO Check that we print the name of the function
-			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
-		}
-
 		for i := 0; i < v.Type().NumIn(); i++ {
 			if v.Type().In(i).String() != vargs[i].Type().String() {
 				return nil, errors.New("arguments do not match")
@@ -97,7 +104,7 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		}
 
 		// TODO: return 0..2 values
-		vv := v.Call(vargs)
+		vv := call(v, vargs)
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
@@ -151,13 +158,17 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 			// Type adapter. A bit slow (cache could help)
 			dtype := mtype.In(i).String()
-			vargs = append(vargs, convert(args[i], dtype))
+			varg := convert(args[i], dtype)
+			if !varg.IsValid() {
+				return nil, errors.New("arguments do not match")
+			}
+			vargs = append(vargs, varg)
 		}
 
 		// log.Printf(" - vargs: %v", vargs)
 
 		// TODO: return 0..2 values
-		vv := me.Call(vargs)
+		vv := call(me, vargs)
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
@@ -169,6 +180,14 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 }
 
+// call calls a function whose last argument is a slice if it is variadic.
+func call(f reflect.Value, args []reflect.Value) []reflect.Value {
+	if f.Type().IsVariadic() {
+		return f.CallSlice(args)
+	}
+	return f.Call(args)
+}
+
 // Convert arg to dtype, if possible.
 func convert(arg interface{}, dtype string) reflect.Value {
 
-- 
2.43.0


From a1b392a285767c3c4e9c0269228c790eb4545eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 26/54] fix: a dot after a variable in a template is lost

---
 flow.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flow.go b/flow.go
index 07d8cb4..3c600f7 100644
--- a/flow.go
+++ b/flow.go
@@ -3,6 +3,7 @@ package ogdl
 import (
 	"bytes"
 	"errors"
+	"strings"
 )
 
 // NewPath takes a Unicode string representing an OGDL path, parses it and
@@ -287,6 +288,13 @@ func (p *Parser) Path() bool {
 				}
 			} else {
 				dot = true
+
+				// The dot is not part of the path if there is no element after it
+				r, _ := p.PeekRune()
+				if !isTokenChar(r) && !strings.ContainsRune("\"'`[({", r) {
+					p.UnreadByte()
+					break
+				}
 			}
 		}
 
-- 
2.43.0


From 42051460ae49cffb46f219241e1bac5ff0c62e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 27/54] fix: a path with an empty group panics

---
 eval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index ce00e02..fe97881 100644
--- a/eval.go
+++ b/eval.go
@@ -135,7 +135,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
@@ -284,7 +284,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 35af0f3c6228c1bec051c1ae6f50666536a64ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 28/54] fix: $break inside $if does not end the loop

---
 template.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/template.go b/template.go
index 329509b..20476b8 100644
--- a/template.go
+++ b/template.go
@@ -100,21 +100,23 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			yes = c.evalBool(n.GetAt(0).GetAt(0))
 			// if true, evaluate the template part
 			if yes {
-				n.GetAt(1).process(c, buffer)
+				if n.GetAt(1).process(c, buffer) {
+					return true
+				}
 			}
 		case TypeElseIf:
 			if !yes {
 				// evaluate the expression
 				yes = c.evalBool(n.GetAt(0).GetAt(0))
 				// if true, evaluate the template part
-				if yes {
-					n.GetAt(1).process(c, buffer)
+				if yes && n.GetAt(1).process(c, buffer) {
+					return true
 				}
 			}
 		case TypeElse:
 			// if there was a previous if or elseif evaluating to false:
-			if !yes {
-				n.GetAt(0).process(c, buffer)
+			if !yes && n.GetAt(0).process(c, buffer) {
+				return true
 			}
 		case TypeFor:
 			// The first subnode (of !g) is a path
-- 
2.43.0


From 35c036d514425788ed0fcd7096e1306e37e6f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 29/54] fix: $for skips lists of one scalar

---
 template.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 20476b8..36d440d 100644
--- a/template.go
+++ b/template.go
@@ -122,7 +122,8 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// The first subnode (of !g) is a path
 			// The second is an expression evaluating to a list of elements
 
-			i, _ := c.Eval(n.GetAt(0).GetAt(1))
+			// Not Eval(), that converts a list of one scalar to that scalar
+			i, _ := c.evalExpression(n.GetAt(0).GetAt(1), false)
 
 			// fmt.Printf("-------\nfor (expr)\n-------\n%s\n\n", n.GetAt(0).GetAt(1).Show())
 
-- 
2.43.0


From 21438278b85b927ee5bf03d2aacf65d6a837ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 30/54] fix: decoding a truncated binary stream never ends

A stream that ended (or failed) in a text node filled the memory. Also an empty
text node swallowed the node that follows.
---
 binary.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/binary.go b/binary.go
index 1471b83..7439cf1 100644
--- a/binary.go
+++ b/binary.go
@@ -298,31 +298,29 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		return level, true, buf.Bytes()
 	}
 
-	// Text node. Read bytes until 0
-
-	if write {
-		buf.WriteByte(byte(n))
+	// Nothing after the level
+	if n < 0 {
+		return 0, false, nil
 	}
 
-	for {
-		c := p.read()
-		if c == 0 {
-			return level, false, buf.Bytes()
-		}
+	// Text node. Read bytes until 0
+
+	for c := n; c > 0; c = p.read() {
 		if write {
 			buf.WriteByte(byte(c))
 		}
 	}
+	return level, false, buf.Bytes()
 }
 
 // read reads one character (byte) from the stream, returning it in the for of an int.
-// Returning an int permits signaling an EOS with -1.
+// Returning an int permits signaling an EOS (or a read error) with -1.
 func (p *binParser) read() int {
 
 	i, err := p.r.ReadByte()
 
 	c := int(i)
-	if err == io.EOF {
+	if err != nil {
 		c = -1
 	} else {
 		p.n++
-- 
2.43.0


From 3229a2323f58c9a1e4271e450203564f991b3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 31/54] fix: the end of a binary node is not recognized

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 7439cf1..209c9fd 100644
--- a/binary.go
+++ b/binary.go
@@ -282,7 +282,7 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		// Read length, then bytes
 		for {
 			n = p.varInt()
-			if n < 0 {
+			if n <= 0 {
 				break
 			}
 			for ; n != 0; n-- {
-- 
2.43.0


From 85cee1aa214b26031937decd89c3df0c52a102cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 32/54] fix: four byte numbers are not encoded as specified in
 the binary format

---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 209c9fd..a5c744e 100644
--- a/binary.go
+++ b/binary.go
@@ -186,7 +186,7 @@ func newVarInt(i int) []byte {
 	if i < 0x10000000 {
 		b := make([]byte, 4)
 		b[0] = byte(i>>24 | 0xe0)
-		b[1] = byte(i>>16 | 0xff)
+		b[1] = byte(i >> 16 & 0xff)
 		b[2] = byte(i >> 8 & 0xff)
 		b[3] = byte(i & 0xff)
 		return b
-- 
2.43.0


From 261ff569518cde9b136b24351c57183942edf2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 33/54] fix: content with a NUL byte is not written as a binary
 node

---
 binary.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index a5c744e..43c1dba 100644
--- a/binary.go
+++ b/binary.go
@@ -117,7 +117,21 @@ func (g *Graph) bin(level int, buf []byte) []byte {
 	b := _bytes(g.This)
 	if len(b) != 0 {
 		buf = append(buf, newVarInt(level)...)
-		buf = append(buf, b...)
+		// Text cannot contain 0, nor begin with the mark of binary nodes
+		if b[0] == 1 || bytes.IndexByte(b, 0) >= 0 {
+			buf = append(buf, 1)
+			for len(b) != 0 {
+				n := len(b)
+				if n > maxVarInt {
+					n = maxVarInt
+				}
+				buf = append(buf, newVarInt(n)...)
+				buf = append(buf, b[:n]...)
+				b = b[n:]
+			}
+		} else {
+			buf = append(buf, b...)
+		}
 		buf = append(buf, 0)
 		level++
 	}
@@ -154,6 +168,9 @@ func (p *binParser) parse() *Graph {
 	return ev.Tree()
 }
 
+// maxVarInt is the biggest number that newVarInt can produce.
+const maxVarInt = 0xfffffff
+
 // newVarInt produces a variable integer from an int.
 // Only positive integers are accepted.
 func newVarInt(i int) []byte {
-- 
2.43.0


From 33865430e55837a0e435b3225ad6e4286183e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 34/54] fix: a big level number in a binary stream exhausts the
 memory

And events with a negative level, or deleting when there are none, panic.
---
 event.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 65ece2c..fb70587 100644
--- a/event.go
+++ b/event.go
@@ -50,6 +50,9 @@ func (e *SimpleEventHandler) AddAt(s string, lv int) {
 
 // Delete removes the last node added
 func (e *SimpleEventHandler) Delete() {
+	if len(e.items) == 0 {
+		return
+	}
 	e.items = e.items[0 : len(e.items)-1]
 	e.levels = e.levels[0 : len(e.levels)-1]
 }
@@ -87,13 +90,23 @@ func (e *SimpleEventHandler) Dec() {
 //
 func (e *SimpleEventHandler) Tree() *Graph {
 
-	g := make([]*Graph, e.max+2)
+	// No item can be deeper than the number of items, unless it has no parent
+	max := e.max
+	if max > len(e.items) {
+		max = len(e.items)
+	}
+
+	g := make([]*Graph, max+2)
 	g[0] = New("_")
 
 	for i := 0; i < len(e.items); i++ {
 		lv := e.levels[i] + 1
 		item := e.items[i]
 
+		if lv < 1 || lv >= len(g) {
+			continue // no parent
+		}
+
 		n := New(item)
 		g[lv] = n
 		g[lv-1].Add(n)
-- 
2.43.0


From 7d6a69d3734df496230b0d8901eee514daf88457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 35/54] fix: Log.GetBinary returns a length instead of the
 position of the next object

At the end of the log the next position is -1, as in Log.Get.
---
 log.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/log.go b/log.go
index 9567f32..8b2c8c3 100644
--- a/log.go
+++ b/log.go
@@ -6,6 +6,7 @@ package ogdl
 
 import (
 	"bytes"
+	"errors"
 	"os"
 )
 
@@ -149,7 +150,10 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	p := newBinParser(log.f)
 
 	if !p.header() {
-		return nil, 0, err
+		if p.n == 0 {
+			return nil, -1, nil
+		}
+		return nil, -1, errors.New("not a binary OGDL object")
 	}
 	for {
 		lev, _, _ /* typ, b*/ := p.line(false)
@@ -164,5 +168,5 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	b := make([]byte, n)
 	_, err = log.f.ReadAt(b, i)
 
-	return b, int64(n), err
+	return b, i + int64(n), err
 }
-- 
2.43.0


From 884844f0f23c00ec1eb45964351aaa861d1cf727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 36/54] fix: remote calls fail if a message does not arrive in
 one piece

Also do not allocate the length announced by the peer before it sends the data.
---
 ogdlrf/client.go | 30 ++++++++++--------------------
 ogdlrf/server.go | 23 ++++++++---------------
 2 files changed, 18 insertions(+), 35 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 2945e95..e5fa191 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -5,8 +5,10 @@
 package ogdlrf
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
+	"io"
 
 	"log"
 	"net"
@@ -102,34 +104,22 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read header response
-	j, err := rf.conn.Read(b4)
-	if j != 4 {
+	_, err = io.ReadFull(rf.conn, b4)
+	if err != nil {
 		log.Println("error reading incomming message LEN")
 		return nil, errors.New("error in message header")
 	}
 	l := binary.BigEndian.Uint32(b4)
 
 	// Read body response
-	buf3 := make([]byte, 0, l)
-	tmp := make([]byte, 10000)
-	l2 := uint32(0)
-
-	for {
-		i, err = rf.conn.Read(tmp)
-		l2 += uint32(i)
-		if err != nil || i == 0 {
-			log.Println("Error reading body", l2, l, err)
-			return nil, err
-		}
-
-		buf3 = append(buf3, tmp[:i]...)
-
-		if l2 >= l {
-			break
-		}
+	buf3 := &bytes.Buffer{}
+	l2, err := io.CopyN(buf3, rf.conn, int64(l))
+	if err != nil {
+		log.Println("Error reading body", l2, l, err)
+		return nil, err
 	}
 
-	g = ogdl.FromBinary(buf3)
+	g = ogdl.FromBinary(buf3.Bytes())
 
 	if g == nil || g.Len() == 0 {
 		return nil, errEmptyResponse
diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 5f399a5..1c43c73 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -5,7 +5,9 @@
 package ogdlrf
 
 import (
+	"bytes"
 	"encoding/binary"
+	"io"
 	"log"
 	"net"
 	"time"
@@ -119,13 +121,13 @@ func process(c net.Conn, handler Function, timeout int) {
 		// Thus, first read 4 bytes (LEN)
 
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
-		i, err := c.Read(b4)
+		i, err := io.ReadFull(c, b4)
 
 		if i == 0 {
 			break
 		}
 
-		if err != nil || i != 4 {
+		if err != nil {
 			log.Println("ogdlrf.Serve, error while trying to read LEN,", i, err)
 			break
 		}
@@ -139,24 +141,15 @@ func process(c net.Conn, handler Function, timeout int) {
 
 		// Read the body of the message
 
-		buf := make([]byte, l)
-		if buf == nil {
-			log.Println("ogdlrf.Serve, cannot allocate memory for message")
-			break
-		}
-		i, err = c.Read(buf)
+		body := &bytes.Buffer{}
+		_, err = io.CopyN(body, c, int64(l))
 
 		if err != nil {
 			log.Println("ogdlrf.Serve, error reading message body, ", err)
 			break
 		}
 
-		if i != l {
-			log.Println("ogdlrf.Serve, error reading message body, LEN is", i, "should be", l)
-			break
-		}
-
-		g := ogdl.FromBinary(buf)
+		g := ogdl.FromBinary(body.Bytes())
 		if g == nil || g.Out == nil {
 			log.Println("ogdlrf.Serve, nothing in buf to produce a graph")
 			break
@@ -164,7 +157,7 @@ func process(c net.Conn, handler Function, timeout int) {
 		r := handler(c, g)
 
 		// Write message back
-		buf = r.Binary()
+		buf := r.Binary()
 		binary.BigEndian.PutUint32(b4, uint32(len(buf)))
 
 		i, err = c.Write(b4)
-- 
2.43.0


From 6cfe5a1386af068483c45826b97a9017f0910f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 37/54] fix: a remote call may return the answer to an earlier
 request that failed

After the last attempt the connection was kept, and a late answer was taken as
that of the next call. The other failed connections were never closed.
---
 ogdlrf/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index e5fa191..6bdcb07 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -65,11 +65,13 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		if err == nil {
 			break
 		}
+		// The connection may still deliver (part of) the answer to this request
+		rf.Close()
+
 		n--
 		if n < 0 {
 			break
 		}
-		rf.conn = nil
 	}
 
 	return r, err
@@ -136,12 +138,10 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 	n, err := rf.conn.Write(b)
 
 	if err != nil {
-		rf.conn = nil
 		log.Println("callv1", err)
 		return nil, err
 	}
 	if n != len(b) {
-		rf.conn = nil
 		log.Println("callv1", err)
 		return nil, errWriting
 	}
-- 
2.43.0


From 866d94ee5e8b638e32576dad8b4b1fc8610ffd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 38/54] fix: remote calls with protocol 1 accept messages that
 have been cut

---
 ogdlrf/client.go | 21 ++++++++++++++++++++-
 ogdlrf/server.go |  5 +++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 6bdcb07..8ea3fa8 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -147,7 +147,12 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read the incoming object
-	g = ogdl.FromBinaryReader(rf.conn)
+	rd := &reader{rd: rf.conn}
+	g = ogdl.FromBinaryReader(rd)
+
+	if rd.err != nil {
+		return nil, rd.err
+	}
 
 	if g == nil || g.Len() == 0 {
 		return nil, errEmptyResponse
@@ -156,6 +161,20 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 	return g, nil
 }
 
+// reader remembers that reading failed before the object being read was complete.
+type reader struct {
+	rd  io.Reader
+	err error
+}
+
+func (r *reader) Read(b []byte) (int, error) {
+	n, err := r.rd.Read(b)
+	if err != nil {
+		r.err = err
+	}
+	return n, err
+}
+
 // Close closes the underlying connection, if open.
 func (rf *Client) Close() {
 	if rf.conn != nil {
diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 1c43c73..3c1be45 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -190,9 +190,10 @@ func process1(c net.Conn, handler Function, timeout int) {
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
 
 		// Read the incoming object
-		g := ogdl.FromBinaryReader(c)
+		rd := &reader{rd: c}
+		g := ogdl.FromBinaryReader(rd)
 
-		if g == nil {
+		if g == nil || rd.err != nil {
 			break
 		}
 
-- 
2.43.0


From a5fdcb4ca7068b45e043ea38e4d0b22da75b518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 39/54] fix: a remote function without a result leaves the
 client waiting

An empty answer is an answer, so do not repeat the call either.
---
 ogdlrf/client.go | 16 ++++++++++------
 ogdlrf/server.go |  6 ++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 8ea3fa8..ef746f0 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -18,10 +18,11 @@ import (
 )
 
 var (
-	errEmptyResponse = errors.New("Empty response")
-	errWritingHeader = errors.New("error writing LEN header")
-	errWritingBody   = errors.New("error writing body")
-	errWriting       = errors.New("could not write all bytes")
+	errEmptyResponse   = errors.New("Empty response")
+	errInvalidResponse = errors.New("Invalid response")
+	errWritingHeader   = errors.New("error writing LEN header")
+	errWritingBody     = errors.New("error writing body")
+	errWriting         = errors.New("could not write all bytes")
 )
 
 // Client represents a the client side of a remote function (also known as a remote
@@ -62,7 +63,7 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		} else {
 			r, err = rf.callV2(g)
 		}
-		if err == nil {
+		if err == nil || err == errEmptyResponse {
 			break
 		}
 		// The connection may still deliver (part of) the answer to this request
@@ -154,7 +155,10 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 		return nil, rd.err
 	}
 
-	if g == nil || g.Len() == 0 {
+	if g == nil {
+		return nil, errInvalidResponse
+	}
+	if g.Len() == 0 {
 		return nil, errEmptyResponse
 	}
 
diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 3c1be45..ab93b36 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -155,6 +155,9 @@ func process(c net.Conn, handler Function, timeout int) {
 			break
 		}
 		r := handler(c, g)
+		if r == nil {
+			r = ogdl.New(nil)
+		}
 
 		// Write message back
 		buf := r.Binary()
@@ -198,6 +201,9 @@ func process1(c net.Conn, handler Function, timeout int) {
 		}
 
 		r := handler(c, g)
+		if r == nil {
+			r = ogdl.New(nil)
+		}
 
 		// Write result in binary format
 		b := r.Binary()
-- 
2.43.0


From 0b4a8ea621302853333fb2b8a18001a216aaa88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 40/54] fix: FromJSON keeps only the first element of a list

---
 encoding.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/encoding.go b/encoding.go
index ae60afd..a8c7ac1 100644
--- a/encoding.go
+++ b/encoding.go
@@ -24,10 +24,7 @@ import (
 //
 // TODO I'm not sure about not giving lists a root node, but we need to avoid both
 // useless nesting and also post-simplification (and its unwanted side effects).
-// But, for example [ "a", [ "b", "c" ] ] will be returned as:
-//     a
-//     b
-//     c
+// Each element of a list is below a '_' node.
 //
 func FromJSON(buf []byte) (*Graph, error) {
 
@@ -43,7 +40,13 @@ func FromJSON(buf []byte) (*Graph, error) {
 		return nil, err
 	}
 
-	return toGraph(v).GetAt(0), nil
+	g := toGraph(v)
+
+	// A list has no node of its own
+	if _, ok := v.([]interface{}); ok {
+		return g, nil
+	}
+	return g.GetAt(0), nil
 }
 
 func toGraph(v interface{}) *Graph {
-- 
2.43.0


From 1541dfc45dd1e89583d8e0743773ec71501bd9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 41/54] fix: FromJSON gives a different graph each time

---
 encoding.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index a8c7ac1..98cb5d0 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
+	"sort"
 	"strings"
 )
 
@@ -62,8 +63,15 @@ func toGraph(v interface{}) *Graph {
 		}
 	case map[string]interface{}:
 		n := g.Add("_")
-		for k, i := range v.(map[string]interface{}) {
-			n.Add(k).AddNodes(toGraph(i))
+		m := v.(map[string]interface{})
+		var keys []string
+		for k := range m {
+			keys = append(keys, k)
+		}
+		// The order of the keys of a map is random
+		sort.Strings(keys)
+		for _, k := range keys {
+			n.Add(k).AddNodes(toGraph(m[k]))
 		}
 	case json.Number:
 		// try first to decode the number as an integer.
-- 
2.43.0


From ff71137bbe15cdfc42620c6709e63bc2efe02193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 42/54] fix: FromJSON accepts text that is not JSON after the
 first value

---
 encoding.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/encoding.go b/encoding.go
index 98cb5d0..f0d1684 100644
--- a/encoding.go
+++ b/encoding.go
@@ -7,7 +7,9 @@ package ogdl
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"math"
 	"sort"
 	"strings"
@@ -41,6 +43,11 @@ func FromJSON(buf []byte) (*Graph, error) {
 		return nil, err
 	}
 
+	// Nothing else is expected after it
+	if _, err = dec.Token(); err != io.EOF {
+		return nil, errors.New("text after the JSON value")
+	}
+
 	g := toGraph(v)
 
 	// A list has no node of its own
-- 
2.43.0


From 01c799a4d8ffe943219421dd200c704f2b8c9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 43/54] fix: JSON writes text that is not JSON, and modifies
 the graph while it writes

Commas, braces and most of the nodes were missing, strings were not escaped,
floats were rounded, and booleans written as strings. The content of the root node
was changed temporarily, which is a data race for concurrent readers.
---
 encoding.go | 142 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 89 insertions(+), 53 deletions(-)

diff --git a/encoding.go b/encoding.go
index f0d1684..f4ec8cf 100644
--- a/encoding.go
+++ b/encoding.go
@@ -12,7 +12,7 @@ import (
 	"io"
 	"math"
 	"sort"
-	"strings"
+	"strconv"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -118,87 +118,123 @@ func (g *Graph) JSON() []byte {
 		return nil
 	}
 
-	var buf *bytes.Buffer
-	buf = new(bytes.Buffer)
+	buf := new(bytes.Buffer)
 
-	// Temporarily set root to something different than _
-	i := g.This
-	g.This = ""
-
-	g.json(buf)
-
-	// Restore root
-	g.This = i
+	// The root node is not printed, only what it contains
+	if g.Len() == 0 {
+		New("").writeValue(buf)
+	} else {
+		g.jsonContent(buf)
+	}
 
 	return buf.Bytes()
 }
 
+// json writes this node as a value
 func (g *Graph) json(buf *bytes.Buffer) {
 
-	// If this is a leaf node, print it as value
-	if g.Len() == 0 {
+	switch {
+	case g.Len() <= 0:
 		g.writeValue(buf)
+	case g.ThisString() == "_":
+		g.jsonList(buf)
+	default:
+		buf.WriteByte('{')
+		g.jsonMember(buf)
+		buf.WriteByte('}')
+	}
+}
+
+// jsonContent writes the subnodes of this node as one value: a single value or list
+// is written as such, named nodes as a map, and anything else as a list.
+func (g *Graph) jsonContent(buf *bytes.Buffer) {
+
+	if g.Len() == 1 {
+		g.Out[0].json(buf)
 		return
 	}
 
-	typ := 0
+	for _, n := range g.Out {
+		if !n.isJsonMember() {
+			g.jsonList(buf)
+			return
+		}
+	}
 
-	// Now, it is either a map or a list
-	if g.ThisString() == "_" {
-		typ = '['
-		buf.WriteString("[ ")
-	} else if g.Len() > 1 {
-		typ = '{'
-		buf.WriteString("{ ")
+	buf.WriteByte('{')
+	for i, n := range g.Out {
+		if i != 0 {
+			buf.WriteString(", ")
+		}
+		n.jsonMember(buf)
 	}
+	buf.WriteByte('}')
+}
 
-	comma := false
+// jsonList writes the subnodes of this node as a list. Named nodes that are next to
+// each other are written as one map.
+func (g *Graph) jsonList(buf *bytes.Buffer) {
 
-	for _, n := range g.Out {
-		if comma {
+	buf.WriteByte('[')
+
+	for i := 0; i < len(g.Out); i++ {
+		if i != 0 {
 			buf.WriteString(", ")
 		}
-		switch n.Len() {
-		case 0:
-			n.writeValue(buf)
-		case 1:
-			n.writeString(buf)
-			buf.WriteString(": ")
-			n.json(buf)
-			comma = true
-		default:
+
+		n := g.Out[i]
+		if !n.isJsonMember() {
 			n.json(buf)
-			comma = true
+			continue
 		}
-	}
 
-	switch typ {
-	case '[':
-		buf.WriteByte(']')
-	case '{':
+		buf.WriteByte('{')
+		n.jsonMember(buf)
+		for i+1 < len(g.Out) && g.Out[i+1].isJsonMember() {
+			i++
+			buf.WriteString(", ")
+			g.Out[i].jsonMember(buf)
+		}
 		buf.WriteByte('}')
 	}
+
+	buf.WriteByte(']')
+}
+
+// isJsonMember returns true if the node is written as a member of a map.
+func (g *Graph) isJsonMember() bool {
+	return g.Len() > 0 && g.ThisString() != "_"
+}
+
+// jsonMember writes this node as a member of a map
+func (g *Graph) jsonMember(buf *bytes.Buffer) {
+	g.writeString(buf)
+	buf.WriteString(": ")
+	g.jsonContent(buf)
 }
 
 func (g *Graph) writeString(buf *bytes.Buffer) {
-	s := g.ThisString()
-	buf.WriteByte('"')
-	s = strings.Replace(s, "\"", "\\\"", -1)
-	buf.WriteString(s)
-	buf.WriteByte('"')
-	buf.WriteByte(' ')
+	b, _ := json.Marshal(g.ThisString())
+	buf.Write(b)
 }
 
 func (g *Graph) writeValue(buf *bytes.Buffer) {
-	n, ok := _int64(g.This)
-	if ok {
-		buf.WriteString(fmt.Sprintf("%d ", n))
-		return
-	}
-	f, ok := _float64(g.This)
-	if ok {
-		buf.WriteString(fmt.Sprintf("%f ", f))
+
+	switch v := g.this().(type) {
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, bool:
+		fmt.Fprint(buf, v)
 		return
+	case float32:
+		if f := float64(v); !math.IsNaN(f) && !math.IsInf(f, 0) {
+			buf.WriteString(strconv.FormatFloat(f, 'g', -1, 32))
+			return
+		}
+	case float64:
+		if !math.IsNaN(v) && !math.IsInf(v, 0) {
+			buf.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
+			return
+		}
 	}
+
 	g.writeString(buf)
 }
-- 
2.43.0


From 1981b67cee50242d4eb2f73c32b5618c2cad64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 44/54] fix: XML simplification panics on the text "@id"

---
 cmd/xml2ogdl/main.go | 4 ++--
 io/gxml/xml.go       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xml2ogdl/main.go b/cmd/xml2ogdl/main.go
index d71f2a3..e2adfce 100644
--- a/cmd/xml2ogdl/main.go
+++ b/cmd/xml2ogdl/main.go
@@ -49,7 +49,7 @@ func main() {
 }
 
 func simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -58,7 +58,7 @@ func simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
diff --git a/io/gxml/xml.go b/io/gxml/xml.go
index 5fd20b8..adb8722 100644
--- a/io/gxml/xml.go
+++ b/io/gxml/xml.go
@@ -13,7 +13,7 @@ import (
 )
 
 func Simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -22,7 +22,7 @@ func Simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
-- 
2.43.0


From 18701abf1d6d0268e807b16c38c53dcb631a9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 45/54] fix: a schema with an empty node panics, and !binary is
 never matched

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index ff81607..96688e2 100644
--- a/schema.go
+++ b/schema.go
@@ -41,7 +41,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 	var ok bool
 
 	// literal | literal* | literal? | literal+ | ** | ***
-	if sc[0] != '!' {
+	if len(sc) == 0 || sc[0] != '!' {
 		return sx == sc
 	}
 
@@ -64,7 +64,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 		return ty == "string"
 
 	case "!binary":
-		return ty == "[]byte"
+		return ty == "[]uint8" // []byte
 	}
 
 	return false
-- 
2.43.0


From c3a083feb5a2e5be76e6de6d797fc21ca8c48f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 46/54] fix: gtemplate ignores all data files if the first one
 is empty

---
 cmd/gtemplate/main.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cmd/gtemplate/main.go b/cmd/gtemplate/main.go
index 38bfbe8..d901c21 100644
--- a/cmd/gtemplate/main.go
+++ b/cmd/gtemplate/main.go
@@ -27,19 +27,14 @@ func main() {
 		return
 	}
 
-	var data *ogdl.Graph
+	data := ogdl.New("_")
 
 	t, _ := ioutil.ReadFile(flag.Args()[0])
 	tpl := ogdl.NewTemplate(string(t))
 
 	for i, f := range flag.Args() {
-		switch i {
-		case 0:
-		case 1:
-			data = ogdl.FromFile(f)
-		default:
-			g := ogdl.FromFile(f)
-			data.AddNodes(g)
+		if i > 0 {
+			data.AddNodes(ogdl.FromFile(f))
 		}
 	}
 
-- 
2.43.0


From 5f65a734ed82086ec00962dbb26c6c03402d2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 47/54] fix: links of the HTML form are not closed if the node
 has spaces

---
 html.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/html.go b/html.go
index 2efdc71..b0b9b26 100644
--- a/html.go
+++ b/html.go
@@ -110,6 +110,9 @@ func (g *Graph) _html(n int, buffer *bytes.Buffer, show bool, path string) {
 		if n > 0 {
 			buffer.WriteString("\"")
 		}
+		if g.Len() > 0 {
+			buffer.WriteString("</a>")
+		}
 		buffer.WriteString("<br>\n")
 	} else {
 		if len(s) == 0 && !show {
-- 
2.43.0


From 3463a76928abd8a3a288a3c0fdcda70cfac479ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 48/54] fix: the HTML form does not escape the characters that
 have a meaning in HTML

---
 html.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/html.go b/html.go
index b0b9b26..c343fa8 100644
--- a/html.go
+++ b/html.go
@@ -5,6 +5,12 @@ import (
 	"strings"
 )
 
+// htmlEscaper replaces the characters that have a meaning in HTML.
+var htmlEscaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
+
+// hrefEscaper does the same inside of a link target between single quotes.
+var hrefEscaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "'", "&#39;")
+
 func (g *Graph) Html(path string) string {
 	if g == nil {
 		return ""
@@ -74,9 +80,12 @@ func (g *Graph) _html(n int, buffer *bytes.Buffer, show bool, path string) {
 
 	// If this is a leaf node, do not add a link
 	if g.Len() > 0 {
-		buffer.WriteString("<a href='" + path + "/" + s + "'>")
+		buffer.WriteString("<a href='" + hrefEscaper.Replace(path+"/"+s) + "'>")
 	}
 
+	path += "/" + s
+	s = htmlEscaper.Replace(s)
+
 	if strings.ContainsAny(s, "\n\r \t'\",()") {
 
 		// print quoted, but not at level 0
@@ -131,6 +140,6 @@ func (g *Graph) _html(n int, buffer *bytes.Buffer, show bool, path string) {
 	}
 
 	for _, node := range g.Out {
-		node._html(n+1, buffer, show, path+"/"+s)
+		node._html(n+1, buffer, show, path)
 	}
 }
-- 
2.43.0


From b975c99da7c7a369547b6f93bbb549c7e39ec670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 49/54] fix: nested loops with the same variable bind it again
 at each iteration

The inner loop replaced the node that the outer one assigned to, and a loop without
elements left the variable of the outer one without content.
---
 template.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/template.go b/template.go
index 36d440d..f9a5e3c 100644
--- a/template.go
+++ b/template.go
@@ -149,15 +149,17 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 
 			// Not the nodes themselves, since the loop variable may be added to them
 			list := append([]*Graph(nil), gi.Out...)
+			if len(list) == 0 {
+				continue
+			}
 
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
 			c.Delete(varname)
-			it := c.Add(varname)
 
 			for _, ee := range list {
 
-				it.Out = nil
-				it.Add(ee)
+				// Not only once, since a loop inside may have the same variable
+				c.Create(varname).Add(ee)
 
 				brk := n.GetAt(1).process(c, buffer)
 				if brk {
-- 
2.43.0


From 9c915a865503b801afeffb8c0f96ed96b5e74cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:17 +0000
Subject: [PATCH 50/54] fix: the HTML form loses double quotes that follow a
 backslash

---
 html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/html.go b/html.go
index c343fa8..495aeae 100644
--- a/html.go
+++ b/html.go
@@ -108,8 +108,9 @@ func (g *Graph) _html(n int, buffer *bytes.Buffer, show bool, path string) {
 				buffer.WriteString(sp)
 			} else if c == '"' && n > 0 {
 				if cp != '\\' {
-					buffer.WriteString("\\\"")
+					buffer.WriteByte('\\')
 				}
+				buffer.WriteByte('"')
 			} else {
 				buffer.WriteByte(c)
 			}
-- 
2.43.0


From f4f3f22b0e8f3ea7cc9634bd5f719bc9ca587659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:17 +0000
Subject: [PATCH 51/54] fix: the HTML form loses its last character if the
 first node begins with a double quote

---
 html.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/html.go b/html.go
index 495aeae..495fbcd 100644
--- a/html.go
+++ b/html.go
@@ -35,14 +35,6 @@ func (g *Graph) Html(path string) string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
-- 
2.43.0


From ea4ccec584db1b2c17b44890a39cc56c801214f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:16 +0000
Subject: [PATCH 52/54] fix: copying a graph to a node below it does not end

---
 graph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index ea58c1d..830ba27 100644
--- a/graph.go
+++ b/graph.go
@@ -140,15 +140,18 @@ func (g *Graph) Copy(c *Graph) {
 	if g == nil || c == nil {
 		return
 	}
+	var nodes []*Graph
 	for _, n := range c.Out {
 		if n == nil {
 			continue
 		}
 		// Not Add(), that ignores nil
 		nn := New(n.This)
-		g.Out = append(g.Out, nn)
 		nn.Copy(n)
+		nodes = append(nodes, nn)
 	}
+	// Not before, since the receiver may be part of the graph that is copied
+	g.Out = append(g.Out, nodes...)
 }
 
 // Clone returns a copy of the current graph.
-- 
2.43.0


From e98e7390ad761e8131bc47a4c022e12b20d1830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 53/54] fix: sorting a nil graph crashes

---
 sort.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sort.go b/sort.go
index ad80725..1f56e66 100644
--- a/sort.go
+++ b/sort.go
@@ -11,11 +11,17 @@ type stringSorter struct {
 }
 
 func (g *Graph) Sort(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
 
 func (g *Graph) SortAsString(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
@@ -38,6 +44,9 @@ type intSorter struct {
 }
 
 func (g *Graph) SortAsInt(field string) {
+	if g == nil {
+		return
+	}
 	s := intSorter{field, g.Out}
 	sort.Sort(s)
 }
-- 
2.43.0


From b6b5002d1048f509708900243c9d60679287ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 54/54] fix: a function or method crashes if given a value of
 another type of the same name

---
 function.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/function.go b/function.go
index 62a7852..cfb15d5 100644
--- a/function.go
+++ b/function.go
@@ -98,7 +98,7 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		}
 
 		for i := 0; i < v.Type().NumIn(); i++ {
-			if v.Type().In(i).String() != vargs[i].Type().String() {
+			if v.Type().In(i) != vargs[i].Type() {
 				return nil, errors.New("arguments do not match")
 			}
 		}
@@ -157,8 +157,7 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 
 			// Type adapter. A bit slow (cache could help)
-			dtype := mtype.In(i).String()
-			varg := convert(args[i], dtype)
+			varg := convert(args[i], mtype.In(i))
 			if !varg.IsValid() {
 				return nil, errors.New("arguments do not match")
 			}
@@ -188,15 +187,17 @@ func call(f reflect.Value, args []reflect.Value) []reflect.Value {
 	return f.Call(args)
 }
 
-// Convert arg to dtype, if possible.
-func convert(arg interface{}, dtype string) reflect.Value {
+// Convert arg to the type t, if possible.
+func convert(arg interface{}, t reflect.Type) reflect.Value {
 
-	stype := reflect.TypeOf(arg).String()
-
-	if dtype == stype {
+	// Not by name, since different types may have the same
+	if reflect.TypeOf(arg) == t {
 		return reflect.ValueOf(arg)
 	}
 
+	stype := reflect.TypeOf(arg).String()
+	dtype := t.String()
+
 	switch stype {
 
 	case "*ogdl.Graph":
-- 
2.43.0


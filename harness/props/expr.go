package props

import (
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/ref"
)

// Typed expressions with a reference evaluation.

type expr struct {
	kind  byte // i f s: constants; p path; u unary; b binary
	op    string
	a, b  *expr
	lit   string
	val   interface{}
	steps []ref.Step
	src   string // of the path
}

var binPrec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}

func isTok(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' }

func toI(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int8:
		return int64(x), true
	case int16:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	case uint:
		return int64(x), true
	case uint8:
		return int64(x), true
	case uint16:
		return int64(x), true
	case uint32:
		return int64(x), true
	case uint64:
		return int64(x), true
	}
	return 0, false
}

func toF(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// canon makes int64, float64, string or bool out of a value.
func canon(v interface{}) interface{} {
	if i, ok := toI(v); ok {
		return i
	}
	if f, ok := toF(v); ok {
		return f
	}
	if b, ok := v.([]byte); ok {
		return string(b)
	}
	return v
}

// eval gives the value of an expression, and false if it is outside the domain of the
// property.
func (e *expr) eval(ctx *T) (interface{}, bool) {
	switch e.kind {
	case 'i', 'f', 's':
		return e.val, true
	case 'p':
		r := ref.Walk(ctx, e.steps)
		if r.Node == nil || len(r.Node.Out) != 1 || len(r.Node.Out[0].Out) != 0 {
			return nil, false
		}
		v := canon(r.Node.Out[0].V)
		switch v.(type) {
		case int64, float64, string, bool:
			return v, true
		}
		return nil, false
	case 'u':
		v, ok := e.a.eval(ctx)
		if !ok {
			return nil, false
		}
		switch e.op {
		case "!":
			b, ok := e.a.truth(ctx, v)
			return !b, ok
		case "-":
			switch x := v.(type) {
			case int64:
				return -x, true
			case float64:
				return 0 - x, true
			}
		}
		return nil, false
	}
	a, ok := e.a.eval(ctx)
	if !ok {
		return nil, false
	}
	b, ok := e.b.eval(ctx)
	if !ok {
		return nil, false
	}
	if e.op == "&&" || e.op == "||" {
		x, ok1 := e.a.truth(ctx, a)
		y, ok2 := e.b.truth(ctx, b)
		if e.op == "&&" {
			return x && y, ok1 && ok2
		}
		return x || y, ok1 && ok2
	}
	return binary(e.op, a, b)
}

// truth gives the boolean that the value v of an expression stands for: a boolean, the
// text of one, or an integer.
func (e *expr) truth(ctx *T, v interface{}) (bool, bool) {
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return x == "true", x == "true" || x == "false"
	case int64:
		if e.kind == 'p' {
			switch ref.Walk(ctx, e.steps).Node.Out[0].V.(type) {
			case int, int64:
			default:
				return false, false
			}
		}
		return x != 0, true
	}
	return false, false
}

const safe = float64(1 << 62)

func binary(op string, a, b interface{}) (interface{}, bool) {
	switch op {
	case "==", "!=", "<", "<=", ">", ">=":
		return cmp(op, a, b)
	}
	ai, aInt := a.(int64)
	bi, bInt := b.(int64)
	af, aFlt := a.(float64)
	bf, bFlt := b.(float64)
	if aInt && bInt {
		switch op {
		case "+":
			return ai + bi, true
		case "-":
			return ai - bi, true
		case "*":
			return ai * bi, true
		case "/":
			if bi == 0 {
				return nil, false
			}
			return ai / bi, true
		case "%":
			if bi == 0 {
				return nil, false
			}
			return ai % bi, true
		}
	}
	if (aInt || aFlt) && (bInt || bFlt) {
		if aInt {
			af = float64(ai)
		}
		if bInt {
			bf = float64(bi)
		}
		var r float64
		switch op {
		case "+":
			r = af + bf
		case "-":
			r = af - bf
		case "*":
			r = af * bf
		case "/":
			if bf == 0 {
				return nil, false
			}
			r = af / bf
		case "%":
			if math.Abs(af) > safe || math.Abs(bf) > safe || int64(bf) == 0 {
				return nil, false
			}
			return int64(af) % int64(bf), true
		}
		return r, !math.IsNaN(r) && !math.IsInf(r, 0)
	}
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 && op == "+" {
		return x + y, len(x)+len(y) < 100000
	}
	return nil, false
}

func cmp(op string, a, b interface{}) (interface{}, bool) {
	ord := 0
	switch x := a.(type) {
	case int64:
		var y int64
		switch z := b.(type) {
		case int64:
			y = z
		case float64:
			if math.Abs(z) > safe {
				return nil, false
			}
			y = int64(z)
		case string:
			n, err := strconv.ParseInt(z, 10, 64)
			if err != nil {
				return nil, false
			}
			y = n
		default:
			return nil, false
		}
		if x < y {
			ord = -1
		} else if x > y {
			ord = 1
		}
	case float64:
		var y float64
		switch z := b.(type) {
		case int64:
			y = float64(z)
		case float64:
			y = z
		case string:
			if !decimal.MatchString(z) {
				return nil, false
			}
			n, err := strconv.ParseFloat(z, 64)
			if err != nil {
				return nil, false
			}
			y = n
		default:
			return nil, false
		}
		if x < y {
			ord = -1
		} else if x > y {
			ord = 1
		}
	case string:
		y := ""
		switch z := b.(type) {
		case string:
			y = z
		case int64:
			y = strconv.FormatInt(z, 10)
		default:
			return nil, false
		}
		if op != "==" && op != "!=" {
			return nil, false
		}
		if x != y {
			ord = 1
		}
	case bool:
		y, ok := b.(bool)
		if !ok || op != "==" && op != "!=" {
			return nil, false
		}
		if x != y {
			ord = 1
		}
	default:
		return nil, false
	}
	switch op {
	case "==":
		return ord == 0, true
	case "!=":
		return ord != 0, true
	case "<":
		return ord < 0, true
	case "<=":
		return ord <= 0, true
	case ">":
		return ord > 0, true
	}
	return ord >= 0, true
}

// pathVar is a path that finds a scalar in a context.
type pathVar struct {
	steps []ref.Step
	src   string
}

// ectx is a context with paths by type of the scalar they find (i f s b).
type ectx struct {
	*T
	vars map[byte][]pathVar
}

func (x *ectx) copyVars() map[byte][]pathVar {
	m := map[byte][]pathVar{}
	for k, v := range x.vars {
		m[k] = append([]pathVar(nil), v...)
	}
	return m
}

// exprName makes a name that begins with a letter (thus a path, in an expression), with no
// special meaning.
func exprName(c *C) string {
	for {
		s := ident(c)
		switch s {
		case "true", "false", "if", "else", "elseif", "end", "for", "break":
			continue
		}
		if s[0] == '_' {
			continue
		}
		if i := strings.LastIndexByte(s, '_'); i >= 0 && i < len(s)-1 && s[i+1] >= '0' && s[i+1] <= '9' {
			continue // names of this form are those of variables of templates
		}
		if len(s) > 40 && c.P(80) {
			continue
		}
		return s
	}
}

func intLit(c *C) int64 {
	switch c.Intn(8) {
	case 0:
		return int64(c.Uint64()) >> uint(c.Intn(64))
	case 1:
		return int64(c.Num(1 << 40))
	case 2:
		return []int64{math.MaxInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, 1 << 31, 1<<31 - 1, 1 << 32, 255, 256, 65535, 65536}[c.Intn(12)]
	}
	return int64(c.Range(-12, 12))
}

func fltLit(c *C) float64 {
	switch c.Intn(6) {
	case 0:
		return float64(int64(c.Uint64())>>uint(c.Intn(64))) / float64(int64(1)<<uint(c.Intn(40)))
	case 1:
		return float64(c.Range(-5000, 5000)) / 1000
	case 2:
		return float64(c.Range(-20, 20))
	}
	return float64(c.Range(-40, 40)) / 4
}

func strLit(c *C) string {
	switch c.Intn(6) {
	case 0:
		return strconv.Itoa(c.Range(-20, 20))
	case 1:
		return c.Str("", "true", "false", "true", "false", "+", "-", "==", "a", "b", "!", "!e", "!p", "_", "1.5", " ", "&&", "x y", "(", ")", ",", "$", "'", "\"", "\\", "]", "}")
	case 2:
		return noCtlBytes(text(c, false), "\t\n")
	}
	return rawText(c, c.Intn(5), "pu")
}

// otherValues gives a context of the same names in which many scalars have another value of
// the same type and, at times, lists another length.
func otherValues(c *C, t *T, lists bool) *T {
	t = t.Clone()
	var walk func(n *T, top int)
	walk = func(n *T, lv int) {
		if lv > 0 && len(n.Out) == 0 && c.P(60) {
			switch v := n.V.(type) {
			case int:
				n.V = int(intLit(c))
			case int64:
				n.V = intLit(c)
			case int32:
				n.V = int32(c.Range(-99, 99))
			case float64:
				n.V = fltLit(c)
			case bool:
				n.V = c.P(50)
			case string:
				switch {
				case v == "true" || v == "false":
					n.V = c.Str("true", "false")
				case lv > 1:
					n.V = strLit(c)
				}
			}
		}
		for _, o := range n.Out {
			walk(o, lv+1)
		}
		if lists && lv > 0 && len(n.Out) > 1 && c.One(4) {
			switch c.Intn(3) {
			case 0:
				n.Out = n.Out[:len(n.Out)-1]
			case 1:
				n.Out = append(n.Out, n.Out[c.Intn(len(n.Out))].Clone())
			default:
				i, j := c.Intn(len(n.Out)), c.Intn(len(n.Out))
				n.Out[i], n.Out[j] = n.Out[j], n.Out[i]
			}
		}
	}
	walk(t, 0)
	return t
}

// exprContext makes a context.
func exprContext(c *C) *ectx {
	x := &ectx{T: &T{V: "_"}, vars: map[byte][]pathVar{}}
	used := map[string]bool{}
	fresh := func() string {
		for {
			n := exprName(c)
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	val := func() (interface{}, byte) {
		switch c.Intn(5) {
		case 0, 1:
			i := intLit(c)
			switch c.Intn(8) {
			case 0:
				return int(i), 'i'
			case 1:
				return int32(i % 1000000), 'i'
			case 2:
				return uint8(i), 'i'
			case 3:
				return int16(i), 'i'
			case 4:
				return uint32(i), 'i'
			case 5:
				return int8(i), 'i'
			}
			return i, 'i'
		case 2:
			if c.One(6) {
				return float32(c.Range(-1000, 1000)) / 8, 'f'
			}
			return fltLit(c), 'f'
		case 3:
			return c.P(50), 'b'
		}
		s := strLit(c)
		if c.One(10) {
			return []byte(s), 's'
		}
		return s, 's'
	}
	for i := c.Range(3, 12); i > 0; i-- {
		name := fresh()
		n := x.Add(name)
		st := []ref.Step{{Kind: 'n', Name: name}}
		switch c.Intn(6) {
		case 0, 1, 2:
			v, k := val()
			n.Add(v)
			x.vars[k] = append(x.vars[k], pathVar{st, writePath(c, st, true)})
		case 3:
			// nested
			sub := exprName(c)
			if c.One(3) {
				sub = "two words"
			}
			v, k := val()
			n.Add(sub).Add(v)
			st = append(st, ref.Step{Kind: 'n', Name: sub})
			x.vars[k] = append(x.vars[k], pathVar{st, writePath(c, st, true)})
			if c.P(50) {
				// a second one with the same name
				v, k := val()
				n.Add(sub).Add(v)
				st := append(append([]ref.Step{}, st...), ref.Step{Kind: '{', N: 1})
				x.vars[k] = append(x.vars[k], pathVar{st, writePath(c, st, true)})
			}
		default:
			// list
			for j := c.Range(1, 4); j > 0; j-- {
				v, k := val()
				n.Add(v)
				st := append(append([]ref.Step{}, st...), ref.Step{Kind: '[', N: len(n.Out) - 1})
				x.vars[k] = append(x.vars[k], pathVar{st, writePath(c, st, true)})
			}
		}
	}
	return x
}

// writePath writes a path. In an expression, the first name must not be quoted.
func writePath(c *C, steps []ref.Step, inExpr bool) string {
	var b strings.Builder
	for i, s := range steps {
		switch s.Kind {
		case 'n':
			if i > 0 {
				b.WriteByte('.')
			}
			if ref.IsToken(s.Name, isTok) && !(c.One(6) && (i > 0 || !inExpr)) {
				b.WriteString(s.Name)
			} else {
				q := c.Byte("\"'`")
				if strings.IndexByte(s.Name, '`') >= 0 && q == '`' {
					q = '"'
				}
				b.WriteString(ref.QuotePath(s.Name, q))
			}
		case '[', '{':
			if i > 0 && c.One(8) && s.Kind == '[' {
				b.WriteByte('.')
			}
			b.WriteByte(s.Kind)
			sp := func() {
				if c.One(8) {
					b.WriteString(strings.Repeat(" ", c.Range(1, 3)))
				}
			}
			sp()
			if s.Expr != "" {
				b.WriteString(s.Expr)
				sp()
			} else if s.N >= 0 {
				b.WriteString(strconv.Itoa(s.N))
				sp()
			}
			if s.Kind == '[' {
				b.WriteByte(']')
			} else {
				b.WriteByte('}')
			}
		}
	}
	return b.String()
}

func (x *ectx) path(c *C, k byte) *expr {
	v := x.vars[k]
	if len(v) == 0 {
		return nil
	}
	p := v[c.Intn(len(v))]
	return &expr{kind: 'p', steps: p.steps, src: p.src}
}

// genExpr makes an expression of some type.
func genExpr(c *C, x *ectx, depth int) *expr {
	return genTyped(c, x, c.Byte("iiffsbb"), depth)
}

// genTyped makes an expression of a type: i f s b.
func genTyped(c *C, x *ectx, k byte, depth int) *expr {
	for try := 0; ; try++ {
		e := gen1(c, x, k, depth)
		if e == nil {
			continue
		}
		if _, ok := e.eval(x.T); ok {
			return e
		}
		if try > 5 && depth > 0 {
			depth--
		}
	}
}

func gen1(c *C, x *ectx, k byte, depth int) *expr {
	if depth <= 0 || c.P(15) {
		if c.P(50) {
			if e := x.path(c, k); e != nil {
				return e
			}
		}
		switch k {
		case 'i':
			v := intLit(c)
			l := strconv.FormatInt(v, 10)
			if c.One(20) && v >= 0 {
				l = "0" + l
			}
			return &expr{kind: 'i', val: v, lit: l}
		case 'f':
			v := fltLit(c)
			l := strconv.FormatFloat(v, 'f', -1, 64)
			if !strings.Contains(l, ".") {
				l += c.Str(".0", ".", ".00")
			}
			if c.One(4) && strings.HasPrefix(l, "0.") && len(l) > 2 {
				l = l[1:]
			}
			return &expr{kind: 'f', val: v, lit: l}
		case 's':
			v := strLit(c)
			q := c.Byte("\"'`")
			if q == '`' && strings.Contains(v, "`") {
				q = '"'
			}
			return &expr{kind: 's', val: v, lit: ref.QuotePath(v, q)}
		default:
			if e := x.path(c, 'b'); e != nil {
				return e
			}
			a := gen1(c, x, c.Byte("if"), 0)
			b := gen1(c, x, c.Byte("if"), 0)
			return &expr{kind: 'b', op: c.Str("==", "!=", "<", "<=", ">", ">="), a: a, b: b}
		}
	}
	sub := func(k byte) *expr { return genTyped(c, x, k, depth-1-c.Intn(2)) }
	bin := func(op string, a, b *expr) *expr { return &expr{kind: 'b', op: op, a: a, b: b} }
	switch k {
	case 'i':
		switch c.Intn(8) {
		case 0:
			return &expr{kind: 'u', op: "-", a: sub('i')}
		case 1:
			if c.One(3) {
				a, b := byte('i'), byte('f')
				if c.P(50) {
					a = 'f'
				}
				if c.P(30) && a == 'f' {
					b = 'i'
				}
				return bin("%", sub(a), sub(b))
			}
		}
		return bin(c.Str("+", "-", "*", "/", "%"), sub('i'), sub('i'))
	case 'f':
		if c.One(8) {
			return &expr{kind: 'u', op: "-", a: sub('f')}
		}
		a, b := byte('f'), byte('f')
		switch c.Intn(3) {
		case 0:
			a = 'i'
		case 1:
			b = 'i'
		}
		return bin(c.Str("+", "-", "*", "/"), sub(a), sub(b))
	case 's':
		return bin("+", sub('s'), sub('s'))
	}
	// something that stands for a boolean
	like := func() *expr {
		if !c.One(5) {
			return sub('b')
		}
		switch c.Intn(4) {
		case 0:
			return sub('i')
		case 1:
			if e := x.path(c, 's'); e != nil {
				return e
			}
		case 2:
			return &expr{kind: 'i', val: int64(0), lit: "0"}
		}
		v := c.Str("true", "false")
		return &expr{kind: 's', val: v, lit: ref.QuotePath(v, c.Byte("\"'`"))}
	}
	switch c.Intn(10) {
	case 0:
		return &expr{kind: 'u', op: "!", a: like()}
	case 1, 2:
		return bin("&&", like(), like())
	case 3, 4:
		return bin("||", like(), like())
	case 5:
		a, b := sub('s'), sub(c.Byte("si"))
		if c.P(25) {
			if e := near(c, x, a); e != nil {
				b = e
				if c.P(50) {
					a, b = b, a
				}
			}
		}
		return bin(c.Str("==", "!="), a, b)
	case 6:
		return bin(c.Str("==", "!="), sub('b'), sub('b'))
	}
	a := sub(c.Byte("if"))
	b := sub(c.Byte("iifs"))
	if c.P(20) {
		b = a
	} else if c.P(15) {
		if e := near(c, x, a); e != nil {
			b = e
			if c.P(30) {
				a, b = b, a
			}
		}
	}
	return bin(c.Str("==", "!=", "<", "<=", ">", ">="), a, b)
}

// near is a literal that almost has the value of another expression.
func near(c *C, x *ectx, a *expr) *expr {
	v, ok := a.eval(x.T)
	if !ok {
		return nil
	}
	switch v := v.(type) {
	case int64:
		i := v + int64(c.Range(-1, 1))
		if c.One(4) {
			i = v ^ 1<<uint(c.Intn(62))
		}
		if i == math.MinInt64 {
			return nil
		}
		return &expr{kind: 'i', val: i, lit: strconv.FormatInt(i, 10)}
	case string:
		// other forms of the same
		if c.One(3) {
			v = strconv.Itoa(c.Intn(20))
			*a = expr{kind: 's', val: v, lit: ref.QuotePath(v, '\'')}
		}
		t := c.Str(v, v+" ", " "+v, v+".0", "0"+v, "+"+v, v+"e0", v+"0", v+"'", strings.ToUpper(v), strings.ToLower(v), strings.Title(v), v+v)
		if len(v) > 0 && c.One(5) {
			t = v[:len(v)-1]
		}
		if t == "" || t != noCtlBytes(t, "\t\n") || !utf8.ValidString(t) {
			return nil
		}
		return &expr{kind: 's', val: t, lit: ref.QuotePath(t, c.Byte("\"'"))}
	case float64:
		f := v
		switch c.Intn(4) {
		case 0:
			f = math.Nextafter(v, math.Inf(c.Range(0, 1)*2-1))
		case 1:
			f = v * (1 + math.Pow10(-c.Range(3, 16)))
		case 2:
			f = v + math.Pow10(-c.Range(3, 20))
		}
		if math.Abs(f) > 1e30 || f != 0 && math.Abs(f) < 1e-30 || math.IsNaN(f) {
			return nil
		}
		l := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(l, ".") {
			l += ".0"
		}
		return &expr{kind: 'f', val: f, lit: l}
	}
	return nil
}

// tokens writes an expression as a list of tokens.
func (e *expr) tokens(c *C, min int, out *[]string) {
	put := func(s string) { *out = append(*out, s) }
	switch e.kind {
	case 'i', 'f', 's':
		put(e.lit)
		return
	case 'p':
		put(e.src)
		return
	case 'u':
		put(e.op)
		if e.a.kind == 'b' || c.One(8) {
			put("(")
			e.a.tokens(c, 0, out)
			put(")")
		} else {
			e.a.tokens(c, 9, out)
		}
		return
	}
	p := binPrec[e.op]
	paren := p < min || c.One(10)
	if paren {
		put("(")
	}
	e.a.tokens(c, p, out)
	put(e.op)
	e.b.tokens(c, p+1, out)
	if paren {
		put(")")
	}
}

// write writes an expression, with a percentage of spaces between the tokens.
func (e *expr) write(c *C, spaces int) string {
	var t []string
	e.tokens(c, 0, &t)
	var b strings.Builder
	for i, s := range t {
		if i > 0 && c.P(spaces) {
			b.WriteString(c.Str(" ", " ", "  ", "\t"))
		}
		b.WriteString(s)
	}
	return b.String()
}

// writePadded writes an expression with about n spaces in it.
func (e *expr) writePadded(c *C, n int) string {
	var t []string
	e.tokens(c, 0, &t)
	var b strings.Builder
	for i, s := range t {
		if i > 0 {
			k := 0
			if n > 0 {
				k = c.Intn(n + 1)
				if c.P(50) {
					k = n
				}
			}
			n -= k
			b.WriteString(strings.Repeat(" ", k))
		}
		b.WriteString(s)
	}
	return b.String()
}

func (e *expr) size() int {
	n := 1
	if e.a != nil {
		n += e.a.size()
	}
	if e.b != nil {
		n += e.b.size()
	}
	return n
}

package ref

import (
	"strconv"
	"strings"
)

// Step is an element of a path: a name (also quoted), an index [N], or a selector {N}
// ({} if N is -1).
type Step struct {
	Kind byte // 'n', '[' or '{'
	Name string
	N    int
	// Expr is the expression written for N, if not empty.
	Expr string
}

// Result of walking a path.
type Result struct {
	// Node has the subnodes that the lookup gives. It is nil if there is nothing.
	Node *T
	// Wrapped is set if the path ends with an index: the node found is then the only
	// subnode of Node.
	Wrapped bool
	// Selected is set if the path ends with a selector (the content of the node is then of
	// no importance).
	Selected bool
}

// Walk follows a path step by step.
func Walk(t *T, steps []Step) Result {
	cur := t
	var prev *T
	name := ""
	r := Result{}
	for _, s := range steps {
		r.Wrapped, r.Selected = false, false
		if cur == nil {
			return Result{}
		}
		switch s.Kind {
		case 'n':
			prev, name = cur, s.Name
			cur = cur.Node(s.Name)
		case '[':
			prev, name = nil, ""
			if s.N < 0 || s.N >= len(cur.Out) {
				return Result{}
			}
			cur = cur.Out[s.N]
			r.Wrapped = true
		case '{':
			if prev == nil {
				return Result{}
			}
			sel := &T{V: "{"}
			n := 0
			for _, o := range prev.Out {
				if Str(o.V) == name {
					if s.N < 0 || s.N == n {
						sel.Out = append(sel.Out, o.Out...)
					}
					n++
				}
			}
			cur = sel
			prev = nil
			r.Selected = true
		}
	}
	if cur == nil {
		return Result{}
	}
	if r.Wrapped {
		cur = &T{V: "[", Out: []*T{cur}}
	}
	r.Node = cur
	return r
}

// IsToken tells if a name can be written without quotes in a path.
func IsToken(s string, isTok func(r rune) bool) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if r == 0xfffd || !isTok(r) {
			return false
		}
	}
	return true
}

// QuotePath writes a name in quotes (q: ", ' or `).
func QuotePath(s string, q byte) string {
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if q != '`' && (ch == q || ch == '\\' && (i == len(s)-1 || strings.IndexByte("\"'\\", s[i+1]) >= 0)) {
			b.WriteByte('\\')
		}
		b.WriteByte(ch)
	}
	b.WriteByte(q)
	return b.String()
}

func (s Step) String() string {
	switch s.Kind {
	case '[':
		if s.Expr != "" {
			return "[" + s.Expr + "]"
		}
		return "[" + strconv.Itoa(s.N) + "]"
	case '{':
		if s.Expr != "" {
			return "{" + s.Expr + "}"
		}
		if s.N < 0 {
			return "{}"
		}
		return "{" + strconv.Itoa(s.N) + "}"
	}
	return s.Name
}

// Set sets a path of names and indexes to a value (scalar, or a tree whose subnodes are
// stored), creating what is missing: names at the end of their parent, indexes filled with
// "_" nodes. It reports false if the path cannot be set.
func Set(t *T, steps []Step, v interface{}) bool {
	cur := t
	for i, s := range steps {
		if s.Kind == '[' {
			if s.N < 0 {
				return false
			}
			for len(cur.Out) <= s.N {
				cur.Out = append(cur.Out, &T{V: "_"})
			}
			if i == len(steps)-1 {
				if x, ok := v.(*T); ok {
					cur.Out[s.N] = x
				} else {
					cur.Out[s.N] = &T{V: v}
				}
				return true
			}
			cur = cur.Out[s.N]
			continue
		}
		n := cur.Node(s.Name)
		if n == nil {
			n = cur.Add(s.Name)
		}
		cur = n
	}
	if x, ok := v.(*T); ok {
		cur.Out = append([]*T(nil), x.Out...)
	} else {
		cur.Out = []*T{{V: v}}
	}
	return true
}

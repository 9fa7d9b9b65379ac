package ref

import (
	"bytes"
	"errors"
	"fmt"
)

// DecodeBinary decodes a complete binary OGDL stream strictly by the grammar:
//
//	ogdl-binary ::= header ( level node )* 0x00
//	header ::= 0x01 'G' 0x00
//	node ::= text 0x00 | 0x01 ( length data )* 0x00
//
// It returns the tree (text nodes as string, binary nodes as []byte) and the number of
// bytes of the stream.
func DecodeBinary(b []byte) (*T, int, error) {
	if len(b) < 3 || b[0] != 1 || b[1] != 'G' || b[2] != 0 {
		return nil, 0, errors.New("no header")
	}
	i := 3
	root := &T{V: "_"}
	last := []*T{root}
	for {
		lev, n, err := varint(b[i:])
		if err != nil {
			return nil, i, err
		}
		i += n
		if lev == 0 {
			return root, i, nil
		}
		if lev > len(last) {
			return nil, i, fmt.Errorf("level %d after level %d", lev, len(last)-1)
		}
		var v interface{}
		if i < len(b) && b[i] == 1 {
			i++
			data := []byte{}
			for {
				l, n, err := varint(b[i:])
				if err != nil {
					return nil, i, err
				}
				i += n
				if l == 0 {
					break
				}
				if i+l > len(b) {
					return nil, i, errors.New("binary node truncated")
				}
				data = append(data, b[i:i+l]...)
				i += l
			}
			v = data
		} else {
			k := bytes.IndexByte(b[i:], 0)
			if k < 0 {
				return nil, i, errors.New("text node truncated")
			}
			v = string(b[i : i+k])
			i += k + 1
		}
		n2 := last[lev-1].Add(v)
		last = append(last[:lev], n2)
	}
}

func varint(b []byte) (int, int, error) {
	if len(b) == 0 {
		return 0, 0, errors.New("truncated")
	}
	c := int(b[0])
	n, v := 1, c
	switch {
	case c < 0x80:
	case c < 0xc0:
		n, v = 2, c&0x3f
	case c < 0xe0:
		n, v = 3, c&0x1f
	case c < 0xf0:
		n, v = 4, c&0x0f
	default:
		return 0, 0, errors.New("bad number")
	}
	if len(b) < n {
		return 0, 0, errors.New("truncated")
	}
	for i := 1; i < n; i++ {
		v = v<<8 | int(b[i])
	}
	return v, n, nil
}

// AppendVarint writes a number with at least size bytes.
func AppendVarint(b []byte, i, size int) []byte {
	switch {
	case size <= 1 && i < 0x80:
		return append(b, byte(i))
	case size <= 2 && i < 0x4000:
		return append(b, byte(i>>8)|0x80, byte(i))
	case size <= 3 && i < 0x200000:
		return append(b, byte(i>>16)|0xc0, byte(i>>8), byte(i))
	case i < 0x10000000:
		return append(b, byte(i>>24)|0xe0, byte(i>>16), byte(i>>8), byte(i))
	}
	panic("number too big")
}

// EncodeBinary writes a tree by the grammar. Where the grammar leaves a choice, rnd(n)
// chooses (rnd may be nil): the form of the numbers, text or binary nodes, pieces of binary
// nodes. Nodes of type []byte are written as binary nodes, strings as text if possible.
// Nodes with empty content are written too.
func EncodeBinary(t *T, rnd func(n int) int) []byte {
	if rnd == nil {
		rnd = func(int) int { return 0 }
	}
	b := []byte{1, 'G', 0}
	b = encode(t, 1, b, rnd, nil)
	return append(b, 0)
}

// EncodeOffsets is EncodeBinary that also tells where each node ends, in order.
func EncodeOffsets(t *T, rnd func(n int) int) ([]byte, []int) {
	if rnd == nil {
		rnd = func(int) int { return 0 }
	}
	var off []int
	b := []byte{1, 'G', 0}
	b = encode(t, 1, b, rnd, &off)
	return append(b, 0), off
}

func encode(t *T, level int, b []byte, rnd func(n int) int, off *[]int) []byte {
	size := func() int {
		if rnd(4) == 1 {
			return 1 + rnd(4)
		}
		return 1
	}
	for _, o := range t.Out {
		b = AppendVarint(b, level, size())
		s := Str(o.V)
		_, bin := o.V.([]byte)
		if bin || s != "" && (s[0] == 1 || bytes.IndexByte([]byte(s), 0) >= 0) {
			b = append(b, 1)
			for len(s) > 0 {
				n := len(s)
				if rnd(3) == 1 {
					n = 1 + rnd(n)
				}
				b = AppendVarint(b, n, size())
				b = append(b, s[:n]...)
				s = s[n:]
			}
		} else {
			b = append(b, s...)
		}
		b = append(b, 0)
		if off != nil {
			*off = append(*off, len(b))
		}
		b = encode(o, level+1, b, rnd, off)
	}
	return b
}

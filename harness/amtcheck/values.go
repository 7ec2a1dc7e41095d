package main

import (
	"math"
	"strconv"
	"strings"
)

// vcodec maps small integer codes to values of a type and back. Code 0 is the
// zero value. dec returns -1 for a value no code encodes to (corruption).
type vcodec[V any] struct {
	name string
	enc  func(int) V
	dec  func(V) int
	norm func(int) int
}

func ident(v int) int { return v }

type Box struct {
	a    int
	s    string
	next *Box
	b    int
}

func newBox(v int) *Box {
	return &Box{v, "box" + strconv.Itoa(v), &Box{a: v, s: strings.Repeat("y", v%50), b: v ^ 0x55}, v ^ 0x3333}
}
func (b *Box) ok(v int) bool {
	return b.a == v && b.b == v^0x3333 && b.s == "box"+strconv.Itoa(v) && b.next != nil && b.next.a == v && b.next.b == v^0x55 &&
		b.next.s == strings.Repeat("y", v%50)
}

type Big [24]uint64

var vInt = &vcodec[int]{"int", ident, func(v int) int {
	if v < 0 || v > 1<<40 {
		return -1
	}
	return v
}, ident}

var vByte = &vcodec[uint8]{"byte", func(v int) uint8 { return uint8(v) }, func(v uint8) int { return int(v) }, func(v int) int { return int(uint8(v)) }}

var vUnit = &vcodec[struct{}]{"unit", func(int) struct{} { return struct{}{} }, func(struct{}) int { return 0 }, func(int) int { return 0 }}

var vString = &vcodec[string]{"string", func(v int) string {
	if v == 0 {
		return ""
	}
	return strconv.Itoa(v) + strings.Repeat("#", v%40)
}, func(s string) int {
	if s == "" {
		return 0
	}
	n, err := strconv.Atoi(strings.TrimRight(s, "#"))
	if err != nil || n <= 0 || s != strconv.Itoa(n)+strings.Repeat("#", n%40) {
		return -1
	}
	return n
}, ident}

var vBox = &vcodec[*Box]{"box", func(v int) *Box {
	if v == 0 {
		return nil
	}
	return newBox(v)
}, func(b *Box) int {
	if b == nil {
		return 0
	}
	if v := b.a; v > 0 && v <= 1<<40 && b.ok(v) {
		return v
	}
	return -1
}, ident}

var vBig = &vcodec[Big]{"big", func(v int) (b Big) {
	for i := range b {
		b[i] = uint64(v) * uint64(i*i+1)
	}
	return
}, func(b Big) int {
	v := int(b[0])
	if v < 0 || v > 1<<40 {
		return -1
	}
	for i := range b {
		if b[i] != uint64(v)*uint64(i*i+1) {
			return -1
		}
	}
	return v
}, ident}

var vAny = &vcodec[any]{"any", func(v int) any {
	switch {
	case v == 0:
		return nil
	case v%3 == 0:
		return v
	case v%3 == 1:
		return vString.enc(v)
	default:
		return newBox(v)
	}
}, func(x any) int {
	switch x := x.(type) {
	case nil:
		return 0
	case int:
		if x > 0 && x%3 == 0 {
			return x
		}
	case string:
		if v := vString.dec(x); v > 0 && v%3 == 1 {
			return v
		}
	case *Box:
		if v := vBox.dec(x); v > 0 && v%3 == 2 {
			return v
		}
	}
	return -1
}, ident}

var vSlice = &vcodec[[]uint32]{"slice", func(v int) []uint32 {
	if v == 0 {
		return nil
	}
	s := make([]uint32, 1+v%9)
	for i := range s {
		s[i] = uint32(v + i)
	}
	return s
}, func(s []uint32) int {
	if s == nil {
		return 0
	}
	if len(s) == 0 {
		return -1
	}
	v := int(s[0])
	if len(s) != 1+v%9 {
		return -1
	}
	for i := range s {
		if s[i] != uint32(v+i) {
			return -1
		}
	}
	return v
}, ident}

// Pair has a pointer after a scalar and a trailing zero-size field.
type Pair struct {
	n int32
	p *int
	_ struct{}
}

var vPair = &vcodec[Pair]{"pair", func(v int) Pair {
	if v == 0 {
		return Pair{}
	}
	x := v * 7
	return Pair{n: int32(v), p: &x}
}, func(p Pair) int {
	if p.n == 0 && p.p == nil {
		return 0
	}
	if p.p == nil || *p.p != int(p.n)*7 {
		return -1
	}
	return int(p.n)
}, ident}

// vFloat has values which == does not tell apart, or does not find equal to themselves.
var vFloat = &vcodec[float64]{"float", func(v int) float64 {
	switch {
	case v == 1:
		return math.Copysign(0, -1)
	case v%3 == 2:
		return math.Float64frombits(0x7FF8<<48 | uint64(v))
	}
	return float64(v)
}, func(f float64) int {
	b := math.Float64bits(f)
	switch {
	case b == 0:
		return 0
	case b == 1<<63:
		return 1
	case b>>48 == 0x7FF8:
		if v := int(b & (1<<48 - 1)); v%3 == 2 {
			return v
		}
	case f > 1 && f < 1<<50 && f == math.Trunc(f) && int(f)%3 != 2:
		return int(f)
	}
	return -1
}, ident}

var valNames = []string{"float", "int", "byte", "unit", "string", "box", "big", "any", "slice", "pair"}

// Package ref holds the reference implementations the monitors compare the
// library with: a BER writer and strict parser, the Glow layout, S101 framing,
// and the sequential model of a tree. It shares no code with the library.
package ref

import (
	"bytes"
	"fmt"
	"math"
	"math/big"

	"verif/harness/rt"
)

// V is one BER value.
type V struct {
	Tag  byte
	Val  []byte // primitive content
	Kids []*V   // constructed content
	// Length form: 0 indefinite (constructed only), 1..4 definite with that
	// many octets after the first if it is not the short form, 5 definite and
	// minimal. Set by SetForms.
	Form int
	// where the value was found by Parse
	Start, Body, End int
}

func (v *V) Cons() bool { return v.Tag&0x20 != 0 }

func Prim(tag byte, val []byte) *V { return &V{Tag: tag, Val: val} }

// Raw is a value of definite length with any tag and contents.
func Raw(tag byte, val []byte) []byte     { return append(appendLen([]byte{tag}, len(val), 5), val...) }
func Cons(tag byte, kids ...*V) *V        { return &V{Tag: tag, Kids: kids} }
func (v *V) Add(kids ...*V) *V            { v.Kids = append(v.Kids, kids...); return v }
func App(n byte) byte                     { return 0x60 | n }
func Ctx(n byte) byte                     { return 0xa0 | n }
func (v *V) Walk(f func(v *V, depth int)) { v.walk(f, 0) }
func (v *V) walk(f func(v *V, depth int), d int) {
	f(v, d)
	for _, k := range v.Kids {
		k.walk(f, d+1)
	}
}

// Forms of a whole message.
const (
	AllIndefinite = iota
	AllDefinite
	Mixed    // every constructed value on its own
	MixedDef // definite, any number of length octets
	FormKinds
)

func (v *V) SetForms(r *rt.Rand, kind int) {
	v.Walk(func(v *V, _ int) {
		if !v.Cons() {
			v.Form = 5
			return
		}
		switch kind {
		case AllIndefinite:
			v.Form = 0
		case AllDefinite:
			v.Form = 5
		case Mixed:
			v.Form = r.Intn(6)
		case MixedDef:
			v.Form = r.Range(1, 5)
		}
	})
}

func appendLen(b []byte, n, form int) []byte {
	min := 0
	switch {
	case n > 0xffffff:
		min = 4
	case n > 0xffff:
		min = 3
	case n > 0xff:
		min = 2
	case n > 0x7f:
		min = 1
	}
	k := form
	if form == 5 || form < min {
		k = min
	}
	if k == 0 {
		return append(b, byte(n))
	}
	b = append(b, 0x80|byte(k))
	for i := k - 1; i >= 0; i-- {
		b = append(b, byte(n>>(8*uint(i))))
	}
	return b
}

// Append writes the value with the forms set.
func (v *V) Append(b []byte) []byte {
	b = append(b, v.Tag)
	if !v.Cons() {
		return append(appendLen(b, len(v.Val), v.Form), v.Val...)
	}
	if v.Form == 0 {
		b = append(b, 0x80)
		for _, k := range v.Kids {
			b = k.Append(b)
		}
		return append(b, 0, 0)
	}
	var body []byte
	for _, k := range v.Kids {
		body = k.Append(body)
	}
	return append(appendLen(b, len(body), v.Form), body...)
}

func (v *V) Bytes() []byte { return v.Append(nil) }

// Parse reads one value and returns what follows it. It is strict: lengths
// must be covered exactly, indefinite values ended, primitive values definite.
func Parse(b []byte) (*V, []byte, error) {
	p := &parser{b: b}
	v, err := p.value(len(b), 0)
	if err != nil {
		return nil, nil, err
	}
	return v, b[p.pos:], nil
}

// ParseAll reads one value with nothing after it.
func ParseAll(b []byte) (*V, error) {
	v, rest, err := Parse(b)
	if err == nil && len(rest) > 0 {
		err = fmt.Errorf("%d octets after the value", len(rest))
	}
	return v, err
}

type parser struct {
	b   []byte
	pos int
}

func (p *parser) value(end, depth int) (*V, error) {
	if depth > 100000 {
		return nil, fmt.Errorf("too deep")
	}
	v := &V{Start: p.pos}
	if p.pos >= end {
		return nil, fmt.Errorf("no tag at %d", p.pos)
	}
	v.Tag = p.b[p.pos]
	p.pos++
	if v.Tag&0x1f == 0x1f {
		return nil, fmt.Errorf("long tag at %d", v.Start)
	}
	if v.Tag == 0 {
		return nil, fmt.Errorf("end of contents at %d", v.Start)
	}
	if p.pos >= end {
		return nil, fmt.Errorf("no length at %d", p.pos)
	}
	l := int(p.b[p.pos])
	p.pos++
	n := -1
	if l == 0x80 {
		v.Form = 0
	} else if l < 0x80 {
		n = l
		v.Form = 5
	} else {
		k := l & 0x7f
		if k > 4 || p.pos+k > end {
			return nil, fmt.Errorf("bad length at %d", p.pos)
		}
		n = 0
		for i := 0; i < k; i++ {
			n = n<<8 | int(p.b[p.pos])
			p.pos++
		}
		v.Form = k
	}
	v.Body = p.pos
	if n < 0 && !v.Cons() {
		return nil, fmt.Errorf("primitive value of indefinite length at %d", v.Start)
	}
	if n >= 0 {
		if n > end-p.pos {
			return nil, fmt.Errorf("value at %d is longer than what contains it", v.Start)
		}
		stop := p.pos + n
		if !v.Cons() {
			v.Val = p.b[p.pos:stop]
			p.pos = stop
			v.End = stop
			return v, nil
		}
		for p.pos < stop {
			k, err := p.value(stop, depth+1)
			if err != nil {
				return nil, err
			}
			v.Kids = append(v.Kids, k)
		}
		v.End = stop
		return v, nil
	}
	for {
		if p.pos+1 >= end {
			return nil, fmt.Errorf("value at %d does not end", v.Start)
		}
		if p.b[p.pos] == 0 && p.b[p.pos+1] == 0 {
			p.pos += 2
			v.End = p.pos
			return v, nil
		}
		k, err := p.value(end, depth+1)
		if err != nil {
			return nil, err
		}
		v.Kids = append(v.Kids, k)
	}
}

// IntBytes is the shortest two's-complement form.
func IntBytes(i int64) []byte {
	var b []byte
	for s := 56; s >= 0; s -= 8 {
		b = append(b, byte(i>>uint(s)))
	}
	for len(b) > 1 && (b[0] == 0 && b[1] < 0x80 || b[0] == 0xff && b[1] >= 0x80) {
		b = b[1:]
	}
	return b
}

// IntOf reads a two's-complement number of 1 to 8 octets.
func IntOf(b []byte) (int64, error) {
	if len(b) == 0 || len(b) > 8 {
		return 0, fmt.Errorf("integer of %d octets", len(b))
	}
	v := int64(int8(b[0]))
	for _, x := range b[1:] {
		v = v<<8 | int64(x)
	}
	return v, nil
}

func Int(i int64) *V   { return Prim(2, IntBytes(i)) }
func Str(s string) *V  { return Prim(12, []byte(s)) }
func OID(o []int32) *V { return Prim(13, OIDBytes(o)) }
func Bool(b bool) *V {
	if b {
		return Prim(1, []byte{0xff})
	}
	return Prim(1, []byte{0})
}

// OIDBytes is minimal base 128.
func OIDBytes(o []int32) []byte {
	var b []byte
	for _, c := range o {
		first := true
		for s := 28; s >= 0; s -= 7 {
			x := byte(c>>uint(s)) & 0x7f
			if first && x == 0 && s > 0 {
				continue
			}
			first = false
			if s > 0 {
				x |= 0x80
			}
			b = append(b, x)
		}
	}
	return b
}

// OIDOf reads minimal base 128.
func OIDOf(b []byte) ([]int32, error) {
	o := []int32{}
	v := int64(0)
	start := true
	for _, x := range b {
		if start && x == 0x80 {
			return nil, fmt.Errorf("component not minimal")
		}
		start = false
		v = v<<7 | int64(x&0x7f)
		if v > math.MaxInt32 {
			return nil, fmt.Errorf("component too big")
		}
		if x&0x80 == 0 {
			o = append(o, int32(v))
			v, start = 0, true
		}
	}
	if !start {
		return nil, fmt.Errorf("component cut off")
	}
	return o, nil
}

// RealBytes is the Ember+ form of a normal number, zero, infinity or NaN, and
// the library's own form of subnormals (exponent -1023 and the mantissa bits
// below an added leading one), for which Ember+ readers differ.
func RealBytes(f float64) []byte {
	switch {
	case f == 0:
		return nil
	case math.IsInf(f, 1):
		return []byte{0x40}
	case math.IsInf(f, -1):
		return []byte{0x41}
	case f != f:
		return []byte{0x42}
	}
	bits := math.Float64bits(f)
	m := bits&(1<<52-1) | 1<<52
	e := int64(bits>>52&0x7ff) - 1023
	for m&1 == 0 {
		m >>= 1
	}
	b := []byte{0x80}
	if bits>>63 == 1 {
		b[0] |= 0x40
	}
	eb := IntBytes(e)
	b[0] |= byte(len(eb) - 1)
	b = append(b, eb...)
	mb := new(big.Int).SetUint64(m).Bytes()
	return append(b, mb...)
}

// RealOf reads the content of a real by the Ember+ rule: the exponent is that
// of the leading bit of the mantissa. The result is exact.
func RealOf(b []byte) (float64, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(b) == 1 {
		switch b[0] {
		case 0x40:
			return math.Inf(1), nil
		case 0x41:
			return math.Inf(-1), nil
		case 0x42:
			return math.NaN(), nil
		}
		return 0, fmt.Errorf("bad real")
	}
	if b[0]&0x80 == 0 || b[0]&0x30 != 0 {
		return 0, fmt.Errorf("not a base 2 real: %x", b[0])
	}
	n := int(b[0]&3) + 1
	shift := uint(b[0]>>2) & 3
	if n > 3 || len(b) < 2+n {
		return 0, fmt.Errorf("real cut off")
	}
	e, err := IntOf(b[1 : 1+n])
	if err != nil {
		return 0, err
	}
	m := new(big.Int).SetBytes(b[1+n:])
	m.Lsh(m, shift)
	if m.Sign() == 0 {
		return 0, nil
	}
	x := new(big.Float).SetPrec(256).SetInt(m)
	x.SetMantExp(x, int(e)-(m.BitLen()-1))
	f, acc := x.Float64()
	if acc != big.Exact {
		return 0, fmt.Errorf("real is not a float64: %s", x.String())
	}
	if b[0]&0x40 != 0 {
		f = -f
	}
	return f, nil
}

// RealOfLib is RealOf for what the library writes: exponent -1023 stands for
// a subnormal number.
func RealOfLib(b []byte) (float64, error) {
	if len(b) >= 3 {
		n := int(b[0]&3) + 1
		if len(b) >= 2+n {
			if e, err := IntOf(b[1 : 1+n]); err == nil && e == -1023 {
				m := new(big.Int).SetBytes(b[1+n:])
				if m.Sign() != 0 && m.BitLen() <= 53 {
					m.Lsh(m, uint(53-m.BitLen()))
					bits := m.Uint64() &^ (1 << 52)
					if b[0]&0x40 != 0 {
						bits |= 1 << 63
					}
					return math.Float64frombits(bits), nil
				}
			}
		}
	}
	return RealOf(b)
}

func SameReal(a, b float64) bool {
	return a == b || a != a && b != b
}

func SameOID(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func SameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// UintBytes is m in as few octets as possible, at least one.
func UintBytes(m uint64) []byte {
	var b []byte
	for ; m > 0 || len(b) == 0; m >>= 8 {
		b = append([]byte{byte(m)}, b...)
	}
	return b
}

package checks

import (
	"fmt"
	"math"
	"runtime/metrics"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C06", Quick: 4800, Deep: 120000, Run: c06, CPU: 60 * time.Second,
		Rule: "a case makes inputs of one family (random octets; random tags and lengths; random Glow-shaped values; valid messages with octets flipped, cut, inserted, spliced, lengths changed; patterns of up to 1 MiB: deep nesting, empty elements, huge lengths, long identifiers and numbers; S101 streams of all these, damaged) and runs every decoder on each, watching for panics, processor time and octets allocated per octet of input; non-trivial: a distinct input",
		Min:  map[string]int64{"inputs": 30000, "runs": 500000, "decoded": 5000, "refused": 100000, "rendered": 2000, "mega": 300, "s101_packets": 500}})
}

// decoders are all entry points for octets. Each returns whether it accepted
// its input, and something that can be rendered.
type renderer interface{ ToString() string }

var decoders = []struct {
	name string
	f    func(b []byte) (bool, renderer)
}{
	{"ReadInt", func(b []byte) (bool, renderer) { _, e := asn1.NewASNReader(b).ReadInt(); return e == nil, nil }},
	{"ReadInt64", func(b []byte) (bool, renderer) { _, e := asn1.NewASNReader(b).ReadInt64(); return e == nil, nil }},
	{"ReadBoolean", func(b []byte) (bool, renderer) { _, e := asn1.NewASNReader(b).ReadBoolean(); return e == nil, nil }},
	{"ReadString", func(b []byte) (bool, renderer) { _, e := asn1.NewASNReader(b).ReadString(); return e == nil, nil }},
	{"ReadBitString", func(b []byte) (bool, renderer) { _, e := asn1.NewASNReader(b).ReadBitString(); return e == nil, nil }},
	{"ReadReal", func(b []byte) (bool, renderer) { _, e := asn1.NewASNReader(b).ReadReal(); return e == nil, nil }},
	{"ReadOID", func(b []byte) (bool, renderer) {
		_, e := asn1.NewASNReader(b).ReadOID(asn1.EMBER_RELATIVE_OID)
		return e == nil, nil
	}},
	{"ReadLength", func(b []byte) (bool, renderer) { _, e := asn1.NewASNReader(b).ReadLength(); return e == nil, nil }},
	{"ReadIndifiniteLengthData", func(b []byte) (bool, renderer) {
		_, e := asn1.NewASNReader(b).ReadIndifiniteLengthData()
		return e == nil, nil
	}},
	{"walk", func(b []byte) (bool, renderer) {
		// the generic reader, as deep as it goes
		r := asn1.NewASNReader(b)
		for i := 0; i < 64; i++ {
			t, e := r.Peek()
			if e != nil {
				return false, nil
			}
			_, sub, e := r.ReadSequenceStart(t)
			if e != nil || sub == nil {
				return false, nil
			}
			sub.CheckSequenceEnd()
			r = sub
		}
		r.ReadSequenceEnd()
		return true, nil
	}},
	{"DecodeElement", func(b []byte) (bool, renderer) {
		l, e := embertree.DecodeElement(asn1.NewASNReader(b))
		if e != nil || l == nil {
			return false, nil
		}
		return true, l
	}},
	{"Root.Decode", func(b []byte) (bool, renderer) {
		root := embertree.NewTree()
		e := root.Decode(asn1.NewASNReader(b))
		return e == nil, root
	}},
	{"NodeContents", contents(embertree.NewNodeContents)},
	{"ParameterContents", contents(embertree.NewParameterContents)},
	{"FunctionContents", contents(embertree.NewFunctionContents)},
	{"MatrixContents", contents(embertree.NewDefaultMatrixContents)},
	{"CommandContents", contents(embertree.NewCommandContents)},
	{"DecodeLabel", func(b []byte) (bool, renderer) {
		_, e := embertree.DecodeLabel(asn1.NewASNReader(b))
		return e == nil, nil
	}},
	{"DecodeLabels", func(b []byte) (bool, renderer) {
		m, _ := embertree.NewMatrixContent(embertree.OneToN, embertree.Linear)
		e := m.DecodeLabels(asn1.NewASNReader(b))
		return e == nil, m
	}},
	{"DecodeSignal", func(b []byte) (bool, renderer) {
		_, e := embertree.DecodeSignal(asn1.NewASNReader(b))
		return e == nil, nil
	}},
	{"DeodeSignals", func(b []byte) (bool, renderer) {
		ctx := asn1.Context(3)
		if len(b) > 0 {
			ctx = b[0]
		}
		_, e := embertree.DeodeSignals(asn1.NewASNReader(b), ctx)
		return e == nil, nil
	}},
	{"Target", func(b []byte) (bool, renderer) {
		e := embertree.NewTarget(0).Decode(asn1.NewASNReader(b))
		return e == nil, nil
	}},
	{"Source", func(b []byte) (bool, renderer) {
		e := embertree.NewSource(0).Decode(asn1.NewASNReader(b))
		return e == nil, nil
	}},
	{"DecodeTargets", matrixLists((*embertree.Element).DecodeTargets)},
	{"DecodeSources", matrixLists((*embertree.Element).DecodeSources)},
	{"DecodeConnections", matrixLists((*embertree.Element).DecodeConnections)},
	{"Connection", func(b []byte) (bool, renderer) {
		e := (&embertree.Connection{}).Decode(asn1.NewASNReader(b))
		return e == nil, nil
	}},
	{"Invocation", func(b []byte) (bool, renderer) {
		e := embertree.NewInvocation(0, nil).Decode(asn1.NewASNReader(b))
		return e == nil, nil
	}},
	{"TupleDescription", func(b []byte) (bool, renderer) {
		e := embertree.NewArgument(0, "").Decode(asn1.NewASNReader(b))
		return e == nil, nil
	}},
	{"DecodeValue", func(b []byte) (bool, renderer) {
		ctx := asn1.Context(2)
		if len(b) > 0 {
			ctx = b[0]
		}
		v, e := embertree.DecodeValue(asn1.NewASNReader(b), ctx)
		if e != nil || v == nil {
			return false, nil
		}
		return true, v
	}},
}

func contents(n func() embertree.EmberContents) func(b []byte) (bool, renderer) {
	return func(b []byte) (bool, renderer) {
		ec := n()
		e := ec.Decode(asn1.NewASNReader(b))
		return e == nil, ec
	}
}

func matrixLists(f func(*embertree.Element, *asn1.ASNReader) errors.Error) func(b []byte) (bool, renderer) {
	return func(b []byte) (bool, renderer) {
		l, e := embertree.NewMatrix(1, embertree.OneToN, embertree.Linear)
		if e != nil {
			return false, nil
		}
		e = f(l, asn1.NewASNReader(b))
		return e == nil, l
	}
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// The limits on what one call may allocate. The largest ratios on the
// unchanged tree are reported with the evidence; they come from the fixed cost
// of an element (two maps) against the four to six octets that announce one.
const (
	allocFixed = 1 << 20
	allocRatio = 4000
)

// shallow tells whether rendering is cheap enough to try.
func shallow(l *embertree.Element, depth int, budget *int) bool {
	*budget--
	if depth > 60 || *budget < 0 {
		return false
	}
	for _, k := range l.Children {
		if !shallow(k, depth+1, budget) {
			return false
		}
	}
	return true
}

func hostile(c *rt.Ctx, b []byte, only string) {
	c.Count("inputs", 1)
	c.Count("octets", len(b))
	c.Input(b)
	c.Distinct(b)
	if len(b) <= 256 {
		// Small inputs are measured together.
		before := allocated()
		defer func() {
			if used := allocated() - before; used > 8*allocFixed && !c.Failed() {
				c.Fail("allocation", "decoding %x allocates %d octets", b, used)
			}
		}()
	}
	for i, d := range decoders {
		if only != "" && d.name != only {
			continue
		}
		if len(b) > 1<<16 && only == "" && i >= 12 && i%3 != c.I%3 {
			continue
		}
		in := b
		big := len(b) > 256
		var before uint64
		var cpu time.Duration
		if big {
			before = allocated()
			cpu = rt.CPUTime()
		}
		var ok bool
		var r renderer
		c.Note("decoder", d.name)
		c.Note("input", in)
		c.Try(d.name, func() { ok, r = d.f(in) })
		c.Count("runs", 1)
		if big {
			used := allocated() - before
			ratio := int(used / uint64(len(in)))
			if used > allocFixed {
				c.Max("octets_allocated_per_octet", ratio)
			}
			if used > allocFixed+allocRatio*uint64(len(in)) {
				c.Fail("allocation", "%s allocates %d octets for %d octets of input", d.name, used, len(in))
			}
			if len(b) > 1<<16 {
				c.Max("cpu_ns_per_octet", int((rt.CPUTime()-cpu).Nanoseconds())/len(in))
			}
		}
		if ok {
			c.Count("decoded", 1)
		} else {
			c.Count("refused", 1)
		}
		if r != nil {
			budget := 400
			switch x := r.(type) {
			case *embertree.Element:
				if !shallow(x, 0, &budget) {
					continue
				}
			case *embertree.RootElement:
				deep := false
				for _, l := range x.RootElementCollection {
					deep = deep || !shallow(l, 0, &budget)
				}
				if deep {
					continue
				}
			}
			c.Try("rendering what "+d.name+" decoded", func() { _ = r.ToString() })
			c.Count("rendered", 1)
		}
	}
}

// shaped is a random value that looks like Glow.
func shaped(r *rt.Rand, depth int) *ref.V {
	if depth == 0 || r.P(1, 6) {
		t := rt.Pick[byte](r, 1, 2, 2, 3, 4, 5, 9, 10, 12, 12, 13, 13, byte(r.Intn(32)), byte(r.U64()))
		var val []byte
		switch r.Intn(6) {
		case 0:
			val = ref.IntBytes(r.Int64())
		case 1:
			val = ref.OIDBytes([]int32{r.Nat(), r.Nat()})
		case 2:
			val = ref.RealBytes(r.Float())
		case 3:
			val = []byte(r.Text(10))
		case 4:
			val = r.Bytes(r.Intn(12))
		}
		return ref.Prim(t&^0x20, val)
	}
	var t byte
	switch r.Intn(4) {
	case 0:
		t = ref.App(rt.Pick[byte](r, 0, 1, 2, 3, 4, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25))
	case 1, 2:
		t = ref.Ctx(byte(r.Intn(18)))
	default:
		t = rt.Pick[byte](r, 0x30, 0x31, 0x31, ref.Ctx(0), ref.Ctx(1))
	}
	v := ref.Cons(t)
	for i := r.Intn(5); i > 0; i-- {
		v.Add(shaped(r, depth-1))
	}
	return v
}

// damage changes a valid message in one to four places.
func damage(r *rt.Rand, b []byte, other []byte) []byte {
	b = append([]byte{}, b...)
	for n := r.Range(1, 4); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = rt.Pick[byte](r, 0, 0xff, 0x80, 0x7f, 0x81, 0x82, 0x84, 0x88, 0x30, 0x31, 0xa0, 0x60, byte(r.U64()))
		case 2:
			b = b[:i]
		case 3:
			j := i + r.Intn(len(b)-i) + 1
			b = append(b[:i:i], b[j:]...)
		case 4:
			b = append(b[:i:i], append(r.Bytes(r.Range(1, 6)), b[i:]...)...)
		case 5: // splice
			if len(other) > 0 {
				b = append(b[:i:i], other[r.Intn(len(other)):]...)
			}
		case 6: // a part twice
			j := i + r.Intn(len(b)-i) + 1
			b = append(b[:j:j], b[i:]...)
		case 7: // one more or less
			if r.Bool() {
				b[i]++
			} else {
				b[i]--
			}
		case 8: // a length of another form
			l := rt.Pick(r, []byte{0x80}, []byte{0x81, 0xff}, []byte{0x84, 0x7f, 0xff, 0xff, 0xff}, []byte{0x84, 0xff, 0xff, 0xff, 0xff}, []byte{0x82, 0xff, 0xff},
				[]byte{0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, []byte{0x83, 0, 0, 0}, []byte{0xff}, []byte{0x84, 0x80, 0, 0, 0})
			b = append(b[:i:i], append(append([]byte{}, l...), b[i+1:]...)...)
		}
	}
	return b
}

func repeat(max int, unit ...byte) []byte {
	var b []byte
	for len(b)+len(unit) <= max {
		b = append(b, unit...)
	}
	return b
}

// mega makes inputs of up to 1 MiB that stress one thing.
func mega(r *rt.Rand, kind int) []byte {
	max := 1 << 20
	switch r.Intn(3) {
	case 0:
		max = r.Range(1<<10, 1<<14)
	case 1:
		max = r.Range(1<<14, 1<<18)
	}
	switch kind {
	case 0: // nested sequences of every kind, without end
		return repeat(max, rt.Pick[byte](r, 0x30, 0x31, 0x60, 0x6b, 0xa0, 0xa2, 0x64, 0x63, 0x36), 0x80)
	case 1: // nested nodes, indefinite
		head := []byte{0x60, 0x80, 0x6b, 0x80, 0xa0, 0x80}
		return append(head, repeat(max-6, 0x63, 0x80, 0xa0, 3, 2, 1, 1, 0xa2, 0x80, 0x64, 0x80, 0xa0, 0x80)...)
	case 2: // the same with all ends
		unit := []byte{0x63, 0x80, 0xa0, 3, 2, 1, 1, 0xa2, 0x80, 0x64, 0x80, 0xa0, 0x80}
		n := max / (len(unit) + 8)
		b := []byte{0x60, 0x80, 0x6b, 0x80, 0xa0, 0x80}
		for i := 0; i < n; i++ {
			b = append(b, unit...)
		}
		b = append(b, 0x63, 0x80, 0xa0, 3, 2, 1, 1)
		return append(b, make([]byte, 8*n+2+6)...)
	case 3: // many tiny elements
		b := []byte{0x60, 0x80, 0x6b, 0x80}
		for n := 0; len(b)+12 < max; n++ {
			b = append(b, 0xa0, 9, rt.Pick[byte](r, 0x63, 0x61, 0x73, 0x6d, 0x62), 7, 0xa0, 5, 2, 3, byte(n>>16)&0x7f, byte(n>>8), byte(n))
		}
		return append(b, 0, 0, 0, 0)
	case 4: // huge length claims
		t := rt.Pick[byte](r, 0x60, 0x63, 0x31, 0x30, 2, 12, 4, 13, 9, 0xa0, 0xa2)
		l := rt.Pick(r, []byte{0x84, 0x7f, 0xff, 0xff, 0xff}, []byte{0x83, 0xff, 0xff, 0xff}, []byte{0x84, 0xff, 0xff, 0xff, 0xff}, []byte{0x82, 0xff, 0xff})
		return append(append([]byte{t}, l...), r.Bytes(r.Intn(3000))...)
	case 5: // one long primitive value
		t := rt.Pick[byte](r, 1, 2, 3, 4, 9, 12, 13)
		fill := rt.Pick[byte](r, 0, 0xff, 0x80, 0x7f, 0x81, 1)
		n := max - 6
		b := []byte{t, 0x83, byte(n >> 16), byte(n >> 8), byte(n)}
		for i := 0; i < n; i++ {
			b = append(b, fill)
		}
		return b
	case 6: // the same within contents
		in := mega(r, 5)
		v := ref.Cons(rt.Pick[byte](r, ref.Ctx(0), ref.Ctx(2), ref.Ctx(1)))
		w := ref.Cons(ref.App(1), ref.Cons(ref.Ctx(0), ref.Int(1)), ref.Cons(ref.Ctx(1), ref.Cons(0x31, v)))
		b := ref.Cons(ref.App(0), ref.Cons(ref.App(11), ref.Cons(ref.Ctx(0), w)))
		b.SetForms(r, 0) // indefinite
		x := b.Bytes()
		cut := len(x) - 2*7
		if cut < 0 {
			cut = len(x)
		}
		return append(append(x[:cut:cut], in...), make([]byte, 14)...)
	case 7: // children of one element
		b := []byte{0x60, 0x80, 0x6b, 0x80, 0xa0, 0x80, 0x63, 0x80, 0xa0, 3, 2, 1, 1, 0xa2, 0x80, 0x64, 0x80}
		for n := 0; len(b)+30 < max; n++ {
			b = append(b, 0xa0, 9, 0x61, 7, 0xa0, 5, 2, 3, byte(n>>16)&0x7f, byte(n>>8), byte(n))
		}
		return append(b, make([]byte, 14)...)
	case 8: // a matrix of many connections, signals, labels
		b := []byte{0x6d, 0x80, 0xa0, 3, 2, 1, 1}
		switch r.Intn(3) {
		case 0:
			b = append(b, 0xa5, 0x80, 0x30, 0x80)
			for n := 0; len(b)+30 < max; n++ {
				b = append(b, 0xa0, 9, 0x70, 7, 0xa0, 5, 2, 3, byte(n>>16)&0x7f, byte(n>>8), byte(n))
			}
		case 1:
			b = append(b, 0xa3, 0x80, 0x30, 0x80)
			for n := 0; len(b)+30 < max; n++ {
				b = append(b, 0xa0, 9, 0x6e, 7, 0xa0, 5, 2, 3, byte(n>>16)&0x7f, byte(n>>8), byte(n))
			}
		case 2:
			b = append(b, 0xa1, 0x80, 0x31, 0x80, 0xaa, 0x80, 0x30, 0x80)
			for len(b)+30 < max {
				b = append(b, 0xa0, 10, 0x72, 8, 0xa0, 3, 13, 1, 1, 0xa1, 1, 12)
			}
		}
		return append(b, make([]byte, 16)...)
	case 9: // ends of contents
		return append([]byte{rt.Pick[byte](r, 0x60, 0x63, 0x30, 0x31, 0xa0), 0x80}, make([]byte, max-2)...)
	case 10: // truncated lengths in nested definite values
		b := repeat(max, 0x30, 0x84, 0x00, byte(max>>16), byte(max>>8), byte(max))
		return b
	case 11: // an element whose contents are repeated many times
		b := []byte{0x63, 0x80, 0xa0, 3, 2, 1, 1}
		for len(b)+30 < max {
			b = append(b, 0xa1, 7, 0x31, 5, 0xa0, 3, 0x0c, 1, 'x')
		}
		return append(b, 0, 0)
	case 12: // siblings that are qualified, with long paths
		n := max / 8
		b := []byte{0x6a, 0x80, 0xa0, 0x80, 13, 0x83, byte(n >> 16), byte(n >> 8), byte(n)}
		for i := 0; i < n; i++ {
			b = append(b, byte(i)&0x7f)
		}
		b = append(b, 0, 0)
		b = append(b, 0xa2, 0x80, 0x64, 0x80)
		for i := 0; i < 20; i++ {
			b = append(b, 0xa0, 7, 0x63, 5, 0xa0, 3, 2, 1, byte(i))
		}
		return append(b, make([]byte, 8)...)
	case 13: // arguments and results of a function, names of indefinite length
		b := []byte{0x73, 0x80, 0xa0, 3, 2, 1, 1, 0xa1, 0x80, 0x31, 0x80, rt.Pick[byte](r, 0xa2, 0xa3), 0x80, 0x30, 0x80}
		b = append(b, repeat(max-40, indef(0xa0, indef(0x75, []byte{0xa0, 3, 2, 1, 1}, indef(0xa1, tiny(r))))...)...)
		return append(b, make([]byte, 10)...)
	case 14: // labels of indefinite length
		b := []byte{0x6d, 0x80, 0xa0, 3, 2, 1, 1, 0xa1, 0x80, 0x31, 0x80, 0xaa, 0x80, 0x30, 0x80}
		b = append(b, repeat(max-40, indef(0xa0, indef(0x72, indef(0xa0, indef(13, []byte{1, 2})), indef(0xa1, indef(12, []byte("x")))))...)...)
		return append(b, make([]byte, 10)...)
	case 15: // connections with sources of indefinite length
		b := []byte{0x6d, 0x80, 0xa0, 3, 2, 1, 1, 0xa5, 0x80, 0x30, 0x80}
		unit := indef(0xa0, indef(0x70, []byte{0xa0, 3, 2, 1, 1}, indef(0xa1, indef(13, []byte{1, 2, 3})), []byte{0xa2, 3, 2, 1, 1}))
		b = append(b, repeat(max-40, unit...)...)
		return append(b, make([]byte, 6)...)
	case 16: // an invocation with many arguments
		b := []byte{0x76, 0x80, 0xa0, 3, 2, 1, 1, 0xa1, 0x80, 0x30, 0x80}
		b = append(b, repeat(max-40, indef(0xa0, tiny(r))...)...)
		return append(b, make([]byte, 6)...)
	case 17: // one field of contents, again and again
		b := []byte{rt.Pick[byte](r, 0x61, 0x63, 0x6d, 0x73), 0x80, 0xa0, 3, 2, 1, 1, 0xa1, 0x80, 0x31, 0x80}
		b = append(b, repeat(max-40, indef(rt.Pick[byte](r, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5), tiny(r))...)...)
		return append(b, make([]byte, 6)...)
	case 18, 19: // a large valid message
		g := gen(r)
		roots := ref.Cons(ref.App(11))
		for n := 0; n < max; {
			v := (&ref.Enc{R: r}).Elem(g.Elem(2))
			v.SetForms(r, rt.Pick(r, 0, r.Intn(ref.FormKinds)))
			n += len(v.Bytes()) + 4
			roots.Add(ref.Cons(ref.Ctx(0), v))
		}
		v := ref.Cons(ref.App(0), roots)
		if kind == 18 {
			v.SetForms(r, 0)
		}
		b := v.Bytes()
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
		return b
	}
	return r.Bytes(max)
}

func indef(tag byte, parts ...[]byte) []byte {
	b := []byte{tag, 0x80}
	for _, p := range parts {
		b = append(b, p...)
	}
	return append(b, 0, 0)
}

// tiny is a small primitive value of indefinite length.
func tiny(r *rt.Rand) []byte {
	return indef(rt.Pick[byte](r, 12, 12, 3, 13, 9), []byte("a\x01\x02")[:r.Range(0, 3)])
}

const megaKinds = 21

func c06(c *rt.Ctx) {
	r := c.R
	g := gen(r)
	message := func() []byte {
		v := (&ref.Enc{R: r, Shuffle: r.Bool()}).Root(g.Roots(3))
		v.SetForms(r, r.Intn(ref.FormKinds))
		return v.Bytes()
	}
	switch c.I % 24 {
	case 0, 1:
		for i := 0; i < 60; i++ {
			hostile(c, r.Bytes(r.Intn(rt.Pick(r, 4, 16, 100))), "")
		}
	case 2, 3, 4: // tags and lengths
		alphabet := []byte{0, 1, 2, 3, 4, 5, 9, 10, 12, 13, 0x30, 0x31, 0x60, 0x61, 0x62, 0x63, 0x64, 0x69, 0x6a, 0x6b, 0x6d, 0x6e, 0x6f, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76,
			0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa8, 0xaa, 0x80, 0x80, 0x80, 0x81, 0x82, 0x84, 0x7f, 0xff, 6, 7, 8}
		for i := 0; i < 60; i++ {
			b := make([]byte, r.Range(1, rt.Pick(r, 5, 12, 40, 200)))
			for j := range b {
				b[j] = rt.Pick(r, alphabet...)
			}
			hostile(c, b, "")
		}
	case 5, 6, 7, 8: // Glow-shaped
		for i := 0; i < 40; i++ {
			v := shaped(r, r.Range(1, 8))
			v.SetForms(r, r.Intn(ref.FormKinds))
			b := v.Bytes()
			if r.P(1, 4) {
				b = append(b, r.Bytes(r.Intn(4))...)
			}
			hostile(c, b, "")
		}
	case 9, 10, 11, 12, 13: // damaged messages
		other := message()
		for k := 0; k < 5; k++ {
			m := message()
			for i := 0; i < 6; i++ {
				hostile(c, damage(r, m, other), "")
			}
			hostile(c, m, "")
		}
	case 14, 15: // damaged parts
		for i := 0; i < 30; i++ {
			x := &ref.Enc{R: r}
			k := rt.Pick(r, ref.Node, ref.Param, ref.Func, ref.Matrix)
			var v *ref.V
			switch r.Intn(5) {
			case 0:
				v = x.Conn(ref.Conn{Target: r.Int32(), Sources: g.OID(0), Op: r.Intn(3), Disp: r.Intn(4)})
			case 1:
				v = x.Elem(g.Elem(1))
			case 2:
				v = invocation{ID: r.Intn(100), Args: []ref.Val{g.Val(), g.Val()}}.v(r)
			case 3:
				v = ref.Cons(ref.Ctx(byte(r.Intn(3))), g.Val().V())
			default:
				v = x.Contents(k, g.Contents(k))
			}
			v.SetForms(r, r.Intn(ref.FormKinds))
			b := v.Bytes()
			hostile(c, b, "")
			hostile(c, damage(r, b, b), "")
		}
	case 16, 17:
		b := mega(r, (c.I/24*2+c.I%2)%megaKinds)
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
		hostile(c, b, "")
		c.Count("mega", 1)
	default:
		c06stream(c, g, message)
	}
	c.Sample("family %d", c.I%24)
}

// hostileStream is a hostile sequence of octets for a stream decoder.
func hostileStream(r *rt.Rand, message func() []byte) []byte {
	var b []byte
	switch r.Intn(6) {
	case 0:
		b = r.Bytes(r.Intn(rt.Pick(r, 100, 5000, 1<<18)))
	case 1: // special octets
		b = make([]byte, r.Intn(rt.Pick(r, 20, 300, 20000)))
		for i := range b {
			b[i] = rt.Pick[byte](r, 0xfe, 0xff, 0xfd, 0, 0x0e, 1, 2, 0xde, 0xc0, 0x1f, byte(r.U64()))
		}
	case 2: // valid frames of any content, any header
		for i := r.Intn(40); i > 0; i-- {
			var ct []byte
			switch r.Intn(4) {
			case 0:
				ct = r.Bytes(r.Intn(12))
			case 1:
				ct = append([]byte{0, 0x0e, byte(r.Intn(5)), 1}, r.Bytes(r.Intn(8))...)
			case 2:
				ct = ref.EmberContent(byte(r.U64()), shaped(r, 5).Bytes())
			case 3:
				ct = ref.EmberContent(rt.Pick[byte](r, 0xc0, 0xc0, 0x80, 0x40, 0, 0x20, 0xe0), damage(r, message(), nil))
				ct = ct[:r.Range(0, len(ct))]
			}
			b = append(b, ref.Wrap(ref.WithCRC(ct))...)
		}
	case 3: // damaged frames
		for i := r.Intn(10); i > 0; i-- {
			for _, f := range ref.Frames(message(), nil) {
				b = append(b, damage(r, f, b)...)
			}
		}
	case 4: // 1 MiB without an end, or of nothing but starts, ends or escapes
		n := r.Range(1<<16, 1<<20)
		x := rt.Pick[byte](r, 0xfe, 0xff, 0xfd, 0x00, 0x55)
		b = make([]byte, n)
		for i := range b {
			b[i] = x
		}
		b[0] = 0xfe
	case 5: // messages that are hostile
		for i := r.Intn(6); i > 0; i-- {
			m := damage(r, message(), nil)
			if r.P(1, 5) {
				m = mega(r, r.Intn(megaKinds))
			}
			var cuts []int
			for at := r.Range(1, 2000); at < len(m); at += r.Range(1, 3000) {
				cuts = append(cuts, at)
			}
			for _, f := range ref.Frames(m, cuts) {
				b = append(b, f...)
			}
		}
	}
	if len(b) > 1<<20 {
		b = b[:1<<20]
	}
	return b
}

// c06stream feeds hostile octets to a stream decoder whose packets go to a
// tree, as the client does.
func c06stream(c *rt.Ctx, g *ref.Gen, message func() []byte) {
	r := c.R
	b := hostileStream(r, message)
	c.Input(b)
	c.Note("stream", b)
	c.Count("inputs", 1)
	c.Count("streams", 1)
	c.Count("octets", len(b))
	c.Distinct(b)
	root := embertree.NewTree()
	packets, errs := 0, 0
	d := socket.NewS101Decoder(
		func(p []byte) errors.Error { return nil },
		func(p []byte) errors.Error { return nil },
		func(p []byte) errors.Error {
			packets++
			return root.Decode(asn1.NewASNReader(p))
		},
		func(e errors.Error) {
			errs++
			if e == nil {
				c.Report("error", "the error handler was called without an error")
			}
		})
	before := allocated()
	feed := append([]byte{}, b...)
	c.Try("DecodeBuffer", func() {
		for i := 0; i < len(feed); {
			n := r.Range(1, rt.Pick(r, 3, 100, 4096, math.MaxInt32))
			if n > len(feed)-i {
				n = len(feed) - i
			}
			d.DecodeBuffer(n, feed[i:i+n])
			i += n
		}
	})
	used := allocated() - before
	if len(b) > 0 && used > allocFixed {
		c.Max("stream_octets_allocated_per_octet", int(used/uint64(len(b))))
	}
	if used > allocFixed+allocRatio*uint64(len(b)) {
		c.Fail("allocation", "the stream decoder allocates %d octets for %d octets of input", used, len(b))
	}
	// The frame decoder's own entry points.
	for i := 0; i < 20; i++ {
		f := r.Bytes(r.Intn(16))
		if r.Bool() {
			f = ref.WithCRC(f)
		}
		if r.Bool() {
			f = ref.WithCRC(append([]byte{0, 0x0e, byte(r.Intn(3))}, f...))
		}
		c.Note("frame", f)
		c.Try("HandleFrame", func() { d.HandleFrame(f) })
		c.Count("runs", 1)
	}
	c.Count("runs", 1)
	c.Count("s101_packets", packets)
	c.Count("s101_errors", errs)
	budget := 400
	for _, l := range root.RootElementCollection {
		if !shallow(l, 0, &budget) {
			return
		}
	}
	c.Try("rendering the tree", func() { _ = root.ToString() })
	c.Count("rendered", 1)
	_ = fmt.Sprint
}

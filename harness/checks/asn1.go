package checks

import (
	"bytes"
	"math"
	mathbits "math/bits"

	"github.com/dufourgilles/emberlib/asn1"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C01", Quick: 32000, Deep: 640000, Run: c01,
		Rule: "a case writes 300 integers, enumerations and booleans (edges of every width, sign changes, uniform and exhaustive 16-bit ranges) with one writer, compares the octets with the reference encoding, and reads them back; non-trivial: a value whose reading and octets were compared",
		Min:  map[string]int64{"values_written": 100000, "longer_forms_read": 10000}})
	rt.Register(&rt.Check{ID: "C02", Quick: 32000, Deep: 640000, Run: c02,
		Rule: "a case writes 250 float64 (edges of exponent and mantissa width, subnormals, few bits, uniform bits), compares the octets with the exact value by the Ember+ rule and reads them back bit for bit, also from equivalent encodings that other encoders make; non-trivial: a finite non-zero value",
		Min:  map[string]int64{"normal": 50000, "subnormal": 1000, "special": 1000, "foreign": 100000}})
	rt.Register(&rt.Check{ID: "C03", Quick: 4800, Deep: 96000, Run: c03,
		Rule: "a case writes strings and buffers of lengths around every length-form boundary (0, 1, 127/128, 255/256, 65535/65536, 16777215/16777216) and any content, checks the octets with the strict reader and reads them back with a value following, and reads content of indefinite length; non-trivial: a distinct length and content",
		Min:  map[string]int64{"long_16M": 2, "long_64k": 20, "medium": 200, "values": 3000, "indefinite": 20000}})
	rt.Register(&rt.Check{ID: "C04", Quick: 32000, Deep: 640000, Run: c04,
		Rule: "a case writes 100 relative OIDs of 0 to 12 components of 0..2^31-1, compares the octets with the minimal form, reads them back, and gives the reader cut and oversized components and the writer negative ones; non-trivial: a distinct OID",
		Min:  map[string]int64{"written": 50000, "negative_refused": 1000, "cut_refused": 1000, "big_refused": 1000}})
	rt.Register(&rt.Check{ID: "C28", Quick: 64000, Deep: 1280000, Run: c28,
		Rule: "a case walks a random well-formed definite-length message through nested library readers in a random order of readers and compares Len, Offset and TopOffset of every open reader with the positions the strict reader found, after every operation; non-trivial: a message of at least two levels",
		Min:  map[string]int64{"positions_compared": 100000, "ends_checked": 5000, "past_end_refused": 2000, "deep": 500, "long": 300}})
}

func c01(c *rt.Ctx) {
	type item struct {
		kind int // 0 int, 1 int64, 2 enum, 3 bool, 4 int tagged, 5 int64 tagged
		i    int64
		tag  byte
	}
	var items []item
	// Every 16-bit value is written once over the quick cases.
	base := c.I * 82
	for k := 0; k < 82; k++ {
		v := int64(int16(base + k))
		items = append(items, item{kind: c.R.Intn(3), i: v})
	}
	for k := 0; k < 218; k++ {
		it := item{kind: c.R.Intn(6), tag: byte(c.R.Intn(31)) | byte(rt.Pick(c.R, 0, 0x40, 0x80))}
		switch it.kind {
		case 1, 5:
			it.i = c.R.Int64()
		case 3:
			it.i = int64(c.R.Intn(2))
		default:
			it.i = int64(c.R.Int32())
		}
		items = append(items, it)
	}
	w := asn1.NewASNWriter()
	var want []byte
	ends := []int{}
	for _, it := range items {
		var e interface{ Error() string }
		_ = e
		var msg string
		tag := byte(2)
		c.Try("writing an integer", func() {
			switch it.kind {
			case 0:
				msg = es(w.WriteInt(int(it.i)))
			case 1:
				msg = es(w.WriteInt64(it.i))
			case 2:
				tag = 10
				msg = es(w.WriteEnum(int(it.i)))
			case 3:
				tag = 1
				msg = es(w.WriteBoolean(it.i != 0))
			case 4:
				tag = it.tag
				msg = es(w.WriteIntTag(int(it.i), it.tag))
			case 5:
				tag = it.tag
				msg = es(w.WriteInt64Tag(it.i, it.tag))
			}
		})
		c.Check(msg == "", "write-error", "writing %d (kind %d): %s", it.i, it.kind, msg)
		if it.kind == 3 {
			want = append(want, 1, 1)
			if it.i != 0 {
				// any non-zero octet is true; which one is checked below
				want = append(want, 0xff)
			} else {
				want = append(want, 0)
			}
		} else {
			b := ref.IntBytes(it.i)
			want = append(append(want, tag, byte(len(b))), b...)
		}
		ends = append(ends, len(want))
		c.Count("values_written", 1)
		c.Distinct(it.kind, it.i)
	}
	got := ref.Drain(w)
	norm := append([]byte{}, got...)
	for n, it := range items {
		if it.kind == 3 && it.i != 0 && ends[n] <= len(norm) && norm[ends[n]-1] != 0 {
			norm[ends[n]-1] = 0xff
		}
	}
	if !bytes.Equal(norm, want) {
		at := 0
		for at < len(norm) && at < len(want) && norm[at] == want[at] {
			at++
		}
		from := 0
		for n := range items {
			if at < ends[n] {
				lim := ends[n]
				if lim > len(got) {
					lim = len(got)
				}
				c.Note("octets", got[from:])
				c.Fail("octets", "writing %d (kind %d) gives %x..., expected %x", items[n].i, items[n].kind, got[from:lim], want[from:ends[n]])
			}
			from = ends[n]
		}
		c.Fail("octets", "%d octets written instead of %d", len(got), len(want))
	}
	c.Sample("%d values, octets %x...", len(items), want[:24])

	// Reading: tags that no reader knows are set to INTEGER.
	from := 0
	for n, it := range items {
		if it.kind != 3 {
			got[from] = 2
		}
		from = ends[n]
	}
	rd := asn1.NewASNReader(got)
	for n, it := range items {
		var v int64
		var msg string
		c.Try("reading an integer", func() {
			switch it.kind {
			case 0, 2, 4:
				if c.R.P(1, 3) {
					x, e := rd.ReadInt64()
					v, msg = x, es(e)
				} else {
					x, e := rd.ReadInt()
					v, msg = int64(x), es(e)
				}
			case 1, 5:
				x, e := rd.ReadInt64()
				v, msg = x, es(e)
			case 3:
				x, e := rd.ReadBoolean()
				msg = es(e)
				if x {
					v = 1
				}
			}
		})
		c.Check(msg == "", "read-error", "reading %d back (kind %d): %s", it.i, it.kind, msg)
		c.Check(v == it.i, "value", "%d reads back as %d (kind %d)", it.i, v, it.kind)
		c.Check(rd.Len() == len(got)-ends[n], "position", "after reading %d there are %d octets left instead of %d", it.i, rd.Len(), len(got)-ends[n])
		c.Count("values_read", 1)
	}

	// longer forms
	for k := 0; k < 40; k++ {
		big := c.R.Bool()
		v := int64(c.R.Int32())
		max := 4
		if big {
			v = c.R.Int64()
			max = 8
		}
		b := ref.IntBytes(v)
		pad := byte(0)
		if v < 0 {
			pad = 0xff
		}
		for len(b) < max && c.R.P(3, 4) {
			b = append([]byte{pad}, b...)
		}
		truth := rt.Pick(c.R, 0, 1, 0x80, 0xff, c.R.Intn(256))
		tlv := append(append([]byte{2, byte(len(b))}, b...), 1, 1, byte(truth))
		rd := asn1.NewASNReader(tlv)
		var got int64
		var msg string
		if big {
			x, e := rd.ReadInt64()
			got, msg = x, es(e)
		} else {
			x, e := rd.ReadInt()
			got, msg = int64(x), es(e)
		}
		c.Check(msg == "", "longer-form", "reading % x: %s", tlv, msg)
		c.Check(got == v && rd.Len() == 3, "longer-form", "reading % x gives %d with %d octets left, expected %d", tlv, got, rd.Len(), v)
		bo, e := rd.ReadBoolean()
		c.Check(e == nil && bo == (truth != 0) && rd.Len() == 0, "boolean", "boolean of octet %#x reads as %v %s", truth, bo, es(e))
		c.Count("longer_forms_read", 1)
	}
}

func c02(c *rt.Ctx) {
	var fs []float64
	for k := 0; k < 250; k++ {
		f := c.R.Float()
		if c.R.P(1, 10) {
			f = math.Nextafter(f, rt.Pick(c.R, math.Inf(1), math.Inf(-1)))
		}
		fs = append(fs, f)
	}
	if c.I < 2046 {
		// every exponent, with the smallest, largest and a random mantissa
		e := uint64(c.I+1) << 52
		fs = append(fs, math.Float64frombits(e), math.Float64frombits(e|1<<52-1), -math.Float64frombits(e|c.R.U64()&(1<<52-1)), math.Float64frombits(e|1))
	}
	w := asn1.NewASNWriter()
	for _, f := range fs {
		var msg string
		c.Try("WriteReal", func() { msg = es(w.WriteReal(f)) })
		c.Check(msg == "", "write-error", "writing %g: %s", f, msg)
	}
	b := ref.Drain(w)
	rest := b
	rd := asn1.NewASNReader(b)
	for _, f := range fs {
		bits := math.Float64bits(f)
		v, r, err := ref.Parse(rest)
		if err != nil {
			c.Fail("octets", "after writing %g (%016x) the octets are not a value: %v", f, bits, err)
		}
		c.Check(v.Tag == 9, "octets", "writing %g gives tag %d", f, v.Tag)
		exp := bits >> 52 & 0x7ff
		switch {
		case f == 0, f != f, math.IsInf(f, 0):
			c.Count("special", 1)
			x, err := ref.RealOf(v.Val)
			c.Check(err == nil && ref.SameReal(x, f), "octets", "%g is written as %x, which says %g %v", f, v.Val, x, err)
		case exp == 0:
			c.Count("subnormal", 1)
			c.Distinct(bits)
		default:
			c.Count("normal", 1)
			c.Distinct(bits)
			x, err := ref.RealOf(v.Val)
			c.Check(err == nil && x == f, "octets", "%g (%016x) is written as %x, which says %g %v", f, bits, v.Val, x, err)
		}
		var x float64
		var msg string
		c.Try("ReadReal", func() {
			y, e := rd.ReadReal()
			x, msg = y, es(e)
		})
		c.Check(msg == "", "read-error", "reading %g (%016x) back from %x: %s", f, bits, v.Val, msg)
		same := math.Float64bits(x) == bits || f == 0 && x == 0 || f != f && x != x
		c.Check(same, "value", "%g (%016x) reads back as %g (%016x) from %x", f, bits, x, math.Float64bits(x), v.Val)
		c.Check(rd.Len() == len(r), "position", "after reading %g there are %d octets left instead of %d", f, rd.Len(), len(r))
		rest = r
	}
	c.Sample("first values %v", fs[:4])

	// the same numbers as other encoders write them
	var in []byte
	var want []float64
	for k := 0; k < 100; k++ {
		f := rt.Pick(c.R, fs...)
		bits := math.Float64bits(f)
		exp := bits >> 52 & 0x7ff
		if exp == 0 || exp == 0x7ff {
			continue
		}
		m := bits&(1<<52-1) | 1<<52
		for m&1 == 0 { // all significant bits, no more
			m >>= 1
		}
		size := mathbits.Len64(m)
		for spare := 64 - size; spare > 0 && c.R.P(2, 3); {
			k := min(spare, rt.Pick(c.R, 1, 2, 7, 8, 8, 16))
			m <<= uint(k)
			spare -= k
			size += k
		}
		pre := byte(0x80)
		if f < 0 {
			pre |= 0x40
		}
		if sh := c.R.Intn(4); 64-size >= sh {
			pre |= byte(sh) << 2
		}
		mant := ref.UintBytes(m)
		for len(mant) < 8 && c.R.P(1, 4) {
			mant = append([]byte{0}, mant...)
		}
		e := int64(exp) - 1023
		eb := ref.IntBytes(e)
		for len(eb) < 3 && c.R.P(1, 2) {
			eb = append([]byte{byte(e >> 63)}, eb...)
		}
		pre |= byte(len(eb) - 1)
		val := append(append([]byte{pre}, eb...), mant...)
		in = append(append(in, 9, byte(len(val))), val...)
		want = append(want, f)
	}
	rd = asn1.NewASNReader(in)
	rest = in
	for _, f := range want {
		v, r, err := ref.Parse(rest)
		c.Check(err == nil, "harness", "%v", err)
		x, e := rd.ReadReal()
		c.Check(e == nil, "foreign", "%g, encoded as %x, is refused: %s", f, v.Val, es(e))
		c.Check(x == f, "foreign", "%g (%016x), encoded as %x, reads as %g (%016x)", f, math.Float64bits(f), v.Val, x, math.Float64bits(x))
		c.Check(rd.Len() == len(r), "position", "after reading %x there are %d octets left instead of %d", v.Val, rd.Len(), len(r))
		c.Count("foreign", 1)
		rest = r
	}
}

func c03(c *rt.Ctx) {
	lens := []int{}
	switch {
	case c.I < 6:
		lens = append(lens, []int{1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 12345, 1<<24 - 2, 1 << 25}[c.I])
		c.Count("long_16M", 1)
	case c.I < 60:
		lens = append(lens, rt.Pick(c.R, 65534, 65535, 65536, 65537, 65536+c.R.Intn(1000), 70000+c.R.Intn(300000)))
		c.Count("long_64k", 1)
	}
	if c.R.P(1, 8) {
		lens = append(lens, rt.Pick(c.R, 1<<uint(c.R.Range(8, 17))+c.R.Range(-1, 1), c.R.Range(5000, 66000), 1000*c.R.Range(1, 70)))
		c.Count("medium", 1)
	}
	if c.I >= 60 && c.I < 700 {
		lens = append(lens, c.I-60, c.I-59) // every length up to 640
	}
	for k := 0; k < 4; k++ {
		lens = append(lens, rt.Pick(c.R, 0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, c.R.Intn(600), c.R.Intn(5000)))
	}
	w := asn1.NewASNWriter()
	type item struct {
		b   []byte
		str bool
	}
	var items []item
	for _, n := range lens {
		var b []byte
		switch c.R.Intn(3) {
		case 0:
			b = bytes.Repeat([]byte{byte(rt.Pick(c.R, 0, 0xff, 'x', 0x80))}, n)
		default:
			if n > 1<<20 {
				b = bytes.Repeat(c.R.Bytes(4099), n/4099+1)[:n]
			} else {
				b = c.R.Bytes(n)
			}
		}
		it := item{b, c.R.Bool()}
		items = append(items, it)
		var msg string
		c.Try("writing a string", func() {
			if it.str {
				msg = es(w.WriteString(string(b)))
			} else {
				msg = es(w.WriteBuffer(b, asn1.EMBER_BITSTRING))
			}
		})
		c.Check(msg == "", "write-error", "writing %d octets: %s", n, msg)
		c.Distinct(n, b[:min(n, 64)])
		c.Count("values", 1)
		c.Max("longest", n)
	}
	out := ref.Drain(w)
	rest := out
	rd := asn1.NewASNReader(out)
	for _, it := range items {
		v, r, err := ref.Parse(rest)
		if err != nil {
			c.Fail("octets", "%d octets are written as something that is not a value: %v (starts with %x)", len(it.b), err, rest[:min(len(rest), 16)])
		}
		tag := byte(3)
		if it.str {
			tag = 12
		}
		c.Check(v.Tag == tag && bytes.Equal(v.Val, it.b), "octets", "%d octets are written as tag %d with %d octets (starts with %x)", len(it.b), v.Tag, len(v.Val), rest[:min(len(rest), 16)])
		var got []byte
		var msg string
		c.Try("reading a string", func() {
			if it.str {
				s, e := rd.ReadString()
				got, msg = []byte(s), es(e)
			} else {
				s, e := rd.ReadBitString()
				got, msg = s, es(e)
			}
		})
		c.Check(msg == "", "read-error", "reading %d octets back: %s", len(it.b), msg)
		c.Check(bytes.Equal(got, it.b), "value", "%d octets read back as %d other octets", len(it.b), len(got))
		c.Check(rd.Len() == len(r), "position", "after reading %d octets there are %d octets left instead of %d", len(it.b), rd.Len(), len(r))
		rest = r
	}
	c.Check(len(rest) == 0, "octets", "%d octets after the last value", len(rest))
	c.Sample("lengths %v", lens)
	// content of indefinite length
	for k := 0; k < 8; k++ {
		n := c.R.Intn(rt.Pick(c.R, 3, 20, 400))
		if c.R.P(1, 40) {
			n = c.R.Intn(70000)
		}
		if k == 0 && c.I%200 == 7 {
			n = c.R.Range(70000, 3000000)
			c.Count("indefinite_long", 1)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = rt.Pick(c.R, 0, 0, 1, 0x80, 0xff, byte(c.R.U64()))
			if b[i] == 0 && (i == n-1 || i > 0 && b[i-1] == 0) {
				b[i] = 1 + byte(c.R.Intn(255))
			}
		}
		tag := rt.Pick[byte](c.R, 3, 12)
		in := append([]byte{tag, 0x80}, b...)
		in = append(in, 0, 0, 2, 1, 7)
		rd := asn1.NewASNReader(in)
		var got []byte
		var msg string
		c.Try("reading a string of indefinite length", func() {
			if tag == 12 {
				s, e := rd.ReadString()
				got, msg = []byte(s), es(e)
			} else {
				s, e := rd.ReadBitString()
				got, msg = s, es(e)
			}
		})
		c.Check(msg == "" && bytes.Equal(got, b), "indefinite", "%d octets %x of indefinite length read as %d %x %s", n, b[:min(n, 400)], len(got), got[:min(len(got), 400)], msg)
		c.Check(rd.Len() == 3, "position", "after reading %d octets %x of indefinite length there are %d octets left instead of 3", n, b[:min(n, 400)], rd.Len())
		c.Count("indefinite", 1)
	}
}

func c04(c *rt.Ctx) {
	var oids [][]int32
	w := asn1.NewASNWriter()
	for k := 0; k < 60; k++ {
		n := c.R.Intn(13)
		if k == 0 && c.R.P(1, 10) {
			n = rt.Pick(c.R, 127, 128, 200, 300, c.R.Range(13, 2000))
		}
		o := make([]int32, n)
		for i := range o {
			switch c.R.Intn(3) {
			case 0:
				o[i] = c.R.Nat()
			case 1:
				s := uint(7 * c.R.Range(0, 4))
				o[i] = int32(min(int64(math.MaxInt32), max(0, int64(1)<<s*int64(c.R.Range(1, 127))+int64(c.R.Range(-1, 1)))))
			case 2:
				o[i] = rt.Pick[int32](c.R, 0, 127, 128, 16383, 16384, 1<<21-1, 1<<21, 1<<28-1, 1<<28, math.MaxInt32)
			}
		}
		oids = append(oids, o)
		var msg string
		keep := append([]int32{}, o...)
		c.Try("WriteRelativeOID", func() { msg = es(w.WriteRelativeOID(o)) })
		c.Check(msg == "", "write-error", "writing %v: %s", o, msg)
		c.Check(ref.SameOID(keep, o), "argument", "writing changed the OID %v to %v", keep, o)
		c.Count("written", 1)
		c.Distinct(ref.PathString(o))
	}
	out := ref.Drain(w)
	rest := out
	rd := asn1.NewASNReader(out)
	for _, o := range oids {
		v, r, err := ref.Parse(rest)
		if err != nil {
			c.Fail("octets", "%v is written as something that is not a value: %v", o, err)
		}
		c.Check(v.Tag == 13 && bytes.Equal(v.Val, ref.OIDBytes(o)), "octets", "%v is written as tag %d %x, expected %x", o, v.Tag, v.Val, ref.OIDBytes(o))
		var got asn1.RelativeOID
		var msg string
		c.Try("ReadOID", func() {
			x, e := rd.ReadOID(asn1.EMBER_RELATIVE_OID)
			got, msg = x, es(e)
		})
		c.Check(msg == "", "read-error", "reading %v back: %s", o, msg)
		c.Check(ref.SameOID(got, o), "value", "%v reads back as %v", o, got)
		c.Check(rd.Len() == len(r), "position", "after reading %v there are %d octets left instead of %d", o, rd.Len(), len(r))
		rest = r
	}
	c.Sample("%v", oids[:3])
	// negative components
	for k := 0; k < 20; k++ {
		o := make([]int32, c.R.Range(1, 6))
		for i := range o {
			o[i] = c.R.Nat()
		}
		o[c.R.Intn(len(o))] = -1 - c.R.Nat()
		w := asn1.NewASNWriter()
		e := w.WriteRelativeOID(o)
		c.Check(e != nil, "negative", "%v is written without error as %x", o, ref.Drain(w))
		c.Count("negative_refused", 1)
	}
	// cut and oversized last components
	for k := 0; k < 20; k++ {
		o := make([]int32, c.R.Range(1, 6))
		for i := range o {
			o[i] = c.R.Nat()
		}
		b := ref.OIDBytes(o)
		b[len(b)-1] |= 0x80
		tlv := ref.Prim(13, b).Bytes()
		got, e := asn1.NewASNReader(tlv).ReadOID(asn1.EMBER_RELATIVE_OID)
		c.Check(e != nil, "cut", "the OID %x, whose last component is cut off, reads as %v", b, got)
		c.Count("cut_refused", 1)

		big := uint64(1)<<31 + c.R.U64()%(1<<uint(c.R.Range(1, 32)))
		b = ref.OIDBytes(o[:len(o)-1])
		var tail []byte
		for x := big; ; x >>= 7 {
			d := byte(x & 0x7f)
			if len(tail) > 0 {
				d |= 0x80
			}
			tail = append([]byte{d}, tail...)
			if x < 128 {
				break
			}
		}
		b = append(b, tail...)
		got, e = asn1.NewASNReader(ref.Prim(13, b).Bytes()).ReadOID(asn1.EMBER_RELATIVE_OID)
		c.Check(e != nil, "big", "the OID %x, whose last component is %d, reads as %v", b, big, got)
		c.Count("big_refused", 1)
	}
}

// randomDefinite makes a well-formed tree of values.
func randomDefinite(r *rt.Rand, depth int) *ref.V {
	if depth == 0 || r.P(1, 3) {
		switch r.Intn(6) {
		case 0:
			return ref.Int(int64(r.Int32()))
		case 1:
			return ref.Bool(r.Bool())
		case 2:
			return ref.Str(r.Text(40))
		case 3:
			return ref.Prim(3, r.Bytes(r.Intn(rt.Pick(r, 5, 40, 300))))
		case 4:
			return ref.Prim(9, ref.RealBytes(float64(r.Int64())))
		}
		o := make([]int32, r.Intn(5))
		for i := range o {
			o[i] = r.Nat()
		}
		return ref.OID(o)
	}
	v := ref.Cons(byte(0x20|rt.Pick(r, 0x40, 0x80, 0)) | byte(r.Intn(31)))
	if v.Tag == 0x20 {
		v.Tag = 0x30
	}
	for i := r.Intn(5); i > 0; i-- {
		v.Add(randomDefinite(r, depth-1))
	}
	return v
}

func c28(c *rt.Ctx) {
	v := ref.Cons(ref.App(byte(c.R.Intn(31))))
	for i := c.R.Range(1, 5); i > 0; i-- {
		v.Add(randomDefinite(c.R, c.R.Range(1, 5)))
	}
	if c.R.P(1, 30) { // far down
		for i := c.R.Range(5, 120); i > 0; i-- {
			v = ref.Cons(ref.App(byte(c.R.Intn(31))), v)
			if c.R.Bool() {
				v.Add(randomDefinite(c.R, 1))
			}
		}
		c.Count("deep", 1)
	}
	if c.R.P(1, 60) { // far along
		for i := c.R.Range(50, 2000); i > 0; i-- {
			v.Add(randomDefinite(c.R, c.R.Intn(2)))
		}
		c.Count("long", 1)
	}
	v.SetForms(c.R, ref.MixedDef)
	if c.R.P(1, 3) {
		v.SetForms(c.R, ref.AllDefinite)
	}
	v.Walk(func(v *ref.V, _ int) {
		if !v.Cons() && c.R.P(1, 6) {
			v.Form = c.R.Range(1, 4) // more length octets than needed
		}
	})
	// a value follows, and one precedes in some cases
	before := []byte{}
	if c.R.Bool() {
		before = ref.Int(int64(c.R.Int32())).Bytes()
	}
	msg := append(append([]byte{}, before...), v.Bytes()...)
	msg = append(msg, 2, 1, 7)
	c.Note("message", msg)
	c.Input(msg)
	pv, rest, err := ref.Parse(msg[len(before):])
	if err != nil || len(rest) != 3 {
		panic("the harness made a bad message")
	}
	if pv.Walk(func(*ref.V, int) {}); len(pv.Kids) > 0 {
		c.Distinct(msg)
	}
	type open struct {
		r          *asn1.ASNReader
		start, end int // of its content in the message
		pos        int // absolute
		kids       []*ref.V
		next       int
		name       string
	}
	off := len(before)
	top := asn1.NewASNReader(msg)
	if off > 0 {
		top.ReadInt()
	}
	all := []*open{{r: top, start: 0, end: len(msg), pos: off, kids: []*ref.V{pv}, name: "top"}}
	compare := func(what string) {
		for _, o := range all {
			l, of, t := o.r.Len(), o.r.Offset(), o.r.TopOffset()
			if l != o.end-o.pos || of != o.pos-o.start || t != o.pos {
				c.Fail("position", "after %s: reader %s (content %d..%d, next octet %d) says Len %d, Offset %d, TopOffset %d", what, o.name, o.start, o.end, o.pos, l, of, t)
			}
			c.Count("positions_compared", 1)
		}
	}
	compare("the start")
	for {
		var ready []*open
		for _, o := range all {
			if o.next < len(o.kids) {
				ready = append(ready, o)
			}
		}
		if len(ready) == 0 {
			break
		}
		o := ready[c.R.Intn(len(ready))]
		k := o.kids[o.next]
		for c.R.Bool() {
			if c.R.Bool() {
				b, e := o.r.Peek()
				c.Check(e == nil && b == k.Tag, "peek", "Peek gives %#x %s instead of %#x", b, es(e), k.Tag)
				compare("Peek")
			} else {
				end, e := o.r.CheckSequenceEnd()
				c.Check(e == nil && !end, "end", "CheckSequenceEnd gives %v %s although %d values are left", end, es(e), len(o.kids)-o.next)
				compare("CheckSequenceEnd")
				c.Count("ends_checked", 1)
			}
		}
		o.next++
		o.pos = off + k.End
		if k.Cons() {
			var n int
			var sub *asn1.ASNReader
			c.Try("ReadSequenceStart", func() {
				m, s, e := o.r.ReadSequenceStart(k.Tag)
				c.Check(e == nil, "open", "opening tag %#x at %d: %s", k.Tag, off+k.Start, es(e))
				n, sub = m, s
			})
			c.Check(n == k.End-k.Body, "length", "opening tag %#x at %d gives length %d instead of %d", k.Tag, off+k.Start, n, k.End-k.Body)
			all = append(all, &open{r: sub, start: off + k.Body, end: off + k.End, pos: off + k.Body, kids: k.Kids, name: ref.PathString([]int32{int32(off + k.Start)})})
			compare("opening a value")
			continue
		}
		c.Try("a primitive reader", func() {
			var msg string
			switch k.Tag {
			case 1:
				_, e := o.r.ReadBoolean()
				msg = es(e)
			case 2:
				if c.R.Bool() {
					_, e := o.r.ReadInt()
					msg = es(e)
				} else {
					_, e := o.r.ReadInt64()
					msg = es(e)
				}
			case 3:
				_, e := o.r.ReadBitString()
				msg = es(e)
			case 9:
				_, e := o.r.ReadReal()
				msg = es(e)
			case 12:
				_, e := o.r.ReadString()
				msg = es(e)
			case 13:
				_, e := o.r.ReadOID(13)
				msg = es(e)
			}
			c.Check(msg == "", "read-error", "reading tag %d at %d: %s", k.Tag, off+k.Start, msg)
		})
		compare("reading a primitive value")
	}
	// the ends
	for i, o := range all {
		if i == 0 {
			continue
		}
		end, e := o.r.CheckSequenceEnd()
		c.Check(e == nil && end, "end", "at its end reader %s says %v %s", o.name, end, es(e))
		c.Check(o.r.ReadSequenceEnd() == nil, "end", "ReadSequenceEnd at the end of reader %s fails", o.name)
		if _, e := o.r.ReadByte(); e == nil {
			c.Fail("past-end", "reader %s reads past its value", o.name)
		}
		if _, e := o.r.Peek(); e == nil {
			c.Fail("past-end", "reader %s peeks past its value", o.name)
		}
		c.Count("past_end_refused", 1)
	}
	compare("the end")
	x, e := top.ReadInt()
	c.Check(e == nil && x == 7, "next", "the value after the message reads as %d %s", x, es(e))
	// any octets that do not end a sequence
	for k := 0; k < 10; k++ {
		b := c.R.Bytes(c.R.Range(2, 8))
		if k == 0 && c.I%40 == 3 {
			b = append(b, make([]byte, c.R.Intn(rt.Pick(c.R, 300, 70000, 300000)))...)
			c.Count("ends_in_long_data", 1)
		}
		if c.R.Bool() {
			b[0] = 0
		}
		if b[0] == 0 && b[1] == 0 {
			b[1] = 1 + byte(c.R.Intn(255))
		}
		rd := asn1.NewASNReader(b)
		at := c.R.Intn(3)
		if at > 0 && len(b) > at+1 && (b[at] != 0 || b[at+1] != 0) {
			for i := 0; i < at; i++ {
				rd.ReadByte()
			}
		} else {
			at = 0
		}
		p, e := rd.Peek()
		c.Check(e == nil && p == b[at], "peek", "Peek at %d of %x gives %#x %s", at, b[:min(len(b), 40)], p, es(e))
		end, e := rd.CheckSequenceEnd()
		c.Check(e == nil && !end, "end", "CheckSequenceEnd at %d of %x gives %v %s", at, b[:min(len(b), 40)], end, es(e))
		c.Check(rd.Len() == len(b)-at && rd.Offset() == at, "position", "after CheckSequenceEnd at %d of %x there are %d octets left at %d", at, b[:min(len(b), 40)], rd.Len(), rd.Offset())
		x, e := rd.ReadByte()
		c.Check(e == nil && x == b[at], "position", "after CheckSequenceEnd at %d of %x the next octet is %#x %s", at, b[:min(len(b), 40)], x, es(e))
		c.Count("ends_checked", 1)
	}
	c.Sample("message %x", msg)
}

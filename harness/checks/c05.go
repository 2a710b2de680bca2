package checks

import (
	"bytes"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C05", Quick: 24000, Deep: 480000, Run: c05,
		Rule:        "a case either gives each primitive reader a complete value with a wrong tag (all 255), every proper prefix of it, or a wrong length; or opens constructed values with other tags, cut length octets and lengths beyond the data; or decodes every proper prefix of a random definite-length message into a tree with contents; non-trivial: a distinct input that must be refused",
		Min:         map[string]int64{"wrong_tag_refused": 20000, "prefix_refused": 5000, "message_prefix_refused": 5000, "wrong_length_refused": 2000, "too_long_refused": 2000},
		Assumptions: []string{"one missing last octet of the outermost value is read as 0 (stable test TestDecodeRootWithChildren relies on it): recorded as a known finding, whose signature (the result is that of the message with a zero last octet) is checked each time"}})
}

var primReaders = []struct {
	name string
	tag  byte
	read func(r *asn1.ASNReader) (interface{}, string)
}{
	{"ReadInt", 2, func(r *asn1.ASNReader) (interface{}, string) { v, e := r.ReadInt(); return v, es(e) }},
	{"ReadInt64", 2, func(r *asn1.ASNReader) (interface{}, string) { v, e := r.ReadInt64(); return v, es(e) }},
	{"ReadBoolean", 1, func(r *asn1.ASNReader) (interface{}, string) { v, e := r.ReadBoolean(); return v, es(e) }},
	{"ReadString", 12, func(r *asn1.ASNReader) (interface{}, string) { v, e := r.ReadString(); return v, es(e) }},
	{"ReadBitString", 3, func(r *asn1.ASNReader) (interface{}, string) { v, e := r.ReadBitString(); return v, es(e) }},
	{"ReadReal", 9, func(r *asn1.ASNReader) (interface{}, string) { v, e := r.ReadReal(); return v, es(e) }},
	{"ReadOID", 13, func(r *asn1.ASNReader) (interface{}, string) { v, e := r.ReadOID(13); return v, es(e) }},
}

func c05(c *rt.Ctx) {
	switch c.I % 4 {
	case 0, 1:
		c05prim(c)
	case 2:
		c05open(c)
	case 3:
		c05message(c)
	}
}

func c05prim(c *rt.Ctx) {
	p := primReaders[c.R.Intn(len(primReaders))]
	var val []byte
	switch p.name {
	case "ReadInt":
		val = ref.IntBytes(int64(c.R.Int32()))
	case "ReadInt64":
		val = ref.IntBytes(c.R.Int64())
	case "ReadBoolean":
		val = []byte{byte(c.R.Intn(256))}
	case "ReadString", "ReadBitString":
		val = c.R.Bytes(rt.Pick(c.R, 0, 1, 5, 127, 128, 200, 300, c.R.Intn(600)))
	case "ReadReal":
		val = ref.RealBytes(c.R.Float())
	case "ReadOID":
		o := make([]int32, c.R.Intn(8))
		for i := range o {
			o[i] = c.R.Nat()
		}
		val = ref.OIDBytes(o)
	}
	v := ref.Prim(p.tag, val)
	v.Form = rt.Pick(c.R, 5, 5, c.R.Range(1, 4))
	good := v.Bytes()
	c.Note("value", good)
	c.Note("reader", p.name)
	c.Input(good)
	refuse := func(in []byte, counter, what string) {
		c.Try(p.name, func() {
			got, msg := p.read(asn1.NewASNReader(in))
			c.Check(msg != "", what, "%s reads %x (%s) as %v", p.name, in[:min(len(in), 40)], what, got)
		})
		c.Count(counter, 1)
	}
	if _, msg := p.read(asn1.NewASNReader(good)); msg != "" {
		c.Fail("valid", "%s refuses %x: %s", p.name, good, msg)
	}
	for t := 0; t < 256; t++ {
		if byte(t) == p.tag {
			continue
		}
		in := append([]byte{byte(t)}, good[1:]...)
		refuse(in, "wrong_tag_refused", "wrong-tag")
	}
	for n := 0; n < len(good); n++ {
		refuse(good[:n], "prefix_refused", "prefix")
		if c.R.P(1, 3) {
			// within a nested reader, with other data behind
			box := append([]byte{0x30, 0x84, 0, 0, byte(n >> 8), byte(n)}, good...)
			_, sub, e := asn1.NewASNReader(box).ReadSequenceStart(0x30)
			c.Check(e == nil, "nested", "opening the value around: %s", es(e))
			got, msg := p.read(sub)
			c.Check(msg != "", "prefix", "%s within a value of %d octets reads %x as %v", p.name, n, good[:n], got)
			c.Count("prefix_refused", 1)
		}
	}
	c.Distinct(p.name, good)
	// wrong lengths of numbers
	if p.tag <= 2 {
		max := map[string]int{"ReadInt": 4, "ReadInt64": 8, "ReadBoolean": 1}[p.name]
		for k := 0; k < 20; k++ {
			n := rt.Pick(c.R, 0, max+1, max+2, 9, 16, 127, 128, 255, c.R.Range(max+1, 300))
			x := ref.Prim(p.tag, c.R.Bytes(n))
			x.Form = rt.Pick(c.R, 5, c.R.Range(1, 4))
			refuse(append(x.Bytes(), c.R.Bytes(4)...), "wrong_length_refused", "wrong-length")
		}
		refuse(append([]byte{p.tag, 0x80, 1, 0, 0}, c.R.Bytes(4)...), "wrong_length_refused", "wrong-length")
	}
	// binary reals whose contents end within the exponent
	if p.tag == 9 {
		for k := 0; k < 10; k++ {
			n := c.R.Intn(3)
			x := ref.Prim(9, append([]byte{byte(0x80 | n | c.R.Intn(2)<<6 | c.R.Intn(4)<<2)}, c.R.Bytes(c.R.Intn(n+1))...))
			x.Form = rt.Pick(c.R, 5, c.R.Range(1, 4))
			refuse(append(x.Bytes(), c.R.Bytes(4)...), "exponents_refused", "cut-exponent")
		}
	}
	// declared lengths beyond the data, up to 2^32-1
	for k := 0; k < 6; k++ {
		n := uint32(c.R.U64()) >> uint(c.R.Intn(31))
		if int(n) <= len(val) {
			n = uint32(len(val)) + 1 + n
		}
		in := append([]byte{p.tag, 0x84, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, val...)
		refuse(in, "too_long_refused", "too-long")
	}
	// length octets beyond four
	k := c.R.Range(5, 127)
	in := append([]byte{p.tag, 0x80 | byte(k)}, make([]byte, k-1)...)
	in = append(append(in, byte(len(val))), val...)
	refuse(in, "too_long_refused", "length-octets")
	c.Sample("%s %x", p.name, good)
}

func c05open(c *rt.Ctx) {
	tag := byte(0x20 | rt.Pick(c.R, 0, 0x40, 0x80, 0xc0) | c.R.Intn(31))
	body := c.R.Bytes(rt.Pick(c.R, 0, 1, 2, 100, 127, 128, 255, 256, c.R.Intn(400)))
	n := len(body)
	form := c.R.Range(0, 4)
	head := func(n int) []byte {
		h := []byte{tag}
		switch {
		case form == 0 && n < 128:
			return append(h, byte(n))
		}
		k := max(form, 1)
		for n >= 1<<uint(8*k) {
			k++
		}
		h = append(h, 0x80|byte(k))
		for i := k - 1; i >= 0; i-- {
			h = append(h, byte(n>>uint(8*i)))
		}
		return h
	}
	good := append(head(n), body...)
	c.Note("value", good)
	c.Distinct(good)
	m, sub, e := asn1.NewASNReader(good).ReadSequenceStart(tag)
	c.Check(e == nil && m == n && sub.Len() == n, "valid", "opening %x: length %d %s", good[:min(20, len(good))], m, es(e))
	for t := 0; t < 256; t++ {
		if byte(t) == tag {
			continue
		}
		_, _, e := asn1.NewASNReader(good).ReadSequenceStart(byte(t))
		c.Check(e != nil, "wrong-tag", "opening tag %#x as %#x succeeds", tag, t)
		c.Count("wrong_tag_refused", 1)
	}
	// cut tag and length octets
	h := head(n)
	for k := 0; k < len(h); k++ {
		_, _, e := asn1.NewASNReader(h[:k]).ReadSequenceStart(tag)
		c.Check(e != nil, "cut-length", "opening %x, cut in its length, succeeds", h[:k])
		c.Count("prefix_refused", 1)
	}
	// lengths beyond the data
	for k := 0; k < 40; k++ {
		extra := rt.Pick(c.R, 1, 2, 3, c.R.Range(1, 300), c.R.Range(1, 1<<24), 1<<31-1-n)
		in := append(head(n+extra), body...)
		nested := c.R.Bool()
		rd := asn1.NewASNReader(in)
		if nested {
			// the data end with the value around, whatever follows it
			box := append(ref.Raw(0x30, in), c.R.Bytes(c.R.Intn(extra%1000+4))...)
			skip := []int{}
			for l := c.R.Intn(rt.Pick(c.R, 1, 3, 12)); l > 0; l-- {
				n := c.R.Intn(rt.Pick(c.R, 1, 3, 200))
				skip = append(skip, n)
				box = append(ref.Raw(0x30, append(c.R.Bytes(n), box...)), c.R.Bytes(c.R.Intn(5))...)
			}
			skip = append([]int{0}, skip...)
			rd = asn1.NewASNReader(box)
			for l := len(skip) - 1; l >= 0; l-- {
				_, r2, e := rd.ReadSequenceStart(0x30)
				c.Check(e == nil, "valid", "opening the value around: %s", es(e))
				for k := skip[l]; k > 0; k-- {
					r2.ReadByte()
				}
				rd = r2
			}
			c.Max("levels_around", len(skip))
		}
		var sub *asn1.ASNReader
		var msg string
		c.Try("ReadSequenceStart", func() {
			_, s, e := rd.ReadSequenceStart(tag)
			sub, msg = s, es(e)
		})
		c.Count("too_long_refused", 1)
		if msg != "" {
			continue
		}
		if extra == 1 && !nested && sub != nil && sub.Len() == n+1 {
			// known finding: the missing last octet reads as 0
			got := make([]byte, 0, n+1)
			for sub.Len() > 0 {
				b, _ := sub.ReadByte()
				got = append(got, b)
			}
			if bytes.Equal(got, append(append([]byte{}, body...), 0)) {
				c.Report("last-octet-missing", "a value of %d octets of which %d are there is opened", n+1, n)
				continue
			}
		}
		c.Fail("too-long", "a value that declares %d octets of which %d are there (nested %v) is opened", n+extra, n, nested)
	}
	c.Sample("%x", good[:min(20, len(good))])
}

// growTree makes a tree that has received a few messages.
func growTree(c *rt.Ctx, g *ref.Gen, n int) (*embertree.RootElement, []*ref.Elem) {
	root := embertree.NewTree()
	for i := 0; i < n; i++ {
		v := (&ref.Enc{}).Root(g.Roots(3))
		v.SetForms(c.R, ref.AllIndefinite)
		decodeRoot(root, v.Bytes())
	}
	return root, snapshot(c, root)
}

func c05message(c *rt.Ctx) {
	g := gen(c.R)
	g.Budget = c.R.Range(1, 10)
	es := g.Roots(3)
	v := (&ref.Enc{R: c.R, Shuffle: true}).Root(es)
	v.SetForms(c.R, rt.Pick(c.R, ref.AllDefinite, ref.MixedDef))
	msg := v.Bytes()
	c.Note("message", msg)
	c.Input(msg)
	root, before := growTree(c, g, c.R.Intn(3))
	step := 1
	if len(msg) > 400 {
		step = len(msg)/400 + 1
	}
	recv := &recorder{}
	root.AddListener(recv)
	for n := 0; n < len(msg); n++ {
		if n%step != 0 && n < len(msg)-8 {
			continue
		}
		in := msg[:n]
		var res string
		if n == len(msg)-1 {
			// a tree of its own: this prefix may be accepted, see below
			other, _ := growTree2(before)
			c.Try("Decode", func() { res = decodeRoot(other, in) })
			if res != "" {
				if d := ref.DiffAll(snapshot(c, other), before, false); d != "" {
					c.Fail("changed", "the message without its last octet is refused (%s) but changed the tree: %s", res, d)
				}
				c.Count("message_prefix_refused", 1)
				continue
			}
			zero := append(append([]byte{}, in...), 0)
			third, _ := growTree2(before)
			if r := decodeRoot(third, zero); r != "" {
				c.Fail("prefix", "the message without its last octet (of %d) is accepted, and refused with a zero in its place: %s", len(msg), r)
			}
			if d := ref.DiffAll(snapshot(c, other), snapshot(c, third), false); d != "" {
				c.Fail("prefix", "the message without its last octet (of %d) is accepted as neither a prefix nor the message with a zero in its place: %s", len(msg), d)
			}
			c.Report("last-octet-missing", "the message of %d octets is accepted without its last octet", len(msg))
			continue
		}
		c.Try("Decode", func() { res = decodeRoot(root, in) })
		c.Check(res != "", "prefix", "the first %d of %d octets of a message are accepted", n, len(msg))
		c.Count("message_prefix_refused", 1)
		if n%7 == 0 || n > len(msg)-8 {
			if d := ref.DiffAll(snapshot(c, root), before, false); d != "" {
				c.Fail("changed", "the first %d of %d octets of a message changed the tree: %s", n, len(msg), d)
			}
		}
	}
	if d := ref.DiffAll(snapshot(c, root), before, false); d != "" {
		c.Fail("changed", "prefixes of a message changed the tree: %s", d)
	}
	c.Check(recv.n() == 0, "told", "rejected prefixes were announced to the root listener %d times", recv.n())
	// prefixes of single elements
	for _, e := range es {
		ev := (&ref.Enc{}).Elem(e)
		ev.SetForms(c.R, ref.AllDefinite)
		b := ev.Bytes()
		for n := 0; n < len(b)-1; n++ {
			if n%step != 0 {
				continue
			}
			var msg string
			c.Try("DecodeElement", func() { _, msg = decodeElement(b[:n]) })
			c.Check(msg != "", "prefix", "the first %d of %d octets of an element are accepted: %x", n, len(b), b[:n])
			c.Count("message_prefix_refused", 1)
		}
	}
	c.Distinct(msg)
	c.Sample("message of %d octets: %x", len(msg), msg[:min(len(msg), 60)])
}

// growTree2 makes a tree with the elements given.
func growTree2(es []*ref.Elem) (*embertree.RootElement, string) {
	root := embertree.NewTree()
	return root, decodeRoot(root, ref.Message(es))
}

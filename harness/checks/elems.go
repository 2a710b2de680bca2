package checks

import (
	"bytes"
	"fmt"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C07", Quick: 36000, Deep: 600000, Run: c07,
		Rule: "a case builds a random tree through the API (all kinds, any subset of attributes, any depth, also chains up to 400 deep), encodes it, decodes the octets as element and as message and compares kinds, numbers, paths, attributes through getters, contents encoders and children with what was put in, twice; non-trivial: a distinct tree",
		Min:  map[string]int64{"elements": 20000, "with_children": 1000, "deep": 100, "empty_contents": 200, "no_contents": 500, "failures_reported": 1000, "large": 60, "wide_roots": 20, "megabytes": 3}})
	rt.Register(&rt.Check{ID: "C08", Quick: 150000, Deep: 1200000, Run: c08,
		Rule: "a case encodes random trees, elements, labels, signals, connections, commands and invocations and reads the octets with the strict BER and Glow reader, which must find exactly what was put in; non-trivial: a distinct encoding",
		Min:  map[string]int64{"elements": 20000, "labels": 2000, "connections": 2000, "invocations": 2000, "octets_parsed": 500000, "large": 200}})
	rt.Register(&rt.Check{ID: "C09", Quick: 25000, Deep: 500000, Run: c09,
		Rule: "a case encodes a random message with the reference encoder in five or more ways (all indefinite, all definite, mixed per value with 1 to 4 length octets; contents fields in random order; empty collections present or not) and decodes each, as message and element by element; all must equal what the reference encoder started from; non-trivial: a distinct encoding",
		Min:  map[string]int64{"encodings": 20000, "empty_indefinite": 500, "elements": 20000, "large": 80}})
	rt.Register(&rt.Check{ID: "C10", Quick: 150000, Deep: 1200000, Run: c10,
		Rule: "a case encodes a random message with every kind of field (labels, schema identifiers, template references, locations, tuples, operations, dispositions, values of every type) with the reference encoder, decodes and re-encodes it with the library, and compares what the strict reader finds; also for single labels, connections, signals, tuples, values and invocations; non-trivial: a distinct message",
		Min:  map[string]int64{"elements": 20000, "fields": 40000, "labels": 2000, "connections": 2000, "invocations": 2000, "qualified_functions": 100, "large": 200}})
	rt.Register(&rt.Check{ID: "C11", Quick: 60000, Deep: 800000, Run: c11,
		Rule: "a case runs a random sequence of signal and connection operations (assign, read, encode, decode, valid and invalid operations and dispositions, undefined types and modes) on a matrix and on other kinds, and compares every result with a list model; non-trivial: a distinct sequence",
		Min:  map[string]int64{"ops": 50000, "refused_ops": 5000, "refused_kinds": 5000, "wire": 5000, "undefined_type_refused": 1000, "large": 200}})
}

func apiGen(r *rt.Rand) *ref.Gen {
	g := gen(r)
	g.API = true
	g.Negative = r.P(1, 10)
	return g
}

func countElems(c *rt.Ctx, es []*ref.Elem) {
	for _, e := range es {
		e.Walk(nil, func(e *ref.Elem, _ []int32) {
			c.Count("elements", 1)
			if len(e.Kids) > 0 {
				c.Count("with_children", 1)
			}
			if e.C == nil {
				c.Count("no_contents", 1)
			} else {
				c.Count("fields", len(e.C.Fields))
				if len(e.C.Fields) == 0 {
					c.Count("empty_contents", 1)
				}
				c.Count("labels", len(e.C.Labels))
			}
			c.Count("connections", len(e.Conns))
			if e.Qual && e.Kind == ref.Func {
				c.Count("qualified_functions", 1)
			}
		})
		if e.Large() {
			c.Count("large", 1)
		}
		d := e.Depth()
		if d > 20 {
			c.Count("deep", 1)
		}
		c.Max("depth", d)
	}
}

func c07(c *rt.Ctx) {
	g := apiGen(c.R)
	var els []*ref.Elem
	if c.I%40 == 0 {
		g.MaxDepth = 1
		els = []*ref.Elem{g.Chain(rt.Pick(c.R, 30, 100, c.R.Range(20, 400)), rt.Pick(c.R, ref.Param, ref.Matrix, ref.Func, ref.Node))}
	} else if c.I%1800 == 9 {
		for n := c.R.Range(2, 12); n > 0; n-- {
			els = append(els, &ref.Elem{Kind: ref.Node, Number: n, C: &ref.Contents{Fields: map[int]ref.Val{1: {T: 's', S: string(bytes.Repeat([]byte{byte(n)}, c.R.Range(200000, 900000)))}}},
				Kids: []*ref.Elem{{Kind: ref.Param, Number: 1}}})
		}
		c.Count("megabytes", 1)
	} else if c.I%300 == 7 {
		for _, n := range c.R.Perm(c.R.Range(100, 1600)) {
			els = append(els, &ref.Elem{Kind: rt.Pick(c.R, ref.Node, ref.Param, ref.Func), Number: n})
		}
		c.Count("wide_roots", 1)
	} else {
		els = g.Roots(3)
	}
	countElems(c, els)
	c.Note("tree", show(els))
	root := ref.RootToLib(els)
	// The elements as built are what was meant.
	if d := ref.DiffAll(snapshot(c, root), els, false); d != "" {
		c.Fail("built", "the tree built through the API reads differently (got/expected): %s", d)
	}
	for round := 0; round < 2; round++ {
		for _, e := range els {
			l := root.GetElementByNumber(e.Number)
			var b []byte
			c.Try("Encode", func() {
				var err error
				b, err = ref.EncodeElem(l)
				c.Check(err == nil, "encode-error", "%v does not encode: %v", e, err)
			})
			c.Input(b)
			var dec *embertree.Element
			c.Try("DecodeElement", func() {
				var msg string
				dec, msg = decodeElement(b)
				c.Check(msg == "", "decode-error", "%v does not decode: %s (%x)", e, msg, b[:min(len(b), 200)])
			})
			got, err := ref.FromLib(dec)
			c.Check(err == nil, "inconsistent", "%v decodes inconsistently: %v", e, err)
			if d := ref.Diff(got, e, false); d != "" {
				c.Fail("lost", "%v decodes differently (got/put in): %s", e, d)
			}
		}
		b, err := ref.EncodeRoot(root)
		c.Check(err == nil, "encode-error", "the tree does not encode: %v", err)
		other := embertree.NewTree()
		c.Try("Root.Decode", func() {
			msg := decodeRoot(other, b)
			c.Check(msg == "", "decode-error", "the message does not decode: %s", msg)
		})
		// Qualified elements with unknown parents are not part of the tree.
		var want []*ref.Elem
		for _, e := range els {
			if !(e.Qual && len(e.Path) > 1) {
				want = append(want, e)
			}
		}
		known := len(want) == len(els)
		if known {
			if d := ref.DiffAll(snapshot(c, other), want, false); d != "" {
				c.Fail("lost", "the message decodes differently (got/put in): %s", d)
			}
		}
		if d := ref.DiffAll(snapshot(c, root), els, false); d != "" {
			c.Fail("altered", "encoding altered the tree (got/before): %s", d)
		}
	}
	if c.R.P(1, 2) {
		c07bad(c, els)
	}
	c.Distinct(show(els))
	c.Sample("%s", show(els))
}

// c07bad puts one identifier with a negative component, which has no encoding,
// somewhere into the tree, and expects that encoding the tree says so.
func c07bad(c *rt.Ctx, els []*ref.Elem) {
	r := c.R
	var bad []*ref.Elem
	var spots []func() string
	var tops []int
	for i, e := range els {
		e = e.Clone()
		bad = append(bad, e)
		i := i
		e.Walk(nil, func(x *ref.Elem, _ []int32) {
			spot := func(f func() string) { spots, tops = append(spots, f), append(tops, i) }
			neg := func(oid []int32) []int32 {
				oid = append([]int32{}, oid...)
				if len(oid) == 0 {
					oid = []int32{3}
				}
				oid[r.Intn(len(oid))] = rt.Pick(r, int32(-1), -128, -1<<31)
				return oid
			}
			if x.Qual && x != e {
				spot(func() string {
					x.Path = neg(x.Path)
					x.Number = int(x.Path[len(x.Path)-1])
					return "the path of an element"
				})
			}
			if x.C != nil {
				for f := 0; f < 32; f++ {
					if v, ok := x.C.Fields[f]; ok && v.T == 'd' {
						f := f
						spot(func() string {
							v.OID = neg(v.OID)
							x.C.Fields[f] = v
							return fmt.Sprintf("field %d of a %v", f, x.Kind)
						})
					}
				}
			}
			for k := range x.Conns {
				k := k
				if len(x.Conns[k].Sources) > 0 {
					spot(func() string { x.Conns[k].Sources = neg(x.Conns[k].Sources); return "the sources of a connection" })
				}
			}
		})
	}
	if len(spots) == 0 {
		return
	}
	k := r.Intn(len(spots))
	what := spots[k]()
	root := ref.RootToLib(bad)
	c.Note("tree", show(bad))
	c.Try("Encode", func() {
		b, err := ref.EncodeRoot(root)
		c.Check(err != nil, "unreported", "a tree with a negative component in %s is encoded without an error, as %x", what, b)
		b, err = ref.EncodeElem(root.GetElementByNumber(bad[tops[k]].Number))
		c.Check(err != nil, "unreported", "an element with a negative component in %s is encoded without an error, as %x", what, b)
	})
	c.Count("failures_reported", 1)
}

func c08(c *rt.Ctx) {
	parse := func(what string, b []byte) *ref.V {
		v, err := ref.ParseAll(b)
		if err != nil {
			c.Note("octets", b)
			c.Fail("ber", "%s is not one BER value: %v", what, err)
		}
		c.Count("octets_parsed", len(b))
		c.Distinct(b)
		return v
	}
	g := apiGen(c.R)
	if c.I%50 == 0 {
		g.MaxDepth = 1
	}
	els := g.Roots(3)
	if c.I%50 == 0 {
		els = append(els[:0], g.Chain(c.R.Range(20, 200), ref.Matrix))
	}
	countElems(c, els)
	c.Note("tree", show(els))
	root := ref.RootToLib(els)
	b, err := ref.EncodeRoot(root)
	c.Check(err == nil, "encode-error", "the tree does not encode: %v", err)
	parse("the message", b)
	got, err := ref.ParseRoot(b)
	if err != nil {
		c.Note("octets", b)
		c.Fail("layout", "the message is not in the Glow layout: %v", err)
	}
	if d := ref.DiffAll(got, els, false); d != "" {
		c.Note("octets", b)
		c.Fail("read", "a Glow reader finds other elements (read/put in): %s", d)
	}
	for _, e := range els {
		b, err := ref.EncodeElem(root.GetElementByNumber(e.Number))
		c.Check(err == nil, "encode-error", "%v does not encode: %v", e, err)
		parse("an element", b)
		got, err := ref.ParseElem(b)
		if err != nil {
			c.Note("octets", b)
			c.Fail("layout", "%v is not in the Glow layout: %v", e, err)
		}
		if d := ref.Diff(got, e, false); d != "" {
			c.Note("octets", b)
			c.Fail("read", "a Glow reader finds another element (read/put in): %s", d)
		}
	}
	// single structures
	for k := 0; k < 2; k++ {
		lab := ref.Label{Path: g.OID(0), Desc: g.Text()}
		w := asn1.NewASNWriter()
		e := embertree.NewLabel(lab.Path, lab.Desc).Encode(w)
		c.Check(e == nil, "encode-error", "label: %s", es(e))
		gotL, err := ref.LabelOf(parse("a label", ref.Drain(w)))
		c.Check(err == nil && gotL.Desc == lab.Desc && ref.SameOID(gotL.Path, lab.Path), "read", "label %+v reads as %+v %v", lab, gotL, err)
		c.Count("labels", 1)

		n := c.R.Int32()
		w = asn1.NewASNWriter()
		e = embertree.NewTarget(n).Encode(w)
		c.Check(e == nil, "encode-error", "target: %s", es(e))
		x, err := ref.SignalOf(parse("a target", ref.Drain(w)), 14)
		c.Check(err == nil && x == n, "read", "target %d reads as %d %v", n, x, err)
		w = asn1.NewASNWriter()
		e = embertree.NewSource(n).Encode(w)
		c.Check(e == nil, "encode-error", "source: %s", es(e))
		x, err = ref.SignalOf(parse("a source", ref.Drain(w)), 15)
		c.Check(err == nil && x == n, "read", "source %d reads as %d %v", n, x, err)

		conn := ref.Conn{Target: c.R.Int32(), Sources: g.OID(0), Op: c.R.Intn(3), Disp: c.R.Intn(4)}
		w = asn1.NewASNWriter()
		e = ref.ConnToLib(conn).Encode(w)
		c.Check(e == nil, "encode-error", "connection: %s", es(e))
		gotC, err := ref.ConnOf(parse("a connection", ref.Drain(w)))
		c.Check(err == nil && ref.DiffConns([]ref.Conn{gotC}, []ref.Conn{conn}) == "", "read", "connection %+v reads as %+v %v", conn, gotC, err)
		c.Count("connections", 1)

		inv := invocation{ID: int(c.R.Int32())}
		for i := g.Many("args", c.R.Intn(5), 2100); i > 0; i-- {
			inv.Args = append(inv.Args, g.Val())
		}
		w = asn1.NewASNWriter()
		e = inv.lib().Encode(w)
		c.Check(e == nil, "encode-error", "invocation: %s", es(e))
		v := parse("an invocation", ref.Drain(w))
		back, why := invocationOf(v)
		c.Check(why == "" && back.same(inv), "read", "invocation %+v reads as %+v %s", inv, back, why)
		c.Count("invocations", 1)

		t := ref.Tuple{Type: c.R.Intn(8), Name: g.Text()}
		w = asn1.NewASNWriter()
		e = embertree.NewArgument(embertree.ParameterType(t.Type), t.Name).Encode(w)
		c.Check(e == nil, "encode-error", "tuple: %s", es(e))
		parse("a tuple description", ref.Drain(w))

		num := rt.Pick(c.R, embertree.COMMAND_SUBSCRIBE, embertree.COMMAND_UNSUBSCRIBE, embertree.COMMAND_GETDIRECTORY, embertree.COMMAND_INVOKE)
		cb, err := ref.EncodeElem(embertree.NewCommand(num))
		c.Check(err == nil, "encode-error", "command: %v", err)
		ce, err := ref.ParseElem(cb)
		c.Check(err == nil && ce.Kind == ref.Command && ce.Number == num && len(ce.Kids) == 0, "read", "command %d reads as %v %v", num, ce, err)
		if num == embertree.COMMAND_GETDIRECTORY {
			c.Check(ce.C != nil && ce.C.FieldFlags == -1, "read", "get-directory is written with field flags %v", ce.C)
		}
	}
	w := asn1.NewASNWriter()
	w.WriteNull()
	if b := ref.Drain(w); !bytes.Equal(b, []byte{5, 0}) {
		c.Fail("ber", "null is written as %x", b)
	}
	c.Sample("%x", b[:min(len(b), 80)])
}

type invocation struct {
	ID   int
	Args []ref.Val
}

func (i invocation) lib() *embertree.Invocation {
	var args []*embertree.ContentParameter
	for _, a := range i.Args {
		args = append(args, ref.ToValue(a))
	}
	return embertree.NewInvocation(i.ID, args)
}

func (i invocation) v(r *rt.Rand) *ref.V {
	v := ref.Cons(ref.App(22), ref.Cons(ref.Ctx(0), ref.Int(int64(i.ID))))
	if len(i.Args) > 0 || r.P(1, 4) {
		seq := ref.Cons(0x30)
		for _, a := range i.Args {
			seq.Add(ref.Cons(ref.Ctx(0), a.V()))
		}
		v.Add(ref.Cons(ref.Ctx(1), seq))
	}
	return v
}

func (i invocation) same(o invocation) bool {
	if i.ID != o.ID || len(i.Args) != len(o.Args) {
		return false
	}
	for n := range i.Args {
		if !ref.SameVal(i.Args[n], o.Args[n]) {
			return false
		}
	}
	return true
}

func invocationOf(v *ref.V) (inv invocation, why string) {
	if v.Tag != ref.App(22) || len(v.Kids) < 1 || len(v.Kids) > 2 {
		return inv, "not an invocation"
	}
	id := v.Kids[0]
	if id.Tag != ref.Ctx(0) || len(id.Kids) != 1 || id.Kids[0].Tag != 2 {
		return inv, "no identifier"
	}
	n, err := ref.IntOf(id.Kids[0].Val)
	if err != nil {
		return inv, err.Error()
	}
	inv.ID = int(n)
	if len(v.Kids) == 1 {
		return inv, ""
	}
	a := v.Kids[1]
	if a.Tag != ref.Ctx(1) || len(a.Kids) != 1 || a.Kids[0].Tag != 0x30 {
		return inv, "no sequence of arguments"
	}
	for _, k := range a.Kids[0].Kids {
		if k.Tag != ref.Ctx(0) || len(k.Kids) != 1 {
			return inv, "argument not in [0]"
		}
		val, err := ref.ValOf(k.Kids[0])
		if err != nil {
			return inv, err.Error()
		}
		inv.Args = append(inv.Args, val)
	}
	return inv, ""
}

func hasEmptyIndefinite(v *ref.V) bool {
	found := false
	v.Walk(func(v *ref.V, _ int) {
		if v.Cons() && v.Form == 0 && len(v.Kids) == 0 {
			found = true
		}
	})
	return found
}

func c09(c *rt.Ctx) {
	g := gen(c.R)
	g.MaxText = rt.Pick(c.R, 16, 60, 200)
	g.NoCmd = c.R.Bool()
	els := g.Roots(3)
	top := []*ref.Elem{}
	for _, e := range els {
		if !(e.Qual && len(e.Path) > 1) {
			top = append(top, e)
		}
	}
	want, wantTop := canonAll(els), canonAll(top)
	countElems(c, els)
	c.Note("message", show(els))
	for k := 0; k < 6; k++ {
		kind := k
		if k >= ref.FormKinds {
			kind = ref.Mixed
		}
		v := (&ref.Enc{R: c.R, Shuffle: k > 0}).Root(top)
		v.SetForms(c.R, kind)
		b := v.Bytes()
		c.Note("octets", b)
		c.Input(b)
		c.Count("encodings", 1)
		c.Distinct(b)
		if hasEmptyIndefinite(v) {
			c.Count("empty_indefinite", 1)
		}
		root := embertree.NewTree()
		c.Try("Root.Decode", func() {
			if msg := decodeRoot(root, b); msg != "" {
				c.Fail("refused", "form %d: the message is refused: %s", kind, msg)
			}
		})
		if d := ref.DiffAll(snapshot(c, root), wantTop, false); d != "" {
			c.Fail("differs", "form %d: the message decodes differently (got/sent): %s", kind, d)
		}
		for i, e := range els {
			v := (&ref.Enc{R: c.R, Shuffle: k > 0}).Elem(e)
			v.SetForms(c.R, kind)
			b := v.Bytes()
			if c.R.P(1, 4) {
				b = append(b, 2, 1, 0) // something follows
			}
			c.Note("octets", b)
			c.Input(b)
			var l *embertree.Element
			c.Try("DecodeElement", func() {
				var msg string
				l, msg = decodeElement(b)
				c.Check(msg == "", "refused", "form %d: %v is refused: %s", kind, e, msg)
			})
			got, err := ref.FromLib(l)
			c.Check(err == nil, "inconsistent", "%v decodes inconsistently: %v", e, err)
			if d := ref.Diff(got, want[i], false); d != "" {
				c.Fail("differs", "form %d: %v decodes differently (got/sent): %s", kind, e, d)
			}
		}
	}
	c.Sample("%s", show(els))
}

func c10(c *rt.Ctx) {
	g := gen(c.R)
	els := g.Roots(3)
	// any value type in any field of a parameter
	for _, e := range els {
		e.Walk(nil, func(e *ref.Elem, _ []int32) {
			if e.Kind == ref.Param && e.C != nil && c.R.P(1, 4) {
				for n := 0; n < 18; n++ {
					if c.R.P(1, 4) {
						e.C.Fields[n] = g.Val()
					}
				}
			}
		})
	}
	countElems(c, els)
	c.Note("message", show(els))
	for i, e := range els {
		v := (&ref.Enc{R: c.R, Shuffle: c.R.Bool()}).Elem(e)
		v.SetForms(c.R, c.R.Intn(ref.FormKinds))
		b := v.Bytes()
		c.Note("octets", b)
		c.Input(b)
		l, msg := decodeElement(b)
		c.Check(msg == "", "refused", "%v is refused: %s", e, msg)
		out, err := ref.EncodeElem(l)
		c.Check(err == nil, "encode-error", "%v does not encode again: %v", e, err)
		got, err := ref.ParseElem(out)
		if err != nil {
			c.Note("encoded", out)
			c.Fail("layout", "%v encodes again as something else: %v", e, err)
		}
		if d := ref.Diff(got, canon(e), false); d != "" {
			c.Note("encoded", out)
			c.Fail("lost", "decoding and encoding again changes the element (got/sent): %s", d)
		}
		_ = i
	}
	top := []*ref.Elem{}
	for _, e := range els {
		if !(e.Qual && len(e.Path) > 1) {
			top = append(top, e)
		}
	}
	v := (&ref.Enc{R: c.R, Shuffle: true}).Root(top)
	v.SetForms(c.R, c.R.Intn(ref.FormKinds))
	b := v.Bytes()
	c.Note("octets", b)
	c.Input(b)
	c.Distinct(b)
	root := embertree.NewTree()
	msg := decodeRoot(root, b)
	c.Check(msg == "", "refused", "the message is refused: %s", msg)
	out, err := ref.EncodeRoot(root)
	c.Check(err == nil, "encode-error", "the tree does not encode again: %v", err)
	got, err := ref.ParseRoot(out)
	c.Check(err == nil, "layout", "the tree encodes again as something else: %v", err)
	if d := ref.DiffAll(got, canonAll(top), false); d != "" {
		c.Fail("lost", "decoding and encoding the message again changes it (got/sent): %s", d)
	}

	// single structures
	enc := &ref.Enc{R: c.R, Shuffle: true}
	form := func(v *ref.V) []byte {
		v.SetForms(c.R, c.R.Intn(ref.FormKinds))
		b := v.Bytes()
		c.Note("octets", b)
		c.Input(b)
		return b
	}
	for k := 0; k < 2; k++ {
		lab := ref.Label{Path: g.OID(0), Desc: g.Text()}
		lv := ref.Cons(ref.App(18), ref.Cons(ref.Ctx(0), ref.OID(lab.Path)), ref.Cons(ref.Ctx(1), ref.Str(lab.Desc)))
		ll, e := embertree.DecodeLabel(asn1.NewASNReader(form(lv)))
		c.Check(e == nil, "refused", "label %+v is refused: %s", lab, es(e))
		c.Check(ref.SameOID(ll.BasePath, lab.Path) && ll.Description == lab.Desc, "lost", "label %+v decodes as %+v", lab, ll)
		w := asn1.NewASNWriter()
		ll.Encode(w)
		x, err := ref.ParseAll(ref.Drain(w))
		c.Check(err == nil, "layout", "label: %v", err)
		back, err := ref.LabelOf(x)
		c.Check(err == nil && back.Desc == lab.Desc && ref.SameOID(back.Path, lab.Path), "lost", "label %+v encodes again as %+v %v", lab, back, err)
		c.Count("labels", 1)

		conn := ref.Conn{Target: c.R.Int32(), Sources: g.OID(0), Op: c.R.Intn(3), Disp: c.R.Intn(4)}
		lc := &embertree.Connection{}
		e = lc.Decode(asn1.NewASNReader(form(enc.Conn(conn))))
		c.Check(e == nil, "refused", "connection %+v is refused: %s", conn, es(e))
		if d := ref.DiffConns([]ref.Conn{ref.ConnFromLib(lc)}, []ref.Conn{conn}); d != "" {
			c.Fail("lost", "connection decodes differently (got/sent): %s", d)
		}
		w = asn1.NewASNWriter()
		lc.Encode(w)
		x, err = ref.ParseAll(ref.Drain(w))
		c.Check(err == nil, "layout", "connection: %v", err)
		backC, err := ref.ConnOf(x)
		c.Check(err == nil && ref.DiffConns([]ref.Conn{backC}, []ref.Conn{conn}) == "", "lost", "connection %+v encodes again as %+v %v", conn, backC, err)
		c.Count("connections", 1)

		n := c.R.Int32()
		app := byte(14 + k)
		s, e := embertree.DecodeSignal(asn1.NewASNReader(form(ref.Cons(ref.App(app), ref.Cons(ref.Ctx(0), ref.Int(int64(n)))))))
		c.Check(e == nil, "refused", "signal %d is refused: %s", n, es(e))
		w = asn1.NewASNWriter()
		s.Encode(w)
		x, err = ref.ParseAll(ref.Drain(w))
		c.Check(err == nil, "layout", "signal: %v", err)
		m, err := ref.SignalOf(x, app)
		c.Check(err == nil && m == n, "lost", "signal %d (tag %d) encodes again as %d %v", n, app, m, err)

		inv := invocation{ID: int(c.R.Int32())}
		for i := g.Many("args", c.R.Intn(5), 2100); i > 0; i-- {
			inv.Args = append(inv.Args, g.Val())
		}
		li := embertree.NewInvocation(0, nil)
		e = li.Decode(asn1.NewASNReader(form(inv.v(c.R))))
		c.Check(e == nil, "refused", "invocation %+v is refused: %s", inv, es(e))
		w = asn1.NewASNWriter()
		e = li.Encode(w)
		c.Check(e == nil, "encode-error", "invocation %+v does not encode again: %s", inv, es(e))
		x, err = ref.ParseAll(ref.Drain(w))
		c.Check(err == nil, "layout", "invocation: %v", err)
		backI, why := invocationOf(x)
		c.Check(why == "" && backI.same(inv), "lost", "invocation %+v encodes again as %+v %s", inv, backI, why)
		c.Count("invocations", 1)

		t := ref.Tuple{Type: c.R.Intn(8), Name: g.Text()}
		td := &embertree.TupleDescription{}
		e = td.Decode(asn1.NewASNReader(form(ref.Cons(ref.App(21), ref.Cons(ref.Ctx(0), ref.Int(int64(t.Type))), ref.Cons(ref.Ctx(1), ref.Str(t.Name))))))
		c.Check(e == nil && int(td.Type) == t.Type && td.Name == t.Name, "lost", "tuple %+v decodes as %+v %s", t, td, es(e))

		val := g.Val()
		ctx := byte(c.R.Intn(31))
		cp, e := embertree.DecodeValue(asn1.NewASNReader(form(ref.Cons(ref.Ctx(ctx), val.V()))), ctx)
		c.Check(e == nil, "refused", "value %v is refused: %s", val, es(e))
		gv, set, err := ref.FromValue(cp)
		c.Check(err == nil && set && ref.SameVal(gv, val), "lost", "value %v decodes as %v %v", val, gv, err)
		w = asn1.NewASNWriter()
		cp.Encode(ctx, w)
		x, err = ref.ParseAll(ref.Drain(w))
		c.Check(err == nil && len(x.Kids) == 1, "layout", "value %v: %v", val, err)
		bv, err := ref.ValOf(x.Kids[0])
		c.Check(err == nil && ref.SameVal(bv, val), "lost", "value %v encodes again as %v %v", val, bv, err)
	}
	c.Sample("%s", show(els))
}

func c11(c *rt.Ctx) {
	g := apiGen(c.R)
	e := g.Fill(&ref.Elem{Kind: ref.Matrix}, 9)
	l := ref.ToLib(e)
	if e.Large() {
		c.Count("large", 1)
	}
	if c.R.P(1, 50) {
		g.Big, g.Left = rt.Pick(c.R, "signals", "conns"), 3
		c.Count("large", 1)
	}
	log := ""
	wire := 0
	for k := 0; k < 14; k++ {
		c.Count("ops", 1)
		switch op := c.R.Intn(8); op {
		case 0:
			e.Targets = nil
			for i := g.Many("signals", c.R.Intn(8), 5000); i > 0; i-- {
				e.Targets = append(e.Targets, c.R.Int32())
			}
			c.Check(l.SetTargets(ref.TargetsToLib(e.Targets)) == nil, "set", "SetTargets fails on a matrix")
			log += "T"
		case 1:
			e.Sources = nil
			for i := g.Many("signals", c.R.Intn(8), 5000); i > 0; i-- {
				e.Sources = append(e.Sources, c.R.Int32())
			}
			c.Check(l.SetSources(ref.SourcesToLib(e.Sources)) == nil, "set", "SetSources fails on a matrix")
			log += "S"
		case 2:
			e.Conns = nil
			var cs []*embertree.Connection
			for i := g.Many("conns", c.R.Intn(6), 2100); i > 0; i-- {
				x := ref.Conn{Target: c.R.Int32(), Sources: g.OID(0), Op: c.R.Intn(3), Disp: c.R.Intn(4)}
				e.Conns = append(e.Conns, x)
				cs = append(cs, ref.ConnToLib(x))
			}
			c.Check(l.SetConnections(cs) == nil, "set", "SetConnections fails on a matrix")
			log += "C"
		case 3:
			// decode each list on its own
			v := (&ref.Enc{R: c.R}).Elem(&ref.Elem{Kind: ref.Matrix, Targets: append([]int32{c.R.Int32()}, e.Sources...), Sources: append([]int32{c.R.Int32()}, e.Targets...), Conns: append(g.Conns(), ref.Conn{Target: c.R.Int32(), Disp: c.R.Intn(4)})})
			parts := map[byte]*ref.V{}
			for _, k := range v.Kids {
				parts[k.Tag] = k
			}
			v.SetForms(c.R, c.R.Intn(ref.FormKinds))
			parsed, err := ref.ElemOf(v)
			c.Check(err == nil, "harness", "%v", err)
			c.Check(l.DecodeTargets(asn1.NewASNReader(parts[ref.Ctx(3)].Bytes())) == nil, "wire", "DecodeTargets fails")
			c.Check(l.DecodeSources(asn1.NewASNReader(parts[ref.Ctx(4)].Bytes())) == nil, "wire", "DecodeSources fails")
			c.Check(l.DecodeConnections(asn1.NewASNReader(parts[ref.Ctx(5)].Bytes())) == nil, "wire", "DecodeConnections fails")
			e.Targets, e.Sources, e.Conns = parsed.Targets, parsed.Sources, parsed.Conns
			wire++
			log += "D"
		case 4, 5:
			// operations and dispositions on one connection
			if len(e.Conns) == 0 {
				continue
			}
			cs, err := l.GetConnections()
			c.Check(err == nil && len(cs) == len(e.Conns), "get", "%d connections instead of %d %s", len(cs), len(e.Conns), es(err))
			i := c.R.Intn(len(cs))
			for j := 0; j < 4; j++ {
				d := rt.Pick(c.R, 0, 1, 2, 3, 4, -1, 256, 257, 258, 255, c.R.Range(-5, 300), int(c.R.Int32()), math.MaxInt64, math.MinInt64)
				if c.R.Bool() {
					msg := es(cs[i].SetOperation(d))
					ok := d >= 0 && d <= 2
					c.Check((msg == "") == ok, "operation", "SetOperation(%d): %q", d, msg)
					if ok {
						e.Conns[i].Op = d
					} else {
						c.Count("refused_ops", 1)
					}
				} else {
					msg := es(cs[i].SetDisposition(d))
					ok := d >= 0 && d <= 3
					c.Check((msg == "") == ok, "disposition", "SetDisposition(%d): %q", d, msg)
					if ok {
						e.Conns[i].Disp = d
					} else {
						c.Count("refused_ops", 1)
					}
				}
				c.Check(int(cs[i].GetOperation()) == e.Conns[i].Op && int(cs[i].GetDisposition()) == e.Conns[i].Disp, "kept",
					"after %d the connection has operation %d and disposition %d instead of %d and %d", d, cs[i].GetOperation(), cs[i].GetDisposition(), e.Conns[i].Op, e.Conns[i].Disp)
			}
			log += "O"
		case 6:
			// a wire connection with an undefined operation or disposition
			x := ref.Conn{Target: c.R.Int32(), Sources: g.OID(0), Op: c.R.Intn(3), Disp: c.R.Intn(4)}
			if c.R.Bool() {
				x.Op = rt.Pick(c.R, 3, 4, 256, 257, -1, int(c.R.Int32())|8)
			} else {
				x.Disp = rt.Pick(c.R, 4, 5, 256, 259, -1, int(c.R.Int32())|8)
			}
			lc := &embertree.Connection{}
			err := lc.Decode(asn1.NewASNReader((&ref.Enc{R: c.R}).Conn(x).Bytes()))
			c.Check(err != nil, "undefined", "connection %+v is accepted from the wire as %+v", x, ref.ConnFromLib(lc))
			c.Count("refused_ops", 1)
			log += "W"
		case 7:
			// encode and decode
			b, err := ref.EncodeElem(l)
			c.Check(err == nil, "encode-error", "the matrix does not encode: %v", err)
			p, err := ref.ParseElem(b)
			c.Check(err == nil, "layout", "the matrix encodes as something else: %v", err)
			c.Check(ref.SameOID(p.Targets, e.Targets) && ref.SameOID(p.Sources, e.Sources) && ref.DiffConns(p.Conns, e.Conns) == "", "encoded",
				"encoded: targets %v sources %v connections %v, kept: %v %v %v", p.Targets, p.Sources, p.Conns, e.Targets, e.Sources, e.Conns)
			var msg string
			l, msg = decodeElement(b)
			c.Check(msg == "", "decode-error", "the matrix does not decode: %s", msg)
			wire++
			log += "E"
		}
		got, err := ref.FromLib(l)
		c.Check(err == nil, "inconsistent", "after %s: %v", log, err)
		if d := ref.Diff(got, e, false); d != "" {
			c.Fail("kept", "after %s the matrix differs (got/expected): %s", log, d)
		}
	}
	c.Count("wire", wire)
	c.Distinct(log, e.String())
	// undefined types and modes
	for k := 0; k < 4; k++ {
		ty, mo := embertree.MatrixType(c.R.Intn(256)), embertree.MatrixMode(c.R.Intn(256))
		if c.R.Bool() {
			ty = embertree.MatrixType(c.R.Range(-1, 3))
			mo = embertree.MatrixMode(c.R.Range(-1, 2))
		}
		ok := ty >= 0 && ty <= 2 && mo >= 0 && mo <= 1
		m, err := embertree.NewMatrix(5, ty, mo)
		c.Check((err == nil) == ok && (m != nil) == ok, "undefined", "NewMatrix with type %d and mode %d: %v %s", ty, mo, m != nil, es(err))
		_, err = embertree.NewMatrixContent(ty, mo)
		c.Check((err == nil) == ok, "undefined", "NewMatrixContent with type %d and mode %d: %s", ty, mo, es(err))
		q := embertree.NewQualifiedMatrix(asn1.RelativeOID{1, 2}, ty, mo)
		c.Check((q != nil) == ok, "undefined", "NewQualifiedMatrix with type %d and mode %d: %v", ty, mo, q != nil)
		if !ok {
			c.Count("undefined_type_refused", 1)
		} else {
			for _, x := range []*embertree.Element{m, q} {
				mc := x.GetContent().(*embertree.MatrixContent)
				t, e1 := mc.GetType()
				o, e2 := mc.GetMode()
				c.Check(e1 == nil && e2 == nil && t == ty && o == mo, "type", "a matrix made with type %d and mode %d has %d and %d", ty, mo, t, o)
				ty2, mo2 := embertree.MatrixType(c.R.Range(-1, 4)), embertree.MatrixMode(c.R.Range(-1, 3))
				e1, e2 = mc.SetType(ty2), mc.SetMode(mo2)
				c.Check((e1 == nil) == (ty2 >= 0 && ty2 <= 2) && (e2 == nil) == (mo2 >= 0 && mo2 <= 1), "undefined", "SetType(%d) %s, SetMode(%d) %s", ty2, es(e1), mo2, es(e2))
			}
		}
	}
	// other kinds refuse
	o := g.Fill(&ref.Elem{Kind: rt.Pick(c.R, ref.Node, ref.Param, ref.Func, ref.Command)}, 9)
	if c.R.Bool() && o.Kind != ref.Command {
		o.Qual, o.Path = true, []int32{1, int32(c.R.Nat())}
		o.Number = int(o.Path[1])
	}
	lo := ref.ToLib(o)
	tv := ref.Cons(ref.Ctx(3), ref.Cons(0x30)).Bytes()
	refuse := func(name string, msg string) {
		c.Check(msg != "", "kind", "%s succeeds on a %v", name, o.Kind)
		c.Count("refused_kinds", 1)
	}
	c.Try("a signal operation on another kind", func() {
		refuse("SetTargets", es(lo.SetTargets(ref.TargetsToLib([]int32{1}))))
		refuse("SetSources", es(lo.SetSources(ref.SourcesToLib([]int32{1}))))
		refuse("SetConnections", es(lo.SetConnections([]*embertree.Connection{{Target: 1}})))
		_, e1 := lo.GetTargets()
		refuse("GetTargets", es(e1))
		_, e1 = lo.GetSources()
		refuse("GetSources", es(e1))
		_, e1 = lo.GetConnections()
		refuse("GetConnections", es(e1))
		refuse("EncodeTargets", es(lo.EncodeTargets(asn1.NewASNWriter())))
		refuse("EncodeSources", es(lo.EncodeSources(asn1.NewASNWriter())))
		refuse("EncodeConnections", es(lo.EncodeConnections(asn1.NewASNWriter())))
		refuse("DecodeTargets", es(lo.DecodeTargets(asn1.NewASNReader(tv))))
		tv[0] = ref.Ctx(4)
		refuse("DecodeSources", es(lo.DecodeSources(asn1.NewASNReader(tv))))
		tv[0] = ref.Ctx(5)
		refuse("DecodeConnections", es(lo.DecodeConnections(asn1.NewASNReader(tv))))
	})
	got, err := ref.FromLib(lo)
	c.Check(err == nil && ref.Diff(got, o, false) == "", "kind", "refused signal operations changed the %v: %v", o.Kind, err)
	// a wire element of another kind with matrix lists
	bad := (&ref.Enc{}).Elem(o)
	bad.Add(ref.Cons(ref.Ctx(byte(3+c.R.Intn(3))), ref.Cons(0x30)))
	if _, msg := decodeElement(bad.Bytes()); msg == "" {
		c.Fail("kind", "a %v with matrix lists is accepted from the wire", o.Kind)
	}
	c.Sample("%s on %v", log, e)
}

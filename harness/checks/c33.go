package checks

import (
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C33", Quick: 60000, Deep: 900000, Run: c33,
		Rule: "a case has 2 to 5 contents of one or more kinds - new ones, ones of elements, decoded ones with any fields - and sets their attributes in random order, several times each; after each step the getters and the strictly parsed encoding of one of them, and after the history those of all, must be what the model has; undefined matrix types and modes must be refused without effect; non-trivial: a distinct history",
		Min:  map[string]int64{"sets": 200000, "comparisons": 200000, "unset_getters": 200000, "decoded": 20000, "refused": 5000, "created": 10000, "replaced_values": 20000}})
}

// holding is one contents object and what it should hold.
type holding struct {
	kind ref.Kind
	ec   embertree.EmberContents
	m    *ref.Contents
	name string
}

// attribute is something that can be set in the contents of a kind.
type attribute struct {
	name string
	set  func(c *rt.Ctx, h *holding)
}

func strAttr(n int, name string, f func(ec embertree.EmberContents, s string)) attribute {
	return attribute{name, func(c *rt.Ctx, h *holding) {
		s := (&ref.Gen{R: c.R}).Text()
		f(h.ec, s)
		h.m.Fields[n] = ref.Val{T: 's', S: s}
	}}
}

func boolAttr(n int, name string, f func(ec embertree.EmberContents, b bool)) attribute {
	return attribute{name, func(c *rt.Ctx, h *holding) {
		b := c.R.Bool()
		f(h.ec, b)
		h.m.Fields[n] = ref.Val{T: 'b', B: b}
	}}
}

func intAttr(n int, name string, f func(ec embertree.EmberContents, i int64) errors.Error) attribute {
	return attribute{name, func(c *rt.Ctx, h *holding) {
		i := rt.Pick(c.R, c.R.Int64(), int64(c.R.Int32()), int64(c.R.Range(-3, 3)))
		if e := f(h.ec, i); e != nil {
			c.Fail("refused", "%s of %s refuses %d: %s", name, h.name, i, es(e))
		}
		h.m.Fields[n] = ref.Val{T: 'i', I: i}
	}}
}

func valueAttr(n int, name string, f func(ec embertree.EmberContents) *embertree.ContentParameter) attribute {
	return attribute{name, func(c *rt.Ctx, h *holding) {
		v := (&ref.Gen{R: c.R}).Val()
		cp := f(h.ec)
		if _, had := h.m.Fields[n]; had {
			c.Count("replaced_values", 1)
		}
		switch v.T {
		case 's':
			cp.SetString(v.S)
		case 'b':
			cp.SetBool(v.B)
		case 'i':
			cp.SetInt(v.I)
		case 'o':
			cp.SetBuffer([]byte(v.S))
		case 'r':
			cp.SetReal(v.R)
		case 'd':
			cp.SetRelativeOID(append(asn1.RelativeOID{}, v.OID...))
		}
		h.m.Fields[n] = v
	}}
}

func nodeOf(ec embertree.EmberContents) *embertree.NodeContents { return ec.(*embertree.NodeContents) }
func paramOf(ec embertree.EmberContents) *embertree.ParameterContents {
	return ec.(*embertree.ParameterContents)
}
func funcOf(ec embertree.EmberContents) *embertree.FunctionContents {
	return ec.(*embertree.FunctionContents)
}
func matrixOf(ec embertree.EmberContents) *embertree.MatrixContent {
	return ec.(*embertree.MatrixContent)
}

var attributes = map[ref.Kind][]attribute{
	ref.Node: {
		strAttr(0, "SetIdentifier", func(e embertree.EmberContents, s string) { nodeOf(e).SetIdentifier(s) }),
		strAttr(1, "SetDescription", func(e embertree.EmberContents, s string) { nodeOf(e).SetDescription(s) }),
		boolAttr(2, "SetIsRoot", func(e embertree.EmberContents, b bool) { nodeOf(e).SetIsRoot(b) }),
		boolAttr(3, "SetIsOnline", func(e embertree.EmberContents, b bool) { nodeOf(e).SetIsOnline(b) }),
		strAttr(4, "SetSchemaIdentifiers", func(e embertree.EmberContents, s string) { nodeOf(e).SetSchemaIdentifiers(s) }),
		{"SetTemplateReference", func(c *rt.Ctx, h *holding) {
			oid := (&ref.Gen{R: c.R}).OID(1)
			nodeOf(h.ec).SetTemplateReference(append(asn1.RelativeOID{}, oid...))
			h.m.Template = oid
		}},
	},
	ref.Param: {
		strAttr(0, "SetIdentifier", func(e embertree.EmberContents, s string) { paramOf(e).SetIdentifier(s) }),
		strAttr(1, "SetDescription", func(e embertree.EmberContents, s string) { paramOf(e).SetDescription(s) }),
		valueAttr(2, "value", func(e embertree.EmberContents) *embertree.ContentParameter { return paramOf(e).GetValueObject() }),
		valueAttr(3, "minimum", func(e embertree.EmberContents) *embertree.ContentParameter { return paramOf(e).GetMinimumObject() }),
		valueAttr(4, "maximum", func(e embertree.EmberContents) *embertree.ContentParameter { return paramOf(e).GetMaximumObject() }),
		strAttr(5, "SetAccess", func(e embertree.EmberContents, s string) { paramOf(e).SetAccess(s) }),
		strAttr(6, "SetFormat", func(e embertree.EmberContents, s string) { paramOf(e).SetFormat(s) }),
		strAttr(7, "SetEnumeration", func(e embertree.EmberContents, s string) { paramOf(e).SetEnumeration(s) }),
		intAttr(8, "SetFactor", func(e embertree.EmberContents, i int64) errors.Error { paramOf(e).SetFactor(i); return nil }),
		boolAttr(9, "SetOnline", func(e embertree.EmberContents, b bool) { paramOf(e).SetOnline(b) }),
		strAttr(10, "SetFormula", func(e embertree.EmberContents, s string) { paramOf(e).SetFormula(s) }),
		intAttr(11, "SetStep", func(e embertree.EmberContents, i int64) errors.Error { paramOf(e).SetStep(i); return nil }),
		valueAttr(12, "default", func(e embertree.EmberContents) *embertree.ContentParameter { return paramOf(e).GetDefaultObject() }),
		strAttr(13, "SetType", func(e embertree.EmberContents, s string) { paramOf(e).SetType(s) }),
		intAttr(14, "SetStreanIdentifier", func(e embertree.EmberContents, i int64) errors.Error { paramOf(e).SetStreanIdentifier(i); return nil }),
	},
	ref.Func: {
		strAttr(0, "SetIdentifier", func(e embertree.EmberContents, s string) { funcOf(e).SetIdentifier(s) }),
		strAttr(1, "SetDescription", func(e embertree.EmberContents, s string) { funcOf(e).SetDescription(s) }),
		{"SetArguments", func(c *rt.Ctx, h *holding) { h.m.Args = c33tuples(c, funcOf(h.ec).SetArguments) }},
		{"SetResult", func(c *rt.Ctx, h *holding) { h.m.Res = c33tuples(c, funcOf(h.ec).SetResult) }},
	},
	ref.Matrix: {
		strAttr(0, "SetIdentifier", func(e embertree.EmberContents, s string) { matrixOf(e).SetIdentifier(s) }),
		strAttr(1, "SetDescription", func(e embertree.EmberContents, s string) { matrixOf(e).SetDescription(s) }),
		{"SetType", func(c *rt.Ctx, h *holding) {
			t := c33defined(c, 3)
			e := matrixOf(h.ec).SetType(embertree.MatrixType(t))
			c.Check((e == nil) == (t >= 0 && t <= 2), "type", "SetType(%d) of %s: %q", t, h.name, es(e))
			if e == nil {
				h.m.Fields[2] = ref.Val{T: 'i', I: int64(t)}
			} else {
				c.Count("refused", 1)
			}
		}},
		{"SetMode", func(c *rt.Ctx, h *holding) {
			t := c33defined(c, 2)
			e := matrixOf(h.ec).SetMode(embertree.MatrixMode(t))
			c.Check((e == nil) == (t >= 0 && t <= 1), "mode", "SetMode(%d) of %s: %q", t, h.name, es(e))
			if e == nil {
				h.m.Fields[3] = ref.Val{T: 'i', I: int64(t)}
			} else {
				c.Count("refused", 1)
			}
		}},
		intAttr(4, "SetTargetCount", func(e embertree.EmberContents, i int64) errors.Error { return matrixOf(e).SetTargetCount(int(i)) }),
		intAttr(5, "SetSourceCount", func(e embertree.EmberContents, i int64) errors.Error { return matrixOf(e).SetSourceCount(int(i)) }),
		intAttr(6, "SetMaxTotalConnects", func(e embertree.EmberContents, i int64) errors.Error { return matrixOf(e).SetMaxTotalConnects(int(i)) }),
		intAttr(7, "SetMaxConnectsPerTarget", func(e embertree.EmberContents, i int64) errors.Error {
			return matrixOf(e).SetMaxConnectsPerTarget(int(i))
		}),
		{"SetParameterLocation", func(c *rt.Ctx, h *holding) {
			oid := (&ref.Gen{R: c.R}).OID(0)
			if e := matrixOf(h.ec).SetParameterLocation(append(asn1.RelativeOID{}, oid...)); e != nil {
				c.Fail("refused", "SetParameterLocation of %s refuses %v: %s", h.name, oid, es(e))
			}
			h.m.Fields[8] = ref.Val{T: 'd', OID: oid}
		}},
		intAttr(9, "SetGainParameterNumber", func(e embertree.EmberContents, i int64) errors.Error {
			return matrixOf(e).SetGainParameterNumber(int(i))
		}),
		{"SetSchemaIdentifier", func(c *rt.Ctx, h *holding) {
			s := (&ref.Gen{R: c.R}).Text()
			if e := matrixOf(h.ec).SetSchemaIdentifier(s); e != nil {
				c.Fail("refused", "SetSchemaIdentifier of %s refuses %q: %s", h.name, s, es(e))
			}
			h.m.Fields[11] = ref.Val{T: 's', S: s}
		}},
	},
	ref.Command: {
		{"SetFieldFlags", func(c *rt.Ctx, h *holding) {
			f := rt.Pick(c.R, c.R.Range(-2, 5), int(c.R.Int32()))
			h.ec.(*embertree.CommandContents).SetFieldFlags(embertree.FieldFlags(f))
			h.m.FieldFlags = f
		}},
	},
}

// c33defined is a matrix type or mode, most of the time one of the n defined.
func c33defined(c *rt.Ctx, n int) int {
	if c.R.P(3, 4) {
		return c.R.Intn(n)
	}
	return rt.Pick(c.R, -1, n, n+1, 127, -128, -2)
}

func c33tuples(c *rt.Ctx, set func([]*embertree.TupleDescription)) []ref.Tuple {
	var ts []ref.Tuple
	var l []*embertree.TupleDescription
	for n := c.R.Intn(5); n > 0; n-- {
		t := ref.Tuple{Type: c.R.Intn(8), Name: (&ref.Gen{R: c.R}).Text()}
		ts = append(ts, t)
		l = append(l, embertree.NewArgument(embertree.ParameterType(t.Type), t.Name))
	}
	set(l)
	return ts
}

// c33new is new contents of some kind and origin.
func c33new(c *rt.Ctx, k ref.Kind) *holding {
	r := c.R
	h := &holding{kind: k, m: &ref.Contents{Fields: map[int]ref.Val{}}}
	number := r.Range(0, 1000)
	var e *embertree.Element
	fresh := func() {
		switch k {
		case ref.Node:
			h.ec = embertree.NewNodeContents()
			e = embertree.NewNode(number)
		case ref.Param:
			h.ec = embertree.NewParameterContents()
			e = embertree.NewParameter(number)
		case ref.Func:
			h.ec = embertree.NewFunctionContents()
			e = embertree.NewFunction(number)
		case ref.Matrix:
			t, m := r.Intn(3), r.Intn(2)
			h.m.Fields[2], h.m.Fields[3] = ref.Val{T: 'i', I: int64(t)}, ref.Val{T: 'i', I: int64(m)}
			mc, err := embertree.NewMatrixContent(embertree.MatrixType(t), embertree.MatrixMode(m))
			c.Check(err == nil, "refused", "matrix contents of type %d and mode %d are refused: %s", t, m, es(err))
			h.ec = mc
			e, err = embertree.NewMatrix(number, embertree.MatrixType(t), embertree.MatrixMode(m))
			c.Check(err == nil, "refused", "a matrix of type %d and mode %d is refused: %s", t, m, es(err))
		case ref.Command:
			h.ec = embertree.NewCommandContents()
			e = embertree.NewCommand(number)
			h.m.FieldFlags = 0
		}
	}
	switch r.Intn(3) {
	case 0:
		fresh()
		h.name = fmt.Sprintf("new contents of a %v", k)
	case 1:
		fresh()
		h.name = fmt.Sprintf("contents of a new %v", k)
		c.Count("created", 1)
		switch k {
		case ref.Matrix: // has contents of its type and mode
			if ec := e.GetContent(); ec != nil {
				h.ec = ec
			} else {
				c.Fail("contents", "a matrix has no contents")
			}
		case ref.Command:
			h.ec = e.GetContent()
			h.m.FieldFlags = int(h.ec.(*embertree.CommandContents).GetFieldFlags())
			if r.Bool() {
				h.ec = e.CreateContent().(embertree.EmberContents)
				h.m.FieldFlags = 0
			}
		default:
			if ec := e.GetContent(); ec != nil {
				c.Fail("contents", "a new %v has contents", k)
			}
			h.ec = e.CreateContent().(embertree.EmberContents)
			c.Check(e.GetContent() == h.ec, "contents", "the contents created for a %v are not its contents", k)
			if r.P(1, 4) { // replaced by new ones
				attributes[k][r.Intn(len(attributes[k]))].set(c, &holding{kind: k, ec: h.ec, m: (&ref.Contents{Fields: map[int]ref.Val{}}), name: h.name})
				h.ec = e.CreateContent().(embertree.EmberContents)
			}
		}
	default:
		h.name = fmt.Sprintf("decoded contents of a %v", k)
		g := gen(r)
		g.API = r.P(1, 3)
		re := &ref.Elem{Kind: k, Number: number, C: g.Contents(k)}
		v := (&ref.Enc{R: r, Shuffle: r.Bool()}).Elem(re)
		v.SetForms(r, r.Intn(ref.FormKinds))
		b := v.Bytes()
		l, msg := decodeElement(b)
		c.Check(msg == "", "decode-error", "%v does not decode: %s (%x)", re, msg, b)
		h.ec = l.GetContent()
		h.m = canon(re).C
		c.Count("decoded", 1)
		c.Distinct(b)
	}
	c.Check(h.ec != nil, "contents", "%s are nil", h.name)
	return h
}

func (h *holding) compare(c *rt.Ctx, after string) {
	var got *ref.Contents
	var err error
	c.Try("reading "+h.name, func() { got, err = ref.ContentsFromLib(h.kind, h.ec) })
	if err != nil {
		c.Fail("inconsistent", "%s after %s: %v", h.name, after, err)
	}
	if d := ref.DiffContents(got, h.m); d != "" {
		c.Fail("contents", "%s after %s (got/expected): %s", h.name, after, d)
	}
	c.Count("comparisons", 1)
	c.Count("unset_getters", map[ref.Kind]int{ref.Node: 5, ref.Param: 15, ref.Func: 2, ref.Matrix: 10}[h.kind]-len(h.m.Fields))
}

func c33(c *rt.Ctx) {
	r := c.R
	var hs []*holding
	kinds := []ref.Kind{ref.Node, ref.Param, ref.Func, ref.Matrix, ref.Command}
	kind := kinds[r.Intn(len(kinds))]
	for n := r.Range(2, 5); n > 0; n-- {
		k := kind
		if r.P(1, 4) {
			k = kinds[r.Intn(len(kinds))]
		}
		hs = append(hs, c33new(c, k))
	}
	log := ""
	for _, h := range hs {
		log += h.name + "; "
	}
	for _, h := range hs {
		h.compare(c, "nothing")
	}
	for n := r.Range(3, 40); n > 0; n-- {
		i := r.Intn(len(hs))
		h := hs[i]
		as := attributes[h.kind]
		a := as[r.Intn(len(as))]
		log += fmt.Sprintf("%s(%d); ", a.name, i)
		c.Note("history", log)
		c.Try(a.name, func() { a.set(c, h) })
		c.Count("sets", 1)
		h.compare(c, a.name)
		if o := hs[r.Intn(len(hs))]; o != h {
			o.compare(c, a.name+" of others")
		}
	}
	for _, h := range hs {
		h.compare(c, "all")
	}
	c.Distinct(log)
	c.Sample("%s", log)
}

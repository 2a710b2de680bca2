package checks

import (
	"bytes"
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C35", Quick: 40000, Deep: 600000, Run: c35,
		Rule: "a case sends messages to a tree in which elements anywhere, named by number or by path, have another kind than the tree's, compares the tree with a model that ignores these and nothing else, and the calls of a listener on every element with those predicted; updates elements directly with ones of another number or kind; and asks for elements without path, of unknown kinds, of undefined types; non-trivial: a distinct message sequence with something that does not fit",
		Min:  map[string]int64{"messages": 40000, "misfits": 40000, "nested_misfits": 10000, "qualified_misfits": 5000, "with_siblings": 4000, "calls": 100000, "error_calls": 10000, "direct": 40000, "direct_refused": 10000, "unknown_kinds": 20000, "no_path": 20000}})
}

var kindsOfTree = []ref.Kind{ref.Node, ref.Param, ref.Func, ref.Matrix}

// misfit gives e another kind, and the contents of that kind.
func misfit(w *world, e *ref.Elem) {
	old := e.Kind
	for e.Kind == old {
		e.Kind = rt.Pick(w.r, kindsOfTree...)
	}
	e.Targets, e.Sources, e.Conns = nil, nil, nil
	if e.C != nil {
		e.C = w.g.Contents(e.Kind)
	}
	canonIn(e)
}

// strict is the model of a tree that ignores what does not fit, and counts the
// calls of listeners: how many, and how many of them with an error.
type strict struct {
	c     *rt.Ctx
	t     *ref.Tree
	calls map[string][2]int
	top   bool
}

func (m *strict) update(it *ref.Item, e *ref.Elem) (misfit bool) {
	if it.E.Kind != e.Kind {
		m.c.Count("misfits", 1)
		return true
	}
	own := *e
	own.Kids = nil
	(&ref.Tree{Top: map[int]*ref.Item{own.Number: it}}).Apply([]*ref.Elem{unpathed(&own)})
	for _, k := range e.Kids {
		if old := it.Kids[k.Number]; old != nil {
			if m.update(old, k) {
				misfit = true
				m.c.Count("nested_misfits", 1)
				if len(e.Kids) > 1 {
					m.c.Count("with_siblings", 1)
				}
			}
		} else {
			x := *e
			x.C, x.Targets, x.Sources, x.Conns, x.Kids = nil, nil, nil, nil, []*ref.Elem{k}
			(&ref.Tree{Top: map[int]*ref.Item{x.Number: it}}).Apply([]*ref.Elem{unpathed(&x)})
		}
	}
	m.call(it, misfit)
	return misfit
}

// unpathed is e without its path: the model is given the item it is about.
func unpathed(e *ref.Elem) *ref.Elem {
	x := *e
	x.Qual, x.Path = false, nil
	return &x
}

func (m *strict) call(it *ref.Item, err bool) {
	n := m.calls[ref.PathString(it.Path)]
	n[0]++
	if err {
		n[1]++
	}
	m.calls[ref.PathString(it.Path)] = n
}

func (m *strict) apply(es []*ref.Elem) {
	m.calls = map[string][2]int{}
	parents := map[string]*ref.Item{}
	for _, e := range es {
		if e.Qual && len(e.Path) > 1 {
			parent := m.t.Find(e.Path[:len(e.Path)-1])
			if parent == nil {
				continue
			}
			if old := parent.Kids[e.Number]; old != nil {
				if m.update(old, e) {
					m.c.Count("qualified_misfits", 1)
					continue
				}
			} else {
				m.t.Apply([]*ref.Elem{e})
			}
			parents[ref.PathString(parent.Path)] = parent
			continue
		}
		if old := m.t.Top[e.Number]; old != nil {
			m.update(old, e)
		} else {
			m.t.Apply([]*ref.Elem{e})
		}
	}
	for _, p := range parents {
		m.call(p, false)
	}
}

func c35(c *rt.Ctx) {
	switch c.I % 4 {
	case 0, 1:
		c35messages(c)
	case 2:
		c35direct(c)
	case 3:
		c35none(c)
	}
}

func c35messages(c *rt.Ctx) {
	r := c.R
	w := newWorld(r)
	m := &strict{c: c, t: ref.NewTreeModel()}
	root := embertree.NewTree()
	watch := &recorder{}
	root.AddListener(watch)
	type registered struct {
		l *embertree.Element
		s *recorder
	}
	regs := map[string]registered{}
	log := ""
	for n := r.Range(3, 10); n > 0; n-- {
		es := canonAll(w.message(m.t))
		for i, e := range es {
			var path []int32
			if e.Qual {
				path = e.Path[:len(e.Path)-1]
			}
			es[i].Walk(path, func(x *ref.Elem, p []int32) {
				if r.P(1, 5) {
					misfit(w, x)
				}
			})
		}
		b := w.octets(es)
		c.Distinct(b)
		if len(log) < 1<<16 {
			log += fmt.Sprintf("%x\n", b)
		}
		c.Note("messages", log)
		c.Note("message", show(es))
		known := m.t.Items()
		m.apply(es)
		c.Try("Root.Decode", func() {
			if msg := decodeRoot(root, b); msg != "" {
				c.Fail("rejected", "a message with an element that does not fit is rejected: %s", msg)
			}
		})
		checkTree(c, root, m.t, log)
		ks := watch.take()
		c.Check(len(ks) == 1 && ks[0].err == "" && ks[0].node == interface{}(root), "tree-listener", "the listener of the tree is called %v", ks)
		for _, it := range known {
			p := ref.PathString(it.Path)
			g, want := regs[p], m.calls[p]
			ks := g.s.take()
			errs := 0
			for _, k := range ks {
				if k.err != "" {
					errs++
				}
				c.Check(k.node == interface{}(g.l), "node", "the listener of %s is called about something else", p)
			}
			if len(ks) != want[0] || errs != want[1] {
				c.Fail("listener", "the listener of %s is called %d times, %d of them with an error, expected %d and %d", p, len(ks), errs, want[0], want[1])
			}
			c.Count("calls", len(ks))
			c.Count("error_calls", errs)
		}
		c.Count("messages", 1)
		for _, it := range m.t.Items() {
			p := ref.PathString(it.Path)
			if _, ok := regs[p]; !ok {
				_, l := root.GetElementByPath(append(asn1.RelativeOID{}, it.Path...))
				c.Check(l != nil, "tree", "no element at %s", p)
				s := &recorder{}
				l.AddListener(s)
				regs[p] = registered{l, s}
			}
		}
	}
	c.Sample("%s", log)
}

func c35direct(c *rt.Ctx) {
	r := c.R
	g := apiGen(r)
	g.Negative = false
	for n := 4; n > 0; n-- {
		a, b := g.Elem(r.Intn(3)), g.Elem(r.Intn(3))
		why := ""
		same := func() {
			b.Number = a.Number
			if b.Qual {
				b.Path = append(b.Path[:len(b.Path)-1:len(b.Path)-1], int32(b.Number))
			}
		}
		switch r.Intn(3) {
		case 0:
			same()
		case 1:
			if r.Bool() { // near it
				same()
				b.Number += rt.Pick(r, 1, -1, 256, 128)
				if b.Number < 0 || b.Number > 1<<31-1 {
					b.Number = 7
				}
				if b.Qual {
					b.Path[len(b.Path)-1] = int32(b.Number)
				}
			}
		default:
			same()
			b.Kind = a.Kind
			b.C, b.Targets, b.Sources, b.Conns = g.Contents(b.Kind), nil, nil, nil
		}
		if a.Number != b.Number {
			why = fmt.Sprintf("number %d", b.Number)
		} else if a.Kind != b.Kind {
			why = fmt.Sprintf("kind %v", b.Kind)
		}
		la, lb := ref.ToLib(a), ref.ToLib(b)
		ea, err := ref.EncodeElem(la)
		c.Check(err == nil, "encode", "%v does not encode: %v", a, err)
		eb, err := ref.EncodeElem(lb)
		c.Check(err == nil, "encode", "%v does not encode: %v", b, err)
		c.Note("element", a.String())
		c.Note("update", b.String())
		var spies []*recorder
		var watch func(l *embertree.Element)
		watch = func(l *embertree.Element) {
			s := &recorder{}
			l.AddListener(s)
			spies = append(spies, s)
			for _, k := range l.Children {
				watch(k)
			}
		}
		watch(la)
		watch(lb)
		content := la.GetContent()
		msg := ""
		c.Try("Update", func() { msg = es(la.Update(lb)) })
		c.Count("direct", 1)
		if why == "" {
			// Children may not fit.
			if fits(a, b) {
				c.Check(msg == "", "refused", "%v refuses %v: %s", a, b, msg)
				c.Check(spies[0].n() == 1, "listener", "the listener of the updated element is called %d times", spies[0].n())
			} else {
				c.Check(msg != "", "accepted", "%v accepts %v without an error", a, b)
			}
			continue
		}
		c.Count("direct_refused", 1)
		c.Check(msg != "", "accepted", "%v is updated with one of %s without an error", a, why)
		for _, s := range spies {
			c.Check(s.n() == 0, "listener", "a listener is called for an update that was refused")
		}
		xa, err := ref.EncodeElem(la)
		c.Check(err == nil && sameElem(xa, ea), "altered", "%v is altered by a refused update: %v", a, err)
		xb, err := ref.EncodeElem(lb)
		c.Check(err == nil && sameElem(xb, eb), "altered", "%v is altered by an update it was refused for: %v", b, err)
		c.Check(la.GetContent() == content, "altered", "%v has other contents after a refused update", a)
		got, err := ref.FromLib(la)
		c.Check(err == nil, "inconsistent", "%v is inconsistent after a refused update: %v", a, err)
		d := ref.Diff(got, a, false)
		c.Check(d == "", "altered", "an element after a refused update (got/before): %s", d)
		c.Distinct(ea, eb)
	}
}

// fits says whether all elements that a and b have in common have the same kind.
func fits(a, b *ref.Elem) bool {
	for _, k := range b.Kids {
		if o := a.Kid(k.Number); o != nil && (o.Kind != k.Kind || !fits(o, k)) {
			return false
		}
	}
	return true
}

// sameElem compares encodings; children come in any order.
func sameElem(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	x, err := ref.ParseElem(a)
	if err != nil {
		return false
	}
	y, err := ref.ParseElem(b)
	return err == nil && ref.Diff(x, y, false) == ""
}

func c35none(c *rt.Ctx) {
	r := c.R
	g := gen(r)
	// No path.
	for _, p := range []asn1.RelativeOID{nil, {}} {
		c.Try("constructors", func() {
			for _, tag := range []byte{ref.App(9), ref.App(10), ref.App(17), ref.App(20), ref.App(3), ref.App(1)} {
				if l := embertree.NewQualifiedElement(tag, p, embertree.NewNodeContents); l != nil {
					c.Fail("no-path", "NewQualifiedElement(%#x) without a path yields an element", tag)
				}
			}
			if l := embertree.NewQualifiedNode(p); l != nil {
				c.Fail("no-path", "NewQualifiedNode without a path yields an element")
			}
			if l := embertree.NewQualifiedParameter(p); l != nil {
				c.Fail("no-path", "NewQualifiedParameter without a path yields an element")
			}
			if l := embertree.NewQualifiedMatrix(p, embertree.MatrixType(r.Intn(3)), embertree.MatrixMode(r.Intn(2))); l != nil {
				c.Fail("no-path", "NewQualifiedMatrix without a path yields an element")
			}
		})
		c.Count("no_path", 1)
	}
	// Undefined types and modes.
	path := append(asn1.RelativeOID{}, g.OID(1)...)
	t, m := r.Intn(3), r.Intn(2)
	bad := rt.Pick(r, -1, 3, 4, 127, -128, -3)
	if r.Bool() {
		t = bad
	} else {
		m = rt.Pick(r, bad, 2)
	}
	c.Try("constructors", func() {
		if l := embertree.NewQualifiedMatrix(path, embertree.MatrixType(t), embertree.MatrixMode(m)); l != nil {
			c.Fail("undefined", "NewQualifiedMatrix of type %d and mode %d yields an element", t, m)
		}
		l, e := embertree.NewMatrix(3, embertree.MatrixType(t), embertree.MatrixMode(m))
		c.Check(l == nil && e != nil, "undefined", "NewMatrix of type %d and mode %d yields an element or no error", t, m)
		mc, e := embertree.NewMatrixContent(embertree.MatrixType(t), embertree.MatrixMode(m))
		c.Check(mc == nil && e != nil, "undefined", "NewMatrixContent of type %d and mode %d yields contents or no error", t, m)
	})
	// Kinds there are not, at any depth.
	known := map[byte]bool{ref.App(1): true, ref.App(2): true, ref.App(3): true, ref.App(9): true, ref.App(10): true, ref.App(13): true, ref.App(17): true, ref.App(19): true, ref.App(20): true}
	for i := 0; i < 4; i++ {
		tag := byte(r.Intn(256))
		for known[tag] || tag == 0 {
			tag = rt.Pick(r, ref.App(byte(r.Intn(31))), ref.Ctx(byte(r.Intn(31))), byte(r.Intn(256)))
		}
		e := g.Elem(0)
		v := (&ref.Enc{R: r}).Elem(e)
		v.Tag = tag
		if tag&0x20 == 0 { // a primitive tag: definite length
			v = ref.Prim(tag, bytes.Join(func() (bs [][]byte) {
				for _, k := range v.Kids {
					bs = append(bs, k.Bytes())
				}
				return
			}(), nil))
		} else {
			v.SetForms(r, r.Intn(ref.FormKinds))
		}
		b := v.Bytes()
		c.Input(b)
		l, msg := (*embertree.Element)(nil), ""
		c.Try("DecodeElement", func() { l, msg = decodeElement(b) })
		c.Check(l == nil && msg != "", "unknown-kind", "an element of tag %#x is decoded: %x", tag, b)
		root := embertree.NewTree()
		watch := &recorder{}
		root.AddListener(watch)
		mv := ref.Cons(ref.App(0), ref.Cons(ref.App(11), ref.Cons(ref.Ctx(0), v)))
		c.Try("Root.Decode", func() {
			msg := decodeRoot(root, mv.Bytes())
			c.Check(msg != "", "unknown-kind", "a message with an element of tag %#x is accepted", tag)
		})
		c.Check(len(root.RootElementCollection) == 0, "unknown-kind", "an element of tag %#x gets into the tree", tag)
		c.Check(watch.n() == 0, "unknown-kind", "the tree's listener is told of a message that was rejected")
		c.Count("unknown_kinds", 1)
	}
}

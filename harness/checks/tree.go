package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C12", Quick: 120000, Deep: 2400000, Run: c12,
		Rule: "a case attaches, moves and detaches plain and qualified elements at random, asks for paths in between (every path after every few operations), overwrites the paths it got and the ones it gave, and compares with a parent-pointer model; also for elements of decoded messages; non-trivial: a distinct sequence of operations",
		Min:  map[string]int64{"paths": 100000, "moves": 5000, "under_qualified": 2000, "scrambled": 10000, "kept": 50000, "decoded_paths": 5000}})
	rt.Register(&rt.Check{ID: "C13", Quick: 40000, Deep: 800000, Run: c13,
		Rule: "a case builds a tree (through the API or from messages) and looks up present paths, paths with a missing last step, with a missing earlier step, empty and random ones, and numbers, and compares with the model; the tree must not change; non-trivial: a distinct tree and path",
		Min:  map[string]int64{"present": 20000, "last_missing": 20000, "earlier_missing": 20000, "deep": 5000, "numbers": 20000}})
	rt.Register(&rt.Check{ID: "C14", Quick: 20000, Deep: 400000, Run: c14,
		Rule: "a case feeds a random sequence of messages (nested, qualified, mixed; new, known and unconnected elements; contents, children and matrix lists present or not; any length form) to a tree and compares the whole tree, its paths and lookups after each message with a model of what was announced; non-trivial: a distinct sequence",
		Min:  map[string]int64{"messages": 20000, "unconnected": 1000, "updates": 20000, "renamed": 2000, "elements": 50000, "long": 50, "large": 200, "wide": 100, "lists": 3000}})
	rt.Register(&rt.Check{ID: "C15", Quick: 24000, Deep: 480000, Run: c15,
		Rule: "a case feeds random messages to a tree with recording listeners on the tree and on elements, added and removed between messages and inside callbacks, and compares the calls with the model; also for contents replaced through the API; non-trivial: a distinct sequence of calls",
		Min:  map[string]int64{"messages": 15000, "calls": 30000, "root_calls": 15000, "removed_inside": 500, "silent": 30000, "set_contents": 5000, "long": 50, "crowds": 500, "wide": 100}})
	rt.Register(&rt.Check{ID: "C16", Quick: 30000, Deep: 600000, Run: c16,
		Rule: "a case asks for the directory requests of a tree and of its elements, nested and qualified, with and without listener, and reads the octets with the strict Glow reader; tree and paths must be as before; non-trivial: a distinct request",
		Min:  map[string]int64{"nested": 10000, "qualified": 10000, "tree": 5000, "below_qualified": 1000, "listeners": 5000}})
}

// ---- paths

type pathModel struct {
	l      *embertree.Element
	number int32
	qual   []int32
	parent *pathModel
}

func (m *pathModel) path() []int32 {
	if m.qual != nil {
		return m.qual
	}
	if m.parent == nil {
		return []int32{m.number}
	}
	return append(append([]int32{}, m.parent.path()...), m.number)
}

func (m *pathModel) below(o *pathModel) bool {
	for x := m; x != nil; x = x.parent {
		if x == o {
			return true
		}
	}
	return false
}

func (m *pathModel) underQual() bool {
	for x := m.parent; x != nil; x = x.parent {
		if x.qual != nil {
			return true
		}
	}
	return false
}

func c12(c *rt.Ctx) {
	r := c.R
	g := gen(r)
	if c.I%8 == 0 {
		c12decoded(c)
		return
	}
	var all []*pathModel
	ops := ""
	note := func(format string, a ...interface{}) {
		if len(ops) < 4000 {
			ops += fmt.Sprintf(format, a...) + "\n"
		}
	}
	type kept struct {
		m         *pathModel
		got, copy []int32
	}
	var keep []kept
	check := func(m *pathModel) {
		var p asn1.RelativeOID
		c.Try("GetPath", func() { p = m.l.GetPath() })
		want := m.path()
		if !ref.SameOID(p, want) {
			c.Note("ops", ops)
			c.Fail("path", "element %d reports path %v instead of %v", m.number, p, want)
		}
		parent, e := m.l.GetParent()
		if e != nil || m.parent == nil && parent != nil || m.parent != nil && parent != m.parent.l {
			c.Note("ops", ops)
			c.Fail("parent", "element %d reports another parent than it was attached to (%s)", m.number, es(e))
		}
		c.Count("paths", 1)
		if m.underQual() {
			c.Count("under_qualified", 1)
		}
		if r.P(1, 3) { // whatever is done to it must not matter
			c.Count("scrambled", 1)
			if r.Bool() {
				p = append(p, r.Int32(), r.Int32())
			}
			for i := range p {
				p[i] = r.Int32()
			}
		} else if len(keep) < 2000 {
			keep = append(keep, kept{m, p, append([]int32{}, p...)})
		}
	}
	steps := r.Range(5, 60)
	for s := 0; s < steps; s++ {
		switch k := r.Intn(10); {
		case k < 4 || len(all) < 2:
			m := &pathModel{number: int32(1000*(len(all)+1) + r.Intn(1000))}
			if r.P(1, 20) {
				m.number = int32(len(all)) // also small ones; still unique
			}
			if r.P(1, 4) {
				p := append(g.OID(0), m.number)
				m.qual = append([]int32{}, p...)
				switch r.Intn(3) {
				case 0:
					m.l = embertree.NewQualifiedNode(p)
				case 1:
					m.l = embertree.NewQualifiedParameter(p)
				case 2:
					m.l = embertree.NewQualifiedMatrix(p, embertree.OneToN, embertree.Linear)
				}
				c.Check(m.l != nil, "constructor", "qualified element %v refused", m.qual)
				for i := range p {
					p[i] = -7
				}
			} else {
				n := int(m.number)
				switch r.Intn(4) {
				case 0, 1:
					m.l = embertree.NewNode(n)
				case 2:
					m.l = embertree.NewFunction(n)
				case 3:
					m.l = embertree.NewParameter(n)
				}
			}
			all = append(all, m)
			note("new %d qualified %v", m.number, m.qual)
		case k < 8:
			m, p := rt.Pick(r, all...), rt.Pick(r, all...)
			if p.below(m) {
				continue
			}
			if m.parent != nil {
				c.Count("moves", 1)
			}
			note("attach %d to %d", m.number, p.number)
			m.parent = p
			e := p.l.AddChild(m.l)
			c.Check(e == nil, "attach", "AddChild: %s", es(e))
		case k < 9:
			m := rt.Pick(r, all...)
			if r.Bool() {
				note("detach %d", m.number)
				m.parent = nil
				m.l.SetParent(nil)
			} else if p := rt.Pick(r, all...); !p.below(m) {
				note("parent of %d is %d", m.number, p.number)
				m.parent = p
				m.l.SetParent(p.l)
			}
		default:
			for i := 0; i < 3; i++ {
				check(rt.Pick(r, all...))
			}
		}
		if r.P(1, 6) {
			for _, i := range r.Perm(len(all)) {
				check(all[i])
			}
		}
	}
	for _, m := range all {
		check(m)
	}
	for _, k := range keep {
		c.Count("kept", 1)
		if !ref.SameOID(k.got, k.copy) {
			c.Note("ops", ops)
			c.Fail("kept", "the path %v reported for element %d has become %v", k.copy, k.m.number, k.got)
		}
	}
	c.Distinct(ops)
	c.Sample("%s", ops)
}

// c12decoded compares the paths within decoded elements, whose lookup order
// differs from the order of construction.
func c12decoded(c *rt.Ctx) {
	r := c.R
	g := gen(r)
	g.MaxDepth = r.Range(2, 6)
	els := g.Roots(3)
	root := embertree.NewTree()
	if msg := decodeRoot(root, ref.Message(els)); msg != "" {
		c.Fail("decode", "a message does not decode: %s\n%s", msg, show(els))
	}
	type pair struct {
		l    *embertree.Element
		want []int32
	}
	var all []pair
	var walk func(l *embertree.Element, e *ref.Elem, at []int32)
	walk = func(l *embertree.Element, e *ref.Elem, at []int32) {
		p := append(append([]int32{}, at...), int32(e.Number))
		if e.Qual {
			p = e.Path
		}
		all = append(all, pair{l, p})
		for _, k := range e.Kids {
			if kl := l.Children[k.Number]; kl != nil {
				walk(kl, k, p)
			}
		}
	}
	for _, e := range els {
		if l := root.GetElementByNumber(e.Number); l != nil && !(e.Qual && len(e.Path) > 1) {
			walk(l, e, nil)
		}
	}
	for i := 0; i < 2*len(all); i++ {
		p := rt.Pick(r, all...)
		got := p.l.GetPath()
		if !ref.SameOID(got, p.want) {
			c.Note("tree", show(els))
			c.Fail("path", "decoded element reports path %v instead of %v", got, p.want)
		}
		c.Count("decoded_paths", 1)
		c.Count("paths", 1)
		got = append(got, -1)
		for j := range got {
			got[j] = -5
		}
	}
	c.Distinct(show(els))
}

// ---- message sequences

// world makes messages that are consistent about the kind of each element.
type world struct {
	r     *rt.Rand
	g     *ref.Gen
	kinds map[string]ref.Kind
	maxN  int
	// base is announced first, when there is one: things happen far down.
	base []int32
	// wide worlds have many elements, and messages about many at a time; many
	// of them at the top, or many connections.
	wide, top, conns bool
}

func newWorld(r *rt.Rand) *world {
	w := &world{r: r, g: gen(r), kinds: map[string]ref.Kind{}, maxN: r.Range(2, 5)}
	w.g.MaxText = 12
	if r.P(1, 8) {
		for i := r.Range(4, 40); i > 0; i-- {
			w.base = append(w.base, w.number())
			w.kinds[ref.PathString(w.base)] = ref.Node
		}
	} else {
		w.wide = r.P(1, 60)
		w.top = w.wide && r.P(1, 4)
		w.conns = w.wide && !w.top && r.P(1, 4)
	}
	return w
}

func (w *world) kind(path []int32) ref.Kind {
	s := ref.PathString(path)
	k, ok := w.kinds[s]
	if !ok {
		k = rt.Pick(w.r, ref.Node, ref.Node, ref.Node, ref.Param, ref.Func, ref.Matrix)
		w.kinds[s] = k
	}
	return k
}

func (w *world) number() int32 {
	if w.r.P(1, 30) {
		return rt.Pick[int32](w.r, 127, 128, 300, 16384, 1<<31-1)
	}
	return int32(w.r.Intn(w.maxN))
}

func join(p []int32, n ...int32) []int32 { return append(append([]int32{}, p...), n...) }

// elem makes what a message says about the element at path, with up to depth
// more levels.
func (w *world) elem(path []int32, depth int) *ref.Elem {
	e := &ref.Elem{Kind: w.kind(path), Number: int(path[len(path)-1])}
	if w.r.P(2, 3) {
		e.C = w.g.Contents(e.Kind)
	}
	if e.Kind == ref.Matrix {
		if w.r.Bool() {
			n := w.g.Many("signals", 1+w.r.Intn(3), 2500)
			for i := 0; i < n; i++ {
				e.Targets = append(e.Targets, int32(w.r.Intn(5)))
			}
		}
		if w.r.Bool() {
			n := w.g.Many("signals", 1+w.r.Intn(3), 2500)
			for i := 0; i < n; i++ {
				e.Sources = append(e.Sources, int32(w.r.Intn(5)))
			}
		}
		if w.r.Bool() {
			ts := w.r.Perm(5)[:1+w.r.Intn(3)]
			if n := w.g.Many("conns", 0, 1100); n > 0 {
				ts = w.r.Perm(n + w.r.Intn(5))[:n]
			}
			for _, t := range ts {
				if w.r.P(1, 8) {
					t = -t // any integer will do
				}
				if w.r.P(1, 4) { // alike in their lower octets
					t += w.r.Range(-3, 3) << rt.Pick(w.r, 8, 16, 24)
				}
				e.Conns = append(e.Conns, ref.Conn{Target: int32(t), Sources: w.g.OID(0), Op: w.r.Intn(3), Disp: w.r.Intn(4)})
			}
		}
	}
	if depth > 0 {
		seen := map[int32]bool{}
		for i := w.r.Intn(4); i > 0; i-- {
			n := w.number()
			if seen[n] {
				continue
			}
			seen[n] = true
			e.Kids = append(e.Kids, w.elem(join(path, n), w.r.Intn(depth)))
		}
	}
	if m := w.g.Many("kids", 0, 1100); m > 0 {
		e.Kids = nil
		first := w.r.Intn(4)
		for _, i := range w.r.Perm(m) {
			e.Kids = append(e.Kids, w.elem(join(path, int32(first+i)), 0))
		}
	}
	return e
}

// message is a message about elements near those the model knows.
func (w *world) message(t *ref.Tree) []*ref.Elem {
	var es []*ref.Elem
	items := t.Items()
	sort.Slice(items, func(i, j int) bool { return ref.PathString(items[i].Path) < ref.PathString(items[j].Path) })
	if len(items) == 0 && len(w.base) > 0 {
		e := w.elem(w.base, 1)
		for l := len(w.base) - 1; l > 0; l-- {
			e = &ref.Elem{Kind: ref.Node, Number: int(w.base[l-1]), Kids: []*ref.Elem{e}}
		}
		return []*ref.Elem{e}
	}
	if w.wide && len(items) < 2000 {
		if w.conns && (len(items) == 0 || w.r.P(3, 4)) { // a matrix of many connections
			if len(items) == 0 {
				w.kinds["1"] = ref.Matrix
			}
			e := &ref.Elem{Kind: ref.Matrix, Number: 1}
			if w.r.Bool() {
				e.Qual, e.Path = true, []int32{1}
			}
			first := w.r.Intn(1500)
			for _, i := range w.r.Perm(w.r.Range(20, 700)) {
				e.Conns = append(e.Conns, ref.Conn{Target: int32(first + i), Sources: w.g.OID(0), Op: w.r.Intn(3), Disp: w.r.Intn(4)})
			}
			return []*ref.Elem{e}
		}
		if w.top && (len(items) == 0 || w.r.P(1, 3)) { // many at the top
			first := w.r.Intn(300)
			for _, i := range w.r.Perm(w.r.Range(200, 700)) {
				p := []int32{int32(first + i)}
				e := &ref.Elem{Kind: w.kind(p), Number: first + i}
				if w.r.P(1, 3) {
					e = w.elem(p, 0)
				}
				if w.r.P(1, 8) {
					e.Qual, e.Path = true, p
				}
				es = append(es, e)
			}
			return es
		}
		if len(items) == 0 { // a node of many
			n := w.number()
			e := &ref.Elem{Kind: w.kind([]int32{n}), Number: int(n)}
			for i := w.r.Range(70, 400); i > 0; i-- {
				e.Kids = append(e.Kids, w.elem([]int32{n, int32(i)}, 0))
			}
			return []*ref.Elem{e}
		}
		if w.r.Bool() { // something about many at once
			below, max := w.r.P(2, 3), w.r.Range(20, 400)
			for _, i := range w.r.Perm(len(items)) {
				p := items[i].Path
				if below {
					p = join(p, w.number())
				}
				e := w.elem(p, 0)
				e.Qual, e.Path = true, p
				if es = append(es, e); len(es) >= max {
					break
				}
			}
			return es
		}
	}
	for n := w.g.Many("roots", w.r.Intn(4), 520); n > 0; n-- {
		var path []int32
		switch k := w.r.Intn(8); {
		case k == 0 || len(items) == 0:
			path = []int32{w.number()}
		case k <= 3: // known
			path = rt.Pick(w.r, items...).Path
		case k <= 5: // child of a known one
			path = join(rt.Pick(w.r, items...).Path, w.number())
		case k == 6: // probably unconnected
			path = join(rt.Pick(w.r, items...).Path, w.number(), w.number())
		default:
			for i := w.r.Range(1, 4); i > 0; i-- {
				path = append(path, w.number())
			}
		}
		e := w.elem(path, w.r.Intn(3))
		if w.r.Bool() {
			e.Qual, e.Path = true, path
		} else { // nested
			for l := len(path) - 1; l > 0; l-- {
				p := &ref.Elem{Kind: w.kind(path[:l]), Number: int(path[l-1]), Kids: []*ref.Elem{e}}
				if w.r.P(1, 6) {
					p.C = w.g.Contents(p.Kind)
				}
				if w.r.P(1, 5) {
					x := w.number()
					if int(x) != e.Number {
						p.Kids = append(p.Kids, w.elem(join(path[:l], x), 0))
					}
				}
				e = p
			}
		}
		es = append(es, e)
	}
	return es
}

// octets encodes a message in a random way.
func (w *world) octets(es []*ref.Elem) []byte {
	v := (&ref.Enc{R: w.r, Shuffle: w.r.Bool()}).Root(es)
	v.SetForms(w.r, w.r.Intn(ref.FormKinds))
	return v.Bytes()
}

// checkTree compares the whole tree with the model.
func checkTree(c *rt.Ctx, root *embertree.RootElement, t *ref.Tree, log string) {
	got, err := ref.RootFromLib(root)
	if err != nil {
		c.Note("messages", log)
		c.Fail("inconsistent", "the tree is inconsistent: %v", err)
	}
	if d := ref.DiffAll(got, t.Elems(), true); d != "" {
		c.Note("messages", log)
		c.Fail("tree", "the tree differs from what was announced (tree/announced): %s", d)
	}
}

// lists are the lists got from a matrix.
type lists struct {
	path             []int32
	targets, sources []embertree.Signal
	conns            []*embertree.Connection
	was              string
}

func (l *lists) show() string {
	var s strings.Builder
	for _, t := range append(l.targets[:len(l.targets):len(l.targets)], l.sources...) {
		fmt.Fprintf(&s, "%v ", t)
	}
	for _, c := range l.conns {
		fmt.Fprintf(&s, "%v ", *c)
	}
	return s.String()
}

// listsGot gets the lists of some matrices of a tree.
func listsGot(root *embertree.RootElement) []*lists {
	var out []*lists
	var walk func(e *embertree.Element)
	walk = func(e *embertree.Element) {
		if len(out) >= 10 {
			return
		}
		if t, err := e.GetTargets(); err == nil {
			l := &lists{path: e.GetPath(), targets: t}
			l.sources, _ = e.GetSources()
			l.conns, _ = e.GetConnections()
			l.was = l.show()
			out = append(out, l)
		}
		for _, k := range e.Children {
			walk(k)
		}
	}
	for _, e := range root.RootElementCollection {
		walk(e)
	}
	return out
}

func c14(c *rt.Ctx) {
	r := c.R
	w := newWorld(r)
	root, t := embertree.NewTree(), ref.NewTreeModel()
	if r.Bool() {
		root = embertree.NewRoot()
	}
	log := ""
	if w.wide {
		c.Count("wide", 1)
	}
	steps := r.Range(2, 12)
	if r.P(1, 150) {
		steps = r.Range(50, 250)
		c.Count("long", 1)
	}
	for n := steps; n > 0; n-- {
		es := w.message(t)
		for _, e := range es {
			if e.Large() {
				c.Count("large", 1)
			}
		}
		if len(es) >= 16 {
			c.Count("large", 1)
		}
		b := w.octets(es)
		log += show(es) + "--\n"
		c.Input(b)
		if len(log) > 60000 {
			log = log[len(log)-60000:]
		}
		for _, e := range es {
			if e.Qual && len(e.Path) > 1 && t.Find(e.Path[:len(e.Path)-1]) == nil {
				c.Count("unconnected", 1)
			}
			if it := t.Find(e.Path); it != nil && e.Qual {
				if it.E.Qual != e.Qual {
					c.Count("renamed", 1)
				}
			}
		}
		lists := listsGot(root)
		concerned := t.Apply(canonAll(es))
		c.Count("updates", len(concerned))
		c.Try("Root.Decode", func() {
			if msg := decodeRoot(root, b); msg != "" {
				c.Note("messages", log)
				c.Fail("decode", "a valid message is refused: %s", msg)
			}
		})
		c.Count("messages", 1)
		for _, l := range lists {
			c.Count("lists", 1)
			if now := l.show(); now != l.was {
				c.Note("messages", log)
				c.Fail("lists", "lists got from matrix %v before a message were changed by it: %s became %s", l.path, l.was, now)
			}
		}
		items := t.Items()
		if n > 1 && len(items) > 200 && !r.P(1, 8) {
			continue // a large tree is read now and then, and at the end
		}
		if len(items) > 3000 {
			n = 1
		}
		checkTree(c, root, t, log)
		for _, it := range items {
			c.Count("elements", 1)
			parent, l := root.GetElementByPath(it.Path)
			if l == nil || (parent == nil) != (len(it.Path) == 1) {
				c.Note("messages", log)
				c.Fail("lookup", "element %s is not found by its path", ref.PathString(it.Path))
			}
			if p := l.GetPath(); !ref.SameOID(p, it.Path) {
				c.Note("messages", log)
				c.Fail("path", "the element at %s reports path %v", ref.PathString(it.Path), p)
			}
			if gp, err := l.GetParent(); err != nil || gp != parent {
				c.Note("messages", log)
				c.Fail("parent", "the element at %s has another parent than the one it is found below", ref.PathString(it.Path))
			}
		}
	}
	c.Distinct(log)
	c.Sample("%s", log)
}

// ---- lookups

func c13(c *rt.Ctx) {
	r := c.R
	root, t := embertree.NewTree(), ref.NewTreeModel()
	log := ""
	if r.Bool() {
		w := newWorld(r)
		for n := r.Range(1, 6); n > 0; n-- {
			es := w.message(t)
			log += show(es) + "--\n"
			t.Apply(canonAll(es))
			if msg := decodeRoot(root, w.octets(es)); msg != "" {
				c.Note("messages", log)
				c.Fail("decode", "a valid message is refused: %s", msg)
			}
		}
	} else {
		g := apiGen(r)
		g.NoQual = r.Bool()
		g.Budget = 60
		var els []*ref.Elem
		for _, e := range g.Roots(4) {
			// Qualified elements with longer paths are not placed at top level.
			if e.Qual {
				e.Path = []int32{int32(e.Number)}
			}
			els = append(els, e)
		}
		if r.P(1, 8) {
			deep := r.Range(5, 60)
			if r.P(1, 20) {
				deep = r.Range(60, 1500)
				c.Count("very_deep", 1)
			}
			e, free := g.Chain(deep, ref.Param), true
			for _, o := range els {
				free = free && o.Number != e.Number
			}
			if free && !e.Qual {
				els = append(els, e)
			}
		}
		root = ref.RootToLib(els)
		// Children attached in the place of others.
		for i := r.Intn(4); i > 0; i-- {
			var at []*ref.Elem
			for _, e := range els {
				e.Walk(nil, func(x *ref.Elem, _ []int32) {
					if len(x.Kids) > 0 {
						at = append(at, x)
					}
				})
			}
			if len(at) == 0 {
				break
			}
			x := rt.Pick(r, at...)
			k := r.Intn(len(x.Kids))
			n := &ref.Elem{Kind: ref.Node, Number: x.Kids[k].Number}
			for _, j := range r.Perm(5)[:r.Intn(4)] {
				n.Kids = append(n.Kids, &ref.Elem{Kind: rt.Pick(r, ref.Node, ref.Param), Number: j})
			}
			var l *embertree.Element
			var find func(y *ref.Elem, m *embertree.Element)
			find = func(y *ref.Elem, m *embertree.Element) {
				if y == x {
					l = m
				}
				for _, k := range y.Kids {
					find(k, m.Children[k.Number])
				}
			}
			for _, e := range els {
				find(e, root.RootElementCollection[e.Number])
			}
			x.Kids[k] = n
			l.AddChild(ref.ToLib(n))
			c.Count("replaced", 1)
		}
		t.Apply(els)
		log = show(els)
	}
	before := snapshot(c, root)
	items := t.Items()
	sort.Slice(items, func(i, j int) bool { return ref.PathString(items[i].Path) < ref.PathString(items[j].Path) })
	for n := 0; n < 40; n++ {
		var p []int32
		if len(items) > 0 {
			p = join(rt.Pick(r, items...).Path)
		}
		switch r.Intn(6) {
		case 0:
			p = join(p, int32(r.Intn(6)))
		case 1:
			p = join(p, int32(r.Intn(6)), int32(r.Intn(6)))
		case 2:
			if len(p) > 0 {
				p[r.Intn(len(p))] = rt.Pick(r, int32(r.Intn(6)), r.Int32())
			}
		case 3:
			p = nil
			for i := r.Intn(5); i > 0; i-- {
				p = append(p, int32(r.Intn(5)))
			}
		}
		want := t.Find(p)
		var wantParent *ref.Item
		if len(p) > 1 {
			wantParent = t.Find(p[:len(p)-1])
		}
		switch {
		case want != nil:
			c.Count("present", 1)
			if len(p) > 10 {
				c.Count("deep", 1)
			}
		case len(p) > 0 && (len(p) == 1 || wantParent != nil):
			c.Count("last_missing", 1)
		default:
			c.Count("earlier_missing", 1)
		}
		arg := append([]int32{}, p...)
		var parent, l *embertree.Element
		c.Try("GetElementByPath", func() { parent, l = root.GetElementByPath(arg) })
		if !ref.SameOID(arg, p) {
			c.Fail("argument", "GetElementByPath(%v) changed its argument to %v", p, arg)
		}
		if l != byNumbers(root, p) || (l != nil) != (want != nil) {
			c.Note("tree", log)
			c.Fail("lookup", "GetElementByPath(%v) finds %s", p, id(l))
		}
		var wantP *embertree.Element
		if len(p) > 1 {
			wantP = byNumbers(root, p[:len(p)-1])
		}
		if parent != wantP || (parent != nil) != (wantParent != nil) {
			c.Note("tree", log)
			c.Fail("parent", "GetElementByPath(%v) returns parent %s instead of %s", p, id(parent), id(wantP))
		}
		c.Distinct(log, fmt.Sprint(p))
	}
	for n := -1; n < 8; n++ {
		l := root.GetElementByNumber(n)
		want := t.Top[n]
		if (l != nil) != (want != nil) || l != nil && (l.Number != n || l != root.RootElementCollection[n]) {
			c.Note("tree", log)
			c.Fail("number", "GetElementByNumber(%d) finds %s", n, id(l))
		}
		c.Count("numbers", 1)
	}
	for n := range t.Top {
		if l := root.GetElementByNumber(n); l == nil || l.Number != n {
			c.Note("tree", log)
			c.Fail("number", "GetElementByNumber(%d) finds %s", n, id(l))
		}
		c.Count("numbers", 1)
	}
	if d := ref.DiffAll(snapshot(c, root), before, false); d != "" {
		c.Note("tree", log)
		c.Fail("altered", "looking up altered the tree (after/before): %s", d)
	}
	c.Sample("%s", log)
}

func id(l *embertree.Element) string {
	if l == nil {
		return "nothing"
	}
	return fmt.Sprintf("element %d (%p)", l.Number, l)
}

func byNumbers(root *embertree.RootElement, p []int32) *embertree.Element {
	if len(p) == 0 {
		return nil
	}
	l := root.RootElementCollection[int(p[0])]
	for _, n := range p[1:] {
		if l == nil {
			return nil
		}
		l = l.Children[int(n)]
	}
	return l
}

// ---- listeners

// own is a fingerprint of what an element itself says.
func own(l *embertree.Element) string {
	var s strings.Builder
	fmt.Fprint(&s, l.Number, l.GetTag())
	if ec := l.GetContent(); ec != nil {
		w := asn1.NewASNWriter()
		ec.Encode(w)
		fmt.Fprintf(&s, " %x", ref.Drain(w))
	}
	var ks []int
	for n := range l.Children {
		ks = append(ks, n)
	}
	sort.Ints(ks)
	fmt.Fprint(&s, ks)
	if e, err := l.GetTargets(); err == nil {
		for _, x := range e {
			fmt.Fprintf(&s, " %+v", x)
		}
	}
	if e, err := l.GetSources(); err == nil {
		for _, x := range e {
			fmt.Fprintf(&s, " %+v", x)
		}
	}
	if e, err := l.GetConnections(); err == nil {
		for _, x := range e {
			fmt.Fprintf(&s, " %+v", *x)
		}
	}
	return s.String()
}

// spy is one registration of a listener.
type spy struct {
	c       *rt.Ctx
	name    string
	node    interface{}
	calls   int
	last    string // state at the last call
	state   func() string
	removed bool
	fresh   bool // added while a message was being processed
	inside  func(s *spy)
	log     *string
}

func (s *spy) Receive(node interface{}, err errors.Error) {
	s.calls++
	s.last = s.state()
	if s.removed {
		s.c.Note("messages", *s.log)
		s.c.Report("removed", "%s was called after its removal", s.name)
	}
	if node != s.node {
		s.c.Note("messages", *s.log)
		s.c.Report("node", "%s was called with %T %v", s.name, node, node)
	}
	if err != nil {
		s.c.Note("messages", *s.log)
		s.c.Report("error", "%s was called with error %s", s.name, es(err))
	}
	if s.inside != nil {
		s.inside(s)
	}
}

func c15(c *rt.Ctx) {
	r := c.R
	w := newWorld(r)
	root, t := embertree.NewTree(), ref.NewTreeModel()
	log := ""
	type reg struct {
		s    *spy
		path string
		l    *embertree.Element // nil: the tree
	}
	var regs []*reg
	processing := false
	remove := func(g *reg) {
		g.s.removed = true
		if g.l == nil {
			root.RemoveListener(g.s)
		} else {
			g.l.RemoveListener(g.s)
		}
	}
	inside := r.P(1, 2)
	add := func(it *ref.Item) {
		s := &spy{c: c, log: &log, fresh: processing}
		g := &reg{s: s}
		if it == nil {
			s.name, s.node, s.state = "a listener of the tree", root, func() string { return "" }
			root.AddListener(s)
			if r.P(1, 5) {
				root.AddListener(s) // once is enough
			}
		} else {
			_, g.l = root.GetElementByPath(it.Path)
			g.path = ref.PathString(it.Path)
			l := g.l
			s.name, s.node, s.state = "a listener of "+g.path, l, func() string { return own(l) }
			l.AddListener(s)
			if r.P(1, 5) {
				l.AddListener(s)
			}
		}
		if inside && r.P(1, 3) {
			s.inside = func(me *spy) {
				if len(regs) == 0 {
					return
				}
				switch r.Intn(4) {
				case 0: // itself
					for _, g := range regs {
						if g.s == me && !g.s.removed {
							remove(g)
							c.Count("removed_inside", 1)
						}
					}
				case 1: // another one
					if g := rt.Pick(r, regs...); !g.s.removed {
						remove(g)
						c.Count("removed_inside", 1)
					}
				case 2: // one of the same element
					for _, g := range regs {
						if g.s.node == me.node && g.s != me && !g.s.removed {
							remove(g)
							c.Count("removed_inside", 1)
							break
						}
					}
				}
			}
		}
		regs = append(regs, g)
	}
	history := ""
	steps, most := r.Range(3, 12), 60
	if r.P(1, 100) {
		steps = r.Range(50, 150)
		c.Count("long", 1)
	}
	crowd := r.P(1, 50)
	if crowd {
		most = 1000
	}
	if w.wide {
		most = 1000
		c.Count("wide", 1)
	}
	for n := steps; n > 0; n-- {
		items := t.Items()
		sort.Slice(items, func(i, j int) bool { return ref.PathString(items[i].Path) < ref.PathString(items[j].Path) })
		if r.P(1, 3) || n == 0 {
			add(nil)
		}
		if crowd && r.Bool() && len(regs) < most {
			c.Count("crowds", 1)
			var it *ref.Item
			if len(items) > 0 && r.P(3, 4) {
				it = rt.Pick(r, items...)
			}
			for k := rt.Pick(r, 15, 16, 17, 31, 32, 33, 64, 100, 128, 129, 256); k > 0; k-- {
				add(it)
			}
		}
		for _, it := range items {
			for k := r.Intn(3); k > 0 && len(regs) < most; k-- {
				if r.P(1, 2) {
					add(it)
				}
			}
		}
		for _, g := range regs {
			if !g.s.removed && r.P(1, 6) {
				remove(g)
			}
			g.s.fresh = false
		}
		if len(items) > 0 && r.P(1, 3) {
			// Contents replaced through the API.
			it := rt.Pick(r, items...)
			_, l := root.GetElementByPath(it.Path)
			ct := (&ref.Gen{R: r, API: true, MaxText: 10}).Contents(it.E.Kind)
			was := []bool{}
			for _, g := range regs {
				g.s.calls = 0
				was = append(was, g.s.removed)
			}
			nc := ref.ContentsToLib(it.E.Kind, ct)
			c.Try("SetContents", func() {
				e := l.SetContents(nc)
				c.Check(e == nil, "set", "SetContents: %s", es(e))
			})
			it.E.C = ct
			for i, g := range regs {
				if was[i] {
					continue
				}
				want := 0
				if g.l == l {
					want = 1
				}
				if g.s.calls != want && !(g.s.removed && g.s.calls == 0) {
					c.Note("messages", log)
					c.Fail("set", "replacing the contents of %s calls %s %d times", ref.PathString(it.Path), g.s.name, g.s.calls)
				}
				if want == 1 && g.s.calls == 1 && g.s.last != own(l) {
					// a callback does not change contents here
					c.Fail("stale", "%s was called before the contents were replaced", g.s.name)
				}
			}
			c.Count("set_contents", 1)
		}
		es := w.message(t)
		log += show(es) + "--\n"
		b := w.octets(es)
		c.Input(b)
		concerned := t.Apply(canonAll(es))
		was := []bool{}
		for _, g := range regs {
			g.s.calls, g.s.last = 0, ""
			was = append(was, g.s.removed)
		}
		processing = true
		c.Try("Root.Decode", func() {
			if msg := decodeRoot(root, b); msg != "" {
				c.Note("messages", log)
				c.Fail("decode", "a valid message is refused: %s", msg)
			}
		})
		processing = false
		c.Count("messages", 1)
		if c.Failed() {
			return
		}
		for i, g := range regs {
			if was[i] {
				if g.s.calls != 0 {
					c.Fail("removed", "%s was called after its removal", g.s.name)
				}
				continue
			}
			c.Count("calls", g.s.calls)
			if g.s.removed && g.s.calls == 0 {
				continue // removed by another one before its turn
			}
			if g.l == nil {
				if g.s.calls != 1 {
					c.Note("messages", log)
					c.Fail("root", "a message calls a listener of the tree %d times", g.s.calls)
				}
				c.Count("root_calls", 1)
				continue
			}
			if concerned[g.path] {
				if g.s.calls == 0 {
					c.Note("messages", log)
					c.Fail("missed", "the last message concerns %s, but its listener was not called", g.path)
				}
				if !g.s.removed && g.s.last != own(g.l) {
					c.Note("messages", log)
					c.Fail("stale", "the listener of %s was called for the last time before the update was complete", g.path)
				}
			} else {
				c.Count("silent", 1)
				if g.s.calls != 0 {
					c.Note("messages", log)
					c.Fail("unconcerned", "the last message does not concern %s, but its listener was called %d times", g.path, g.s.calls)
				}
			}
			history += fmt.Sprint(g.path, g.s.calls, ";")
		}
		history += "|"
	}
	if len(log) > 30000 {
		log = log[:30000]
	}
	c.Distinct(log, history)
	c.Sample("%s", log)
}

// ---- directory requests

func c16(c *rt.Ctx) {
	r := c.R
	root, t := embertree.NewTree(), ref.NewTreeModel()
	log := ""
	if r.Bool() {
		w := newWorld(r)
		for n := r.Range(1, 5); n > 0; n-- {
			es := w.message(t)
			log += show(es) + "--\n"
			t.Apply(canonAll(es))
			if msg := decodeRoot(root, w.octets(es)); msg != "" {
				c.Note("messages", log)
				c.Fail("decode", "a valid message is refused: %s", msg)
			}
		}
	} else {
		g := apiGen(r)
		g.NoCmd = true
		g.Negative = false
		els := g.Roots(4)
		if r.P(1, 60) {
			e, free := g.Chain(r.Range(20, rt.Pick(r, 100, 200, 600)), ref.Param), true
			for _, o := range els {
				free = free && o.Number != e.Number
			}
			if free {
				els = append(els, e)
				c.Count("deep", 1)
			}
		}
		root = ref.RootToLib(els)
		log = show(els)
	}
	type target struct {
		l    *embertree.Element
		path []int32
		up   []*embertree.Element // from the top level, l last
	}
	var targets []target
	var walk func(l *embertree.Element, at []int32, up []*embertree.Element)
	walk = func(l *embertree.Element, at []int32, up []*embertree.Element) {
		p := join(at, int32(l.Number))
		if embertree.IsQualifiedTag(l.GetTag()) {
			p = append([]int32{}, l.GetPath()...)
		}
		up = append(append([]*embertree.Element{}, up...), l)
		targets = append(targets, target{l, p, up})
		var ks []int
		for n := range l.Children {
			ks = append(ks, n)
		}
		sort.Ints(ks)
		for _, n := range ks {
			walk(l.Children[n], p, up)
		}
	}
	var ks []int
	for n := range root.RootElementCollection {
		ks = append(ks, n)
	}
	sort.Ints(ks)
	for _, n := range ks {
		walk(root.RootElementCollection[n], nil, nil)
	}
	before := snapshot(c, root)

	request := func(what string, m *embertree.RootElement) []*ref.Elem {
		c.Check(m != nil, "request", "%s: no request", what)
		b, err := ref.EncodeRoot(m)
		if err != nil {
			c.Note("tree", log)
			c.Fail("request", "%s does not encode: %v", what, err)
		}
		got, err := ref.ParseRoot(b)
		if err != nil {
			c.Note("tree", log)
			c.Note("octets", b)
			c.Fail("layout", "%s is not a Glow message: %v", what, err)
		}
		c.Distinct(b)
		return got
	}
	isCmd := func(e *ref.Elem) bool {
		return e.Kind == ref.Command && e.Number == 32 && e.C != nil && e.C.FieldFlags == -1 && len(e.Kids) == 0
	}
	// at follows the only branch of a request down to its command.
	at := func(what string, es []*ref.Elem) (path []int32, kinds []ref.Kind) {
		for {
			if len(es) != 1 {
				c.Note("tree", log)
				c.Fail("branch", "%s has %d elements where there must be one:\n%s", what, len(es), show(es))
			}
			e := es[0]
			if e.Kind == ref.Command {
				if !isCmd(e) {
					c.Note("tree", log)
					c.Fail("command", "%s holds another command: %v %+v", what, e, e.C)
				}
				return
			}
			if e.C != nil || len(e.Targets)+len(e.Sources)+len(e.Conns) > 0 {
				c.Note("tree", log)
				c.Fail("contents", "%s carries contents, which sets them: %v", what, e)
			}
			if e.Qual {
				if len(kinds) > 0 {
					c.Note("tree", log)
					c.Fail("branch", "%s has a qualified element beneath another: %v", what, e)
				}
				path = append(path, e.Path...)
			} else {
				path = append(path, int32(e.Number))
			}
			kinds = append(kinds, e.Kind)
			es = e.Kids
		}
	}
	known := map[*embertree.Element]ref.Kind{}
	kindOf := func(l *embertree.Element) ref.Kind {
		if k, ok := known[l]; ok {
			return k
		}
		e, err := ref.FromLib(l)
		c.Check(err == nil, "inconsistent", "%v", err)
		known[l] = e.Kind
		return e.Kind
	}

	// the tree
	for k := 0; k < 2; k++ {
		var s *recorder
		var m *embertree.RootElement
		c.Try("Root.GetDirectoryMsg", func() {
			var e errors.Error
			if r.Bool() {
				s = &recorder{}
				m, e = root.GetDirectoryMsg(s)
			} else {
				m, e = root.GetDirectoryMsg(nil)
			}
			c.Check(e == nil, "request", "GetDirectoryMsg of the tree: %s", es(e))
		})
		es := request("the request for the tree", m)
		if len(es) != 1 || !isCmd(es[0]) {
			c.Note("tree", log)
			c.Fail("command", "the request for the tree is %s", show(es))
		}
		if s != nil {
			c.Check(root.HasListner(s), "listener", "the listener of the request for the tree is not registered")
			root.RemoveListener(s)
			c.Check(!root.HasListner(s), "listener", "the listener of the tree is still registered after its removal")
		}
		c.Count("tree", 1)
	}
	n := len(targets)
	for k := 0; k < 12 && n > 0; k++ {
		tg := rt.Pick(r, targets...)
		var s *recorder
		var ls embertree.Listener
		if r.Bool() {
			s = &recorder{}
			ls = s
		}
		var m *embertree.RootElement
		what := fmt.Sprintf("the nested request for %v", tg.path)
		nested := r.Bool()
		if nested {
			c.Try("GetDirectoryMsg", func() {
				var e errors.Error
				m, e = tg.l.GetDirectoryMsg(ls)
				c.Check(e == nil, "request", "%s: %s", what, es(e))
			})
			c.Count("nested", 1)
		} else {
			what = fmt.Sprintf("the qualified request for %v", tg.path)
			c.Try("GetQualifiedDirectoryMsg", func() { m = tg.l.GetQualifiedDirectoryMsg(ls) })
			c.Count("qualified", 1)
		}
		req := request(what, m)
		path, kinds := at(what, req)
		if !ref.SameOID(path, tg.path) {
			c.Note("tree", log)
			c.Fail("address", "%s addresses %v", what, path)
		}
		for i := range kinds {
			l := tg.up[len(tg.up)-len(kinds)+i]
			if want := kindOf(l); kinds[i] != want {
				c.Note("tree", log)
				c.Fail("kind", "%s names %v %d as %v", what, want, l.Number, kinds[i])
			}
		}
		if !nested && (len(kinds) != 1 || !req[0].Qual) {
			c.Note("tree", log)
			c.Fail("form", "%s is not qualified: %s", what, show(req))
		}
		for _, l := range tg.up[:len(tg.up)-1] {
			if embertree.IsQualifiedTag(l.GetTag()) {
				c.Count("below_qualified", 1)
				break
			}
		}
		if s != nil {
			// A registered listener hears of new contents, or of an update.
			if ec := tg.l.GetContent(); ec != nil {
				tg.l.SetContents(ec)
			} else {
				tg.l.Update(embertree.NewElement(tg.l.GetTag(), tg.l.Number, nil))
			}
			calls := s.take()
			if len(calls) != 1 || calls[0].node != tg.l || calls[0].err != "" {
				c.Note("tree", log)
				c.Fail("listener", "%s: its listener is not registered once (calls %v)", what, calls)
			}
			tg.l.RemoveListener(s)
			c.Count("listeners", 1)
		}
		for i, x := range targets {
			if len(targets) > 200 && k != 11 && i%16 != k {
				continue
			}
			if p := x.l.GetPath(); !ref.SameOID(p, x.path) {
				c.Note("tree", log)
				c.Fail("altered", "%s changed the path of %v to %v", what, x.path, p)
			}
		}
	}
	if d := ref.DiffAll(snapshot(c, root), before, false); d != "" {
		c.Note("tree", log)
		c.Fail("altered", "the requests altered the tree (after/before): %s", d)
	}
	c.Sample("%s", log)
}

package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C26", Quick: 50000, Deep: 1000000, Run: c26,
		Rule: "a case assigns and copies values between several holders at random (also holders within parameter contents and decoded ones) and compares type, set-ness and every getter with a model after each step; non-trivial: a distinct sequence",
		Min:  map[string]int64{"assignments": 20000, "copies": 15000, "refused_copies": 10000, "getters": 500000}})
	rt.Register(&rt.Check{ID: "C29", Quick: 8000, Deep: 160000, Run: c29,
		Rule: "a case runs a random sequence of level changes and messages of every severity on console and null loggers with standard output captured, and compares what is printed; all pairs of level and severity occur; non-trivial: a distinct sequence",
		Min:  map[string]int64{"printed": 5000, "silent": 5000, "null": 3000, "levels_set": 3000}})
	rt.Register(&rt.Check{ID: "C30", Quick: 50000, Deep: 1000000, Run: c30,
		Rule: "a case renders trees, elements, contents and values with any attributes set (also texts of any octets, decoded trees) and looks for numbers, paths, identifiers, descriptions, values and the other attributes of parameters in the text, and compares renderings that must differ; non-trivial: a distinct rendering",
		Min:  map[string]int64{"renderings": 30000, "elements": 20000, "tokens": 20000, "values": 3000, "hostile_texts": 1500, "attributes": 50000, "told_apart": 10000}})
	rt.Register(&rt.Check{ID: "C31", Quick: 50000, Deep: 1000000, Run: c31,
		Rule: "a case runs random operations on a writer (writes, partial reads), a stack, frame lists and errors and compares every result with a list model; non-trivial: a distinct sequence",
		Min:  map[string]int64{"writes": 50000, "reads": 8000, "stack_ops": 50000, "long_stacks": 100, "long_writers": 100, "long_traces": 200, "frames_read": 4000, "refused": 20000, "updates": 10000}})
}

// ---- values

type holder struct {
	cp  *embertree.ContentParameter
	set bool
	v   ref.Val
}

var typeOf = map[byte]embertree.ValueType{'s': embertree.ValueTypeString, 'b': embertree.ValueTypeBool, 'i': embertree.ValueTypeInteger,
	'o': embertree.ValueTypeBuffer, 'r': embertree.ValueTypeReal, 'd': embertree.ValueTypeOID}

func (h *holder) check(c *rt.Ctx, ops string) {
	fail := func(format string, a ...interface{}) {
		c.Note("ops", ops)
		c.Fail("value", format, a...)
	}
	if h.cp.IsSet() != h.set {
		fail("IsSet is %v instead of %v", h.cp.IsSet(), h.set)
	}
	want := embertree.ValueTypeUnset
	if h.set {
		want = typeOf[h.v.T]
	}
	if h.cp.GetType() != want {
		fail("type is %s instead of %s", embertree.ValueType2String(h.cp.GetType()), embertree.ValueType2String(want))
	}
	s, es1 := h.cp.GetString()
	b, es2 := h.cp.GetBool()
	i, es3 := h.cp.GetInt()
	o, es4 := h.cp.GetBuffer()
	f, es5 := h.cp.GetReal()
	d, es6 := h.cp.GetRelativeOID()
	for _, g := range []struct {
		t    byte
		e    errors.Error
		same func() bool
	}{
		{'s', es1, func() bool { return s == h.v.S }},
		{'b', es2, func() bool { return b == h.v.B }},
		{'i', es3, func() bool { return i == h.v.I }},
		{'o', es4, func() bool { return string(o) == h.v.S }},
		{'r', es5, func() bool { return ref.SameReal(f, h.v.R) }},
		{'d', es6, func() bool { return ref.SameOID(d, h.v.OID) }},
	} {
		c.Count("getters", 1)
		if h.set && h.v.T == g.t {
			if g.e != nil {
				fail("the getter of type %c of %v fails: %s", g.t, h.v, es(g.e))
			}
			if !g.same() {
				fail("the getter of type %c returns another value than %v", g.t, h.v)
			}
		} else if g.e == nil {
			fail("the getter of type %c of a holder set %v to %v does not fail", g.t, h.set, h.v)
		}
	}
}

func c26(c *rt.Ctx) {
	r := c.R
	g := gen(r)
	g.MaxText = 40
	var hs []*holder
	pc := embertree.NewParameterContents().(*embertree.ParameterContents)
	for n := r.Range(2, 5); n > 0; n-- {
		hs = append(hs, &holder{cp: embertree.NewContentParameter()})
	}
	hs = append(hs, &holder{cp: pc.GetValueObject()}, &holder{cp: pc.GetMinimumObject()}, &holder{cp: pc.GetMaximumObject()}, &holder{cp: pc.GetDefaultObject()})
	ops := ""
	for _, h := range hs {
		h.check(c, "none")
	}
	for n := r.Range(5, 40); n > 0; n-- {
		i := r.Intn(len(hs))
		h := hs[i]
		switch r.Intn(7) {
		case 0, 1, 2:
			v := g.Val()
			ops += fmt.Sprintf("%d=%v\n", i, v)
			c.Try("assigning", func() { assign(h.cp, v) })
			h.set, h.v = true, v
			c.Count("assignments", 1)
		case 3: // a fresh one
			h.cp, h.set = embertree.NewContentParameter(), false
			ops += fmt.Sprintf("%d fresh\n", i)
		case 4: // a decoded one
			v := g.Val()
			b := ref.Cons(ref.Ctx(2), v.V()).Bytes()
			cp, e := embertree.DecodeValue(asn1.NewASNReader(b), 2)
			c.Check(e == nil && cp != nil, "decode", "%x does not decode: %s", b, es(e))
			h.cp, h.set, h.v = cp, true, v
			ops += fmt.Sprintf("%d decoded %v\n", i, v)
		default:
			j := r.Intn(len(hs))
			o := hs[j]
			var e errors.Error
			ops += fmt.Sprintf("%d copied from %d\n", i, j)
			c.Try("Set", func() { e = h.cp.Set(o.cp) })
			c.Count("copies", 1)
			switch {
			case !h.set || o.set && h.v.T == o.v.T:
				if e != nil {
					c.Note("ops", ops)
					c.Fail("copy", "copying is refused: %s", es(e))
				}
				if o.set {
					h.set, h.v = true, o.v
				}
			default:
				c.Count("refused_copies", 1)
				if e == nil {
					c.Note("ops", ops)
					c.Fail("copy", "copying a value of type %s into one of type %c is not refused", embertree.ValueType2String(o.cp.GetType()), h.v.T)
				}
			}
			o.check(c, ops)
		}
		h.check(c, ops)
	}
	for _, h := range hs {
		h.check(c, ops)
	}
	c.Distinct(ops)
	c.Sample("%s", ops)
}

func assign(cp *embertree.ContentParameter, v ref.Val) {
	switch v.T {
	case 's':
		cp.SetString(v.S)
	case 'b':
		cp.SetBool(v.B)
	case 'i':
		cp.SetInt(v.I)
	case 'o':
		cp.SetBuffer([]byte(v.S))
	case 'r':
		cp.SetReal(v.R)
	case 'd':
		cp.SetRelativeOID(append([]int32{}, v.OID...))
	}
}

// ---- logging

// capture runs f and returns what it printed on standard output and error.
func capture(f func()) string {
	out, err := os.Stdout, os.Stderr
	r, w, e := os.Pipe()
	if e != nil {
		panic(e)
	}
	os.Stdout, os.Stderr = w, w
	done := make(chan string)
	go func() {
		var b bytes.Buffer
		b.ReadFrom(r)
		done <- b.String()
	}()
	defer func() { os.Stdout, os.Stderr = out, err; r.Close() }()
	func() {
		defer w.Close()
		f()
	}()
	return <-done
}

func c29(c *rt.Ctx) {
	r := c.R
	levels := []logger.LogLevel{logger.ErrorLevel, logger.WarnLevel, logger.InfoLevel, logger.DebugLevel}
	names := []string{"error", "warn", "info", "debug"}
	// rank: the more severe, the lower
	cur := r.Intn(4)
	type lg struct {
		l    logger.Logger
		cur  int
		null bool
	}
	ls := []*lg{{logger.NewConsoleLogger(levels[cur]), cur, false}, {logger.NewConsoleLogger(levels[3-cur]), 3 - cur, false}, {logger.NewNullLogger(), -1, true}}
	ops := ""
	for n := 40; n > 0; n-- {
		x := rt.Pick(r, ls...)
		if r.P(1, 4) {
			x.cur = r.Intn(4)
			x.l.SetLogLevel(levels[x.cur])
			ops += fmt.Sprintf("level %s\n", names[x.cur])
			c.Count("levels_set", 1)
		}
		if x.cur >= 0 && x.l.GetLogLevel() != levels[x.cur] {
			c.Note("ops", ops)
			c.Fail("level", "the level is %d after setting %s (%d)", x.l.GetLogLevel(), names[x.cur], levels[x.cur])
		}
		sev := r.Intn(4)
		token := fmt.Sprintf("token%dx%d", c.I, n)
		arg := r.Intn(1000)
		var text string
		ln := false
		c.Try("logging", func() {
			text = capture(func() {
				switch sev {
				case 0:
					x.l.Error(errors.New("%s %d", token, arg))
				case 1:
					x.l.Warn("%s %d\n", token, arg)
				case 2:
					x.l.Info("%s %d\n", token, arg)
				case 3:
					if ln = r.Bool(); ln {
						x.l.Debugln(token, arg)
					} else {
						x.l.Debug("%s %d\n", token, arg)
					}
				}
			})
		})
		ops += fmt.Sprintf("%s at level %d null %v -> %q\n", names[sev], x.cur, x.null, text)
		// error outranks warning outranks info outranks debug
		want := !x.null && sev <= x.cur
		has := strings.Count(text, fmt.Sprintf("%s %d", token, arg))
		if want && has != 1 {
			c.Note("ops", ops)
			c.Fail("missing", "a message of severity %s at level %s is printed %d times: %q", names[sev], names[x.cur], has, text)
		}
		if !want && text != "" {
			c.Note("ops", ops)
			c.Fail("unwanted", "a message of severity %s prints %q (null logger: %v, level %d)", names[sev], text, x.null, x.cur)
		}
		switch {
		case x.null:
			c.Count("null", 1)
		case want:
			c.Count("printed", 1)
		default:
			c.Count("silent", 1)
		}
	}
	c.Distinct(ops)
	c.Sample("%s", ops)
}

// ---- rendering

// hasNumber looks for n as a number of its own.
func hasNumber(s, n string) bool {
	digit := func(i int) bool {
		return i >= 0 && i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.' && i+1 < len(s) && i > 0 && s[i-1] >= '0' && s[i-1] <= '9' && s[i+1] >= '0' && s[i+1] <= '9')
	}
	for at := 0; ; {
		i := strings.Index(s[at:], n)
		if i < 0 {
			return false
		}
		i += at
		if !digit(i-1) && !digit(i+len(n)) {
			return true
		}
		at = i + 1
	}
}

// renderings of a value that show it.
func renderings(v ref.Val) []string {
	switch v.T {
	case 's':
		return []string{v.S, strconv.Quote(v.S)}
	case 'b':
		return []string{fmt.Sprint(v.B), fmt.Sprint(v.B)[:1], strings.ToUpper(fmt.Sprint(v.B)), strings.Title(fmt.Sprint(v.B)), map[bool]string{true: "1", false: "0"}[v.B]}
	case 'i':
		return []string{fmt.Sprint(v.I)}
	case 'r':
		return []string{fmt.Sprintf("%f", v.R), fmt.Sprintf("%g", v.R), fmt.Sprintf("%e", v.R), fmt.Sprintf("%G", v.R), strconv.FormatFloat(v.R, 'f', -1, 64)}
	case 'd':
		return []string{ref.PathString(v.OID), fmt.Sprint(v.OID), strings.Join(strings.Fields(strings.Trim(fmt.Sprint(v.OID), "[]")), "/")}
	case 'o':
		b := []byte(v.S)
		short, spaced := "", ""
		for _, x := range b {
			short += fmt.Sprintf("%x", x)
			spaced += fmt.Sprintf("%02x ", x)
		}
		return []string{short, strings.ToUpper(short), hex.EncodeToString(b), strings.ToUpper(hex.EncodeToString(b)), strings.TrimSpace(spaced), fmt.Sprint(b), fmt.Sprintf("%#v", b), v.S, strconv.Quote(v.S)}
	}
	return nil
}

func contains(s string, any []string) bool {
	for _, x := range any {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// plainVal is a value whose rendering is unlikely to appear by chance.
func plainVal(r *rt.Rand, g *ref.Gen) ref.Val {
	if r.P(1, 25) {
		// long or extreme
		switch r.Intn(4) {
		case 0:
			return ref.Val{T: 's', S: "v" + strings.Repeat(g.Text()+"w", r.Range(50, 400))}
		case 1:
			return ref.Val{T: 'i', I: rt.Pick(r, int64(math.MaxInt64), math.MinInt64, math.MinInt32, math.MaxInt32, 1<<32+12345678)}
		case 2:
			oid := make([]int32, r.Range(20, 300))
			for i := range oid {
				oid[i] = int32(r.Intn(math.MaxInt32))
			}
			return ref.Val{T: 'd', OID: oid}
		}
		return ref.Val{T: 'o', S: string(r.Bytes(r.Range(100, 2000)))}
	}
	switch r.Intn(7) {
	case 0:
		return ref.Val{T: 's', S: "v" + g.Text() + g.Text()}
	case 1:
		return ref.Val{T: 'b', B: r.Bool()}
	case 2:
		return ref.Val{T: 'i', I: int64(r.Range(100000000, 999999999)) * int64(rt.Pick(r, 1, -1, 1000))}
	case 3:
		return ref.Val{T: 'r', R: float64(r.Range(1000000, 9999999)) / 64}
	case 4:
		return ref.Val{T: 'r', R: -float64(r.Range(1000000, 9999999))}
	case 5:
		return ref.Val{T: 'd', OID: []int32{int32(r.Range(10000, 99999)), int32(r.Range(10000, 99999)), int32(r.Intn(10))}}
	}
	return ref.Val{T: 'o', S: string(r.Bytes(r.Range(5, 12)))}
}

// paramShown are the fields of a parameter that its rendering shows, besides
// identifier, description and value.
var paramShown = map[int]string{3: "minimum", 4: "maximum", 12: "default", 5: "access", 6: "format", 7: "enumeration", 8: "factor", 11: "step", 13: "type", 14: "stream identifier"}

func c30(c *rt.Ctx) {
	r := c.R
	render := func(what string, x interface{ ToString() string }) string {
		var s string
		c.Try("rendering "+what, func() { s = x.ToString() })
		c.Count("renderings", 1)
		return s
	}
	if c.I%4 == 0 {
		// totality: any octets, any combination
		g := gen(r)
		g.API = r.Bool()
		els := g.Roots(3)
		var root *embertree.RootElement
		if g.API {
			root = ref.RootToLib(els)
		} else {
			root = embertree.NewTree()
			if msg := decodeRoot(root, ref.Message(els)); msg != "" {
				c.Fail("decode", "%s", msg)
			}
		}
		c.Note("tree", show(els))
		render("a tree", root)
		var walk func(l *embertree.Element)
		walk = func(l *embertree.Element) {
			render("an element", l)
			if ec := l.GetContent(); ec != nil {
				render("contents", ec)
			}
			c.Count("hostile_texts", 1)
			for _, k := range l.Children {
				walk(k)
			}
		}
		for _, l := range root.RootElementCollection {
			walk(l)
		}
		for i := 0; i < 5; i++ {
			v := g.Val()
			cp := embertree.NewContentParameter()
			assign(cp, v)
			s := render("a value", cp)
			if v.T == 's' && !contains(s, renderings(v)) {
				c.Fail("value", "value %v is rendered as %q", v, s)
			}
			if v.T == 'i' && !contains(s, renderings(v)) {
				c.Fail("value", "value %v is rendered as %q", v, s)
			}
		}
		render("an unset value", embertree.NewContentParameter())
		for _, n := range []func() embertree.EmberContents{embertree.NewNodeContents, embertree.NewParameterContents, embertree.NewFunctionContents, embertree.NewDefaultMatrixContents, embertree.NewCommandContents} {
			render("empty contents", n())
		}
		render("an element without creator", embertree.NewElement(embertree.NodeApplication, r.Intn(10), nil))
		render("an empty tree", embertree.NewTree())
		cc := embertree.NewCommandContents().(*embertree.CommandContents)
		cc.SetFieldFlags(embertree.FieldFlags(r.Range(-5, 10)))
		render("command contents", cc)
		for i := 0; i < 10; i++ {
			_ = embertree.ValueType2String(embertree.ValueType(r.Intn(256)))
			_ = embertree.Path2String(g.OID(0))
		}
		p := g.OID(1)
		if s := embertree.Path2String(p); s != ref.PathString(p) {
			c.Fail("path", "path %v is rendered as %q", p, s)
		}
		return
	}
	g := gen(r)
	g.API, g.Plain = true, true
	g.NoCmd = r.Bool()
	g.Budget = r.Range(1, 25)
	els := g.Roots(3)
	if len(els) == 0 {
		els = []*ref.Elem{g.Elem(1)}
	}
	// numbers and values that are easy to recognise
	next := int32(10000 + r.Intn(1000))
	var fix func(e *ref.Elem)
	fix = func(e *ref.Elem) {
		next += int32(r.Range(1, 9))
		if e.Kind != ref.Command || r.Bool() {
			e.Number = int(next)
			if !e.Qual && r.P(1, 40) {
				e.Number = -e.Number
			}
			if e.Qual {
				e.Path[len(e.Path)-1] = next
			}
		}
		if e.C != nil {
			for _, n := range []int{0, 1} {
				if v, ok := e.C.Fields[n]; ok {
					v.S = fmt.Sprintf("%s%dq", v.S, next)
					e.C.Fields[n] = v
				}
			}
			if _, ok := e.C.Fields[2]; ok && e.Kind == ref.Param {
				e.C.Fields[2] = plainVal(r, g)
			}
			for n := range paramShown {
				v, ok := e.C.Fields[n]
				if !ok || e.Kind != ref.Param {
					continue
				}
				switch n {
				case 3, 4, 12:
					v = plainVal(r, g)
				case 8, 11, 14:
					v.I = int64(r.Range(100000000, 999999999)) * int64(rt.Pick(r, 1, -1, 1000))
				default:
					v.S = fmt.Sprintf("%s%dn%d", v.S, next, n)
				}
				e.C.Fields[n] = v
			}
		}
		seen := map[int]bool{}
		kids := e.Kids[:0]
		for _, k := range e.Kids {
			fix(k)
			if !seen[k.Number] {
				seen[k.Number] = true
				kids = append(kids, k)
			}
		}
		e.Kids = kids
	}
	top := map[int]bool{}
	keep := els[:0]
	for _, e := range els {
		fix(e)
		if !top[e.Number] {
			top[e.Number] = true
			keep = append(keep, e)
		}
	}
	els = keep
	root := ref.RootToLib(els)
	c.Note("tree", show(els))
	all := render("the tree", root)
	var check func(text string, l *embertree.Element, e *ref.Elem, at []int32, what string)
	check = func(text string, l *embertree.Element, e *ref.Elem, at []int32, what string) {
		p := append(append([]int32{}, at...), int32(e.Number))
		if e.Qual {
			p = e.Path
		}
		c.Count("elements", 1)
		miss := func(name string, val interface{}) {
			c.Note("text", text)
			c.Fail("missing", "the rendering of %s lacks the %s of %v %v: %v", what, name, e.Kind, p, val)
		}
		if !hasNumber(text, fmt.Sprint(e.Number)) {
			miss("number", e.Number)
		}
		if !hasNumber(text, ref.PathString(p)) {
			miss("path", ref.PathString(p))
		}
		if e.C != nil {
			texts := []string{text}
			if ec := l.GetContent(); ec != nil {
				texts = append(texts, render("contents", ec))
			}
			for _, t := range texts {
				for n, name := range []string{"identifier", "description"} {
					if v, ok := e.C.Fields[n]; ok && e.Kind != ref.Command {
						c.Count("tokens", 1)
						if !strings.Contains(t, v.S) {
							miss(name, v.S)
						}
					}
				}
				if v, ok := e.C.Fields[2]; ok && e.Kind == ref.Param {
					c.Count("values", 1)
					if !contains(t, renderings(v)) {
						miss("value", v)
					}
				}
				for n, name := range paramShown {
					if v, ok := e.C.Fields[n]; ok && e.Kind == ref.Param {
						c.Count("attributes", 1)
						if !contains(t, renderings(v)) {
							miss(name, v)
						}
					}
				}
			}
		}
		for _, k := range e.Kids {
			check(text, l.Children[k.Number], k, p, what)
		}
	}
	for _, e := range els {
		l := root.GetElementByNumber(e.Number)
		check(all, l, e, nil, "the tree")
		check(render("an element", l), l, e, nil, "an element")
		if r.P(1, 3) && len(e.Kids) > 0 {
			k := rt.Pick(r, e.Kids...)
			kl := l.Children[k.Number]
			p := []int32{int32(e.Number)}
			if e.Qual {
				p = e.Path
			}
			check(render("a child", kl), kl, k, p, "a child")
		}
	}
	// flags, types and modes can be told from one another
	for k := 0; k < 4; k++ {
		kind := rt.Pick(r, ref.Node, ref.Param, ref.Matrix)
		one := g.Contents(kind)
		other := one.Clone()
		var n int
		switch kind {
		case ref.Node:
			n = r.Range(2, 3)
		case ref.Param:
			n = 9
		case ref.Matrix:
			n = r.Range(2, 3)
		}
		if kind == ref.Matrix {
			a := r.Intn(5 - n)
			b := (a + r.Range(1, 4-n)) % (5 - n)
			one.Fields[n], other.Fields[n] = ref.Val{T: 'i', I: int64(a)}, ref.Val{T: 'i', I: int64(b)}
		} else {
			one.Fields[n], other.Fields[n] = ref.Val{T: 'b', B: true}, ref.Val{T: 'b'}
			if r.P(1, 3) {
				delete(rt.Pick(r, one, other).Fields, n) // set or not
			}
		}
		a, b := render("contents", ref.ContentsToLib(kind, one)), render("contents", ref.ContentsToLib(kind, other))
		c.Count("told_apart", 1)
		if a == b {
			c.Fail("same", "%v contents whose field %d is %v in one and %v in the other look the same: %s", kind, n, one.Fields[n], other.Fields[n], a)
		}
	}
	for i := 0; i < 5; i++ {
		v := plainVal(r, g)
		cp := embertree.NewContentParameter()
		assign(cp, v)
		if s := render("a value", cp); !contains(s, renderings(v)) {
			c.Fail("value", "value %v is rendered as %q", v, s)
		}
		c.Count("values", 1)
	}
	c.Distinct(all)
	c.Sample("%s", all)
}

// ---- writer, stack, frame list, errors

func c31(c *rt.Ctx) {
	r := c.R
	ops := ""
	note := func(format string, a ...interface{}) {
		if len(ops) < 10000 {
			ops += fmt.Sprintf(format, a...) + "\n"
		}
	}
	fail := func(key, format string, a ...interface{}) {
		c.Note("ops", ops)
		c.Fail(key, format, a...)
	}
	// writer
	w := asn1.NewASNWriter()
	var want []byte
	check := func() {
		if w.Len() != len(want) {
			fail("length", "the writer's length is %d instead of %d", w.Len(), len(want))
		}
	}
	check()
	many, big := r.Range(5, 40), 200
	if r.P(1, 100) {
		many = r.Range(300, 1500)
		c.Count("long_writers", 1)
	} else if r.P(1, 100) {
		big = 100000
	}
	for n := many; n > 0; n-- {
		var e errors.Error
		var add []byte
		c.Try("writing", func() {
			switch r.Intn(11) {
			case 0, 1:
				b := byte(r.U64())
				e, add = w.WriteByte(b), []byte{b}
			case 2:
				i := r.Int32()
				e, add = w.WriteInt(int(i)), ref.Int(int64(i)).Bytes()
			case 3:
				i := r.Int64()
				e, add = w.WriteInt64(i), ref.Int(i).Bytes()
			case 4:
				s := r.Text(300)
				e, add = w.WriteString(s), ref.Str(s).Bytes()
			case 5:
				s := r.Bytes(r.Intn(big))
				in := append([]byte{}, s...)
				e, add = w.WriteBuffer(in, 3), ref.Prim(3, s).Bytes()
				for i := range in {
					in[i] ^= 0xff // what was written stays
				}
			case 6:
				o := make([]int32, r.Intn(6))
				for i := range o {
					o[i] = r.Nat()
				}
				in := append([]int32{}, o...)
				e, add = w.WriteRelativeOID(in), ref.OID(o).Bytes()
				for i := range in {
					in[i] = -1
				}
			case 7:
				i := r.Int32()
				e, add = w.WriteEnum(int(i)), ref.Prim(10, ref.IntBytes(int64(i))).Bytes()
			case 8:
				e, add = w.WriteBoolean(false), []byte{1, 1, 0}
			default: // read a part
				sizes := []int{0, 1, 2, r.Intn(40), len(want), len(want) + 1, r.Intn(2000)}
				p := make([]byte, sizes[r.Intn(len(sizes))])
				for i := range p {
					p[i] = 0xa5
				}
				k, re := w.Read(p)
				note("read %d -> %d", len(p), k)
				c.Count("reads", 1)
				if k < 0 || k > len(p) || k > len(want) || k == 0 && len(p) > 0 && len(want) > 0 {
					fail("read", "reading up to %d of %d octets returns %d (%s)", len(p), len(want), k, es(re))
				}
				if re != nil && len(want) > 0 {
					fail("read", "reading up to %d of %d octets fails: %s", len(p), len(want), es(re))
				}
				if !bytes.Equal(p[:k], want[:k]) {
					fail("octets", "the writer hands out %x instead of %x", p[:k], want[:k])
				}
				for _, x := range p[k:] {
					if x != 0xa5 {
						fail("octets", "the writer wrote beyond the %d octets it handed out", k)
					}
				}
				want = want[k:]
				check()
				return
			}
		})
		if e != nil {
			fail("write", "writing fails: %s", es(e))
		}
		if add != nil {
			note("write %x", add)
			want = append(want[:len(want):len(want)], add...)
			c.Count("writes", 1)
		}
		check()
	}
	if got := ref.Drain(w); !bytes.Equal(got, want) {
		fail("octets", "the writer hands out %x at the end instead of %x", got, want)
	}
	if w.Len() != 0 {
		fail("length", "the length of an empty writer is %d", w.Len())
	}
	// after being emptied it starts anew
	w.WriteByte(0x42)
	if got := ref.Drain(w); !bytes.Equal(got, []byte{0x42}) {
		fail("octets", "the emptied writer hands out %x", got)
	}
	// nested sequences come out in one piece, in any portions
	v := shapedPrims(r, 4)
	w = asn1.NewASNWriter()
	emit(c, w, v)
	total := w.Len()
	var out []byte
	for w.Len() > 0 {
		p := make([]byte, r.Range(1, 30))
		left := w.Len()
		k, _ := w.Read(p)
		if k <= 0 || w.Len() != left-k {
			fail("length", "reading %d of %d octets leaves %d", k, left, w.Len())
		}
		out = append(out, p[:k]...)
	}
	if len(out) != total {
		fail("length", "a length of %d yields %d octets", total, len(out))
	}
	back, err := ref.ParseAll(out)
	if err != nil {
		fail("octets", "sequences are written as %x: %v", out, err)
	}
	if a, b := plain(back), plain(v); !bytes.Equal(a, b) {
		fail("octets", "sequences are written as %x instead of %x", a, b)
	}

	// stack
	st := asn1.NewStack()
	var model []interface{}
	steps := r.Range(5, 60)
	if r.P(1, 20) {
		steps = r.Range(60, 3000)
		c.Count("long_stacks", 1)
	}
	turn := steps / 2
	for n := steps; n > 0; n-- {
		c.Count("stack_ops", 1)
		if pushes := r.P(3, 5); steps > 60 && (n > turn) && r.P(4, 5) || pushes {
			var x interface{} = r.Intn(1000)
			switch r.Intn(8) {
			case 0:
				x = nil
			case 1:
				x = g0(r)
			case 2:
				x = &holder{}
			}
			st.Push(x)
			model = append(model, x)
			note("push %v", x)
		} else {
			var x, y interface{}
			c.Try("Pop", func() { x = st.Pop() })
			if len(model) > 0 {
				y, model = model[len(model)-1], model[:len(model)-1]
			}
			note("pop %v", x)
			if x != y {
				fail("stack", "the stack returns %v instead of %v", x, y)
			}
		}
	}
	for len(model) > 0 {
		x := st.Pop()
		if x != model[len(model)-1] {
			fail("stack", "the stack returns %v instead of %v", x, model[len(model)-1])
		}
		model = model[:len(model)-1]
	}
	for i := 0; i < 3; i++ {
		if x := st.Pop(); x != nil {
			fail("stack", "the empty stack returns %v", x)
		}
	}

	// frame list
	p := payload(r)
	if len(p) > 20000 && r.P(4, 5) {
		p = p[:20000]
	}
	list := socket.EncodeMessage(p)
	if r.P(1, 6) {
		list = socket.NewS101FrameList(r.Intn(5))
		if list.Size() != 0 {
			fail("frames", "a new frame list has size %d", list.Size())
		}
	}
	n := list.Size()
	frames := make([][]byte, n)
	for k := 0; k < 12; k++ {
		i := r.Range(-2, n+2)
		if r.P(1, 10) {
			i = rt.Pick(r, -1<<31, 1<<31-1, math.MinInt64, math.MaxInt64, n, -1)
		}
		var b []byte
		var e errors.Error
		c.Try("reading a frame", func() {
			if r.Bool() {
				b, e = list.GetBytesAt(i)
			} else {
				var buf *bytes.Buffer
				buf, e = list.GetAt(i)
				if e == nil {
					if r.Bool() {
						b = append([]byte{}, buf.Bytes()...)
						for j := range buf.Bytes() {
							buf.Bytes()[j] = 0x11
						}
						buf.WriteByte(0x33)
					} else { // drain it
						b = make([]byte, buf.Len())
						buf.Read(b)
					}
				}
			}
		})
		note("frame %d of %d: %d octets", i, n, len(b))
		if i < 0 || i >= n {
			c.Count("refused", 1)
			if e == nil {
				fail("frames", "position %d of a list of %d frames is not refused", i, n)
			}
		} else {
			c.Count("frames_read", 1)
			if e != nil {
				fail("frames", "position %d of a list of %d frames is refused: %s", i, n, es(e))
			}
			if frames[i] == nil {
				frames[i] = append([]byte{}, b...)
				if f := ref.ParseFrame(b); f.Err != "" {
					fail("frames", "frame %d is invalid: %s", i, f.Err)
				}
			} else if !bytes.Equal(frames[i], b) {
				fail("frames", "frame %d is %x now, %x before", i, b, frames[i])
			}
			for j := range b {
				b[j] = 0x22
			}
		}
		if list.Size() != n {
			fail("frames", "the size changed from %d to %d", n, list.Size())
		}
	}

	// errors
	msg := g0(r)
	if r.P(1, 4) {
		msg += []string{"%", "%d", "%!", "100%s", "\n", "%%", "\x00", "é"}[r.Intn(8)] + g0(r)
	}
	var e errors.Error
	if r.Bool() {
		e = errors.New("%s %d", msg, 5)
		msg += " 5"
	} else {
		cause := fmt.Errorf("%s", msg)
		if r.Bool() {
			cause = &causeError{msg}
		}
		e = errors.NewError(cause)
		if e != nil && e.Message != cause {
			fail("error", "the error %q made from a Go error does not carry that error", msg)
		}
	}
	if e == nil || e.Message == nil || e.Message.Error() != msg {
		fail("error", "the error's message is %v instead of %q", es(e), msg)
	}
	var trace []string
	trace = append(trace, e.Stack...)
	updates := r.Intn(6)
	if r.P(1, 50) {
		updates = r.Range(20, 300)
		c.Count("long_traces", 1)
	}
	for k := updates; k > 0; k-- {
		m0 := e.Message
		u := errors.Update(e)
		c.Count("updates", 1)
		if u == nil || u.Message != m0 || u.Message.Error() != msg {
			fail("error", "after an update the error is %v instead of %q", es(u), msg)
		}
		if len(u.Stack) != len(trace)+1 {
			fail("trace", "after an update the trace has %d entries instead of %d", len(u.Stack), len(trace)+1)
		}
		for i := range trace {
			if u.Stack[i] != trace[i] {
				fail("trace", "an update changed entry %d of the trace", i)
			}
		}
		if !strings.Contains(u.Stack[len(u.Stack)-1], ".go") {
			fail("trace", "an update adds the entry %q", u.Stack[len(u.Stack)-1])
		}
		trace = append([]string{}, u.Stack...)
		e = u
	}
	if errors.Update(nil) != nil || errors.NewError(nil) != nil {
		fail("error", "no error becomes an error")
	}
	c.Distinct(ops)
	c.Sample("%s", ops)
}

type causeError struct{ text string }

func (e *causeError) Error() string { return e.text }

func g0(r *rt.Rand) string {
	b := make([]byte, r.Range(1, 12))
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return string(b)
}

// shapedPrims is a random value of sequences and primitives the writer has.
func shapedPrims(r *rt.Rand, depth int) *ref.V {
	v := ref.Cons(rt.Pick[byte](r, 0x30, 0x31, ref.Ctx(0), ref.Ctx(5), ref.App(3)))
	for n := r.Intn(5); n > 0; n-- {
		if depth > 0 && r.Bool() {
			v.Add(shapedPrims(r, depth-1))
		} else if r.Bool() {
			v.Add(ref.Int(r.Int64()))
		} else {
			v.Add(ref.Str(r.Text(200)))
		}
	}
	return v
}

func emit(c *rt.Ctx, w *asn1.ASNWriter, v *ref.V) {
	e := w.StartSequence(v.Tag)
	c.Check(e == nil, "write", "StartSequence: %s", es(e))
	for _, k := range v.Kids {
		switch {
		case k.Cons():
			emit(c, w, k)
		case k.Tag == 2:
			i, _ := ref.IntOf(k.Val)
			e = w.WriteInt64(i)
		default:
			e = w.WriteString(string(k.Val))
		}
		c.Check(e == nil, "write", "writing: %s", es(e))
	}
	e = w.EndSequence()
	c.Check(e == nil, "write", "EndSequence: %s", es(e))
}

// plain is a form-independent encoding.
func plain(v *ref.V) []byte {
	x := *v
	x.SetForms(nil, 1)
	return x.Bytes()
}

var _ = sort.Ints
var _ = time.Now

package ref

import (
	"math"

	"verif/harness/rt"
)

// Gen makes random elements.
type Gen struct {
	R *rt.Rand
	// API restricts attributes to those that can be set through the API.
	API      bool
	MaxText  int
	MaxKids  int
	MaxDepth int
	Budget   int // elements
	NoQual   bool
	NoCmd    bool
	// Negative allows negative element numbers.
	Negative bool
	// Plain restricts texts to letters, so that they can be found in a rendering.
	Plain bool
	// Big names what comes in large numbers, Left times: text, oid, tuples,
	// labels, signals, conns, kids, roots or args.
	Big  string
	Left int
}

// Bigs are the things that can come in large numbers.
var Bigs = []string{"text", "oid", "tuples", "labels", "signals", "conns", "kids", "roots", "args"}

var bigSizes = []int{16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1023, 1024, 1025,
	2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000}

// Many is n, or a large number at most max.
func (g *Gen) Many(what string, n, max int) int {
	if g.Big != what || g.Left <= 0 || g.R.P(1, 4) {
		return n
	}
	g.Left--
	if g.R.Bool() && max > 300 {
		max = 300
	}
	for {
		if m := bigSizes[g.R.Intn(len(bigSizes))]; m <= max {
			return m
		}
	}
}

func (g *Gen) Text() string {
	if g.Plain {
		b := make([]byte, g.R.Range(3, 10))
		for i := range b {
			b[i] = byte('a' + g.R.Intn(26))
		}
		return string(b)
	}
	if g.Big == "text" && g.Left > 0 && g.R.P(1, 3) {
		g.Left--
		return string(g.R.Bytes(rt.Pick(g.R, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 32767, 32768, 65535, 65536, 65537, g.R.Range(300, 100000))))
	}
	if g.R.P(1, 60) {
		return string(g.R.Bytes(rt.Pick(g.R, 127, 128, 255, 256, 300)))
	}
	max := g.MaxText
	if max == 0 {
		max = 16
	}
	return g.R.Text(max)
}

func (g *Gen) OID(min int) []int32 {
	n := g.Many("oid", g.R.Range(min, 5), 2500)
	o := make([]int32, n)
	for i := range o {
		o[i] = g.R.Nat()
	}
	return o
}

// Val is a value of any type.
func (g *Gen) Val() Val {
	switch g.R.Intn(7) {
	case 0:
		return Val{T: 's', S: g.Text()}
	case 1:
		return Val{T: 'b', B: g.R.Bool()}
	case 2, 3:
		return Val{T: 'i', I: g.R.Int64()}
	case 4:
		return Val{T: 'o', S: string(g.R.Bytes(g.R.Intn(20)))}
	case 5:
		return Val{T: 'r', R: g.R.Float()}
	}
	return Val{T: 'd', OID: g.OID(0)}
}

func (g *Gen) str() Val   { return Val{T: 's', S: g.Text()} }
func (g *Gen) bool() Val  { return Val{T: 'b', B: g.R.Bool()} }
func (g *Gen) int() Val   { return Val{T: 'i', I: g.R.Int64()} }
func (g *Gen) int32() Val { return Val{T: 'i', I: int64(g.R.Int32())} }

func (g *Gen) tuples() []Tuple {
	var ts []Tuple
	for i := g.Many("tuples", g.R.Intn(4), 2100); i > 0; i-- {
		ts = append(ts, Tuple{g.R.Intn(8), g.Text()})
	}
	return ts
}

// Contents has any subset of the attributes.
func (g *Gen) Contents(k Kind) *Contents {
	c := &Contents{Fields: map[int]Val{}}
	density := rt.Pick(g.R, 0, 1, 2, 4, 4)
	p := func() bool { return g.R.Intn(4) < density }
	set := func(n int, f func() Val) {
		if p() {
			c.Fields[n] = f()
		}
	}
	template := func() {
		if p() && g.R.Bool() {
			c.Template = g.OID(1)
		}
	}
	switch k {
	case Node:
		set(0, g.str)
		set(1, g.str)
		set(2, g.bool)
		set(3, g.bool)
		set(4, g.str)
		template()
	case Param:
		for _, n := range []int{0, 1, 6, 7, 10} {
			set(n, g.str)
		}
		for _, n := range []int{2, 3, 4, 12} {
			set(n, g.Val)
		}
		for _, n := range []int{8, 11, 14} {
			set(n, g.int)
		}
		set(9, g.bool)
		if g.API {
			set(5, g.str)
			set(13, g.str)
		} else {
			set(5, func() Val { return Val{T: 'i', I: int64(g.R.Intn(4))} })
			set(13, func() Val { return Val{T: 'i', I: int64(g.R.Intn(8))} })
			set(17, g.str)
			template()
		}
	case Func:
		set(0, g.str)
		set(1, g.str)
		if p() {
			c.Args = g.tuples()
		}
		if p() {
			c.Res = g.tuples()
		}
		if !g.API {
			template()
		}
	case Matrix:
		set(0, g.str)
		set(1, g.str)
		c.Fields[2] = Val{T: 'i', I: int64(g.R.Intn(3))}
		c.Fields[3] = Val{T: 'i', I: int64(g.R.Intn(2))}
		for _, n := range []int{4, 5, 6, 7, 9} {
			set(n, g.int32)
		}
		set(8, func() Val {
			if !g.API && g.R.Bool() {
				return g.int32()
			}
			return Val{T: 'd', OID: g.OID(0)}
		})
		set(11, g.str)
		if !g.API {
			if g.R.P(1, 3) {
				delete(c.Fields, 2)
			}
			if g.R.P(1, 3) {
				delete(c.Fields, 3)
			}
			if p() {
				for i := g.Many("labels", g.R.Intn(4), 2100); i > 0; i-- {
					c.Labels = append(c.Labels, Label{g.OID(0), g.Text()})
				}
			}
			template()
		}
	case Command:
		c.FieldFlags = g.R.Range(-2, 5)
		if g.R.P(1, 10) {
			c.FieldFlags = int(g.R.Int32())
		}
	}
	return c
}

func (g *Gen) signals() []int32 {
	var s []int32
	if g.R.P(1, 3) {
		return s
	}
	for i := g.Many("signals", g.R.Intn(6), 5000); i > 0; i-- {
		s = append(s, g.R.Int32())
	}
	return s
}

func (g *Gen) Conns() []Conn {
	var cs []Conn
	seen := map[int32]bool{}
	if g.R.P(1, 3) {
		return nil
	}
	for i := g.Many("conns", g.R.Intn(5), 2100); i > 0; i-- {
		c := Conn{Target: g.R.Int32(), Op: g.R.Intn(3), Disp: g.R.Intn(4)}
		if seen[c.Target] {
			continue
		}
		seen[c.Target] = true
		if g.R.P(3, 4) {
			c.Sources = g.OID(0)
		}
		cs = append(cs, c)
	}
	return cs
}

func (g *Gen) number() int {
	switch g.R.Intn(8) {
	case 0:
		return int(rt.Pick(g.R, 0, 127, 128, 255, 256, 16383, 16384, 65535, math.MaxInt32, 1<<21))
	case 1:
		return int(g.R.Nat())
	case 2:
		if g.Negative {
			return int(g.R.Int32())
		}
	}
	return g.R.Intn(40)
}

func (g *Gen) kind() Kind {
	if g.Left > 0 && g.R.Bool() {
		switch g.Big {
		case "tuples":
			return Func
		case "labels", "signals", "conns":
			return Matrix
		}
	}
	switch g.R.Intn(10) {
	case 0, 1, 2, 3:
		return Node
	case 4, 5, 6:
		return Param
	case 7:
		return Func
	case 8:
		return Matrix
	}
	if g.NoCmd {
		return Node
	}
	return Command
}

// Elem makes an element at depth (1 at the top).
func (g *Gen) Elem(depth int) *Elem {
	e := &Elem{Kind: g.kind()}
	if depth < g.MaxDepth && g.R.P(2, 3) {
		e.Kind = Node
	}
	return g.Fill(e, depth)
}

// Fill makes everything but the kind.
func (g *Gen) Fill(e *Elem, depth int) *Elem {
	g.Budget--
	e.Number = g.number()
	if e.Kind != Command && !g.NoQual && g.R.P(1, 5) {
		e.Qual = true
		e.Path = g.OID(1)
		e.Number = int(e.Path[len(e.Path)-1])
	}
	if g.R.P(4, 5) || e.Kind == Command && g.API || e.Kind == Matrix && g.API {
		e.C = g.Contents(e.Kind)
	}
	if e.Kind == Matrix {
		e.Targets, e.Sources, e.Conns = g.signals(), g.signals(), g.Conns()
	}
	if e.Kind != Command && depth < g.MaxDepth {
		seen := map[int]bool{}
		n := g.R.Intn(g.MaxKids + 1)
		if e.Kind != Node && n > 1 && g.R.P(2, 3) {
			n = 0
		}
		for i := 0; i < n && g.Budget > 0; i++ {
			k := g.Elem(depth + 1)
			if seen[k.Number] {
				continue
			}
			seen[k.Number] = true
			e.Kids = append(e.Kids, k)
		}
	}
	if e.Kind == Command {
		return e
	}
	if m := g.Many("kids", 0, 5000); m > 0 {
		e.Kids = nil
		first, step := g.R.Intn(300), g.R.Range(1, 3)
		for _, i := range g.R.Perm(m) {
			k := &Elem{Kind: rt.Pick(g.R, Node, Param, Func), Number: first + i*step}
			if g.R.P(1, 3) {
				k.C = &Contents{Fields: map[int]Val{0: {T: 's', S: g.Text()}}}
			}
			e.Kids = append(e.Kids, k)
		}
	}
	return e
}

// Roots makes the top-level elements of a message.
func (g *Gen) Roots(max int) []*Elem {
	var es []*Elem
	seen := map[int]bool{}
	for i := g.Many("roots", g.R.Range(0, max), 1100); i > 0; i-- {
		e := g.Elem(1)
		if seen[e.Number] {
			continue
		}
		seen[e.Number] = true
		es = append(es, e)
	}
	return es
}

// Chain makes a tree of one branch, n deep.
func (g *Gen) Chain(n int, leaf Kind) *Elem {
	e := g.Fill(&Elem{Kind: leaf}, g.MaxDepth)
	for i := 1; i < n; i++ {
		p := &Elem{Kind: Node, Number: g.number(), Kids: []*Elem{e}}
		e = p
	}
	return e
}

// Large tells whether something in e comes in large numbers.
func (e *Elem) Large() bool {
	large := false
	e.Walk(nil, func(x *Elem, _ []int32) {
		if len(x.Kids) >= 16 || len(x.Targets) >= 16 || len(x.Sources) >= 16 || len(x.Conns) >= 16 || len(x.Path) >= 16 {
			large = true
		}
		for _, n := range x.Conns {
			large = large || len(n.Sources) >= 16
		}
		if x.C == nil {
			return
		}
		if len(x.C.Args) >= 16 || len(x.C.Res) >= 16 || len(x.C.Labels) >= 16 || len(x.C.Template) >= 16 {
			large = true
		}
		for _, v := range x.C.Fields {
			large = large || len(v.OID) >= 16 || len(v.S) > 400
		}
	})
	return large
}

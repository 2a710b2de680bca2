package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/harness/rt"
)

type Kind int

const (
	Node Kind = iota
	Param
	Func
	Matrix
	Command
)

var kindNames = []string{"node", "parameter", "function", "matrix", "command"}

func (k Kind) String() string { return kindNames[k] }

var tagOf = map[Kind][2]byte{ // unqualified, qualified
	Node: {App(3), App(10)}, Param: {App(1), App(9)}, Func: {App(19), App(20)}, Matrix: {App(13), App(17)}, Command: {App(2), 0}}

// Val is the value of one contents field.
type Val struct {
	T   byte // 's' string, 'b' boolean, 'i' integer, 'o' octets, 'r' real, 'd' identifier
	S   string
	B   bool
	I   int64
	R   float64
	OID []int32
}

func (v Val) String() string {
	switch v.T {
	case 's':
		return fmt.Sprintf("%q", v.S)
	case 'b':
		return fmt.Sprint(v.B)
	case 'i':
		return fmt.Sprint(v.I)
	case 'o':
		return fmt.Sprintf("x%x", v.S)
	case 'r':
		return fmt.Sprintf("%gr", v.R)
	case 'd':
		return fmt.Sprintf("oid%v", v.OID)
	}
	return "?"
}

func SameVal(a, b Val) bool {
	if a.T != b.T {
		return false
	}
	switch a.T {
	case 's', 'o':
		return a.S == b.S
	case 'b':
		return a.B == b.B
	case 'i':
		return a.I == b.I
	case 'r':
		return SameReal(a.R, b.R)
	case 'd':
		return SameOID(a.OID, b.OID)
	}
	return false
}

func (v Val) V() *V {
	switch v.T {
	case 's':
		return Str(v.S)
	case 'b':
		return Bool(v.B)
	case 'i':
		return Int(v.I)
	case 'o':
		return Prim(3, []byte(v.S))
	case 'r':
		return Prim(9, RealBytes(v.R))
	case 'd':
		return OID(v.OID)
	}
	panic("bad value")
}

func ValOf(v *V) (Val, error) {
	switch v.Tag {
	case 12:
		return Val{T: 's', S: string(v.Val)}, nil
	case 1:
		if len(v.Val) != 1 {
			return Val{}, fmt.Errorf("boolean of %d octets", len(v.Val))
		}
		return Val{T: 'b', B: v.Val[0] != 0}, nil
	case 2:
		i, err := IntOf(v.Val)
		return Val{T: 'i', I: i}, err
	case 3:
		return Val{T: 'o', S: string(v.Val)}, nil
	case 9:
		r, err := RealOfLib(v.Val)
		return Val{T: 'r', R: r}, err
	case 13:
		o, err := OIDOf(v.Val)
		return Val{T: 'd', OID: o}, err
	}
	return Val{}, fmt.Errorf("value of tag %#x", v.Tag)
}

type Tuple struct {
	Type int
	Name string
}
type Label struct {
	Path []int32
	Desc string
}
type Conn struct {
	Target   int32
	Sources  []int32
	Op, Disp int
}

type Contents struct {
	Fields     map[int]Val
	Args, Res  []Tuple
	Labels     []Label
	Template   []int32
	FieldFlags int // of a command
}

type Elem struct {
	Kind             Kind
	Qual             bool
	Number           int
	Path             []int32 // of qualified elements
	C                *Contents
	Kids             []*Elem
	Targets, Sources []int32
	Conns            []Conn
}

func (e *Elem) Kid(n int) *Elem {
	for _, k := range e.Kids {
		if k.Number == n {
			return k
		}
	}
	return nil
}

func (e *Elem) Walk(path []int32, f func(e *Elem, path []int32)) {
	p := append(append([]int32{}, path...), int32(e.Number))
	if e.Qual {
		p = append([]int32{}, e.Path...)
	}
	f(e, p)
	for _, k := range e.Kids {
		k.Walk(p, f)
	}
}

func (e *Elem) Count() int {
	n := 1
	for _, k := range e.Kids {
		n += k.Count()
	}
	return n
}

func (e *Elem) Depth() int {
	d := 0
	for _, k := range e.Kids {
		if x := k.Depth(); x > d {
			d = x
		}
	}
	return d + 1
}

// Clone copies deeply.
func (e *Elem) Clone() *Elem {
	c := *e
	c.Path = append([]int32(nil), e.Path...)
	c.C = e.C.Clone()
	c.Kids = nil
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	c.Targets = append([]int32(nil), e.Targets...)
	c.Sources = append([]int32(nil), e.Sources...)
	c.Conns = append([]Conn(nil), e.Conns...)
	return &c
}

func (c *Contents) Clone() *Contents {
	if c == nil {
		return nil
	}
	n := *c
	n.Fields = map[int]Val{}
	for k, v := range c.Fields {
		n.Fields[k] = v
	}
	return &n
}

func PathString(p []int32) string {
	var s []byte
	for i, x := range p {
		if i > 0 {
			s = append(s, '.')
		}
		s = strconv.AppendInt(s, int64(x), 10)
	}
	return string(s)
}

// templateField and allowed fields per kind.
var templateField = map[Kind]byte{Node: 5, Param: 18, Func: 4, Matrix: 12}

// Enc chooses among the equivalent encodings of a Glow message.
type Enc struct {
	R       *rt.Rand // nil: the plain order
	Shuffle bool     // order of contents fields and optional fields
}

func (x *Enc) mix(vs []*V) []*V {
	if x.R == nil || !x.Shuffle {
		return vs
	}
	out := make([]*V, len(vs))
	for i, j := range x.R.Perm(len(vs)) {
		out[i] = vs[j]
	}
	return out
}

func (x *Enc) tuples(ts []Tuple) *V {
	seq := Cons(0x30)
	for _, t := range ts {
		seq.Add(Cons(Ctx(0), Cons(App(21), Cons(Ctx(0), Int(int64(t.Type))), Cons(Ctx(1), Str(t.Name)))))
	}
	return seq
}

func (x *Enc) Contents(k Kind, c *Contents) *V {
	if k == Command {
		return Int(int64(c.FieldFlags))
	}
	var fs []*V
	// A list may be carried without anything in it.
	empty := func() bool { return x.R != nil && x.R.P(1, 6) }
	keys := []int{}
	for n := range c.Fields {
		keys = append(keys, n)
	}
	sort.Ints(keys)
	for _, n := range keys {
		fs = append(fs, Cons(Ctx(byte(n)), c.Fields[n].V()))
	}
	if k == Func {
		if len(c.Args) > 0 || empty() {
			fs = append(fs, Cons(Ctx(2), x.tuples(c.Args)))
		}
		if len(c.Res) > 0 || empty() {
			fs = append(fs, Cons(Ctx(3), x.tuples(c.Res)))
		}
	}
	if k == Matrix && (len(c.Labels) > 0 || empty()) {
		seq := Cons(0x30)
		for _, l := range c.Labels {
			seq.Add(Cons(Ctx(0), Cons(App(18), Cons(Ctx(0), OID(l.Path)), Cons(Ctx(1), Str(l.Desc)))))
		}
		fs = append(fs, Cons(Ctx(10), seq))
	}
	if c.Template != nil {
		fs = append(fs, Cons(Ctx(templateField[k]), OID(c.Template)))
	}
	return Cons(0x31, x.mix(fs)...)
}

func (x *Enc) Conn(c Conn) *V {
	v := Cons(App(16), Cons(Ctx(0), Int(int64(c.Target))))
	var opt []*V
	if len(c.Sources) > 0 || x.R != nil && x.R.P(1, 4) {
		opt = append(opt, Cons(Ctx(1), OID(c.Sources)))
	}
	if c.Op != 0 || x.R == nil || x.R.Bool() {
		opt = append(opt, Cons(Ctx(2), Int(int64(c.Op))))
	}
	if c.Disp != 0 || x.R == nil || x.R.Bool() {
		opt = append(opt, Cons(Ctx(3), Int(int64(c.Disp))))
	}
	return v.Add(opt...)
}

func signals(ctx, app byte, ns []int32) *V {
	seq := Cons(0x30)
	for _, n := range ns {
		seq.Add(Cons(Ctx(0), Cons(App(app), Cons(Ctx(0), Int(int64(n))))))
	}
	return Cons(Ctx(ctx), seq)
}

func (x *Enc) Elem(e *Elem) *V {
	tag := tagOf[e.Kind][0]
	id := Int(int64(e.Number))
	if e.Qual {
		tag = tagOf[e.Kind][1]
		id = OID(e.Path)
	}
	v := Cons(tag, Cons(Ctx(0), id))
	if e.C != nil {
		v.Add(Cons(Ctx(1), x.Contents(e.Kind, e.C)))
	}
	extra := func() bool { return x.R != nil && x.R.P(1, 5) }
	if len(e.Kids) > 0 || e.Kind != Command && extra() {
		v.Add(Cons(Ctx(2), x.Collection(4, e.Kids)))
	}
	if e.Kind == Matrix {
		if len(e.Targets) > 0 || extra() {
			v.Add(signals(3, 14, e.Targets))
		}
		if len(e.Sources) > 0 || extra() {
			v.Add(signals(4, 15, e.Sources))
		}
		if len(e.Conns) > 0 || extra() {
			seq := Cons(0x30)
			for _, c := range e.Conns {
				seq.Add(Cons(Ctx(0), x.Conn(c)))
			}
			v.Add(Cons(Ctx(5), seq))
		}
	}
	return v
}

func (x *Enc) Collection(app byte, es []*Elem) *V {
	col := Cons(App(app))
	for _, e := range es {
		col.Add(Cons(Ctx(0), x.Elem(e)))
	}
	return col
}

// Root is a whole message.
func (x *Enc) Root(es []*Elem) *V {
	return Cons(App(0), x.Collection(11, es))
}

// Message is a whole message in the plain form, of indefinite lengths.
func Message(es []*Elem) []byte { return (&Enc{}).Root(es).Bytes() }

// ---- strict reader

func one(v *V, tag byte, what string) (*V, error) {
	if v.Tag != tag {
		return nil, fmt.Errorf("%s: tag %#x instead of %#x", what, v.Tag, tag)
	}
	if len(v.Kids) != 1 {
		return nil, fmt.Errorf("%s: %d values instead of one", what, len(v.Kids))
	}
	return v.Kids[0], nil
}

func prim(v *V, tag byte, what string) error {
	if v.Tag != tag {
		return fmt.Errorf("%s: tag %#x instead of %#x", what, v.Tag, tag)
	}
	return nil
}

func intIn(v *V, ctx byte, what string) (int64, error) {
	k, err := one(v, Ctx(ctx), what)
	if err != nil {
		return 0, err
	}
	if err := prim(k, 2, what); err != nil {
		return 0, err
	}
	return IntOf(k.Val)
}

func oidIn(v *V, ctx byte, what string) ([]int32, error) {
	k, err := one(v, Ctx(ctx), what)
	if err != nil {
		return nil, err
	}
	if err := prim(k, 13, what); err != nil {
		return nil, err
	}
	return OIDOf(k.Val)
}

func strIn(v *V, ctx byte, what string) (string, error) {
	k, err := one(v, Ctx(ctx), what)
	if err != nil {
		return "", err
	}
	if err := prim(k, 12, what); err != nil {
		return "", err
	}
	return string(k.Val), nil
}

func tuplesOf(v *V) ([]Tuple, error) {
	if v.Tag != 0x30 {
		return nil, fmt.Errorf("tuples: tag %#x", v.Tag)
	}
	var out []Tuple
	for _, k := range v.Kids {
		t, err := one(k, Ctx(0), "tuple")
		if err != nil {
			return nil, err
		}
		if t.Tag != App(21) || len(t.Kids) != 2 {
			return nil, fmt.Errorf("tuple description: tag %#x, %d fields", t.Tag, len(t.Kids))
		}
		ty, err := intIn(t.Kids[0], 0, "tuple type")
		if err != nil {
			return nil, err
		}
		name, err := strIn(t.Kids[1], 1, "tuple name")
		if err != nil {
			return nil, err
		}
		out = append(out, Tuple{int(ty), name})
	}
	return out, nil
}

func LabelOf(l *V) (Label, error) {
	if l.Tag != App(18) || len(l.Kids) != 2 {
		return Label{}, fmt.Errorf("label: tag %#x, %d fields", l.Tag, len(l.Kids))
	}
	p, err := oidIn(l.Kids[0], 0, "label path")
	if err != nil {
		return Label{}, err
	}
	d, err := strIn(l.Kids[1], 1, "label description")
	return Label{p, d}, err
}

// ContentsOf reads what is inside [1].
func ContentsOf(k Kind, v *V) (*Contents, error) {
	c := &Contents{Fields: map[int]Val{}}
	if k == Command {
		if err := prim(v, 2, "field flags"); err != nil {
			return nil, err
		}
		i, err := IntOf(v.Val)
		c.FieldFlags = int(i)
		return c, err
	}
	if v.Tag != 0x31 {
		return nil, fmt.Errorf("contents: tag %#x", v.Tag)
	}
	seen := map[byte]bool{}
	for _, f := range v.Kids {
		if f.Tag&0xe0 != 0xa0 {
			return nil, fmt.Errorf("contents field of tag %#x", f.Tag)
		}
		n := f.Tag & 0x1f
		if seen[n] {
			return nil, fmt.Errorf("contents field %d twice", n)
		}
		seen[n] = true
		if len(f.Kids) != 1 {
			return nil, fmt.Errorf("contents field %d holds %d values", n, len(f.Kids))
		}
		x := f.Kids[0]
		var err error
		switch {
		case n == templateField[k]:
			c.Template, err = oidIn(f, n, "template reference")
		case k == Func && n == 2:
			c.Args, err = tuplesOf(x)
		case k == Func && n == 3:
			c.Res, err = tuplesOf(x)
		case k == Matrix && n == 10:
			if x.Tag != 0x30 {
				return nil, fmt.Errorf("labels: tag %#x", x.Tag)
			}
			for _, lv := range x.Kids {
				l, err := one(lv, Ctx(0), "label")
				if err != nil {
					return nil, err
				}
				lab, err := LabelOf(l)
				if err != nil {
					return nil, err
				}
				c.Labels = append(c.Labels, lab)
			}
		case int(n) <= maxField[k]:
			c.Fields[int(n)], err = ValOf(x)
		default:
			err = fmt.Errorf("%v contents have no field %d", k, n)
		}
		if err != nil {
			return nil, err
		}
	}
	return c, nil
}

var maxField = map[Kind]int{Node: 4, Param: 17, Func: 1, Matrix: 11}

func SignalOf(v *V, app byte) (int32, error) {
	k, err := one(v, App(app), "signal")
	if err != nil {
		return 0, err
	}
	n, err := intIn(k, 0, "signal number")
	return int32(n), err
}

func signalsOf(v *V, app byte) ([]int32, error) {
	if len(v.Kids) != 1 || v.Kids[0].Tag != 0x30 {
		return nil, fmt.Errorf("signals are not one sequence")
	}
	var out []int32
	for _, k := range v.Kids[0].Kids {
		s, err := one(k, Ctx(0), "signal")
		if err != nil {
			return nil, err
		}
		n, err := SignalOf(s, app)
		if err != nil {
			return nil, err
		}
		out = append(out, n)
	}
	return out, nil
}

func ConnOf(v *V) (Conn, error) {
	var c Conn
	if v.Tag != App(16) || len(v.Kids) == 0 {
		return c, fmt.Errorf("connection: tag %#x, %d fields", v.Tag, len(v.Kids))
	}
	last := -1
	for i, f := range v.Kids {
		n := int(f.Tag) - 0xa0
		if n <= last || n > 3 || i == 0 && n != 0 {
			return c, fmt.Errorf("connection field of tag %#x at position %d", f.Tag, i)
		}
		last = n
		var err error
		var x int64
		switch n {
		case 0:
			x, err = intIn(f, 0, "connection target")
			c.Target = int32(x)
		case 1:
			c.Sources, err = oidIn(f, 1, "connection sources")
		case 2:
			x, err = intIn(f, 2, "connection operation")
			c.Op = int(x)
		case 3:
			x, err = intIn(f, 3, "connection disposition")
			c.Disp = int(x)
		}
		if err != nil {
			return c, err
		}
	}
	return c, nil
}

func ElemOf(v *V) (*Elem, error) {
	e := &Elem{}
	found := false
	for k, t := range tagOf {
		if v.Tag == t[0] || v.Tag == t[1] {
			e.Kind, e.Qual, found = k, v.Tag != t[0], true
		}
	}
	if !found {
		return nil, fmt.Errorf("element of tag %#x", v.Tag)
	}
	last := -1
	for i, f := range v.Kids {
		n := int(f.Tag) - 0xa0
		if n <= last || n > 5 || i == 0 && n != 0 {
			return nil, fmt.Errorf("%v field of tag %#x at position %d", e.Kind, f.Tag, i)
		}
		last = n
		var err error
		switch n {
		case 0:
			if e.Qual {
				e.Path, err = oidIn(f, 0, "path")
				if err == nil && len(e.Path) == 0 {
					err = fmt.Errorf("empty path")
				}
				if err == nil {
					e.Number = int(e.Path[len(e.Path)-1])
				}
			} else {
				var x int64
				x, err = intIn(f, 0, "number")
				e.Number = int(x)
			}
		case 1:
			if len(f.Kids) != 1 {
				return nil, fmt.Errorf("%d contents", len(f.Kids))
			}
			e.C, err = ContentsOf(e.Kind, f.Kids[0])
		case 2:
			var col *V
			col, err = one(f, Ctx(2), "children")
			if err == nil {
				e.Kids, err = collectionOf(col, 4)
			}
		case 3, 4, 5:
			if e.Kind != Matrix {
				return nil, fmt.Errorf("%v with field %d", e.Kind, n)
			}
			switch n {
			case 3:
				e.Targets, err = signalsOf(f, 14)
			case 4:
				e.Sources, err = signalsOf(f, 15)
			case 5:
				if len(f.Kids) != 1 || f.Kids[0].Tag != 0x30 {
					return nil, fmt.Errorf("connections are not one sequence")
				}
				for _, k := range f.Kids[0].Kids {
					cv, err := one(k, Ctx(0), "connection")
					if err != nil {
						return nil, err
					}
					c, err := ConnOf(cv)
					if err != nil {
						return nil, err
					}
					e.Conns = append(e.Conns, c)
				}
			}
		}
		if err != nil {
			return nil, err
		}
	}
	if last < 0 {
		return nil, fmt.Errorf("%v without number", e.Kind)
	}
	return e, nil
}

func collectionOf(v *V, app byte) ([]*Elem, error) {
	if v.Tag != App(app) {
		return nil, fmt.Errorf("collection of tag %#x instead of %#x", v.Tag, App(app))
	}
	var out []*Elem
	for _, k := range v.Kids {
		x, err := one(k, Ctx(0), "collection member")
		if err != nil {
			return nil, err
		}
		e, err := ElemOf(x)
		if err != nil {
			return nil, err
		}
		out = append(out, e)
	}
	return out, nil
}

// ParseRoot reads a whole message.
func ParseRoot(b []byte) ([]*Elem, error) {
	v, err := ParseAll(b)
	if err != nil {
		return nil, err
	}
	if v.Tag != App(0) {
		return nil, fmt.Errorf("message of tag %#x", v.Tag)
	}
	if len(v.Kids) == 0 {
		return nil, nil
	}
	if len(v.Kids) != 1 {
		return nil, fmt.Errorf("message of %d collections", len(v.Kids))
	}
	return collectionOf(v.Kids[0], 11)
}

// ParseElem reads one element.
func ParseElem(b []byte) (*Elem, error) {
	v, err := ParseAll(b)
	if err != nil {
		return nil, err
	}
	return ElemOf(v)
}

// ---- comparison

// Diff tells how two elements differ, "" if they do not. Children are compared
// by number, whatever their order. With loose, whether an element was named by
// number or by path makes no difference.
func Diff(a, b *Elem, loose bool) string { return diff(a, b, nil, loose) }

func diff(a, b *Elem, at []int32, loose bool) string {
	here := append(append([]int32{}, at...), int32(a.Number))
	where := PathString(here)
	if a.Kind != b.Kind {
		return fmt.Sprintf("%s: kind %v / %v", where, a.Kind, b.Kind)
	}
	if a.Number != b.Number {
		return fmt.Sprintf("%s: number %d / %d", where, a.Number, b.Number)
	}
	if !loose {
		if a.Qual != b.Qual {
			return fmt.Sprintf("%s: qualified %v / %v", where, a.Qual, b.Qual)
		}
		if !SameOID(a.Path, b.Path) {
			return fmt.Sprintf("%s: path %v / %v", where, a.Path, b.Path)
		}
	}
	if d := DiffContents(a.C, b.C); d != "" {
		return where + ": " + d
	}
	if !SameOID(a.Targets, b.Targets) {
		return fmt.Sprintf("%s: targets %v / %v", where, a.Targets, b.Targets)
	}
	if !SameOID(a.Sources, b.Sources) {
		return fmt.Sprintf("%s: sources %v / %v", where, a.Sources, b.Sources)
	}
	if d := DiffConns(a.Conns, b.Conns); d != "" {
		return where + ": " + d
	}
	return diffKids(a.Kids, b.Kids, here, loose)
}

func DiffConns(a, b []Conn) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d / %d connections", len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Target != y.Target || x.Op != y.Op || x.Disp != y.Disp || !SameOID(x.Sources, y.Sources) {
			return fmt.Sprintf("connection %d %+v / %+v", i, x, y)
		}
	}
	return ""
}

func DiffAll(a, b []*Elem, loose bool) string { return diffKids(a, b, nil, loose) }

func diffKids(a, b []*Elem, at []int32, loose bool) string {
	where := PathString(at)
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %d / %d children", where, len(a), len(b))
	}
	index := map[int]*Elem{}
	for _, k := range b {
		if index[k.Number] != nil {
			return fmt.Sprintf("%s: child %d twice", where, k.Number)
		}
		index[k.Number] = k
	}
	for _, k := range a {
		o := index[k.Number]
		if o == nil {
			return fmt.Sprintf("%s: no child %d", where, k.Number)
		}
		if d := diff(k, o, at, loose); d != "" {
			return d
		}
	}
	return ""
}

func DiffContents(a, b *Contents) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("contents present: %v / %v", a != nil, b != nil)
	}
	if a == nil {
		return ""
	}
	if a.FieldFlags != b.FieldFlags {
		return fmt.Sprintf("field flags %d / %d", a.FieldFlags, b.FieldFlags)
	}
	for n, v := range a.Fields {
		o, ok := b.Fields[n]
		if !ok {
			return fmt.Sprintf("field %d is %v / not set", n, v)
		}
		if !SameVal(v, o) {
			return fmt.Sprintf("field %d is %v / %v", n, v, o)
		}
	}
	for n, v := range b.Fields {
		if _, ok := a.Fields[n]; !ok {
			return fmt.Sprintf("field %d not set / %v", n, v)
		}
	}
	if d := diffTuples(a.Args, b.Args); d != "" {
		return "arguments: " + d
	}
	if d := diffTuples(a.Res, b.Res); d != "" {
		return "results: " + d
	}
	if len(a.Labels) != len(b.Labels) {
		return fmt.Sprintf("%d / %d labels", len(a.Labels), len(b.Labels))
	}
	for i := range a.Labels {
		if !SameOID(a.Labels[i].Path, b.Labels[i].Path) || a.Labels[i].Desc != b.Labels[i].Desc {
			return fmt.Sprintf("label %d: %+v / %+v", i, a.Labels[i], b.Labels[i])
		}
	}
	if !SameOID(a.Template, b.Template) {
		return fmt.Sprintf("template reference %v / %v", a.Template, b.Template)
	}
	return ""
}

func diffTuples(a, b []Tuple) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d / %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%d: %+v / %+v", i, a[i], b[i])
		}
	}
	return ""
}

func (e *Elem) String() string {
	var b strings.Builder
	e.str(&b)
	return b.String()
}

func (e *Elem) str(b *strings.Builder) {
	id := fmt.Sprint(e.Number)
	if e.Qual {
		id = "/" + PathString(e.Path)
	}
	fmt.Fprintf(b, "%v %s", e.Kind, id)
	if e.C != nil {
		fmt.Fprintf(b, " %v", e.C.Fields)
	}
	if e.Kind == Matrix {
		fmt.Fprintf(b, " t%v s%v c%v", e.Targets, e.Sources, e.Conns)
	}
	if len(e.Kids) > 0 {
		b.WriteString(" {")
		for i, k := range e.Kids {
			if i > 0 {
				b.WriteString("; ")
			}
			k.str(b)
		}
		b.WriteString("}")
	}
}

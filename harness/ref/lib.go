package ref

import (
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
)

// Err turns a library error into text, "" if there is none.
func Err(e errors.Error) string {
	if e == nil {
		return ""
	}
	return fmt.Sprint(e.Message)
}

// Drain takes all octets out of a writer.
func Drain(w *asn1.ASNWriter) []byte {
	b := make([]byte, w.Len())
	if len(b) == 0 {
		return b
	}
	n, _ := w.Read(b)
	return b[:n]
}

func toContentParameter(cp *embertree.ContentParameter, v Val) {
	switch v.T {
	case 's':
		cp.SetString(v.S)
	case 'b':
		cp.SetBool(v.B)
	case 'i':
		cp.SetInt(v.I)
	case 'o':
		cp.SetBuffer([]byte(v.S))
	case 'r':
		cp.SetReal(v.R)
	case 'd':
		cp.SetRelativeOID(append(asn1.RelativeOID{}, v.OID...))
	}
}

// ToValue makes a library value.
func ToValue(v Val) *embertree.ContentParameter {
	cp := embertree.NewContentParameter()
	toContentParameter(cp, v)
	return cp
}

// FromValue reads a library value through its getters.
func FromValue(cp *embertree.ContentParameter) (Val, bool, error) {
	if !cp.IsSet() {
		if cp.GetType() != embertree.ValueTypeUnset {
			return Val{}, false, fmt.Errorf("unset value of type %d", cp.GetType())
		}
		return Val{}, false, nil
	}
	var v Val
	var e errors.Error
	switch cp.GetType() {
	case embertree.ValueTypeString:
		v.T = 's'
		v.S, e = cp.GetString()
	case embertree.ValueTypeBool:
		v.T = 'b'
		v.B, e = cp.GetBool()
	case embertree.ValueTypeInteger:
		v.T = 'i'
		v.I, e = cp.GetInt()
	case embertree.ValueTypeBuffer:
		var b []byte
		v.T = 'o'
		b, e = cp.GetBuffer()
		v.S = string(b)
	case embertree.ValueTypeReal:
		v.T = 'r'
		v.R, e = cp.GetReal()
	case embertree.ValueTypeOID:
		v.T = 'd'
		var o asn1.RelativeOID
		o, e = cp.GetRelativeOID()
		v.OID = append([]int32{}, o...)
	default:
		return v, true, fmt.Errorf("set value of type %d", cp.GetType())
	}
	if e != nil {
		return v, true, fmt.Errorf("getter of its own type: %s", Err(e))
	}
	return v, true, nil
}

func tuplesToLib(ts []Tuple) []*embertree.TupleDescription {
	var out []*embertree.TupleDescription
	for _, t := range ts {
		out = append(out, embertree.NewArgument(embertree.ParameterType(t.Type), t.Name))
	}
	return out
}

func tuplesFromLib(ts []*embertree.TupleDescription) []Tuple {
	var out []Tuple
	for _, t := range ts {
		out = append(out, Tuple{int(t.Type), t.Name})
	}
	return out
}

// ContentsToLib builds contents through the API; c has only attributes the API
// can set.
func ContentsToLib(k Kind, c *Contents) embertree.EmberContents {
	f := c.Fields
	switch k {
	case Node:
		n := embertree.NewNodeContents().(*embertree.NodeContents)
		if v, ok := f[0]; ok {
			n.SetIdentifier(v.S)
		}
		if v, ok := f[1]; ok {
			n.SetDescription(v.S)
		}
		if v, ok := f[2]; ok {
			n.SetIsRoot(v.B)
		}
		if v, ok := f[3]; ok {
			n.SetIsOnline(v.B)
		}
		if v, ok := f[4]; ok {
			n.SetSchemaIdentifiers(v.S)
		}
		if c.Template != nil {
			n.SetTemplateReference(append(asn1.RelativeOID{}, c.Template...))
		}
		return n
	case Param:
		p := embertree.NewParameterContents().(*embertree.ParameterContents)
		for n, v := range f {
			switch n {
			case 0:
				p.SetIdentifier(v.S)
			case 1:
				p.SetDescription(v.S)
			case 2:
				toContentParameter(p.GetValueObject(), v)
			case 3:
				toContentParameter(p.GetMinimumObject(), v)
			case 4:
				toContentParameter(p.GetMaximumObject(), v)
			case 5:
				p.SetAccess(v.S)
			case 6:
				p.SetFormat(v.S)
			case 7:
				p.SetEnumeration(v.S)
			case 8:
				p.SetFactor(v.I)
			case 9:
				p.SetOnline(v.B)
			case 10:
				p.SetFormula(v.S)
			case 11:
				p.SetStep(v.I)
			case 12:
				toContentParameter(p.GetDefaultObject(), v)
			case 13:
				p.SetType(v.S)
			case 14:
				p.SetStreanIdentifier(v.I)
			default:
				panic("field not in the API")
			}
		}
		return p
	case Func:
		fc := embertree.NewFunctionContents().(*embertree.FunctionContents)
		if v, ok := f[0]; ok {
			fc.SetIdentifier(v.S)
		}
		if v, ok := f[1]; ok {
			fc.SetDescription(v.S)
		}
		if len(c.Args) > 0 {
			fc.SetArguments(tuplesToLib(c.Args))
		}
		if len(c.Res) > 0 {
			fc.SetResult(tuplesToLib(c.Res))
		}
		return fc
	case Matrix:
		m, err := embertree.NewMatrixContent(embertree.MatrixType(f[2].I), embertree.MatrixMode(f[3].I))
		if err != nil {
			panic("NewMatrixContent refused a defined type and mode")
		}
		for n, v := range f {
			switch n {
			case 0:
				m.SetIdentifier(v.S)
			case 1:
				m.SetDescription(v.S)
			case 2, 3:
			case 4:
				m.SetTargetCount(int(v.I))
			case 5:
				m.SetSourceCount(int(v.I))
			case 6:
				m.SetMaxTotalConnects(int(v.I))
			case 7:
				m.SetMaxConnectsPerTarget(int(v.I))
			case 8:
				m.SetParameterLocation(append(asn1.RelativeOID{}, v.OID...))
			case 9:
				m.SetGainParameterNumber(int(v.I))
			case 11:
				m.SetSchemaIdentifier(v.S)
			default:
				panic("field not in the API")
			}
		}
		return m
	}
	panic("kind without contents")
}

func TargetsToLib(ns []int32) []embertree.Signal {
	var s []embertree.Signal
	for _, n := range ns {
		s = append(s, embertree.NewTarget(n))
	}
	return s
}

func SourcesToLib(ns []int32) []embertree.Signal {
	var s []embertree.Signal
	for _, n := range ns {
		s = append(s, embertree.NewSource(n))
	}
	return s
}

func ConnToLib(c Conn) *embertree.Connection {
	l := &embertree.Connection{Target: c.Target, Sources: append([]int32(nil), c.Sources...)}
	if e := l.SetOperation(c.Op); e != nil {
		panic("SetOperation refused a defined operation")
	}
	if e := l.SetDisposition(c.Disp); e != nil {
		panic("SetDisposition refused a defined disposition")
	}
	return l
}

func ConnFromLib(c *embertree.Connection) Conn {
	return Conn{Target: c.Target, Sources: append([]int32(nil), c.Sources...), Op: int(c.GetOperation()), Disp: int(c.GetDisposition())}
}

// ToLib builds an element through the API.
func ToLib(e *Elem) *embertree.Element {
	var l *embertree.Element
	path := asn1.RelativeOID(append([]int32{}, e.Path...))
	switch e.Kind {
	case Node:
		if e.Qual {
			l = embertree.NewQualifiedNode(path)
		} else {
			l = embertree.NewNode(e.Number)
		}
	case Param:
		if e.Qual {
			l = embertree.NewQualifiedParameter(path)
		} else {
			l = embertree.NewParameter(e.Number)
		}
	case Func:
		if e.Qual {
			l = embertree.NewQualifiedElement(embertree.QualifiedFunctionApplication, path, embertree.NewFunctionContents)
		} else {
			l = embertree.NewFunction(e.Number)
		}
	case Matrix:
		ty, mo := embertree.MatrixType(e.C.Fields[2].I), embertree.MatrixMode(e.C.Fields[3].I)
		if e.Qual {
			l = embertree.NewQualifiedMatrix(path, ty, mo)
		} else {
			l, _ = embertree.NewMatrix(e.Number, ty, mo)
		}
	case Command:
		l = embertree.NewCommand(e.Number)
		l.GetContent().(*embertree.CommandContents).SetFieldFlags(embertree.FieldFlags(e.C.FieldFlags))
	}
	if l == nil {
		panic(fmt.Sprintf("the constructor refused %v", e))
	}
	if e.C != nil && e.Kind != Command {
		l.SetContents(ContentsToLib(e.Kind, e.C))
	}
	if e.Kind == Matrix {
		l.SetTargets(TargetsToLib(e.Targets))
		l.SetSources(SourcesToLib(e.Sources))
		var cs []*embertree.Connection
		for _, c := range e.Conns {
			cs = append(cs, ConnToLib(c))
		}
		l.SetConnections(cs)
	}
	for _, k := range e.Kids {
		l.AddChild(ToLib(k))
	}
	return l
}

// RootToLib builds a tree through the API.
func RootToLib(es []*Elem) *embertree.RootElement {
	root := embertree.NewTree()
	for _, e := range es {
		root.AddElement(ToLib(e))
	}
	return root
}

// signalsFromLib reads signals, which must all be of the kind wanted.
func signalsFromLib(s []embertree.Signal, target bool) ([]int32, error) {
	var out []int32
	for _, x := range s {
		switch y := x.(type) {
		case *embertree.Target:
			if !target {
				return nil, fmt.Errorf("target among the sources")
			}
			out = append(out, y.Number)
		case *embertree.Source:
			if target {
				return nil, fmt.Errorf("source among the targets")
			}
			out = append(out, y.Number)
		default:
			return nil, fmt.Errorf("signal of type %T", x)
		}
	}
	return out, nil
}

// ContentsFromLib reads contents: those attributes that have getters through
// them, and all of them through the encoder and the strict reader; the two
// must agree.
func ContentsFromLib(k Kind, ec embertree.EmberContents) (*Contents, error) {
	w := asn1.NewASNWriter()
	if e := ec.Encode(w); e != nil {
		return nil, fmt.Errorf("contents do not encode: %s", Err(e))
	}
	raw := Drain(w)
	v, err := ParseAll(raw)
	if err != nil {
		return nil, fmt.Errorf("encoded contents: %v (%x)", err, raw)
	}
	c, err := ContentsOf(k, v)
	if err != nil {
		return nil, fmt.Errorf("encoded contents: %v (%x)", err, raw)
	}
	g, err := gettersOf(k, ec)
	if err != nil {
		return nil, err
	}
	for n, get := range g.fields {
		want, ok := c.Fields[n]
		got, gerr := get()
		if ok != (gerr == nil) {
			// An attribute of another type than the getter's is an error too.
			if ok && g.typed[n] != 0 && want.T != g.typed[n] {
				continue
			}
			return nil, fmt.Errorf("field %d: getter says set %v, encoding says %v", n, gerr == nil, ok)
		}
		if ok && !SameVal(got, want) {
			return nil, fmt.Errorf("field %d: getter says %v, encoding says %v", n, got, want)
		}
	}
	if g.hasTemplate && !SameOID(g.template, c.Template) {
		return nil, fmt.Errorf("template reference: getter says %v, encoding says %v", g.template, c.Template)
	}
	if k == Func {
		if d := diffTuples(g.args, c.Args); d != "" {
			return nil, fmt.Errorf("arguments, getter and encoding: %s", d)
		}
		if d := diffTuples(g.res, c.Res); d != "" {
			return nil, fmt.Errorf("results, getter and encoding: %s", d)
		}
	}
	if k == Command && g.flags != c.FieldFlags {
		return nil, fmt.Errorf("field flags: getter says %d, encoding says %d", g.flags, c.FieldFlags)
	}
	return c, nil
}

type getters struct {
	fields      map[int]func() (Val, errors.Error)
	typed       map[int]byte
	hasTemplate bool
	template    []int32
	args, res   []Tuple
	flags       int
}

func gettersOf(k Kind, ec embertree.EmberContents) (*getters, error) {
	g := &getters{fields: map[int]func() (Val, errors.Error){}, typed: map[int]byte{}}
	str := func(n int, f func() (string, errors.Error)) {
		g.typed[n] = 's'
		g.fields[n] = func() (Val, errors.Error) { s, e := f(); return Val{T: 's', S: s}, e }
	}
	boo := func(n int, f func() (bool, errors.Error)) {
		g.typed[n] = 'b'
		g.fields[n] = func() (Val, errors.Error) { b, e := f(); return Val{T: 'b', B: b}, e }
	}
	i64 := func(n int, f func() (int64, errors.Error)) {
		g.typed[n] = 'i'
		g.fields[n] = func() (Val, errors.Error) { i, e := f(); return Val{T: 'i', I: i}, e }
	}
	num := func(n int, f func() (int, errors.Error)) {
		i64(n, func() (int64, errors.Error) { i, e := f(); return int64(i), e })
	}
	val := func(n int, cp *embertree.ContentParameter) {
		g.fields[n] = func() (Val, errors.Error) {
			v, set, err := FromValue(cp)
			if err != nil {
				return v, errors.New("%s", err)
			}
			if !set {
				return v, errors.New("not set")
			}
			return v, nil
		}
	}
	switch k {
	case Node:
		c, ok := ec.(*embertree.NodeContents)
		if !ok {
			return nil, fmt.Errorf("contents of a node are a %T", ec)
		}
		str(0, c.GetIdentifier)
		str(1, c.GetDescription)
		boo(2, c.GetIsRoot)
		boo(3, c.GetIsOnline)
		str(4, c.GetSchemaIdentifiers)
		t, _ := c.GetTemplateReference()
		g.hasTemplate, g.template = true, t
	case Param:
		c, ok := ec.(*embertree.ParameterContents)
		if !ok {
			return nil, fmt.Errorf("contents of a parameter are a %T", ec)
		}
		str(0, c.GetIdentifier)
		str(1, c.GetDescription)
		val(2, c.GetValueObject())
		val(3, c.GetMinimumObject())
		val(4, c.GetMaximumObject())
		str(5, c.GetAccess)
		str(6, c.GetFormat)
		str(7, c.GetEnumeration)
		i64(8, c.GetFactor)
		boo(9, c.GetOnline)
		str(10, c.GetFormula)
		i64(11, c.GetStep)
		val(12, c.GetDefaultObject())
		str(13, c.GetType)
		i64(14, c.GetStreamIdentifier)
	case Func:
		c, ok := ec.(*embertree.FunctionContents)
		if !ok {
			return nil, fmt.Errorf("contents of a function are a %T", ec)
		}
		str(0, c.GetIdentifier)
		str(1, c.GetDescription)
		g.args, g.res = tuplesFromLib(c.GetArguments()), tuplesFromLib(c.GetResult())
	case Matrix:
		c, ok := ec.(*embertree.MatrixContent)
		if !ok {
			return nil, fmt.Errorf("contents of a matrix are a %T", ec)
		}
		str(0, c.GetIdentifier)
		str(1, c.GetDescription)
		num(2, func() (int, errors.Error) { t, e := c.GetType(); return int(t), e })
		num(3, func() (int, errors.Error) { t, e := c.GetMode(); return int(t), e })
		num(4, c.GetTargetCount)
		num(5, c.GetSourceCount)
		num(6, c.GetMaxTotalConnects)
		num(7, c.GetMaxConnectsPerTarget)
		g.typed[8] = 'd'
		g.fields[8] = func() (Val, errors.Error) { o, e := c.GetParameterLocation(); return Val{T: 'd', OID: o}, e }
		num(9, c.GetGainParameterNumber)
		str(11, c.GetSchemaIdentifier)
	case Command:
		c, ok := ec.(*embertree.CommandContents)
		if !ok {
			return nil, fmt.Errorf("contents of a command are a %T", ec)
		}
		g.flags = int(c.GetFieldFlags())
	}
	return g, nil
}

// FromLib reads an element and what is below it through the API.
func FromLib(l *embertree.Element) (*Elem, error) {
	e := &Elem{}
	found := false
	for k, t := range tagOf {
		if l.GetTag() == t[0] || l.GetTag() == t[1] {
			e.Kind, e.Qual, found = k, l.GetTag() != t[0], true
		}
	}
	if !found {
		return nil, fmt.Errorf("element of tag %#x", l.GetTag())
	}
	if e.Qual != embertree.IsQualifiedTag(l.GetTag()) {
		return nil, fmt.Errorf("IsQualifiedTag(%#x) is %v", l.GetTag(), !e.Qual)
	}
	e.Number = l.Number
	if e.Qual {
		e.Path = append([]int32{}, l.GetPath()...)
	}
	ec := l.GetContent()
	if ec2, err := l.GetContents(); err != nil || ec2 != ec {
		return nil, fmt.Errorf("GetContent and GetContents disagree")
	}
	var err error
	if ec != nil {
		e.C, err = ContentsFromLib(e.Kind, ec)
		if err != nil {
			return nil, fmt.Errorf("%v %d: %v", e.Kind, e.Number, err)
		}
	}
	ts, e1 := l.GetTargets()
	ss, e2 := l.GetSources()
	cs, e3 := l.GetConnections()
	if (e1 == nil) != (e.Kind == Matrix) || (e2 == nil) != (e.Kind == Matrix) || (e3 == nil) != (e.Kind == Matrix) {
		return nil, fmt.Errorf("%v %d: signal getters say %q %q %q", e.Kind, e.Number, Err(e1), Err(e2), Err(e3))
	}
	if e.Kind == Matrix {
		if e.Targets, err = signalsFromLib(ts, true); err != nil {
			return nil, err
		}
		if e.Sources, err = signalsFromLib(ss, false); err != nil {
			return nil, err
		}
		for _, c := range cs {
			e.Conns = append(e.Conns, ConnFromLib(c))
		}
	}
	for n, k := range l.Children {
		if k == nil {
			return nil, fmt.Errorf("%v %d has a nil child %d", e.Kind, e.Number, n)
		}
		x, err := FromLib(k)
		if err != nil {
			return nil, err
		}
		if x.Number != n {
			return nil, fmt.Errorf("%v %d holds child %d as number %d", e.Kind, e.Number, x.Number, n)
		}
		if p, _ := k.GetParent(); p != l {
			return nil, fmt.Errorf("child %d of %v %d has another parent", n, e.Kind, e.Number)
		}
		e.Kids = append(e.Kids, x)
	}
	return e, nil
}

// RootFromLib reads a whole tree.
func RootFromLib(root *embertree.RootElement) ([]*Elem, error) {
	var out []*Elem
	for n, l := range root.RootElementCollection {
		if l == nil {
			return nil, fmt.Errorf("nil top-level element %d", n)
		}
		e, err := FromLib(l)
		if err != nil {
			return nil, err
		}
		if e.Number != n {
			return nil, fmt.Errorf("top-level element %d is held as number %d", e.Number, n)
		}
		if root.GetElementByNumber(n) != l {
			return nil, fmt.Errorf("GetElementByNumber(%d) finds another element", n)
		}
		out = append(out, e)
	}
	return out, nil
}

// EncodeElem and EncodeRoot run the library's encoder.
func EncodeElem(l *embertree.Element) ([]byte, error) {
	w := asn1.NewASNWriter()
	if e := l.Encode(w); e != nil {
		return nil, fmt.Errorf("%s", Err(e))
	}
	return Drain(w), nil
}

func EncodeRoot(r *embertree.RootElement) ([]byte, error) {
	w := asn1.NewASNWriter()
	if e := r.Encode(w); e != nil {
		return nil, fmt.Errorf("%s", Err(e))
	}
	return Drain(w), nil
}

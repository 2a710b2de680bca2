package checks

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C27", Quick: 480, Deep: 16000, Run: c27, Race: true, Shards: 8, CPU: 120 * time.Second,
		Rule: "under the race detector: 4 to 12 goroutines each do a random list of jobs on objects of their own (build, encode and decode trees, decode messages, frame and reassemble streams, keep-alives, values, requests, listeners, paths, rendering, loggers, errors, writers, readers, stacks), and every result is compared with that of doing the same job alone afterwards; every input is compared after decoding and overwritten before the result is read, and everything handed out is compared again at the end; non-trivial: distinct results",
		Min:  map[string]int64{"jobs": 5000, "inputs_overwritten": 1000, "handed_out": 5000}})
}

// job does something with objects of its own and returns what came of it; the
// second result is checked again when all jobs are over.
type job struct {
	kind int
	seed uint64
}

type kept struct {
	what string
	b    []byte // as handed out
	copy []byte
}

type shop struct {
	c       *rt.Ctx
	handed  atomic.Int64
	scribed atomic.Int64
}

const jobKinds = 14

func (s *shop) fail(key, format string, a ...interface{}) { s.c.Report(key, format, a...) }

func (s *shop) keep(what string, b []byte) kept {
	s.handed.Add(1)
	return kept{what, b, append([]byte{}, b...)}
}

// sortKids puts the children of e, whose order means nothing, in one order.
func sortKids(e *ref.Elem) {
	for _, k := range e.Kids {
		sortKids(k)
	}
	sort.Slice(e.Kids, func(i, j int) bool { return e.Kids[i].String() < e.Kids[j].String() })
}

func lines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (s *shop) do(j job) (result string, keep []kept) {
	defer func() {
		if p := recover(); p != nil {
			s.fail("panic", "job of kind %d panicked: %v", j.kind, p)
		}
	}()
	r := rt.NewRand(j.seed)
	var out strings.Builder
	add := func(format string, a ...interface{}) { fmt.Fprintf(&out, format+"\n", a...) }
	overwrite := func(b []byte) {
		s.scribed.Add(1)
		for i := range b {
			b[i] = 0xa5
		}
	}
	canonical := func(es []*ref.Elem) string {
		var all []string
		for _, e := range es {
			sortKids(e)
			all = append(all, e.String())
		}
		sort.Strings(all)
		return strings.Join(all, "\n")
	}
	switch j.kind {
	case 0: // build and encode a tree
		root := ref.RootToLib(apiGen(r).Roots(4))
		for i := 0; i < 2; i++ {
			b, err := ref.EncodeRoot(root)
			if err != nil {
				add("error %v", err)
				break
			}
			es, err := ref.ParseRoot(b)
			add("%s %v", canonical(es), err)
			keep = append(keep, s.keep("octets of a tree", b))
		}
	case 1: // decode messages
		root := embertree.NewTree()
		if r.Bool() {
			root = embertree.NewRoot()
		}
		w, t := newWorld(r), ref.NewTreeModel()
		for i := r.Range(1, 5); i > 0; i-- {
			es := w.message(t)
			t.Apply(canonAll(es))
			b := w.octets(es)
			orig := append([]byte{}, b...)
			add("%s", decodeRoot(root, b))
			if !bytes.Equal(b, orig) {
				s.fail("input", "decoding changed its input %x to %x", orig, b)
			}
			overwrite(b)
		}
		es, err := ref.RootFromLib(root)
		add("%s %v", canonical(es), err)
		if d := ref.DiffAll(es, t.Elems(), true); d != "" {
			s.fail("tree", "after its input was overwritten, a decoded tree differs from what was sent (tree/sent): %s", d)
		}
		var found []string
		for _, it := range t.Items() {
			if _, l := root.GetElementByPath(it.Path); l != nil {
				found = append(found, fmt.Sprint(l.GetPath()))
			}
		}
		sort.Strings(found)
		add("%v", found)
		b, e := ref.EncodeRoot(root)
		back, e2 := ref.ParseRoot(b)
		add("%s %v %v", canonical(back), e, e2)
	case 2: // decode elements
		for i := 0; i < 3; i++ {
			g := gen(r)
			el := g.Elem(1)
			b := (&ref.Enc{R: r, Shuffle: r.Bool()}).Elem(el).Bytes()
			orig := append([]byte{}, b...)
			l, msg := decodeElement(b)
			if !bytes.Equal(b, orig) {
				s.fail("input", "decoding changed its input %x to %x", orig, b)
			}
			overwrite(b)
			if l == nil {
				add("%s", msg)
				continue
			}
			x, err := ref.FromLib(l)
			if err != nil {
				add("%v", err)
				continue
			}
			add("%s", canonical([]*ref.Elem{x}))
			if d := ref.Diff(x, canon(el), true); d != "" {
				s.fail("element", "after its input was overwritten, a decoded element differs from what was sent (element/sent): %s", d)
			}
			if x.Count() < 30 {
				add("%s", lines(l.ToString()))
			}
		}
	case 3: // frames
		for i := 0; i < 2; i++ {
			p := payload(r)
			orig := append([]byte{}, p...)
			list := socket.EncodeMessage(p)
			if !bytes.Equal(p, orig) {
				s.fail("input", "framing changed its input")
			}
			overwrite(p)
			for k := 0; k < list.Size(); k++ {
				b, e := list.GetBytesAt(k)
				add("%x %s", b, es(e))
				if r.Bool() {
					keep = append(keep, s.keep("a frame", b))
				}
			}
		}
	case 4: // a stream
		ev := newEvents()
		var stream []byte
		for i := r.Range(1, 4); i > 0; i-- {
			for _, f := range frames(r, payload(r)) {
				stream = append(stream, f...)
				if r.P(1, 5) {
					stream = append(stream, ref.KeepAlive(r.Bool())...)
				}
			}
		}
		for len(stream) > 0 {
			n := r.Range(1, 3000)
			if n > len(stream) {
				n = len(stream)
			}
			chunk := append([]byte{}, stream[:n]...)
			ev.d.DecodeBuffer(n, chunk)
			if !bytes.Equal(chunk, stream[:n]) {
				s.fail("input", "DecodeBuffer changed its input")
			}
			overwrite(chunk)
			stream = stream[n:]
		}
		add("%v %d", ev.list, ev.errs)
		for i, m := range ev.msgs {
			add("%x", ev.copy[i])
			s.handed.Add(1)
			keep = append(keep, kept{"a packet", m, ev.copy[i]})
		}
	case 5: // keep-alives
		for i := 0; i < 5; i++ {
			q, a := socket.GetKeepaliveRequest().Bytes(), socket.GetKeepAliveResponse().Bytes()
			add("%x %x", q, a)
			if !bytes.Equal(q, ref.KeepAlive(true)) || !bytes.Equal(a, ref.KeepAlive(false)) {
				s.fail("keep-alive", "the keep-alive frames are %x and %x", q, a)
			}
			if i%2 == 0 { // what I was given is mine
				overwrite(q)
				overwrite(a)
			} else {
				keep = append(keep, s.keep("a keep-alive request", q), s.keep("a keep-alive response", a))
			}
		}
	case 6: // values
		g := gen(r)
		for i := 0; i < 20; i++ {
			v := g.Val()
			cp := ref.ToValue(v)
			w := asn1.NewASNWriter()
			e := cp.Encode(9, w)
			b := ref.Drain(w)
			x, set, err := ref.FromValue(cp)
			add("%v %v %v %x %s %s", x, set, err, b, es(e), cp.ToString())
		}
	case 7: // requests and paths
		g := apiGen(r)
		g.NoCmd, g.Negative = true, false
		root := ref.RootToLib(g.Roots(3))
		var nums []int
		for n := range root.RootElementCollection {
			nums = append(nums, n)
		}
		sort.Ints(nums)
		var walk func(l *embertree.Element)
		walk = func(l *embertree.Element) {
			add("%v", l.GetPath())
			m, e := l.GetDirectoryMsg(nil)
			if e != nil {
				add("%s", es(e))
			} else {
				b, err := ref.EncodeRoot(m)
				add("%x %v", b, err)
			}
			b, err := ref.EncodeRoot(l.GetQualifiedDirectoryMsg(nil))
			add("%x %v", b, err)
			var ks []int
			for n := range l.Children {
				ks = append(ks, n)
			}
			sort.Ints(ks)
			for _, n := range ks {
				walk(l.Children[n])
			}
		}
		for _, n := range nums {
			walk(root.RootElementCollection[n])
		}
		m, e := root.GetDirectoryMsg(nil)
		b, err := ref.EncodeRoot(m)
		add("%x %v %s", b, err, es(e))
	case 8: // listeners
		root := embertree.NewTree()
		w, t := newWorld(r), ref.NewTreeModel()
		n := 0
		l := &recorder{}
		l.then = func(node interface{}, err string) { n++ }
		root.AddListener(l)
		watched := map[*embertree.Element]*recorder{}
		for i := r.Range(2, 6); i > 0; i-- {
			es := w.message(t)
			t.Apply(canonAll(es))
			decodeRoot(root, w.octets(es))
			for _, it := range t.Items() {
				if _, x := root.GetElementByPath(it.Path); x != nil && watched[x] == nil {
					watched[x] = &recorder{}
					x.AddListener(watched[x])
				}
			}
			add("%d", n)
		}
		var counts []string
		for x, l := range watched {
			// How often is not fixed; whether is.
			counts = append(counts, fmt.Sprint(x.GetPath(), l.n() > 0))
			for _, k := range l.take() {
				if k.node != x {
					s.fail("listener", "a listener of element %v got another element", x.GetPath())
				}
			}
		}
		sort.Strings(counts)
		add("%v", counts)
	case 9: // primitive values
		w := asn1.NewASNWriter()
		f := r.Float()
		i32, i64, text, oid := r.Int32(), r.Int64(), r.Text(40), []int32{r.Nat(), r.Nat()}
		w.WriteInt(int(i32))
		w.WriteInt64(i64)
		if e := w.WriteReal(f); e != nil { // there is no such real
			f = 1
			w.WriteReal(f)
		}
		w.WriteString(text)
		w.WriteRelativeOID(oid)
		w.StartSequence(asn1.Application(3))
		w.WriteBoolean(true)
		w.EndSequence()
		b := ref.Drain(w)
		add("%x", b)
		keep = append(keep, s.keep("octets of a writer", append(b[:0:0], b...)))
		rd := asn1.NewASNReader(b)
		a1, e1 := rd.ReadInt()
		a2, e2 := rd.ReadInt64()
		a3, e3 := rd.ReadReal()
		a4, e4 := rd.ReadString()
		a5, e5 := rd.ReadOID(asn1.EMBER_RELATIVE_OID)
		overwrite(b)
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil || a3 != f && (a3 == a3 || f == f) || a1 != int(i32) || a2 != i64 {
			s.fail("values", "%d, %d, %v, %q, %v was read as %d %s, %d %s, %v %s, %q %s, %v %s", i32, i64, f, text, oid, a1, es(e1), a2, es(e2), a3, es(e3), a4, es(e4), a5, es(e5))
		}
		add("%v %s %v %s %v %s %q %s %v %s", a1, es(e1), a2, es(e2), a3, es(e3), a4, es(e4), a5, es(e5))
		if e4 == nil && a4 != text {
			s.fail("string", "a string read is %q instead of %q after the input was overwritten", a4, text)
		}
		if e5 == nil && !ref.SameOID(a5, oid) {
			s.fail("oid", "an identifier read is %v instead of %v after the input was overwritten", a5, oid)
		}
	case 10: // buffers of values
		b := r.Bytes(r.Intn(60))
		enc := ref.Prim(4, b).Bytes()
		got, e := asn1.NewASNReader(enc).ReadBitString()
		overwrite(enc)
		add("%x %s", got, es(e))
	case 11: // stack, errors
		st := asn1.NewStack()
		for i := r.Range(1, 20); i > 0; i-- {
			st.Push(r.Intn(100))
			if r.P(1, 3) {
				add("%v", st.Pop())
			}
		}
		var e errors.Error = errors.New("problem %d", r.Intn(10))
		for i := r.Intn(5); i > 0; i-- {
			e = errors.Update(e)
		}
		add("%s", es(e))
	case 12: // loggers that print nothing
		l := logger.NewNullLogger()
		if r.Bool() {
			l = logger.NewConsoleLogger(logger.ErrorLevel)
		}
		for i := 0; i < 10; i++ {
			lv := rt.Pick(r, logger.ErrorLevel, logger.WarnLevel)
			l.SetLogLevel(lv)
			l.Debug("nothing %d", i)
			l.Info("nothing %d", i)
			add("%v", l.GetLogLevel())
		}
	case 13: // matrices
		g := apiGen(r)
		el := &ref.Elem{Kind: ref.Matrix, Number: r.Intn(9), C: g.Contents(ref.Matrix), Targets: []int32{1, 2, 3}, Sources: []int32{4, 5}, Conns: g.Conns()}
		l := ref.ToLib(el)
		for i := r.Intn(6); i > 0; i-- {
			op, disp, src := r.Intn(5)-1, r.Intn(6)-1, r.Nat()
			cs, e := l.GetConnections()
			add("%d %s", len(cs), es(e))
			for _, k := range cs {
				add("%s %s %v %v", es(k.SetOperation(op)), es(k.SetDisposition(disp)), k.GetOperation(), k.GetDisposition())
				k.Sources = append(k.Sources, src)
			}
		}
		b, err := ref.EncodeElem(l)
		x, err2 := ref.ParseElem(b)
		if x != nil {
			add("%s", canonical([]*ref.Elem{x}))
		}
		add("%v %v", err, err2)
	}
	return out.String(), keep
}

func c27(c *rt.Ctx) {
	r := c.R
	s := &shop{c: c}
	n := r.Range(4, 12)
	jobs := make([][]job, n)
	only := -1
	if r.P(1, 4) {
		only = r.Intn(jobKinds) // everybody does the same
	}
	for i := range jobs {
		for k := r.Range(3, 10); k > 0; k-- {
			j := job{r.Intn(jobKinds), r.U64()}
			if only >= 0 {
				j.kind = only
			}
			jobs[i] = append(jobs[i], j)
		}
	}
	type done struct {
		sum  []uint64
		text []string
		keep []kept
	}
	hash := func(t string) uint64 {
		h := fnv.New64a()
		h.Write([]byte(t))
		return h.Sum64()
	}
	got := make([]done, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, j := range jobs[i] {
				t, k := s.do(j)
				got[i].sum = append(got[i].sum, hash(t))
				if len(t) > 3000 {
					t = t[:3000]
				}
				got[i].text = append(got[i].text, t)
				got[i].keep = append(got[i].keep, k...)
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range jobs {
		for k, j := range jobs[i] {
			t, keep := s.do(j)
			c.Count("jobs", 1)
			h := hash(t)
			c.Distinct(h)
			if h != got[i].sum[k] {
				c.Note("parallel", got[i].text[k])
				c.Note("alone", t)
				c.Fail("result", "a job of kind %d has another result in parallel than alone", j.kind)
			}
			got[i].keep = append(got[i].keep, keep...)
		}
	}
	for i := range got {
		for _, k := range got[i].keep {
			if !bytes.Equal(k.b, k.copy) {
				c.Fail("changed", "%s, once handed out, was changed by later operations: %x instead of %x", k.what, k.b, k.copy)
			}
		}
	}
	c.Count("handed_out", int(s.handed.Load()))
	c.Count("inputs_overwritten", int(s.scribed.Load()))
	c.Sample("%d goroutines: %v", n, jobs[0])
}

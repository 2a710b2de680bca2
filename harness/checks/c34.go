package checks

import (
	"bytes"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/logger"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C34", Quick: 2000, Deep: 40000, Run: c34, Shards: 16,
		Rule: "a client over loopback receives 2 to 9 hostile streams (any octets, special octets, frames of any header and content, damaged frames, hostile and damaged messages, up to 1 MiB, cut into segments, undecodable messages about what is known) and after each a keep-alive request, a valid message with a new element, a directory request for it with its answer; non-trivial: a distinct stream",
		Min:  map[string]int64{"streams": 1500, "octets": 5000000, "markers": 1500, "answered": 1500, "requests": 1500, "root_calls": 3000, "marker_comparisons": 3000, "with_timeout": 50, "aimed": 500, "unfinished": 100}})
}

// aimed is a message about a known element, or a child of it, that cannot be
// decoded.
func aimed(r *rt.Rand, gn *ref.Gen, m *ref.Elem) []byte {
	x := m.Clone()
	x.C = gn.Contents(m.Kind)
	path := []int32{int32(m.Number)}
	if len(m.Kids) > 0 && r.Bool() {
		k := m.Kids[0].Clone()
		k.C = gn.Contents(k.Kind)
		if r.Bool() {
			path = append(path, int32(k.Number))
			x = k
		} else {
			x.Kids = []*ref.Elem{k}
		}
	}
	if x.Qual = len(path) > 1 || r.Bool(); x.Qual {
		x.Path = path
	}
	v := (&ref.Enc{}).Elem(x)
	// the innermost element
	in := v
	if len(x.Kids) > 0 && r.Bool() {
		last := v.Kids[len(v.Kids)-1] // [2]
		in = last.Kids[0].Kids[0].Kids[0]
	}
	var contents *ref.V
	for _, f := range in.Kids {
		if f.Tag == ref.Ctx(1) {
			contents = f
		}
	}
	bad := rt.Pick(r, ref.Prim(2, make([]byte, 9)), ref.Prim(0x30, nil), ref.Prim(0x1e, []byte{1}), ref.Prim(2, nil))
	switch k := r.Intn(5); {
	case k == 0 || contents == nil || len(contents.Kids) == 0: // a field nobody knows
		in.Add(ref.Cons(ref.Ctx(byte(r.Range(6, 15))), ref.Int(1)))
	case k == 1: // contents that are no set
		contents.Kids[0].Tag = 0x30
	case k == 2: // a value of no type first
		contents.Kids[0].Kids = append([]*ref.V{ref.Cons(ref.Ctx(0), bad)}, contents.Kids[0].Kids...)
	default: // or last
		contents.Kids[0].Add(ref.Cons(ref.Ctx(byte(r.Intn(5))), bad))
	}
	root := ref.Cons(ref.App(0), ref.Cons(ref.App(11), ref.Cons(ref.Ctx(0), v)))
	root.SetForms(r, r.Intn(ref.FormKinds))
	return root.Bytes()
}

func c34(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	g.cl.SetLogger(logger.NewNullLogger()) // the delays of the other would be too many
	g.p.Start()
	if r.P(1, 3) {
		g.cl.SetTimeout(60000)
		c.Count("with_timeout", 1)
	}
	g.connect()
	conn := g.p.Last()
	gn := gen(r)
	gn.Big, gn.Left = "", 0
	message := func() []byte {
		v := (&ref.Enc{R: r, Shuffle: r.Bool()}).Root(gn.Roots(2))
		v.SetForms(r, r.Intn(ref.FormKinds))
		return v.Bytes()
	}
	// The markers have numbers nothing else has.
	var mu sync.Mutex
	markers := map[int]*ref.Elem{}
	seen := map[int]*embertree.Element{}
	calls, problem := 0, ""
	var root *embertree.RootElement
	s := &recorder{}
	s.then = func(node interface{}, err string) {
		mu.Lock()
		defer mu.Unlock()
		calls++
		x, ok := node.(*embertree.RootElement)
		if !ok || err != "" || root != nil && x != root {
			problem = fmt.Sprintf("the listener of the tree is called with %T and error %q", node, err)
			return
		}
		root = x
		for n, m := range markers {
			l := root.RootElementCollection[n]
			if l == nil {
				if seen[n] != nil {
					problem = fmt.Sprintf("marker %v is no longer in the tree", m)
				}
				continue
			}
			if seen[n] != nil && seen[n] != l {
				problem = fmt.Sprintf("marker %v was replaced by another element", m)
			}
			seen[n] = l
			got, err := ref.FromLib(l)
			if err != nil {
				problem = fmt.Sprintf("marker %v is inconsistent: %v", m, err)
			} else if d := ref.Diff(got, m, true); d != "" {
				problem = fmt.Sprintf("marker %v differs (tree/sent): %s", m, d)
			}
			c.Count("marker_comparisons", 1)
		}
	}
	ok := func(when string) {
		mu.Lock()
		defer mu.Unlock()
		if problem != "" {
			c.Fail("tree", "%s: %s", when, problem)
		}
	}
	g.within("GetDirectory", func() {
		if e := g.cl.GetDirectory(nil, s); e != nil {
			c.Fail("refused", "a request is refused: %s", es(e))
		}
	})
	g.must(func() bool { return conn.Count("message") == 1 }, "not-sent", "the request was not sent")
	requests := 1
	asked, starts := 0, 0 // keep-alive requests that are valid, frame starts
	for round := r.Range(2, 9); round > 0; round-- {
		b := hostileStream(r, message)
		if len(b) > 1<<16 && r.P(3, 4) {
			b = b[:1<<16]
		}
		c.Input(b)
		c.Note("stream", b)
		starts += bytes.Count(b, []byte{ref.BOF})
		c.Distinct(b)
		c.Count("streams", 1)
		c.Count("octets", len(b))
		f := r
		if len(b) > 20000 {
			f = nil // in one piece
		}
		for i := 0; i < len(b); {
			n := min(len(b)-i, r.Range(1, 20000))
			if !conn.Send(f, b[i:i+n]) {
				c.Fail("disconnected", "the client closed the connection on which it received bad input")
			}
			i += n
		}
		var known []*ref.Elem
		mu.Lock()
		for n, m := range markers {
			if seen[n] != nil {
				known = append(known, m)
			}
		}
		mu.Unlock()
		sort.Slice(known, func(i, j int) bool { return known[i].Number < known[j].Number })
		for k := r.Intn(4); k > 0 && len(known) > 0; k-- {
			conn.Send(nil, []byte{0xfe, 0xff}) // ends whatever was left open
			b := aimed(r, gn, rt.Pick(r, known...))
			for _, f := range frames(r, b) {
				conn.Send(r, f)
			}
			c.Distinct(b)
			c.Count("aimed", 1)
		}
		if r.P(1, 8) {
			// A message without its end, valid as far as it goes.
			conn.Send(nil, []byte{0xfe, 0xff})
			p := r.Bytes(r.Range(1, rt.Pick(r, 3000, 200000)))
			fs := frames(r, p)
			for _, f := range fs[:len(fs)-r.Intn(2)] {
				conn.Send(nil, f)
			}
			c.Count("unfinished", 1)
		}
		if r.P(1, 3) {
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
		// A keep-alive request first: its frame start ends whatever was left open.
		before := conn.Count("response")
		conn.Send(r, ref.KeepAlive(true))
		asked++
		starts++
		g.must(func() bool { return conn.Count("response") > before || conn.Ended() }, "keep-alive", "a keep-alive request after bad input was not answered")
		// A new element.
		n := r.Range(1<<28, 1<<29)
		m := &ref.Elem{Kind: ref.Node, Number: n, C: gn.Contents(ref.Node)}
		m.C.Fields[0] = ref.Val{T: 's', S: fmt.Sprint("marker ", n)}
		mu.Lock()
		markers[n] = m
		mu.Unlock()
		x := m.Clone()
		if r.Bool() {
			x.Qual, x.Path = true, []int32{int32(n)}
		}
		for _, f := range frames(r, octets(r, []*ref.Elem{x})) {
			conn.Send(r, f)
		}
		g.must(func() bool { mu.Lock(); defer mu.Unlock(); return seen[n] != nil || conn.Ended() }, "message", "a valid message after bad input did not get into the tree")
		c.Count("markers", 1)
		ok("after bad input")
		c.Check(!conn.Ended() && g.cl.IsConnected(), "disconnected", "the client gave up the connection after bad input")
		// A request for it, and its answer.
		mu.Lock()
		l := seen[n]
		mu.Unlock()
		answered := &recorder{}
		g.within("GetDirectory", func() {
			if e := g.cl.GetDirectory(l, answered); e != nil {
				c.Fail("refused", "a request after bad input is refused: %s", es(e))
			}
		})
		requests++
		g.must(func() bool { return conn.Count("message") >= requests }, "not-sent", "a request after bad input was not sent")
		evs := conn.Events()
		var last []*ref.Elem
		for _, e := range evs {
			if e.Kind == "bad" {
				c.Fail("invalid", "the provider received something invalid: %s", e.Text)
			}
			if e.Kind == "message" {
				last = e.Es
			}
		}
		p, bad := requestPath(last)
		c.Check(bad == "" && len(p) == 1 && p[0] == int32(n), "request", "a request for %d was sent as %v %s", n, p, bad)
		k := &ref.Elem{Kind: ref.Param, Number: r.Range(0, 100), C: gn.Contents(ref.Param)}
		mu.Lock()
		more := m.Clone()
		more.Kids = []*ref.Elem{k}
		markers[n] = canon(more)
		mu.Unlock()
		x = more.Clone()
		if r.Bool() {
			x.Qual, x.Path = true, []int32{int32(n)}
		}
		for _, f := range frames(r, octets(r, []*ref.Elem{x})) {
			conn.Send(r, f)
		}
		g.must(func() bool { return answered.n() > 0 }, "answer", "the answer to a request after bad input was not reported")
		for _, k := range answered.take() {
			c.Check(k.err == "" && k.node == interface{}(l), "answer", "the answer to a request after bad input is reported with %T, error %q", k.node, k.err)
		}
		mu.Lock()
		before = calls
		mu.Unlock()
		// The tree is told of the answer, too.
		g.must(func() bool { mu.Lock(); defer mu.Unlock(); return calls >= before }, "message", "the tree's listener is not called")
		ok("after the answer")
		c.Count("answered", 1)
		c.Count("requests", 1)
	}
	g.end()
	ok("at the end")
	mu.Lock()
	defer mu.Unlock()
	c.Count("root_calls", calls)
	got := 0
	for _, e := range conn.Events() {
		if e.Kind == "message" {
			got++
		}
		if e.Kind == "request" {
			c.Fail("unasked", "the client sent a keep-alive request")
		}
	}
	n := conn.Count("response")
	c.Check(n >= asked && n <= starts, "unasked", "%d keep-alive requests and %d frames were sent, %d responses received", asked, starts, n)
	c.Check(got == requests, "unasked", "%d requests were made, the provider received %d", requests, got)
	c.Sample("%d markers, %d calls", len(markers), calls)
}

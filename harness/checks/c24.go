package checks

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verif/harness/prov"
	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C24", Quick: 1200, Deep: 20000, Run: c24, Shards: 24,
		Rule: "a client asks for the tree of a provider with 0 to 150 elements (chains to depth 80, single elements with up to 1500 children, empty trees, every element kind) that answers every request, at once or held back and in any order, nested or qualified, with the element's own contents or without, in frames and segments, with keep-alives between; also repeatedly with changes in between, from two goroutines, from a callback, with a timeout and some requests unanswered or answered late or the connection cut in the middle, or requests refused because too many others are pending; non-trivial: distinct trees and orders of answers",
		Min:  map[string]int64{"completed": 200, "elements": 5000, "answers": 5000, "reordered": 50, "timed_out": 40, "empty_trees": 3, "wide": 5, "late": 10, "cut": 10, "children_added": 10, "said_more": 1000, "deep": 1, "thousands": 1, "refused_inside": 5}})
}

// outcome is a listener of GetTree: it reads the tree in the call.
type outcome struct {
	mu    sync.Mutex
	calls []string // error texts
	trees [][]*ref.Elem
	bad   string
	now   func() // called in the first call
}

func (o *outcome) Receive(node interface{}, err errors.Error) {
	o.mu.Lock()
	o.calls = append(o.calls, es(err))
	var tree []*ref.Elem
	if err == nil {
		if root, ok := node.(*embertree.RootElement); !ok || root == nil {
			o.bad = fmt.Sprintf("the listener got %T instead of the tree", node)
		} else if t, e := ref.RootFromLib(root); e != nil {
			o.bad = "the tree is inconsistent: " + e.Error()
		} else {
			tree = t
		}
	}
	o.trees = append(o.trees, tree)
	now := o.now
	o.now = nil
	o.mu.Unlock()
	if now != nil {
		now()
	}
}

func (o *outcome) n() int {
	o.mu.Lock()
	defer o.mu.Unlock()
	return len(o.calls)
}

// shape makes the provider's tree of a case.
func shape(c *rt.Ctx) *device {
	r := c.R
	which := r.Intn(8)
	if c.I%600 == 7 {
		which = 2
	}
	switch which {
	case 0: // nothing, or one element
		d := &device{}
		if r.Bool() {
			d = newDevice(r, 1, 1, 2)
		} else {
			c.Count("empty_trees", 1)
		}
		d.index()
		return d
	case 1: // a chain
		d := newDevice(r, 1, 1, 2)
		e := d.top[0]
		if e.Kind != ref.Node {
			e.Kind, e.C, e.Targets, e.Sources, e.Conns = ref.Node, nil, nil, nil, nil
		}
		d.top = d.top[:1]
		n := r.Range(2, 12)
		if r.P(1, 10) {
			n = r.Range(20, 80)
			c.Count("deep", 1)
		}
		for i := n; i > 0; i-- {
			k := &ref.Elem{Kind: ref.Node, Number: r.Intn(200)}
			if r.Bool() {
				k.C = gen(r).Contents(ref.Node)
			}
			e.Kids = append(e.Kids, k)
			e = k
		}
		d.index()
		return d
	case 2: // one element with many children, or many at the top
		n := r.Range(40, 400)
		if !c.Deep() && r.Bool() {
			n = r.Range(20, 80)
		} else if r.P(1, 20) {
			n = r.Range(500, 1500)
			c.Count("very_wide", 1)
		}
		if c.I%600 == 7 { // wider than any queue
			n = r.Range(4200, 5000)
			c.Count("thousands", 1)
		}
		var kids []*ref.Elem
		for i := 0; i < n; i++ {
			k := &ref.Elem{Kind: rt.Pick(r, ref.Node, ref.Param, ref.Func), Number: i}
			if r.P(1, 4) {
				k.C = gen(r).Contents(k.Kind)
			}
			if k.Kind == ref.Node && r.P(1, 6) {
				k.Kids = append(k.Kids, &ref.Elem{Kind: ref.Param, Number: r.Intn(300)})
			}
			kids = append(kids, k)
		}
		d := &device{top: kids}
		if r.Bool() {
			d.top = []*ref.Elem{{Kind: ref.Node, Number: r.Intn(5), Kids: kids}}
		}
		d.top = canonAll(d.top)
		d.index()
		if n > 257 {
			c.Count("wide", 1)
		}
		return d
	}
	return newDevice(r, r.Range(2, 150), r.Range(2, 6), r.Range(2, rt.Pick(r, 10, 10, 30)))
}

// script answers the requests of one connection.
type script struct {
	c     *rt.Ctx
	d     *device
	mu    sync.Mutex
	r     *rt.Rand
	conn  *prov.Conn
	held  []held
	drop  map[string]bool // never answered
	late  map[string]time.Duration
	style int // 0: at once, 1: held back and reordered, 2: always latest first
	seen  map[string]int
	cut   int // the connection ends at this request, if positive
	isCut bool
	order []string
	quit  chan struct{}
	done  sync.WaitGroup
	bad   string
	stop  bool
	more  bool // answers say more than was asked
}

type held struct {
	path []int32
	at   time.Time
}

func (s *script) event(conn *prov.Conn, e prov.Event) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.conn = conn
	if e.Kind == "bad" {
		s.bad = e.Text
		return
	}
	if e.Kind != "message" {
		return
	}
	p, problem := requestPath(e.Es)
	if problem != "" {
		s.bad = problem
		return
	}
	name := ""
	if len(p) > 0 {
		name = ref.PathString(p)
	}
	if name != "" && s.d.at[name] == nil {
		s.bad = "a request for " + name + ", which is not in the tree"
		return
	}
	s.seen[name]++
	if s.isCut {
		return
	}
	if s.cut--; s.cut == 0 {
		s.isCut = true
		conn.Close(s.r.Intn(3))
		return
	}
	if s.drop[name] {
		return
	}
	at := time.Now()
	if w, ok := s.late[name]; ok {
		at = at.Add(w)
	} else if s.style == 1 && s.r.P(1, 2) {
		at = at.Add(time.Duration(s.r.Intn(15)) * time.Millisecond)
	}
	s.held = append(s.held, held{p, at})
}

// run sends the answers.
func (s *script) run() {
	defer s.done.Done()
	for {
		select {
		case <-s.quit:
			return
		default:
		}
		s.mu.Lock()
		var due []int
		now := time.Now()
		for i, h := range s.held {
			if !h.at.After(now) {
				due = append(due, i)
			}
		}
		if len(due) == 0 {
			s.mu.Unlock()
			time.Sleep(300 * time.Microsecond)
			continue
		}
		i := due[0]
		if s.style == 1 {
			i = rt.Pick(s.r, due...)
		} else if s.style == 2 {
			i = due[len(due)-1]
		}
		if i != 0 {
			s.c.Count("reordered", 1)
		}
		h := s.held[i]
		s.held = append(s.held[:i:i], s.held[i+1:]...)
		s.order = append(s.order, ref.PathString(h.path))
		conn, r := s.conn, s.r.Fork()
		s.mu.Unlock()
		s.c.Count("answers", 1)
		b := octets(r, s.answer(r, h.path))
		conn.Do(func(send func(r *rt.Rand, b []byte) bool) {
			var seg *rt.Rand
			if r.P(1, 6) {
				seg = r
			}
			for _, f := range frames(r, b) {
				if r.P(1, 20) {
					send(nil, ref.KeepAlive(true))
				}
				send(seg, f)
			}
		})
	}
}

func (s *script) answer(r *rt.Rand, path []int32) []*ref.Elem {
	es := s.d.answer(r, path)
	if !s.more || !r.P(1, 2) {
		return es
	}
	// Something of what is further below, which nobody has asked for yet.
	var below func(at *ref.Elem, from *ref.Elem)
	below = func(at *ref.Elem, from *ref.Elem) {
		for _, k := range from.Kids {
			if r.P(1, 2) {
				b := bare(k)
				if r.P(1, 3) {
					below(b, k)
				}
				at.Kids = append(at.Kids, b)
				s.c.Count("said_more", 1)
			}
		}
	}
	if len(path) == 0 {
		for i, e := range es {
			below(e, s.d.top[i])
		}
		return es
	}
	e := s.d.at[ref.PathString(path)]
	if len(es) == len(e.Kids) && len(es) > 0 && es[0].Qual && len(es[0].Path) == len(path)+1 {
		for i, k := range es {
			below(k, e.Kids[i])
		}
		return es
	}
	at := es[0]
	if !at.Qual {
		for range path[1:] {
			at = at.Kids[0]
		}
	}
	for i, k := range at.Kids {
		below(k, e.Kids[i])
	}
	return es
}

// change has something happen to the provider's tree while nobody asks.
func (s *script) change() {
	s.mu.Lock()
	defer s.mu.Unlock()
	r, d := s.r, s.d
	for k := r.Range(1, 5); k > 0 && len(d.all) > 0; k-- {
		e := d.at[rt.Pick(r, d.all...)]
		if e.C != nil && r.Bool() {
			e.C = gen(r).Contents(e.Kind)
			canonIn(e)
			s.c.Count("contents_changed", 1)
			continue
		}
		n := r.Intn(300)
		for _, x := range e.Kids {
			if x.Number == n {
				n = -1
			}
		}
		if n >= 0 && e.Kind == ref.Node {
			x := &ref.Elem{Kind: rt.Pick(r, ref.Node, ref.Param, ref.Func), Number: n}
			x.C = gen(r).Contents(x.Kind)
			e.Kids = append(e.Kids, x)
			s.c.Count("children_added", 1)
		}
	}
	d.index()
}

func newScript(c *rt.Ctx, d *device) *script {
	return &script{c: c, d: d, r: c.R.Fork(), seen: map[string]int{}, drop: map[string]bool{}, late: map[string]time.Duration{}, style: c.R.Intn(3), quit: make(chan struct{})}
}

// c24refused: the requests for the elements of the tree are refused because
// too many others have been made meanwhile; GetTree then fails, once.
func c24refused(c *rt.Ctx, g *rig, s *script) {
	r := c.R
	g.disconnect()
	if r.Bool() {
		g.cl.SetTimeout(90000)
	}
	o := &outcome{}
	get := func() {
		if e := g.cl.GetTree(o); e != nil {
			c.Fail("refused", "GetTree is refused: %s", es(e))
		}
	}
	early := r.Bool()
	if early {
		get()
	}
	// The one called first fills the queue; it is likely not GetTree's.
	var refused atomic.Int64
	for i := r.Range(1, 8); i > 0; i-- {
		var once sync.Once
		f := &recorder{}
		f.then = func(node interface{}, err string) {
			once.Do(func() {
				for k := 0; k < 2000; k++ {
					if g.cl.GetDirectory(nil, nil) != nil {
						refused.Add(1)
						return
					}
				}
			})
		}
		if e := g.cl.GetDirectory(nil, f); e != nil {
			c.Fail("refused", "a request is refused: %s", es(e))
		}
	}
	if !early {
		get()
	}
	g.connect()
	g.must(func() bool { return o.n() > 0 }, "incomplete", "the listener of GetTree was not called; %d requests were refused because too many others were made", refused.Load())
	time.Sleep(time.Duration(r.Range(20, 200)) * time.Millisecond)
	o.mu.Lock()
	c.Check(len(o.calls) == 1, "calls", "the listener was called %d times: %q", len(o.calls), o.calls)
	if o.calls[0] != "" {
		c.Count("refused_inside", 1)
	}
	o.mu.Unlock()
	g.end()
	c.Check(o.n() == 1, "calls", "the listener was called %d times: %q", len(o.calls), o.calls)
	c.Distinct("refused", len(s.d.all))
}

func c24(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	d := shape(c)
	s := newScript(c, d)
	g.p.OnEvent = s.event
	g.p.Start()
	g.connect()
	s.done.Add(1)
	go s.run()
	defer func() { close(s.quit); s.done.Wait() }()
	tree := show(d.top)
	c.Note("tree", tree)
	thousands := c.I%600 == 7
	if c.I%40 == 13 {
		c24refused(c, g, s)
		return
	}
	failing := !thousands && r.P(1, 5) && len(d.all) > 0
	timeout := 0
	s.more = !failing && r.P(1, 3)
	if failing {
		timeout = r.Range(40, 150)
		g.cl.SetTimeout(timeout)
		for i := r.Range(1, 3); i > 0; i-- {
			p := rt.Pick(r, d.all...)
			if r.P(1, 8) {
				p = ""
			}
			if r.P(1, 3) {
				s.drop[p] = true
			} else {
				// late by far: the answer finds nobody waiting
				s.late[p] = time.Duration(timeout*3) * time.Millisecond
			}
		}
		c.Note("unanswered", fmt.Sprint(s.drop, s.late))
	} else if r.Bool() {
		g.cl.SetTimeout(90000)
	}
	get := func(o *outcome) {
		var e errors.Error
		g.within("GetTree", func() { e = g.cl.GetTree(o) })
		if e != nil {
			c.Fail("refused", "GetTree on a connected client failed: %s", es(e))
		}
	}
	cut := !failing && !thousands && r.P(1, 12) && len(d.all) > 0
	if cut {
		// The provider goes away in the middle.
		failing, s.more = true, false
		timeout = r.Range(40, 120)
		g.cl.SetTimeout(timeout)
		s.cut = r.Range(1, 1+len(d.all)/2)
		c.Count("cut", 1)
	}
	together := false
	check := func(o *outcome, when string) {
		s.mu.Lock()
		bad := s.bad
		s.mu.Unlock()
		c.Check(bad == "", "request", "the provider received something else than a request for an element of its tree: %s", bad)
		o.mu.Lock()
		defer o.mu.Unlock()
		c.Check(o.bad == "", "listener", "%s", o.bad)
		if len(o.calls) != 1 {
			c.Fail("calls", "%s: the listener was called %d times: %q", when, len(o.calls), o.calls)
		}
		if failing {
			c.Check(o.calls[0] != "", "unanswered", "%s: no error although requests were unanswered: %v", when, s.drop)
			return
		}
		c.Check(o.calls[0] == "", "error", "%s: every request was answered, but the listener got: %s", when, o.calls[0])
		if together {
			return // what the other asked for is taken for an answer
		}
		if x := ref.DiffAll(o.trees[0], d.top, true); x != "" {
			c.Fail("tree", "%s: at completion the client's tree differs from the provider's (client/provider): %s", when, x)
		}
	}
	wait := func(o *outcome, when string) {
		limit := patience
		answered, last := -1, time.Now()
		for o.n() == 0 {
			s.mu.Lock()
			n := len(s.order)
			s.mu.Unlock()
			if n != answered {
				answered, last = n, time.Now()
			}
			if time.Since(last) > limit {
				s.mu.Lock()
				c.Note("requests", fmt.Sprint(s.seen))
				c.Note("answers", strings.Join(s.order, " "))
				s.mu.Unlock()
				c.Note("stacks", stacks())
				c.Fail("incomplete", "%s: the listener was not called; %d requests were answered, none for %v", when, answered, limit)
			}
			time.Sleep(time.Millisecond)
		}
	}
	o := &outcome{}
	mode := r.Intn(8)
	if thousands {
		mode = 7
	}
	switch {
	case failing:
		get(o)
		wait(o, "with unanswered requests")
		late := len(s.late) > 0
		// Let the late answers come.
		time.Sleep(time.Duration(timeout*4) * time.Millisecond)
		check(o, "with unanswered requests")
		c.Count("timed_out", 1)
		if late {
			c.Count("late", 1)
		}
		if r.Bool() { // now everything is answered
			s.mu.Lock()
			s.drop, s.late, s.held = map[string]bool{}, map[string]time.Duration{}, nil
			g.cl.SetTimeout(90000)
			if cut {
				// once all that was asked before is over
				s.isCut, s.cut = false, 0
				s.mu.Unlock()
				g.within("Disconnect", func() { g.cl.Disconnect() })
				g.connect()
				quiet := -1
				g.must(func() bool {
					s.mu.Lock()
					n := len(s.order)
					for _, k := range s.seen {
						n += 1000 * k
					}
					s.mu.Unlock()
					was := quiet
					quiet = n
					time.Sleep(60 * time.Millisecond)
					return was == n
				}, "requests", "the client does not stop asking")
				s.mu.Lock()
			}
			s.mu.Unlock()
			failing = false
			o2 := &outcome{}
			get(o2)
			wait(o2, "after a timeout")
			time.Sleep(5 * time.Millisecond)
			check(o2, "after a timeout")
			failing = true
			c.Count("again", 1)
		}
		check(o, "with unanswered requests, later")
	case mode == 0: // again when done, from the callback
		o2 := &outcome{}
		var e2 atomic.Value
		o.now = func() {
			if e := g.cl.GetTree(o2); e != nil {
				e2.Store(es(e))
			}
		}
		get(o)
		wait(o, "first")
		if v := e2.Load(); v != nil {
			c.Fail("refused", "GetTree in the callback of GetTree failed: %s", v)
		}
		wait(o2, "from the callback")
		time.Sleep(5 * time.Millisecond)
		check(o, "first")
		check(o2, "from the callback")
		c.Count("again", 1)
		c.Count("completed", 2)
	case mode == 1: // several times
		changes := r.Bool()
		for i := r.Range(2, 3); i > 0; i-- {
			if changes && i < 3 {
				s.change()
			}
			o = &outcome{}
			get(o)
			wait(o, "one of several")
			time.Sleep(5 * time.Millisecond)
			check(o, "one of several")
			c.Count("again", 1)
			c.Count("completed", 1)
		}
	case mode == 2: // at once
		together, s.more = true, false
		os := []*outcome{o, {}}
		delay := time.Duration(r.Intn(20)) * time.Millisecond
		g.together(2, func(i int) {
			if i == 1 {
				time.Sleep(delay)
			}
			if e := g.cl.GetTree(os[i]); e != nil {
				c.Report("refused", "GetTree of two at once failed: %s", es(e))
			}
		})
		for _, o := range os {
			wait(o, "two at once")
		}
		time.Sleep(5 * time.Millisecond)
		for _, o := range os {
			check(o, "two at once")
		}
		c.Count("at_once", 1)
		c.Count("completed", 2)
	default:
		get(o)
		wait(o, "alone")
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		check(o, "alone")
		c.Count("completed", 1)
		s.mu.Lock()
		for p, n := range s.seen {
			c.Max("requests_per_element", n)
			_ = p
		}
		s.mu.Unlock()
	}
	c.Count("elements", len(d.all))
	c.Max("elements_of_a_tree", len(d.all))
	g.end()
	check(o, "at the end")
	s.mu.Lock()
	c.Distinct(tree, strings.Join(s.order, " "))
	s.mu.Unlock()
	c.Sample("%d elements; answers in order %s", len(d.all), strings.Join(s.order, " "))
}

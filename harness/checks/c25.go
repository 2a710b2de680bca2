package checks

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verif/harness/prov"
	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C25", Quick: 480, Deep: 16000, Run: c25, Shards: 24,
		Rule:        "1 to 24 (or up to 230) directory requests for elements side by side, and for the tree, each answered at once, late or never, repeated while an earlier one is open or after it was answered or timed out, with the same or another listener, with timeouts of 100 to 300 ms (also seconds, and weeks) that change between requests, or none; also while disconnected, while a slow listener holds up the message with the answers, answered with something in it that does not fit, for whole trees, and refused because too many are pending; every listener's calls are recorded with their times; afterwards the listeners removed from their elements must be garbage; non-trivial: distinct plans",
		Min:         map[string]int64{"requests": 1000, "answered": 300, "timed_out": 300, "late": 50, "without_timeout": 100, "repeated": 200, "collected": 500, "tree_requests": 30, "offline": 30, "refused": 20, "huge_timeouts": 15, "busy_answered": 20, "busy_timed_out": 20, "seconds": 10, "whole_root": 5, "whole_some": 10, "whole_none": 5, "misfit_answered": 20, "many": 10},
		Assumptions: []string{"an answer counts as in time when the listener was told of it before a quarter of the timeout had passed"}})
}

// stamped is one call of a listener.
type stamped struct {
	at  time.Time
	err string
}

type timedListener struct {
	mu    sync.Mutex
	calls []stamped
	block time.Duration
}

func (l *timedListener) Receive(node interface{}, err errors.Error) {
	l.mu.Lock()
	l.calls = append(l.calls, stamped{time.Now(), es(err)})
	d := l.block
	l.block = 0
	l.mu.Unlock()
	time.Sleep(d)
}

func (l *timedListener) errorsSeen() (n int, answers int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.calls {
		if c.err != "" {
			n++
		} else {
			answers++
		}
	}
	return
}

// ask is one request.
type ask struct {
	path    string
	timeout time.Duration // 0: none
	start   time.Time     // before the call
	end     time.Time     // after it
	l       *timedListener
	fate    string // "answer", "late", "never"
}

// c25busy: a message that is received in time, but whose processing takes
// longer than the timeout because a listener is slow.
func c25busy(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	d := &device{}
	for i := r.Range(2, 12); i > 0; i-- {
		e := &ref.Elem{Kind: rt.Pick(r, ref.Node, ref.Param), Number: 1000 - i}
		e.C = gen(r).Contents(e.Kind)
		d.top = append(d.top, e)
	}
	d.top = canonAll(d.top)
	d.index()
	g.p.Start()
	g.connect()
	k := g.learn(d)
	conn := g.p.Last()
	timeout := r.Range(200, 400)
	g.cl.SetTimeout(timeout)
	T := time.Duration(timeout) * time.Millisecond
	long := r.P(1, 3)
	slow := &timedListener{block: T + T*2/5}
	if long {
		slow.block = T*2 + T/2
	}
	// The first element has the slow listener, some of the others are asked
	// for and answered by the same message.
	at := func(i int) *embertree.Element { return k.at[ref.PathString([]int32{int32(d.top[i].Number)})] }
	at(0).AddListener(slow)
	var answered, never []*ask
	message := []*ref.Elem{bare(d.top[0])}
	for i := range d.top {
		if i > 0 && r.P(1, 4) {
			continue
		}
		a := &ask{timeout: T, l: &timedListener{}, start: time.Now()}
		if i > 0 && r.Bool() {
			answered = append(answered, a)
			message = append(message, bare(d.top[i]))
		} else if i > 0 {
			never = append(never, a)
		} else {
			continue
		}
		g.within("GetDirectory", func() {
			if e := g.cl.GetDirectory(at(i), a.l); e != nil {
				c.Fail("refused", "a request is refused: %s", es(e))
			}
		})
	}
	time.Sleep(time.Duration(r.Intn(timeout/8)) * time.Millisecond)
	b := octets(r, message)
	for _, f := range frames(r, b) {
		conn.Send(nil, f)
	}
	g.must(func() bool {
		for _, a := range answered {
			if _, n := a.l.errorsSeen(); n == 0 {
				return false
			}
		}
		_, n := slow.errorsSeen()
		return n > 0
	}, "silence", "an answer was not reported")
	g.must(func() bool {
		for _, a := range never {
			if n, _ := a.l.errorsSeen(); n == 0 {
				return false
			}
		}
		return true
	}, "silence", "a request that got no answer was not reported as timed out while another listener was slow")
	time.Sleep(T)
	began := slow.calls[0].at
	for _, a := range never {
		a.l.mu.Lock()
		n := len(a.l.calls)
		early := a.l.calls[0].at.Sub(a.start) < T
		a.l.mu.Unlock()
		c.Check(n == 1, "count", "a request that got no answer was reported %d times", n)
		c.Check(!early, "early", "a timeout was reported before its time")
		c.Count("busy_timed_out", 1)
	}
	for _, a := range answered {
		a.l.mu.Lock()
		calls := append([]stamped{}, a.l.calls...)
		a.l.mu.Unlock()
		answers, errs := 0, 0
		var told time.Time
		for _, s := range calls {
			if s.err == "" {
				answers++
				told = s.at
			} else {
				errs++
			}
		}
		c.Check(answers == 1 && errs <= 1, "count", "one answer was received: %d answers and %d timeouts are reported", answers, errs)
		if began.Sub(a.start) < T/2 && told.Sub(a.start) < T*9/5 {
			c.Check(errs == 0, "both", "an answer was received %v after the request, reported %v after it, and a timeout of %v besides", began.Sub(a.start), told.Sub(a.start), T)
			c.Count("busy_answered", 1)
		}
	}
	c.Distinct(timeout, len(answered), len(never), long, b)
	g.end()
}

// onlyConnection waits until no goroutine of the library is left but that of
// the connection.
func (g *rig) onlyConnection() {
	var left []string
	if !eventually(func() bool {
		left = nil
		for _, s := range inLibrary() {
			if !g.ofConnection(s) {
				left = append(left, s)
			}
		}
		return len(left) == 0
	}) {
		g.c.Fail("goroutines", "goroutines remain although all requests are over:\n%s", strings.Join(left, "\n\n"))
	}
}

// c25whole: trees requested one after the other, some requests of which are
// never answered; nothing of them remains.
func c25whole(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	d := newDevice(r, r.Range(2, 60), r.Range(1, 4), r.Range(2, 20))
	var mu sync.Mutex
	silent := map[string]bool{}
	mute := false
	f := r.Fork()
	g.p.OnEvent = func(conn *prov.Conn, e prov.Event) {
		if e.Kind != "message" {
			return
		}
		p, problem := requestPath(e.Es)
		mu.Lock()
		defer mu.Unlock()
		if problem != "" || len(p) == 0 && mute || len(p) > 0 && silent[ref.PathString(p)] {
			return
		}
		b := octets(f, d.answer(f, p))
		conn.Send(nil, b2frames(f, b))
	}
	g.p.Start()
	g.connect()
	var collected atomic.Int64
	total := int64(0)
	plan := ""
	for n := r.Range(1, 4); n > 0; n-- {
		what := rt.Pick(r, "root", "some", "some", "none")
		mu.Lock()
		mute, silent = what == "root", map[string]bool{}
		if what == "some" {
			for i := r.Range(1, 4); i > 0; i-- {
				silent[rt.Pick(r, d.all...)] = true
			}
		}
		mu.Unlock()
		timeout := r.Range(150, 400)
		if what == "none" {
			timeout = r.Range(20000, 40000)
		}
		plan += fmt.Sprintf("%s %d; ", what, timeout)
		g.cl.SetTimeout(timeout)
		l := &timedListener{}
		runtime.SetFinalizer(l, func(*timedListener) { collected.Add(1) })
		total++
		start := time.Now()
		g.within("GetTree", func() {
			if e := g.cl.GetTree(l); e != nil {
				c.Fail("refused", "GetTree is refused: %s", es(e))
			}
		})
		g.must(func() bool { e, a := l.errorsSeen(); return e+a > 0 }, "silence", "GetTree neither completed nor timed out (%s)", plan)
		time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		e, a := l.errorsSeen()
		c.Check(e+a == 1, "count", "GetTree reported %d errors and %d completions (%s)", e, a, plan)
		c.Check(what != "none" || a == 1, "answered", "GetTree timed out after %v although everything was answered (%s)", time.Since(start), plan)
		c.Check(what == "none" || e == 1, "unanswered", "GetTree completed although a request was not answered (%s)", plan)
		c.Check(what == "none" || l.calls[0].at.Sub(start) >= time.Duration(timeout)*time.Millisecond, "early", "GetTree timed out before its time (%s)", plan)
		c.Count("whole_"+what, 1)
	}
	g.onlyConnection()
	if !eventually(func() bool { runtime.GC(); return collected.Load() == total }) {
		c.Fail("leak", "%d of %d listeners of GetTree are still held by the client after all requests are over (%s)", total-collected.Load(), total, plan)
	}
	c.Count("collected", int(total))
	c.Distinct(plan, len(d.all))
	g.end()
}

// c25misfit: an answer with something in it that does not fit is an answer
// all the same.
func c25misfit(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	d := &device{}
	for i := r.Range(1, 8); i > 0; i-- {
		e := &ref.Elem{Kind: ref.Node, Number: i, C: gen(r).Contents(ref.Node)}
		for j := r.Range(1, 4); j > 0; j-- {
			e.Kids = append(e.Kids, &ref.Elem{Kind: rt.Pick(r, ref.Node, ref.Param), Number: j})
		}
		d.top = append(d.top, e)
	}
	d.top = canonAll(d.top)
	d.index()
	g.p.Start()
	g.connect()
	k := g.learn(d)
	conn := g.p.Last()
	timeout := r.Range(200, 400)
	T := time.Duration(timeout) * time.Millisecond
	g.cl.SetTimeout(timeout)
	var asks []*ask
	var message []*ref.Elem
	for _, e := range d.top {
		a := &ask{l: &timedListener{}, start: time.Now()}
		if e := g.cl.GetDirectory(k.at[ref.PathString([]int32{int32(e.Number)})], a.l); e != nil {
			c.Fail("refused", "a request is refused: %s", es(e))
		}
		asks = append(asks, a)
		b := bare(e)
		for i, kid := range e.Kids {
			x := bare(kid)
			if i == 0 || r.P(1, 3) {
				x.Kind, x.C = ref.Node+ref.Param-x.Kind, nil
			}
			b.Kids = append(b.Kids, x)
		}
		if r.P(1, 3) {
			b.Qual, b.Path = true, []int32{int32(b.Number)}
		}
		message = append(message, b)
	}
	conn.Send(nil, b2frames(r, octets(r, message)))
	g.must(func() bool {
		for _, a := range asks {
			if e, n := a.l.errorsSeen(); e+n == 0 {
				return false
			}
		}
		return true
	}, "silence", "a request was neither answered nor timed out")
	time.Sleep(T + T/4)
	for _, a := range asks {
		a.l.mu.Lock()
		n, first := len(a.l.calls), a.l.calls[0].at
		a.l.mu.Unlock()
		if first.Sub(a.start) < T/4 {
			c.Check(n == 1, "count", "the answer, in which a child is of another kind, was reported after %v; the listener was called %d times", first.Sub(a.start), n)
			c.Count("misfit_answered", 1)
		}
	}
	c.Distinct("misfit", len(asks), timeout)
	g.onlyConnection()
	g.end()
}

// b2frames is a message in frames.
func b2frames(r *rt.Rand, b []byte) []byte {
	var out []byte
	for _, f := range frames(r, b) {
		out = append(out, f...)
	}
	return out
}

func c25(c *rt.Ctx) {
	r := c.R
	if c.I%12 == 5 {
		c25busy(c)
		return
	}
	if c.I%12 == 8 {
		c25whole(c)
		return
	}
	if c.I%24 == 11 {
		c25misfit(c)
		return
	}
	g := newRig(c)
	// A flat tree: no element contains another.
	d := &device{}
	n := r.Range(1, 24)
	if r.P(1, 16) {
		n = r.Range(60, 220)
		c.Count("many", 1)
	}
	for i := 0; i < n; i++ {
		e := &ref.Elem{Kind: rt.Pick(r, ref.Node, ref.Node, ref.Param, ref.Matrix), Number: i*3 + r.Intn(3)}
		e.C = gen(r).Contents(e.Kind)
		d.top = append(d.top, e)
	}
	if r.Bool() { // beneath a common parent, which is not asked for
		d.top = []*ref.Elem{{Kind: ref.Node, Number: r.Intn(3), Kids: d.top}}
	}
	d.top = canonAll(d.top)
	d.index()
	paths := append([]string{}, d.all...)
	nested := len(d.top) == 1 && len(d.top[0].Kids) > 0
	if nested {
		top := ref.PathString([]int32{int32(d.top[0].Number)})
		var ps []string
		for _, p := range paths {
			if p != top {
				ps = append(ps, p)
			}
		}
		paths = ps
	}
	// The provider answers what it is told to.
	var mu sync.Mutex
	fates := map[string][]string{} // for the requests to come, in order
	answers := r.Fork()
	var ready atomic.Bool
	bad := ""
	var late []string
	reply := func(conn *prov.Conn, name string) {
		mu.Lock()
		f := answers.Fork()
		mu.Unlock()
		if name == "" {
			b := octets(f, d.answer(f, nil))
			conn.Do(func(send func(r *rt.Rand, b []byte) bool) {
				for _, x := range frames(f, b) {
					send(nil, x)
				}
			})
			return
		}
		p := d.path[name]
		e := bare(d.at[name])
		if f.Bool() {
			e.C, e.Targets, e.Sources, e.Conns = nil, nil, nil, nil
		}
		b := octets(f, []*ref.Elem{d.within(e, p, f.Bool())})
		conn.Do(func(send func(r *rt.Rand, b []byte) bool) {
			for _, x := range frames(f, b) {
				send(nil, x)
			}
		})
	}
	g.p.OnEvent = func(conn *prov.Conn, e prov.Event) {
		if !ready.Load() || e.Kind != "message" && e.Kind != "bad" {
			return
		}
		mu.Lock()
		p, problem := requestPath(e.Es)
		if e.Kind == "bad" {
			problem = e.Text
		}
		name := ""
		if len(p) > 0 {
			name = ref.PathString(p)
		}
		fate := "never"
		if problem != "" {
			bad = problem
		} else if fs := fates[name]; len(fs) > 0 {
			fate, fates[name] = fs[0], fs[1:]
		} else {
			bad = "a request for " + name + " that was not made"
		}
		if fate == "late" {
			late = append(late, name)
		}
		mu.Unlock()
		if fate == "answer" && name != "" {
			reply(conn, name)
		}
	}
	g.p.Start()
	g.connect()
	k := g.learn(d)
	conn := g.p.Last()
	ready.Store(true)

	offline := r.P(1, 6)
	huge := !offline && r.P(1, 10)
	if offline {
		g.disconnect()
	}
	var asks []*ask
	setTimeout := 0
	plan := ""
	try := func(path, fate string, timeout int, l *timedListener) (*ask, errors.Error) {
		if timeout != setTimeout {
			g.cl.SetTimeout(timeout)
			setTimeout = timeout
		}
		mu.Lock()
		fates[path] = append(fates[path], fate)
		mu.Unlock()
		a := &ask{path: path, timeout: time.Duration(timeout) * time.Millisecond, l: l, fate: fate}
		var node *embertree.Element
		if path != "" {
			node = k.at[path]
		}
		a.start = time.Now()
		var e errors.Error
		var ls embertree.Listener
		if l != nil {
			ls = l
		}
		g.within("GetDirectory", func() { e = g.cl.GetDirectory(node, ls) })
		a.end = time.Now()
		if e != nil {
			mu.Lock()
			fates[path] = fates[path][:len(fates[path])-1]
			mu.Unlock()
			return nil, e
		}
		c.Count("requests", 1)
		if timeout == 0 {
			c.Count("without_timeout", 1)
		}
		asks = append(asks, a)
		plan += fmt.Sprintf("%s %s %d; ", path, fate, timeout)
		return a, nil
	}
	issue := func(path, fate string, timeout int, l *timedListener) {
		if _, e := try(path, fate, timeout, l); e != nil {
			c.Fail("refused", "a request is refused: %s", es(e))
		}
	}
	pick := func() string { return rt.Pick(r, "answer", "answer", "never", "never", "late") }
	onTree := r.P(1, 8)
	base := r.Range(100, 300)
	timeouts := func() int { return r.Range(100, 300) }
	switch {
	case offline:
		plan = "offline: "
		c.Count("offline", 1)
		onTree = false
		pick = func() string { return rt.Pick(r, "never", "late") }
	case huge: // these never time out
		c.Count("huge_timeouts", 1)
		pick = func() string { return "answer" }
		timeouts = func() int {
			return rt.Pick(r, 3600000, 1<<31-1, 1<<31, 1<<32+5, 10000000000, r.Range(100000, 1<<40))
		}
		base = timeouts()
	case r.P(1, 12):
		c.Count("seconds", 1)
		base = r.Range(1000, 2400)
		timeouts = func() int { return r.Range(900, 2400) }
	}
	pause := min(base, 300)
	if onTree {
		// Requests for the tree: any message answers them, so these are alone.
		fate := rt.Pick(r, "answer", "never")
		if huge {
			fate = "answer"
		}
		for i := r.Range(1, 4); i > 0; i-- {
			issue("", "never", rt.Pick(r, base, base, base*2, 0), &timedListener{})
			c.Count("tree_requests", 1)
			if r.Bool() {
				time.Sleep(time.Duration(r.Intn(pause/4)) * time.Millisecond)
			}
		}
		if fate == "answer" {
			g.must(func() bool { return conn.Count("message") >= 1+len(asks) }, "not-sent", "not all requests were sent")
			for _, a := range asks {
				a.fate = "answer"
			}
			reply(conn, "")
		}
	} else {
		ps := r.Perm(len(paths))
		for _, i := range ps[:r.Range(1, len(paths))] {
			t := base
			if r.P(1, 4) {
				t = timeouts()
			}
			if r.P(1, 6) {
				t = 0
			}
			l := &timedListener{}
			if r.P(1, 12) {
				issue(paths[i], pick(), t, nil) // nobody to tell
				continue
			}
			if len(asks) > 200 {
				break
			}
			issue(paths[i], pick(), t, l)
			for r.P(1, 3) { // again
				c.Count("repeated", 1)
				l2 := &timedListener{}
				if r.P(1, 3) {
					l2 = l
				}
				if r.Bool() {
					time.Sleep(time.Duration(r.Intn(pause/3)) * time.Millisecond)
				}
				issue(paths[i], pick(), rt.Pick(r, t, t, base, 0), l2)
			}
		}
		// Some again when the first are over.
		if r.P(1, 3) {
			time.Sleep(time.Duration(pause+20) * time.Millisecond)
			for _, i := range ps[:1+r.Intn(len(ps))] {
				if len(asks) > 230 {
					break
				}
				c.Count("repeated", 1)
				issue(paths[i], pick(), base, &timedListener{})
			}
		}
	}
	// A refused request reports nothing and leaves nothing behind.
	var refused []*ask
	if offline && r.Bool() {
		path := rt.Pick(r, paths...)
		for i := 0; ; i++ {
			if _, e := try(path, "never", 0, nil); e != nil {
				break
			}
			if i == 2000 {
				c.Fail("unbounded", "2000 requests were accepted while disconnected")
			}
		}
		for i := r.Range(1, 5); i > 0; i-- {
			path, l := rt.Pick(r, paths...), &timedListener{}
			if _, e := try(path, "never", timeouts(), l); e != nil {
				refused = append(refused, &ask{path: path, l: l})
				c.Count("refused", 1)
			}
		}
	}
	c.Note("plan", plan)
	// Everything with a timeout gets an answer or times out.
	byListener := map[*timedListener][]*ask{}
	var ls []*timedListener
	for _, a := range asks {
		if a.l == nil {
			continue
		}
		if byListener[a.l] == nil {
			ls = append(ls, a.l)
		}
		byListener[a.l] = append(byListener[a.l], a)
	}
	g.must(func() bool {
		for _, a := range asks {
			if a.fate == "answer" && a.l != nil {
				if _, answers := a.l.errorsSeen(); answers == 0 {
					return false
				}
			}
		}
		return true
	}, "silence", "an answer sent was not reported to the listener of the request (%s)", plan)
	g.must(func() bool {
		for _, l := range ls {
			errs, answers := l.errorsSeen()
			for _, a := range byListener[l] {
				if a.timeout > 0 && errs == 0 && answers == 0 {
					return false
				}
			}
		}
		return true
	}, "silence", "a request was neither answered nor reported as timed out (%s)", plan)
	maxT := time.Duration(0)
	var lastEnd time.Time
	for _, a := range asks {
		if a.timeout > maxT {
			maxT = a.timeout
		}
		lastEnd = a.end
	}
	if huge {
		maxT = time.Duration(r.Intn(200)) * time.Millisecond
	}
	if rest := time.Until(lastEnd.Add(maxT)); rest > 0 {
		time.Sleep(rest)
	}
	// The exact numbers: see below. Timers may be late, never early.
	expect := func(l *timedListener) (min, max int) {
		for _, a := range byListener[l] {
			if a.timeout == 0 {
				continue
			}
			// The first message about the element after this request, by the
			// provider's plan: its own answer or that to a later request.
			answered := false
			possible := false
			l.mu.Lock()
			for _, s := range l.calls {
				if s.err == "" && !s.at.Before(a.start) {
					possible = true
					if s.at.Sub(a.start) < a.timeout/4 && s.at.After(a.end) {
						answered = true
					}
				}
			}
			l.mu.Unlock()
			if answered {
				continue
			}
			max++
			if !possible {
				min++
			}
		}
		return
	}
	g.must(func() bool {
		for _, l := range ls {
			errs, _ := l.errorsSeen()
			if min, _ := expect(l); errs < min {
				return false
			}
		}
		return true
	}, "no-timeout", "a request that got no answer was not reported as timed out (%s)", plan)
	if offline && r.P(3, 4) {
		// They are sent now, and maybe answered.
		g.connect()
		conn = g.p.Last()
		g.must(func() bool { return conn.Count("message") >= len(asks) }, "not-sent", "not all requests accepted before connecting were sent (%s)", plan)
		c.Count("sent_later", len(asks))
	}
	// Late answers come now.
	mu.Lock()
	names := append([]string{}, late...)
	mu.Unlock()
	if len(names) > 0 && r.P(2, 3) {
		for _, name := range names {
			reply(conn, name)
			c.Count("late", 1)
		}
		g.must(func() bool {
			for _, name := range names {
				for _, a := range asks {
					if a.path == name && a.l != nil {
						if _, answers := a.l.errorsSeen(); answers == 0 {
							return false
						}
					}
				}
			}
			return true
		}, "late", "a late answer was not reported to the listener still registered (%s)", plan)
	}
	time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
	c.Check(bad == "", "request", "the provider received something unexpected: %s", bad)
	for _, l := range ls {
		errs, answers := l.errorsSeen()
		min, max := expect(l)
		if errs < min || errs > max {
			text := ""
			for _, a := range byListener[l] {
				text += fmt.Sprintf("request for %q, timeout %v, from %v to %v, planned: %s\n", a.path, a.timeout, 0, a.end.Sub(a.start), a.fate)
			}
			l.mu.Lock()
			for _, s := range l.calls {
				text += fmt.Sprintf("call %v after the first request: error %q\n", s.at.Sub(byListener[l][0].start), s.err)
			}
			l.mu.Unlock()
			c.Fail("count", "a listener got %d timeouts and %d answers, expected %d to %d timeouts:\n%s", errs, answers, min, max, text)
		}
		// Not before the timeout has passed: the k-th timeout comes no earlier
		// than the k-th earliest moment a timeout may come.
		var due []time.Time
		for _, a := range byListener[l] {
			if a.timeout > 0 {
				due = append(due, a.start.Add(a.timeout))
			}
		}
		sort.Slice(due, func(i, j int) bool { return due[i].Before(due[j]) })
		i := 0
		l.mu.Lock()
		for _, s := range l.calls {
			if s.err != "" {
				if i < len(due) && s.at.Before(due[i]) {
					early := due[i].Sub(s.at)
					l.mu.Unlock()
					c.Fail("early", "a timeout was reported %v before its time (%s)", early, plan)
				}
				i++
			}
		}
		l.mu.Unlock()
		c.Count("timed_out", errs)
		c.Count("answered", answers)
	}
	for _, a := range refused {
		if errs, _ := a.l.errorsSeen(); errs > 0 {
			c.Fail("refused", "a refused request for %s reported a timeout (%s)", a.path, plan)
		}
		ls = append(ls, a.l)
		asks = append(asks, a)
	}
	// Nothing is left: no goroutine but the one of the connection, and no
	// reference to the listeners once their owner has removed them.
	g.onlyConnection()
	var collected atomic.Int64
	total := int64(0)
	for _, a := range asks {
		if a.l == nil {
			continue
		}
		if a.path == "" {
			k.root.RemoveListener(a.l)
		} else {
			k.at[a.path].RemoveListener(a.l)
		}
	}
	for _, l := range ls {
		total++
		runtime.SetFinalizer(l, func(*timedListener) { collected.Add(1) })
	}
	for _, a := range asks {
		a.l = nil
	}
	ls, byListener, refused = nil, nil, nil
	if !eventually(func() bool { runtime.GC(); return collected.Load() == total }) {
		c.Fail("leak", "%d of %d listeners, removed from their elements, are still held by the client after all requests are over (%s)", total-collected.Load(), total, plan)
	}
	c.Count("collected", int(total))
	runtime.KeepAlive(k)
	c.Distinct(plan)
	c.Sample("%s", plan)
	g.end()
}

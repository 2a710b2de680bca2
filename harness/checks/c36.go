package checks

import (
	"fmt"
	"sync"
	"time"

	"github.com/dufourgilles/emberlib/embertree"

	"verif/harness/prov"
	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C36", Quick: 900, Deep: 12000, Run: c36, Shards: 16,
		Rule: "a case has 2 to 6 clients, each with a provider of its own or all with one, and a tree of its own; all exchange requests, messages and keep-alives at the same time from goroutines of their own, under the race detector, while some are disconnected, cut off or connected again; for each, what its provider received and its tree must be its own; others get whole trees while the provider of one does not answer and another's Connect takes long; non-trivial: a distinct sequence of requests of all clients",
		Min:  map[string]int64{"clients": 400, "requests": 2000, "keepalives": 1000, "messages": 1000, "bystanders": 100, "timeouts": 20, "shared_provider": 20, "trees_compared": 400, "trees_got": 100}})
}

// trees has several clients ask for their trees while the provider of one does
// not answer, and another is still connecting.
func trees(c *rt.Ctx) {
	r := c.R
	n := r.Range(2, 5)
	var gs []*rig
	var ss []*script
	var os []*outcome
	var trace []string
	for i := 0; i < n; i++ {
		g := newRig(c)
		var d *device
		if i == 0 {
			d = newDevice(r, r.Range(20, 80), 1, 80)
		} else {
			d = newDevice(r, r.Range(2, 60), r.Range(1, 5), r.Range(2, 20))
		}
		s := newScript(c, d)
		if i == 0 {
			for _, p := range d.all {
				s.drop[p] = true
			}
		}
		g.p.OnEvent = s.event
		g.p.Start()
		gs, ss, os = append(gs, g), append(ss, s), append(os, &outcome{})
		trace = append(trace, show(d.top))
	}
	slow := newRig(c)
	done := make(chan struct{})
	free := func() {}
	if r.P(1, 6) {
		var p uint16
		p, free = tarpit()
		go func() {
			defer close(done)
			if slow.cl.Connect("127.0.0.1", p) == nil {
				slow.cl.Disconnect()
			}
		}()
		time.Sleep(10 * time.Millisecond)
		c.Count("slow", 1)
	} else {
		close(done)
	}
	defer func() { free() }()
	for i, g := range gs {
		g.connect()
		ss[i].done.Add(1)
		go ss[i].run()
		s := ss[i]
		defer func() { close(s.quit); s.done.Wait() }()
		if i > 0 {
			g.cl.SetTimeout(rt.Pick(r, 0, 90000))
		}
	}
	get := func(i int) {
		e := gs[i].cl.GetTree(os[i])
		if e != nil {
			c.Report("refused", "GetTree on a connected client failed: %s", es(e))
		}
	}
	gs[0].within("GetTree", func() { get(0) })
	gs[0].must(func() bool {
		ss[0].mu.Lock()
		defer ss[0].mu.Unlock()
		return len(ss[0].seen) > 1 || len(ss[0].d.all) == 0
	}, "not-sent", "a client that asks for its tree does not ask for its elements")
	gs[0].together(n-1, func(i int) { get(i + 1) })
	for i := 1; i < n; i++ {
		i := i
		gs[i].must(func() bool { return os[i].n() > 0 }, "incomplete", "client %d does not get its tree while the provider of another does not answer", i)
		s, o := ss[i], os[i]
		s.mu.Lock()
		c.Check(s.bad == "", "unasked", "the provider of client %d received something else than a request for an element of its tree: %s", i, s.bad)
		s.mu.Unlock()
		o.mu.Lock()
		c.Check(o.bad == "", "listener", "client %d: %s", i, o.bad)
		if len(o.calls) != 1 || o.calls[0] != "" {
			c.Fail("calls", "client %d: the listener was called %d times: %q", i, len(o.calls), o.calls)
		}
		if x := ref.DiffAll(o.trees[0], s.d.top, true); x != "" {
			c.Fail("tree", "client %d: at completion its tree differs from its provider's (client/provider): %s", i, x)
		}
		o.mu.Unlock()
		c.Count("trees_got", 1)
	}
	c.Check(os[0].n() == 0 || len(ss[0].d.all) == 0, "calls", "a client without a timeout whose requests are not answered is told of its tree")
	for _, g := range gs {
		g.within("Disconnect", func() { g.cl.Disconnect() })
	}
	free()
	free = func() {}
	gs[0].within("Connect", func() { <-done })
	gs[0].noConnections("after all clients disconnected")
	for _, g := range gs {
		g.p.Stop()
	}
	slow.p.Stop()
	c.Distinct(fmt.Sprint(trace))
}

func c36(c *rt.Ctx) {
	r := c.R
	if r.P(1, 8) {
		trees(c)
		return
	}
	type one struct {
		*rig
		d        *device
		k        *learned
		conn     *prov.Conn
		t        traffic
		qs       []*requester
		told     *recorder
		fate     int // 0: stays, 1: disconnects, 2: is cut off, 3: disconnects and connects again
		silent   bool
		timedOut int
		mu       sync.Mutex
		bad      string
	}
	var all []*one
	n := r.Range(2, 6)
	shared := r.P(1, 3)
	if shared {
		c.Count("shared_provider", 1)
	}
	for i := 0; i < n; i++ {
		o := &one{rig: newRig(c)}
		if shared && i > 0 {
			o.rig.p.Stop()
			o.rig.p = all[0].p
		} else {
			o.p.Start()
		}
		o.d = newDevice(r, r.Range(5, 40), r.Range(1, 4), r.Range(2, 6))
		o.silent = r.P(1, 4)
		if o.silent {
			o.cl.SetTimeout(r.Range(1, 60))
		} else if r.Bool() {
			o.cl.SetTimeout(60000)
		}
		o.fate = rt.Pick(r, 0, 0, 1, 2, 3)
		all = append(all, o)
	}
	for i, o := range all {
		o.connect()
		o.conn = o.p.Last()
		for j, x := range all {
			c.Check(x.cl.IsConnected() == (j <= i), "connected", "client %d is connected %v after client %d connected", j, x.cl.IsConnected(), i)
		}
		if o.silent {
			// Only its timeouts count; it learns nothing.
			continue
		}
		o.k = o.learn(o.d)
		o.told = &recorder{}
		o := o
		o.told.then = func(node interface{}, err string) {
			o.mu.Lock()
			defer o.mu.Unlock()
			if err != "" {
				o.bad = "the listener of a tree is told an error: " + err
			}
			if node != interface{}(o.k.root) {
				o.bad = "the listener of a tree is told about something else"
			}
		}
		o.k.root.AddListener(o.told)
		o.qs = split(r, o.d, r.Range(1, 2))
	}
	for i, o := range all {
		for j, x := range all {
			c.Check(i == j || o.k == nil || x.k == nil || o.k.root != x.k.root, "shared", "clients %d and %d have the same tree", i, j)
		}
	}
	c.Count("clients", n)
	var wg sync.WaitGroup
	for _, o := range all {
		o := o
		if o.silent {
			f := r.Fork()
			wg.Add(1)
			go func() { // requests that are never answered
				defer wg.Done()
				for i := f.Range(1, 6); i > 0; i-- {
					s := &recorder{}
					if e := o.cl.GetDirectory(nil, s); e != nil {
						c.Report("refused", "a request of a client that has few is refused: %s", es(e))
					}
					if !eventually(func() bool { return s.n() > 0 }) {
						c.Report("timeout", "a request that is not answered does not time out")
					}
					for _, k := range s.take() {
						if k.err == "" {
							c.Report("answer", "a client is told of an answer its provider did not send")
						}
					}
					o.timedOut++
					c.Count("timeouts", 1)
				}
			}()
			continue
		}
		f, ff := r.Fork(), r.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.t.send(f, o.d, o.conn, f.Range(1, 25), f.Range(1, 25), func() bool { return false })
		}()
		for _, q := range o.qs {
			q, f := q, ff.Fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := f.Range(1, 20); i > 0; i-- {
					q.issue(o.rig, o.k, rt.Pick(f, q.paths...), nil)
					if f.P(1, 3) {
						time.Sleep(time.Duration(f.Intn(4000)) * time.Microsecond)
					}
				}
			}()
		}
	}
	wg.Wait()
	var trace []string
	check := func(o *one, when string) {
		i := 0
		for j, x := range all {
			if x == o {
				i = j
			}
		}
		if o.silent {
			o.must(func() bool { return o.conn.Count("message") >= o.timedOut }, "not-sent", "client %d: not all of %d accepted requests were sent", i, o.timedOut)
			c.Check(o.conn.Count("message") == o.timedOut, "unasked", "client %d: %d requests were made, %d received", i, o.timedOut, o.conn.Count("message"))
			return
		}
		total := 1
		for _, q := range o.qs {
			total += len(q.accepted)
		}
		o.must(func() bool { return o.conn.Count("message") >= total }, "not-sent", "client %d %s: of %d accepted requests %d were sent", i, when, total, o.conn.Count("message"))
		o.must(func() bool { return int64(o.conn.Count("response")) >= o.t.asks.Load() }, "unanswered", "client %d %s: %d of %d keep-alive requests were answered", i, when, o.conn.Count("response"), o.t.asks.Load())
		o.must(func() bool { return int64(o.told.n()) >= o.t.messages.Load() }, "messages", "client %d %s: of %d messages %d were reported", i, when, o.t.messages.Load(), o.told.n())
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		c.Check(int64(o.conn.Count("response")) == o.t.asks.Load(), "unasked", "client %d %s: %d keep-alive requests were sent, %d responses received", i, when, o.t.asks.Load(), o.conn.Count("response"))
		c.Check(int64(o.told.n()) == o.t.messages.Load(), "messages", "client %d %s: %d messages were sent, %d reported", i, when, o.t.messages.Load(), o.told.n())
		got := o.received([]*prov.Conn{o.conn}, 1)
		seq, unasked := divide(o.qs, got)
		if unasked != nil {
			c.Fail("unasked", "client %d %s: its provider received a request for %q, which it did not make", i, when, *unasked)
		}
		for _, q := range o.qs {
			if k := firstDiff(seq[q], q.accepted); k >= 0 {
				c.Note("sent", fmt.Sprint(seq[q]))
				c.Note("accepted", fmt.Sprint(q.accepted))
				c.Fail("requests", "client %d %s: the requests received differ from those accepted from number %d on", i, when, k)
			}
		}
		o.mu.Lock()
		if o.bad != "" {
			c.Fail("told", "client %d %s: %s", i, when, o.bad)
		}
		o.mu.Unlock()
		trace = append(trace, fmt.Sprint(got))
	}
	for _, o := range all {
		check(o, "while all are connected")
		if !o.silent {
			c.Count("requests", o.conn.Count("message"))
			c.Count("keepalives", o.conn.Count("response"))
			c.Count("messages", o.told.n())
		}
	}
	// Some go.
	for _, o := range all {
		switch o.fate {
		case 1:
			o.disconnect()
		case 2:
			o.conn.Close(r.Intn(2))
			o.must(func() bool { return !o.cl.IsConnected() }, "connected", "a client does not notice that its connection was closed")
		case 3:
			o.disconnect()
			o.connect()
			o.conn = o.p.Last()
			o.must(func() bool { return o.cl.IsConnected() }, "connected", "a client that connected again is not connected")
		}
	}
	for i, o := range all {
		c.Check(o.cl.IsConnected() == (o.fate == 0 || o.fate == 3), "connected", "client %d is connected %v", i, o.cl.IsConnected())
		if o.fate != 0 {
			continue
		}
		// The others are as before.
		c.Count("bystanders", 1)
		if o.silent {
			continue
		}
		o.t.send(r, o.d, o.conn, r.Range(1, 3), r.Range(1, 3), func() bool { return false })
		for j := r.Range(1, 4); j > 0; j-- {
			var l embertree.Listener
			if r.Bool() {
				l = &recorder{}
			}
			q := rt.Pick(r, o.qs...)
			q.issue(o.rig, o.k, rt.Pick(r, q.paths...), l)
		}
		check(o, "after others went")
	}
	for _, o := range all {
		o.within("Disconnect", func() { o.cl.Disconnect() })
	}
	all[0].noConnections("after all clients disconnected")
	for i, o := range all {
		if o.silent {
			continue
		}
		got, err := ref.RootFromLib(o.k.root)
		if err != nil {
			c.Fail("inconsistent", "the tree of client %d is inconsistent: %v", i, err)
		}
		if d := ref.DiffAll(got, o.d.top, true); d != "" {
			c.Fail("tree", "the tree of client %d is not its provider's (client/provider): %s", i, d)
		}
		c.Count("trees_compared", 1)
	}
	for _, o := range all {
		o.p.Stop()
	}
	c.Distinct(fmt.Sprint(trace))
	c.Sample("%d clients: %v", n, trace)
}

package checks

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"

	"verif/harness/prov"
	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C20", Quick: 400, Deep: 16000, Run: c20, Shards: 16,
		Rule: "a client over loopback, with a tree of 5 to 60 elements; 1 to 6 goroutines issue up to 60 requests each (also before connecting, from callbacks, across reconnects, and more than the queue holds) while the provider sends messages and keep-alives cut into segments, or messages without any pause, and the client's goroutines are delayed at its log calls; non-trivial: distinct sequences of requests received",
		Min:  map[string]int64{"accepted": 1000, "received": 1000, "refused": 20, "before_connect": 100, "from_callbacks": 50, "reconnects": 10, "pending_cuts": 10, "deep": 10, "floods": 10, "read_later": 10, "slow": 5}})
	rt.Register(&rt.Check{ID: "C21", Quick: 320, Deep: 12000, Run: c21, Shards: 16,
		Rule: "a client over loopback that sends requests from several goroutines and receives messages, while the provider sends 1 to 150 keep-alive requests (and stray responses) between messages, between the frames of a message, in bursts and cut into segments, or within messages sent without any pause, on one or two connections; non-trivial: distinct interleavings of what the provider sent and received",
		Min:  map[string]int64{"keepalives": 1000, "inside_messages": 100, "responses": 1000, "requests": 500, "messages": 200, "floods": 10, "slow": 5}})
}

// traffic sends messages about the device, with keep-alives anywhere between
// frames, until told to stop or n messages are sent. It counts what it sent
// before sending it.
type traffic struct {
	messages, asks, strays, inside atomic.Int64
}

func (t *traffic) send(r *rt.Rand, d *device, conn *prov.Conn, n int, keepalives int, stop func() bool) {
	ask := func(send func(r *rt.Rand, b []byte) bool, in bool) {
		for keepalives > 0 && r.P(1, 2) {
			switch r.Intn(8) {
			case 0:
				t.strays.Add(1)
				send(r, ref.KeepAlive(false))
			case 1: // a burst
				for k := r.Range(2, 12); k > 0 && keepalives > 0; k-- {
					keepalives--
					t.asks.Add(1)
					if in {
						t.inside.Add(1)
					}
					send(nil, ref.KeepAlive(true))
				}
			default:
				keepalives--
				t.asks.Add(1)
				if in {
					t.inside.Add(1)
				}
				send(r, ref.KeepAlive(true))
			}
		}
	}
	for i := 0; (i < n || keepalives > 0) && !stop(); i++ {
		conn.Do(func(send func(r *rt.Rand, b []byte) bool) {
			if i < n {
				p := d.path[rt.Pick(r, d.all...)]
				fs := frames(r, octets(r, d.answer(r, p)))
				for k, f := range fs {
					if k == len(fs)-1 {
						t.messages.Add(1)
					}
					send(r, f)
					if k < len(fs)-1 {
						ask(send, true)
					}
				}
			}
			ask(send, false)
		})
		if r.P(1, 4) {
			time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
		}
	}
}

// requester is one goroutine's requests: it alone asks for its paths.
type requester struct {
	paths    []string // "" is the tree
	accepted []string
	// since is the number of requests accepted before the last Disconnect.
	since int
}

// issue makes one request and records whether it was accepted.
func (q *requester) issue(g *rig, k *learned, path string, l embertree.Listener) bool {
	var node *embertree.Element
	if path != "" {
		node = k.at[path]
	}
	e := g.cl.GetDirectory(node, l)
	if e != nil {
		g.c.Count("refused", 1)
		return false
	}
	q.accepted = append(q.accepted, path)
	g.c.Count("accepted", 1)
	return true
}

// split gives each of n requesters paths of its own.
func split(r *rt.Rand, d *device, n int) []*requester {
	qs := make([]*requester, n)
	for i := range qs {
		qs[i] = &requester{}
	}
	qs[0].paths = []string{""}
	for i, j := range r.Perm(len(d.all)) {
		q := qs[i%n]
		q.paths = append(q.paths, d.all[j])
	}
	for _, q := range qs {
		if len(q.paths) == 0 {
			q.paths = []string{d.all[0]}
			return qs[:1] // the device is too small
		}
	}
	return qs
}

// received reads the requests of the connections, and fails on anything else.
// partial allows a connection to end within a frame.
func (g *rig) received(conns []*prov.Conn, skip int) []string {
	var out []string
	for _, conn := range conns {
		for _, e := range conn.Events() {
			switch e.Kind {
			case "bad":
				g.c.Note("received", fmt.Sprint(out))
				g.c.Fail("invalid", "the provider received something invalid: %s", e.Text)
			case "message":
				if skip > 0 {
					skip--
					continue
				}
				p, problem := requestPath(e.Es)
				if problem != "" {
					g.c.Note("received", fmt.Sprint(out))
					g.c.Fail("request", "the provider received a message that is no directory request: %s", problem)
				}
				s := ""
				if len(p) > 0 {
					s = ref.PathString(p)
				}
				out = append(out, s)
			}
		}
	}
	return out
}

// maxLost is the number of requests that may be lost because a Disconnect
// comes as they are being sent.
const maxLost = 4

// flood sends messages so that there is always something to receive, until
// told to stop; got tells how many messages were received.
func (t *traffic) flood(r *rt.Rand, d *device, conn *prov.Conn, got func() int, stop func() bool) {
	conn.C.(*net.TCPConn).SetWriteBuffer(1 << 16)
	var b []byte
	n := int64(0)
	for k := r.Range(20, 200); k > 0 && len(b) < 200000; k-- {
		for _, f := range frames(r, octets(r, d.answer(r, d.path[rt.Pick(r, d.all...)]))) {
			b = append(b, f...)
		}
		n++
	}
	for !stop() {
		if t.messages.Load()-int64(got()) > 3*n {
			time.Sleep(50 * time.Microsecond)
			continue
		}
		t.messages.Add(n)
		conn.Send(nil, b)
	}
}

func c20(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	if c.I%29 == 3 {
		slowProvider(c, g, 0)
		return
	}
	g.p.Start()
	if r.P(1, 3) {
		g.cl.SetTimeout(r.Range(1500, 3000))
	}
	d := newDevice(r, r.Range(5, 60), r.Range(1, 4), r.Range(2, 8))
	if r.P(1, 8) {
		d = newChain(r)
		c.Count("deep", 1)
	}
	g.connect()
	k := g.learn(d)
	mode := rt.Pick(r, "storm", "storm", "queued", "overflow", "callbacks", "reconnect", "pending", "flood")
	c.Note("mode", mode)
	qs := split(r, d, r.Range(1, 6))
	// The path of the last request, which comes after all others.
	last := &requester{}
	if mode == "reconnect" || mode == "pending" {
		for _, q := range qs {
			if n := len(q.paths); n > 1 {
				last.paths, q.paths = q.paths[n-1:], q.paths[:n-1:n-1]
				break
			}
		}
		if last.paths == nil {
			mode = "storm"
		}
	}
	var listener embertree.Listener
	if r.Bool() {
		listener = &recorder{}
	}
	var t traffic
	var stop atomic.Bool
	var wg sync.WaitGroup
	background := func() {
		if !r.Bool() {
			return
		}
		f := r.Fork()
		conn := g.p.Last()
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.send(f, d, conn, f.Range(1, 30), f.Intn(20), stop.Load)
		}()
	}
	long := mode == "storm" && r.P(1, 12)
	if long {
		c.Count("long", 1)
	}
	storm := func(n int, pause bool) {
		var sg sync.WaitGroup
		for _, q := range qs {
			q, f := q, r.Fork()
			m := f.Range(1, n)
			sg.Add(1)
			go func() {
				defer sg.Done()
				if long {
					m = f.Range(800, 1600) / len(qs)
				}
				for i := 0; i < m; i++ {
					ok := q.issue(g, k, rt.Pick(f, q.paths...), listener)
					if long && !ok {
						time.Sleep(20 * time.Millisecond) // the queue is full
					}
					if pause && f.P(1, 4) {
						time.Sleep(time.Duration(f.Intn(6000)) * time.Microsecond)
					}
				}
			}()
		}
		sg.Wait()
	}
	exact := true
	cuts := 0 // Disconnects that may lose what is just being sent
	switch mode {
	case "storm":
		background()
		storm(60, r.Bool())
	case "flood":
		g.cl.SetLogger(logger.NewNullLogger())
		f := r.Fork()
		conn := g.p.Last()
		told := &recorder{}
		k.root.AddListener(told)
		wg.Add(1)
		go func() { defer wg.Done(); t.flood(f, d, conn, told.n, func() bool { return stop.Load() || c.Failed() }) }()
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		storm(60, r.Bool())
		c.Count("floods", 1)
	case "queued", "overflow":
		g.disconnect()
		n := 30
		if mode == "overflow" {
			qs = qs[:1]
			for i := 0; i < 2000; i++ {
				qs[0].issue(g, k, rt.Pick(r, qs[0].paths...), listener)
			}
			if len(qs[0].accepted) == 2000 {
				c.Fail("unbounded", "2000 requests were accepted while disconnected: the number of pending requests is not bounded")
			}
			c.Max("pending", len(qs[0].accepted))
		} else {
			storm(n, false)
		}
		for _, q := range qs {
			c.Count("before_connect", len(q.accepted))
		}
		if r.Bool() {
			time.Sleep(time.Duration(r.Intn(12)) * time.Millisecond)
		}
		g.connect()
		background()
		if mode == "queued" {
			storm(n, r.Bool())
		}
	case "callbacks":
		// the requests are issued by the client's own goroutine, as answers
		// to earlier ones come in
		qs = qs[:1]
		q := qs[0]
		f := r.Fork()
		left := r.Range(3, 60)
		var mu sync.Mutex
		done := make(chan struct{})
		s := &recorder{}
		s.then = func(node interface{}, err string) {
			mu.Lock()
			defer mu.Unlock()
			if left == 0 {
				return
			}
			for i := f.Range(1, 3); i > 0 && left > 0; i-- {
				left--
				q.issue(g, k, rt.Pick(f, q.paths...), s)
				c.Count("from_callbacks", 1)
			}
			if left == 0 {
				close(done)
			}
		}
		k.root.AddListener(s)
		conn := g.p.Last()
		var messages traffic
		go messages.send(r.Fork(), d, conn, 60, 0, func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 || c.Failed() })
		select {
		case <-done:
		case <-time.After(patience):
			c.Fail("not-received", "the root listener was not told of the messages sent")
		}
		k.root.RemoveListener(s)
		mu.Lock()
		mu.Unlock()
	case "reconnect":
		exact = false
		rounds := r.Range(1, 3)
		c.Count("reconnects", rounds)
		for i := 0; i < rounds; i++ {
			var sg sync.WaitGroup
			sg.Add(1)
			f := r.Fork()
			go func() { defer sg.Done(); storm(30, true) }()
			time.Sleep(time.Duration(f.Intn(30)) * time.Millisecond)
			g.disconnect()
			if f.Bool() {
				sg.Wait()
			}
			if f.Bool() {
				time.Sleep(time.Duration(f.Intn(10)) * time.Millisecond)
			}
			g.connect()
			sg.Wait()
		}
		// What is accepted from here on must arrive.
		g.disconnect()
		for _, q := range qs {
			q.since = len(q.accepted)
		}
		storm(10, false)
		g.connect()
		storm(20, r.Bool())
	}
	if mode == "pending" {
		// Requests still waiting at a Disconnect are sent later. The provider
		// is silent, so what was sent on the old connection arrives.
		exact = false
		for cuts = 1; ; cuts++ {
			var sg sync.WaitGroup
			sg.Add(1)
			f := r.Fork()
			old := g.p.Last()
			if f.Bool() {
				// What was sent arrives although the provider reads it later.
				old.Hold(true)
				c.Count("read_later", 1)
			}
			go func() { defer sg.Done(); storm(200/len(qs), false) }()
			if f.Bool() {
				sg.Wait()
			} else {
				time.Sleep(time.Duration(f.Intn(3000)) * time.Microsecond)
			}
			time.Sleep(time.Duration(f.Intn(rt.Pick(f, 30, 30, 400))) * time.Millisecond)
			g.disconnect()
			sg.Wait()
			time.Sleep(time.Duration(f.Intn(15)) * time.Millisecond)
			old.Hold(false)
			g.connect()
			if f.P(2, 3) {
				break
			}
		}
		sent := 0
		for _, q := range qs {
			sent += len(q.accepted)
		}
		n := 0
		g.must(func() bool {
			n = -1
			for _, conn := range g.p.Conns() {
				n += conn.Count("message")
			}
			return n >= sent-maxLost*cuts
		}, "lost", "%d requests were accepted, with %d Disconnects meanwhile; the provider received %d", sent, cuts, n)
		c.Count("pending_cuts", cuts)
		for _, q := range qs {
			q.since = len(q.accepted)
		}
		storm(5, false)
	}
	if !exact {
		end := time.Now().Add(patience)
		for !last.issue(g, k, last.paths[0], nil) {
			if time.Now().After(end) {
				c.Fail("refused", "requests are refused for %v on an open connection", patience)
			}
			time.Sleep(time.Millisecond)
		}
		qs = append(qs, last)
	}
	conns := g.p.Conns()
	total, sure := 0, 0
	for _, q := range qs {
		total += len(q.accepted)
		sure += len(q.accepted) - q.since
	}
	count := func() int {
		n := -1 // the first request of learn
		for _, conn := range conns {
			n += conn.Count("message")
		}
		return n
	}
	if exact {
		last, since := -1, time.Now()
		for n := count(); n < total; n = count() {
			if n != last {
				last, since = n, time.Now()
			}
			if time.Since(since) > patience {
				c.Note("stacks", stacks())
				c.Fail("not-sent", "%d of %d accepted requests were sent (%s), then none for %v on an open connection", n, total, mode, patience)
			}
			time.Sleep(2 * time.Millisecond)
		}
	} else {
		// What was accepted since the last Disconnect must come, after
		// whatever was still waiting then.
		g.must(func() bool {
			seq, _ := divide(qs, g.received(conns, 1))
			for _, q := range qs {
				s, tail := seq[q], q.accepted[q.since:]
				if len(s) < len(tail) || firstDiff(s[len(s)-len(tail):], tail) >= 0 {
					return false
				}
			}
			return true
		}, "not-sent", "of %d requests accepted since the last Disconnect, not all were sent, or not in order", sure)
	}
	stop.Store(true)
	wg.Wait()
	time.Sleep(time.Duration(r.Intn(25)) * time.Millisecond)
	g.end()
	got := g.received(conns, 1)
	c.Count("received", len(got))
	c.Distinct(mode, fmt.Sprint(got))
	c.Sample("%s: %d requesters, received %v", mode, len(qs), got)
	seq, unasked := divide(qs, got)
	if unasked != nil {
		c.Fail("unasked", "the provider received a request for %q, which nobody made", *unasked)
	}
	for _, q := range qs {
		s := seq[q]
		if exact {
			if d := firstDiff(s, q.accepted); d >= 0 {
				c.Note("sent", fmt.Sprint(s))
				c.Note("accepted", fmt.Sprint(q.accepted))
				c.Fail("order", "%s: the requests received differ from those accepted from number %d on (%d received, %d accepted)", mode, d, len(s), len(q.accepted))
			}
			continue
		}
		// Those around a Disconnect may be lost, the others not, and none is
		// sent twice or out of order.
		tail := q.accepted[q.since:]
		bad := len(s) < len(tail)
		if !bad {
			bad = firstDiff(s[len(s)-len(tail):], tail) >= 0 || !subsequence(s[:len(s)-len(tail)], q.accepted[:q.since])
		}
		if bad {
			c.Note("sent", fmt.Sprint(s))
			c.Note("accepted", fmt.Sprint(q.accepted))
			c.Fail("order", "%s: the requests received are not those accepted, in their order (%d since the last disconnect)", mode, len(tail))
		}
	}
}

// divide tells which requests received are whose.
func divide(qs []*requester, got []string) (seq map[*requester][]string, unasked *string) {
	owner := map[string]*requester{}
	for _, q := range qs {
		for _, p := range q.paths {
			owner[p] = q
		}
	}
	seq = map[*requester][]string{}
	for i, p := range got {
		q := owner[p]
		if q == nil {
			return seq, &got[i]
		}
		seq[q] = append(seq[q], p)
	}
	return seq, nil
}

func firstDiff(a, b []string) int {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return -1
}

func subsequence(a, b []string) bool {
	i := 0
	for _, x := range b {
		if i < len(a) && a[i] == x {
			i++
		}
	}
	return i == len(a)
}

// ---- keep-alives

func c21(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	if c.I%29 == 3 {
		n := r.Range(5, 300)
		c.Count("keepalives", n)
		slowProvider(c, g, n)
		c.Count("responses", n)
		return
	}
	var asked [4]traffic // per connection
	g.p.OnEvent = func(conn *prov.Conn, e prov.Event) {
		if e.Kind == "response" {
			if n := conn.Count("response"); int64(n) > asked[conn.N].asks.Load() {
				c.Report("unasked", "response %d came on connection %d although only %d requests were sent on it", n, conn.N, asked[conn.N].asks.Load())
			}
		}
	}
	g.p.Start()
	d := newDevice(r, r.Range(5, 60), r.Range(1, 4), r.Range(2, 8))
	deep := r.P(1, 8)
	if deep {
		d = newChain(r)
		c.Count("deep", 1)
	}
	g.connect()
	k := g.learn(d)
	told := &recorder{}
	k.root.AddListener(told)
	qs := split(r, d, r.Range(1, 4))
	rounds := r.Range(1, 2)
	flood := r.P(1, 8)
	if flood {
		g.cl.SetLogger(logger.NewNullLogger())
		c.Count("floods", 1)
	}
	long := !deep && r.P(1, 20)
	if long {
		c.Count("long", 1)
	}
	messages := 0
	for round := 0; round < rounds; round++ {
		conn := g.p.Last()
		t := &asked[conn.N]
		var wg sync.WaitGroup
		for i := r.Range(1, 2); i > 0; i-- {
			f := r.Fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				n, ka := f.Intn(30), f.Range(1, 75)
				if long {
					n, ka = f.Intn(400), f.Range(500, 1500)
				}
				if f.P(1, 4) {
					n = 0
				}
				t.send(f, d, conn, n, ka, func() bool { return false })
			}()
		}
		if flood {
			// The answers come meanwhile, not only afterwards.
			var over atomic.Bool
			var fg sync.WaitGroup
			f := r.Fork()
			fg.Add(1)
			go func() {
				defer fg.Done()
				before := told.n() - int(t.messages.Load()) // on the other connection
				t.flood(f, d, conn, func() int { return told.n() - before }, func() bool { return over.Load() || c.Failed() })
			}()
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			for i := r.Range(1, 10); i > 0; i-- {
				t.asks.Add(1)
				conn.Send(nil, ref.KeepAlive(true))
			}
			before := t.asks.Load()
			defer over.Store(true)
			g.must(func() bool { return int64(conn.Count("response")) >= before }, "unanswered",
				"keep-alive requests are not answered while the provider sends messages without pause")
			over.Store(true)
			fg.Wait()
		}
		for _, q := range qs {
			q, f := q, r.Fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := f.Intn(40); i > 0; i-- {
					q.issue(g, k, rt.Pick(f, q.paths...), nil)
					if f.P(1, 3) {
						time.Sleep(time.Duration(f.Intn(6000)) * time.Microsecond)
					}
				}
			}()
		}
		wg.Wait()
		total := 0
		for _, q := range qs {
			total += len(q.accepted)
		}
		g.must(func() bool { return int64(conn.Count("response")) >= t.asks.Load() }, "unanswered",
			"%d of %d keep-alive requests were answered", conn.Count("response"), t.asks.Load())
		messages += int(t.messages.Load())
		g.must(func() bool { return told.n() >= messages }, "messages", "of %d messages sent, %d were reported by the root listener", messages, told.n())
		g.must(func() bool {
			n := -1
			for _, conn := range g.p.Conns() {
				n += conn.Count("message")
			}
			return n >= total
		}, "not-sent", "not all of %d accepted requests were sent", total)
		if round == 0 && rounds == 2 {
			g.disconnect()
			g.connect()
		}
	}
	time.Sleep(time.Duration(r.Intn(25)) * time.Millisecond)
	g.end()
	c.Check(told.n() == messages, "messages", "%d messages were sent, %d reported by the root listener", messages, told.n())
	trace := ""
	for i, conn := range g.p.Conns() {
		t := &asked[i]
		n := conn.Count("response")
		c.Check(int64(n) == t.asks.Load(), "count", "on connection %d %d keep-alive requests were sent, %d responses received", i, t.asks.Load(), n)
		c.Count("keepalives", int(t.asks.Load()))
		c.Count("strays", int(t.strays.Load()))
		c.Count("inside_messages", int(t.inside.Load()))
		c.Count("messages", int(t.messages.Load()))
		c.Count("responses", n)
		for _, e := range conn.Events() {
			trace += e.Kind[:3] + " "
		}
	}
	got := g.received(g.p.Conns(), 1)
	c.Count("requests", len(got))
	seq, unasked := divide(qs, got)
	if unasked != nil {
		c.Fail("unasked", "the provider received a request for %q, which nobody made", *unasked)
	}
	for _, q := range qs {
		if i := firstDiff(seq[q], q.accepted); i >= 0 {
			c.Note("sent", fmt.Sprint(seq[q]))
			c.Note("accepted", fmt.Sprint(q.accepted))
			c.Fail("requests", "the requests received differ from those accepted from number %d on", i)
		}
	}
	c.Distinct(trace)
	c.Sample("%s", trace)
}

var _ errors.Error

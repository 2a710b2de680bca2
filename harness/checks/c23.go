package checks

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verif/harness/prov"
	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C23", Quick: 320, Deep: 6000, Run: c23, Race: true, Shards: 12, CPU: 60 * time.Second, Wall: 200 * time.Second,
		Rule: "under the race detector: 4 to 12 goroutines connect, disconnect, query the state, ask for directories and trees, add and remove listeners, with timeouts of 1 to 40 ms, while the provider answers, sends messages and closes connections, and callbacks do the same; or they add, remove and look for listeners of a tree and its elements while messages are decoded into it and contents replaced; non-trivial: distinct sequences of operations per goroutine",
		Min:  map[string]int64{"operations": 20000, "callbacks": 2000, "client_cases": 40, "tree_cases": 20, "decoded": 500, "connects": 100, "timeouts": 20}})
}

// busy is a listener that acts in its callbacks.
type busy struct {
	n       atomic.Int64
	errs    atomic.Int64
	mu      sync.Mutex
	r       *rt.Rand
	then    func(r *rt.Rand, node interface{}, err errors.Error)
	limit   int64
	reading bool
}

func (b *busy) Receive(node interface{}, err errors.Error) {
	n := b.n.Add(1)
	if err != nil {
		b.errs.Add(1)
	}
	if b.then == nil || n > b.limit {
		return
	}
	b.mu.Lock()
	r := b.r.Fork()
	b.mu.Unlock()
	b.then(r, node, err)
}

func c23(c *rt.Ctx) {
	if c.R.P(1, 3) {
		c23tree(c)
		c.Count("tree_cases", 1)
	} else {
		c23client(c)
		c.Count("client_cases", 1)
	}
}

func c23client(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	d := newDevice(r, r.Range(5, 40), r.Range(1, 4), r.Range(2, 6))
	var learning atomic.Bool
	learning.Store(true)
	prng := r.Fork()
	var pmu sync.Mutex
	fork := func() *rt.Rand {
		pmu.Lock()
		defer pmu.Unlock()
		return prng.Fork()
	}
	unanswered := r.Intn(4)
	g.p.OnEvent = func(conn *prov.Conn, e prov.Event) {
		if learning.Load() || e.Kind != "message" {
			return
		}
		f := fork()
		if f.P(unanswered, 6) {
			return
		}
		p, problem := requestPath(e.Es)
		if problem != "" {
			return
		}
		if len(p) > 0 && d.at[ref.PathString(p)] == nil {
			return
		}
		var b []byte
		for _, x := range frames(f, octets(f, d.answer(f, p))) {
			if f.P(1, 10) {
				b = append(b, ref.KeepAlive(true)...)
			}
			b = append(b, x...)
		}
		conn.Send(nil, b)
	}
	g.p.Start()
	timeout := rt.Pick(r, 0, r.Range(1, 10), r.Range(1, 40))
	g.connect()
	k := g.learn(d)
	g.cl.SetTimeout(timeout)
	learning.Store(false)
	var nodes []*embertree.Element
	for _, p := range d.all {
		nodes = append(nodes, k.at[p])
	}
	stop := time.Now().Add(time.Duration(r.Range(60, 250)) * time.Millisecond)
	var ops atomic.Int64
	var connects atomic.Int64
	var allMu sync.Mutex
	var all []*busy
	var act func(f *rt.Rand, deep int) string
	newBusy := func(f *rt.Rand, deep int) *busy {
		b := &busy{r: f.Fork(), limit: int64(f.Intn(4))}
		if deep < 2 {
			b.then = func(r *rt.Rand, node interface{}, err errors.Error) {
				if err == nil && r.P(1, 3) {
					// the tree may be read here
					switch x := node.(type) {
					case *embertree.RootElement:
						ref.RootFromLib(x)
					case *embertree.Element:
						x.GetPath()
						ref.FromLib(x)
					}
				}
				act(r, deep+1)
			}
		}
		allMu.Lock()
		all = append(all, b)
		allMu.Unlock()
		return b
	}
	act = func(f *rt.Rand, deep int) string {
		ops.Add(1)
		switch op := f.Intn(14); op {
		case 0:
			if g.cl.Connect("127.0.0.1", g.p.Port) == nil {
				connects.Add(1)
			}
			return "C"
		case 1:
			if f.Bool() {
				g.cl.Disconnect()
			}
			return "D"
		case 2:
			g.cl.IsConnected()
			return "?"
		case 3, 4, 5, 6:
			var l embertree.Listener
			if f.P(3, 4) {
				l = newBusy(f, deep)
			}
			g.cl.GetDirectory(rt.Pick(f, nodes...), l)
			return "d"
		case 7, 8:
			g.cl.GetDirectory(nil, newBusy(f, deep))
			return "r"
		case 9:
			g.cl.GetTree(newBusy(f, deep))
			return "t"
		case 10, 11:
			n := rt.Pick(f, nodes...)
			b := newBusy(f, deep)
			n.AddListener(b)
			if f.P(3, 4) {
				n.RemoveListener(b)
			}
			return "l"
		default:
			b := newBusy(f, deep)
			k.root.AddListener(b)
			if f.Bool() {
				k.root.HasListner(b)
			}
			if f.P(3, 4) {
				k.root.RemoveListener(b)
			}
			return "L"
		}
	}
	n := r.Range(4, 12)
	logs := make([]string, n)
	forks := make([]*rt.Rand, n)
	for i := range forks {
		forks[i] = r.Fork()
	}
	done := make(chan struct{})
	var background sync.WaitGroup
	for i := 0; i < 2; i++ { // the provider acts, too
		f := fork()
		background.Add(1)
		go func() {
			defer background.Done()
			for {
				select {
				case <-done:
					return
				default:
				}
				conn := g.p.Last()
				switch f.Intn(12) {
				case 0:
					conn.Close(f.Intn(3))
				case 1, 2, 3:
					conn.Send(f, ref.KeepAlive(f.Bool()))
				default:
					for _, x := range frames(f, octets(f, d.answer(f, d.path[rt.Pick(f, d.all...)]))) {
						conn.Send(nil, x)
					}
				}
				time.Sleep(time.Duration(f.Intn(5000)) * time.Microsecond)
			}
		}()
	}
	g.together(n, func(i int) {
		f := forks[i]
		for time.Now().Before(stop) {
			s := act(f, 0)
			if len(logs[i]) < 200 {
				logs[i] += s
			}
			if i == 0 && f.P(1, 3) && !g.cl.IsConnected() {
				if g.cl.Connect("127.0.0.1", g.p.Port) == nil {
					connects.Add(1)
				}
			}
			if f.P(2, 3) {
				time.Sleep(time.Duration(f.Intn(2500)) * time.Microsecond)
			}
		}
	})
	close(done)
	background.Wait()
	time.Sleep(time.Duration(timeout+5) * time.Millisecond)
	allMu.Lock()
	calls, errs := 0, 0
	for _, b := range all {
		calls += int(b.n.Load())
		errs += int(b.errs.Load())
	}
	allMu.Unlock()
	g.settle()
	g.p.Stop()
	c.Count("operations", int(ops.Load()))
	c.Count("callbacks", calls)
	c.Count("timeouts", errs)
	c.Count("connects", int(connects.Load()))
	c.Distinct(fmt.Sprint(logs))
	c.Sample("%v", logs)
}

// settle disconnects until callbacks connect no more.
func (g *rig) settle() {
	g.must(func() bool {
		g.cl.Disconnect()
		return len(inLibrary()) == 0
	}, "goroutines", "goroutines of the library remain")
}

func c23tree(c *rt.Ctx) {
	r := c.R
	root, t := embertree.NewTree(), ref.NewTreeModel()
	w := newWorld(r)
	// A tree to begin with; its elements stay.
	for i := 0; i < 6; i++ {
		es := w.message(t)
		t.Apply(canonAll(es))
		if msg := decodeRoot(root, w.octets(es)); msg != "" {
			c.Fail("decode", "a valid message is refused: %s", msg)
		}
	}
	var nodes []*embertree.Element
	for _, it := range t.Items() {
		if _, l := root.GetElementByPath(it.Path); l != nil {
			nodes = append(nodes, l)
		}
	}
	var messages [][]byte
	for i := r.Range(10, 60); i > 0; i-- {
		es := w.message(t)
		t.Apply(canonAll(es))
		messages = append(messages, w.octets(es))
	}
	var calls, ops atomic.Int64
	n := r.Range(2, 6)
	forks := make([]*rt.Rand, n)
	for i := range forks {
		forks[i] = r.Fork()
	}
	var stop atomic.Bool
	logs := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		f, i := forks[i], i
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []*busy
			for !stop.Load() {
				ops.Add(1)
				b := &busy{r: f.Fork(), limit: 3}
				if len(mine) >= 15 || len(mine) > 0 && f.Bool() {
					b = rt.Pick(f, mine...)
				} else {
					b.then = func(r *rt.Rand, node interface{}, err errors.Error) {
						calls.Add(1)
						if l, ok := node.(*embertree.Element); ok && r.Bool() {
							l.RemoveListener(b)
						} else if x, ok := node.(*embertree.RootElement); ok && r.Bool() {
							x.RemoveListener(b)
						}
						if r.P(1, 3) {
							root.AddListener(b)
						}
					}
					mine = append(mine, b)
				}
				op := f.Intn(6)
				if len(nodes) == 0 && op < 3 {
					op += 3
				}
				switch op {
				case 0:
					rt.Pick(f, nodes...).AddListener(b)
				case 1:
					rt.Pick(f, nodes...).RemoveListener(b)
				case 2:
					l := rt.Pick(f, nodes...)
					l.AddListener(b)
					l.RemoveListener(b)
				case 3:
					root.AddListener(b)
				case 4:
					root.RemoveListener(b)
				case 5:
					root.HasListner(b)
				}
				if len(logs[i]) < 200 {
					logs[i] += fmt.Sprint(op)
				}
				if f.P(1, 6) {
					time.Sleep(time.Duration(f.Intn(200)) * time.Microsecond)
				}
			}
		}()
	}
	for _, b := range messages {
		c.Input(b)
		if msg := decodeRoot(root, b); msg != "" {
			stop.Store(true)
			wg.Wait()
			c.Fail("decode", "a valid message is refused: %s", msg)
		}
		c.Count("decoded", 1)
		if len(nodes) > 0 && r.P(1, 3) {
			l := rt.Pick(r, nodes...)
			if ec := l.GetContent(); ec != nil {
				l.SetContents(ec)
			}
		}
		if r.P(1, 4) {
			time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
		}
	}
	stop.Store(true)
	wg.Wait()
	checkTree(c, root, t, "")
	c.Count("operations", int(ops.Load()))
	c.Count("callbacks", int(calls.Load()))
	c.Distinct(fmt.Sprint(logs))
}

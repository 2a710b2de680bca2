package checks

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verif/harness/prov"
	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C22", Quick: 2000, Deep: 20000, Run: c22, Shards: 16,
		Rule: "histories of 4 to 20 steps on one client: Connect, Disconnect, Connect to a dead port, both in the wrong state, the peer closing (end, reset, half-close, within a frame or a message, with unread data), both from callbacks, from several goroutines at once, under traffic, with a peer that does not read, calls while a Connect takes long, and connections left idle for 9 to 36 s or used in one direction only; non-trivial: distinct histories",
		Min: map[string]int64{"connects": 500, "disconnects": 300, "refused": 200, "peer_closes": 200, "exchanges": 500, "from_callback": 50,
			"concurrent": 50, "goroutine_scans": 300, "dead_port": 50, "idle": 4}})
}

// deadPort is a port of the loopback network nobody listens on.
func deadPort() (uint16, func()) {
	// A bound socket that does not listen refuses connections and keeps the
	// port from being given to somebody else.
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic("harness: " + err.Error())
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return uint16(sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

// tarpit is a port of the loopback network on which connecting takes long: its
// queue is full. Once it is freed, connecting fails. The port is chosen outside
// the range of those given to other listeners, and stays taken for a while
// after it was freed, so that the client, which still tries, cannot reach
// somebody else there.
func tarpit() (uint16, func()) {
	p, fd := 0, -1
	for try := 0; ; try++ {
		var err error
		fd, err = syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			panic("harness: " + err.Error())
		}
		p = 10000 + rand.Intn(20000)
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}, Port: p})
		if err == nil {
			break
		}
		syscall.Close(fd)
		if try > 1000 {
			panic("harness: " + err.Error())
		}
	}
	if err := syscall.Listen(fd, 0); err != nil {
		panic("harness: " + err.Error())
	}
	var fill []int
	for i := 0; i < 3; i++ {
		f, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC|syscall.SOCK_NONBLOCK, 0)
		if err != nil {
			panic("harness: " + err.Error())
		}
		syscall.Connect(f, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}, Port: p})
		fill = append(fill, f)
	}
	return uint16(p), func() {
		syscall.Shutdown(fd, syscall.SHUT_RD) // no longer listens, still has the port
		for _, f := range fill {
			syscall.Close(f)
		}
		time.AfterFunc(20*time.Second, func() { syscall.Close(fd) })
	}
}

type life struct {
	*rig
	d    *device
	up   bool
	n    int // connections the provider must have got
	log  string
	mute atomic.Bool // the provider answers nothing
}

func (g *life) step(format string, a ...interface{}) {
	g.log += fmt.Sprintf(format, a...) + "; "
	g.c.Note("history", g.log)
}

func (g *life) state(when string) {
	if got := g.cl.IsConnected(); got != g.up {
		g.c.Fail("state", "IsConnected is %v %s, expected %v", got, when, g.up)
	}
}

func (g *life) conn() *prov.Conn { return g.p.Last() }

func (g *life) doConnect() {
	g.step("connect")
	g.connect()
	g.up = true
	g.n++
	g.state("after Connect succeeded")
	g.c.Count("connects", 1)
}

func (g *life) doDisconnect() {
	g.step("disconnect")
	conn := g.conn()
	g.disconnect()
	g.up = false
	g.state("after Disconnect succeeded")
	g.closed(conn, "after Disconnect")
	g.c.Count("disconnects", 1)
}

func (g *life) closed(conn *prov.Conn, when string) {
	g.must(conn.Ended, "open", "the connection is still open %s", when)
}

// exchange sends a request and gets an answer over the current connection.
func (g *life) exchange() {
	g.step("exchange")
	s := &recorder{}
	roots := make(chan *embertree.RootElement, 100)
	s.then = func(node interface{}, err string) {
		if root, ok := node.(*embertree.RootElement); ok && err == "" {
			select {
			case roots <- root:
			default:
			}
		}
	}
	before := g.conn().Count("message")
	g.mute.Store(true)
	var e errors.Error
	for i := 0; ; i++ {
		g.within("GetDirectory", func() { e = g.cl.GetDirectory(nil, s) })
		if e == nil {
			break
		}
		// the queue may be full of earlier requests
		if i > 2000 {
			g.c.Fail("refused", "a request on an open connection is refused for ever: %s", es(e))
		}
		time.Sleep(5 * time.Millisecond)
	}
	g.must(func() bool { return g.conn().Count("message") > before }, "exchange", "a request accepted on the new connection was not sent")
	sent := g.conn().Send(g.r, ref.EmberFrame(ref.First|ref.Last, octets(g.r, g.d.answer(g.r, nil))))
	select {
	case root := <-roots:
		root.RemoveListener(s)
	case <-time.After(patience):
		g.c.Note("stacks", stacks())
		g.c.Fail("exchange", "an answer sent on the new connection (%v) was not reported to the listener", sent)
	}
	g.mute.Store(false)
	g.state("after an exchange")
	g.c.Count("exchanges", 1)
}

// peerCloses has the provider end the connection in some way.
func (g *life) peerCloses() {
	r := g.r
	how := r.Intn(3)
	conn := g.conn()
	what := r.Intn(4)
	g.step("peer closes (%d, %d)", how, what)
	switch what {
	case 1: // within a frame
		f := ref.EmberFrame(ref.First|ref.Last, octets(r, g.d.answer(r, nil)))
		conn.Send(r, f[:r.Intn(len(f))])
	case 2: // within a message
		fs := ref.Frames(octets(r, g.d.top), []int{0, 1, 2})
		for _, f := range fs[:r.Range(1, 3)] {
			conn.Send(r, f)
		}
	case 3: // with requests under way
		for i := r.Range(1, 10); i > 0; i-- {
			g.within("GetDirectory", func() { g.cl.GetDirectory(nil, nil) })
		}
		if r.Bool() {
			time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
		}
	}
	conn.Close(how)
	g.must(func() bool { return !g.cl.IsConnected() }, "state", "IsConnected is still true %v after the peer closed the connection (%d)", patience, how)
	g.up = false
	g.closed(conn, "after the peer closed its side")
	g.c.Count("peer_closes", 1)
}

func c22(c *rt.Ctx) {
	r := c.R
	g := &life{rig: newRig(c)}
	g.d = newDevice(r, r.Range(1, 12), 3, 4)
	answers := r.Fork()
	var amu sync.Mutex
	g.p.OnEvent = func(conn *prov.Conn, e prov.Event) {
		if e.Kind != "message" || g.mute.Load() {
			return
		}
		if p, problem := requestPath(e.Es); problem == "" {
			amu.Lock()
			f := answers.Fork()
			amu.Unlock()
			if len(p) == 0 || g.d.at[ref.PathString(p)] != nil {
				for _, b := range frames(f, octets(f, g.d.answer(f, p))) {
					conn.Send(f, b)
				}
			}
		}
	}
	g.p.Start()
	switch r.Intn(4) {
	case 0:
		g.cl.SetTimeout(r.Range(1500, 3000))
	case 1:
		g.cl.SetTimeout(r.Range(1, 60))
	}
	g.state("before anything")
	if n, ok := map[int]int{5: 36, 10: 22, 23: 13, 28: 9}[c.I%4000]; ok {
		g.idle(n)
		return
	}
	steps := r.Range(4, 20)
	if r.P(1, 40) {
		steps = r.Range(60, 200)
		c.Count("long", 1)
	}
	stalled := r.P(1, 24)
	slow := r.P(1, 24)
	for i := 0; i < steps; i++ {
		if !g.up {
			if slow {
				slow = false
				g.slowly()
				g.state("at the end of the step")
				continue
			}
			switch r.Intn(8) {
			case 0:
				g.step("disconnect refused")
				var e errors.Error
				g.within("Disconnect", func() { e = g.cl.Disconnect() })
				c.Check(e != nil, "disconnect", "Disconnect of a client that is not connected succeeded")
				c.Count("refused", 1)
			case 1:
				g.step("connect to a dead port")
				p, free := deadPort()
				var e errors.Error
				g.within("Connect", func() { e = g.cl.Connect("127.0.0.1", p) })
				free()
				c.Check(e != nil, "connect", "Connect to a port nobody listens on succeeded")
				c.Count("dead_port", 1)
			case 2:
				g.step("requests while disconnected")
				for k := r.Range(1, 20); k > 0; k-- {
					g.within("GetDirectory", func() { g.cl.GetDirectory(nil, nil) })
				}
			case 3:
				g.step("concurrent connects")
				var ok atomic.Int64
				g.together(r.Range(2, 6), func(int) {
					if g.cl.Connect("127.0.0.1", g.p.Port) == nil {
						ok.Add(1)
					}
				})
				c.Check(ok.Load() == 1, "concurrent", "%d of several concurrent Connects succeeded", ok.Load())
				g.up = true
				g.n++
				g.must(func() bool { return len(g.p.Conns()) >= g.n }, "connect", "the provider got no connection although Connect succeeded")
				c.Count("concurrent", 1)
			case 4:
				g.step("connect, then close at once")
				g.doConnect()
				g.conn().Close(r.Intn(3))
				g.must(func() bool { return !g.cl.IsConnected() }, "state", "IsConnected is still true %v after the peer closed the connection", patience)
				g.up = false
				c.Count("peer_closes", 1)
			default:
				g.doConnect()
				if r.P(3, 4) {
					g.exchange()
				}
			}
			g.state("at the end of the step")
			continue
		}
		switch k := r.Intn(12); k {
		case 0:
			g.step("connect refused")
			var e errors.Error
			g.within("Connect", func() { e = g.cl.Connect("127.0.0.1", g.p.Port) })
			c.Check(e != nil, "connect", "Connect of a connected client succeeded")
			c.Count("refused", 1)
			if r.Bool() {
				g.exchange()
			}
		case 1, 2:
			g.peerCloses()
		case 3:
			g.step("concurrent disconnects")
			conn := g.conn()
			var ok atomic.Int64
			g.together(r.Range(2, 6), func(int) {
				if g.cl.Disconnect() == nil {
					ok.Add(1)
				}
			})
			c.Check(ok.Load() == 1, "concurrent", "%d of several concurrent Disconnects succeeded", ok.Load())
			g.up = false
			g.closed(conn, "after concurrent Disconnects")
			c.Count("concurrent", 1)
		case 4:
			g.step("connects and disconnects at once")
			var ups, downs atomic.Int64
			forks := []*rt.Rand{r.Fork(), r.Fork(), r.Fork(), r.Fork()}
			g.together(4, func(i int) {
				f := forks[i]
				for k := f.Range(2, 12); k > 0; k-- {
					if f.Bool() {
						if g.cl.Connect("127.0.0.1", g.p.Port) == nil {
							ups.Add(1)
						}
					} else if g.cl.Disconnect() == nil {
						downs.Add(1)
					}
					if f.P(1, 4) {
						g.cl.GetDirectory(nil, nil)
					}
					if f.P(1, 3) {
						time.Sleep(time.Duration(f.Intn(3000)) * time.Microsecond)
					}
				}
			})
			g.n += int(ups.Load())
			now := 1 + ups.Load() - downs.Load()
			c.Check(now == 0 || now == 1, "concurrent", "%d Connects and %d Disconnects of a connected client succeeded", ups.Load(), downs.Load())
			g.up = now == 1
			g.must(func() bool { return len(g.p.Conns()) >= g.n }, "connect", "the provider got fewer connections than Connects succeeded")
			open := func() int {
				n := 0
				for _, conn := range g.p.Conns() {
					if !conn.Ended() {
						n++
					}
				}
				return n
			}
			g.must(func() bool { return open() == int(now) }, "open", "connections that were disconnected are still open (%d expected)", now)
			c.Count("concurrent", 1)
		case 5, 6:
			// from a callback of the client's own goroutine
			reconnect := r.Bool()
			g.step("disconnect from a callback (connect: %v)", reconnect)
			conn := g.conn()
			s := &recorder{}
			var once sync.Once
			var e1, e2 errors.Error
			done := make(chan struct{})
			s.then = func(node interface{}, err string) {
				if node == nil {
					return // timed out
				}
				once.Do(func() {
					defer close(done)
					node.(*embertree.RootElement).RemoveListener(s)
					e1 = g.cl.Disconnect()
					if reconnect {
						e2 = g.cl.Connect("127.0.0.1", g.p.Port)
					}
				})
			}
			g.within("GetDirectory", func() { g.cl.GetDirectory(nil, s) })
			// the answer
			conn.Send(g.r, ref.EmberFrame(ref.First|ref.Last, octets(g.r, g.d.answer(g.r, nil))))
			select {
			case <-done:
			case <-time.After(patience):
				c.Note("stacks", stacks())
				c.Fail("wedged", "Disconnect from a callback did not end")
			}
			c.Check(e1 == nil && e2 == nil, "callback", "Disconnect from a callback: %s; Connect from it: %s", es(e1), es(e2))
			g.up = reconnect
			g.closed(conn, "after Disconnect from a callback")
			if reconnect {
				g.n++
				g.must(func() bool { return len(g.p.Conns()) >= g.n }, "connect", "the provider got no connection although Connect from a callback succeeded")
			}
			c.Count("from_callback", 1)
		case 7:
			g.step("requests and disconnect")
			conn := g.conn()
			var ok atomic.Int64
			f := r.Fork()
			g.together(3, func(i int) {
				if i == 0 {
					time.Sleep(time.Duration(f.Intn(12)) * time.Millisecond)
					if g.cl.Disconnect() == nil {
						ok.Add(1)
					}
					return
				}
				for k := 0; k < 20; k++ {
					g.cl.GetDirectory(nil, nil)
					if k%4 == 0 {
						time.Sleep(time.Millisecond)
					}
				}
			})
			c.Check(ok.Load() == 1, "disconnect", "Disconnect of a connected client failed under traffic")
			g.up = false
			g.closed(conn, "after Disconnect")
			c.Count("disconnects", 1)
		case 8:
			if stalled {
				stalled = false
				g.stall()
				break
			}
			fallthrough
		case 9:
			g.doDisconnect()
		default:
			g.exchange()
		}
		g.state("at the end of the step")
	}
	if g.up && r.Bool() {
		g.peerCloses()
		g.noGoroutines("after the peer closed the connection")
	}
	g.end()
	g.up = false
	g.state("at the end")
	if n := len(g.p.Conns()); n != g.n {
		c.Fail("connections", "the provider got %d connections, %d Connects succeeded", n, g.n)
	}
	c.Distinct(g.log)
	c.Sample("%s", g.log)
}

// idle leaves a connection alone for some seconds, or with traffic in one
// direction only; it must stay open and work afterwards.
func (g *life) idle(seconds int) {
	r := g.r
	g.doConnect()
	if r.Bool() {
		g.exchange()
	}
	conn := g.conn()
	what := rt.Pick(r, "silent", "silent", "sending", "receiving")
	g.step("idle for %d s (%s)", seconds, what)
	g.mute.Store(true)
	requests := conn.Count("message")
	for end := time.Now().Add(time.Duration(seconds) * time.Second); time.Now().Before(end); {
		time.Sleep(time.Duration(r.Range(100, 1500)) * time.Millisecond)
		switch what {
		case "sending":
			var e errors.Error
			g.within("GetDirectory", func() { e = g.cl.GetDirectory(nil, nil) })
			g.c.Check(e == nil, "refused", "a request on an open connection is refused: %s", es(e))
			requests++
		case "receiving":
			conn.Send(r, ref.EmberFrame(ref.First|ref.Last, octets(r, g.d.answer(r, nil))))
		}
		g.state("on an idle connection")
		g.c.Check(!conn.Ended(), "idle", "the client has closed a connection with nothing wrong about it (%s)", g.log)
	}
	g.must(func() bool { return conn.Count("message") >= requests }, "exchange", "requests made on an idle connection were not sent")
	n := conn.Count("response")
	conn.Send(nil, ref.KeepAlive(true))
	g.must(func() bool { return conn.Count("response") > n }, "exchange", "a keep-alive request on an idle connection was not answered")
	g.exchange()
	g.c.Check(len(g.p.Conns()) == g.n, "connections", "the provider got %d connections, %d Connects succeeded", len(g.p.Conns()), g.n)
	g.c.Count("idle", 1)
	g.c.Count("idle_seconds", seconds)
	if r.Bool() {
		g.doDisconnect()
	} else {
		g.peerCloses()
	}
	g.doConnect()
	g.exchange()
	g.doDisconnect()
	g.noGoroutines("after Disconnect")
	g.end()
	g.c.Distinct(g.log)
	g.c.Sample("%s", g.log)
}

// together runs f in n goroutines at once; all must return.
func (g *rig) together(n int, f func(i int)) {
	g.within("a call made by several goroutines", func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f(i)
			}()
		}
		close(start)
		wg.Wait()
	})
	g.c.Count("goroutines", n)
}

// slowly connects to a port on which connecting takes long; meanwhile the
// client is not connected and does not block.
func (g *life) slowly() {
	g.step("connect that takes long")
	p, free := tarpit()
	freed := false
	defer func() {
		if !freed {
			free()
		}
	}()
	var e errors.Error
	done := make(chan struct{})
	go func() {
		defer close(done)
		e = g.cl.Connect("127.0.0.1", p)
	}()
	start := time.Now()
	for time.Since(start) < 100*time.Millisecond {
		select {
		case <-done:
			g.c.Count("not_slow", 1)
			if e == nil {
				g.within("Disconnect", func() { g.cl.Disconnect() })
			}
			return
		case <-time.After(5 * time.Millisecond):
		}
		var is bool
		var d errors.Error
		g.within("IsConnected while Connect is under way", func() { is = g.cl.IsConnected() })
		g.c.Check(!is, "state", "IsConnected is true while Connect is under way")
		g.within("Disconnect while Connect is under way", func() { d = g.cl.Disconnect() })
		g.c.Check(d != nil, "disconnect", "Disconnect succeeds while Connect is under way")
		g.within("GetDirectory while Connect is under way", func() { g.cl.GetDirectory(nil, nil) })
	}
	free()
	freed = true
	g.within("Connect to a port that is closed meanwhile", func() { <-done })
	g.c.Check(e != nil, "connect", "Connect to a port nobody accepts at succeeded")
	g.c.Count("slow", 1)
}

// stall connects the client to a peer that floods it with keep-alive requests
// and reads nothing, so that its sending blocks; it must still disconnect.
func (g *life) stall() {
	g.doDisconnect()
	g.step("peer that does not read")
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer l.Close()
	got := make(chan *net.TCPConn, 1)
	go func() {
		nc, err := l.Accept()
		if err != nil {
			return
		}
		t := nc.(*net.TCPConn)
		t.SetReadBuffer(4096)
		got <- t
	}()
	var e errors.Error
	g.within("Connect", func() { e = g.cl.Connect("127.0.0.1", uint16(l.Addr().(*net.TCPAddr).Port)) })
	g.c.Check(e == nil, "connect", "Connect failed: %s", es(e))
	t := <-got
	defer t.Close()
	var ka []byte
	for len(ka) < 1<<16 {
		ka = append(ka, ref.KeepAlive(true)...)
	}
	sent := 0
	for sent < 64<<20 {
		t.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
		n, err := t.Write(ka)
		sent += n
		if err != nil {
			break // blocked: the client no longer reads
		}
	}
	if sent < 64<<20 {
		g.c.Count("stalled", 1)
	}
	g.c.Check(g.cl.IsConnected(), "state", "IsConnected is false although the connection is open")
	g.within("GetDirectory", func() { g.cl.GetDirectory(nil, nil) })
	g.disconnect()
	g.up = false
	g.state("after Disconnect from a peer that does not read")
	g.c.Count("disconnects", 1)
}

// Package prov is a scripted Ember+ provider: it listens on the loopback
// network, records everything a client sends, and sends what it is told to.
package prov

import (
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/ref"
	"verif/harness/rt"
)

// Event is one thing received.
type Event struct {
	At   time.Time
	Kind string // "message", "request" or "response" (keep-alives), "bad"
	Es   []*ref.Elem
	Text string
}

type Provider struct {
	l      net.Listener
	Port   uint16
	mu     sync.Mutex
	conns  []*Conn
	wg     sync.WaitGroup
	closed bool
	// OnConn is called for each connection before anything is read from it,
	// OnEvent for each event, in the goroutine that reads the connection.
	OnConn  func(c *Conn)
	OnEvent func(c *Conn, e Event)
}

type Conn struct {
	C  net.Conn
	N  int // number of the connection, from 0
	p  *Provider
	mu sync.Mutex
	ev []Event
	// partial tells that the stream ended within a frame.
	ended  bool
	wmu    sync.Mutex
	broken bool
	hold   atomic.Bool
}

// Hold makes the provider stop reading from the connection, but for what it
// is just reading, or go on.
func (c *Conn) Hold(stop bool) { c.hold.Store(stop) }


// New starts a provider.
func New() (*Provider, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	return &Provider{l: l, Port: uint16(l.Addr().(*net.TCPAddr).Port)}, nil
}

// Start accepts connections.
func (p *Provider) Start() {
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		for {
			nc, err := p.l.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			if p.closed {
				p.mu.Unlock()
				nc.Close()
				return
			}
			c := &Conn{C: nc, N: len(p.conns), p: p}
			p.conns = append(p.conns, c)
			p.wg.Add(1)
			p.mu.Unlock()
			if p.OnConn != nil {
				p.OnConn(c)
			}
			go c.read()
		}
	}()
}

// Stop ends everything.
func (p *Provider) Stop() {
	p.mu.Lock()
	p.closed = true
	conns := append([]*Conn{}, p.conns...)
	p.mu.Unlock()
	p.l.Close()
	for _, c := range conns {
		c.C.Close()
	}
	p.wg.Wait()
}

func (p *Provider) isClosed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed
}

func (p *Provider) Conns() []*Conn {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]*Conn{}, p.conns...)
}

// Last is the newest connection, or nil.
func (p *Provider) Last() *Conn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.conns) == 0 {
		return nil
	}
	return p.conns[len(p.conns)-1]
}

func (c *Conn) event(e Event) {
	e.At = time.Now()
	c.mu.Lock()
	c.ev = append(c.ev, e)
	c.mu.Unlock()
	if c.p.OnEvent != nil {
		c.p.OnEvent(c, e)
	}
}

func (c *Conn) read() {
	defer c.p.wg.Done()
	rec := ref.Receiver{
		OnFrame: func(f ref.Frame) {
			switch f.Cmd {
			case 1:
				c.event(Event{Kind: "request"})
			case 2:
				c.event(Event{Kind: "response"})
			}
		},
		OnMsg: func(b []byte) {
			es, err := ref.ParseRoot(b)
			if err != nil {
				c.event(Event{Kind: "bad", Text: "not a Glow message: " + err.Error()})
				return
			}
			c.event(Event{Kind: "message", Es: es})
		},
		OnError: func(s string) { c.event(Event{Kind: "bad", Text: s}) },
	}
	buf := make([]byte, 65536)
	for {
		for c.hold.Load() && !c.p.isClosed() {
			time.Sleep(time.Millisecond)
		}
		n, err := c.C.Read(buf)
		rec.Feed(buf[:n])
		if err != nil {
			break
		}
	}
	c.mu.Lock()
	c.ended = true
	c.mu.Unlock()
}

// Ended tells whether the stream has ended.
func (c *Conn) Ended() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ended
}

// Events is what was received so far.
func (c *Conn) Events() []Event {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Event{}, c.ev...)
}

// Count counts the events of a kind.
func (c *Conn) Count(kind string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, e := range c.ev {
		if e.Kind == kind {
			n++
		}
	}
	return n
}

// Send writes octets, cut into segments when r is given. It tells whether
// everything was written.
func (c *Conn) Send(r *rt.Rand, b []byte) bool {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	return c.send(r, b)
}

func (c *Conn) send(r *rt.Rand, b []byte) bool {
	for len(b) > 0 {
		n := len(b)
		if r != nil {
			switch r.Intn(6) {
			case 0:
				n = 1 + r.Intn(3)
			case 1:
				n = 1 + r.Intn(len(b))
			}
			if n > len(b) {
				n = len(b)
			}
		}
		if _, err := c.C.Write(b[:n]); err != nil {
			c.broken = true
			return false
		}
		b = b[n:]
		if r != nil && len(b) > 0 && r.P(1, 3) {
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		}
	}
	return true
}

// Do runs f while nothing else is sent; f sends with the function it is given.
func (c *Conn) Do(f func(send func(r *rt.Rand, b []byte) bool)) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	f(c.send)
}

// Close closes the connection: how is 0 for an orderly end, 1 for a reset, 2
// for the end of what the provider sends only.
func (c *Conn) Close(how int) {
	t := c.C.(*net.TCPConn)
	switch how {
	case 1:
		t.SetLinger(0)
	case 2:
		t.CloseWrite()
		return
	}
	c.C.Close()
}

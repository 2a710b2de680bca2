package main

import (
	"bytes"
	"net"
	"sync"
	"time"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

// peer is a provider: it records what the client sends.
type peer struct {
	ln        net.Listener
	mu        sync.Mutex
	conn      net.Conn
	requests  [][]byte // messages received
	responses int      // keep-alive responses received
	onRequest func(p *peer, msg []byte)
}

func newPeer() *peer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	p := &peer{ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			p.conn = c
			p.mu.Unlock()
			go p.serve(c)
		}
	}()
	return p
}

func (p *peer) port() uint16 { return uint16(p.ln.Addr().(*net.TCPAddr).Port) }

// serve cuts the stream into frames itself.
func (p *peer) serve(c net.Conn) {
	var frame, msg []byte
	esc, in := false, false
	buf := make([]byte, 65536)
	for {
		n, err := c.Read(buf)
		for _, b := range buf[:n] {
			switch {
			case b == 0xFE:
				frame, in, esc = nil, true, false
			case b == 0xFF && in:
				in = false
				if len(frame) < 6 {
					break
				}
				f := frame[:len(frame)-2]
				switch f[2] {
				case 2:
					p.mu.Lock()
					p.responses++
					p.mu.Unlock()
				case 0:
					if f[4]&0x80 != 0 {
						msg = nil
					}
					msg = append(msg, f[9:]...)
					if f[4]&0x40 != 0 {
						m := append([]byte{}, msg...)
						p.mu.Lock()
						p.requests = append(p.requests, m)
						h := p.onRequest
						p.mu.Unlock()
						if h != nil {
							h(p, m)
						}
					}
				}
			case b == 0xFD:
				esc = true
			default:
				if esc {
					b ^= 0x20
					esc = false
				}
				frame = append(frame, b)
			}
		}
		if err != nil {
			return
		}
	}
}

func (p *peer) send(b []byte) {
	p.mu.Lock()
	c := p.conn
	p.mu.Unlock()
	c.Write(b)
}

// sendMsg sends a Glow message.
func (p *peer) sendMsg(m []byte) {
	l := socket.EncodeMessage(m)
	var all bytes.Buffer
	for i := 0; i < l.Size(); i++ {
		b, _ := l.GetBytesAt(i)
		all.Write(b)
	}
	p.send(all.Bytes())
}

func (p *peer) got() [][]byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([][]byte{}, p.requests...)
}

func (p *peer) answered() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.responses
}

func (p *peer) connected() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.conn != nil
}

func (p *peer) connect() *socket.S101Client {
	c := socket.NewS101Client()
	p.join(c)
	return c
}

func (p *peer) join(c *socket.S101Client) {
	if err := c.Connect("127.0.0.1", p.port()); err != nil {
		fail("connect: %v", err.Message)
	}
	wait("connection", 5*time.Second, p.connected)
}

// until waits for cond and tells whether it came.
func until(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

func wait(what string, d time.Duration, cond func() bool) {
	if !until(d, cond) {
		fail("no %s within %v", what, d)
	}
}

var _ errors.Error

package checks

import (
	"net"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"

	"verif/harness/ref"
	"verif/harness/rt"
)

// slowProvider: the provider stops reading for a while, while the client has
// more to send than the connection takes up, so that its sending is held up
// within a message. All of it must arrive once the provider reads again, and
// each keep-alive request sent meanwhile be answered once.
func slowProvider(c *rt.Ctx, g *rig, keepalives int) {
	r := c.R
	g.p.Start()
	g.connect()
	conn := g.p.Last()
	conn.C.(*net.TCPConn).SetReadBuffer(256 << 10)
	var elems []*embertree.Element
	var want []string
	total := 0
	for total < 8<<20 && len(elems) < 250 {
		p := make(asn1.RelativeOID, r.Range(2000, 20000))
		for i := range p {
			p[i] = int32(r.Range(1<<27, 1<<31-1))
		}
		total += 5 * len(p)
		e := embertree.NewQualifiedNode(p)
		if r.P(1, 4) {
			e = embertree.NewQualifiedParameter(p)
		}
		elems = append(elems, e)
		want = append(want, ref.PathString(p))
	}
	holds := r.Range(1, 3)
	stop := make(chan struct{})
	done := make(chan struct{})
	f := r.Fork()
	conn.Hold(true)
	go func() {
		defer close(done)
		for i := 0; i < holds; i++ {
			conn.Hold(true)
			select {
			case <-stop:
			case <-time.After(time.Duration(f.Range(150, 500)) * time.Millisecond):
			}
			conn.Hold(false)
			time.Sleep(time.Duration(f.Range(1, 30)) * time.Millisecond)
		}
	}()
	if keepalives > 0 {
		h := r.Fork()
		go func() {
			for i := 0; i < keepalives; i++ {
				conn.Send(nil, ref.KeepAlive(true))
				if h.P(1, 3) {
					time.Sleep(time.Duration(h.Range(1, 20)) * time.Millisecond)
				}
			}
		}()
	}
	for i, e := range elems {
		e := e
		if err := g.cl.GetDirectory(e, nil); err != nil {
			c.Fail("refused", "request %d of %d is refused on an open connection: %s", i, len(elems), es(err))
		}
		c.Count("accepted", 1)
	}
	<-done
	close(stop)
	last, since := -1, time.Now()
	for {
		n := conn.Count("message") + conn.Count("response")
		if conn.Count("message") >= len(want) && conn.Count("response") >= keepalives {
			break
		}
		if n != last {
			last, since = n, time.Now()
		}
		if time.Since(since) > patience {
			c.Note("stacks", stacks())
			c.Fail("not-sent", "%d of %d accepted requests and %d of %d keep-alive responses were sent to a provider that had stopped reading for a while, then nothing for %v",
				conn.Count("message"), len(want), conn.Count("response"), keepalives, patience)
		}
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(time.Duration(r.Intn(25)) * time.Millisecond)
	if !g.cl.IsConnected() {
		c.Fail("state", "the client has disconnected from a provider that had stopped reading for a while")
	}
	g.end()
	got := g.received(g.p.Conns(), 0)
	if d := firstDiff(got, want); d >= 0 {
		c.Fail("order", "the requests received differ from those accepted from number %d on (%d received, %d accepted)", d, len(got), len(want))
	}
	if n := conn.Count("response"); n != keepalives {
		c.Fail("responses", "%d keep-alive responses to %d requests", n, keepalives)
	}
	c.Count("received", len(got))
	c.Count("slow", 1)
	c.Distinct("slow", total, len(got), keepalives)
}

package checks

import (
	"bytes"
	"fmt"
	"os"
	"sync"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C32", Quick: 3000, Deep: 40000, Run: c32, Shards: 12,
		Rule: "a case gives the same stream of intact, damaged and hostile frames to decoders with no logger and with others (the user's, the console's at every level, replaced on the way, nil), the same messages to trees and elements with such loggers, and every fifth lets a client with a logger of the user, replaced on the way, receive valid and damaged messages; results, notifications and trees must not depend on the logger, replaced loggers hear nothing, and the client's loggers get exactly the errors that occurred; non-trivial: a distinct stream or history",
		Min:  map[string]int64{"decoder_runs": 2000, "tree_runs": 2000, "log_calls": 20000, "replaced": 500, "nil_loggers": 300, "client_errors": 300, "client_messages": 500, "console": 500, "errors_in_decoder": 500}})
}

// diary is a user's logger. It uses what it is given, as a logger does.
type diary struct {
	mu     sync.Mutex
	calls  int
	errs   []string
	nils   int
	level  logger.LogLevel
	silent bool // it must not be called any more
	late   int
	last   string
}

func (d *diary) note(s string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.calls++
	if d.silent {
		d.late++
		d.last = s
	}
}

func (d *diary) Error(e errors.Error) {
	if e == nil {
		d.mu.Lock()
		d.nils++
		d.mu.Unlock()
		d.note("nil error")
		return
	}
	d.mu.Lock()
	d.errs = append(d.errs, es(e))
	d.mu.Unlock()
	d.note(fmt.Sprint(es(e), e.Stack))
}
func (d *diary) Warn(format string, a ...interface{})  { d.note(fmt.Sprintf(format, a...)) }
func (d *diary) Info(format string, a ...interface{})  { d.note(fmt.Sprintf(format, a...)) }
func (d *diary) Debug(format string, a ...interface{}) { d.note(fmt.Sprintf(format, a...)) }
func (d *diary) Debugln(a ...interface{})              { d.note(fmt.Sprint(len(a))) }
func (d *diary) SetLogLevel(level logger.LogLevel)     { d.level = level }
func (d *diary) GetLogLevel() logger.LogLevel          { return d.level }

func (d *diary) retire() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.silent = true
}

func (d *diary) state() (calls, nils, late int, errs []string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.calls, d.nils, d.late, append([]string{}, d.errs...)
}

// muted runs f with the standard output going nowhere.
func muted(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	out := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = out; null.Close() }()
	f()
}

// loggers gives objects a logger in some way and tells which of the user's
// loggers there are.
type loggers struct {
	c    *rt.Ctx
	set  func(logger.Logger)
	used []*diary
	cur  *diary // or nil
}

func (l *loggers) change() {
	r := l.c.R
	switch r.Intn(6) {
	case 0:
		l.set(nil) // nothing changes
		l.c.Count("nil_loggers", 1)
		return
	case 1:
		l.set(logger.NewConsoleLogger(rt.Pick(r, logger.ErrorLevel, logger.WarnLevel, logger.InfoLevel, logger.DebugLevel)))
		l.retire()
		l.c.Count("console", 1)
	case 2:
		l.set(logger.NewNullLogger())
		l.retire()
	default:
		d := &diary{}
		l.set(d)
		l.retire()
		l.cur = d
		l.used = append(l.used, d)
	}
}

func (l *loggers) retire() {
	if l.cur != nil {
		l.cur.retire()
		l.c.Count("replaced", 1)
	}
	l.cur = nil
}

func (l *loggers) check(what string) {
	for _, d := range l.used {
		calls, nils, late, _ := d.state()
		l.c.Count("log_calls", calls)
		l.c.Check(late == 0, "replaced", "a logger of %s was called %d times after it had been replaced, at last with %q", what, late, d.last)
		l.c.Check(nils == 0, "nil", "a logger of %s was told of a nil error", what)
	}
}

func c32(c *rt.Ctx) {
	if c.I%5 == 4 {
		c32client(c)
		return
	}
	c32decoder(c)
	c32tree(c)
}

// c32decoder compares decoders with and without loggers.
func c32decoder(c *rt.Ctx) {
	r := c.R
	g := gen(r)
	message := func() []byte {
		v := (&ref.Enc{R: r, Shuffle: r.Bool()}).Root(g.Roots(2))
		v.SetForms(r, r.Intn(ref.FormKinds))
		return v.Bytes()
	}
	var parts [][]byte
	for n := r.Range(1, 12); n > 0; n-- {
		m := message()
		if len(m) > 3000 {
			m = m[:3000]
		}
		var cuts []int
		for at := r.Range(1, 1500); at < len(m); at += r.Range(1, 1500) {
			cuts = append(cuts, at)
		}
		for _, f := range ref.Frames(m, cuts) {
			switch r.Intn(6) {
			case 0:
				f = damage(r, f, nil)
			case 1:
				f = append(f, ref.KeepAlive(r.Bool())...)
			case 2:
				ct := append([]byte{0, 0x0e, byte(r.Intn(5)), 1}, r.Bytes(r.Intn(8))...)
				f = append(f, ref.Wrap(ref.WithCRC(ct))...)
			}
			parts = append(parts, f)
		}
	}
	type result struct {
		log   []string
		panic string
	}
	run := func(observed bool) result {
		var res result
		l := &loggers{c: c}
		d := socket.NewS101Decoder(
			func(p []byte) errors.Error { res.log = append(res.log, fmt.Sprintf("request %x", p)); return nil },
			func(p []byte) errors.Error {
				res.log = append(res.log, fmt.Sprintf("response %x", p))
				return errors.New("no")
			},
			func(p []byte) errors.Error { res.log = append(res.log, fmt.Sprintf("message %x", p)); return nil },
			func(e errors.Error) {
				if e == nil {
					c.Fail("nil", "the error handler is told of a nil error")
				}
				res.log = append(res.log, "error "+es(e))
				c.Count("errors_in_decoder", 1)
			})
		l.set = d.SetLogger
		c.Try("DecodeBuffer", func() {
			for _, p := range parts {
				if observed && r.P(1, 3) {
					l.change()
				}
				d.DecodeBuffer(len(p), append([]byte{}, p...))
			}
		})
		l.check("a decoder")
		return res
	}
	for _, p := range parts {
		c.Distinct(p)
	}
	c.Note("stream", bytes.Join(parts, nil))
	plain := run(false)
	for i := 0; i < 3; i++ {
		var res result
		muted(func() { res = run(true) })
		c.Count("decoder_runs", 1)
		for k := 0; k < len(plain.log) || k < len(res.log); k++ {
			a, b := "nothing", "nothing"
			if k < len(plain.log) {
				a = plain.log[k]
			}
			if k < len(res.log) {
				b = res.log[k]
			}
			if a != b {
				c.Fail("decoder", "a decoder with a logger reports %s where one without reports %s", short(b), short(a))
			}
		}
	}
}

// c32tree compares trees with and without loggers.
func c32tree(c *rt.Ctx) {
	r := c.R
	w := newWorld(r)
	t := ref.NewTreeModel()
	var msgs [][]byte
	for n := r.Range(1, 10); n > 0; n-- {
		es := canonAll(w.message(t))
		b := w.octets(es)
		if r.P(1, 5) { // rejected as a whole
			v := (&ref.Enc{R: r, Shuffle: true}).Root(es)
			v.SetForms(r, ref.AllDefinite)
			b = v.Bytes()
			b = b[:r.Intn(len(b)-1)]
		} else {
			t.Apply(es)
		}
		msgs = append(msgs, b)
		c.Distinct(b)
	}
	run := func(observed bool) (log []string, tree string) {
		root := embertree.NewTree()
		l := &loggers{c: c, set: root.SetLogger}
		var ls []*loggers
		told := map[string]int{}
		watch := &recorder{}
		root.AddListener(watch)
		var mine []*recorder
		for i, m := range msgs {
			if observed && r.P(1, 2) {
				l.change()
			}
			if k := collect(root); len(k.at) > 0 {
				for _, p := range sortedKeys(k.at) {
					if observed && r.P(1, 4) {
						x := &loggers{c: c, set: k.at[p].SetLogger}
						x.change()
						ls = append(ls, x)
					}
					if told[p] == 0 {
						told[p] = 1
						s := &recorder{}
						k.at[p].AddListener(s)
						mine = append(mine, s)
					}
				}
			}
			log = append(log, fmt.Sprintf("message %d: %q, listener %d", i, decodeRoot(root, m), len(watch.take())))
		}
		for i, s := range mine {
			log = append(log, fmt.Sprintf("listener %d: %v", i, s.n() > 0))
		}
		l.check("a tree")
		for _, x := range ls {
			x.check("an element")
		}
		got, err := ref.RootFromLib(root)
		if err != nil {
			c.Fail("inconsistent", "the tree is inconsistent: %v", err)
		}
		if d := ref.DiffAll(got, t.Elems(), true); d != "" {
			c.Fail("tree", "the tree with loggers (%v) is not what the messages say (got/expected): %s", observed, d)
		}
		str := ""
		if observed { // rendering and requests with loggers
			str = root.ToString()
			for _, e := range root.RootElementCollection {
				e.GetQualifiedDirectoryMsg(nil)
				if _, e2 := e.GetDirectoryMsg(nil); e2 != nil {
					c.Fail("request", "a request of an element with a logger fails: %s", es(e2))
				}
				var wr asn1.ASNWriter
				if e2 := e.Encode(&wr); e2 != nil {
					c.Fail("encode", "an element with a logger does not encode: %s", es(e2))
				}
			}
		}
		return log, str
	}
	plain, _ := run(false)
	for i := 0; i < 2; i++ {
		var log []string
		c.Try("decoding with loggers", func() { muted(func() { log, _ = run(true) }) })
		c.Count("tree_runs", 1)
		if fmt.Sprint(plain) != fmt.Sprint(log) {
			c.Fail("tree", "with loggers the messages give\n%v\nwithout\n%v", log, plain)
		}
	}
}

// c32client lets a client with a logger receive messages, some damaged.
func c32client(c *rt.Ctx) {
	r := c.R
	g := newRig(c)
	l := &loggers{c: c, set: g.cl.SetLogger}
	first := &diary{}
	g.cl.SetLogger(first)
	if r.Bool() {
		g.cl.SetLogger(nil) // nothing changes
		c.Count("nil_loggers", 1)
	}
	nilAfter := r.Bool()
	l.used, l.cur = []*diary{first}, first
	d := newDevice(r, r.Range(1, 10), 3, 4)
	g.p.Start()
	if r.Bool() {
		g.cl.SetTimeout(60000)
	}
	g.connect()
	conn := g.p.Last()
	// The tree's listener is called by the client's own goroutine; there the
	// logger may be replaced.
	var mu sync.Mutex
	calls, change := 0, false
	done := false
	var old []*diary // replaced while an earlier message was handled
	s := &recorder{}
	s.then = func(node interface{}, err string) {
		mu.Lock()
		defer mu.Unlock()
		calls++
		for _, x := range old {
			x.retire()
		}
		old = nil
		if change && !done {
			x := &diary{}
			g.cl.SetLogger(nil)
			g.cl.SetLogger(x)
			if nilAfter {
				g.cl.SetLogger(nil)
			}
			old = append(old, l.cur)
			l.cur = x
			l.used = append(l.used, x)
			change = false
			c.Count("replaced", 1)
		}
	}
	g.within("GetDirectory", func() {
		if e := g.cl.GetDirectory(nil, s); e != nil {
			c.Fail("refused", "a request is refused: %s", es(e))
		}
	})
	g.must(func() bool { return conn.Count("message") > 0 }, "not-sent", "the request was not sent")
	wantErrs, want := 0, 0
	log := ""
	for n := r.Range(5, 25); n > 0; n-- {
		switch r.Intn(5) {
		case 0: // a frame damaged on its way
			ct := ref.WithCRC(ref.EmberContent(ref.First|ref.Last, octets(r, d.answer(r, nil))))
			i := r.Intn(len(ct))
			ct[i] ^= byte(1 << r.Intn(8))
			conn.Send(r, ref.Wrap(ct))
			wantErrs++
			log += "damaged frame; "
		case 1: // an intact frame with a message that is none
			m := octets(r, d.top)
			v := ref.Cons(ref.App(0), ref.Cons(ref.App(11), ref.Cons(ref.Ctx(0), ref.Cons(rt.Pick(r, ref.App(7), ref.App(8), ref.Ctx(3)), ref.Cons(ref.Ctx(0), ref.Int(1))))))
			v.SetForms(r, r.Intn(ref.FormKinds))
			b := v.Bytes()
			if r.Bool() {
				b = append([]byte{ref.App(1)}, m[1:]...)
			}
			conn.Send(r, ref.EmberFrame(ref.First|ref.Last, b))
			wantErrs++
			log += "undecodable message; "
		case 2: // a command nobody knows
			conn.Send(r, ref.Wrap(ref.WithCRC([]byte{0, 0x0e, byte(r.Range(3, 255)), 1})))
			wantErrs++
			log += "unknown command; "
		case 3:
			conn.Send(r, ref.KeepAlive(r.Bool()))
			log += "keep-alive; "
		default:
			mu.Lock()
			change = r.Bool()
			mu.Unlock()
			b := octets(r, d.answer(r, nil))
			for _, f := range frames(r, b) {
				conn.Send(r, f)
			}
			want++
			g.must(func() bool { mu.Lock(); defer mu.Unlock(); return calls >= want }, "message", "a valid message was not reported to the listener (%s)", log)
			log += "message; "
		}
	}
	c.Note("history", log)
	conn.Send(r, ref.EmberFrame(ref.First|ref.Last, octets(r, d.answer(r, nil))))
	want++
	g.must(func() bool { mu.Lock(); defer mu.Unlock(); return calls >= want }, "message", "a valid message was not reported to the listener (%s)", log)
	mu.Lock()
	done = true
	n := calls
	mu.Unlock()
	c.Check(n == want, "message", "the tree's listener was called %d times for %d valid messages (%s)", n, want, log)
	g.end()
	got := 0
	var all []string
	for _, d := range l.used {
		_, _, _, errs := d.state()
		got += len(errs)
		all = append(all, errs...)
	}
	l.check("a client")
	if got != wantErrs {
		c.Fail("errors", "the loggers were told of %d errors, %d occurred (%s): %v", got, wantErrs, log, all)
	}
	c.Count("client_errors", wantErrs)
	c.Count("client_messages", want)
	c.Distinct(log)
	c.Sample("client: %s", log)
}

package checks

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"

	"verif/harness/prov"
	"verif/harness/ref"
	"verif/harness/rt"
)

// delays is a logger that, now and then, makes the goroutine that logs wait:
// the library logs at every step, so this shifts its goroutines against each
// other.
type delays struct {
	seed  uint64
	n     atomic.Uint64
	oneIn uint64
	max   uint64 // microseconds
}

func (d *delays) delay() {
	if d.oneIn == 0 {
		return
	}
	h := rt.Mix(d.seed, d.n.Add(1))
	if h%d.oneIn == 0 {
		time.Sleep(time.Duration(h>>32%d.max) * time.Microsecond)
	} else if h%d.oneIn == 1 {
		runtime.Gosched()
	}
}
func (d *delays) Error(e errors.Error)                  { d.delay() }
func (d *delays) Warn(format string, a ...interface{})  { d.delay() }
func (d *delays) Info(format string, a ...interface{})  { d.delay() }
func (d *delays) Debug(format string, a ...interface{}) { d.delay() }
func (d *delays) Debugln(a ...interface{})              { d.delay() }
func (d *delays) SetLogLevel(level logger.LogLevel)     {}
func (d *delays) GetLogLevel() logger.LogLevel          { return logger.DebugLevel }

func newDelays(r *rt.Rand) *delays {
	d := &delays{seed: r.U64()}
	switch r.Intn(3) {
	case 0:
		d.oneIn, d.max = 50, 3000
	case 1:
		d.oneIn, d.max = 8, 300
	}
	return d
}

// rig is a client and its provider.
type rig struct {
	c  *rt.Ctx
	r  *rt.Rand
	p  *prov.Provider
	cl *socket.S101Client
	// what started the goroutines that ran when the client was first connected
	creators map[string]bool
}

func newRig(c *rt.Ctx) *rig {
	p, err := prov.New()
	if err != nil {
		panic("harness: " + err.Error())
	}
	g := &rig{c: c, r: c.R, p: p, cl: socket.NewS101Client()}
	if c.R.P(2, 3) {
		g.cl.SetLogger(newDelays(c.R))
	}
	c.Cleanup(func() {
		// After a violation; not to mix it up with the next case.
		done := make(chan struct{})
		go func() { defer close(done); g.cl.Disconnect() }()
		select {
		case <-done:
		case <-time.After(time.Second):
		}
		p.Stop()
		for i := 0; i < 200 && c.Failed() && len(inLibrary()) > 0; i++ {
			time.Sleep(5 * time.Millisecond)
		}
	})
	return g
}

// patience is how long a monitor waits for what must happen eventually.
const patience = 20 * time.Second

// eventually waits for a condition.
func eventually(f func() bool) bool {
	end := time.Now().Add(patience)
	for wait := 200 * time.Microsecond; ; wait = wait * 3 / 2 {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
		if wait > 10*time.Millisecond {
			wait = 10 * time.Millisecond
		}
		time.Sleep(wait)
	}
}

// must waits for a condition and reports a violation when it does not come.
func (g *rig) must(f func() bool, key, format string, a ...interface{}) {
	if !eventually(f) {
		g.c.Note("stacks", stacks())
		g.c.Fail(key, format, a...)
	}
}

// within runs a call of the library that must return.
func (g *rig) within(what string, f func()) {
	done := make(chan struct{})
	var p interface{}
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		f()
	}()
	select {
	case <-done:
		if p != nil {
			g.c.Fail("panic", "%s panicked: %v", what, p)
		}
	case <-time.After(patience):
		g.c.Note("stacks", stacks())
		g.c.Fail("wedged", "%s did not return within %v", what, patience)
	}
}

func (g *rig) connect() {
	var e errors.Error
	n := len(g.p.Conns())
	g.within("Connect", func() { e = g.cl.Connect("127.0.0.1", g.p.Port) })
	if e != nil {
		g.c.Fail("connect", "Connect to a listening provider failed: %s", es(e))
	}
	g.must(func() bool { return len(g.p.Conns()) > n }, "connect", "the provider got no connection although Connect succeeded")
	if g.creators == nil {
		g.creators = map[string]bool{}
		for _, s := range inLibrary() {
			g.creators[creator(s)] = true
		}
	}
}

func (g *rig) disconnect() {
	var e errors.Error
	g.within("Disconnect", func() { e = g.cl.Disconnect() })
	if e != nil {
		g.c.Fail("disconnect", "Disconnect of a connected client failed: %s", es(e))
	}
}

// end disconnects, if need be, stops the provider and looks for what is left.
func (g *rig) end() {
	g.within("Disconnect", func() { g.cl.Disconnect() })
	g.noGoroutines("after Disconnect")
	g.p.Stop()
}

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// inLibrary lists the goroutines that run library code.
func inLibrary() []string {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, s := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(s, "github.com/dufourgilles/emberlib/") {
			out = append(out, s)
		}
	}
	return out
}

// creator is the function that started a goroutine.
func creator(stack string) string {
	i := strings.LastIndex(stack, "created by ")
	if i < 0 {
		return ""
	}
	s := stack[i:]
	if j := strings.IndexAny(s, "\n"); j > 0 {
		s = s[:j]
	}
	if j := strings.Index(s, " in goroutine"); j > 0 {
		s = s[:j]
	}
	return s
}

// ofConnection tells whether a goroutine is one of those a connection needs:
// those that are there once it is established.
func (g *rig) ofConnection(stack string) bool {
	s := creator(stack)
	return g.creators[s] || strings.Contains(s, "S101Client).Connect") || strings.Contains(s, "iomanager")
}

// noConnections waits until no goroutine of a connection is left; those of
// requests not answered may stay until their timeouts.
func (g *rig) noConnections(when string) {
	var left []string
	if !eventually(func() bool {
		left = nil
		for _, s := range inLibrary() {
			if g.ofConnection(s) {
				left = append(left, s)
			}
		}
		return len(left) == 0
	}) {
		g.c.Fail("goroutines", "%d goroutines of connections remain %s:\n%s", len(left), when, strings.Join(left, "\n\n"))
	}
	g.c.Count("goroutine_scans", 1)
}

func (g *rig) noGoroutines(when string) {
	var left []string
	if !eventually(func() bool { left = inLibrary(); return len(left) == 0 }) {
		g.c.Fail("goroutines", "%d goroutines of the library remain %s:\n%s", len(left), when, strings.Join(left, "\n\n"))
	}
	g.c.Count("goroutine_scans", 1)
}

// requestPath reads a message that must be one directory request and tells
// which path it asks for; the tree has the empty path.
func requestPath(es []*ref.Elem) (path []int32, problem string) {
	all := es
	for {
		if len(es) != 1 {
			return nil, fmt.Sprintf("%d elements in\n%s", len(es), show(all))
		}
		e := es[0]
		if e.Kind == ref.Command {
			if e.Number != 32 || e.C == nil || e.C.FieldFlags != -1 || len(e.Kids) > 0 {
				return nil, fmt.Sprintf("not get-directory of all fields: %s", show(all))
			}
			return path, ""
		}
		if e.C != nil || len(e.Targets)+len(e.Sources)+len(e.Conns) > 0 {
			return nil, fmt.Sprintf("it carries contents: %s", show(all))
		}
		if e.Qual {
			if len(path) > 0 {
				return nil, fmt.Sprintf("a qualified element beneath another: %s", show(all))
			}
			path = append(path, e.Path...)
		} else {
			path = append(path, int32(e.Number))
		}
		es = e.Kids
	}
}

// device is the provider's own tree.
type device struct {
	top  []*ref.Elem
	at   map[string]*ref.Elem
	path map[string][]int32
	all  []string // in a fixed order
}

// newDevice makes a tree of up to n elements.
func newDevice(r *rt.Rand, n, depth, kids int) *device {
	w := newWorld(r)
	budget := n
	var make1 func(path []int32, d int) *ref.Elem
	make1 = func(path []int32, d int) *ref.Elem {
		budget--
		e := &ref.Elem{Kind: w.kind(path), Number: int(path[len(path)-1])}
		if d > 1 && e.Kind != ref.Node && r.P(3, 4) {
			e.Kind = ref.Node
		}
		e.C = w.g.Contents(e.Kind)
		if e.Kind == ref.Matrix {
			for i := r.Intn(4); i > 0; i-- {
				e.Targets = append(e.Targets, int32(i))
				e.Sources = append(e.Sources, int32(10*i))
				e.Conns = append(e.Conns, ref.Conn{Target: int32(i), Sources: []int32{int32(10 * i)}, Op: 0, Disp: r.Intn(4)})
			}
		}
		if d > 1 {
			seen := map[int32]bool{}
			for i := r.Range(0, kids); i > 0 && budget > 0; i-- {
				k := int32(r.Intn(2 * kids))
				if r.P(1, 20) {
					k = r.Nat()
				}
				if !seen[k] {
					seen[k] = true
					e.Kids = append(e.Kids, make1(join(path, k), d-1))
				}
			}
		}
		return e
	}
	d := &device{}
	seen := map[int32]bool{}
	for i := 0; budget > 0 && i < 4*kids; i++ {
		k := int32(r.Intn(2 * kids))
		if !seen[k] {
			seen[k] = true
			d.top = append(d.top, make1([]int32{k}, depth))
		}
	}
	d.top = canonAll(d.top)
	d.index()
	return d
}

// newChain makes a device with elements so deep that a request for one takes
// several frames.
func newChain(r *rt.Rand) *device {
	top := &ref.Elem{Kind: ref.Node, Number: int(r.Nat())}
	e := top
	n := r.Range(100, 450)
	if r.P(1, 4) {
		n = r.Range(450, 4000)
	}
	for ; n > 0; n-- {
		k := &ref.Elem{Kind: ref.Node, Number: r.Range(1<<27, 1<<31-1)}
		e.Kids = append(e.Kids, k)
		e = k
	}
	d := &device{top: canonAll([]*ref.Elem{top})}
	d.index()
	return d
}

func (d *device) index() {
	d.at, d.path, d.all = map[string]*ref.Elem{}, map[string][]int32{}, nil
	var walk func(e *ref.Elem, p []int32)
	walk = func(e *ref.Elem, p []int32) {
		p = join(p, int32(e.Number))
		s := ref.PathString(p)
		d.at[s], d.path[s] = e, p
		d.all = append(d.all, s)
		for _, k := range e.Kids {
			walk(k, p)
		}
	}
	for _, e := range d.top {
		walk(e, nil)
	}
	sort.Strings(d.all)
}

// bare is the element without children.
func bare(e *ref.Elem) *ref.Elem {
	b := *e
	b.Kids = nil
	return b.Clone()
}

// within puts an element said about path into the form a message uses: as a
// qualified element, or nested in its ancestors.
func (d *device) within(e *ref.Elem, path []int32, qualified bool) *ref.Elem {
	if qualified {
		e.Qual, e.Path = true, path
		return e
	}
	s := ref.PathString(path)
	for l := len(path) - 1; l > 0; l-- {
		s = s[:strings.LastIndexByte(s, '.')]
		e = &ref.Elem{Kind: d.at[s].Kind, Number: int(path[l-1]), Kids: []*ref.Elem{e}}
	}
	return e
}

// answer is the message that answers a directory request for path: the
// element with its children, each without their own, in one of the forms a
// provider may use.
func (d *device) answer(r *rt.Rand, path []int32) []*ref.Elem {
	if len(path) == 0 {
		var out []*ref.Elem
		for _, e := range d.top {
			b := bare(e)
			if r.P(1, 3) {
				b.Qual, b.Path = true, []int32{int32(b.Number)}
			}
			out = append(out, b)
		}
		return out
	}
	e := d.at[ref.PathString(path)]
	if len(e.Kids) > 0 && r.P(1, 3) { // the children only, as qualified elements
		var out []*ref.Elem
		for _, k := range e.Kids {
			b := bare(k)
			b.Qual, b.Path = true, join(path, int32(k.Number))
			out = append(out, b)
		}
		return out
	}
	b := bare(e)
	if r.Bool() {
		b.C, b.Targets, b.Sources, b.Conns = nil, nil, nil, nil
	}
	for _, k := range e.Kids {
		b.Kids = append(b.Kids, bare(k))
	}
	return []*ref.Elem{d.within(b, path, r.Bool())}
}

// octets encodes a message in one of the ways a provider may.
func octets(r *rt.Rand, es []*ref.Elem) []byte {
	v := (&ref.Enc{R: r, Shuffle: r.Bool()}).Root(es)
	v.SetForms(r, r.Intn(ref.FormKinds))
	return v.Bytes()
}

// frames cuts a message into S101 frames.
func frames(r *rt.Rand, b []byte) [][]byte {
	var cuts []int
	switch r.Intn(3) {
	case 0:
		for at := 1024; at < len(b); at += 1024 {
			cuts = append(cuts, at)
		}
	case 1:
		n := r.Intn(4)
		for i := 0; i < n; i++ {
			cuts = append(cuts, r.Intn(len(b)+1))
		}
		sort.Ints(cuts)
	default:
		if len(b) > 4000 {
			for at := 1000; at < len(b); at += 1000 {
				cuts = append(cuts, at)
			}
		}
	}
	return ref.Frames(b, cuts)
}

// learned holds the client's elements by path.
type learned struct {
	root *embertree.RootElement
	at   map[string]*embertree.Element
}

func collect(root *embertree.RootElement) *learned {
	k := &learned{root, map[string]*embertree.Element{}}
	var walk func(l *embertree.Element, p []int32)
	walk = func(l *embertree.Element, p []int32) {
		p = join(p, int32(l.Number))
		k.at[ref.PathString(p)] = l
		for _, x := range l.Children {
			walk(x, p)
		}
	}
	for _, l := range root.RootElementCollection {
		walk(l, nil)
	}
	return k
}

// learn makes the client ask for the tree and gives it all of it at once, so
// that there are elements to ask for. The provider's handler must not answer
// requests yet.
func (g *rig) learn(d *device) *learned {
	var mu sync.Mutex
	var got *learned
	s := &recorder{}
	s.then = func(node interface{}, err string) {
		mu.Lock()
		defer mu.Unlock()
		if root, ok := node.(*embertree.RootElement); ok && err == "" && got == nil {
			got = collect(root)
		}
	}
	var e errors.Error
	g.within("GetDirectory", func() { e = g.cl.GetDirectory(nil, s) })
	if e != nil {
		g.c.Fail("refused", "the first request of a connected client is refused: %s", es(e))
	}
	conn := g.p.Last()
	g.must(func() bool { return conn.Count("message") > 0 }, "not-sent", "the first request was not sent")
	b := octets(g.r, d.top)
	for _, f := range frames(g.r, b) {
		conn.Send(g.r, f)
	}
	g.must(func() bool { mu.Lock(); defer mu.Unlock(); return got != nil }, "not-received", "the listener was not told of the tree sent (%d octets)", len(b))
	if root := got.root; root != nil {
		root.RemoveListener(s)
	}
	for _, p := range d.all {
		if got.at[p] == nil {
			g.c.Fail("tree", "the client lacks element %s of the tree sent", p)
		}
	}
	return got
}

var _ = bytes.Equal

package rt

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one property's check.
type Check struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Quick int    // number of cases
	Deep  int    // number of cases of the thorough tier
	Race  bool   // built and run with the race detector
	// Shards is the number of worker processes (0: 8). The cases of one shard
	// run one after the other.
	Shards int
	// CPU is how much processor time one case may take before it counts as a
	// hang; Wall is how long a case may last doing nothing.
	CPU, Wall time.Duration
	// Mem is the live heap, in bytes, beyond which a case counts as a memory
	// blow-up.
	Mem uint64
	// Local means that a panic in another goroutine, or a hang, ends the
	// worker (always so); nothing else to declare.
	Run func(c *Ctx)
	// Min lists the counters that must reach a value for the run to count as
	// having observed something (vacuity guard), for the quick tier.
	Min         map[string]int64
	Assumptions []string
	Exhaustive  bool
}

var All = map[string]*Check{}

func Register(c *Check) {
	if c.Shards == 0 {
		c.Shards = 8
	}
	if c.CPU == 0 {
		c.CPU = 20 * time.Second
	}
	if c.Wall == 0 {
		c.Wall = 120 * time.Second
	}
	if c.Mem == 0 {
		c.Mem = 2 << 30
	}
	All[c.ID] = c
}

// Violation is what a worker reports about a case.
type Violation struct {
	Property string            `json:"property"`
	Case     int               `json:"case"`
	Seed     uint64            `json:"seed"`
	Tier     string            `json:"tier"`
	Key      string            `json:"key"` // class of the violation
	Message  string            `json:"message"`
	Notes    map[string]string `json:"notes,omitempty"`
}

// Result is what a worker observed.
type Result struct {
	Cases    int64            `json:"cases"`
	Counts   map[string]int64 `json:"counts"`
	Maxima   map[string]int64 `json:"maxima"`
	Distinct []uint64         `json:"distinct"`
	Samples  []string         `json:"samples"`
	Known    map[string]int64 `json:"known"`
}

// Ctx is one case.
type Ctx struct {
	ID    string
	I     int
	N     int
	Tier  string
	Seed  uint64
	R     *Rand
	w     *worker
	notes map[string]string
	mu    sync.Mutex
	fails []failure
	clean []func()
}

// Cleanup has f run at the end of the case, however it ends.
func (c *Ctx) Cleanup(f func()) { c.clean = append(c.clean, f) }

type failure struct {
	key, msg string
}

type stop struct{}

func (c *Ctx) Deep() bool { return c.Tier == "thorough" }

// Note records a part of the case for the replay file.
func (c *Ctx) Note(name string, v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var s string
	switch x := v.(type) {
	case []byte:
		if len(x) > 4096 {
			s = fmt.Sprintf("%s... (%d octets)", hex.EncodeToString(x[:4096]), len(x))
		} else {
			s = hex.EncodeToString(x)
		}
	case string:
		s = x
	default:
		s = fmt.Sprintf("%+v", v)
	}
	if len(s) > 1<<16 {
		s = s[:1<<16] + "..."
	}
	c.notes[name] = s
}

// Input saves data before the code under test gets it, so that a crash or a
// hang can be attributed to it.
func (c *Ctx) Input(data []byte) {
	c.w.saveInput(data)
}

// Fail reports a violation and ends the case.
func (c *Ctx) Fail(key, format string, a ...interface{}) {
	c.Report(key, format, a...)
	panic(stop{})
}

// Report reports a violation and goes on; it may be called in any goroutine.
func (c *Ctx) Report(key, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.fails) < 5 {
		c.fails = append(c.fails, failure{key, fmt.Sprintf(format, a...)})
	}
}

func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) > 0
}

func (c *Ctx) Check(ok bool, key, format string, a ...interface{}) {
	if !ok {
		c.Fail(key, format, a...)
	}
}

// Count adds to a counter of the evidence.
func (c *Ctx) Count(name string, n int) { c.w.count(name, int64(n)) }

// Max records the largest value seen.
func (c *Ctx) Max(name string, n int) { c.w.max(name, int64(n)) }

// Distinct records one non-trivial case by what identifies it.
func (c *Ctx) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xff, 0})
	}
	c.w.distinct(h.Sum64())
}

// Sample keeps the text of a few cases for the evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	c.w.sample(c.I, format, a...)
}

// Try runs f and turns a panic of the code under test into a violation.
func (c *Ctx) Try(what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); ok {
				panic(p)
			}
			c.Fail("panic", "%s panicked: %v\n%s", what, p, debug.Stack())
		}
	}()
	f()
}

type worker struct {
	check   *Check
	dir     string
	shard   int
	mu      sync.Mutex
	res     Result
	dist    map[uint64]bool
	caseF   *os.File
	viol    *os.File
	seed    uint64
	tier    string
	cur     atomic.Int64 // case + 1
	started atomic.Int64 // nanoseconds
	cpu0    atomic.Int64
}

func (w *worker) count(n string, v int64) {
	w.mu.Lock()
	w.res.Counts[n] += v
	w.mu.Unlock()
}
func (w *worker) max(n string, v int64) {
	w.mu.Lock()
	if v > w.res.Maxima[n] {
		w.res.Maxima[n] = v
	}
	w.mu.Unlock()
}
func (w *worker) distinct(h uint64) {
	w.mu.Lock()
	if len(w.dist) < 1000000 {
		w.dist[h] = true
	}
	w.mu.Unlock()
}
func (w *worker) sample(i int, format string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.res.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		w.res.Samples = append(w.res.Samples, fmt.Sprintf("case %d: %s", i, s))
	}
}
func (w *worker) saveInput(b []byte) {
	if len(b) > 1<<21 {
		b = b[:1<<21]
	}
	head := fmt.Sprintf("%-12d%-12d", w.cur.Load()-1, len(b))
	w.caseF.WriteAt([]byte(head), 0)
	w.caseF.WriteAt(b, 24)
}

func CPUTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *worker) report(v Violation) {
	b, _ := json.Marshal(v)
	w.viol.Write(append(b, '\n'))
}

// watch ends the worker when a case hangs or blows up.
func (w *worker) watch() {
	last := int64(-1)
	var since time.Time
	for {
		time.Sleep(100 * time.Millisecond)
		cur := w.cur.Load()
		if cur == 0 {
			continue
		}
		if cur != last {
			last = cur
			since = time.Now()
			w.cpu0.Store(int64(CPUTime()))
		}
		used := CPUTime() - time.Duration(w.cpu0.Load())
		var reason string
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > w.check.Mem {
			reason = fmt.Sprintf("memory: the live heap reached %d MB during this case", m.HeapAlloc>>20)
		} else if used > w.check.CPU {
			reason = fmt.Sprintf("hang: the case used more than %v of processor time", w.check.CPU)
		} else if time.Since(since) > w.check.Wall && used < w.check.Wall/20 {
			reason = fmt.Sprintf("hang: the case made no progress for %v", w.check.Wall)
		}
		if reason == "" {
			continue
		}
		if w.cur.Load() != cur {
			continue
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		w.report(Violation{Property: w.check.ID, Case: int(cur - 1), Seed: w.seed, Tier: w.tier,
			Key: strings.SplitN(reason, ":", 2)[0], Message: reason + "\n" + string(buf), Notes: w.inputNote()})
		w.finish()
		os.Exit(4)
	}
}

func (w *worker) inputNote() map[string]string {
	return InputNote(w.caseF.Name())
}

// InputNote reads the input saved last.
func InputNote(file string) map[string]string {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 24 {
		return nil
	}
	n := 0
	fmt.Sscanf(string(b[12:24]), "%d", &n)
	b = b[24:]
	if n > len(b) {
		n = len(b)
	}
	return map[string]string{"input": hex.EncodeToString(b[:n])}
}

func (w *worker) finish() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for h := range w.dist {
		w.res.Distinct = append(w.res.Distinct, h)
	}
	b, _ := json.Marshal(w.res)
	os.WriteFile(fmt.Sprintf("%s/result-%d.json", w.dir, w.shard), b, 0o644)
}

func seedOf(id string, seed uint64) uint64 {
	h := fnv.New64a()
	h.Write([]byte(id))
	return Mix(h.Sum64(), seed)
}

func (w *worker) runCase(i, n int) (v []Violation) {
	c := &Ctx{ID: w.check.ID, I: i, N: n, Tier: w.tier, Seed: w.seed, w: w,
		R: NewRand(Mix(seedOf(w.check.ID, w.seed), uint64(i))), notes: map[string]string{}}
	w.cur.Store(int64(i) + 1)
	w.saveInput(nil)
	defer func() {
		for _, f := range c.clean {
			f()
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); !ok {
				st := string(debug.Stack())
				c.fails = append(c.fails, failure{"panic", fmt.Sprintf("panic: %v\n%s", p, st)})
			}
		}
		for _, f := range c.fails {
			v = append(v, Violation{Property: c.ID, Case: i, Seed: w.seed, Tier: w.tier, Key: f.key, Message: f.msg, Notes: c.notes})
		}
	}()
	w.check.Run(c)
	return
}

// Worker runs the cases of one shard.
func Worker(id, dir, tier string, seed uint64, shard, shards, only int) {
	check := All[id]
	w := &worker{check: check, dir: dir, shard: shard, seed: seed, tier: tier, dist: map[uint64]bool{}}
	w.res.Counts = map[string]int64{}
	w.res.Maxima = map[string]int64{}
	w.res.Known = map[string]int64{}
	w.caseF, _ = os.Create(fmt.Sprintf("%s/case-%d", dir, shard))
	w.viol, _ = os.Create(fmt.Sprintf("%s/violations-%d", dir, shard))
	go w.watch()
	n := check.Quick
	if tier == "thorough" {
		n = check.Deep
	}
	if p, err := strconv.Atoi(os.Getenv("HARNESS_PERCENT")); err == nil { // development only
		n = n*p/100 + 1
	}
	bad := 0
	for i := shard; i < n; i += shards {
		if only >= 0 && i != only {
			continue
		}
		for _, v := range w.runCase(i, n) {
			if Known[v.Property+"/"+v.Key] {
				w.mu.Lock()
				w.res.Known[v.Key]++
				w.mu.Unlock()
				continue
			}
			w.report(v)
			bad++
		}
		w.mu.Lock()
		w.res.Cases++
		w.mu.Unlock()
		if bad >= 3 {
			break
		}
	}
	w.cur.Store(0)
	w.finish()
	os.Exit(0)
}

// Known holds "property/key" of the findings listed in known-findings.txt.
var Known = map[string]bool{}

// LoadKnown reads lines "known: property=<id> key=<key> <text>".
func LoadKnown(file string) map[string]string {
	text := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return text
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		k := f[1][9:] + "/" + f[2][4:]
		Known[k] = true
		text[k] = strings.Join(f[3:], " ")
	}
	return text
}

// Package explore is the explicit-state exploration engine: it drives the
// implementation through every case a property's space generates, keeps the
// set of visited cases, evaluates the property's oracle on each new one, and
// turns the first disagreement (wrong answer, panic, crash or hang) into a
// replayable counterexample.
package explore

import (
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Oracle decides one case: nil means the property held on it.
type Oracle func(args []string) error

// Property is one registered check.
type Property struct {
	ID          string
	Level       string
	Rule        string // what the space is, for the evidence file
	Assumptions []string
	Init        func()
	Hang        time.Duration // how long a case may take, if not hangAfter
	Oracles     map[string]Oracle
	Explore     func(c *Ctx)
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	registry[p.ID] = p
}

// IDs lists registered properties.
func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// Get finds a property.
func Get(id string) *Property { return registry[id] }

// Violation is one failing case.
type Violation struct {
	Property string   `json:"property"`
	Oracle   string   `json:"oracle"`
	Args     []string `json:"args"` // Go-quoted
	Message  string   `json:"message"`
}

const (
	slotSize  = 16384
	maxSlots  = 64
	hangAfter = 45 * time.Second
)

// With runs f with every case turned into a case of the oracle prefix[0], whose
// first arguments are the rest of the prefix and the name of the oracle meant.
func (c *Ctx) With(prefix []string, f func()) {
	c.prefix = prefix
	f()
	c.prefix = nil
}

// Ctx is one exploration run.
type Ctx struct {
	P        *Property
	Thorough bool
	Seed     int64
	Deadline time.Time

	visited  *set
	seed     maphash.Seed
	trans    atomic.Int64
	okTraces atomic.Int64
	models   atomic.Int64 // additional model states (product automata etc.)
	modelTr  atomic.Int64
	cut      atomic.Bool
	stop     atomic.Bool

	mu       sync.Mutex
	viol     []Violation
	samples  []string
	perSpace map[string]*int64
	order    []string
	known    map[string]bool
	knownHit map[string]bool
	notes    []string

	prefix  []string
	slots   []byte
	started [maxSlots]atomic.Int64
	hangf   string
	workers int
}

// Worker executes cases one after another.
type Worker struct {
	*Ctx
	id    int
	space *int64
	h     maphash.Hash
	n     int
}

// ModelStates records states and transitions of a model explored besides the
// cases themselves (for instance the numbering-plan product automata).
func (c *Ctx) ModelStates(states, transitions int) {
	c.models.Add(int64(states))
	c.modelTr.Add(int64(transitions))
}

// Note records a remark for the evidence file.
func (c *Ctx) Note(f string, a ...any) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// Incomplete marks the run as not exhaustive.
func (c *Ctx) Incomplete() { c.cut.Store(true) }

// Stopped tells enumerators to unwind.
func (c *Ctx) Stopped() bool { return c.stop.Load() }

// Workers is the parallelism of this run.
func (c *Ctx) Workers() int { return c.workers }

// Par runs f for units 0..n-1 on all cores; name labels the space.
func (c *Ctx) Par(name string, n int, f func(w *Worker, unit int)) {
	if c.stop.Load() {
		return
	}
	c.mu.Lock()
	ctr := c.perSpace[name]
	if ctr == nil {
		ctr = new(int64)
		c.perSpace[name] = ctr
		c.order = append(c.order, name)
	}
	c.mu.Unlock()
	var next atomic.Int64
	var wg sync.WaitGroup
	k := min(c.workers, n)
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := &Worker{Ctx: c, id: id, space: ctr}
			w.h.SetSeed(c.seed)
			for {
				u := next.Add(1) - 1
				if u >= int64(n) || c.stop.Load() {
					break
				}
				f(w, int(u))
			}
			c.started[id].Store(0)
		}(i)
	}
	wg.Wait()
}

// Seq runs f on a single worker.
func (c *Ctx) Seq(name string, f func(w *Worker)) {
	c.Par(name, 1, func(w *Worker, _ int) { f(w) })
}

// Do evaluates one case unless it was visited before. It reports whether the
// exploration should go on.
func (w *Worker) Do(oracle string, args ...string) bool {
	if w.stop.Load() {
		return false
	}
	if p := w.prefix; p != nil {
		args = append(append(append(make([]string, 0, len(p)+len(args)), p[1:]...), oracle), args...)
		oracle = p[0]
	}
	w.trans.Add(1)
	w.h.Reset()
	w.h.WriteString(oracle)
	for _, a := range args {
		w.h.WriteByte(0xFF)
		w.h.WriteString(a)
	}
	if !w.visited.add(w.h.Sum64()) {
		return true
	}
	w.n++
	if w.n&1023 == 0 && time.Now().After(w.Deadline) {
		w.cut.Store(true)
		w.stop.Store(true)
		return false
	}
	w.record(oracle, args)
	err := Safe(w.P.Oracles[oracle], args)
	w.started[w.id].Store(0)
	if err != nil {
		w.fail(oracle, args, err)
		return !w.stop.Load()
	}
	w.okTraces.Add(1)
	n := atomic.AddInt64(w.space, 1)
	if n == 1 || n == 1000 || n == 100000 {
		w.mu.Lock()
		w.samples = append(w.samples, clip(render(oracle, args), 300))
		w.mu.Unlock()
	}
	return true
}

func render(oracle string, args []string) string {
	s := oracle + "("
	for i, a := range args {
		if i > 0 {
			s += ", "
		}
		if len(a) > 200 {
			a = a[:200] + "…"
		}
		s += strconv.Quote(a)
	}
	return s + ")"
}

// Key identifies a case for the known-findings file.
func Key(oracle string, args []string) string { return render(oracle, args) }

func (c *Ctx) fail(oracle string, args []string, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	key := Key(oracle, args)
	if c.known[key] {
		c.knownHit[key] = true
		return
	}
	q := make([]string, len(args))
	for i, a := range args {
		q[i] = strconv.Quote(a)
	}
	c.viol = append(c.viol, Violation{c.P.ID, oracle, q, err.Error()})
	if len(c.viol) >= maxViol {
		c.stop.Store(true)
	}
}

var maxViol = 5

func (w *Worker) record(oracle string, args []string) {
	w.started[w.id].Store(time.Now().UnixNano())
	if w.slots == nil {
		return
	}
	b := w.slots[w.id*slotSize : (w.id+1)*slotSize]
	o := 8
	put := func(s string) bool {
		if o+4+len(s) > len(b) {
			return false
		}
		binary.LittleEndian.PutUint32(b[o:], uint32(len(s)))
		o += 4
		o += copy(b[o:], s)
		return true
	}
	binary.LittleEndian.PutUint32(b[4:], uint32(len(args)+1))
	okAll := put(oracle)
	for _, a := range args {
		okAll = okAll && put(a)
	}
	if okAll {
		binary.LittleEndian.PutUint32(b, 1)
	} else {
		binary.LittleEndian.PutUint32(b, 0)
	}
}

func readSlot(b []byte) (string, []string, bool) {
	if binary.LittleEndian.Uint32(b) != 1 {
		return "", nil, false
	}
	n := int(binary.LittleEndian.Uint32(b[4:]))
	o := 8
	var parts []string
	for i := 0; i < n; i++ {
		l := int(binary.LittleEndian.Uint32(b[o:]))
		o += 4
		parts = append(parts, string(b[o:o+l]))
		o += l
	}
	return parts[0], parts[1:], true
}

// Safe runs an oracle, turning a panic into an error.
func Safe(o Oracle, args []string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := debug.Stack()
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return o(args)
}

func (c *Ctx) watchdog() {
	limit := hangAfter
	if c.P.Hang > 0 {
		limit = c.P.Hang
	}
	for {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		for i := range c.started {
			if t := c.started[i].Load(); t != 0 && now-t > int64(limit) {
				os.WriteFile(c.hangf, []byte(strconv.Itoa(i)), 0o644)
				os.Exit(3)
			}
		}
	}
}

func mapSlots(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	if f.Truncate(slotSize*maxSlots) != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

// set is a sharded open-addressing set of 64-bit fingerprints.
type set struct {
	shards [256]shardT
}

type shardT struct {
	mu sync.Mutex
	t  []uint64
	n  int
	_  [24]byte
}

func newSet() *set { return &set{} }

func (s *set) add(h uint64) bool {
	if h == 0 {
		h = 1
	}
	sh := &s.shards[h>>56]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if sh.n*4 >= len(sh.t)*3 {
		old := sh.t
		sh.t = make([]uint64, max(1024, 2*len(old)))
		for _, v := range old {
			if v != 0 {
				sh.put(v)
			}
		}
	}
	if !sh.put(h) {
		return false
	}
	sh.n++
	return true
}

func (sh *shardT) put(h uint64) bool {
	m := uint64(len(sh.t) - 1)
	for i := h & m; ; i = (i + 1) & m {
		if sh.t[i] == h {
			return false
		}
		if sh.t[i] == 0 {
			sh.t[i] = h
			return true
		}
	}
}

func (s *set) len() int {
	n := 0
	for i := range s.shards {
		n += s.shards[i].n
	}
	return n
}

func init() { runtime.GOMAXPROCS(runtime.NumCPU()) }

func clip(s string, n int) string {
	if r := []rune(s); len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

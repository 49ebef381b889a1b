// conc makes calls to the library from several goroutines under a controlled
// scheduler: one goroutine runs at a time, and at every synchronisation
// operation of the library the schedule says which goes on. The scheduler adds
// no ordering of its own that the race detector would see.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/nyaruka/phonenumbers/v2/verif/conc"
	"github.com/nyaruka/phonenumbers/v2/verif/ops"
)

func call(c [][]byte) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprint("panic: ", r)
		}
	}()
	a := make([]string, len(c)-1)
	for i := range a {
		a[i] = string(c[i+1])
	}
	o, _, _, err := ops.Call(string(c[0]), a)
	if err != nil {
		o = "argument changed: " + err.Error()
	}
	return o
}

const (
	maxTasks = 8
	maxTrace = 1 << 16
	maxHeld  = 512
)

type task struct {
	started, waiting, done bool
	op                     int
	p                      unsafe.Pointer
}

type object struct {
	p       unsafe.Pointer
	writer  bool
	readers int
	pending int // writers waiting for the readers to leave
}

var (
	active  bool
	turn    int
	ntasks  int
	tasks   [maxTasks]task
	objs    [maxHeld]object
	nobjs   int
	prefix  [maxTrace]byte
	nprefix int
	trace   [maxTrace]conc.Choice
	ntrace  int
	events  [maxTrace]conc.Event
	nevents int
	points  int
	results [maxTasks]string
)

//go:norace
func reset(p string, n int) {
	for i := 0; i < len(p); i++ {
		prefix[i] = p[i] - '0'
	}
	nprefix, ntrace, nevents, points, nobjs, ntasks = len(p), 0, 0, 0, 0, n
	for i := range tasks {
		tasks[i] = task{}
	}
	for i := 0; i < n; i++ {
		results[i] = ""
	}
	turn = -1
}

//go:norace
func find(p unsafe.Pointer, make bool) *object {
	for i := 0; i < nobjs; i++ {
		if objs[i].p == p {
			return &objs[i]
		}
	}
	if !make {
		return nil
	}
	if nobjs == maxHeld {
		abort(70, "too many locks held at once")
	}
	objs[nobjs] = object{p: p}
	nobjs++
	return &objs[nobjs-1]
}

//go:norace
func drop(o *object) {
	if !o.writer && o.readers == 0 && o.pending == 0 {
		nobjs--
		*o = objs[nobjs]
	}
}

//go:norace
func canGo(t int) bool {
	k := &tasks[t]
	if k.done {
		return false
	}
	o := find(k.p, false)
	if o == nil {
		return true
	}
	switch k.op {
	case conc.Lock:
		return !o.writer && o.readers == 0
	case conc.RLock:
		return !o.writer && o.pending == 0
	}
	return true
}

func abort(code int, msg string) {
	os.Stderr.WriteString("CONC: " + msg + "\n")
	os.Exit(code)
}

//go:norace
func event(t int) conc.Event {
	return conc.Event{Task: t, Read: tasks[t].op == conc.RLock || tasks[t].op == conc.Read, Obj: uint64(uintptr(tasks[t].p))}
}

// choose picks who goes on; cur may not be able to.
//
//go:norace
func choose(cur int, curOK bool) int {
	mask, n, first := 0, 0, -1
	for t := 0; t < ntasks; t++ {
		ok := false
		if t == cur {
			ok = curOK
		} else {
			ok = canGo(t)
		}
		if ok {
			mask |= 1 << t
			n++
			if first < 0 {
				first = t
			}
		}
	}
	if n == 0 {
		return -1
	}
	pick := first
	if curOK {
		pick = cur
	}
	if n == 1 {
		return pick
	}
	if ntrace == maxTrace {
		abort(69, "too many steps")
	}
	if ntrace < nprefix {
		pick = int(prefix[ntrace])
		if mask&(1<<pick) == 0 {
			abort(71, "the schedule names a goroutine that cannot go on")
		}
	}
	c := conc.Choice{Enabled: mask, Picked: pick, Cur: -1, At: nevents}
	if curOK {
		c.Cur = cur
		c.Op = event(cur)
	}
	trace[ntrace] = c
	ntrace++
	return pick
}

//go:norace
func yield(me int) {
	for turn != me {
		runtime.Gosched()
	}
}

const lib = "github.com/nyaruka/phonenumbers/v2"

// fromLib tells whether the synchronisation operation is the library's own.
//
//go:norace
func fromLib() bool {
	var pcs [16]uintptr
	n := runtime.Callers(4, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	fr.Next() // the operation itself
	for {
		f, more := fr.Next()
		if more && (strings.HasPrefix(f.Function, "sync.OnceFunc") || strings.HasPrefix(f.Function, "sync.OnceValue")) {
			continue
		}
		// not the sync package's own use of its parts
		return strings.HasPrefix(f.Function, lib) && !strings.HasPrefix(f.Function, lib+"/verif/")
	}
}

//go:norace
func hook(op int, p unsafe.Pointer) bool {
	if !active || turn < 0 {
		return false
	}
	me := turn
	switch op {
	case conc.Unlock:
		if o := find(p, false); o != nil {
			o.writer = false
			drop(o)
		}
		return false
	case conc.RUnlock:
		if o := find(p, false); o != nil && o.readers > 0 {
			o.readers--
			drop(o)
		}
		return false
	case conc.Locked:
		find(p, true).writer = true
		return false
	case conc.RLocked:
		find(p, true).readers++
		return false
	}
	isLib := fromLib()
	if points++; points > 1<<20 {
		abort(69, "too many steps")
	}
	k := &tasks[me]
	k.op, k.p = op, p
	if canGo(me) && isLib {
		if t := choose(me, true); t != me {
			turn = t
			yield(me)
		}
	}
	pended := false
	for !canGo(me) {
		if op == conc.Lock && !pended {
			pended = true
			find(p, true).pending++
		}
		t := choose(me, false)
		if t < 0 {
			deadlock()
		}
		turn = t
		yield(me)
	}
	if isLib {
		if nevents == maxTrace {
			abort(69, "too many steps")
		}
		events[nevents] = event(me)
		nevents++
	}
	switch op {
	case conc.Lock:
		o := find(p, true)
		o.writer = true
		if pended {
			o.pending--
		}
	case conc.RLock:
		find(p, true).readers++
	}
	k.p = nil
	k.op = conc.Point
	return isLib
}

//go:norace
func deadlock() {
	active = false
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	os.Stderr.WriteString("CONC: every goroutine waits for another\n" + string(buf[:n]) + "\n")
	os.Exit(67)
}

//go:norace
func begin(me int) { yield(me) }

//go:norace
func finish(me int, out string) {
	results[me] = out
	tasks[me].done = true
	left := false
	for t := 0; t < ntasks; t++ {
		left = left || !tasks[t].done
	}
	if !left {
		turn = -1
		return
	}
	t := choose(me, false)
	if t < 0 {
		deadlock()
	}
	turn = t
}

//go:norace
func await() {
	start, seen, at := time.Now(), -1, -1
	for {
		done := true
		for t := 0; t < ntasks; t++ {
			done = done && tasks[t].done
		}
		if done {
			return
		}
		if points != seen || turn != at {
			start, seen, at = time.Now(), points, turn
		} else if time.Since(start) > 25*time.Second {
			abort(68, "no progress")
		}
		runtime.Gosched()
	}
}

//go:norace
func start() int {
	active = true
	t := choose(-1, false)
	turn = t
	return t
}

//go:norace
func stop() { active = false }

//go:norace
func result(i int) string { return results[i] }

// run makes the calls of one scenario under one schedule.
func run(sc [][][][]byte, sched string) (out []string, tr []conc.Choice) {
	reset(sched, len(sc))
	ended := make(chan bool, len(sc))
	for i, cs := range sc {
		go func() {
			begin(i)
			var o []string
			for _, c := range cs {
				o = append(o, call(c))
			}
			finish(i, strings.Join(o, "\x02"))
			ended <- true
		}()
	}
	start()
	await()
	stop()
	for range sc {
		<-ended
	}
	for i := range sc {
		out = append(out, result(i))
	}
	return out, append([]conc.Choice{}, trace[:ntrace]...)
}

func copyEvents() []conc.Event { return append([]conc.Event{}, events[:nevents]...) }

// runFree makes the calls with no control over the schedule.
func runFree(sc [][][][]byte) []string {
	out := make([]string, len(sc))
	var wg sync.WaitGroup
	for i, cs := range sc {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var o []string
			for _, c := range cs {
				o = append(o, call(c))
			}
			out[i] = strings.Join(o, "\x02")
		}()
	}
	wg.Wait()
	return out
}

func emit(r conc.Reply) {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append([]byte("REPLY "), append(b, '\n')...))
}

func main() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var q conc.Request
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	var rep conc.Reply
	if q.Free || !install(hook) {
		rep.Free = true
		for n, sc := range q.Scenarios {
			syscall.Write(1, []byte(fmt.Sprintf("AT %d \n", n)))
			rep.Out = runFree(sc)
			for i := range q.Expect {
				if n == i {
					for t := range rep.Out {
						if rep.Out[t] != q.Expect[n][t] && rep.Bad == nil {
							rep.Bad = &conc.Bad{Scenario: n, Task: t, Got: rep.Out[t]}
						}
					}
				}
			}
		}
		emit(rep)
		return
	}
	for _, c := range q.Warm {
		call(c)
	}
	if q.Bound < 0 {
		rep.Out, rep.Trace = run(q.Scenarios[0], q.Schedule)
		rep.Events = copyEvents()
		emit(rep)
		return
	}
	// every schedule of every scenario, in this process
	for n, sc := range q.Scenarios {
		followed := conc.Explore(len(sc), q.Bound, func(s string) ([]conc.Choice, []conc.Event, bool) {
			syscall.Write(1, []byte(fmt.Sprintf("AT %d %s\n", n, s)))
			out, tr := run(sc, s)
			rep.Schedules++
			rep.Points += len(tr)
			for i := range out {
				if out[i] != q.Expect[n][i] {
					rep.Bad = &conc.Bad{Scenario: n, Schedule: s, Task: i, Got: out[i]}
					return nil, nil, false
				}
			}
			return tr, copyEvents(), true
		})
		if !followed {
			rep.Lost++
		}
		if rep.Bad != nil {
			break
		}
	}
	emit(rep)
}

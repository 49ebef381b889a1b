package conc

// Choice is one decision of the scheduler.
type Choice struct {
	Enabled int // bit set of the goroutines that could go on
	Picked  int
	Cur     int // the goroutine that ran and could go on, or -1
	At      int // how many operations had been made
	Op      Event
}

// Event is an operation that a goroutine made, or is about to make.
type Event struct {
	Task int
	Read bool // it changes nothing
	Obj  uint64
}

func (a Event) conflicts(b Event) bool { return a.Obj == b.Obj && !(a.Read && b.Read) }

// Request to the driver.
type Request struct {
	Scenarios [][][][][]byte // scenario, goroutine, call, name and arguments
	Expect    [][]string
	Warm      [][][]byte // calls made first, one after another
	Schedule  string     // with Bound < 0: the decisions to make, one digit each
	Bound     int        // otherwise every schedule with that many preemptions
	Free      bool       // no control over the schedule
}

// Bad is a result that differs.
type Bad struct {
	Scenario int
	Schedule string
	Task     int
	Got      string
}

// Reply of the driver.
type Reply struct {
	Out       []string
	Trace     []Choice
	Events    []Event
	Schedules int
	Points    int
	Bad       *Bad
	Lost      int  // scenarios whose schedules could not all be followed
	Free      bool // the schedule was not controlled
}

// Next are the schedules that differ from a run's at one decision at or after
// from, with at most bound preemptions.
func Next(tr []Choice, from, bound int) []string {
	var out []string
	b := make([]byte, len(tr))
	used := 0
	for i, c := range tr {
		if i >= from {
			for t := 0; c.Enabled>>t != 0; t++ {
				if c.Enabled>>t&1 == 0 || t == c.Picked {
					continue
				}
				cost := used
				if c.Cur >= 0 && t != c.Cur {
					cost++
				}
				if cost > bound {
					continue
				}
				out = append(out, string(b[:i])+string(rune('0'+t)))
			}
		}
		if c.Cur >= 0 && c.Picked != c.Cur {
			used++
		}
		b[i] = byte('0' + c.Picked)
	}
	return out
}

// Explore makes run go through the schedules with at most bound preemptions.
// For two goroutines and one preemption, schedules that only move an operation
// past operations it does not conflict with count as one. run returns false to
// stop. The result is false if the calls do not repeat their operations, so that
// not every schedule could be followed.
func Explore(n, bound int, run func(s string) ([]Choice, []Event, bool)) bool {
	if n == 2 && bound == 1 {
		return explorePair(run)
	}
	stack := []string{""}
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		tr, _, ok := run(s)
		if !ok {
			return true
		}
		if len(tr) < len(s) {
			return false
		}
		stack = append(stack, Next(tr, len(s), bound)...)
	}
	return true
}

func explorePair(run func(s string) ([]Choice, []Event, bool)) bool {
	for first := range 2 {
		start := string(rune('0' + first))
		base, evs, ok := run(start)
		if !ok {
			return true
		}
		// what the other goroutine did right after being switched to, and
		// what it waited for if it had to
		other := func(evs []Event, at int) (out []Event) {
			back := false
			for _, e := range evs[at:] {
				if e.Task == first {
					back = true
					continue
				}
				out = append(out, e)
				if back {
					break
				}
			}
			return
		}
		last := 0
		for i, e := range evs {
			if e.Task == first {
				last = i + 1
			}
		}
		ops := other(evs, last)
		for i := len(base) - 1; i > 0; i-- {
			c := base[i]
			if c.Cur != first || c.Picked != first {
				continue
			}
			same := true
			for _, e := range ops {
				same = same && !c.Op.conflicts(e)
			}
			if same {
				continue
			}
			b := make([]byte, i+1)
			for j := range i {
				b[j] = byte('0' + base[j].Picked)
			}
			b[i] = byte('1' - first)
			tr, evs, ok := run(string(b))
			if !ok {
				return true
			}
			if i >= len(tr) {
				return false
			}
			ops = other(evs, tr[i].At)
		}
	}
	return true
}

package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nyaruka/phonenumbers/v2/verif/conc"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/ops"
)

// A scenario is a list of goroutines, "\x05" between them; a goroutine is a list
// of calls, "\x04" between them.

func splitScenario(s string) (out [][][][]byte, calls [][]string) {
	for _, t := range strings.Split(s, "\x05") {
		var g [][][]byte
		cs := strings.Split(t, "\x04")
		for _, c := range cs {
			g = append(g, splitCall(c))
		}
		out = append(out, g)
		calls = append(calls, cs)
	}
	return
}

func showScenario(s string) string {
	var gs []string
	_, calls := splitScenario(s)
	for _, g := range calls {
		var cs []string
		for _, c := range g {
			cs = append(cs, showCall(c))
		}
		gs = append(gs, strings.Join(cs, "; "))
	}
	return strings.Join(gs, "  ||  ")
}

// errUndecided is for runs that the scheduler could not carry through.
var errUndecided = errors.New("undecided")

type concDied struct {
	reply *conc.Reply
	at    string // the last "AT" line
	why   string
}

func (e *concDied) Error() string { return e.why }

func clipReport(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" && len(out) < 40 {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// runConc runs the driver. Besides a reply there is either errUndecided or a
// *concDied with the reason why the library is to blame.
func runConc(q conc.Request, limit time.Duration) (*conc.Reply, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, errUndecided
	}
	b, _ := json.Marshal(q)
	cmd := exec.Command(filepath.Join(filepath.Dir(exe), "conc"))
	procs := "GOMAXPROCS=1"
	if q.Free {
		procs = "GOMAXPROCS=4"
	}
	gogc := "GOGC=off"
	if q.Bound >= 0 || q.Free {
		gogc = "GOGC=400"
	}
	cmd.Env = append(os.Environ(), procs, gogc, "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return nil, errUndecided
	}
	var late atomic.Bool
	t := time.AfterFunc(limit, func() { late.Store(true); cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	o := out.String()
	at := ""
	if i := strings.LastIndex(o, "AT "); i >= 0 {
		at, _, _ = strings.Cut(o[i+3:], "\n")
	}
	if err != nil {
		code := cmd.ProcessState.ExitCode()
		switch {
		case code == 66:
			return nil, &concDied{at: at, why: "data race\n" + clipReport(errb.String())}
		case code == 67:
			return nil, &concDied{at: at, why: "calls block forever\n" + clipReport(errb.String())}
		case code == 2 && strings.Contains(errb.String(), "fatal error:"):
			return nil, &concDied{at: at, why: "the process died\n" + clipReport(errb.String())}
		case q.Free && late.Load():
			return nil, &concDied{at: at, why: fmt.Sprintf("calls still running after %v", limit)}
		}
		return nil, errUndecided
	}
	i := strings.LastIndex(o, "REPLY ")
	if i < 0 {
		return nil, errUndecided
	}
	var r conc.Reply
	if err := json.Unmarshal([]byte(o[i+6:]), &r); err != nil {
		return nil, errUndecided
	}
	return &r, nil
}

func concExpect(s string) ([]string, error) {
	_, calls := splitScenario(s)
	var out []string
	for _, g := range calls {
		var o []string
		for _, c := range g {
			x, err := fresh(c)
			if err != nil {
				return nil, err
			}
			o = append(o, x)
		}
		out = append(out, strings.Join(o, "\x02"))
	}
	return out, nil
}

var (
	concUndecided atomic.Int64
	concTraces    sync.Map
	concPoints    atomic.Int64
	concScheds    atomic.Int64
)

func concJudge(sc, sched string, out, want []string) error {
	_, calls := splitScenario(sc)
	for i := range out {
		if out[i] != want[i] {
			g, w := strings.Split(out[i], "\x02"), strings.Split(want[i], "\x02")
			for j := range w {
				if j >= len(g) || g[j] != w[j] {
					return fmt.Errorf("%s under schedule %q: %s of goroutine %d returns %s, alone %s", showScenario(sc), sched, showCall(calls[i][j]), i, g[min(j, len(g)-1)], w[j])
				}
			}
		}
	}
	return nil
}

// coldOracle makes the calls of scenario a[0] in a fresh process, with the
// scheduler's decisions a[1].
func coldOracle(a []string) error {
	want, err := concExpect(a[0])
	if err != nil {
		return err
	}
	sc, _ := splitScenario(a[0])
	r, err := runConc(conc.Request{Scenarios: [][][][][]byte{sc}, Schedule: a[1], Bound: -1}, 100*time.Second)
	var died *concDied
	if errors.As(err, &died) {
		return fmt.Errorf("%s under schedule %q: %v", showScenario(a[0]), a[1], died)
	}
	if err != nil {
		return concFree(a[0], want)
	}
	if r.Free {
		concUndecided.Add(1)
	}
	concTraces.Store(a[0]+"\x06"+a[1], r)
	concScheds.Add(1)
	concPoints.Add(int64(len(r.Trace)))
	return concJudge(a[0], a[1], r.Out, want)
}

// concFree is for scenarios that cannot be scheduled: they run as they like.
func concFree(s string, want []string) error {
	concUndecided.Add(1)
	sc, _ := splitScenario(s)
	q := conc.Request{Free: true, Bound: -1, Scenarios: [][][][][]byte{sc}}
	for range 3 {
		r, err := runConc(q, 60*time.Second)
		var died *concDied
		if errors.As(err, &died) {
			return fmt.Errorf("%s: %v", showScenario(s), died)
		}
		if err == nil {
			if err := concJudge(s, "", r.Out, want); err != nil {
				return err
			}
		}
	}
	return nil
}

func freeOracle(a []string) error {
	want, err := concExpect(a[0])
	if err != nil {
		return err
	}
	return concFree(a[0], want)
}

// warmOracle explores every schedule with at most one preemption of the
// scenarios a[1:], one after another in a process that has made all their calls
// before.
func warmOracle(a []string) error {
	bound := 1
	fmt.Sscan(a[0], &bound)
	q := conc.Request{Bound: bound}
	for _, s := range a[1:] {
		sc, _ := splitScenario(s)
		want, err := concExpect(s)
		if err != nil {
			return err
		}
		q.Scenarios = append(q.Scenarios, sc)
		q.Expect = append(q.Expect, want)
		for _, g := range sc {
			q.Warm = append(q.Warm, g...)
		}
	}
	r, err := runConc(q, 600*time.Second)
	var died *concDied
	if errors.As(err, &died) {
		n, sched := 0, ""
		fmt.Sscan(died.at, &n, &sched)
		return fmt.Errorf("warmed up, %s under schedule %q: %v", showScenario(a[1+min(n, len(a)-2)]), sched, died)
	}
	if err != nil {
		concUndecided.Add(1)
		return nil
	}
	if r.Free {
		concUndecided.Add(1)
	}
	concUndecided.Add(int64(r.Lost))
	concScheds.Add(int64(r.Schedules))
	concPoints.Add(int64(r.Points))
	if r.Bad != nil {
		out := append([]string{}, q.Expect[r.Bad.Scenario]...)
		out[r.Bad.Task] = r.Bad.Got
		return concJudge(a[1+r.Bad.Scenario], r.Bad.Schedule, out, q.Expect[r.Bad.Scenario])
	}
	return nil
}

// concCore are calls that between them reach every lazily filled table, with
// numbers of regions whose metadata has few patterns.
func concCore() []string {
	na, ch := ops.Plain(674, 5551234), ops.Plain(247, 62889)
	return []string{
		joinCall("Parse", "0044 20 7031 3000", "IT"),
		joinCall("ParseAndKeepRawInput", "(0)15 11 96123-4567", "BR"),
		joinCall("Format", ops.Plain(685, 22123), "1"),
		joinCall("GetNumberType", na),
		joinCall("FindNumbersWithLeniency", "a 555 1234", "NR", "3", "9"),
		joinCall("IsNumberMatch", "+1 650 253 0000", "6502530000"),
		joinCall("IsEmergencyNumber", "911", "US"),
		joinCall("IsValidShortNumber", ops.Plain(44, 999)),
		joinCall("carrier.GetNameForValidNumber", ops.Plain(86, 13702032331), "zh"),
		joinCall("geocoding.GetDescriptionForValidNumber", ops.Plain(41, 446681800), "de"),
		joinCall("timezone.GetTimeZonesForGeographicalNumber", na),
		joinCall("Leniency.Verify", "2", na, "555 1234"),
		joinCall("AsYouType", "NR", "55"),
		joinCall("FormatOutOfCountryCallingNumber", ch, "US"),
		joinCall("GetExampleNumber", "IT"),
		joinCall("GetSupportedRegions"),
	}
}

// concLazy are calls that fill tables, cheap enough to explore deeper.
func concLazy() []string {
	ch := ops.Plain(41, 446681800)
	return []string{
		joinCall("carrier.GetNameForValidNumber", ops.Plain(86, 13702032331), "zh"),
		joinCall("carrier.GetNameForValidNumber", ops.Plain(86, 13702032331), "xx"),
		joinCall("geocoding.GetDescriptionForValidNumber", ch, "de"),
		joinCall("geocoding.GetDescriptionForValidNumber", ch, "it"),
		joinCall("timezone.GetTimeZonesForGeographicalNumber", ch),
		joinCall("IsEmergencyNumber", "112", "DE"),
	}
}

// concCalls is calls of every public function.
func concCalls(per int) []string {
	var out []string
	for _, o := range ops.All {
		switch o.Name {
		case "GetExampleNumberForType":
			continue // goes through the regions in no fixed order
		case "MetadataCollection", "ShortNumberMetadataCollection", "metadata.Load":
			if per <= 3 {
				continue // slow, and only read
			}
		}
		cs := corpusOf(o)
		for i := 0; i < per && i < len(cs); i++ {
			out = append(out, cs[(i*2+1)*len(cs)/(2*per)%len(cs)])
		}
	}
	return out
}

// coldDFS explores the schedules of one scenario, a process per schedule.
func coldDFS(k *explore.Worker, sc string, bound int) {
	followed := conc.Explore(1+strings.Count(sc, "\x05"), bound, func(s string) ([]conc.Choice, []conc.Event, bool) {
		if k.Stopped() {
			return nil, nil, false
		}
		k.Do("cold", sc, s)
		v, ok := concTraces.LoadAndDelete(sc + "\x06" + s)
		if !ok {
			return nil, nil, false
		}
		r := v.(*conc.Reply)
		return r.Trace, r.Events, true
	})
	if !followed {
		concUndecided.Add(1)
	}
}

func pairScenarios(cs []string, self bool) []string {
	var out []string
	for i := range cs {
		for j := i; j < len(cs); j++ {
			if i != j || self {
				out = append(out, cs[i]+"\x05"+cs[j])
			}
		}
	}
	return out
}

func init() {
	explore.Register(&explore.Property{
		ID:   "C16",
		Rule: "calls from 2 or 3 goroutines on the real code under a controlled scheduler (the driver is built with a sync and sync/atomic that ask the scheduler before every operation; one goroutine runs at a time, switches happen at synchronisation operations of the library, preemption-bounded depth-first search, one fresh process per schedule of first calls), every schedule watched by the race detector, for deadlock, and compared with each call's answer when run alone: all pairs of 16 calls reaching every lazily filled table (bound 1), three calls of every public function with themselves (bound 1), pairs and triples of table-filling calls (bound 2), and all pairs of two calls of every public function in warmed-up processes (bound 1)",
		Assumptions: []string{"between synchronisation operations goroutines run undisturbed: in a run without a data race other interleavings are equivalent, and data races are reported by the race detector",
			"objects of the standard library's sync.Pool users are never reused, so that reuse cannot hide a race"},
		Hang:    20 * time.Minute, // the driver's processes have limits of their own
		Oracles: map[string]explore.Oracle{"cold": coldOracle, "warm": warmOracle, "free": freeOracle},
		Explore: func(c *explore.Ctx) {
			core, lazy := concCore(), concLazy()
			if why := conc.Uncontrolled("/repo"); why != "" {
				c.Note("no controlled schedules: %s", why)
				c.Incomplete()
				ps := pairScenarios(append(core, lazy...), true)
				c.Par("uncontrolled runs", len(ps), func(k *explore.Worker, u int) { k.Do("free", ps[u]) })
				return
			}
			// deep: table-filling calls
			deep := pairScenarios(lazy, true)
			for _, a := range lazy {
				deep = append(deep, a+"\x04"+a+"\x05"+a)
			}
			c.Par("table-filling pairs, two preemptions", len(deep), func(k *explore.Worker, u int) { coldDFS(k, deep[u], 2) })
			var triples []string
			for i, a := range lazy {
				b := lazy[(i+1)%len(lazy)]
				triples = append(triples, a+"\x05"+a+"\x05"+a, a+"\x05"+a+"\x05"+b)
			}
			tb, nself := 1, 3
			if c.Thorough {
				tb, nself = 2, 12
			}
			c.Par("table-filling triples", len(triples), func(k *explore.Worker, u int) { coldDFS(k, triples[u], tb) })
			var self []string
			for _, a := range concCalls(nself) {
				self = append(self, a+"\x05"+a)
			}
			c.Par("each function with itself, first calls", len(self), func(k *explore.Worker, u int) { coldDFS(k, self[u], 1) })
			ps := pairScenarios(core, true)
			c.Par("core pairs, first calls", len(ps), func(k *explore.Worker, u int) { coldDFS(k, ps[u], 1) })
			warm := concCalls(2)
			bound := "1"
			if c.Thorough {
				warm = concCalls(5)
				bound = "2"
			}
			c.Par("warm pairs", len(warm), func(k *explore.Worker, u int) {
				a := []string{bound}
				for j := u; j < len(warm); j++ {
					a = append(a, warm[u]+"\x05"+warm[j])
				}
				k.Do("warm", a...)
			})
			if c.Thorough {
				ps := pairScenarios(append(concCalls(1), lazy...), false)
				c.Par("all pairs, first calls", len(ps), func(k *explore.Worker, u int) { coldDFS(k, ps[u], 1) })
				ds := pairScenarios(core, true)
				c.Par("core pairs, two preemptions", len(ds), func(k *explore.Worker, u int) { coldDFS(k, ds[u], 2) })
			}
			if n := concUndecided.Load(); n > 0 {
				c.Note("%d runs were not controlled", n)
				c.Incomplete()
			}
			c.ModelStates(int(concScheds.Load()), int(concPoints.Load()))
			c.Note("%d schedules, %d scheduling decisions", concScheds.Load(), concPoints.Load())
		},
	})
}

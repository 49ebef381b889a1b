package explore

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// result is what a child run reports.
type result struct {
	States, Transitions, Validated int64
	Exhaustive                     bool
	Samples                        []string
	Spaces                         map[string]int64
	Violations                     []Violation
	KnownHit                       []string
	Notes                          []string
	Wall                           float64
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadFindings(dir, id string) map[string]Finding {
	out := map[string]Finding{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.jsonl"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		var f Finding
		if strings.TrimSpace(l) == "" || json.Unmarshal([]byte(l), &f) != nil {
			continue
		}
		if f.Property == id && f.Fixed == "" {
			out[f.Case] = f
		}
	}
	return out
}

func seconds(env string, def int) time.Duration {
	if v, err := strconv.Atoi(os.Getenv(env)); err == nil && v > 0 {
		return time.Duration(v) * time.Second
	}
	return time.Duration(def) * time.Second
}

var atExit []func()

// AtExit registers a clean-up for the end of the process.
func AtExit(f func()) { atExit = append(atExit, f) }

func exit(code int) {
	for _, f := range atExit {
		f()
	}
	os.Exit(code)
}

// Main is the entry point of a check binary.
func Main() {
	args := os.Args[1:]
	if len(args) < 1 {
		fmt.Println("usage: check ID | check replay FILE | check list")
		os.Exit(2)
	}
	switch args[0] {
	case "list":
		for _, id := range IDs() {
			fmt.Println(id)
		}
	case "child":
		child(args[1], args[2])
	case "case":
		exit(runCase(args[1]))
	case "replay":
		code := runCase(args[1])
		exit(code)
	default:
		exit(parent(args[0]))
	}
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func seed() int64 {
	v, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return v
}

func child(id, scratch string) {
	p := Get(id)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	c := &Ctx{P: p, Thorough: thorough(), Seed: seed(), visited: newSet(), seed: maphash.MakeSeed(),
		perSpace: map[string]*int64{}, known: map[string]bool{}, knownHit: map[string]bool{}}
	dir, _ := os.Getwd()
	for k := range loadFindings(dir, id) {
		c.known[k] = true
	}
	c.workers = min(runtime.NumCPU(), maxSlots)
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		c.workers = v
	}
	c.hangf = filepath.Join(scratch, "hang")
	c.slots = mapSlots(filepath.Join(scratch, "slots"))
	start := time.Now()
	d := 420
	if c.Thorough {
		d = 3600
	}
	c.Deadline = start.Add(seconds("VERIF_DEADLINE", d))
	go c.watchdog()
	if p.Init != nil {
		p.Init()
	}
	p.Explore(c)
	r := result{
		States:      int64(c.visited.len()) + c.models.Load(),
		Transitions: c.trans.Load() + c.modelTr.Load(),
		Validated:   c.okTraces.Load(),
		Exhaustive:  !c.cut.Load() && len(c.viol) == 0,
		Samples:     c.samples,
		Spaces:      map[string]int64{},
		Violations:  c.viol,
		Notes:       c.notes,
		Wall:        time.Since(start).Seconds(),
	}
	for k, v := range c.perSpace {
		r.Spaces[k] = *v
	}
	for k := range c.knownHit {
		r.KnownHit = append(r.KnownHit, k)
	}
	b, _ := json.Marshal(r)
	if err := os.WriteFile(filepath.Join(scratch, "result.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(4)
	}
	exit(0)
}

func runCase(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := Get(v.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", v.Property)
		return 2
	}
	var a []string
	for _, q := range v.Args {
		s, err := strconv.Unquote(q)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		a = append(a, s)
	}
	if p.Init != nil {
		p.Init()
	}
	if err := Safe(p.Oracles[v.Oracle], a); err != nil {
		fmt.Printf("property %s fails on %s\n%v\n", v.Property, render(v.Oracle, a), err)
		return 1
	}
	fmt.Printf("property %s holds on %s\n", v.Property, render(v.Oracle, a))
	return 0
}

func parent(id string) int {
	p := Get(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	dir, _ := os.Getwd()
	start := time.Now()
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	evdir := filepath.Join(dir, "evidence")
	repdir := filepath.Join(evdir, "replays")
	os.MkdirAll(repdir, 0o755)

	var r result
	got := false
	var crash *Violation
	for attempt := 0; attempt < 2 && !got && crash == nil; attempt++ {
		os.Remove(filepath.Join(scratch, "result.json"))
		os.Remove(filepath.Join(scratch, "hang"))
		os.Remove(filepath.Join(scratch, "slots"))
		cmd := exec.Command(os.Args[0], "child", id, scratch)
		var buf tail
		cmd.Stdout, cmd.Stderr = os.Stdout, &buf
		runErr := cmd.Run()
		if runErr == nil {
			b, err := os.ReadFile(filepath.Join(scratch, "result.json"))
			if err == nil && json.Unmarshal(b, &r) == nil {
				got = true
				break
			}
		}
		what := "the exploration process died: " + fmt.Sprint(runErr)
		if _, err := os.Stat(filepath.Join(scratch, "hang")); err == nil {
			what = "a call did not return"
		}
		fmt.Fprintf(os.Stderr, "%s\n%s\n", what, buf.head())
		// Which of the cases in flight does it, run on its own?
		if b, err := os.ReadFile(filepath.Join(scratch, "slots")); err == nil && len(b) == slotSize*maxSlots {
			for i := 0; i < maxSlots && crash == nil; i++ {
				o, a, ok := readSlot(b[i*slotSize : (i+1)*slotSize])
				if !ok {
					continue
				}
				v := Violation{Property: id, Oracle: o, Message: what}
				for _, s := range a {
					v.Args = append(v.Args, strconv.Quote(s))
				}
				if bad, msg := runsBadly(scratch, v); bad {
					v.Message = what + "; on its own: " + msg
					crash = &v
				}
			}
		}
		if crash == nil && attempt == 1 {
			crash = &Violation{Property: id, Oracle: "run", Message: what + " (twice; no single case reproduces it)\n" + buf.head()}
		}
	}
	if crash != nil {
		r.Violations = append(r.Violations, *crash)
	}
	// Confirm: a violation has to fail again on its own.
	code := 0
	for i, v := range r.Violations {
		path := filepath.Join(repdir, fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		rel, _ := filepath.Rel(dir, path)
		if v.Oracle != "run" {
			if bad, _ := runsBadly(scratch, v); !bad {
				fmt.Printf("note: fails only together with concurrent or earlier calls: %s(%s)\n", v.Oracle, clip(strings.Join(v.Args, ", "), 1500))
			}
		}
		fmt.Printf("%s(%s)\n  %s\n", v.Oracle, clip(strings.Join(v.Args, ", "), 1500), strings.ReplaceAll(v.Message, "\n", "\n  "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rel)
		code = 1
	}
	kf := loadFindings(dir, id)
	for _, k := range r.KnownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf[k].What)
	}
	tier := "quick"
	if thorough() {
		tier = "thorough"
	}
	cov := map[string]any{
		"states":                        r.States,
		"transitions":                   r.Transitions,
		"traces_validated_against_impl": r.Validated,
		"evaluations":                   r.Transitions,
		"distinct_nontrivial":           r.Validated,
		"rule":                          p.Rule,
		"samples":                       r.Samples,
		"spaces":                        r.Spaces,
		"exhaustive":                    r.Exhaustive,
	}
	if p.Level == "model_checking" {
		delete(cov, "evaluations")
		delete(cov, "distinct_nontrivial")
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed(), "level": p.Level,
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(r.Violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d cases validated, exhaustive=%v, %.1fs\n",
		id, tier, r.States, r.Transitions, r.Validated, r.Exhaustive, time.Since(start).Seconds())
	return code
}

func runsBadly(scratch string, v Violation) (bool, string) {
	f := filepath.Join(scratch, "case.json")
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command(os.Args[0], "case", f)
	var buf tail
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return false, ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			return true, buf.head()
		}
		return false, ""
	case <-time.After(90 * time.Second):
		cmd.Process.Kill()
		<-done
		return true, "did not return within 90 s"
	}
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 1<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) head() string {
	if len(t.b) > 4000 {
		return string(t.b[:4000])
	}
	return string(t.b)
}

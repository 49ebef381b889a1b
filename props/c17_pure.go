package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/ops"
	"google.golang.org/protobuf/proto"
)

type histReq struct {
	Calls  [][][]byte
	Order  string
	Expect [][]byte
}

type histReply struct {
	Out   [][]byte
	Bad   int
	Call  int
	Got   []byte
	Steps int
	Prev  []int
}

func splitCall(c string) [][]byte {
	var out [][]byte
	for _, p := range strings.Split(c, "\x03") {
		out = append(out, []byte(p))
	}
	return out
}

func joinCall(name string, args ...string) string {
	return strings.Join(append([]string{name}, args...), "\x03")
}

// runHist makes calls in a fresh process.
func runHist(q histReq) (*histReply, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(q)
	cmd := exec.Command(filepath.Join(filepath.Dir(exe), "hist"))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(150*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	if err := cmd.Wait(); err != nil {
		return nil, fmt.Errorf("the process making the calls died: %v\n%.2000s", err, errb.String())
	}
	var r histReply
	if err := json.Unmarshal(out.Bytes(), &r); err != nil {
		return nil, err
	}
	return &r, nil
}

var freshMemo sync.Map

// fresh is what a call returns as the first call of a process.
func fresh(c string) (string, error) {
	if v, ok := freshMemo.Load(c); ok {
		return v.(string), nil
	}
	r, err := runHist(histReq{Calls: [][][]byte{splitCall(c)}, Order: "list"})
	if err != nil {
		return "", err
	}
	s := string(r.Out[0])
	freshMemo.Store(c, s)
	return s, nil
}

func showCall(c string) string {
	p := strings.Split(c, "\x03")
	return fmt.Sprintf("%s%q", p[0], p[1:])
}

// repeatOracle makes the same first call in two processes.
func repeatOracle(a []string) error {
	x, err := fresh(a[0])
	if err != nil {
		return err
	}
	if strings.HasPrefix(x, "panic: ") || strings.HasPrefix(x, "argument changed") {
		return fmt.Errorf("%s: %s", showCall(a[0]), x)
	}
	r, err := runHist(histReq{Calls: [][][]byte{splitCall(a[0]), splitCall(a[0])}, Order: "list"})
	if err != nil {
		return err
	}
	for i, o := range r.Out {
		if string(o) != x {
			return fmt.Errorf("%s returns %s in one fresh process and, as call %d, %s in another", showCall(a[0]), x, i+1, o)
		}
	}
	return nil
}

// historyOracle makes calls one after another in a fresh process; each has to
// return what it returns first in a process of its own.
func historyOracle(a []string) error {
	q := histReq{Order: "list"}
	for _, c := range a {
		q.Calls = append(q.Calls, splitCall(c))
	}
	r, err := runHist(q)
	if err != nil {
		return err
	}
	for i, c := range a {
		want, err := fresh(c)
		if err != nil {
			return err
		}
		if string(r.Out[i]) != want {
			var before []string
			for _, b := range a[:i] {
				before = append(before, showCall(b))
			}
			return fmt.Errorf("%s returns %s; after %s it returns %s", showCall(c), want, strings.Join(before, ", "), r.Out[i])
		}
	}
	return nil
}

// walkOracle makes a long walk over calls: args are the order and the calls.
func walkOracle(a []string) error {
	order, calls := a[0], a[1:]
	if calls[0] == "@corpus" {
		calls = nil
		for _, o := range ops.All {
			calls = append(calls, corpusOf(o)...)
		}
	} else if strings.HasPrefix(calls[0], "@op ") {
		calls = corpusOf(ops.Get(calls[0][4:]))
	}
	q := histReq{Order: order}
	for _, c := range calls {
		q.Calls = append(q.Calls, splitCall(c))
		x, err := fresh(c)
		if err != nil {
			return err
		}
		q.Expect = append(q.Expect, []byte(x))
	}
	r, err := runHist(q)
	if err != nil {
		return err
	}
	if r.Bad < 0 {
		return nil
	}
	bad := calls[r.Call]
	// which single earlier call is enough?
	seen := map[int]bool{}
	for i := len(r.Prev) - 1; i >= 0 && len(seen) < 60; i-- {
		if p := r.Prev[i]; !seen[p] {
			seen[p] = true
			if err := historyOracle([]string{calls[p], bad}); err != nil {
				return err
			}
		}
	}
	return fmt.Errorf("%s returns %s; after a history of %d calls (order %s) it returns %s", showCall(bad), q.Expect[r.Call], r.Bad, order, r.Got)
}

// argsOracle makes one call twice in this process: it must leave its
// arguments as they were and answer the same both times.
func argsOracle(a []string) error {
	var outs [2]string
	for i := range outs {
		out, scribble, _, err := ops.Call(a[0], a[1:])
		if err != nil {
			return err
		}
		outs[i] = out
		scribble()
	}
	if outs[0] != outs[1] && a[0] != "GetExampleNumberForType" {
		return fmt.Errorf("%s returns %s and then %s", showCall(joinCall(a[0], a[1:]...)), outs[0], outs[1])
	}
	return nil
}

// shapes are all the ways the fields of a number can be set.
func shapes(f func(string)) {
	str := func(v ...string) []*string {
		out := []*string{nil}
		for i := range v {
			out = append(out, &v[i])
		}
		return out
	}
	i32 := func(v ...int32) []*int32 {
		out := []*int32{nil}
		for i := range v {
			out = append(out, &v[i])
		}
		return out
	}
	nns := []*uint64{nil, proto.Uint64(0), proto.Uint64(11961234567), proto.Uint64(236618300)}
	for _, cc := range i32(0, 1, 39, 55, 800, 999) {
		for _, nn := range nns {
			for _, ext := range str("", "12") {
				for _, ilz := range []*bool{nil, proto.Bool(false), proto.Bool(true)} {
					for _, nlz := range i32(0, 2) {
						for _, raw := range str("", "02 3661 8300") {
							for _, src := range i32(20, 1) {
								for _, car := range str("", "15") {
									f(ops.Enc(ops.Number{CC: cc, NN: nn, Ext: ext, ILZ: ilz, NLZ: nlz, Raw: raw, Src: src, Carrier: car}))
								}
							}
						}
					}
				}
			}
		}
	}
}

var pureNums = []string{
	ops.Plain(1, 6502530000),
	ops.Enc(ops.Number{CC: proto.Int32(39), NN: proto.Uint64(236618300), ILZ: proto.Bool(true), Raw: proto.String("02 3661 8300"), Src: proto.Int32(20)}),
	ops.Plain(44, 2070313000),
	ops.Enc(ops.Number{CC: proto.Int32(54), NN: proto.Uint64(91187654321), Ext: proto.String("12"), Raw: proto.String("011 15-8765-4321 x12"), Src: proto.Int32(20)}),
	ops.Enc(ops.Number{CC: proto.Int32(55), NN: proto.Uint64(11961234567), Carrier: proto.String("15"), Raw: proto.String("015 11 96123-4567"), Src: proto.Int32(20)}),
	ops.Plain(86, 13702032331),
	ops.Plain(800, 12345678),
	ops.Enc(ops.Number{CC: proto.Int32(1), NN: proto.Uint64(8003569377), Raw: proto.String("1-800-FLOWERS"), Src: proto.Int32(20)}),
	ops.Plain(49, 30123456),
	ops.Plain(1, 911),
	ops.Plain(52, 15512345678900),
	ops.Enc(ops.Number{}),
	ops.Plain(852, 51234567),
	ops.Plain(41, 446681800),
}

func pureDom(k ops.Kind, short bool) []string {
	switch k {
	case ops.Text:
		return []string{"+1 650-253-0000 ext. 12", "02 3661 8300", "1-800-FLOWERS", "0044 20 7031 3000", "911", "call (650) 253 0000 or 0721/123456", "abc"}
	case ops.Num:
		return pureNums
	case ops.Region:
		if short {
			return []string{"US", "IT", "ZZ"}
		}
		return []string{"US", "IT", "GB", "AR", "BR", "ZZ", ""}
	case ops.Lang:
		return []string{"en", "zh", "de", "fr", "xx"}
	case ops.CC:
		return ints(1, 39, 44, 800, 999, 54, 7)
	case ops.Type:
		return ints(0, 1, 2, 3, 9, 11)
	case ops.Format, ops.Len:
		return ints(0, 1, 2, 3)
	case ops.Tries:
		return ints(1, 65535)
	case ops.Rules:
		return ints(0, 1, 2, 3, 6)
	case ops.Bool:
		return []string{"0", "1"}
	case ops.Keys:
		return []string{"6502530000", "+390236618300", "0111544332211", "1 650", "00442070313000"}
	case ops.Carrier:
		return []string{"", "15"}
	}
	return ints(0, 1, 3, 9)
}

var corpusMemo sync.Map

func corpusOf(o *ops.Op) []string {
	if v, ok := corpusMemo.Load(o.Name); ok {
		return v.([]string)
	}
	var out []string
	fillKinds(o.Kinds, func(i int, k ops.Kind) []string {
		d := pureDom(k, len(o.Kinds) > 2)
		if len(o.Kinds) > 2 && k == ops.Num {
			d = d[:8]
		}
		return d
	}, func(a []string) bool {
		out = append(out, joinCall(o.Name, a...))
		return true
	})
	corpusMemo.Store(o.Name, out)
	return out
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C17",
		Hang:        10 * time.Minute,
		Rule:        "corpus of public calls: every exported function on the product of argument values chosen to differ in every component; every call twice as the first call of its own process (determinism), every ordered pair A,B of the core calls (2 per function, thorough 4) as the history A,B,A,B of its own process, per function every ordered pair of its calls in one process, and whole-corpus walks (forward, reverse, four strides); every function that takes a number, twice on every combination of set, empty and unset fields of that number; after every call everything mutable it handed out is overwritten and its arguments are compared with copies",
		Assumptions: []string{"GetExampleNumberForType may return a number of any country, as documented: only its existence is compared", "MetadataCollection and ShortNumberMetadataCollection hand out the library's own metadata; changing that is not part of the property"},
		Oracles:     map[string]explore.Oracle{"repeat": repeatOracle, "history": historyOracle, "walk": walkOracle, "args": argsOracle},
		Explore: func(c *explore.Ctx) {
			var all []string
			var core []string
			per := 2
			if c.Thorough {
				per = 4
			}
			for _, o := range ops.All {
				cs := corpusOf(o)
				all = append(all, cs...)
				for i := 0; i < per && i < len(cs); i++ {
					// spread over the product so that all arguments differ
					core = append(core, cs[i*(len(cs)+per-1)/per%len(cs)])
				}
			}
			c.Note("%d calls in the corpus, %d in the core", len(all), len(core))
			c.Par("first calls", len(all), func(k *explore.Worker, u int) { k.Do("repeat", all[u]) })
			var withNum []*ops.Op
			for _, o := range ops.All {
				if slices.Contains(o.Kinds, ops.Num) {
					withNum = append(withNum, o)
				}
			}
			var shaped []string
			shapes(func(n string) { shaped = append(shaped, n) })
			const chunk = 512
			chunks := (len(shaped) + chunk - 1) / chunk
			c.Par("argument shapes", len(withNum)*chunks, func(k *explore.Worker, u int) {
				o := withNum[u/chunks]
				part := shaped[u%chunks*chunk : min(len(shaped), (u%chunks+1)*chunk)]
				for _, n := range part {
					first := slices.Index(o.Kinds, ops.Num)
					ok := fillKinds(o.Kinds, func(i int, kd ops.Kind) []string {
						if i == first {
							return []string{n}
						}
						if kd == ops.Num {
							return []string{n, pureNums[0]}
						}
						d := pureDom(kd, true)
						return d[:min(3, len(d))]
					}, func(a []string) bool { return k.Do("args", append([]string{o.Name}, a...)...) })
					if !ok {
						return
					}
				}
			})
			c.Par("walks", len(ops.All)+3, func(k *explore.Worker, u int) {
				switch u {
				case 0:
					k.Do("walk", "list", "@corpus")
				case 1:
					k.Do("walk", "reverse", "@corpus")
				case 2:
					k.Do("walk", "strides", "@corpus")
				default:
					k.Do("walk", "pairs", "@op "+ops.All[u-3].Name)
				}
			})
			c.Par("pairs", len(core)*len(core), func(k *explore.Worker, u int) {
				a, b := core[u/len(core)], core[u%len(core)]
				k.Do("history", a, b, a, b)
			})
		},
	})
}

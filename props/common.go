// Package props holds the properties: for each, the space of behaviours that is
// enumerated and the oracle that decides every element of it.
package props

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
	"github.com/nyaruka/phonenumbers/v2/verif/npa"
	"google.golang.org/protobuf/proto"
)

// RepoDir is the tree under test.
func RepoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

var (
	worldOnce  sync.Once
	w          *model.World
	lookupOnce sync.Once
)

func initWorld() { worldOnce.Do(func() { w = model.Load(RepoDir()) }) }

func initLookups() {
	initWorld()
	lookupOnce.Do(func() { w.LoadLookups() })
}

// toImpl builds the library's number.
func toImpl(n model.Num) *pn.PhoneNumber {
	p := &pn.PhoneNumber{CountryCode: proto.Int32(int32(n.CC)), NationalNumber: proto.Uint64(n.NN)}
	if n.ILZ {
		p.ItalianLeadingZero = proto.Bool(true)
		if n.NLZ != 1 {
			p.NumberOfLeadingZeros = proto.Int32(int32(n.NLZ))
		}
	}
	if n.Ext != "" {
		p.Extension = proto.String(n.Ext)
	}
	if n.Raw != "" {
		p.RawInput = proto.String(n.Raw)
	}
	if n.Src != 0 {
		p.CountryCodeSource = pn.PhoneNumber_CountryCodeSource(n.Src).Enum()
	}
	if n.Carrier != "" {
		p.PreferredDomesticCarrierCode = proto.String(n.Carrier)
	}
	return p
}

func fromImpl(p *pn.PhoneNumber) model.Num {
	n := model.Num{CC: int(p.GetCountryCode()), NN: p.GetNationalNumber(), Ext: p.GetExtension(),
		ILZ: p.GetItalianLeadingZero(), Raw: p.GetRawInput(), Src: int(p.GetCountryCodeSource()),
		Carrier: p.GetPreferredDomesticCarrierCode()}
	if n.ILZ {
		n.NLZ = int(p.GetNumberOfLeadingZeros())
	}
	return n
}

func canon(n model.Num) model.Num {
	if !n.ILZ {
		n.NLZ = 0
	}
	return n
}

// enc and dec turn numbers into case arguments.
func enc(n model.Num) string {
	z := ""
	if n.ILZ {
		z = strconv.Itoa(n.NLZ)
	}
	return strings.Join([]string{strconv.Itoa(n.CC), strconv.FormatUint(n.NN, 10), z, n.Ext, strconv.Itoa(n.Src), n.Carrier, n.Raw}, "|")
}

func dec(s string) model.Num {
	f := strings.SplitN(s, "|", 7)
	var n model.Num
	n.CC, _ = strconv.Atoi(f[0])
	n.NN, _ = strconv.ParseUint(f[1], 10, 64)
	if f[2] != "" {
		n.ILZ = true
		n.NLZ, _ = strconv.Atoi(f[2])
	}
	n.Ext = f[3]
	n.Src, _ = strconv.Atoi(f[4])
	n.Carrier = f[5]
	n.Raw = f[6]
	return n
}

// numOf is the number with the given national significant number.
func numOf(cc int, nsn string) model.Num {
	n := model.Num{CC: cc}
	z := 0
	for z < len(nsn)-1 && nsn[z] == '0' {
		z++
	}
	if z > 0 {
		n.ILZ, n.NLZ = true, z
	}
	n.NN, _ = strconv.ParseUint(nsn, 10, 64)
	return n
}

func diff(what string, got, want any) error {
	return fmt.Errorf("%s: the library says %#v, the specification %#v", what, got, want)
}

var errorsOf = []struct {
	impl  *error
	model error
	name  string
}{
	{&pn.ErrInvalidCountryCode, model.ErrCC, "ErrInvalidCountryCode"},
	{&pn.ErrNotANumber, model.ErrNaN, "ErrNotANumber"},
	{&pn.ErrTooShortAfterIDD, model.ErrShortIDD, "ErrTooShortAfterIDD"},
	{&pn.ErrTooShortNSN, model.ErrShortNSN, "ErrTooShortNSN"},
	{&pn.ErrNumTooLong, model.ErrTooLong, "ErrNumTooLong"},
}

func errName(err error) string {
	if err == nil {
		return ""
	}
	for _, e := range errorsOf {
		if errors.Is(err, *e.impl) {
			return e.name
		}
	}
	return "other error: " + err.Error()
}

func modelErrName(err error) string {
	if err == nil {
		return ""
	}
	for _, e := range errorsOf {
		if errors.Is(err, e.model) {
			return e.name
		}
	}
	return "?"
}

// ---- spaces shared by several properties ----

type ccSpace struct {
	cc    int
	nsns  []string // transition cover of the plan automaton
	reps  []string // one or two representatives per behaviour class
	reg   []string
	st    int
	tr    int
	short map[string]bool
}

var (
	spacesOnce sync.Once
	spaces     []*ccSpace
	spaceOf    map[int]*ccSpace
)

func plansOf(cc int) []*model.Plan {
	var out []*model.Plan
	for _, r := range w.CCRegions[cc] {
		if r == "001" {
			out = append(out, w.NonGeo[cc])
		} else if p := w.Regions[r]; p != nil {
			out = append(out, p)
		}
	}
	return out
}

func automaton(cc int) *npa.Automaton {
	a := npa.New()
	for _, p := range plansOf(cc) {
		for _, d := range p.Descs() {
			if d.HasPattern && d.Pattern != "NA" {
				a.Add(d.Pattern, false)
			}
		}
		for _, f := range append(append([]*model.Fmt{}, p.Formats...), p.IntlFormats...) {
			a.Add(f.Pattern, false)
			for _, l := range f.Leading {
				a.Add(l, true)
			}
		}
		a.Add(p.LeadingDigits, true)
		a.Add(p.NPParse, true)
	}
	if p := w.Alt[cc]; p != nil {
		for _, f := range p.Formats {
			a.Add(f.Pattern, false)
			for _, l := range f.Leading {
				a.Add(l, true)
			}
		}
	}
	return a
}

// signature describes everything the plans of cc can say about an NSN.
func signature(cc int, nsn string) string {
	var b strings.Builder
	n := numOf(cc, nsn)
	fmt.Fprint(&b, w.RegionOf(n), "/")
	for i, p := range plansOf(cc) {
		if i > 0 && i%4 != 0 && len(plansOf(cc)) > 8 {
			continue
		}
		fmt.Fprint(&b, p.TypeIn(nsn), ",", p.LengthClass(len(nsn), model.Unknown), ";")
	}
	if p := w.Main(cc); p != nil {
		fmt.Fprint(&b, p.FormatIndex(nsn), "/")
		rest, car, ok := p.StripNationalPrefix(nsn)
		fmt.Fprint(&b, len(rest), car != "", ok)
	}
	fmt.Fprint(&b, "z", len(nsn)-len(strings.TrimLeft(nsn, "0")))
	return b.String()
}

func initSpaces() {
	initWorld()
	spacesOnce.Do(func() { spaces, spaceOf = buildSpaces(20000) })
}

// buildSpaces explores the automata of the world in use.
func buildSpaces(limit int) (spaces []*ccSpace, spaceOf map[int]*ccSpace) {
	{
		ccs := w.CCs()
		spaces = make([]*ccSpace, len(ccs))
		spaceOf = map[int]*ccSpace{}
		var wg sync.WaitGroup
		for i, cc := range ccs {
			s := &ccSpace{cc: cc, reg: w.CCRegions[cc]}
			spaces[i] = s
			spaceOf[cc] = s
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := automaton(cc).Explore(18, limit)
				s.st, s.tr = len(r.States), len(r.TransAccess)
				set := map[string]bool{}
				for _, st := range r.States {
					set[st.Access] = true
				}
				for _, t := range r.TransAccess {
					set[t] = true
				}
				for k := range set {
					if k != "" {
						s.nsns = append(s.nsns, k)
					}
				}
				sort.Slice(s.nsns, func(i, j int) bool {
					if len(s.nsns[i]) != len(s.nsns[j]) {
						return len(s.nsns[i]) < len(s.nsns[j])
					}
					return s.nsns[i] < s.nsns[j]
				})
				count := map[string]bool{}
				for _, p := range plansOf(cc) {
					for _, d := range p.Descs() {
						if d.Example != "" {
							sg := signature(cc, d.Example)
							if !count[sg] {
								count[sg] = true
								s.reps = append(s.reps, d.Example)
							}
						}
					}
				}
				for _, k := range s.nsns {
					sg := signature(cc, k)
					if !count[sg] {
						count[sg] = true
						s.reps = append(s.reps, k)
					}
				}
			}()
		}
		wg.Wait()
	}
	return spaces, spaceOf
}

func (s *ccSpace) String() string {
	return fmt.Sprintf("+%d: %d states, %d transitions, %d NSNs, %d classes", s.cc, s.st, s.tr, len(s.nsns), len(s.reps))
}

func countSpaces(c *explore.Ctx) {
	st, tr := 0, 0
	for _, s := range spaces {
		st += s.st
		tr += s.tr
	}
	c.ModelStates(st, tr)
}

// words calls f with every string of at most n symbols over the alphabet.
func words(alpha []string, n int, f func(string) bool) bool {
	var rec func(s string, n int) bool
	rec = func(s string, n int) bool {
		if !f(s) {
			return false
		}
		if n == 0 {
			return true
		}
		for _, a := range alpha {
			if !rec(s+a, n-1) {
				return false
			}
		}
		return true
	}
	return rec("", n)
}

func chars(s string) []string {
	var out []string
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

// slots enumerates the product of alternatives in which at most bound slots
// take something other than their first alternative.
func slots(alts [][]string, bound int, f func(choice []string) bool) bool {
	cur := make([]string, len(alts))
	var rec func(i, left int) bool
	rec = func(i, left int) bool {
		if i == len(alts) {
			return f(cur)
		}
		for k, a := range alts[i] {
			if k > 0 && left == 0 {
				break
			}
			cur[i] = a
			l := left
			if k > 0 {
				l--
			}
			if !rec(i+1, l) {
				return false
			}
		}
		return true
	}
	return rec(0, bound)
}

func b2s(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

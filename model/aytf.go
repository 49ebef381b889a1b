package model

import (
	"regexp"
	"strconv"
	"strings"
	"sync"
)

// Typing is the reference as-you-type machine.
type Typing struct {
	w      *World
	region string
	home   *Plan
	plan   *Plan

	raw       []rune // everything typed
	plain     string // digits (ASCII) and a leading +
	dead      bool   // first character was a full-width plus: echo only
	userFmt   bool   // the user typed punctuation
	able      bool
	complete  bool
	wantCC    bool
	prefix    string // shown before the national number
	spaceNP   bool
	ndd       string // extracted national prefix
	nat       string
	rules     []*Fmt
	tmpl      []rune
	tmplPos   int
	tmplRule  string
	out       string
	rawMark   int
	plainMark int
}

var noPlan = (&Plan{ID: "<none>", IDD: "NA"}).Compile()

// NewTyping starts a session.
func (w *World) NewTyping(region string) *Typing {
	t := &Typing{w: w, region: region, able: true}
	t.home = t.planOf(region)
	t.plan = t.home
	return t
}

func (t *Typing) planOf(region string) *Plan {
	if p := t.w.Region(region); p != nil {
		if m := t.w.Main(p.CC); m != nil && m.ID != "001" {
			return m
		}
	}
	return noPlan
}

var aytfRe sync.Map

func cached(p string) *regexp.Regexp {
	if v, ok := aytfRe.Load(p); ok {
		return v.(*regexp.Regexp)
	}
	r := regexp.MustCompile(p)
	aytfRe.Store(p, r)
	return r
}

// Type enters one character and returns what is shown.
func (t *Typing) Type(r rune, mark bool) string {
	t.raw = append(t.raw, r)
	if mark {
		t.rawMark = len(t.raw)
	}
	t.out = t.step(r, mark)
	return t.out
}

func (t *Typing) step(r rune, mark bool) string {
	echo := func() string { return string(t.raw) }
	d, isDigit := DigitValue(r)
	switch {
	case isDigit:
		t.plain += string(d)
		t.nat += string(d)
		if mark {
			t.plainMark = len(t.plain)
		}
	case r == '+' && len(t.raw) == 1:
		t.plain += "+"
		d = '+'
		if mark {
			t.plainMark = len(t.plain)
		}
	case isPlus(r) && len(t.raw) == 1:
		t.dead, t.able = true, false
	default:
		t.able, t.userFmt = false, true
	}
	if t.dead {
		t.able = false
		return echo()
	}
	if !t.able {
		if t.userFmt {
			return echo()
		}
		if t.takeIDD() {
			if t.takeCC() {
				return t.restart()
			}
		} else if t.longerNDD() {
			t.prefix += " "
			return t.restart()
		}
		return echo()
	}
	if len(t.plain) < 3 {
		return echo()
	}
	if len(t.plain) == 3 {
		if !t.takeIDD() {
			t.ndd = t.takeNDD()
			return t.chooseRule()
		}
		t.wantCC = true
	}
	if t.wantCC {
		if t.takeCC() {
			t.wantCC = false
		}
		return t.prefix + t.nat
	}
	if len(t.rules) == 0 {
		return t.chooseRule()
	}
	part := t.fill(rune(d))
	if s, ok := t.exact(); ok {
		return s
	}
	t.narrow()
	if t.newTemplate() {
		return t.refill()
	}
	if t.able {
		return t.show(part)
	}
	return echo()
}

func (t *Typing) restart() string {
	t.able, t.wantCC = true, false
	t.rules, t.tmplPos, t.tmpl, t.tmplRule = nil, 0, nil, ""
	return t.chooseRule()
}

func (t *Typing) takeIDD() bool {
	re := cached(`^(?:\+|` + t.plan.IDD + `)`)
	m := re.FindStringIndex(t.plain)
	if m == nil {
		return false
	}
	t.complete = true
	t.nat = t.plain[m[1]:]
	t.prefix = t.plain[:m[1]]
	if t.plain[0] != '+' {
		t.prefix += " "
	}
	return true
}

func (t *Typing) takeCC() bool {
	cc, rest := t.w.SplitCC(t.nat)
	if t.nat == "" || cc == 0 {
		return false
	}
	t.nat = rest
	if reg := t.w.RegionForCC(cc); reg == "001" {
		t.plan = t.w.NonGeo[cc]
	} else if reg != t.region {
		t.plan = t.planOf(reg)
	}
	t.prefix += strconv.Itoa(cc) + " "
	t.ndd = ""
	return true
}

func (t *Typing) takeNDD() string {
	n := 0
	if t.plan.CC == 1 && len(t.nat) >= 2 && t.nat[0] == '1' && t.nat[1] != '0' && t.nat[1] != '1' {
		n = 1
		t.prefix += "1 "
		t.complete = true
	} else if t.plan.NPParse != "" {
		if m := t.plan.npRe.FindStringIndex(t.nat); m != nil && m[0] == 0 && m[1] > 0 {
			n = m[1]
			t.complete = true
			t.prefix += t.nat[:n]
		}
	}
	p := t.nat[:n]
	t.nat = t.nat[n:]
	return p
}

func (t *Typing) longerNDD() bool {
	if t.ndd != "" {
		t.nat = t.ndd + t.nat
		t.prefix = t.prefix[:strings.LastIndex(t.prefix, t.ndd)]
	}
	return t.ndd != t.takeNDD()
}

func (t *Typing) chooseRule() string {
	if len(t.nat) < 3 {
		return t.show(t.nat)
	}
	src := t.plan.Formats
	if t.complete && t.ndd == "" && len(t.plan.IntlFormats) > 0 {
		src = t.plan.IntlFormats
	}
	for _, f := range src {
		bare := firstGroupOnly(f.NPRule)
		if t.ndd != "" && bare && !f.NPOptional && f.CCRule == "" {
			continue
		}
		if t.ndd == "" && !t.complete && !bare && !f.NPOptional {
			continue
		}
		if eligibleTemplate(f.Format) {
			t.rules = append(t.rules, f)
		}
	}
	t.narrow()
	if s, ok := t.exact(); ok {
		return s
	}
	if t.newTemplate() {
		return t.refill()
	}
	return string(t.raw)
}

// eligibleTemplate: only punctuation and group references, the first of which
// is $1.
func eligibleTemplate(f string) bool {
	rs := []rune(f)
	refs := 0
	for i := 0; i < len(rs); i++ {
		if rs[i] == '$' && i+1 < len(rs) && rs[i+1] >= '0' && rs[i+1] <= '9' {
			if refs == 0 && rs[i+1] != '1' {
				return false
			}
			refs++
			i++
			continue
		}
		if !isPunct(rs[i]) {
			return false
		}
	}
	return refs > 0
}

func (t *Typing) narrow() {
	var keep []*Fmt
	for _, f := range t.rules {
		if n := len(f.Leading); n > 0 {
			i := min(len(t.nat)-3, n-1)
			if !cached(`^(?:` + f.Leading[i] + `)`).MatchString(t.nat) {
				continue
			}
		}
		keep = append(keep, f)
	}
	t.rules = keep
}

func spaced(f *Fmt) bool { return strings.ContainsAny(f.NPRule, "- ") }

// exact uses a rule that fits the digits typed so far completely, if using it
// neither adds nor loses anything.
func (t *Typing) exact() (string, bool) {
	for _, f := range t.rules {
		if !f.full.MatchString(t.nat) {
			continue
		}
		t.spaceNP = spaced(f)
		s := t.show(replaceAll(f.full, t.nat, f.Format))
		if Diallable(s) == t.plain {
			return s, true
		}
	}
	return "", false
}

func (t *Typing) newTemplate() bool {
	for len(t.rules) > 0 {
		f := t.rules[0]
		if t.tmplRule == f.Pattern {
			return false
		}
		nines := f.re.FindString("999999999999999")
		if len(nines) >= len(t.nat) {
			s := replaceAll(f.re, nines, f.Format)
			s = strings.ReplaceAll(s, "9", "\u2008")
			if s != "" {
				t.tmpl = []rune(s)
				t.tmplRule = f.Pattern
				t.spaceNP = spaced(f)
				t.tmplPos = 0
				return true
			}
		}
		t.tmpl = nil
		t.rules = t.rules[1:]
	}
	t.able = false
	return false
}

func (t *Typing) refill() string {
	s := ""
	for _, c := range t.nat {
		s = t.fill(c)
	}
	if !t.able {
		return string(t.raw)
	}
	return t.show(s)
}

func (t *Typing) fill(c rune) string {
	for i := t.tmplPos; i < len(t.tmpl); i++ {
		if t.tmpl[i] == '\u2008' {
			t.tmpl[i] = c
			t.tmplPos = i
			return string(t.tmpl[:i+1])
		}
	}
	if len(t.rules) == 1 {
		t.able = false
	}
	t.tmplRule = ""
	return string(t.raw)
}

func (t *Typing) show(nat string) string {
	if t.spaceNP && t.prefix != "" && !strings.HasSuffix(t.prefix, " ") {
		return t.prefix + " " + nat
	}
	return t.prefix + nat
}

// Position is where the marked character is in what is shown.
func (t *Typing) Position() int {
	if !t.able {
		return t.rawMark
	}
	out := []rune(t.out)
	i, o := 0, 0
	for i < t.plainMark && o < len(out) {
		r := out[o]
		if d, ok := DigitValue(r); ok {
			r = rune(d)
		}
		if rune(t.plain[i]) == r {
			i++
		}
		o++
	}
	return o
}

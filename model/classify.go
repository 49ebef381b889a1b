package model

import (
	"strconv"
	"strings"
)

// Number types, in the order of the public enumeration.
const (
	FixedLine = iota
	Mobile
	FixedOrMobile
	TollFree
	Premium
	SharedCost
	Voip
	Personal
	Pager
	UAN
	Voicemail
	Unknown
)

// Validation results, in the order of the public enumeration.
const (
	Possible = iota
	LocalOnly
	InvalidCC
	TooShort
	InvalidLength
	TooLong
)

// Match results, in the order of the public enumeration.
const (
	NotANumber = iota
	NoMatch
	ShortNSN
	NSNMatch
	ExactMatch
)

// NSN is the national significant number.
func (n Num) NSN() string {
	z := 0
	if n.ILZ && n.NLZ > 0 {
		z = min(n.NLZ, MaxNSN)
	}
	return strings.Repeat("0", z) + strconv.FormatUint(n.NN, 10)
}

// TypeDesc is the description consulted for a type.
func (p *Plan) TypeDesc(t int) *Desc {
	switch t {
	case Premium:
		return &p.Premium
	case TollFree:
		return &p.TollFree
	case Mobile:
		return &p.Mobile
	case FixedLine, FixedOrMobile:
		return &p.Fixed
	case SharedCost:
		return &p.Shared
	case Voip:
		return &p.Voip
	case Personal:
		return &p.Personal
	case Pager:
		return &p.Pager
	case UAN:
		return &p.UAN
	case Voicemail:
		return &p.Voicemail
	}
	return &p.General
}

func has(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// Matches: the number fits the description (possible length, and pattern).
func (d *Desc) Matches(nsn string) bool {
	if len(d.Len) > 0 && !has(d.Len, len(nsn)) {
		return false
	}
	return d.matchesPattern(nsn)
}

func (d *Desc) supportsLengths() bool { return !(len(d.Len) == 1 && d.Len[0] == -1) }

// HasData: the plan knows numbers of this kind.
func (d *Desc) HasData() bool {
	return d.Present && (d.Example != "" || d.supportsLengths() || d.HasPattern)
}

// lengthClass classifies a length for a type.
func (p *Plan) lengthClass(n int, t int) int {
	lens := func(d *Desc) []int {
		if len(d.Len) == 0 {
			return p.General.Len
		}
		return d.Len
	}
	d := p.TypeDesc(t)
	ok, local := lens(d), d.Local
	if t == FixedOrMobile {
		if !p.Fixed.supportsLengths() {
			return p.lengthClass(n, Mobile)
		}
		if p.Mobile.supportsLengths() {
			ok = append(append([]int{}, ok...), lens(&p.Mobile)...)
			local = append(append([]int{}, local...), p.Mobile.Local...)
		}
	}
	if len(ok) == 0 {
		return InvalidLength // no synthetic plan is built this way
	}
	lo, hi := ok[0], ok[0]
	for _, x := range ok {
		lo, hi = min(lo, x), max(hi, x)
	}
	switch {
	case lo == -1:
		return InvalidLength
	case has(local, n):
		return LocalOnly
	case has(ok, n):
		return Possible
	case n < lo:
		return TooShort
	case n > hi:
		return TooLong
	}
	return InvalidLength
}

// LengthClass classifies a national number length for a type.
func (p *Plan) LengthClass(n, t int) int { return p.lengthClass(n, t) }

// PossibleReason is the length verdict of a number for a type (Unknown: any).
func (w *World) PossibleReason(n Num, t int) int {
	p := w.Main(n.CC)
	if p == nil {
		return InvalidCC
	}
	return p.lengthClass(len(n.NSN()), t)
}

// typeIn classifies a national number within one plan.
func (p *Plan) typeIn(nsn string) int {
	if !p.General.Matches(nsn) {
		return Unknown
	}
	for _, x := range []struct {
		d *Desc
		t int
	}{{&p.Premium, Premium}, {&p.TollFree, TollFree}, {&p.Shared, SharedCost}, {&p.Voip, Voip},
		{&p.Personal, Personal}, {&p.Pager, Pager}, {&p.UAN, UAN}, {&p.Voicemail, Voicemail}} {
		if x.d.Matches(nsn) {
			return x.t
		}
	}
	if p.Fixed.Matches(nsn) {
		if p.SameMobileFixed || p.Mobile.Matches(nsn) {
			return FixedOrMobile
		}
		return FixedLine
	}
	if !p.SameMobileFixed && p.Mobile.Matches(nsn) {
		return Mobile
	}
	return Unknown
}

// TypeIn classifies a national number within one plan.
func (p *Plan) TypeIn(nsn string) int { return p.typeIn(nsn) }

// RegionOf is the region a number belongs to ("" if none).
func (w *World) RegionOf(n Num) string {
	rs := w.CCRegions[n.CC]
	switch len(rs) {
	case 0:
		return ""
	case 1:
		return rs[0]
	}
	nsn := n.NSN()
	for _, r := range rs {
		p := w.region(r)
		if p == nil {
			continue
		}
		if p.leadRe != nil {
			if p.leadRe.MatchString(nsn) {
				return r
			}
		} else if p.typeIn(nsn) != Unknown {
			return r
		}
	}
	return ""
}

// PlanFor is the plan of a region, or of the number's calling code for "001".
func (w *World) PlanFor(cc int, region string) *Plan {
	if region == "001" {
		if _, ok := w.CCRegions[cc]; !ok {
			return nil
		}
		return w.NonGeo[cc]
	}
	return w.region(region)
}

// Type of a number.
func (w *World) Type(n Num) int {
	p := w.PlanFor(n.CC, w.RegionOf(n))
	if p == nil {
		return Unknown
	}
	return p.typeIn(n.NSN())
}

// ValidFor: the number is valid for the region.
func (w *World) ValidFor(n Num, region string) bool {
	p := w.PlanFor(n.CC, region)
	if p == nil || (region != "001" && p.CC != n.CC) {
		return false
	}
	return p.typeIn(n.NSN()) != Unknown
}

// Valid number.
func (w *World) Valid(n Num) bool { return w.ValidFor(n, w.RegionOf(n)) }

// Geographical: the type ties a number of this calling code to a place.
func Geographical(t, cc int) bool {
	switch t {
	case FixedLine, FixedOrMobile:
		return true
	case Mobile:
		return cc == 52 || cc == 54 || cc == 55 || cc == 62 || cc == 86
	}
	return false
}

// InternationallyDiallable number.
func (w *World) InternationallyDiallable(n Num) bool {
	p := w.region(w.RegionOf(n))
	return p == nil || !p.NoIntl.Matches(n.NSN())
}

// Truncate shortens a too-long number to its longest valid prefix.
func (w *World) Truncate(n Num) (Num, bool) {
	if w.Valid(n) {
		return n, true
	}
	c := n
	for {
		c.NN /= 10
		if c.NN == 0 || w.PossibleReason(c, Unknown) == TooShort {
			return n, false
		}
		if w.Valid(c) {
			n.NN = c.NN
			return n, true
		}
	}
}

// MobileToken of a calling code.
func MobileToken(cc int) string {
	if cc == 54 {
		return "9"
	}
	return ""
}

// NDCLength is the length of the national destination code.
func (w *World) NDCLength(n Num) int {
	n.Ext = ""
	s := w.Format(n, International)
	g := digitRuns(s)
	// digitRuns mirrors splitting at non-digits: "", cc, ndc, ...
	if len(g) <= 3 {
		return 0
	}
	if w.Type(n) == Mobile && MobileToken(n.CC) != "" {
		return len(g[2]) + len(g[3])
	}
	return len(g[2])
}

// digitRuns splits s at runs of non-digits (ASCII), keeping empty edges.
func digitRuns(s string) []string {
	var out []string
	cur := ""
	in := false
	for _, r := range s {
		if r >= '0' && r <= '9' {
			cur += string(r)
			in = false
			continue
		}
		if !in {
			out = append(out, cur)
			cur = ""
			in = true
		}
	}
	return append(out, cur)
}

// AreaCodeLength is the length of the geographical area code.
func (w *World) AreaCodeLength(n Num) int {
	p := w.region(w.RegionOf(n))
	if p == nil {
		return 0
	}
	if p.NP == "" && !n.ILZ && n.CC != 52 {
		return 0
	}
	t := w.Type(n)
	if t == Mobile && n.CC == 86 {
		return 0
	}
	if !Geographical(t, n.CC) {
		return 0
	}
	return w.NDCLength(n)
}

// Match compares two numbers.
func Match(a, b Num) int {
	if a.Ext != "" && b.Ext != "" && a.Ext != b.Ext {
		return NoMatch
	}
	core := func(n Num) Num {
		c := Num{CC: n.CC, NN: n.NN, Ext: n.Ext, ILZ: n.ILZ}
		if n.ILZ {
			c.NLZ = n.NLZ
		}
		return c
	}
	suffix := func() bool {
		x, y := strconv.FormatUint(a.NN, 10), strconv.FormatUint(b.NN, 10)
		return strings.HasSuffix(x, y) || strings.HasSuffix(y, x)
	}
	a, b = core(a), core(b)
	if a.CC != 0 && b.CC != 0 {
		switch {
		case a == b:
			return ExactMatch
		case a.CC == b.CC && suffix():
			return ShortNSN
		}
		return NoMatch
	}
	a.CC = b.CC
	switch {
	case a == b:
		return NSNMatch
	case suffix():
		return ShortNSN
	}
	return NoMatch
}

// MatchOne compares a number and a string.
func (w *World) MatchOne(a Num, s string) int {
	b, err := w.Parse(s, "ZZ", false)
	if err == nil {
		return Match(a, b)
	}
	if err != ErrCC {
		return NotANumber
	}
	if r := w.RegionForCC(a.CC); r != "ZZ" {
		b, err := w.Parse(s, r, false)
		if err != nil {
			return NotANumber
		}
		if m := Match(a, b); m != ExactMatch {
			return m
		}
		return NSNMatch
	}
	b, err = w.parse(s, "", false, false)
	if err != nil {
		return NotANumber
	}
	return Match(a, b)
}

// MatchStrings compares two strings.
func (w *World) MatchStrings(s, t string) int {
	a, err := w.Parse(s, "ZZ", false)
	if err == nil {
		return w.MatchOne(a, t)
	}
	if err != ErrCC {
		return NotANumber
	}
	b, err := w.Parse(t, "ZZ", false)
	if err == nil {
		return w.MatchOne(b, s)
	}
	if err != ErrCC {
		return NotANumber
	}
	a, err1 := w.parse(s, "", false, false)
	b, err2 := w.parse(t, "", false, false)
	if err1 != nil || err2 != nil {
		return NotANumber
	}
	return Match(a, b)
}

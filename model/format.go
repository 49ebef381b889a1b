package model

import (
	"regexp"
	"strconv"
	"strings"
)

// Formats, in the order of the public enumeration.
const (
	E164 = iota
	International
	National
	RFC3966
)

var uniqueIDD = regexp.MustCompile("^[0-9]+(?:[~\u2053\u223C\uFF5E][0-9]+)?$")

func choose(fs []*Fmt, nsn string) *Fmt {
	for _, f := range fs {
		if f.lead != nil && !f.lead.MatchString(nsn) {
			continue
		}
		if f.full.MatchString(nsn) {
			return f
		}
	}
	return nil
}

// firstRef finds the first $d in a template.
func firstRef(t string) int {
	for i := 0; i+1 < len(t); i++ {
		if t[i] == '$' && t[i+1] >= '0' && t[i+1] <= '9' {
			return i
		}
	}
	return -1
}

// withRule wraps the first group of a template by a rule such as "0$1".
func withRule(t, rule string) string {
	i := firstRef(t)
	if i < 0 {
		return t
	}
	return t[:i] + strings.ReplaceAll(rule, "$1", t[i:i+2]) + t[i+2:]
}

func (f *Fmt) apply(nsn string, format int, carrier string) string {
	t := f.Format
	if format == National {
		if carrier != "" && f.CCRule != "" {
			t = withRule(t, strings.Replace(f.CCRule, "$CC", carrier, 1))
		} else if f.NPRule != "" {
			t = withRule(t, f.NPRule)
		}
	}
	s := replaceAll(f.re, nsn, t)
	if format == RFC3966 {
		s = strings.Join(strings.FieldsFunc(s, isPunct), "-")
	}
	return s
}

func (p *Plan) formatNSN(nsn string, format int, carrier string) string {
	fs := p.Formats
	if format != National && len(p.IntlFormats) > 0 {
		fs = p.IntlFormats
	}
	f := choose(fs, nsn)
	if f == nil {
		return nsn
	}
	return f.apply(nsn, format, carrier)
}

func (p *Plan) ext(n Num, format int) string {
	switch {
	case n.Ext == "":
		return ""
	case format == RFC3966:
		return ";ext=" + n.Ext
	case p.ExtPrefix != "":
		return p.ExtPrefix + n.Ext
	}
	return " ext. " + n.Ext
}

func prefixed(cc int, format int, s string) string {
	c := strconv.Itoa(cc)
	switch format {
	case E164:
		return "+" + c + s
	case International:
		return "+" + c + " " + s
	case RFC3966:
		return "tel:+" + c + "-" + s
	}
	return s
}

// Format formats a number.
func (w *World) Format(n Num, format int) string {
	if n.NN == 0 && n.Raw != "" {
		return n.Raw
	}
	nsn := n.NSN()
	if format == E164 {
		return prefixed(n.CC, E164, nsn)
	}
	p := w.Main(n.CC)
	if p == nil {
		return nsn
	}
	return prefixed(n.CC, format, p.formatNSN(nsn, format, "")+p.ext(n, format))
}

// FormatByPattern formats with the caller's own rules.
func (w *World) FormatByPattern(n Num, format int, rules []*Fmt) string {
	nsn := n.NSN()
	p := w.Main(n.CC)
	if p == nil {
		return nsn
	}
	s := nsn
	if f := choose(rules, nsn); f != nil {
		c := *f
		if c.NPRule != "" {
			if p.NP == "" {
				c.NPRule = ""
			} else {
				c.NPRule = strings.ReplaceAll(strings.ReplaceAll(c.NPRule, "$NP", p.NP), "$FG", "$1")
			}
		}
		s = c.apply(nsn, format, "")
	}
	return prefixed(n.CC, format, s+p.ext(n, format))
}

// FormatWithCarrier formats nationally with a carrier code.
func (w *World) FormatWithCarrier(n Num, carrier string) string {
	nsn := n.NSN()
	p := w.Main(n.CC)
	if p == nil {
		return nsn
	}
	return p.formatNSN(nsn, National, carrier) + p.ext(n, National)
}

// FormatWithPreferredCarrier uses the number's own carrier code if it has one.
func (w *World) FormatWithPreferredCarrier(n Num, fallback string) string {
	if n.Carrier != "" {
		return w.FormatWithCarrier(n, n.Carrier)
	}
	return w.FormatWithCarrier(n, fallback)
}

// MobileDialing formats a number for dialling from a mobile phone in region.
func (w *World) MobileDialing(n Num, region string, withFormatting bool) string {
	if w.Main(n.CC) == nil {
		return n.Raw
	}
	n.Ext = ""
	out := ""
	home := w.RegionForCC(n.CC)
	t := w.Type(n)
	fm := t == FixedLine || t == Mobile || t == FixedOrMobile
	switch {
	case region == home && home == "BR" && fm:
		if n.Carrier != "" {
			out = w.FormatWithCarrier(n, n.Carrier)
		}
	case region == home && n.CC == 1:
		if w.InternationallyDiallable(n) && w.region(region).lengthClass(len(n.NSN()), Unknown) != TooShort {
			out = w.Format(n, International)
		} else {
			out = w.Format(n, National)
		}
	case region == home:
		if (home == "001" || (home == "MX" || home == "CL" || home == "UZ") && fm) && w.InternationallyDiallable(n) {
			out = w.Format(n, International)
		} else {
			out = w.Format(n, National)
		}
	case t != Unknown && w.InternationallyDiallable(n):
		if withFormatting {
			return w.Format(n, International)
		}
		return w.Format(n, E164)
	}
	if withFormatting {
		return out
	}
	return Diallable(out)
}

// IsNANPA region.
func (w *World) IsNANPA(region string) bool {
	for _, r := range w.CCRegions[1] {
		if r == region {
			return true
		}
	}
	return false
}

// OutOfCountry formats for dialling from another region.
func (w *World) OutOfCountry(n Num, from string) string {
	fp := w.region(from)
	if fp == nil {
		return w.Format(n, International)
	}
	p := w.Main(n.CC)
	if p == nil {
		return n.NSN()
	}
	if n.CC == 1 {
		if w.IsNANPA(from) {
			return "1 " + w.Format(n, National)
		}
	} else if n.CC == fp.CC {
		return w.Format(n, National)
	}
	s := p.formatNSN(n.NSN(), International, "") + p.ext(n, International)
	idd := fp.PrefIDD
	if idd == "" && uniqueIDD.MatchString(fp.IDD) {
		idd = fp.IDD
	}
	if idd != "" {
		return idd + " " + strconv.Itoa(n.CC) + " " + s
	}
	return prefixed(n.CC, International, s)
}

// NDD is the national prefix of a region.
func (w *World) NDD(region string, strip bool) string {
	p := w.region(region)
	if p == nil {
		return ""
	}
	if strip {
		return strings.ReplaceAll(p.NP, "~", "")
	}
	return p.NP
}

// Original formats a number the way it was written.
func (w *World) Original(n Num, from string) string {
	p := w.Main(n.CC)
	if n.Raw != "" && (p == nil || choose(p.Formats, n.NSN()) == nil) {
		return n.Raw
	}
	var s string
	switch n.Src {
	case SrcUnspecified:
		return w.Format(n, National)
	case SrcPlus:
		s = w.Format(n, International)
	case SrcIDD:
		s = w.OutOfCountry(n, from)
	case SrcNoPlus:
		s = w.Format(n, International)[1:]
	default:
		s = w.originalNational(n)
	}
	if s != "" && n.Raw != "" && Diallable(s) != Diallable(n.Raw) {
		return n.Raw
	}
	return s
}

func (w *World) originalNational(n Num) string {
	region := w.RegionForCC(n.CC)
	nat := w.Format(n, National)
	ndd := w.NDD(region, true)
	if ndd == "" {
		return nat
	}
	if d := Digits(n.Raw); strings.HasPrefix(d, ndd) {
		if m, err := w.Parse(d[len(ndd):], region, false); err == nil && w.Valid(m) {
			return nat
		}
	}
	f := choose(w.region(region).Formats, n.NSN())
	if f == nil {
		return nat
	}
	i := strings.Index(f.NPRule, "$1")
	if i <= 0 || Digits(f.NPRule[:i]) == "" {
		return nat
	}
	c := *f
	c.NPRule = ""
	return w.FormatByPattern(n, National, []*Fmt{&c})
}

// KeepingAlpha formats for dialling from another region, keeping letters.
func (w *World) KeepingAlpha(n Num, from string) string {
	if n.Raw == "" {
		return w.OutOfCountry(n, from)
	}
	p := w.Main(n.CC)
	if p == nil {
		return n.Raw
	}
	var b strings.Builder
	for _, r := range n.Raw {
		if c, ok := groupingChar(r); ok {
			b.WriteRune(c)
		}
	}
	raw := b.String()
	nsn := n.NSN()
	if len(nsn) > 3 {
		if i := strings.Index(raw, nsn[:3]); i >= 0 {
			raw = raw[i:]
		}
	}
	fp := w.region(from)
	if n.CC == 1 {
		if w.IsNANPA(from) {
			return "1 " + raw
		}
	} else if fp != nil && fp.CC == n.CC {
		f := choose(fp.Formats, nsn)
		if f == nil {
			return raw
		}
		c := *f
		c.Pattern, c.Format, c.Leading, c.lead = `(\d+)(.*)`, "$1$2", nil, nil
		c.Compile()
		return c.apply(raw, National, "")
	}
	idd := ""
	if fp != nil {
		idd = fp.IDD
		if !uniqueIDD.MatchString(idd) {
			idd = fp.PrefIDD
		}
	}
	raw, _ = SplitExt(raw)
	s := raw + p.ext(n, International)
	if idd != "" {
		return idd + " " + strconv.Itoa(n.CC) + " " + s
	}
	return prefixed(n.CC, International, s)
}

// FormatIndex tells which national formatting rule applies (-1: none).
func (p *Plan) FormatIndex(nsn string) int {
	f := choose(p.Formats, nsn)
	for i, x := range p.Formats {
		if x == f {
			return i
		}
	}
	return -1
}

// Groups splits an NSN into the digit groups of the rule, if the rule is
// applicable.
func (f *Fmt) Groups(nsn string) ([]string, bool) {
	if f.first != nil && !f.first.MatchString(nsn) {
		return nil, false
	}
	if !f.full.MatchString(nsn) {
		return nil, false
	}
	return strings.Split(f.apply(nsn, RFC3966, ""), "-"), true
}

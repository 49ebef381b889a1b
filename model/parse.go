package model

import (
	"errors"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// Country-code sources.
const (
	SrcUnspecified = 0
	SrcPlus        = 1
	SrcIDD         = 5
	SrcNoPlus      = 10
	SrcDefault     = 20
)

// Num is a phone number.
type Num struct {
	CC      int
	NN      uint64
	Ext     string
	ILZ     bool
	NLZ     int // number of leading zeros, only meaningful with ILZ; default 1
	Raw     string
	Src     int
	Carrier string
}

// Errors of parsing.
var (
	ErrCC        = errors.New("invalid country code")
	ErrNaN       = errors.New("not a number")
	ErrShortIDD  = errors.New("too short after IDD")
	ErrShortNSN  = errors.New("too short NSN")
	ErrTooLong   = errors.New("too long")
	MaxNSN       = 17
	MaxInput     = 250
	extLabelsRe  = `(?:e?xt(?:ensi(?:o\x{301}?|\x{F3}))?n?|\x{FF45}?\x{FF58}\x{FF54}\x{FF4E}?|\x{434}\x{43E}\x{431}|anexo)`
	extAmbigRe   = `(?:[x\x{FF58}#\x{FF03}~\x{FF5E}]|int|\x{FF49}\x{FF4E}\x{FF54})`
	extAfterRe   = `[:\.\x{FF0E}]?[ \x{A0}\t,-]*`
	extSepRe     = `[ \x{A0}\t,]*`
	extMatching  = `;ext=(\p{Nd}{1,20})|` + extSepRe + extLabelsRe + extAfterRe + `(\p{Nd}{1,20})#?|` + extSepRe + extAmbigRe + extAfterRe + `(\p{Nd}{1,9})#?|[- ]+(\p{Nd}{1,6})#`
	extParsing   = extMatching + `|[ \x{A0}\t]*(?:,{2}|;)` + extAfterRe + `(\p{Nd}{1,15})#?|[ \x{A0}\t]*,+` + extAfterRe + `(\p{Nd}{1,9})#?`
	punctClass   = `\-x\x{2010}-\x{2015}\x{2212}\x{30FC}\x{FF0D}-\x{FF0F} \x{A0}\x{AD}\x{200B}\x{2060}\x{3000}\(\)\x{FF08}\x{FF09}\x{FF3B}\x{FF3D}\.\[\]/~\x{2053}\x{223C}\x{FF5E}`
	viableBody   = `\p{Nd}{2}|[+\x{FF0B}]*(?:[` + punctClass + `*]*\p{Nd}){3,}[` + punctClass + `*A-Za-z\p{Nd}]*`
	viableRe     = regexp.MustCompile(`(?i)^(?:` + viableBody + `(?:` + extParsing + `)?)$`)
	extTailRe    = regexp.MustCompile(`(?i)(?:` + extParsing + `)$`)
	ctxGlobalRe  = regexp.MustCompile(`^\+[\p{Nd}\-.()]*\p{Nd}[\p{Nd}\-.()]*$`)
	ctxDomainRe  = regexp.MustCompile(`^(?:[A-Za-z\p{Nd}]+(?:-*[A-Za-z\p{Nd}])*\.)*[A-Za-z]+(?:-*[A-Za-z\p{Nd}])*\.?$`)
	secondNumRe  = regexp.MustCompile(`[\\/] *x`)
	minNSN       = 2
	maxCCDigits  = 3
	errNotViable = ErrNaN
)

// PossibleNumber trims a string to what could be a phone number.
func PossibleNumber(s string) string {
	start := -1
	for i, r := range s {
		if isPlus(r) || unicode.Is(unicode.Nd, r) {
			start = i
			break
		}
	}
	if start < 0 {
		return ""
	}
	s = s[start:]
	s = trimEnd(s)
	if loc := secondNumRe.FindStringIndex(s); loc != nil {
		s = s[:loc[0]]
	}
	return s
}

// trimEnd removes trailing characters that are not letters, numbers or '#'.
func trimEnd(s string) string {
	return strings.TrimRightFunc(s, func(r rune) bool {
		return !(unicode.Is(unicode.N, r) || unicode.Is(unicode.L, r) || r == '#')
	})
}

// Viable reports whether s looks like a phone number at all.
func Viable(s string) bool { return len(s) >= minNSN && viableRe.MatchString(s) }

// SplitExt separates a trailing extension.
func SplitExt(s string) (string, string) {
	m := extTailRe.FindStringSubmatchIndex(s)
	if m == nil || !Viable(s[:m[0]]) {
		return s, ""
	}
	for g := 1; g < len(m)/2; g++ {
		if m[2*g] >= 0 && m[2*g+1] > m[2*g] {
			return s[:m[0]], s[m[2*g]:m[2*g+1]]
		}
	}
	return s, ""
}

// IsAlphaNumber: a viable number whose body has three or more letters.
func IsAlphaNumber(s string) bool {
	if !Viable(s) {
		return false
	}
	b, _ := SplitExt(s)
	return isVanity(b)
}

// Parse parses s as dialled from region.
func (w *World) Parse(s, region string, keepRaw bool) (Num, error) {
	return w.parse(s, region, keepRaw, true)
}

func (w *World) parse(s, region string, keepRaw, checkRegion bool) (Num, error) {
	var n Num
	n.NLZ = 1
	if s == "" {
		return n, ErrNaN
	}
	if len(s) > MaxInput {
		return n, ErrTooLong
	}
	body, err := bodyOf(s)
	if err != nil {
		return n, err
	}
	if !Viable(body) {
		return n, errNotViable
	}
	plan := w.region(region)
	hasPlus := false
	for _, r := range body {
		hasPlus = isPlus(r)
		break
	}
	if checkRegion && plan == nil && !hasPlus {
		return n, ErrCC
	}
	if keepRaw {
		n.Raw = s
	}
	body, n.Ext = SplitExt(body)

	cc, nsn, src, err := w.countryCode(body, plan)
	if err == ErrCC && hasPlus {
		cc, nsn, src, err = w.countryCode(strings.TrimLeftFunc(body, isPlus), plan)
		if err == nil && cc == 0 {
			err = ErrCC
		}
	}
	if err != nil {
		return n, err
	}
	if keepRaw {
		n.Src = src
	}
	if cc != 0 {
		n.CC = cc
		if w.RegionForCC(cc) != region {
			plan = w.Main(cc)
		}
	} else {
		nsn = normalize(body)
		if region != "" && plan != nil {
			n.CC = plan.CC
		} else if region == "" && keepRaw {
			n.Src = SrcUnspecified
		}
	}
	if len(nsn) < minNSN {
		return n, ErrShortNSN
	}
	if plan != nil {
		stripped, carrier, _ := plan.StripNationalPrefix(nsn)
		switch plan.lengthClass(len(stripped), Unknown) {
		case TooShort, LocalOnly, InvalidLength:
		default:
			nsn = stripped
			if keepRaw {
				n.Carrier = carrier
			}
		}
	}
	if len(nsn) < minNSN {
		return n, ErrShortNSN
	}
	if len(nsn) > MaxNSN {
		return n, ErrTooLong
	}
	z := 0
	for z < len(nsn)-1 && nsn[z] == '0' {
		z++
	}
	if z > 0 {
		n.ILZ, n.NLZ = true, z
	}
	n.NN, _ = strconv.ParseUint(nsn, 10, 64)
	return n, nil
}

func bodyOf(s string) (string, error) {
	const pc = ";phone-context="
	i := strings.Index(s, pc)
	body := ""
	if i >= 0 {
		ctx := s[i+len(pc):]
		if j := strings.IndexByte(ctx, ';'); j >= 0 {
			ctx = ctx[:j]
		}
		if !(ctxGlobalRe.MatchString(ctx) || ctxDomainRe.MatchString(ctx)) {
			return "", ErrNaN
		}
		if i > 0 {
			if ctx[0] == '+' {
				body = ctx
			}
			num := s[:i]
			if t := strings.Index(num, "tel:"); t >= 0 {
				num = num[t+4:]
			} else if t := strings.Index(s, "tel:"); t >= 0 && t < i {
				num = "" // cannot happen: "tel:" cannot straddle ";phone-context="
			}
			body += num
		} else {
			body = PossibleNumber(s)
		}
	} else {
		body = PossibleNumber(s)
	}
	if j := strings.Index(body, ";isub="); j > 0 {
		body = body[:j]
	}
	return body, nil
}

// countryCode extracts the calling code from body: the code (0 if none is
// written), the remaining national digits, and how it was written.
func (w *World) countryCode(body string, plan *Plan) (int, string, int, error) {
	if body == "" {
		return 0, "", SrcUnspecified, nil
	}
	var full string
	src := SrcDefault
	if rest := strings.TrimLeftFunc(body, isPlus); len(rest) < len(body) {
		full, src = normalize(rest), SrcPlus
	} else {
		full = normalize(body)
		if plan != nil {
			if rest, ok := plan.stripIDD(full); ok {
				full, src = rest, SrcIDD
			}
		}
	}
	if src != SrcDefault {
		if len(full) <= minNSN {
			return 0, "", src, ErrShortIDD
		}
		if cc, rest := w.SplitCC(full); cc != 0 {
			return cc, rest, src, nil
		}
		return 0, "", src, ErrCC
	}
	if plan != nil {
		ccs := strconv.Itoa(plan.CC)
		if strings.HasPrefix(full, ccs) {
			rest, _, _ := plan.StripNationalPrefix(full[len(ccs):])
			fullOK, restOK := plan.General.matchesPattern(full), plan.General.matchesPattern(rest)
			if (!fullOK && restOK) || plan.lengthClass(len(full), Unknown) == TooLong {
				return plan.CC, rest, SrcNoPlus, nil
			}
		}
	}
	return 0, "", src, nil
}

func (p *Plan) stripIDD(s string) (string, bool) {
	// A region without an international prefix has an empty pattern, which
	// matches the empty prefix.
	end := 0
	if p.iddRe != nil {
		loc := p.iddRe.FindStringIndex(s)
		if loc == nil {
			return s, false
		}
		end = loc[1]
	}
	rest := s[end:]
	// country calling codes cannot begin with 0
	if strings.HasPrefix(rest, "0") {
		return s, false
	}
	return rest, true
}

// SplitCC splits a known calling code off the front of a digit string.
func (w *World) SplitCC(s string) (int, string) {
	if s == "" || s[0] == '0' {
		return 0, ""
	}
	for l := 1; l <= maxCCDigits && l <= len(s); l++ {
		c, _ := strconv.Atoi(s[:l])
		if len(w.CCRegions[c]) > 0 {
			return c, s[l:]
		}
		if _, ok := w.CCRegions[c]; ok {
			return c, s[l:]
		}
	}
	return 0, ""
}

// matchesPattern matches the national pattern alone. An absent pattern matches
// only the empty number.
func (d *Desc) matchesPattern(s string) bool {
	if d.full == nil {
		return s == ""
	}
	return d.full.MatchString(s)
}

// StripNationalPrefix removes a national prefix (and carrier code) from s.
func (p *Plan) StripNationalPrefix(s string) (rest, carrier string, stripped bool) {
	if s == "" || p.npRe == nil {
		return s, "", false
	}
	m := p.npRe.FindStringSubmatchIndex(s)
	if m == nil {
		return s, "", false
	}
	viable := p.General.matchesPattern(s)
	groups := len(m)/2 - 1
	lastSet := m[2*groups] >= 0
	g1 := ""
	if groups >= 1 && m[2] >= 0 {
		g1 = s[m[2]:m[3]]
	}
	if p.Transform == "" || groups == 0 || !lastSet {
		// When there are no groups the "last group" is the whole match.
		if p.Transform != "" && groups == 0 {
			// a transform rule without capturing groups replaces the prefix
			out := expand(p.Transform, s, m) + s[m[1]:]
			if viable && !p.General.matchesPattern(out) {
				return s, "", false
			}
			return out, "", true
		}
		rest = s[m[1]:]
		if viable && !p.General.matchesPattern(rest) {
			return s, "", false
		}
		return rest, g1, true
	}
	out := expand(p.Transform, s, m) + s[m[1]:]
	if viable && !p.General.matchesPattern(out) {
		return s, "", false
	}
	if groups > 1 {
		carrier = g1
	}
	return out, carrier, true
}

// expand substitutes $1..$9 in a template.
func expand(t, src string, m []int) string {
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		if t[i] == '$' && i+1 < len(t) && t[i+1] >= '0' && t[i+1] <= '9' {
			g := int(t[i+1] - '0')
			if 2*g+1 < len(m) && m[2*g] >= 0 {
				b.WriteString(src[m[2*g]:m[2*g+1]])
			}
			i++
			continue
		}
		b.WriteByte(t[i])
	}
	return b.String()
}

// replaceAll applies a template to every match of re in s.
func replaceAll(re *regexp.Regexp, s, t string) string {
	var b strings.Builder
	last := 0
	for _, m := range re.FindAllStringSubmatchIndex(s, -1) {
		b.WriteString(s[last:m[0]])
		b.WriteString(expand(t, s, m))
		last = m[1]
	}
	b.WriteString(s[last:])
	return b.String()
}

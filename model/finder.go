package model

import (
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Leniencies, in the order of the public enumeration.
const (
	LenPossible = iota
	LenValid
	LenStrict
	LenExact
)

// Found is one match of the finder.
type Found struct {
	Start int
	Raw   string
	Num   Num
}

var (
	openP      = `\(\[\x{FF08}\x{FF3B}`
	closeP     = `\)\]\x{FF09}\x{FF3D}`
	noP        = `[^` + openP + closeP + `]`
	bracketsRe = regexp.MustCompile(`^(?:[` + openP + `])?(?:` + noP + `+[` + closeP + `])?` + noP + `+(?:[` + openP + `]` + noP + `+[` + closeP + `]){0,3}` + noP + `*$`)
	pubRe      = regexp.MustCompile(`[0-9]{1,5}-+[0-9]{1,5}[\t\n\f\r\v ]{0,4}\([0-9]{1,4}`)
	dateRe     = regexp.MustCompile(`(?:[0-3]?[0-9]/[01]?[0-9]|[01]?[0-9]/[0-3]?[0-9])/(?:[12][0-9])?[0-9]{2}`)
	stampRe    = regexp.MustCompile(`[12][0-9]{3}[-/]?[01][0-9][-/]?[0-3][0-9] +[0-2][0-9]$`)
	stampEndRe = regexp.MustCompile(`^:[0-5][0-9]`)
	findRe     = regexp.MustCompile(`(?i)(?:[` + openP + `+\x{FF0B}][` + punctClass + `]{0,4}){0,2}\p{Nd}{1,20}(?:[` + punctClass + `]{0,4}\p{Nd}{1,20}){0,20}(?:` + extMatching + `)?`)
	innerRes   = []*regexp.Regexp{
		regexp.MustCompile(`/+(.*)`),
		regexp.MustCompile(`(\([^(]*)`),
		regexp.MustCompile(`(?:\p{Z}-|-\p{Z})\p{Z}*(.+)`),
		regexp.MustCompile(`[\x{2012}-\x{2015}\x{FF0D}]\p{Z}*(.+)`),
		regexp.MustCompile(`\.+\p{Z}*([^.]+)`),
		regexp.MustCompile(`\p{Z}+(\P{Z}+)`),
	}
)

// Find lists the numbers in text.
func (w *World) Find(text, region string, leniency, maxTries int) []Found {
	var out []Found
	tries := maxTries
	at := 0
	for tries > 0 {
		loc := findRe.FindStringIndex(text[at:])
		if loc == nil {
			break
		}
		start := at + loc[0]
		cand := text[start : at+loc[1]]
		if i := secondNumRe.FindStringIndex(cand); i != nil {
			cand = cand[:i[0]]
		}
		if f := w.extract(text, cand, start, region, leniency, &tries); f != nil {
			out = append(out, *f)
			at = f.Start + len(f.Raw)
			continue
		}
		at = start + len(cand)
		tries--
	}
	return out
}

func (w *World) extract(text, cand string, start int, region string, leniency int, tries *int) *Found {
	if dateRe.MatchString(cand) {
		return nil
	}
	if stampRe.MatchString(cand) && stampEndRe.MatchString(text[start+len(cand):]) {
		return nil
	}
	if f := w.verifyAt(text, cand, start, region, leniency); f != nil {
		return f
	}
	for _, re := range innerRes {
		first := true
		for _, g := range re.FindAllStringSubmatchIndex(cand, -1) {
			if *tries <= 0 {
				break
			}
			if first {
				if f := w.verifyAt(text, trimEnd(cand[:g[0]]), start, region, leniency); f != nil {
					return f
				}
				*tries--
				first = false
			}
			if f := w.verifyAt(text, trimEnd(cand[g[2]:g[3]]), start+g[2], region, leniency); f != nil {
				return f
			}
			*tries--
		}
	}
	return nil
}

func latin(r rune) bool {
	return (unicode.IsLetter(r) || unicode.Is(unicode.Mn, r)) && (unicode.Is(unicode.Latin, r) || r >= 0x300 && r <= 0x36F)
}

func badNeighbour(r rune) bool { return r == '%' || unicode.Is(unicode.Sc, r) || latin(r) }

func (w *World) verifyAt(text, cand string, start int, region string, leniency int) *Found {
	if !bracketsRe.MatchString(cand) || pubRe.MatchString(cand) {
		return nil
	}
	if leniency >= LenValid {
		if first, _ := utf8.DecodeRuneInString(cand); start > 0 && !isPlus(first) && !strings.ContainsRune("([\uFF08\uFF3B", first) {
			if r, _ := utf8.DecodeLastRuneInString(text[:start]); badNeighbour(r) {
				return nil
			}
		}
		if end := start + len(cand); end < len(text) {
			if r, _ := utf8.DecodeRuneInString(text[end:]); badNeighbour(r) {
				return nil
			}
		}
	}
	n, err := w.Parse(cand, region, true)
	if err != nil || !w.Verify(n, cand, leniency) {
		return nil
	}
	n.Raw, n.Src, n.Carrier = "", 0, ""
	return &Found{start, cand, n}
}

// Verify applies a leniency to a parsed candidate.
func (w *World) Verify(n Num, cand string, leniency int) bool {
	if leniency == LenPossible {
		r := w.PossibleReason(n, Unknown)
		return r == Possible || r == LocalOnly
	}
	if leniency < LenPossible || leniency > LenExact {
		return false
	}
	if !w.Valid(n) || !w.onlyValidX(n, cand) || !w.nationalPrefixOK(n) {
		return false
	}
	if leniency == LenValid {
		return true
	}
	if tooManySlashes(n, cand) {
		return false
	}
	norm := AsciiDigits(cand)
	check := w.remainGrouped
	if leniency == LenExact {
		check = w.exactlyPresent
	}
	rfc := w.Format(n, RFC3966)
	if i := strings.IndexByte(rfc, ';'); i >= 0 {
		rfc = rfc[:i]
	}
	if check(n, norm, strings.Split(rfc[strings.IndexByte(rfc, '-')+1:], "-")) {
		return true
	}
	if alt := w.Alt[n.CC]; alt != nil {
		nsn := n.NSN()
		for _, f := range alt.Formats {
			if f.first != nil && !f.first.MatchString(nsn) {
				continue
			}
			if check(n, norm, strings.Split(f.apply(nsn, RFC3966, ""), "-")) {
				return true
			}
		}
	}
	return false
}

func (w *World) onlyValidX(n Num, cand string) bool {
	isX := func(i int) bool { return cand[i]|0x20 == 'x' }
	for i := 0; i < len(cand)-1; i++ {
		if !isX(i) {
			continue
		}
		if isX(i + 1) {
			i++
			if w.MatchOne(n, cand[i:]) != NSNMatch {
				return false
			}
		} else if Digits(cand[i:]) != n.Ext {
			return false
		}
	}
	return true
}

func (w *World) nationalPrefixOK(n Num) bool {
	if n.Src != SrcDefault {
		return true
	}
	p := w.region(w.RegionForCC(n.CC))
	if p == nil {
		return true
	}
	f := choose(p.Formats, n.NSN())
	if f == nil || f.NPRule == "" || f.NPOptional || firstGroupOnly(f.NPRule) {
		return true
	}
	_, _, ok := p.StripNationalPrefix(Digits(n.Raw))
	return ok
}

func firstGroupOnly(rule string) bool {
	switch rule {
	case "", "$1", "($1", "$1)", "($1)":
		return true
	}
	return false
}

func tooManySlashes(n Num, cand string) bool {
	i := strings.IndexByte(cand, '/')
	if i < 0 {
		return false
	}
	j := strings.IndexByte(cand[i+1:], '/')
	if j < 0 {
		return false
	}
	j += i + 1
	if (n.Src == SrcPlus || n.Src == SrcNoPlus) && Digits(cand[:i]) == strconv.Itoa(n.CC) {
		return strings.Contains(cand[j+1:], "/")
	}
	return true
}

func (w *World) remainGrouped(n Num, cand string, groups []string) bool {
	at := 0
	if n.Src != SrcDefault {
		cc := strconv.Itoa(n.CC)
		at = strings.Index(cand, cc) + len(cc)
	}
	for i, g := range groups {
		j := strings.Index(cand[at:], g)
		if j < 0 {
			return false
		}
		at += j + len(g)
		if i == 0 && at < len(cand) {
			r, _ := utf8.DecodeRuneInString(cand[at:])
			if w.NDD(w.RegionForCC(n.CC), true) != "" && unicode.Is(unicode.Nd, r) {
				return strings.HasPrefix(cand[at-len(g):], n.NSN())
			}
		}
	}
	return strings.Contains(cand[at:], n.Ext)
}

func (w *World) exactlyPresent(n Num, cand string, groups []string) bool {
	cg := digitRuns(cand)
	for len(cg) > 0 && cg[len(cg)-1] == "" {
		cg = cg[:len(cg)-1]
	}
	if len(cg) == 0 {
		cg = []string{""}
	}
	ci := len(cg) - 1
	if n.Ext != "" {
		ci--
	}
	if len(cg) == 1 || strings.Contains(cg[ci], n.NSN()) {
		return true
	}
	gi := len(groups) - 1
	for ; gi > 0 && ci >= 0; gi-- {
		if cg[ci] != groups[gi] {
			return false
		}
		ci--
	}
	return ci >= 0 && strings.HasSuffix(cg[ci], groups[0])
}

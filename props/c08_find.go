package props

import (
	"fmt"
	"iter"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

func budget(s string) int {
	if s == "max" {
		return math.MaxInt
	}
	n, _ := strconv.Atoi(s)
	return n
}

func collect(seq iter.Seq[*pn.PhoneNumberMatch], stop int) []model.Found {
	var out []model.Found
	for m := range seq {
		out = append(out, model.Found{Start: m.Start(), Raw: m.RawString(), Num: fromImpl(m.Number())})
		if len(out) == stop {
			break
		}
	}
	return out
}

func sameFound(a, b []model.Found) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// structureOracle checks what must hold of any search result.
// args: text, region, leniency, tries
func structureOracle(a []string) error {
	text, region := a[0], a[1]
	l, _ := strconv.Atoi(a[2])
	tries := budget(a[3])
	seq := pn.FindNumbersWithLeniency(text, region, pn.Leniency(l), tries)
	var got []model.Found
	end := 0
	for m := range seq {
		f := model.Found{Start: m.Start(), Raw: m.RawString(), Num: fromImpl(m.Number())}
		if m.Start() < end || m.End() <= m.Start() || m.End() > len(text) {
			return diff("offsets", fmt.Sprint(m.Start(), "-", m.End()), fmt.Sprintf("at or behind %d, inside the text, not empty", end))
		}
		if text[m.Start():m.End()] != m.RawString() {
			return diff("RawString", m.RawString(), text[m.Start():m.End()])
		}
		if m.Start() > 0 && !utf8.RuneStart(text[m.Start()]) && utf8.ValidString(text) || m.End() < len(text) && utf8.ValidString(text) && !utf8.RuneStart(text[m.End()]) {
			return diff("offsets", fmt.Sprint(m.Start(), "-", m.End()), "character boundaries")
		}
		p, err := pn.Parse(m.RawString(), region)
		if err != nil {
			return diff("parsing the raw string", err.Error(), f)
		}
		if g := fromImpl(p); g != f.Num {
			return diff("number of the match", f.Num, g)
		}
		if s := m.String(); !strings.Contains(s, m.RawString()) {
			return diff("String", s, m.RawString())
		}
		end = m.End()
		got = append(got, f)
		if len(got) > len(text) {
			return diff("number of matches", len(got), "fewer than bytes in the text")
		}
	}
	// the matches, and with them the offsets and the tries spent, are those of
	// the reference search
	want := w.Find(text, region, l, tries)
	for i := range want {
		want[i].Num = canon(want[i].Num)
	}
	if !sameFound(got, want) {
		return diff("matches", got, want)
	}
	// the same sequence value again, stopped early at every point, and interleaved
	if again := collect(seq, 0); !sameFound(again, got) {
		return diff("iterating again", again, got)
	}
	for i := 1; i <= len(got) && i <= 3; i++ {
		if part := collect(seq, i); !sameFound(part, got[:i]) {
			return diff("stopping early", part, got[:i])
		}
	}
	if again := collect(seq, 0); !sameFound(again, got) {
		return diff("iterating after stopping early", again, got)
	}
	var inner, outer []model.Found
	for m := range seq {
		outer = append(outer, model.Found{Start: m.Start(), Raw: m.RawString(), Num: fromImpl(m.Number())})
		if len(outer) == 1 {
			inner = collect(seq, 0)
		}
	}
	if !sameFound(outer, got) || len(got) > 0 && !sameFound(inner, got) {
		return diff("iterating while iterating", append(outer, inner...), got)
	}
	// less budget only cuts the list short
	if tries > 0 && tries < math.MaxInt {
		less := collect(pn.FindNumbersWithLeniency(text, region, pn.Leniency(l), tries-1), 0)
		if len(less) > len(got) || !sameFound(less, got[:len(less)]) {
			return diff("with a smaller budget", less, got)
		}
	}
	if l == 1 && tries == math.MaxInt {
		if d := collect(pn.FindNumbers(text, region), 0); !sameFound(d, got) {
			return diff("FindNumbers", d, got)
		}
	}
	return nil
}

// findOracle compares a search with the reference search.
func findOracle(a []string) error {
	l, _ := strconv.Atoi(a[2])
	tries := budget(a[3])
	got := collect(pn.FindNumbersWithLeniency(a[0], a[1], pn.Leniency(l), tries), 0)
	want := w.Find(a[0], a[1], l, tries)
	for i := range want {
		want[i].Num = canon(want[i].Num)
	}
	if !sameFound(got, want) {
		return diff("matches", got, want)
	}
	return nil
}

// verifyOracle judges one candidate at every leniency.
func verifyOracle(a []string) error {
	p, err := pn.ParseAndKeepRawInput(a[0], a[1])
	if err != nil {
		return nil
	}
	m := fromImpl(p)
	var ok [4]bool
	for l := 0; l <= 3; l++ {
		g, x := pn.Leniency(l).Verify(p, a[0]), w.Verify(m, a[0], l)
		if g != x {
			return diff("Verify at leniency "+strconv.Itoa(l), g, x)
		}
		ok[l] = g
	}
	if ok[1] && !ok[0] || (ok[2] || ok[3]) && !ok[1] {
		return diff("verdicts at the four leniencies", ok, "accepted by the more lenient levels too")
	}
	if g := fromImpl(p); g != m {
		return diff("the number after Verify", g, m)
	}
	return nil
}

// groupings of a national significant number: the plan's own, those of the
// alternate formats, and each with one separator dropped, moved or added.
func groupings(cc int, nsn string) [][]int {
	seen := map[string]bool{}
	var out [][]int
	add := func(cut []int) {
		k := fmt.Sprint(cut)
		if !seen[k] {
			seen[k] = true
			out = append(out, append([]int(nil), cut...))
		}
	}
	cutsOf := func(groups []string) []int {
		var c []int
		at := 0
		for _, g := range groups[:len(groups)-1] {
			at += len(g)
			c = append(c, at)
		}
		if at+len(groups[len(groups)-1]) != len(nsn) {
			return nil
		}
		return c
	}
	base := [][]int{nil}
	rfc := w.Format(numOf(cc, nsn), model.RFC3966)
	if i := strings.IndexByte(rfc, '-'); i >= 0 {
		base = append(base, cutsOf(strings.Split(rfc[i+1:], "-")))
	}
	if alt := w.Alt[cc]; alt != nil {
		for _, f := range alt.Formats {
			if s, ok := f.Groups(nsn); ok {
				base = append(base, cutsOf(s))
			}
		}
	}
	for _, b := range base {
		add(b)
		for i := range b {
			add(append(append([]int(nil), b[:i]...), b[i+1:]...))
			for _, d := range []int{-1, 1} {
				c := append([]int(nil), b...)
				c[i] += d
				if c[i] > 0 && c[i] < len(nsn) && (i == 0 || c[i] > c[i-1]) && (i+1 == len(c) || c[i] < c[i+1]) {
					add(c)
				}
			}
		}
		for p := 1; p < len(nsn); p++ {
			var c []int
			done := false
			for _, x := range b {
				if x == p {
					done = true
				}
				if x > p && !done {
					c = append(c, p)
					done = true
				}
				c = append(c, x)
			}
			if !done {
				c = append(c, p)
			}
			add(c)
		}
	}
	return out
}

func cutAt(nsn string, cuts []int, sep string) string {
	var b strings.Builder
	at := 0
	for _, c := range cuts {
		b.WriteString(nsn[at:c])
		b.WriteString(sep)
		at = c
	}
	b.WriteString(nsn[at:])
	return b.String()
}

var findTokens = []string{"650-253-0000", "(650) 253-0000", "+1", "6502530000", "+44 20 7031 3000", " ", "/", "x5", "a", "$", "%", "(", ")", "2003", "12/31/1999",
	"2012-01-02 08", ":00", "212-555 (2003", ".", " - ", "\u2013", " ext 5", "\u00E9", "\n", "e\u0301", "\u0661\u0662", "-", "xx", "0", ",", "\xff", "\u20AC", "[", "~", "\uFF0B", "#"}

var smallTokens = []string{"650 253 0000", "(650", "253-0000", "+", "1", " ", "/", "x", "-", ")", ".", "a", "5"}

func leniencies(f func(l string) bool) bool {
	for l := 0; l <= 3; l++ {
		if !f(strconv.Itoa(l)) {
			return false
		}
	}
	return true
}

func init() {
	oracles := map[string]explore.Oracle{"structure": structureOracle, "find": findOracle, "verify": verifyOracle}
	explore.Register(&explore.Property{
		ID:          "C08",
		Rule:        "all token sequences up to length 4 over 36 tokens and up to length 6 over 13 (numbers, fragments, separators, letters, dates, brackets, currency, other scripts, invalid UTF-8) x leniencies x try budgets 0..13 and unlimited; class representatives of every calling code in a row; each result sequence iterated again, stopped at every early point and iterated while being iterated",
		Assumptions: []string{"texts outside the token grammar behave like those inside"},
		Init:        initSpaces,
		Oracles:     oracles,
		Explore: func(c *explore.Ctx) {
			n := 3
			if c.Thorough {
				n = 4
			}
			c.Par("tokens", len(findTokens)*len(findTokens), func(k *explore.Worker, u int) {
				pre := findTokens[u/len(findTokens)] + findTokens[u%len(findTokens)]
				words(findTokens, n-2, func(s string) bool {
					return leniencies(func(l string) bool { return k.Do("structure", pre+s, "US", l, "max") })
				})
			})
			sn := 5
			if c.Thorough {
				sn = 6
			}
			c.Par("fragments", len(smallTokens)*len(smallTokens), func(k *explore.Worker, u int) {
				pre := smallTokens[u/len(smallTokens)] + smallTokens[u%len(smallTokens)]
				words(smallTokens, sn-2, func(s string) bool {
					return k.Do("structure", pre+s, "US", strconv.Itoa(len(s)&1), "max") && (!c.Thorough || k.Do("structure", pre+s, "US", "2", "max"))
				})
			})
			// budgets
			texts := budgetTexts()
			c.Par("budgets", len(texts), func(k *explore.Worker, u int) {
				for b := 0; b <= 40; b++ {
					if !leniencies(func(l string) bool { return k.Do("structure", texts[u], "US", l, strconv.Itoa(b)) }) {
						return
					}
				}
				k.Do("structure", texts[u], "US", "1", "-1")
				k.Do("structure", texts[u], "US", "7", "max")
				k.Do("structure", texts[u], "US", "-1", "max")
			})
			c.Par("codes", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				cc := strconv.Itoa(s.cc)
				r := s.reg[0]
				for i, nsn := range s.reps {
					if i > 8 && !c.Thorough {
						break
					}
					m := numOf(s.cc, nsn)
					for _, sep := range []string{" ", ", ", "/", " / ", "; ", "\n", " or ", "", "-", "\u3000", " \u2014 "} {
						for _, t := range []string{"+" + cc + nsn, w.Format(m, 1), w.Format(m, 2), w.Format(m, 3)} {
							for _, l := range []string{"0", "1", "3"} {
								if !k.Do("structure", "Call "+t+sep+t+sep+"12345"+sep+t, r, l, "max") {
									return
								}
							}
						}
					}
				}
			})
		},
	})
	explore.Register(&explore.Property{
		ID:          "C09",
		Rule:        "token sequences (as C08) compared with a reference search at every leniency and budget; numbers of every plan class in all their groupings (plan rule, alternate formats, one separator dropped, moved or added) x separators x national/international/extension forms x leniencies; every plan transition in its national and international form; every code point next to and inside a number",
		Assumptions: []string{"model.Find and model.Verify state the leniency definitions"},
		Init:        initSpaces,
		Oracles:     oracles,
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			per := 5
			if c.Thorough {
				per = 200
			}
			c.Par("groupings", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				cc := strconv.Itoa(s.cc)
				n := 0
				for _, nsn := range s.reps {
					if !w.Valid(numOf(s.cc, nsn)) {
						continue
					}
					if n++; n > per {
						break
					}
					reg := w.RegionOf(numOf(s.cc, nsn))
					p := w.Region(reg)
					pre := []string{"+" + cc + " ", "", "+" + cc, cc + " ", "+" + cc + "/"}
					if p != nil && p.NP != "" {
						pre = append(pre, p.NP, p.NP+" ", "("+p.NP+")", "+"+cc+" ("+p.NP+")", p.NP+"/")
					}
					for gi, g := range groupings(s.cc, nsn) {
						for si, sep := range []string{" ", "-", "/", ".", ") ", "x", " / "} {
							if gi > 12 && si > 1 && !c.Thorough {
								break
							}
							body := cutAt(nsn, g, sep)
							for _, q := range pre {
								for ei, e := range []string{"", " ext 12", "x12"} {
									if ei > 0 && gi > 4 && !c.Thorough {
										break
									}
									if !k.Do("verify", q+body+e, reg) {
										return
									}
									if gi < 6 {
										leniencies(func(l string) bool { return k.Do("find", "Tel "+q+body+e+", or", reg, l, "max") })
									}
								}
							}
						}
					}
				}
			})
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.nsns {
					m := numOf(s.cc, nsn)
					r := s.reg[i%len(s.reg)]
					nat, intl := w.Format(m, model.National), w.Format(m, model.International)
					if !k.Do("verify", nat, r) || !k.Do("verify", intl, "ZZ") {
						return
					}
					k.Do("verify", nsn, r)
					k.Do("find", "a "+nat+" b", r, strconv.Itoa(i&3), "max")
					k.Do("find", intl+".", r, strconv.Itoa(i>>2&3), "max")
					if p := w.Region(r); p != nil {
						k.Do("verify", p.NP+nsn, r)
					}
				}
			})
			// alternate formats: every rule of every country
			c.Par("alternate formats", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				alt := w.Alt[s.cc]
				if alt == nil {
					return
				}
				for _, nsn := range s.nsns {
					if !w.Valid(numOf(s.cc, nsn)) {
						continue
					}
					for _, f := range alt.Formats {
						if g, ok := f.Groups(nsn); ok {
							for _, sep := range []string{" ", "-"} {
								if !k.Do("verify", "+"+strconv.Itoa(s.cc)+sep+strings.Join(g, sep), "ZZ") {
									return
								}
								if p := w.Region(s.reg[0]); p != nil {
									k.Do("verify", p.NP+strings.Join(g, sep), s.reg[0])
								}
							}
						}
					}
				}
			})
			n := 3
			if c.Thorough {
				n = 4
			}
			c.Par("tokens", len(findTokens)*len(findTokens), func(k *explore.Worker, u int) {
				pre := findTokens[u/len(findTokens)] + findTokens[u%len(findTokens)]
				words(findTokens, n-2, func(s string) bool {
					return leniencies(func(l string) bool { return k.Do("find", pre+s, "US", l, "max") })
				})
			})
			sn := 5
			if c.Thorough {
				sn = 6
			}
			c.Par("fragments", len(smallTokens)*len(smallTokens), func(k *explore.Worker, u int) {
				pre := smallTokens[u/len(smallTokens)] + smallTokens[u%len(smallTokens)]
				words(smallTokens, sn-2, func(s string) bool {
					return k.Do("find", pre+s, "US", "1", "max") && k.Do("find", pre+s, "US", "0", "max") && (!c.Thorough || k.Do("find", pre+s, "US", "2", "max"))
				})
			})
			texts := budgetTexts()
			c.Par("budgets", len(texts), func(k *explore.Worker, u int) {
				for b := -1; b <= 40; b++ {
					if !leniencies(func(l string) bool { return k.Do("find", texts[u], "US", l, strconv.Itoa(b)) }) {
						return
					}
				}
				k.Do("find", texts[u], "US", "7", "max")
				k.Do("find", texts[u], "US", "-1", "max")
			})
			c.Par("extensions", len(extensionDigits), func(k *explore.Worker, u int) {
				for _, end := range []string{"", "#", " now"} {
					d := extensionDigits[u] + end
					extensionForms(func(intro string) {
						k.Do("find", "call 650-253-0000"+intro+d, "US", "1", "max")
						if u < 3 {
							k.Do("find", "+1 650 253 0000"+intro+d+" or 03 331 6005", "NZ", "3", "max")
						}
					})
				}
			})
			// what looks like a page range, a date or a time
			b := 3
			if c.Thorough {
				b = 5
			}
			lens := []string{"331", "1", "12", "3312", "21122", "211227"}
			c.Par("pages", len(lens), func(k *explore.Worker, u int) {
				slots([][]string{lens, {"-", "--", "---", " - ", "- ", "\u2010", "."}, {"", " ", "  ", "   ", "    ", "\t", "\u00A0", "\n"}, {"(", "", "[", "\uFF08"}, {"20", "3", "2003", "200", "20031", "(2"}, {")-55", ") 5", ")", "", " "}, {"DE", "US"}}, b, func(ch []string) bool {
					return k.Do("find", "see 5"+lens[u]+ch[1]+ch[0]+ch[2]+ch[3]+ch[4]+ch[5], ch[6], "0", "max") && k.Do("find", lens[u]+ch[1]+ch[0]+ch[2]+ch[3]+ch[4]+ch[5], ch[6], "0", "max")
				})
			})
			c.Par("days", 44, func(k *explore.Worker, u int) {
				days := []string{strconv.Itoa(u)}
				if u < 10 {
					days = append(days, "0"+days[0])
				}
				for _, d := range days {
					for m := 0; m < 44; m++ {
						months := []string{strconv.Itoa(m)}
						if m < 10 {
							months = append(months, "0"+months[0])
						}
						for _, m := range months {
							for _, y := range []string{"/96", "/1996", "/2026", "/3096", "/096", "/6", "-96", "/20261"} {
								k.Do("find", "on "+d+"/"+m+y, "DE", "0", "max")
							}
						}
					}
				}
			})
			times := []string{"2012", "1999", "0999", "3012", "212", "20121"}
			c.Par("times", len(times), func(k *explore.Worker, u int) {
				seps := []string{"-", "/", "", ".", "--", " "}
				slots([][]string{seps, {"01", "00", "09", "10", "12", "19", "20", "1"}, seps, {"02", "00", "09", "29", "31", "39", "40", "2"}, {" ", "  ", "", "\u00A0", "-", "\t"}, {"08", "00", "09", "12", "19", "20", "23", "29", "30", "8"},
					{":00", ":59", ":60", ":5", ":5a", ".00", "", " :00", "::00", " at 12:30"}, {"DE", "US"}, {"", "+", "x ", "("}}, b+1, func(ch []string) bool {
					return k.Do("find", ch[8]+times[u]+ch[0]+ch[1]+ch[2]+ch[3]+ch[4]+ch[5]+ch[6], ch[7], "0", "max")
				})
			})
			dates := []string{"0", "1", "2", "3", "9", "12", "31", "/", "-", " ", ":", "1999", "(", "08"}
			dn := 5
			if c.Thorough {
				dn = 6
			}
			c.Par("dates", len(dates), func(k *explore.Worker, u int) {
				words(dates, dn-1, func(s string) bool {
					return k.Do("find", dates[u]+s, "US", "0", "max") && k.Do("find", dates[u]+s, "DE", "0", "max")
				})
				words(dates, dn-3, func(s string) bool {
					return k.Do("find", dates[u]+s+"6502530000", "US", "1", "max") && k.Do("find", "650253"+dates[u]+s, "US", "0", "max") &&
						k.Do("find", "2012-01-02 08"+dates[u]+s, "US", "0", "max") && k.Do("find", "650-253 "+dates[u]+s, "US", "0", "max")
				})
			})
			const chunk = 2048
			c.Par("code points", (unicode.MaxRune+1)/chunk, func(k *explore.Worker, u int) {
				for r := rune(u * chunk); r < rune((u+1)*chunk); r++ {
					if r >= 0xD800 && r < 0xE000 {
						continue
					}
					if !unicode.In(r, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf) && r&0xFF != 0 && !c.Thorough {
						continue
					}
					s := string(r)
					if !k.Do("find", s+"650-253-0000", "US", "1", "max") {
						return
					}
					k.Do("find", "650-253-0000"+s, "US", "1", "max")
					k.Do("find", "650"+s+"2530000", "US", "1", "max")
					k.Do("find", s+"(650) 253-0000"+s+s+"+44 20 7031 3000", "US", "2", "max")
					if r < 0x3100 || r >= 0xFE00 && r < 0x10000 {
						k.Do("find", s+"650-253-0000", "US", "0", "max")
						k.Do("find", s+"+16502530000 x"+s+"5", "US", "3", "max")
						k.Do("find", "650-253-0000 "+s+"5", "US", "0", "max")
					}
				}
			})
		},
	})
}

func budgetTexts() []string {
	var out []string
	frag := []string{"12-34-56 ", "1. 2. 3. ", "(12) (34) ", "1/2/", "12 - 34 - ", "5 "}
	for _, a := range frag {
		for _, b := range frag {
			for _, n := range []int{1, 3, 7} {
				out = append(out, strings.Repeat(a, n)+strings.Repeat(b, n)+"650-253-0000", "650-253-0000 "+strings.Repeat(a+b, n)+" 650-253-0000")
			}
		}
	}
	return out
}

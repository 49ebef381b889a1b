package props

import (
	"fmt"
	"strconv"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

// In a typed session, keyClear stands for Clear and keyMark makes the next key
// go through InputDigitAndRememberPosition.
const (
	keyClear = '\uE000'
	keyMark  = '\uE001'
)

func isPhoneChar(r rune, first bool) bool {
	_, d := model.DigitValue(r)
	return d || first && (r == '+' || r == '\uFF0B')
}

// keepOracle types a session and checks the digit-preservation invariants after
// every key, without reference to any formatting rule. args: keys, region
func keepOracle(a []string) error {
	f := pn.GetAsYouTypeFormatter(a[1])
	var typed []rune
	own := false // the user typed formatting of their own
	marked := -1 // number of keys up to the remembered one
	mark := false
	for i, r := range []rune(a[0]) {
		switch r {
		case keyClear:
			f.Clear()
			typed, own, marked, mark = nil, false, -1, false
			continue
		case keyMark:
			mark = true
			continue
		}
		own = own || !isPhoneChar(r, len(typed) == 0)
		typed = append(typed, r)
		var s string
		if mark {
			s = f.InputDigitAndRememberPosition(r)
			marked = len(typed)
		} else {
			s = f.InputDigit(r)
		}
		mark = false
		at := fmt.Sprintf("after key %d (%q typed)", i, string(typed))
		if own && s != string(typed) {
			return diff("text "+at, s, string(typed))
		}
		if g, x := phoneChars(s), phoneChars(string(typed)); g != x {
			return diff("digits "+at, g, x)
		}
		if marked < 0 {
			continue
		}
		pos := f.GetRememberedPosition()
		out := []rune(s)
		if pos < 0 || pos > len(out) {
			return diff("remembered position "+at, pos, fmt.Sprintf("inside %q", s))
		}
		if g, x := phoneChars(string(out[:pos])), phoneChars(string(typed[:marked])); g != x {
			return diff("text before the remembered position "+at, string(out[:pos]), x)
		}
		if pos == 0 || phoneChars(string(out[pos-1])) == "" && phoneChars(string(typed[marked-1])) != "" {
			return diff("remembered position "+at, pos, fmt.Sprintf("directly behind %q in %q", typed[marked-1], s))
		}
	}
	return nil
}

// phoneChars are the digits and a leading plus of a text, as ASCII.
func phoneChars(s string) string {
	d := model.Digits(s)
	for _, r := range s {
		if r == '+' || r == '\uFF0B' {
			return "+" + d
		}
		break
	}
	return d
}

// sessionOracle types a session and compares every step with the reference
// machine, started anew at every Clear. args: keys, region
func sessionOracle(a []string) error {
	f := pn.GetAsYouTypeFormatter(a[1])
	t := w.NewTyping(a[1])
	mark := false
	for i, r := range []rune(a[0]) {
		switch r {
		case keyClear:
			f.Clear()
			t = w.NewTyping(a[1])
			mark = false
			if g := f.GetRememberedPosition(); g != 0 {
				return diff("remembered position after Clear", g, 0)
			}
			continue
		case keyMark:
			mark = true
			continue
		}
		var s string
		if mark {
			s = f.InputDigitAndRememberPosition(r)
		} else {
			s = f.InputDigit(r)
		}
		if x := t.Type(r, mark); s != x {
			return diff("text after key "+strconv.Itoa(i), s, x)
		}
		if g, x := f.GetRememberedPosition(), t.Position(); g != x {
			return diff("remembered position after key "+strconv.Itoa(i), g, x)
		}
		mark = false
	}
	return nil
}

// independentOracle types two sessions alternately into two formatters.
func independentOracle(a []string) error {
	f, g := pn.GetAsYouTypeFormatter(a[1]), pn.GetAsYouTypeFormatter(a[3])
	t, u := w.NewTyping(a[1]), w.NewTyping(a[3])
	x, y := []rune(a[0]), []rune(a[2])
	for i := 0; i < len(x) || i < len(y); i++ {
		if i < len(x) {
			if got, want := f.InputDigit(x[i]), t.Type(x[i], false); got != want {
				return diff("first formatter after key "+strconv.Itoa(i), got, want)
			}
		}
		if i < len(y) {
			if got, want := g.InputDigit(y[i]), u.Type(y[i], false); got != want {
				return diff("second formatter after key "+strconv.Itoa(i), got, want)
			}
		}
	}
	return nil
}

// maximal drops the strings that are prefixes of others (typing a string passes
// through all its prefixes).
func maximal(in []string) []string {
	pre := map[string]bool{}
	for _, s := range in {
		for i := 1; i < len(s); i++ {
			pre[s[:i]] = true
		}
	}
	var out []string
	for _, s := range in {
		if !pre[s] {
			out = append(out, s)
		}
	}
	return out
}

func withMark(s string, i int) string {
	r := []rune(s)
	if i >= len(r) {
		return s
	}
	return string(r[:i]) + string(keyMark) + string(r[i:])
}

// typingSpaces runs the spaces shared by C10 and C11.
func typingSpaces(c *explore.Ctx, oracle string) {
	countSpaces(c)
	regions := w.RegionList()
	maxOf := map[int][]string{}
	for _, s := range spaces {
		maxOf[s.cc] = maximal(s.nsns)
	}
	// every transition of the plan, typed in every region form
	c.Par("plan", len(regions), func(k *explore.Worker, u int) {
		r := regions[u]
		p := w.Region(r)
		cc := strconv.Itoa(p.CC)
		full := len(w.CCRegions[p.CC]) == 1 || w.CCRegions[p.CC][0] == r
		ids := idds(p, 2)
		for i, nsn := range maxOf[p.CC] {
			if !full && i%7 != u%7 && !c.Thorough {
				continue
			}
			if !k.Do(oracle, nsn, r) {
				return
			}
			k.Do(oracle, "+"+cc+nsn, r)
			if p.NP != "" {
				k.Do(oracle, p.NP+nsn, r)
			}
			for _, x := range ids {
				k.Do(oracle, x+cc+nsn, r)
			}
			if full {
				for _, x := range natPrefixes(p, 4) {
					k.Do(oracle, x+nsn, r)
				}
				if i%5 == 0 || c.Thorough {
					k.Do(oracle, "+"+cc+p.NP+nsn, r)
					k.Do(oracle, cc+nsn, r)
					k.Do(oracle, nsn+"00000", r)
				}
			}
		}
	})
	// foreign numbers typed internationally
	c.Par("foreign", len(spaces), func(k *explore.Worker, u int) {
		s := spaces[u]
		cc := strconv.Itoa(s.cc)
		for i, nsn := range maximal(s.reps) {
			if i > 40 && !c.Thorough {
				break
			}
			for _, r := range []string{"US", "GB", "ZZ", "", "001", "JP", "AU", "RU"} {
				pre := "+"
				for _, x := range []string{pre, "011", "00", "001", "0011", "810", "8~10"} {
					if !k.Do(oracle, x+cc+nsn, r) {
						return
					}
				}
			}
		}
	})
	// remembered position at every key, Clear and restart, own formatting at
	// every place
	c.Par("keys", len(regions), func(k *explore.Worker, u int) {
		r := regions[u]
		p := w.Region(r)
		cc := strconv.Itoa(p.CC)
		reps := maximal(spaceOf[p.CC].reps)
		for i, nsn := range reps {
			if i > 8 && !c.Thorough {
				break
			}
			forms := []string{nsn, "+" + cc + nsn}
			if p.NP != "" {
				forms = append(forms, p.NP+nsn)
			}
			for _, x := range idds(p, 1) {
				forms = append(forms, x+cc+nsn)
			}
			for _, t := range forms {
				for at := 0; at < len(t); at++ {
					if !k.Do(oracle, withMark(t, at), r) {
						return
					}
					for _, x := range []string{"-", " ", "+", "*", "#", "a", "\u0665", "\uFF15", "(", "\u00E9", "\U0001D7D3"} {
						k.Do(oracle, t[:at]+x+t[at:], r)
						k.Do(oracle, withMark(t[:at]+x+t[at:], at), r)
						if at > 0 {
							k.Do(oracle, withMark(t[:at]+x+t[at:], at-1), r)
						}
					}
					// two marks; Clear in the middle, then another number
					k.Do(oracle, withMark(withMark(t, at), at/2), r)
					k.Do(oracle, t[:at+1]+string(keyClear)+t, r)
					k.Do(oracle, withMark(t[:at+1], at)+string(keyClear)+forms[(at+1)%len(forms)], r)
					k.Do(oracle, t[:at]+"-"+string(keyClear)+withMark(forms[at%len(forms)], at/2), r)
					k.Do(oracle, t[:at]+wide(t[at:], 0x0660), r)
				}
				k.Do(oracle, wide(t, 0xFF10), r)
				k.Do(oracle, "\uFF0B"+t, r)
			}
		}
	})
	// all short key sequences
	deep := []string{"US", "GB", "JP", "AR", "IT", "RU", "MX", "ZZ", "HU", "BR", "KR", "AU", "DE", "CN", "UZ", "LT"}
	c.Par("words", len(deep)*10, func(k *explore.Worker, u int) {
		r := deep[u/10]
		n := 5
		if c.Thorough {
			n = 7
		}
		sharp := []string{"0", "1", "2", "5", "8", "9", "+", "4", "-", "7"}
		first := sharp[u%10]
		words(sharp, n-1, func(s string) bool {
			if len(s) < n-1 {
				return true
			}
			return k.Do(oracle, first+s, r) && k.Do(oracle, "+"+first+s, r)
		})
		words([]string{"0", "1", "2", "9"}, 7, func(s string) bool {
			return len(s) < 7 || k.Do(oracle, first+s+"2345", r)
		})
	})
	c.Par("actions", len(deep), func(k *explore.Worker, u int) {
		alpha := []string{"1", "0", "2", "+", "5", " ", string(keyClear), string(keyMark) + "2", string(keyMark) + "0"}
		n := 6
		if c.Thorough {
			n = 7
		}
		words(alpha, n, func(s string) bool { return s == "" || k.Do(oracle, s, deep[u]) })
	})
	c.Seq("codes", func(k *explore.Worker) {
		for cc := 0; cc <= 999; cc++ {
			for _, r := range []string{"US", "ZZ", "GB"} {
				k.Do(oracle, "+"+strconv.Itoa(cc)+"2345678901", r)
				k.Do(oracle, "011"+strconv.Itoa(cc)+"2345678901", r)
				k.Do(oracle, "00"+strconv.Itoa(cc)+"5550123", r)
			}
		}
		for _, r := range []string{"US", "GB", "IT", "JP"} {
			for n := 1; n <= 45; n++ {
				for _, d := range "012359" {
					k.Do(oracle, strings.Repeat(string(d), n), r)
					k.Do(oracle, "+"+strings.Repeat(string(d), n), r)
					k.Do(oracle, "+1"+strings.Repeat(string(d), n), r)
					k.Do(oracle, "0"+strings.Repeat(string(d), n), r)
				}
			}
		}
	})
}

func init() {
	rule := "every transition of every plan automaton typed key by key in its region with plus, IDD, national prefixes and plain; class representatives typed from other regions; the remembered position at every key, own formatting and other scripts' digits at every place, Clear at every point; all key sequences of up to 5 keys (and 7 over small alphabets) in 16 regions; all calling codes; the invariant or the reference machine is checked after every key"
	oracles := map[string]explore.Oracle{"keep": keepOracle, "session": sessionOracle, "independent": independentOracle}
	explore.Register(&explore.Property{
		ID: "C10", Rule: rule, Init: initSpaces, Oracles: oracles,
		Assumptions: []string{"digit strings reaching the same automaton state are indistinguishable to the plan"},
		Explore:     func(c *explore.Ctx) { typingSpaces(c, "keep") },
	})
	explore.Register(&explore.Property{
		ID: "C11", Rule: rule + "; two sessions typed alternately", Init: initSpaces, Oracles: oracles,
		Assumptions: []string{"model/aytf.go states the formatting rules", "digit strings reaching the same automaton state are indistinguishable to the plan"},
		Explore: func(c *explore.Ctx) {
			typingSpaces(c, "session")
			regions := w.RegionList()
			c.Par("pairs", len(regions), func(k *explore.Worker, u int) {
				p := w.Region(regions[u])
				x := "+" + strconv.Itoa(p.CC) + spaceOf[p.CC].reps[0]
				for _, r := range []string{"US", "GB", "IT", "JP", regions[(u+1)%len(regions)], regions[u]} {
					q := w.Region(r)
					for _, y := range []string{spaceOf[q.CC].reps[0], "+" + strconv.Itoa(q.CC) + spaceOf[q.CC].reps[0], "00" + x[1:], x} {
						k.Do("independent", x, regions[u], y, r)
						k.Do("independent", spaceOf[p.CC].reps[0], regions[u], y, r)
					}
				}
			})
		},
	})
}

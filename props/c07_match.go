package props

import (
	"strconv"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

// matchStringsOracle compares two texts in both orders.
func matchStringsOracle(a []string) error {
	want := w.MatchStrings(a[0], a[1])
	if g := int(pn.IsNumberMatch(a[0], a[1])); g != want {
		return diff("IsNumberMatch", g, want)
	}
	if g := int(pn.IsNumberMatch(a[1], a[0])); g != want {
		return diff("IsNumberMatch, arguments exchanged", g, want)
	}
	return nil
}

// matchNumbersOracle compares two numbers in both orders.
func matchNumbersOracle(a []string) error {
	x, y := dec(a[0]), dec(a[1])
	want := model.Match(x, y)
	p, q := toImpl(x), toImpl(y)
	if g := int(pn.IsNumberMatchWithNumbers(p, q)); g != want {
		return diff("IsNumberMatchWithNumbers", g, want)
	}
	if g := int(pn.IsNumberMatchWithNumbers(q, p)); g != want {
		return diff("IsNumberMatchWithNumbers, arguments exchanged", g, want)
	}
	if fromImpl(p) != canon(x) || fromImpl(q) != canon(y) {
		return diff("the arguments after the call", fromImpl(p), canon(x))
	}
	// one object on both sides
	self := model.Match(x, x)
	if g := int(pn.IsNumberMatchWithNumbers(p, p)); g != self {
		return diff("a number and itself", g, self)
	}
	return nil
}

// matchOneOracle compares a number and a text.
func matchOneOracle(a []string) error {
	x := dec(a[0])
	p := toImpl(x)
	want := w.MatchOne(x, a[1])
	if g := int(pn.IsNumberMatchWithOneNumber(p, a[1])); g != want {
		return diff("IsNumberMatchWithOneNumber", g, want)
	}
	if fromImpl(p) != canon(x) {
		return diff("the argument after the call", fromImpl(p), canon(x))
	}
	return nil
}

// writtenForms are spellings of one number and of its near misses.
func writtenForms(m model.Num) []string {
	nsn := m.NSN()
	cc := strconv.Itoa(m.CC)
	out := []string{
		"+" + cc + nsn, "+" + cc + " " + styled(nsn, "-"), cc + nsn, nsn, "0" + nsn, "1" + nsn, "00" + cc + nsn, "011" + cc + nsn,
		"+" + cc + nsn + " ext 3", nsn + " x3", nsn + "x4", "+" + cc + nsn + ";ext=3", "+" + cc + "0" + nsn, "+" + cc + nsn + "1",
		"\uFF0B" + cc + wide(nsn, 0x0660), "tel:" + nsn + ";phone-context=+" + cc, w.Format(m, 1), w.Format(m, 2), w.Format(m, 3),
		"0" + nsn + ";phone-context=+" + cc, "", "abc", "+", "+" + nsn, "+999" + nsn, "00", "+0" + nsn, "12345678901234567890",
	}
	if len(nsn) > 4 {
		out = append(out, nsn[3:], nsn[1:], "+"+cc+nsn[3:], nsn[:len(nsn)-1], nsn[len(nsn)-3:], nsn[len(nsn)-2:], nsn[len(nsn)-1:], vanity(nsn), "+"+cc+vanity(nsn))
	}
	return out
}

func numberForms(m model.Num) []model.Num {
	var out []model.Num
	nsn := m.NSN()
	bodies := []string{nsn, "0" + nsn, "00" + nsn, nsn + "0"}
	if len(nsn) > 4 {
		bodies = append(bodies, nsn[1:], nsn[3:], nsn[:len(nsn)-1])
	}
	for _, b := range bodies {
		for _, cc := range []int{0, m.CC, 44, 999} {
			for _, ext := range []string{"", "3", "03"} {
				n := numOf(cc, b)
				n.Ext = ext
				out = append(out, n)
			}
		}
	}
	n := m
	n.Raw, n.Src, n.Carrier = "raw", 5, "15"
	out = append(out, n)
	n = m
	n.ILZ, n.NLZ = true, 0
	out = append(out, n)
	n.NLZ = 1
	out = append(out, n)
	n.NLZ = 2
	return append(out, n)
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C07",
		Rule:        "class representatives of every calling code: all ordered pairs of ~37 written forms and near misses (text x text), of ~90 field variations (number x number), and number x text; all pairs of short texts over a sharp alphabet; pairs across calling codes",
		Assumptions: []string{"model.Match states the documented match levels"},
		Init:        initSpaces,
		Oracles:     map[string]explore.Oracle{"strings": matchStringsOracle, "numbers": matchNumbersOracle, "one": matchOneOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			per := 6
			if c.Thorough {
				per = 60
			}
			c.Par("texts", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.reps {
					if i >= per {
						break
					}
					fs := writtenForms(numOf(s.cc, nsn))
					for x := range fs {
						for y := x; y < len(fs); y++ {
							if !k.Do("strings", fs[x], fs[y]) {
								return
							}
						}
					}
				}
			})
			c.Par("number and text", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.reps {
					if i >= per {
						break
					}
					m := numOf(s.cc, nsn)
					for _, f := range writtenForms(m) {
						for _, n := range numberForms(m) {
							if !k.Do("one", enc(n), f) {
								return
							}
						}
					}
				}
			})
			c.Par("numbers", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.reps {
					if i >= per {
						break
					}
					fs := numberForms(numOf(s.cc, nsn))
					for x := range fs {
						for y := x; y < len(fs); y++ {
							if !k.Do("numbers", enc(fs[x]), enc(fs[y])) {
								return
							}
						}
					}
				}
			})
			// every state of the plan against itself and its suffixes
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				cc := strconv.Itoa(s.cc)
				for _, nsn := range s.nsns {
					if !k.Do("strings", "+"+cc+nsn, nsn) || !k.Do("one", enc(numOf(s.cc, nsn)), styled(nsn, " ")) {
						return
					}
					if len(nsn) > 5 {
						k.Do("strings", "+"+cc+nsn, nsn[2:])
						k.Do("strings", nsn, nsn[2:]+" ext. 1")
						k.Do("one", enc(numOf(s.cc, nsn)), nsn[3:])
					}
				}
			})
			// across calling codes
			c.Par("codes", len(spaces), func(k *explore.Worker, u int) {
				a := spaces[u]
				x := numOf(a.cc, a.reps[0])
				for _, b := range spaces {
					y := numOf(b.cc, b.reps[0])
					k.Do("numbers", enc(x), enc(y))
					z := numOf(b.cc, a.reps[0])
					k.Do("numbers", enc(x), enc(z))
					k.Do("strings", "+"+strconv.Itoa(a.cc)+a.reps[0], "+"+strconv.Itoa(b.cc)+a.reps[0])
					k.Do("strings", "+"+strconv.Itoa(a.cc)+a.reps[0], strconv.Itoa(b.cc)+b.reps[0])
					k.Do("one", enc(x), "+"+strconv.Itoa(b.cc)+a.reps[0])
				}
			})
			// short texts
			alpha := chars("01+x3")
			var short []string
			n := 3
			if c.Thorough {
				n = 5
			}
			words(alpha, n, func(s string) bool { short = append(short, s); return true })
			c.Par("short texts", len(short), func(k *explore.Worker, u int) {
				for _, t := range short {
					if !k.Do("strings", short[u], t) {
						return
					}
				}
				k.Do("one", enc(numOf(1, "3")), short[u])
				k.Do("one", enc(numOf(0, "33")), short[u])
				k.Do("one", enc(numOf(39, "0033")), short[u])
			})
			c.Seq("odd", func(k *explore.Worker) {
				odd := oddNumbers()
				for i := 0; i < len(odd); i++ {
					if odd[i].NLZ > 100 { // the comparison works on the national number
						continue
					}
					for j := i; j < len(odd) && j < i+60; j++ {
						k.Do("numbers", enc(odd[i]), enc(odd[j]))
					}
					k.Do("one", enc(odd[i]), "6502530000")
					k.Do("one", enc(odd[i]), "+16502530000")
				}
			})
		},
	})
}

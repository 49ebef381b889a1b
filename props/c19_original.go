package props

import (
	"strconv"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

// originalOracle parses a text keeping its raw form and renders it the way it
// was written. args: text, region parsed in, region called from.
func originalOracle(a []string) error {
	p, err := pn.ParseAndKeepRawInput(a[0], a[1])
	if err != nil {
		return nil // C02 decides which texts are refused
	}
	m := fromImpl(p)
	if m.Raw != a[0] {
		return diff("the raw input kept", m.Raw, a[0])
	}
	s := pn.FormatInOriginalFormat(p, a[2])
	if x := w.Original(m, a[2]); s != x {
		return diff("FormatInOriginalFormat", s, x)
	}
	// independently of the rules: the dialled characters are those entered
	if s != m.Raw && model.Diallable(s) != model.Diallable(m.Raw) {
		return diff("diallable characters of FormatInOriginalFormat", model.Diallable(s), model.Diallable(m.Raw))
	}
	if g, x := pn.FormatOutOfCountryKeepingAlphaChars(p, a[2]), w.KeepingAlpha(m, a[2]); g != x {
		return diff("FormatOutOfCountryKeepingAlphaChars", g, x)
	}
	if g := fromImpl(p); g != m {
		return diff("the number after the calls", g, m)
	}
	return nil
}

// originalNumOracle does the same for a number built by the caller.
func originalNumOracle(a []string) error {
	m := dec(a[0])
	p := toImpl(m)
	if g, x := pn.FormatInOriginalFormat(p, a[1]), w.Original(m, a[1]); g != x {
		return diff("FormatInOriginalFormat", g, x)
	}
	if g, x := pn.FormatOutOfCountryKeepingAlphaChars(p, a[1]), w.KeepingAlpha(m, a[1]); g != x {
		return diff("FormatOutOfCountryKeepingAlphaChars", g, x)
	}
	if g := fromImpl(p); g != canon(m) {
		return diff("the number after the calls", g, canon(m))
	}
	return nil
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C19",
		Rule:        "every product-automaton transition of each calling code written with plus, IDD, bare calling code, national prefix and plain; class representatives x all token-slot decorations with at most two deviations x regions parsed in and called from; all punctuation; numbers built with every country-code source",
		Assumptions: []string{"model/ states the intended rendering rules", "texts the library refuses are decided by C02"},
		Init:        initSpaces,
		Oracles:     map[string]explore.Oracle{"original": originalOracle, "number": originalNumOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				cc := strconv.Itoa(s.cc)
				regs := regionsFor(s.cc)
				for i, nsn := range s.nsns {
					if !k.Do("original", "+"+cc+" "+nsn, "ZZ", "US") {
						return
					}
					for j, r := range regs {
						if j > 0 && len(regs) > 3 && (i+j)%len(regs) > 1 {
							continue
						}
						p := w.Region(r)
						k.Do("original", nsn, r, r)
						k.Do("original", cc+nsn, r, r)
						k.Do("original", "+"+cc+nsn, r, "GB")
						if p != nil && p.NP != "" {
							k.Do("original", p.NP+nsn, r, r)
							k.Do("original", "+"+cc+p.NP+nsn, r, r)
							k.Do("original", "("+p.NP+") "+styled(nsn, "-"), r, "FR")
						}
						for _, x := range idds(p, 2) {
							k.Do("original", x+cc+nsn, r, r)
						}
						if j == 0 {
							for _, x := range natPrefixes(p, 4) {
								k.Do("original", x+nsn, r, r)
							}
						}
						k.Do("original", vanity(nsn), r, r)
						k.Do("original", "+"+cc+" "+styled(vanity(nsn), "-"), r, "US")
					}
				}
			})
			per := 2
			if c.Thorough {
				per = 10
			}
			c.Par("decorated", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				regs := regionsFor(s.cc)
				if len(regs) == 0 {
					regs = []string{""}
				}
				for j, r := range regs {
					if j > 2 && !c.Thorough {
						break
					}
					for i, nsn := range s.reps {
						if i >= per {
							break
						}
						alts := append(parseSlots(w.Region(r), s.cc, nsn, false), []string{r, "", "US"}, []string{r, "", "GB", "US", "AU", "UZ", "BR"})
						if !slots(alts, 2, func(ch []string) bool {
							return k.Do("original", ch[0]+ch[1]+ch[2]+ch[3], ch[4], ch[5])
						}) {
							return
						}
					}
				}
			})
			deep := []string{"US", "GB", "BR", "IT", "MX", "AU", "AR", "RU", "KR"}
			c.Par("decorated deep", len(deep)*3, func(k *explore.Worker, u int) {
				r := deep[u/3]
				p := w.Region(r)
				s := spaceOf[p.CC]
				if u%3 >= len(s.reps) {
					return
				}
				alts := append(parseSlots(p, p.CC, s.reps[u%3], true), []string{r}, []string{r, "", "US", "GB", "AU"})
				b := 2
				if c.Thorough {
					b = 3
				}
				slots(alts, b, func(ch []string) bool { return k.Do("original", ch[0]+ch[1]+ch[2]+ch[3], ch[4], ch[5]) })
			})
			letters := []string{"1-800-SIX-FLAG", "800 SIX-FLAG", "1800SIXFLAG", "+1 800 SIX-FLAG", "011 1 800 SIX-FLAG", "+1 (800) six.flag", "0011 1 800SIXFLAG x12", "+44 20 GOOGLE",
				"020GOOGLEX", "+80 012 345 678", "+800 1234-FLAG", "+61 2 GOOGLE1", "1300-GOOGLE", "0 800 SIX\uFF0DFLAG", "800\u2060SIX\u3000FLAG", "+1 800/SIX.FLAG", "(1) 800 SIX FLAG"}
			reg := allRegions()
			c.Par("letters", len(letters), func(k *explore.Worker, u int) {
				for _, from := range reg {
					for _, in := range []string{"US", "GB", "AU", "ZZ", "CA"} {
						k.Do("original", letters[u], in, from)
					}
				}
			})
			abc := chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
			c.Par("alphabet", len(abc), func(k *explore.Worker, u int) {
				for _, q := range abc {
					for _, r := range []string{"US", "GB", "AU"} {
						k.Do("original", "+1 800 "+abc[u]+"B"+q+"-"+q+"DE"+abc[u], "US", r)
						k.Do("original", "1800 22"+abc[u]+q+"-1A"+q, "US", r)
						k.Do("original", "0800 "+abc[u]+q+"B "+q+abc[u]+"Z", "GB", r)
					}
				}
			})
			const chunk = 256
			c.Par("code points", 0x20000/chunk, func(k *explore.Worker, u int) {
				for x := rune(u * chunk); x < rune((u+1)*chunk); x++ {
					if x >= 0xD800 && x < 0xE000 || x >= 0x3400 && x < 0xA000 || x >= 0xAC00 && x < 0xF900 {
						continue
					}
					n := model.Num{CC: 1, NN: 8002255555}
					n.Src, n.Raw = 20, "1 800"+string(x)+"CAL"+string(x)+"5555"
					if !k.Do("number", enc(n), "US") {
						return
					}
					k.Do("number", enc(n), "FR")
					n.Raw = string(x) + "800 22 CALL" + string(x)
					k.Do("number", enc(n), "AU")
				}
			})
			c.Par("punctuation", len(punctAll), func(k *explore.Worker, u int) {
				for _, q := range append([]string{"", "A", "9"}, punctAll...) {
					for _, r := range []string{"US", "GB", "AU"} {
						k.Do("original", "650"+punctAll[u]+"253"+q+"0000", "US", r)
						k.Do("original", "+44"+punctAll[u]+"20"+q+"70313000", "US", r)
						k.Do("original", "+44 20 "+punctAll[u]+"CALL"+q+"NOW", "GB", r)
					}
				}
			})
			c.Par("built", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.reps {
					if i > 20 && !c.Thorough {
						break
					}
					for _, src := range []int{0, 1, 5, 10, 20} {
						for _, raw := range []string{"", nsn, "0" + nsn, "+" + strconv.Itoa(s.cc) + nsn, vanity(nsn), "abc", "00" + strconv.Itoa(s.cc) + nsn} {
							for _, ext := range []string{"", "9"} {
								n := numOf(s.cc, nsn)
								n.Src, n.Raw, n.Ext = src, raw, ext
								for _, r := range []string{s.reg[0], "US", "", "GB"} {
									k.Do("number", enc(n), r)
								}
							}
						}
					}
				}
			})
		},
	})
}

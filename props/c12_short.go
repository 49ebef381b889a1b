package props

import (
	"sort"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
	"github.com/nyaruka/phonenumbers/v2/verif/npa"
)

// shortOracle asks every region-less question about a short number.
func shortOracle(a []string) error {
	m := dec(a[0])
	n := toImpl(m)
	if g, x := pn.IsPossibleShortNumber(n), w.ShortPossible(m); g != x {
		return diff("IsPossibleShortNumber", g, x)
	}
	if g, x := pn.IsValidShortNumber(n), w.ShortValid(m); g != x {
		return diff("IsValidShortNumber", g, x)
	}
	if g, x := int(pn.GetExpectedCost(n)), w.ShortCost(m); g != x {
		return diff("GetExpectedCost", g, x)
	}
	if g, x := pn.IsCarrierSpecific(n), w.CarrierSpecific(m); g != x {
		return diff("IsCarrierSpecific", g, x)
	}
	if g := fromImpl(n); g != canon(m) {
		return diff("the number after the calls", g, canon(m))
	}
	return nil
}

// shortRegionOracle asks every question about a short number in a region.
func shortRegionOracle(a []string) error {
	m, r := dec(a[0]), a[1]
	n := toImpl(m)
	if g, x := pn.IsPossibleShortNumberForRegion(n, r), w.ShortPossibleFor(m, r); g != x {
		return diff("IsPossibleShortNumberForRegion", g, x)
	}
	if g, x := pn.IsValidShortNumberForRegion(n, r), w.ShortValidFor(m, r); g != x {
		return diff("IsValidShortNumberForRegion", g, x)
	}
	if g, x := int(pn.GetExpectedCostForRegion(n, r)), w.ShortCostFor(m, r); g != x {
		return diff("GetExpectedCostForRegion", g, x)
	}
	if g, x := pn.IsCarrierSpecificForRegion(n, r), w.CarrierSpecificFor(m, r); g != x {
		return diff("IsCarrierSpecificForRegion", g, x)
	}
	if g, x := pn.IsSmsServiceForRegion(n, r), w.SMSFor(m, r); g != x {
		return diff("IsSmsServiceForRegion", g, x)
	}
	return nil
}

// emergencyOracle dials a string in a region.
func emergencyOracle(a []string) error {
	s, r := a[0], a[1]
	if g, x := pn.IsEmergencyNumber(s, r), w.Emergency(s, r, false); g != x {
		return diff("IsEmergencyNumber", g, x)
	}
	if g, x := pn.ConnectsToEmergencyNumber(s, r), w.Emergency(s, r, true); g != x {
		return diff("ConnectsToEmergencyNumber", g, x)
	}
	return nil
}

type shortSpace struct {
	region string
	nsns   []string
	st, tr int
}

var shortSpaces []*shortSpace

func shortPlanAutomaton(p *model.Plan, emergencyOnly bool) *npa.Automaton {
	au := npa.New()
	for _, d := range p.Descs() {
		if d.HasPattern && d.Pattern != "NA" && (!emergencyOnly || d == &p.Emergency) {
			au.Add(d.Pattern, false)
		}
	}
	if p.Emergency.HasPattern {
		au.Add(p.Emergency.Pattern, true)
	}
	return au
}

func initShort() {
	initSpaces()
	if shortSpaces != nil {
		return
	}
	var rs []string
	for r := range w.Short {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for _, r := range rs {
		res := shortPlanAutomaton(w.Short[r], false).Explore(9, 60000)
		s := &shortSpace{region: r, st: len(res.States), tr: len(res.TransAccess)}
		set := map[string]bool{}
		for _, st := range res.States {
			set[st.Access] = true
		}
		for _, t := range res.TransAccess {
			set[t] = true
		}
		for k := range set {
			if k != "" {
				s.nsns = append(s.nsns, k)
			}
		}
		sort.Strings(s.nsns)
		shortSpaces = append(shortSpaces, s)
	}
}

func countShort(c *explore.Ctx) {
	st, tr := 0, 0
	for _, s := range shortSpaces {
		st += s.st
		tr += s.tr
	}
	c.ModelStates(st, tr)
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C12",
		Rule:        "every state and transition of the product automaton of each region's short-number plan, plus every one-digit extension, x the region, its siblings and foreign regions x own and foreign calling codes; all digit strings of up to 4 digits x all calling codes; numbers with leading zeros and outside every plan",
		Assumptions: []string{"model/ states the short-number semantics", "digit strings that reach the same automaton state are indistinguishable to the plan"},
		Init:        initShort,
		Oracles:     map[string]explore.Oracle{"short": shortOracle, "region": shortRegionOracle},
		Explore: func(c *explore.Ctx) {
			countShort(c)
			one := func(k *explore.Worker, cc int, nsn string, regs ...string) bool {
				e := enc(numOf(cc, nsn))
				if !k.Do("short", e) {
					return false
				}
				for _, r := range regs {
					k.Do("region", e, r)
				}
				return true
			}
			c.Par("plan", len(shortSpaces), func(k *explore.Worker, u int) {
				s := shortSpaces[u]
				p := w.Region(s.region)
				if p == nil {
					return
				}
				regs := append([]string{"US", "FR", "", "ZZ", "001", "\xff"}, w.CCRegions[p.CC]...)
				for _, nsn := range s.nsns {
					if !one(k, p.CC, nsn, regs...) {
						return
					}
					one(k, 33, nsn, s.region, "FR")
					for d := byte('0'); d <= '9'; d++ {
						if len(nsn) < 9 && !one(k, p.CC, nsn+string(d), s.region) {
							return
						}
						if c.Thorough {
							for i := range nsn {
								one(k, p.CC, nsn[:i]+string(d)+nsn[i+1:], s.region)
							}
						}
					}
				}
			})
			ccs := append(w.CCs(), 0, -1, 999)
			n := 3
			if c.Thorough {
				n = 5
			}
			c.Par("all digits", len(ccs), func(k *explore.Worker, u int) {
				regs := w.CCRegions[ccs[u]]
				words(chars("0123456789"), n, func(s string) bool {
					return s == "" || one(k, ccs[u], s, regs...)
				})
				words(chars("019"), 8, func(s string) bool { return s == "" || one(k, ccs[u], s, regs...) })
			})
			c.Seq("odd", func(k *explore.Worker) {
				for _, m := range oddNumbers() {
					k.Do("short", enc(m))
					for _, r := range otherRegions {
						k.Do("region", enc(m), r)
					}
				}
			})
		},
	})
	explore.Register(&explore.Property{
		ID:          "C13",
		Rule:        "all digit strings of up to 4 digits x all regions; every state and transition of each region's emergency automaton x decorations, digit scripts, prefixes, suffixes and plus signs; all short words over a sharp alphabet",
		Assumptions: []string{"model/ states the emergency semantics"},
		Init:        initShort,
		Oracles:     map[string]explore.Oracle{"emergency": emergencyOracle},
		Explore: func(c *explore.Ctx) {
			countShort(c)
			reg := allRegions()
			n := 4
			if c.Thorough {
				n = 5
			}
			c.Par("digits", len(reg), func(k *explore.Worker, u int) {
				words(chars("0123456789"), n, func(s string) bool { return k.Do("emergency", s, reg[u]) })
				words(chars("1289"), 7, func(s string) bool { return k.Do("emergency", s, reg[u]) })
			})
			c.Par("decorated", len(reg), func(k *explore.Worker, u int) {
				var nums []string
				if p := w.Short[reg[u]]; p != nil {
					res := shortPlanAutomaton(p, true).Explore(8, 4000)
					c.ModelStates(len(res.States), len(res.TransAccess))
					for _, t := range res.TransAccess {
						nums = append(nums, t)
					}
				}
				sort.Strings(nums)
				nums = append(nums, "112", "911", "999", "000")
				for _, d := range nums {
					mid := styled2(d)
					for _, x := range []string{d, wide(d, 0x0660), wide(d, 0xFF10), wide(d, 0x1D7CE), wide(d, 0x0966), mid[0], mid[1], mid[2], mid[3]} {
						for _, pre := range []string{"", " ", "+", "\uFF0B", "tel:", "(", "Call ", "0", "++", "#", "*", "\u200B", "+1", "-+", "\xff", "x"} {
							for _, suf := range []string{"", "0", "1", " ", "#", "/x5", "x", "123456", "-", ")", ".", "\n", " ext 5", "\xff", "*1", "A", "/ x1", "\\x1", "\u0661"} {
								if !k.Do("emergency", pre+x+suf, reg[u]) {
									return
								}
							}
						}
					}
				}
			})
			sharp := chars("19+ -x#/\u0661\uFF0B")
			wn := 5
			if c.Thorough {
				wn = 6
			}
			c.Par("words", len(sharp), func(k *explore.Worker, u int) {
				words(sharp, wn-1, func(s string) bool {
					t := sharp[u] + s
					return k.Do("emergency", t, "US") && k.Do("emergency", t, "BR") && k.Do("emergency", t, "FR")
				})
			})
		},
	})
}

func styled2(d string) [4]string {
	if len(d) < 2 {
		return [4]string{d, d, d, d}
	}
	return [4]string{d[:1] + "-" + d[1:], d[:1] + " " + d[1:], strings.Join(strings.Split(d, ""), "."), d[:len(d)-1] + "(" + d[len(d)-1:]}
}

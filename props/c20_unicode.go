package props

import (
	"strconv"
	"unicode"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

// normaliseOracle runs a text through the public normalisers.
func normaliseOracle(a []string) error {
	s := a[0]
	if g, x := pn.NormalizeDigitsOnly(s), model.Digits(s); g != x {
		return diff("NormalizeDigitsOnly", g, x)
	}
	if g, x := pn.NormalizeDiallableCharsOnly(s), model.Diallable(s); g != x {
		return diff("NormalizeDiallableCharsOnly", g, x)
	}
	if g, x := pn.ConvertAlphaCharactersInNumber(s), model.ConvertAlpha(s); g != x {
		return diff("ConvertAlphaCharactersInNumber", g, x)
	}
	if g, x := pn.IsAlphaNumber(s), model.IsAlphaNumber(s); g != x {
		return diff("IsAlphaNumber", g, x)
	}
	return nil
}

// scriptOracle reads one number in another script's digits.
// args: number, region, code point of the zero.
func scriptOracle(a []string) error {
	z, _ := strconv.Atoi(a[2])
	x, ex := pn.Parse(a[0], a[1])
	y, ey := pn.Parse(wide(a[0], rune(z)), a[1])
	if errName(ex) != errName(ey) {
		return diff("Parse in another script", errName(ey), errName(ex))
	}
	if ex == nil {
		// the extension stays in the script it was written in, as upstream
		p, q := fromImpl(x), fromImpl(y)
		q.Ext = model.Digits(q.Ext)
		if p != q {
			return diff("Parse in another script", q, p)
		}
	}
	f, g := pn.GetAsYouTypeFormatter(a[1]), pn.GetAsYouTypeFormatter(a[1])
	for i, r := range a[0] {
		c := r
		if r >= '0' && r <= '9' {
			c = rune(z) + r - '0'
		}
		p, q := f.InputDigit(r), g.InputDigit(c)
		if model.Digits(p) != model.Digits(q) {
			return diff("as-you-type in another script after key "+strconv.Itoa(i), q, p)
		}
	}
	return nil
}

// typeOracle types a text and compares every step. args: text, region.
func typeOracle(a []string) error {
	f := pn.GetAsYouTypeFormatter(a[1])
	t := w.NewTyping(a[1])
	for i, r := range a[0] {
		if g, x := f.InputDigit(r), t.Type(r, false); g != x {
			return diff("as-you-type after key "+strconv.Itoa(i), g, x)
		}
	}
	return nil
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C20",
		Rule:        "all 1,114,112 code points, alone and inside a number, through every normaliser, in every position of a parsed number (before, inside, behind, behind the plus, as extension label), typed into the as-you-type formatter and dialled as an emergency number; numbers of every calling code in every decimal-digit script; all single bytes and byte pairs that are not valid UTF-8",
		Assumptions: []string{"Go's unicode tables define the decimal digits, as documented in SYNC.md"},
		Init:        initShort,
		Oracles: map[string]explore.Oracle{"normalise": normaliseOracle, "parse": parseOracle, "script": scriptOracle,
			"type": typeOracle, "emergency": emergencyOracle},
		Explore: func(c *explore.Ctx) {
			const chunk = 2048
			c.Par("code points", (unicode.MaxRune+1)/chunk, func(k *explore.Worker, u int) {
				for r := rune(u * chunk); r < rune((u+1)*chunk); r++ {
					if r >= 0xD800 && r < 0xE000 {
						continue // not encodable
					}
					s := string(r)
					if !k.Do("normalise", s) {
						return
					}
					// unassigned and private-use code points behave alike
					// unless they are in a table; the ends of the planes stand for them
					plain := !unicode.In(r, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf) && r&0xFF != 0 && r&0xFF != 0xFF
					if plain && !c.Thorough {
						k.Do("parse", "650"+s+"2530000", "US")
						k.Do("emergency", "9"+s+"11", "US")
						continue
					}
					k.Do("normalise", "1"+s+"2a"+s+s)
					k.Do("normalise", "+1 800 "+s+s+s)
					k.Do("parse", "650"+s+"2530000", "US")
					k.Do("parse", s+"6502530000", "US")
					k.Do("parse", "6502530000"+s, "US")
					k.Do("parse", "+"+s+"16502530000", "ZZ")
					k.Do("parse", s+"16502530000", "ZZ")
					k.Do("parse", "6502530000"+s+"7", "US")
					k.Do("parse", "650253000"+s, "US")
					k.Do("parse", "800"+s+"FLOWERS", "US")
					k.Do("parse", "65025"+s+s+s+"00", "US")
					k.Do("emergency", "9"+s+"11", "US")
					k.Do("emergency", s+"911", "US")
					k.Do("emergency", "911"+s, "US")
					k.Do("type", "650"+s+"25", "US")
					k.Do("type", s+"16502", "US")
					k.Do("type", "+"+s+"44"+s, "GB")
				}
			})
			// invalid encodings
			c.Par("bytes", 256, func(k *explore.Worker, u int) {
				for v := -1; v < 256; v++ {
					s := string([]byte{byte(u)})
					if v >= 0 {
						s += string([]byte{byte(v)})
					}
					k.Do("normalise", s)
					k.Do("normalise", "1"+s+"2")
					k.Do("parse", "650"+s+"2530000", "US")
					k.Do("parse", s+"6502530000", "US")
					k.Do("parse", "6502530000"+s, "US")
					k.Do("parse", "+1"+s+"6502530000", "ZZ")
					k.Do("emergency", "9"+s+"11", "US")
				}
			})
			// scripts
			var zeros []rune
			for r := rune(0x80); r <= unicode.MaxRune; r++ {
				if v, ok := model.DigitValue(r); ok && v == '0' {
					zeros = append(zeros, r)
				}
			}
			c.Note("%d decimal-digit scripts", len(zeros))
			c.Par("scripts", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				cc := strconv.Itoa(s.cc)
				for i, nsn := range s.reps {
					if i > 3 && !c.Thorough {
						break
					}
					r := s.reg[0]
					for _, z := range zeros {
						zs := strconv.Itoa(int(z))
						if !k.Do("script", "+"+cc+nsn, r, zs) {
							return
						}
						k.Do("script", nsn, r, zs)
						k.Do("script", styled(nsn, "-")+" ext. 12345", r, zs)
						k.Do("parse", wide("+"+cc+" "+nsn+"x0123456789", z), "ZZ")
						if p := w.Region(r); p != nil {
							k.Do("script", p.NP+nsn, r, zs)
							k.Do("parse", wide(p.NP, z)+nsn, r)
							k.Do("parse", p.NP+wide(nsn, z), r)
							for _, x := range idds(p, 1) {
								k.Do("script", x+cc+nsn, r, zs)
							}
						}
					}
				}
			})
		},
	})
}

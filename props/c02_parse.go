package props

import (
	"strconv"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

// parseOracle: Parse, ParseAndKeepRawInput and the ...ToNumber forms agree
// with the reference on the number or on the reason it is refused.
func parseOracle(a []string) error {
	s, region := a[0], a[1]
	for _, keep := range []bool{false, true} {
		want, werr := w.Parse(s, region, keep)
		var p *pn.PhoneNumber
		var err error
		name := "Parse"
		if keep {
			name = "ParseAndKeepRawInput"
			p, err = pn.ParseAndKeepRawInput(s, region)
		} else {
			p, err = pn.Parse(s, region)
		}
		if errName(err) != modelErrName(werr) {
			return diff(name+" error", errName(err), modelErrName(werr))
		}
		if err != nil {
			continue
		}
		if got := fromImpl(p); got != canon(want) {
			return diff(name, got, canon(want))
		}
		// into a number that was used before
		q := toImpl(model.Num{CC: 39, NN: 7, ILZ: true, NLZ: 4, Ext: "99", Raw: "old", Src: 10, Carrier: "88"})
		if keep {
			err = pn.ParseAndKeepRawInputToNumber(s, region, q)
		} else {
			err = pn.ParseToNumber(s, region, q)
		}
		if err != nil || fromImpl(q) != canon(want) {
			return diff(name+"ToNumber", []any{fromImpl(q), err}, canon(want))
		}
	}
	return nil
}

// idds lists concrete international prefixes of a plan: every distinct one of
// at most 5 digits that its pattern accepts as a whole.
func idds(p *model.Plan, limit int) []string {
	if p == nil || p.IDD == "" {
		return nil
	}
	return iddCache(p.IDD, limit)
}

func natPrefixes(p *model.Plan, limit int) []string {
	if p == nil {
		return nil
	}
	var out []string
	if p.NP != "" {
		out = append(out, p.NP)
	}
	for _, x := range prefixWords(p.NPParse, 6, limit) {
		if x != "" && x != p.NP {
			out = append(out, x)
		}
	}
	return out
}

func regionsFor(cc int) []string {
	var out []string
	for _, r := range w.CCRegions[cc] {
		if r != "001" {
			out = append(out, r)
		}
	}
	return out
}

// punctuation accepted inside numbers, one string per code point.
var punctAll = chars("-x\u2010\u2011\u2012\u2013\u2014\u2015\u2212\u30FC\uFF0D\uFF0E\uFF0F \u00A0\u00AD\u200B\u2060\u3000()\uFF08\uFF09\uFF3B\uFF3D.[]/~\u2053\u223C\uFF5E")

func styled(nsn, sep string) string {
	if len(nsn) < 5 {
		return nsn
	}
	return nsn[:3] + sep + nsn[3:]
}

func wide(s string, zero rune) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return zero + r - '0'
		}
		return r
	}, s)
}

const keyLetters = "0123456789"

// vanity respells the last four digits with keypad letters where possible.
func vanity(s string) string {
	b := []byte(s)
	for i := len(b) - 4; i < len(b); i++ {
		if i >= 0 && b[i] >= '2' && b[i] <= '9' {
			b[i] = "ADGJMPTW"[b[i]-'2']
		}
	}
	return string(b)
}

// parseSlots are the token alternatives of a written number; the first of each
// is the plain form.
func parseSlots(p *model.Plan, cc int, nsn string, rich bool) [][]string {
	c := strconv.Itoa(cc)
	lead := []string{"", " ", "Tel: ", "(", "\u200B", "tel:", "abc"}
	pre := []string{"", "+" + c, c, "\uFF0B" + c + " ", "+ " + c + "-", "++" + c, "+(" + c + ")"}
	for _, i := range idds(p, 4) {
		pre = append(pre, i+c, i+"-"+c+" ", i+i+c)
	}
	for _, x := range natPrefixes(p, 5) {
		pre = append(pre, x, "+"+c+" ("+x+") ", "+"+c+x)
	}
	if rich {
		lead = append(lead, "(+", "/", "\t", "x", "+", "*", "\u00AB")
		pre = append(pre, "+0"+c, "+999", "+"+c+c, "00"+c, "011"+c, "~", "0", "1", "8", "+0")
	}
	body := []string{nsn, styled(nsn, "-"), styled(nsn, ") "), wide(nsn, 0x0660), styled(wide(nsn, 0xFF10), "\uFF0D"),
		vanity(nsn), styled(nsn, "x"), styled(nsn, "*"), styled(nsn, "+"), nsn + "0", nsn + "0000"}
	if len(nsn) > 2 {
		body = append(body, nsn[1:], nsn[:len(nsn)-1])
	}
	if rich {
		body = append(body, "0"+nsn, "00"+nsn, "000"+nsn, wide(nsn, 0x1D7CE), wide(nsn, 0x0966), styled(nsn, " ext "), styled(nsn, "/"), styled(nsn, "\n"), nsn+nsn)
	}
	tail := []string{"", "x7", " ext. 4567", ";ext=12", "#", "#9", ",,5", ";7", " -3#", " x 123456789", " x 1234567890", ")", "/x9", ";phone-context=+" + c, ";isub=1"}
	if rich {
		tail = append(tail, " extension 12345678901234567890", " ext 123456789012345678901", ",5", ";phone-context=example.com",
			";phone-context=", ";phone-context=+"+c+";ext=3", " доб. 22", " anexo 3", " int 4", "\uFF58\uFF54\uFF4E5", "~8", " - 123456#", " - 1234567#", ",,123456789012345#",
			",,1234567890123456#", ",123456789", ",1234567890", " xtn 1", " \u0445 1", "  ", " or 5", "\u00A0ext:\u00A05", " extensio\u0301n 3", " extensi\u00F3n 3", ".", "a", ";ext=", "x", "xx", "x12#", "x12##", " e 5")
	}
	return [][]string{lead, pre, body, tail}
}

func parseRegions(cc int, own string) []string {
	out := []string{own, "", "ZZ", "001"}
	foreign := []string{"US", "GB", "BR", "IT"}
	for _, f := range foreign {
		if f != own {
			out = append(out, f)
		}
	}
	if own != "" {
		out = append(out, strings.ToLower(own))
	}
	return out
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C02",
		Rule:        "written numbers = (product-automaton transition cover of every calling code x international, national, IDD and bare forms x every region of the code) + (class representatives x all token-slot decorations with a bounded number of deviations x regions) + all short words over sharp alphabets in several contexts + boundary lengths; every case is compared with the reference parser in all four Parse entry points",
		Assumptions: []string{"the reference parser in model/ states the intended semantics (libphonenumber, with the deviations SYNC.md documents)", "written forms outside the enumerated token grammar behave like those inside"},
		Init:        initSpaces,
		Oracles:     map[string]explore.Oracle{"parse": parseOracle},
		Explore:     exploreParse,
	})
}

func exploreParse(c *explore.Ctx) {
	countSpaces(c)
	// every automaton transition in the basic written forms
	c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
		s := spaces[u]
		cc := strconv.Itoa(s.cc)
		regs := regionsFor(s.cc)
		for i, nsn := range s.nsns {
			if !k.Do("parse", "+"+cc+nsn, "") {
				return
			}
			for j, r := range regs {
				// with many regions sharing a code, spread the states over them
				if j > 0 && len(regs) > 4 && (i+j)%len(regs) > 3 {
					continue
				}
				p := w.Region(r)
				k.Do("parse", nsn, r)
				k.Do("parse", cc+nsn, r)
				if p != nil && p.NP != "" {
					k.Do("parse", p.NP+nsn, r)
					k.Do("parse", "+"+cc+p.NP+nsn, r)
				}
				if j == 0 {
					for _, x := range idds(p, 2) {
						k.Do("parse", x+cc+nsn, r)
					}
					for _, x := range natPrefixes(p, 6) {
						k.Do("parse", x+nsn, r)
					}
				}
			}
		}
	})
	// decorations
	bound := 2
	perCC := 3
	if c.Thorough {
		perCC = 12
	}
	c.Par("decorated", len(spaces), func(k *explore.Worker, u int) {
		s := spaces[u]
		regs := regionsFor(s.cc)
		if len(regs) == 0 {
			regs = []string{""}
		}
		reps := s.reps
		if len(reps) > perCC {
			reps = reps[:perCC]
		}
		for j, r := range regs {
			if j > 2 && !c.Thorough {
				break
			}
			p := w.Region(r)
			for _, nsn := range reps {
				alts := append(parseSlots(p, s.cc, nsn, false), parseRegions(s.cc, r))
				if !slots(alts, bound, func(ch []string) bool {
					return k.Do("parse", ch[0]+ch[1]+ch[2]+ch[3], ch[4])
				}) {
					return
				}
			}
		}
	})
	deep := []string{"US", "GB", "BR", "IT", "DE", "MX", "AU", "KZ"}
	if c.Thorough {
		deep = append(deep, "AR", "CN", "HU", "JP", "FI", "SM", "NZ", "FR", "IL", "ZA", "KR", "CL")
	}
	c.Par("decorated deep", len(deep)*4, func(k *explore.Worker, u int) {
		r := deep[u/4]
		p := w.Region(r)
		s := spaceOf[p.CC]
		if u%4 >= len(s.reps) {
			return
		}
		nsn := s.reps[u%4]
		alts := append(parseSlots(p, p.CC, nsn, true), parseRegions(p.CC, r))
		b := 2
		if u%4 == 0 {
			b = 3
		}
		slots(alts, b, func(ch []string) bool {
			return k.Do("parse", ch[0]+ch[1]+ch[2]+ch[3], ch[4])
		})
	})
	// short words over sharp alphabets
	sharp := chars("0126+-x#(; ,*/a\uFF0B")
	n := 4
	if c.Thorough {
		n = 6
	}
	c.Par("words", len(sharp), func(k *explore.Worker, u int) {
		words(sharp, n, func(s string) bool {
			return k.Do("parse", sharp[u]+s, "US") && k.Do("parse", sharp[u]+s, "GB") && k.Do("parse", "+1"+sharp[u]+s, "ZZ")
		})
	})
	tail := chars("05xXeEtTnNiI;=#,:.~ -a+/")
	tn := 3
	if c.Thorough {
		tn = 4
	}
	c.Par("tails", len(tail), func(k *explore.Worker, u int) {
		words(tail, tn, func(s string) bool {
			return k.Do("parse", "6502530000"+tail[u]+s, "US") && k.Do("parse", "+44 20 7031 3000 "+tail[u]+s, "US")
		})
	})
	heads := chars("01+-( x*/9\uFF0B\u0663aT:.")
	c.Par("heads", len(heads), func(k *explore.Worker, u int) {
		words(heads, 3, func(s string) bool {
			return k.Do("parse", heads[u]+s+"6502530000", "US") && k.Do("parse", heads[u]+s+"2070313000", "GB") && k.Do("parse", heads[u]+s+"441234567", "ZZ")
		})
	})
	// RFC 3966 grammar
	toks := []string{"tel:", "03-331-6005", "+64-3-331-6005", ";phone-context=", "+64", "+", "www.nz", ";ext=3", ";isub=9", ";", "=", "64", "-", ".", "a.b-c"}
	rn := 4
	if c.Thorough {
		rn = 5
	}
	c.Par("rfc3966", len(toks), func(k *explore.Worker, u int) {
		words(toks, rn-1, func(s string) bool { return k.Do("parse", toks[u]+s, "NZ") && k.Do("parse", toks[u]+s, "ZZ") })
	})
	// phone contexts: domain names and number prefixes
	ctx := append(chars("a1-.Z+(\u0663 ;"), "--")
	cn := 5
	if c.Thorough {
		cn = 6
	}
	c.Par("contexts", len(ctx), func(k *explore.Worker, u int) {
		words(ctx, cn-1, func(s string) bool {
			return k.Do("parse", "tel:033316005;phone-context="+ctx[u]+s, "NZ") && k.Do("parse", "tel:033316005;phone-context=+"+ctx[u]+s, "NZ")
		})
	})
	// extensions
	c.Par("extensions", len(extensionDigits), func(k *explore.Worker, u int) {
		for _, end := range []string{"", "#", "##", " "} {
			d := extensionDigits[u] + end
			extensionForms(func(intro string) {
				k.Do("parse", "033316005"+intro+d, "NZ")
				k.Do("parse", "+44 20 7031 3000"+intro+d, "ZZ")
			})
		}
	})
	// lengths
	c.Seq("lengths", func(k *explore.Worker) {
		for _, r := range []string{"", "US", "GB", "IT", "DE", "CI", "ZZ"} {
			for n := 0; n <= 40; n++ {
				for _, d := range []string{"0", "1", "6", "9", "\uFF12"} {
					for _, pre := range []string{"", "+", "+1", "+39", "+49", "00", "0", "011", "+44 0", "1"} {
						k.Do("parse", pre+strings.Repeat(d, n), r)
						k.Do("parse", pre+strings.Repeat("0", n)+"6502530", r)
						k.Do("parse", pre+strings.Repeat("0", n), r)
						k.Do("parse", pre+"65025"+strings.Repeat("-", n)+"30000", r)
						k.Do("parse", pre+"6502530000 x"+strings.Repeat(d, n), r)
						k.Do("parse", pre+"6502530000;ext="+strings.Repeat(d, n), r)
						k.Do("parse", pre+"6502530000,,"+strings.Repeat(d, n)+"#", r)
						k.Do("parse", pre+"6502530000,"+strings.Repeat(d, n), r)
						k.Do("parse", pre+"6502530000 - "+strings.Repeat(d, n)+"#", r)
						k.Do("parse", pre+"6502530000 ext"+strings.Repeat(d, n), r)
					}
				}
			}
			for n := 225; n <= 262; n++ {
				for _, x := range []string{" ", "-", "0", "1", "(", "a", "\u00A0", "\u3000", "+"} {
					k.Do("parse", strings.Repeat(x, n)+"6502530000", r)
					k.Do("parse", "6502530000"+strings.Repeat(x, n), r)
					k.Do("parse", "650253"+strings.Repeat(x, n)+"0000", r)
					k.Do("parse", strings.Repeat(x, n/len(x))+"+16502530000", r)
				}
			}
		}
	})
	// every punctuation code point, alone and in pairs, in a number
	c.Par("punctuation", len(punctAll), func(k *explore.Worker, u int) {
		for _, q := range append([]string{""}, punctAll...) {
			k.Do("parse", "650"+punctAll[u]+q+"253"+punctAll[u]+"0000", "US")
			k.Do("parse", "+44"+punctAll[u]+"20"+q+"70313000", "US")
			k.Do("parse", punctAll[u]+q+"+16502530000"+q+punctAll[u], "")
			k.Do("parse", "011"+punctAll[u]+q+"44"+"2070313000", "US")
			k.Do("parse", "1"+punctAll[u]+q+"6502530000", "US")
		}
	})
}

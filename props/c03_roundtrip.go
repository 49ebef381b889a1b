package props

import (
	"regexp"
	"strconv"
	"sync"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

var lookMemo sync.Map

func looking(pattern, s string) bool {
	if pattern == "" {
		return false
	}
	v, ok := lookMemo.Load(pattern)
	if !ok {
		v = regexp.MustCompile(`^(?:` + pattern + `)`)
		lookMemo.Store(pattern, v)
	}
	return v.(*regexp.Regexp).MatchString(s)
}

// ambiguous: the digits written also begin with a prefix of the plan that is
// used to read them, so that the text itself denotes two numbers.
func ambiguous(m model.Num, f int, region string) bool {
	p := w.Main(m.CC)
	if p != nil && looking(p.NPParse, m.NSN()) {
		return true
	}
	if f == model.National {
		rp := w.Region(region)
		d := model.Digits(w.Format(m, model.National))
		if rp != nil && d != m.NSN() && d != rp.NP+m.NSN() {
			return true // the plan's rule writes digits that are not its national prefix
		}
		if rp != nil && (looking(rp.IDD, d) || looking(rp.NPParse, d) || looking(strconv.Itoa(rp.CC), d)) {
			return true
		}
	}
	return false
}

// roundTripOracle formats a number and reads it back, with the library alone.
// args: number, format, region to parse in.
func roundTripOracle(a []string) error {
	m := dec(a[0])
	f, _ := strconv.Atoi(a[1])
	n := toImpl(m)
	region := a[2]
	want := canon(m)
	if f == model.E164 {
		want.Ext = ""
	}
	s := pn.Format(n, pn.PhoneNumberFormat(f))
	back, err := pn.Parse(s, region)
	if err == nil && fromImpl(back) == want {
		return nil
	}
	// A rendering that is ambiguous in the plan itself is no fault of the code.
	if ambiguous(m, f, region) {
		ms := w.Format(m, f)
		if mm, merr := w.Parse(ms, region, false); ms == s && (merr != nil || canon(mm) != want) {
			if modelErrName(merr) == errName(err) && (err != nil || fromImpl(back) == canon(mm)) {
				return nil
			}
		}
	}
	if err != nil {
		return diff("Parse("+strconv.Quote(s)+", "+region+")", err.Error(), m)
	}
	return diff("Parse("+strconv.Quote(s)+", "+region+")", fromImpl(back), want)
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C03",
		Rule:        "every valid number among the product-automaton transition cover of each calling code and its ten-digit neighbourhoods x E164, INTERNATIONAL, RFC3966 (parsed without region and in a foreign one) and NATIONAL (parsed in its region) x extensions of 1 to 20 digits",
		Assumptions: []string{"model/ decides which numbers are valid (that the library agrees is C05)", "renderings whose digits also begin with the reading region's IDD, national prefix or calling code are excused only when the plan itself is ambiguous"},
		Init:        initSpaces,
		Oracles:     map[string]explore.Oracle{"roundTrip": roundTripOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			try := func(k *explore.Worker, cc int, nsn string, exts []string) bool {
				if len(nsn) > 17 {
					return true
				}
				m := numOf(cc, nsn)
				if !w.Valid(m) {
					return true
				}
				reg := w.RegionOf(m)
				for _, e := range exts {
					m.Ext = e
					x := enc(m)
					if e == "" && (!k.Do("roundTrip", x, "0", "") || !k.Do("roundTrip", x, "0", "US")) {
						return false
					}
					if !k.Do("roundTrip", x, "3", "ZZ") {
						return false
					}
					if len(e) <= 9 {
						k.Do("roundTrip", x, "1", "")
						k.Do("roundTrip", x, "1", "FR")
						if reg != "001" {
							k.Do("roundTrip", x, "2", reg)
						}
					}
				}
				return true
			}
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				for _, nsn := range spaces[u].nsns {
					if !try(k, spaces[u].cc, nsn, []string{"", "5", "007"}) {
						return
					}
				}
			})
			c.Par("neighbours", len(spaces), func(k *explore.Worker, u int) {
				for _, nsn := range spaces[u].nsns {
					for d := byte('0'); d <= '9'; d++ {
						if !try(k, spaces[u].cc, nsn+string(d), []string{""}) {
							return
						}
						if c.Thorough || len(spaces[u].nsns) < 3000 {
							for i := 0; i < len(nsn); i++ {
								try(k, spaces[u].cc, nsn[:i]+string(d)+nsn[i+1:], []string{""})
							}
						}
					}
				}
			})
			c.Par("extensions", len(spaces), func(k *explore.Worker, u int) {
				var exts []string
				for n := 1; n <= 20; n++ {
					b := make([]byte, n)
					z := make([]byte, n)
					for i := range b {
						b[i] = byte('1' + i%9)
						z[i] = '0'
					}
					exts = append(exts, string(b), string(z))
				}
				for _, nsn := range spaces[u].reps {
					if !try(k, spaces[u].cc, nsn, exts) {
						return
					}
				}
			})
		},
	})
}

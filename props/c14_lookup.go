package props

import (
	"slices"
	"sort"
	"strconv"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

type lookup struct {
	name string
	call func() (string, error)
	want string
}

func carrierOracle(a []string) error {
	m, lang := dec(a[0]), a[1]
	n := toImpl(m)
	for _, l := range []lookup{
		{"carrier.GetNameForValidNumber", func() (string, error) { return carrier.GetNameForValidNumber(n, lang) }, w.CarrierValid(m, lang)},
		{"carrier.GetNameForNumber", func() (string, error) { return carrier.GetNameForNumber(n, lang) }, w.CarrierName(m, lang)},
		{"carrier.GetSafeDisplayName", func() (string, error) { return carrier.GetSafeDisplayName(n, lang) }, w.CarrierSafe(m, lang)},
	} {
		g, err := l.call()
		if err != nil {
			return diff(l.name, err.Error(), l.want)
		}
		if g != l.want {
			return diff(l.name, g, l.want)
		}
	}
	return nil
}

func geoOracle(a []string) error {
	m, lang := dec(a[0]), a[1]
	n := toImpl(m)
	for _, l := range []lookup{
		{"geocoding.GetDescriptionForValidNumber", func() (string, error) { return geocoding.GetDescriptionForValidNumber(n, lang) }, w.GeoValid(m, lang)},
		{"geocoding.GetDescriptionForNumber", func() (string, error) { return geocoding.GetDescriptionForNumber(n, lang) }, w.GeoNumber(m, lang)},
	} {
		g, err := l.call()
		if err != nil {
			return diff(l.name, err.Error(), l.want)
		}
		if g != l.want {
			return diff(l.name, g, l.want)
		}
	}
	return nil
}

func geoUserOracle(a []string) error {
	m, lang, user := dec(a[0]), a[1], a[2]
	n := toImpl(m)
	for _, l := range []lookup{
		{"geocoding.GetDescriptionForValidNumberForUserRegion", func() (string, error) {
			return geocoding.GetDescriptionForValidNumberForUserRegion(n, lang, user)
		}, w.GeoValidFor(m, lang, user)},
		{"geocoding.GetDescriptionForNumberForUserRegion", func() (string, error) {
			return geocoding.GetDescriptionForNumberForUserRegion(n, lang, user)
		}, w.GeoNumberFor(m, lang, user)},
	} {
		g, err := l.call()
		if err != nil {
			return diff(l.name, err.Error(), l.want)
		}
		if g != l.want {
			return diff(l.name, g, l.want)
		}
	}
	return nil
}

// zonesOracle asks for time zones twice.
func zonesOracle(a []string) error { return zones(a, false) }

// spoiledOracle overwrites every answer (and the room behind it) before asking
// again; it is only used sequentially.
func spoiledOracle(a []string) error { return zones(a, true) }

func zones(a []string, spoil bool) error {
	m := dec(a[0])
	n := toImpl(m)
	for i := 0; i < 2; i++ {
		for _, l := range []struct {
			name string
			call func(*pn.PhoneNumber) ([]string, error)
			want []string
		}{
			{"timezone.GetTimeZonesForNumber", timezone.GetTimeZonesForNumber, w.TZNumber(m)},
			{"timezone.GetTimeZonesForGeographicalNumber", timezone.GetTimeZonesForGeographicalNumber, w.TZGeo(m)},
		} {
			g, err := l.call(n)
			if err != nil {
				return diff(l.name, err.Error(), l.want)
			}
			if !slices.Equal(g, l.want) || len(g) == 0 {
				return diff(l.name, g, l.want)
			}
			if spoil {
				full := g[:cap(g)]
				for i := range full {
					full[i] = "spoiled"
				}
			}
		}
	}
	return nil
}

// prefixNumber splits a table prefix into calling code and start of the NSN.
func prefixNumber(prefix string) (int, string, bool) {
	cc, rest := w.SplitCC(prefix)
	if cc == 0 {
		return 0, "", false
	}
	return cc, rest, true
}

func langsOf(m map[string]map[string]string) []string {
	var out []string
	for l := range m {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

func sortedKeys(m map[string]string) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var fillers = []string{"", "0", "9", "5550123", "12345678"}

// completions of a prefix: as is, with fillers, and - when the plan has one -
// with the shortest suffix that makes the number valid.
func completions(cc int, nsn string, thorough bool) []string {
	var out []string
	for _, f := range fillers {
		if len(nsn+f) < 17 && len(nsn+f) > 0 {
			out = append(out, nsn+f)
		}
	}
	for _, d := range []string{"0", "1", "2", "5"} {
		t := nsn
		for len(t) < 13 {
			t += d
			if w.Type(numOf(cc, t)) != model.Unknown {
				out = append(out, t)
				break
			}
		}
	}
	return out
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C14",
		Rule:        "every entry of every carrier and geocoding table (all languages) x completions of the prefix (bare, fillers, valid completions), each also with its last digit removed and replaced by all ten digits, looked up in its own and other languages; class representatives of every calling code x all languages x user regions; unknown and malformed languages",
		Assumptions: []string{"the table files are decoded by an independent decoder", "golang.org/x/text display names are the documented country names"},
		Init:        func() { initSpaces(); initLookups() },
		Oracles:     map[string]explore.Oracle{"carrier": carrierOracle, "geo": geoOracle, "geoUser": geoUserOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			table := func(name string, tabs map[string]map[string]string, oracle string) {
				langs := langsOf(tabs)
				const chunks = 64
				c.Par(name, len(langs)*chunks, func(k *explore.Worker, u int) {
					lang := langs[u/chunks]
					keys := sortedKeys(tabs[lang])
					for i := u % chunks; i < len(keys); i += chunks {
						cc, nsn, ok := prefixNumber(keys[i])
						if !ok {
							continue
						}
						full := len(keys) < 20000 || c.Thorough
						for j, t := range completions(cc, nsn, c.Thorough) {
							if !full && j > 1 && j < 4 {
								continue
							}
							if !k.Do(oracle, enc(numOf(cc, t)), lang) {
								return
							}
						}
						if nsn == "" {
							continue
						}
						k.Do(oracle, enc(numOf(cc, nsn[:len(nsn)-1])), lang)
						for d := byte('0'); d <= '9'; d++ {
							k.Do(oracle, enc(numOf(cc, nsn[:len(nsn)-1]+string(d)+"5550123")), lang)
						}
						if i%16 == 0 || c.Thorough {
							for _, l := range []string{"en", "zh", "xx", ""} {
								k.Do(oracle, enc(numOf(cc, nsn+"5550123")), l)
							}
						}
					}
				})
			}
			table("carrier entries", w.Carrier, "carrier")
			table("geocoding entries", w.Geo, "geo")
			odd := []string{"", "xx", "EN", "en_US", "en-US", "zh-TW", "zh-Hant", "zh_TW", "../data/en", "en.txt", "\xff", "a/b", "/", "..", "english", "e", "001", "und", "aa", "grc", "la", "x-foo", "mul", "root", "und-US", "sgn", "i-klingon", "tlh"}
			all := append(append(langsOf(w.Carrier), langsOf(w.Geo)...), odd...)
			c.Par("languages", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.reps {
					if i > 25 && !c.Thorough {
						break
					}
					e := enc(numOf(s.cc, nsn))
					for _, l := range all {
						if !k.Do("carrier", e, l) || !k.Do("geo", e, l) {
							return
						}
					}
					for _, l := range []string{"en", "de", "zh", "xx", ""} {
						for _, r := range append([]string{"US", "GB", "", "ZZ", "001", "us", w.RegionOf(numOf(s.cc, nsn))}, s.reg...) {
							if !k.Do("geoUser", e, l, r) {
								return
							}
						}
					}
				}
			})
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.nsns {
					e := enc(numOf(s.cc, nsn))
					r := w.RegionOf(numOf(s.cc, nsn))
					if !k.Do("carrier", e, "en") || !k.Do("geo", e, "en") || !k.Do("geoUser", e, "en", r) {
						return
					}
					k.Do("geoUser", e, "en", "FR")
				}
			})
		},
	})
	explore.Register(&explore.Property{
		ID:          "C15",
		Rule:        "every prefix of the time-zone table x completions, its shortenings and all ten last digits; every product-automaton transition of each calling code; numbers outside every plan; answers overwritten by the caller between lookups",
		Assumptions: []string{"the table file is decoded by an independent decoder"},
		Init:        func() { initSpaces(); initLookups() },
		Oracles:     map[string]explore.Oracle{"zones": zonesOracle, "spoiled": spoiledOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			var keys []int
			for k := range w.TZ {
				keys = append(keys, k)
			}
			sort.Ints(keys)
			c.Par("prefixes", len(keys), func(k *explore.Worker, u int) {
				p := strconv.Itoa(keys[u])
				cc, nsn, ok := prefixNumber(p)
				if !ok {
					return
				}
				for _, t := range completions(cc, nsn, true) {
					if !k.Do("zones", enc(numOf(cc, t))) {
						return
					}
				}
				for i := 1; i < len(nsn); i++ {
					k.Do("zones", enc(numOf(cc, nsn[:i])))
				}
				for i := 0; i < len(nsn); i++ {
					for d := byte('0'); d <= '9'; d++ {
						k.Do("zones", enc(numOf(cc, nsn[:i]+string(d)+nsn[i+1:]+"5550")))
					}
				}
				for d := byte('0'); d <= '9'; d++ {
					for _, t := range completions(cc, nsn+string(d), true) {
						k.Do("zones", enc(numOf(cc, t)))
					}
				}
			})
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.nsns {
					if !k.Do("zones", enc(numOf(s.cc, nsn))) {
						return
					}
				}
			})
			c.Seq("codes", func(k *explore.Worker) {
				for cc := 1; cc <= 1100; cc++ {
					for _, nsn := range []string{"0", "1", "00", "012345678", "2345678", "8001234567"} {
						k.Do("zones", enc(numOf(cc, nsn)))
					}
				}
				for _, m := range oddNumbers() {
					if m.CC > 0 && m.NLZ <= 1000 && m.NLZ >= 0 {
						k.Do("zones", enc(m))
					}
				}
			})
			c.Seq("spoiled answers", func(k *explore.Worker) {
				for _, key := range keys {
					cc, nsn, ok := prefixNumber(strconv.Itoa(key))
					if !ok {
						continue
					}
					for _, t := range completions(cc, nsn, true) {
						if !k.Do("spoiled", enc(numOf(cc, t))) {
							return
						}
					}
				}
			})
		},
	})
}

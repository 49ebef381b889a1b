package props

import (
	"math"
	"slices"
	"strconv"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
	"google.golang.org/protobuf/proto"
)

// oddNumbers are numbers outside any plan that a caller can build.
func oddNumbers() []model.Num {
	var out []model.Num
	for _, cc := range []int{0, 1, 7, 39, 44, 49, 54, 52, 55, 86, 225, 378, 800, 979, 999, 1000, -1, 20000} {
		for _, nn := range []uint64{0, 1, 11, 123, 6502530000, 99999999999999999, 123456789012345678, math.MaxUint64} {
			for _, z := range []int{-2, -1, 0, 1, 2, 3, 16, 17, 18, 1000, math.MaxInt32} {
				n := model.Num{CC: cc, NN: nn}
				if z != -2 {
					n.ILZ, n.NLZ = true, z
				}
				out = append(out, n)
			}
		}
	}
	return out
}

// decorated are a number with the fields set that do not make the number.
func decorated(n model.Num) []model.Num {
	var out []model.Num
	for _, ext := range []string{"", "0", "5", "12", "12345678901234567890"} {
		for _, raw := range []string{"", "raw 1 x2"} {
			for _, src := range []int{0, 1, 20} {
				for _, car := range []string{"", "15"} {
					m := n
					m.Ext, m.Raw, m.Src, m.Carrier = ext, raw, src, car
					out = append(out, m)
				}
			}
		}
	}
	return out
}

// otherRegions are default regions besides a number's own.
var otherRegions = []string{"", "ZZ", "001", "us", "US", "GB", "IT", "BR", "MX", "AQ", "\xff"}

func allRegions() []string {
	return append(w.RegionList(), "", "ZZ", "001", "us", "AQ", "USA", "\xff")
}

// ---- C05 ----

func classifyOracle(a []string) error {
	m := dec(a[0])
	n := toImpl(m)
	wt, wr, wv := w.Type(m), w.RegionOf(m), w.Valid(m)
	if g := int(pn.GetNumberType(n)); g != wt {
		return diff("GetNumberType", g, wt)
	}
	if g := pn.GetRegionCodeForNumber(n); g != wr {
		return diff("GetRegionCodeForNumber", g, wr)
	}
	if g := pn.IsValidNumber(n); g != wv {
		return diff("IsValidNumber", g, wv)
	}
	if g, x := pn.IsNumberGeographical(n), model.Geographical(wt, m.CC); g != x {
		return diff("IsNumberGeographical", g, x)
	}
	if g, x := pn.CanBeInternationallyDialled(n), w.InternationallyDiallable(m); g != x {
		return diff("CanBeInternationallyDialled", g, x)
	}
	if wv && wt == model.Unknown {
		return diff("coherence of valid and type", "valid, unknown type", "valid numbers have a type")
	}
	if fromImpl(n) != canon(m) {
		return diff("argument after the calls", fromImpl(n), canon(m))
	}
	return nil
}

func validForOracle(a []string) error {
	m := dec(a[0])
	if g, x := pn.IsValidNumberForRegion(toImpl(m), a[1]), w.ValidFor(m, a[1]); g != x {
		return diff("IsValidNumberForRegion", g, x)
	}
	return nil
}

func geoTypeOracle(a []string) error {
	t, _ := strconv.Atoi(a[0])
	cc, _ := strconv.Atoi(a[1])
	if g, x := pn.IsNumberGeographicalForType(pn.PhoneNumberType(t), cc), model.Geographical(t, cc); g != x {
		return diff("IsNumberGeographicalForType", g, x)
	}
	return nil
}

// ---- C06 ----

func possibleOracle(a []string) error {
	m := dec(a[0])
	n := toImpl(m)
	for t := -1; t <= 13; t++ {
		want := w.PossibleReason(m, t)
		if g := int(pn.IsPossibleNumberForTypeWithReason(n, pn.PhoneNumberType(t))); g != want {
			return diff("IsPossibleNumberForTypeWithReason, type "+strconv.Itoa(t), g, want)
		}
		ok := want == model.Possible || want == model.LocalOnly
		if g := pn.IsPossibleNumberForType(n, pn.PhoneNumberType(t)); g != ok {
			return diff("IsPossibleNumberForType, type "+strconv.Itoa(t), g, ok)
		}
	}
	want := w.PossibleReason(m, model.Unknown)
	if g := int(pn.IsPossibleNumberWithReason(n)); g != want {
		return diff("IsPossibleNumberWithReason", g, want)
	}
	ok := want == model.Possible || want == model.LocalOnly
	if g := pn.IsPossibleNumber(n); g != ok {
		return diff("IsPossibleNumber", g, ok)
	}
	if !swapped && pn.IsValidNumber(n) && !ok {
		return diff("verdict on a valid number", want, "possible")
	}
	return nil
}

func possibleStringOracle(a []string) error {
	m, err := w.Parse(a[0], a[1], false)
	want := false
	if err == nil {
		r := w.PossibleReason(m, model.Unknown)
		want = r == model.Possible || r == model.LocalOnly
	}
	if g := pn.IsPossibleNumberFromRegion(a[0], a[1]); g != want {
		return diff("IsPossibleNumberFromRegion", g, want)
	}
	return nil
}

// ---- C04 ----

func formatOracle(a []string) error {
	m := dec(a[0])
	n := toImpl(m)
	for f := 0; f <= 3; f++ {
		if g, x := pn.Format(n, pn.PhoneNumberFormat(f)), w.Format(m, f); g != x {
			return diff("Format "+strconv.Itoa(f), g, x)
		}
	}
	if fromImpl(n) != canon(m) {
		return diff("argument after Format", fromImpl(n), canon(m))
	}
	return nil
}

type userRules struct {
	name  string
	rules []*model.Fmt
	impl  []*pn.NumberFormat
}

func mkRules(name string, rs ...*model.Fmt) *userRules {
	u := &userRules{name: name}
	for _, r := range rs {
		u.rules = append(u.rules, r.Compile())
		f := &pn.NumberFormat{Pattern: proto.String(r.Pattern), Format: proto.String(r.Format), LeadingDigitsPattern: r.Leading}
		if r.NPRule != "" {
			f.NationalPrefixFormattingRule = proto.String(r.NPRule)
		}
		if r.NPOptional {
			f.NationalPrefixOptionalWhenFormatting = proto.Bool(true)
		}
		if r.CCRule != "" {
			f.DomesticCarrierCodeFormattingRule = proto.String(r.CCRule)
		}
		u.impl = append(u.impl, f)
	}
	return u
}

var ruleSets = []*userRules{
	mkRules("none"),
	mkRules("us", &model.Fmt{Pattern: `(\d{3})(\d{3})(\d{4})`, Format: "($1) $2-$3"}),
	mkRules("np", &model.Fmt{Pattern: `(\d{3})(\d{3})(\d{4})`, Format: "$1 $2-$3", NPRule: "$NP ($FG)"}),
	mkRules("np2", &model.Fmt{Pattern: `(\d{2,5})(\d{3})(\d+)`, Format: "$1-$2/$3", NPRule: "$NP-$FG"}),
	mkRules("fg", &model.Fmt{Pattern: `(\d{2,4})(\d{3,})`, Format: "$1 $2", NPRule: "($FG)"}),
	mkRules("whole", &model.Fmt{Pattern: `(\d+)`, Format: "$1", NPRule: "$NP$FG"}),
	mkRules("letters", &model.Fmt{Pattern: `(\d{3})(\d{3})(\d+)`, Format: "$1x$2a$3_"}),
	mkRules("digits", &model.Fmt{Pattern: `(\d{3})(\d{3})(\d+)`, Format: "$10$25$3"}),
	mkRules("reorder", &model.Fmt{Pattern: `(\d)(\d{2})(\d+)`, Format: "$2 15-$3 $1"}),
	mkRules("lead", &model.Fmt{Pattern: `(\d{3})(\d+)`, Format: "A $1 $2", Leading: []string{"6", "65"}},
		&model.Fmt{Pattern: `(\d{2})(\d{4,})`, Format: "$1~$2", Leading: []string{"[2-9]"}, NPRule: "0$1"},
		&model.Fmt{Pattern: `(\d{4})(\d*)`, Format: "$1.$2"}),
	mkRules("wide", &model.Fmt{Pattern: `(\d{3})(\d{3})(\d+)`, Format: "$1\uFF0D$2\u00A0$3"}),
}

func byPatternOracle(a []string) error {
	m := dec(a[0])
	n := toImpl(m)
	for _, u := range ruleSets {
		if u.name != a[1] {
			continue
		}
		for f := 0; f <= 3; f++ {
			if g, x := pn.FormatByPattern(n, pn.PhoneNumberFormat(f), u.impl), w.FormatByPattern(m, f, u.rules); g != x {
				return diff("FormatByPattern "+strconv.Itoa(f), g, x)
			}
		}
		for i, r := range u.rules {
			if u.impl[i].GetFormat() != r.Format || u.impl[i].GetNationalPrefixFormattingRule() != r.NPRule || u.impl[i].GetPattern() != r.Pattern {
				return diff("the caller's rule after the call", u.impl[i].String(), r)
			}
		}
	}
	return nil
}

// ---- C18 ----

func dialOracle(a []string) error {
	m := dec(a[0])
	n := toImpl(m)
	from := a[1]
	if g, x := pn.FormatOutOfCountryCallingNumber(n, from), w.OutOfCountry(m, from); g != x {
		return diff("FormatOutOfCountryCallingNumber", g, x)
	}
	for _, f := range []bool{false, true} {
		if g, x := pn.FormatNumberForMobileDialing(n, from, f), w.MobileDialing(m, from, f); g != x {
			return diff("FormatNumberForMobileDialing", g, x)
		}
	}
	if fromImpl(n) != canon(m) {
		return diff("argument after the calls", fromImpl(n), canon(m))
	}
	return nil
}

func carrierFormatOracle(a []string) error {
	m := dec(a[0])
	n := toImpl(m)
	if g, x := pn.FormatNationalNumberWithCarrierCode(n, a[1]), w.FormatWithCarrier(m, a[1]); g != x {
		return diff("FormatNationalNumberWithCarrierCode", g, x)
	}
	if g, x := pn.FormatNationalNumberWithPreferredCarrierCode(n, a[1]), w.FormatWithPreferredCarrier(m, a[1]); g != x {
		return diff("FormatNationalNumberWithPreferredCarrierCode", g, x)
	}
	return nil
}

// ---- C24 ----

func anatomyOracle(a []string) error {
	m := dec(a[0])
	n := toImpl(m)
	if g, x := pn.GetNationalSignificantNumber(n), m.NSN(); g != x {
		return diff("GetNationalSignificantNumber", g, x)
	}
	if g, x := pn.GetLengthOfGeographicalAreaCode(n), w.AreaCodeLength(m); g != x {
		return diff("GetLengthOfGeographicalAreaCode", g, x)
	}
	if g, x := pn.GetLengthOfNationalDestinationCode(n), w.NDCLength(m); g != x {
		return diff("GetLengthOfNationalDestinationCode", g, x)
	}
	if fromImpl(n) != canon(m) {
		return diff("argument after the calls", fromImpl(n), canon(m))
	}
	want, ok := w.Truncate(m)
	if g := pn.TruncateTooLongNumber(n); g != ok {
		return diff("TruncateTooLongNumber", g, ok)
	}
	if g := fromImpl(n); g != canon(want) {
		return diff("number after TruncateTooLongNumber", g, canon(want))
	}
	return nil
}

func ccOracle(a []string) error {
	cc, _ := strconv.Atoi(a[0])
	if g, x := pn.GetCountryMobileToken(cc), model.MobileToken(cc); g != x {
		return diff("GetCountryMobileToken", g, x)
	}
	if g, x := pn.GetRegionCodeForCountryCode(cc), w.RegionForCC(cc); g != x {
		return diff("GetRegionCodeForCountryCode", g, x)
	}
	if g, x := pn.GetRegionCodesForCountryCode(cc), w.CCRegions[cc]; !slices.Equal(g, x) {
		return diff("GetRegionCodesForCountryCode", g, x)
	}
	_, known := w.CCRegions[cc]
	if g := pn.GetSupportedCallingCodes()[cc]; g != known {
		return diff("GetSupportedCallingCodes", g, known)
	}
	ng := known && w.CCRegions[cc][0] == "001"
	if g := pn.GetSupportedGlobalNetworkCallingCodes()[cc]; g != ng {
		return diff("GetSupportedGlobalNetworkCallingCodes", g, ng)
	}
	if len(pn.GetSupportedCallingCodes()) != len(w.CCRegions) {
		return diff("number of calling codes", len(pn.GetSupportedCallingCodes()), len(w.CCRegions))
	}
	p := w.NonGeo[cc]
	if err := sameTypes("GetSupportedTypesForNonGeoEntity", pn.GetSupportedTypesForNonGeoEntity(cc), p); err != nil {
		return err
	}
	ex := pn.GetExampleNumberForNonGeoEntity(cc)
	if p == nil {
		if ex != nil {
			return diff("GetExampleNumberForNonGeoEntity", fromImpl(ex), nil)
		}
		return nil
	}
	want := ""
	for _, d := range []*model.Desc{&p.Mobile, &p.TollFree, &p.Shared, &p.Voip, &p.Voicemail, &p.UAN, &p.Premium} {
		if d.Example != "" {
			want = d.Example
			break
		}
	}
	if want == "" {
		if ex != nil {
			return diff("GetExampleNumberForNonGeoEntity", fromImpl(ex), nil)
		}
		return nil
	}
	if swapped {
		x, err := w.Parse("+"+strconv.Itoa(cc)+want, "ZZ", false)
		if (ex == nil) != (err != nil) || ex != nil && fromImpl(ex) != canon(x) {
			return diff("GetExampleNumberForNonGeoEntity", ex.String(), want)
		}
		return nil
	}
	if ex == nil || fromImpl(ex) != canon(numOf(cc, want)) {
		return diff("GetExampleNumberForNonGeoEntity", ex.String(), want)
	}
	if !swapped && !w.Valid(fromImpl(ex)) {
		return diff("example number validity", fromImpl(ex), "valid")
	}
	return nil
}

func sameTypes(what string, got map[pn.PhoneNumberType]bool, p *model.Plan) error {
	want := map[int]bool{}
	if p != nil {
		for t := 0; t < model.Unknown; t++ {
			if t != model.FixedOrMobile && p.TypeDesc(t).HasData() {
				want[t] = true
			}
		}
	}
	for t := -1; t <= 13; t++ {
		if got[pn.PhoneNumberType(t)] != want[t] {
			return diff(what+" type "+strconv.Itoa(t), got[pn.PhoneNumberType(t)], want[t])
		}
	}
	return nil
}

func regionOracle(a []string) error {
	r := a[0]
	p := w.Region(r)
	cc := 0
	if p != nil {
		cc = p.CC
	}
	if g := pn.GetCountryCodeForRegion(r); g != cc {
		return diff("GetCountryCodeForRegion", g, cc)
	}
	if g := pn.GetSupportedRegions()[r]; g != (p != nil) {
		return diff("GetSupportedRegions", g, p != nil)
	}
	if g, x := len(pn.GetSupportedRegions()), len(w.Supported); g != x {
		return diff("number of regions", g, x)
	}
	for _, strip := range []bool{false, true} {
		if g, x := pn.GetNddPrefixForRegion(r, strip), w.NDD(r, strip); g != x {
			return diff("GetNddPrefixForRegion", g, x)
		}
	}
	if g, x := pn.IsNANPACountry(r), w.IsNANPA(r); g != x {
		return diff("IsNANPACountry", g, x)
	}
	if g, x := pn.IsMobileNumberPortableRegion(r), p != nil && p.Portable; g != x {
		return diff("IsMobileNumberPortableRegion", g, x)
	}
	if err := sameTypes("GetSupportedTypesForRegion", pn.GetSupportedTypesForRegion(r), p); err != nil {
		return err
	}
	for t := -1; t <= 13; t++ {
		ex := pn.GetExampleNumberForTypeInRegion(r, pn.PhoneNumberType(t))
		want := ""
		if p != nil {
			want = p.TypeDesc(t).Example
		}
		if swapped && want != "" {
			// data that was moved about need not have usable examples
			x, err := w.Parse(want, r, false)
			if (ex == nil) != (err != nil) || ex != nil && fromImpl(ex) != canon(x) {
				return diff("GetExampleNumberForTypeInRegion "+strconv.Itoa(t), ex.String(), want)
			}
			continue
		}
		if (ex == nil) != (want == "") {
			return diff("GetExampleNumberForTypeInRegion "+strconv.Itoa(t), ex.String(), want)
		}
		if ex == nil {
			continue
		}
		m := fromImpl(ex)
		if m != canon(numOf(cc, want)) {
			return diff("GetExampleNumberForTypeInRegion "+strconv.Itoa(t), m, want)
		}
		if t >= 0 && t < model.Unknown && !swapped {
			ty := p.TypeIn(m.NSN())
			same := ty == t || ty == model.FixedOrMobile && (t == model.FixedLine || t == model.Mobile) || t == model.FixedOrMobile && ty == model.FixedLine
			if !pn.IsValidNumberForRegion(ex, r) || !same {
				return diff("example number of type "+strconv.Itoa(t), ty, t)
			}
		}
	}
	g := pn.GetExampleNumber(r)
	f := pn.GetExampleNumberForTypeInRegion(r, pn.FIXED_LINE)
	if !proto.Equal(g, f) {
		return diff("GetExampleNumber", g.String(), f.String())
	}
	inv := pn.GetInvalidExampleNumber(r)
	if swapped {
		// data that was moved about need not have usable examples
		var want *model.Num
		if p != nil && p.Fixed.Example != "" {
			want = invalidExample(p, r)
		}
		if (inv == nil) != (want == nil) || inv != nil && fromImpl(inv) != canon(*want) {
			return diff("GetInvalidExampleNumber", inv.String(), want)
		}
		return nil
	}
	if (inv == nil) != (p == nil) {
		return diff("GetInvalidExampleNumber", inv.String(), p != nil)
	}
	if inv != nil {
		if int(inv.GetCountryCode()) != cc || w.Valid(fromImpl(inv)) || pn.IsValidNumber(inv) {
			return diff("GetInvalidExampleNumber", fromImpl(inv), "an invalid number of the region")
		}
		want := invalidExample(p, r)
		if want == nil || fromImpl(inv) != canon(*want) {
			return diff("GetInvalidExampleNumber", fromImpl(inv), want)
		}
	}
	return nil
}

func invalidExample(p *model.Plan, r string) *model.Num {
	ex := p.Fixed.Example
	for n := len(ex) - 1; n >= 2; n-- {
		m, err := w.Parse(ex[:n], r, false)
		if err == nil && !w.Valid(m) {
			return &m
		}
	}
	return nil
}

func exampleTypeOracle(a []string) error {
	t, _ := strconv.Atoi(a[0])
	any := false
	for _, p := range w.Regions {
		any = any || p.TypeDesc(t).Example != ""
	}
	for _, p := range w.NonGeo {
		any = any || p.TypeDesc(t).Example != ""
	}
	for i := 0; i < 20; i++ {
		ex := pn.GetExampleNumberForType(pn.PhoneNumberType(t))
		if (ex != nil) != any {
			return diff("GetExampleNumberForType", ex.String(), any)
		}
		if ex == nil {
			continue
		}
		m := fromImpl(ex)
		found := false
		for _, p := range plansOf(m.CC) {
			if x, err := w.Parse(p.TypeDesc(t).Example, p.ID, false); swapped && err == nil && canon(x) == m {
				found = true
			}
			found = found || p.TypeDesc(t).Example == m.NSN()
		}
		if !found || !swapped && !pn.IsValidNumber(ex) {
			return diff("GetExampleNumberForType", m, "a valid example of the type")
		}
	}
	return nil
}

// ---- spaces ----

func withZeros(s string, f func(string) bool) bool {
	return f(s)
}

func init() {
	plan := "every state and transition of the product automaton of all patterns, formatting rules and prefixes of each of the 216 calling codes (one digit string per transition, up to 18 digits)"
	trust := []string{"model/ states the intended semantics of the plan", "digit strings that reach the same product-automaton state are indistinguishable to the metadata"}
	explore.Register(&explore.Property{
		ID: "C05", Rule: plan + " x own, sibling and foreign regions; class representatives x all regions; numbers outside every plan",
		Assumptions: trust, Init: initSpaces,
		Oracles: map[string]explore.Oracle{"classify": classifyOracle, "validFor": validForOracle, "geoType": geoTypeOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			reg := allRegions()
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.nsns {
					e := enc(numOf(s.cc, nsn))
					if !k.Do("classify", e) {
						return
					}
					for _, r := range s.reg {
						k.Do("validFor", e, r)
					}
					for _, r := range otherRegions {
						k.Do("validFor", e, r)
					}
				}
			})
			// the whole neighbourhood of every transition: each of the ten digits
			c.Par("digits", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.nsns {
					if len(nsn) > 12 {
						continue
					}
					for d := byte('0'); d <= '9'; d++ {
						if !k.Do("classify", enc(numOf(s.cc, nsn+string(d)))) {
							return
						}
						if c.Thorough {
							for i := 0; i < len(nsn); i++ {
								k.Do("classify", enc(numOf(s.cc, nsn[:i]+string(d)+nsn[i+1:])))
							}
						}
					}
				}
			})
			c.Par("regions", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.reps {
					for _, r := range reg {
						if !k.Do("validFor", enc(numOf(s.cc, nsn)), r) {
							return
						}
					}
					for _, n := range decorated(numOf(s.cc, nsn)) {
						k.Do("classify", enc(n))
						k.Do("validFor", enc(n), s.reg[0])
					}
					// the same digits under other calling codes
					for _, t := range spaces {
						if !k.Do("classify", enc(numOf(t.cc, nsn))) {
							return
						}
					}
				}
			})
			c.Seq("odd", func(k *explore.Worker) {
				for _, n := range oddNumbers() {
					k.Do("classify", enc(n))
					for _, r := range append(otherRegions, "AR", "DE") {
						k.Do("validFor", enc(n), r)
					}
				}
				for t := -1; t <= 13; t++ {
					for cc := -1; cc <= 1001; cc++ {
						k.Do("geoType", strconv.Itoa(t), strconv.Itoa(cc))
					}
				}
			})
		},
	})
	explore.Register(&explore.Property{
		ID: "C06", Rule: "all calling codes 0..1001 x national numbers of every length 1..20 with 0..3 leading zeros x all types; every product-automaton transition x all types; written forms x regions for the string-based check",
		Assumptions: trust, Init: initSpaces,
		Oracles: map[string]explore.Oracle{"possible": possibleOracle, "possibleString": possibleStringOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			c.Par("lengths", 1003, func(k *explore.Worker, u int) {
				cc := u - 1
				if w.Main(cc) == nil && u%50 != 0 {
					k.Do("possible", enc(numOf(cc, "6502530000")))
					return
				}
				for n := 1; n <= 19; n++ {
					for _, d := range "129" {
						for z := 0; z <= 3; z++ {
							k.Do("possible", enc(numOf(cc, strings.Repeat("0", z)+strings.Repeat(string(d), n))))
						}
					}
				}
			})
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.nsns {
					if !k.Do("possible", enc(numOf(s.cc, nsn))) {
						return
					}
					for d := byte('0'); d <= '9'; d++ {
						k.Do("possible", enc(numOf(s.cc, nsn+string(d))))
					}
				}
				for _, nsn := range s.reps {
					for _, n := range decorated(numOf(s.cc, nsn)) {
						k.Do("possible", enc(n))
					}
				}
			})
			c.Par("strings", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				cc := strconv.Itoa(s.cc)
				for i, nsn := range s.nsns {
					k.Do("possibleString", "+"+cc+nsn, "ZZ")
					if i%2 == 0 || c.Thorough {
						for _, r := range append([]string{"ZZ", "GB", "US"}, s.reg...) {
							k.Do("possibleString", nsn, r)
							k.Do("possibleString", "+"+cc+" "+styled(nsn, "-")+" x1", r)
							k.Do("possibleString", "abc"+nsn, r)
						}
					}
				}
			})
			c.Seq("odd", func(k *explore.Worker) {
				for _, n := range oddNumbers() {
					k.Do("possible", enc(n))
				}
			})
		},
	})
	explore.Register(&explore.Property{
		ID: "C04", Rule: plan + " x 4 formats x extensions x custom rule sets",
		Assumptions: trust, Init: initSpaces,
		Oracles: map[string]explore.Oracle{"format": formatOracle, "byPattern": byPatternOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.nsns {
					n := numOf(s.cc, nsn)
					if !k.Do("format", enc(n)) {
						return
					}
					n.Ext = "1234"
					k.Do("format", enc(n))
					for _, rs := range ruleSets {
						if len(nsn) >= 3 {
							k.Do("byPattern", enc(n), rs.name)
						}
					}
				}
			})
			c.Par("digits", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.nsns {
					for d := byte('0'); d <= '9'; d++ {
						if len(nsn) <= 14 && !k.Do("format", enc(numOf(s.cc, nsn+string(d)))) {
							return
						}
					}
				}
			})
			c.Par("classes", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.reps {
					for _, ext := range []string{"", "0", "007", "12345678901234567890", "\uFF11", "x"} {
						for _, raw := range []string{"", "abc", "0"} {
							for _, src := range []int{0, 1, 5, 10, 20} {
								n := numOf(s.cc, nsn)
								n.Ext, n.Raw, n.Src = ext, raw, src
								k.Do("format", enc(n))
								if src == 0 {
									n.Carrier = "15"
									k.Do("format", enc(n))
									for _, rs := range ruleSets {
										k.Do("byPattern", enc(n), rs.name)
									}
								}
							}
						}
					}
				}
			})
			c.Seq("odd", func(k *explore.Worker) {
				for _, n := range oddNumbers() {
					for _, raw := range []string{"", "raw 1"} {
						for _, ext := range []string{"", "3"} {
							n.Raw, n.Ext = raw, ext
							k.Do("format", enc(n))
							for _, rs := range ruleSets {
								k.Do("byPattern", enc(n), rs.name)
							}
						}
					}
				}
			})
		},
	})
	explore.Register(&explore.Property{
		ID: "C18", Rule: "class representatives of every calling code x all regions called from; every product-automaton transition x own, sibling and selected regions; x carrier codes x extension x formatting flag",
		Assumptions: trust, Init: initSpaces,
		Oracles: map[string]explore.Oracle{"dial": dialOracle, "carrier": carrierFormatOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			reg := allRegions()
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.nsns {
					n := numOf(s.cc, nsn)
					for j, r := range s.reg {
						if j > 0 && len(s.reg) > 4 && (i+j)%len(s.reg) > 2 {
							continue
						}
						if !k.Do("dial", enc(n), r) {
							return
						}
					}
					k.Do("dial", enc(n), otherRegions[i%len(otherRegions)])
					k.Do("carrier", enc(n), "")
					k.Do("carrier", enc(n), "15")
					n.Carrier = "31"
					k.Do("carrier", enc(n), "15")
					k.Do("dial", enc(n), s.reg[0])
				}
			})
			c.Par("regions", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.reps {
					if i > 60 && !c.Thorough {
						break
					}
					n := numOf(s.cc, nsn)
					for _, r := range reg {
						if !k.Do("dial", enc(n), r) {
							return
						}
					}
				}
			})
			c.Par("classes", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.reps {
					for _, ext := range []string{"", "5", "007"} {
						for _, car := range []string{"", "15", "0", "A"} {
							n := numOf(s.cc, nsn)
							n.Ext, n.Carrier = ext, car
							for _, fb := range []string{"", "14", "$1", "99999"} {
								if fb == "$1" {
									continue // not a carrier code
								}
								k.Do("carrier", enc(n), fb)
							}
							for _, r := range append([]string{s.reg[0]}, otherRegions...) {
								k.Do("dial", enc(n), r)
							}
						}
					}
				}
			})
			c.Seq("odd", func(k *explore.Worker) {
				for _, n := range oddNumbers() {
					for _, raw := range []string{"", "raw 1"} {
						n.Raw = raw
						for _, r := range otherRegions {
							k.Do("dial", enc(n), r)
							k.Do("carrier", enc(n), "15")
						}
					}
				}
			})
		},
	})
	explore.Register(&explore.Property{
		ID: "C24", Rule: plan + ", each also with digits appended (truncation); all calling codes -2..1100; all two-letter region codes; all types",
		Assumptions: trust, Init: initSpaces,
		Oracles: map[string]explore.Oracle{"anatomy": anatomyOracle, "cc": ccOracle, "region": regionOracle, "exampleType": exampleTypeOracle},
		Explore: func(c *explore.Ctx) {
			countSpaces(c)
			c.Par("plan", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.nsns {
					if !k.Do("anatomy", enc(numOf(s.cc, nsn))) {
						return
					}
					n := numOf(s.cc, nsn)
					for _, ext := range []string{"5", "12"} {
						n.Ext = ext
						k.Do("anatomy", enc(n))
					}
					for d := byte('0'); d <= '9'; d++ {
						k.Do("anatomy", enc(numOf(s.cc, nsn+string(d))))
					}
				}
				for _, nsn := range s.reps {
					for _, n := range decorated(numOf(s.cc, nsn)) {
						if !k.Do("anatomy", enc(n)) {
							return
						}
					}
				}
			})
			c.Par("longer", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for _, nsn := range s.reps {
					for _, t := range []string{"0", "7", "12", "00", "345", "0000", "99999999"} {
						if len(nsn+t) < 19 && !k.Do("anatomy", enc(numOf(s.cc, nsn+t))) {
							return
						}
					}
				}
			})
			c.Seq("codes", func(k *explore.Worker) {
				for cc := -2; cc <= 1100; cc++ {
					k.Do("cc", strconv.Itoa(cc))
				}
				for a := 'A'; a <= 'Z'; a++ {
					for b := 'A'; b <= 'Z'; b++ {
						k.Do("region", string(a)+string(b))
					}
				}
				for _, r := range append(allRegions(), "gb", "U", "USX", "\u00DF", "840") {
					k.Do("region", r)
				}
				for t := -1; t <= 13; t++ {
					k.Do("exampleType", strconv.Itoa(t))
				}
			})
			c.Seq("odd", func(k *explore.Worker) {
				for _, n := range oddNumbers() {
					k.Do("anatomy", enc(n))
				}
			})
		},
	})
}

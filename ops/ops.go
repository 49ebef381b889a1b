// Package ops is the public API of the library as a table: every exported
// function and method, with the kinds of its arguments, callable from strings.
// It renders results canonically, can scribble over everything mutable a call
// handed out, and notices when a call changes what it was given.
package ops

import (
	"fmt"
	"maps"
	"math"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"google.golang.org/protobuf/proto"
)

// Kind of an argument.
type Kind int

const (
	Text    Kind = iota // any text
	Num                 // a PhoneNumber, see Enc
	Region              // region code
	Lang                // language tag
	CC                  // calling code
	Type                // PhoneNumberType
	Format              // PhoneNumberFormat
	Len                 // Leniency
	Tries               // maxTries
	Rules               // user formatting rules, by index
	Bool                // "0" or "1"
	Keys                // key strokes
	Carrier             // carrier code
	IntArg              // any small integer
)

// Op is one public function.
type Op struct {
	Name  string
	Kinds []Kind
	Fn    func(e *Env, a []string) []any
}

// Env notices changes to arguments during one call.
type Env struct {
	checks []func() error
	rets   []func() // scribbles over what was handed out besides results
}

// Number is the value form of a PhoneNumber. Nil pointers mean unset.
type Number struct {
	CC      *int32
	NN      *uint64
	Ext     *string
	ILZ     *bool
	NLZ     *int32
	Raw     *string
	Src     *int32
	Carrier *string
}

func opt[T any](p *T, f func(T) string) string {
	if p == nil {
		return "-"
	}
	return f(*p)
}

// Enc encodes a number as an argument.
func Enc(n Number) string {
	q := func(s string) string { return strconv.Quote(s) }
	i := func(v int32) string { return strconv.Itoa(int(v)) }
	return strings.Join([]string{
		opt(n.CC, i), opt(n.NN, func(v uint64) string { return strconv.FormatUint(v, 10) }),
		opt(n.ILZ, strconv.FormatBool), opt(n.NLZ, i), opt(n.Src, i),
		opt(n.Ext, q), opt(n.Carrier, q), opt(n.Raw, q)}, "\x01")
}

// Dec decodes a number argument.
func Dec(s string) *pn.PhoneNumber {
	f := strings.Split(s, "\x01")
	if len(f) != 8 {
		panic("bad number argument " + strconv.Quote(s))
	}
	n := &pn.PhoneNumber{}
	i32 := func(t string) *int32 {
		if t == "-" {
			return nil
		}
		v, err := strconv.ParseInt(t, 10, 32)
		if err != nil {
			panic(err)
		}
		return proto.Int32(int32(v))
	}
	str := func(t string) *string {
		if t == "-" {
			return nil
		}
		v, err := strconv.Unquote(t)
		if err != nil {
			panic(err)
		}
		return &v
	}
	n.CountryCode = i32(f[0])
	if f[1] != "-" {
		v, err := strconv.ParseUint(f[1], 10, 64)
		if err != nil {
			panic(err)
		}
		n.NationalNumber = &v
	}
	if f[2] != "-" {
		n.ItalianLeadingZero = proto.Bool(f[2] == "true")
	}
	n.NumberOfLeadingZeros = i32(f[3])
	if v := i32(f[4]); v != nil {
		n.CountryCodeSource = pn.PhoneNumber_CountryCodeSource(*v).Enum()
	}
	n.Extension = str(f[5])
	n.PreferredDomesticCarrierCode = str(f[6])
	n.RawInput = str(f[7])
	return n
}

// Plain is a number with just a calling code and a national number.
func Plain(cc int, nn uint64) string {
	return Enc(Number{CC: proto.Int32(int32(cc)), NN: proto.Uint64(nn)})
}

// dump renders every field of a number, unset distinguished from empty.
func dump(n *pn.PhoneNumber) string {
	if n == nil {
		return "nil"
	}
	v := Number{CC: n.CountryCode, NN: n.NationalNumber, Ext: n.Extension, ILZ: n.ItalianLeadingZero,
		NLZ: n.NumberOfLeadingZeros, Raw: n.RawInput, Carrier: n.PreferredDomesticCarrierCode}
	if n.CountryCodeSource != nil {
		v.Src = proto.Int32(int32(*n.CountryCodeSource))
	}
	return strings.ReplaceAll(Enc(v), "\x01", "|") + "|" + fmt.Sprint(len(n.ProtoReflect().GetUnknown()))
}

func (e *Env) num(s string) *pn.PhoneNumber {
	n := Dec(s)
	before := dump(n)
	e.checks = append(e.checks, func() error {
		if after := dump(n); after != before {
			return fmt.Errorf("the number passed in changed from %s to %s", before, after)
		}
		return nil
	})
	return n
}

// rules are the user-defined formatting rules FormatByPattern is given.
func ruleSets() [][]*pn.NumberFormat {
	mk := func(pat, f, np string, lead ...string) *pn.NumberFormat {
		r := &pn.NumberFormat{Pattern: proto.String(pat), Format: proto.String(f), LeadingDigitsPattern: lead}
		if np != "" {
			r.NationalPrefixFormattingRule = proto.String(np)
		}
		return r
	}
	return [][]*pn.NumberFormat{
		nil,
		{mk(`(\d{3})(\d{3})(\d{4})`, `($1) $2-$3`, "")},
		{mk(`(\d{2})(\d*)`, `$1.$2`, "$NP ($FG)"), mk(`(\d+)`, `$1`, "")},
		{mk(`(\d{2})(\d{5})(\d{3})`, `$1-$2 $3`, "$NP$FG"), mk(`(\d)(\d*)`, `$2$1`, "$FG", "[2-9]")},
		{mk(`\d*`, `[$0]`, "")},
		{{}},
		{mk(`(\d{3})(\d{3})(\d{4})`, `$1 $9`, "$CC$NP", "1", "2")},
	}
}

// NRules is how many rule sets there are.
func NRules() int { return len(ruleSets()) }

func (e *Env) rules(s string) []*pn.NumberFormat {
	i, _ := strconv.Atoi(s)
	rs := ruleSets()[i]
	show := func() string {
		var b strings.Builder
		for _, r := range rs {
			fmt.Fprintf(&b, "%q %q %q %q;", r.GetPattern(), r.GetFormat(), r.GetNationalPrefixFormattingRule(), r.LeadingDigitsPattern)
			fmt.Fprint(&b, r.NationalPrefixFormattingRule == nil, r.DomesticCarrierCodeFormattingRule == nil, r.NationalPrefixOptionalWhenFormatting == nil)
		}
		return b.String()
	}
	before := show()
	e.checks = append(e.checks, func() error {
		if after := show(); after != before {
			return fmt.Errorf("the rules passed in changed from %s to %s", before, after)
		}
		return nil
	})
	return rs
}

func atoi(s string) int {
	v, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return v
}

func isTrue(s string) bool { return s == "1" }

// runes of a keystroke argument: every rune, with an escape for code points
// that no string can hold: "\x02<decimal>\x02".
func keys(s string) []rune {
	var out []rune
	for len(s) > 0 {
		if s[0] == 2 {
			if i := strings.IndexByte(s[1:], 2); i >= 0 {
				v, err := strconv.ParseInt(s[1:1+i], 10, 32)
				if err == nil {
					out = append(out, rune(v))
					s = s[i+2:]
					continue
				}
			}
		}
		r, n := utf8.DecodeRuneInString(s)
		out = append(out, r)
		s = s[n:]
	}
	return out
}

func find(e *Env, text, region string, l, tries string) []any {
	var out []any
	for m := range pn.FindNumbersWithLeniency(text, region, pn.Leniency(atoi(l)), atoi(tries)) {
		out = append(out, m.Start(), m.End(), m.RawString(), m.String(), m.Number())
		if len(out) > 5*200 {
			break
		}
	}
	return out
}

// All is the table.
var All = []*Op{
	{"NormalizeDigitsOnly", []Kind{Text}, func(e *Env, a []string) []any { return []any{pn.NormalizeDigitsOnly(a[0])} }},
	{"NormalizeDiallableCharsOnly", []Kind{Text}, func(e *Env, a []string) []any { return []any{pn.NormalizeDiallableCharsOnly(a[0])} }},
	{"ConvertAlphaCharactersInNumber", []Kind{Text}, func(e *Env, a []string) []any { return []any{pn.ConvertAlphaCharactersInNumber(a[0])} }},
	{"IsAlphaNumber", []Kind{Text}, func(e *Env, a []string) []any { return []any{pn.IsAlphaNumber(a[0])} }},
	{"IsPossibleNumberFromRegion", []Kind{Text, Region}, func(e *Env, a []string) []any { return []any{pn.IsPossibleNumberFromRegion(a[0], a[1])} }},
	{"Parse", []Kind{Text, Region}, func(e *Env, a []string) []any { n, err := pn.Parse(a[0], a[1]); return []any{n, err} }},
	{"ParseAndKeepRawInput", []Kind{Text, Region}, func(e *Env, a []string) []any {
		n, err := pn.ParseAndKeepRawInput(a[0], a[1])
		return []any{n, err}
	}},
	{"ParseToNumber", []Kind{Text, Region}, func(e *Env, a []string) []any {
		n := &pn.PhoneNumber{}
		err := pn.ParseToNumber(a[0], a[1], n)
		return []any{n, err}
	}},
	{"ParseAndKeepRawInputToNumber", []Kind{Text, Region}, func(e *Env, a []string) []any {
		n := &pn.PhoneNumber{}
		err := pn.ParseAndKeepRawInputToNumber(a[0], a[1], n)
		return []any{n, err}
	}},
	{"FindNumbers", []Kind{Text, Region}, func(e *Env, a []string) []any {
		var out []any
		for m := range pn.FindNumbers(a[0], a[1]) {
			out = append(out, m.Start(), m.End(), m.RawString(), m.Number())
			if len(out) > 4*200 {
				break
			}
		}
		return out
	}},
	{"FindNumbersWithLeniency", []Kind{Text, Region, Len, Tries}, func(e *Env, a []string) []any { return find(e, a[0], a[1], a[2], a[3]) }},
	{"IsNumberMatch", []Kind{Text, Text}, func(e *Env, a []string) []any { return []any{int(pn.IsNumberMatch(a[0], a[1]))} }},
	{"IsEmergencyNumber", []Kind{Text, Region}, func(e *Env, a []string) []any { return []any{pn.IsEmergencyNumber(a[0], a[1])} }},
	{"ConnectsToEmergencyNumber", []Kind{Text, Region}, func(e *Env, a []string) []any { return []any{pn.ConnectsToEmergencyNumber(a[0], a[1])} }},

	{"IsNumberMatchWithOneNumber", []Kind{Num, Text}, func(e *Env, a []string) []any {
		return []any{int(pn.IsNumberMatchWithOneNumber(e.num(a[0]), a[1]))}
	}},
	{"IsNumberMatchWithNumbers", []Kind{Num, Num}, func(e *Env, a []string) []any {
		return []any{int(pn.IsNumberMatchWithNumbers(e.num(a[0]), e.num(a[1])))}
	}},
	{"Leniency.Verify", []Kind{Len, Num, Text}, func(e *Env, a []string) []any {
		return []any{pn.Leniency(atoi(a[0])).Verify(e.num(a[1]), a[2])}
	}},

	{"Format", []Kind{Num, Format}, func(e *Env, a []string) []any {
		return []any{pn.Format(e.num(a[0]), pn.PhoneNumberFormat(atoi(a[1])))}
	}},
	{"FormatByPattern", []Kind{Num, Format, Rules}, func(e *Env, a []string) []any {
		return []any{pn.FormatByPattern(e.num(a[0]), pn.PhoneNumberFormat(atoi(a[1])), e.rules(a[2]))}
	}},
	{"FormatNationalNumberWithCarrierCode", []Kind{Num, Carrier}, func(e *Env, a []string) []any {
		return []any{pn.FormatNationalNumberWithCarrierCode(e.num(a[0]), a[1])}
	}},
	{"FormatNationalNumberWithPreferredCarrierCode", []Kind{Num, Carrier}, func(e *Env, a []string) []any {
		return []any{pn.FormatNationalNumberWithPreferredCarrierCode(e.num(a[0]), a[1])}
	}},
	{"FormatNumberForMobileDialing", []Kind{Num, Region, Bool}, func(e *Env, a []string) []any {
		return []any{pn.FormatNumberForMobileDialing(e.num(a[0]), a[1], isTrue(a[2]))}
	}},
	{"FormatOutOfCountryCallingNumber", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{pn.FormatOutOfCountryCallingNumber(e.num(a[0]), a[1])}
	}},
	{"FormatInOriginalFormat", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{pn.FormatInOriginalFormat(e.num(a[0]), a[1])}
	}},
	{"FormatOutOfCountryKeepingAlphaChars", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{pn.FormatOutOfCountryKeepingAlphaChars(e.num(a[0]), a[1])}
	}},
	{"GetNationalSignificantNumber", []Kind{Num}, func(e *Env, a []string) []any { return []any{pn.GetNationalSignificantNumber(e.num(a[0]))} }},
	{"GetLengthOfGeographicalAreaCode", []Kind{Num}, func(e *Env, a []string) []any {
		return []any{pn.GetLengthOfGeographicalAreaCode(e.num(a[0]))}
	}},
	{"GetLengthOfNationalDestinationCode", []Kind{Num}, func(e *Env, a []string) []any {
		return []any{pn.GetLengthOfNationalDestinationCode(e.num(a[0]))}
	}},
	{"GetNumberType", []Kind{Num}, func(e *Env, a []string) []any { return []any{int(pn.GetNumberType(e.num(a[0])))} }},
	{"IsValidNumber", []Kind{Num}, func(e *Env, a []string) []any { return []any{pn.IsValidNumber(e.num(a[0]))} }},
	{"IsValidNumberForRegion", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{pn.IsValidNumberForRegion(e.num(a[0]), a[1])}
	}},
	{"GetRegionCodeForNumber", []Kind{Num}, func(e *Env, a []string) []any { return []any{pn.GetRegionCodeForNumber(e.num(a[0]))} }},
	{"IsNumberGeographical", []Kind{Num}, func(e *Env, a []string) []any { return []any{pn.IsNumberGeographical(e.num(a[0]))} }},
	{"CanBeInternationallyDialled", []Kind{Num}, func(e *Env, a []string) []any {
		return []any{pn.CanBeInternationallyDialled(e.num(a[0]))}
	}},
	{"IsPossibleNumber", []Kind{Num}, func(e *Env, a []string) []any { return []any{pn.IsPossibleNumber(e.num(a[0]))} }},
	{"IsPossibleNumberWithReason", []Kind{Num}, func(e *Env, a []string) []any {
		return []any{int(pn.IsPossibleNumberWithReason(e.num(a[0])))}
	}},
	{"IsPossibleNumberForType", []Kind{Num, Type}, func(e *Env, a []string) []any {
		return []any{pn.IsPossibleNumberForType(e.num(a[0]), pn.PhoneNumberType(atoi(a[1])))}
	}},
	{"IsPossibleNumberForTypeWithReason", []Kind{Num, Type}, func(e *Env, a []string) []any {
		return []any{int(pn.IsPossibleNumberForTypeWithReason(e.num(a[0]), pn.PhoneNumberType(atoi(a[1]))))}
	}},
	{"TruncateTooLongNumber", []Kind{Num}, func(e *Env, a []string) []any {
		n := Dec(a[0])
		ok := pn.TruncateTooLongNumber(n)
		return []any{ok, n}
	}},
	{"IsPossibleShortNumber", []Kind{Num}, func(e *Env, a []string) []any { return []any{pn.IsPossibleShortNumber(e.num(a[0]))} }},
	{"IsPossibleShortNumberForRegion", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{pn.IsPossibleShortNumberForRegion(e.num(a[0]), a[1])}
	}},
	{"IsValidShortNumber", []Kind{Num}, func(e *Env, a []string) []any { return []any{pn.IsValidShortNumber(e.num(a[0]))} }},
	{"IsValidShortNumberForRegion", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{pn.IsValidShortNumberForRegion(e.num(a[0]), a[1])}
	}},
	{"GetExpectedCost", []Kind{Num}, func(e *Env, a []string) []any {
		c := pn.GetExpectedCost(e.num(a[0]))
		return []any{int(c), c.String()}
	}},
	{"GetExpectedCostForRegion", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{int(pn.GetExpectedCostForRegion(e.num(a[0]), a[1]))}
	}},
	{"IsCarrierSpecific", []Kind{Num}, func(e *Env, a []string) []any { return []any{pn.IsCarrierSpecific(e.num(a[0]))} }},
	{"IsCarrierSpecificForRegion", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{pn.IsCarrierSpecificForRegion(e.num(a[0]), a[1])}
	}},
	{"IsSmsServiceForRegion", []Kind{Num, Region}, func(e *Env, a []string) []any {
		return []any{pn.IsSmsServiceForRegion(e.num(a[0]), a[1])}
	}},
	{"ShortNumberCost.String", []Kind{IntArg}, func(e *Env, a []string) []any { return []any{pn.ShortNumberCost(atoi(a[0])).String()} }},

	{"carrier.GetNameForValidNumber", []Kind{Num, Lang}, func(e *Env, a []string) []any {
		s, err := carrier.GetNameForValidNumber(e.num(a[0]), a[1])
		return []any{s, err}
	}},
	{"carrier.GetNameForNumber", []Kind{Num, Lang}, func(e *Env, a []string) []any {
		s, err := carrier.GetNameForNumber(e.num(a[0]), a[1])
		return []any{s, err}
	}},
	{"carrier.GetSafeDisplayName", []Kind{Num, Lang}, func(e *Env, a []string) []any {
		s, err := carrier.GetSafeDisplayName(e.num(a[0]), a[1])
		return []any{s, err}
	}},
	{"geocoding.GetDescriptionForValidNumber", []Kind{Num, Lang}, func(e *Env, a []string) []any {
		s, err := geocoding.GetDescriptionForValidNumber(e.num(a[0]), a[1])
		return []any{s, err}
	}},
	{"geocoding.GetDescriptionForNumber", []Kind{Num, Lang}, func(e *Env, a []string) []any {
		s, err := geocoding.GetDescriptionForNumber(e.num(a[0]), a[1])
		return []any{s, err}
	}},
	{"geocoding.GetDescriptionForValidNumberForUserRegion", []Kind{Num, Lang, Region}, func(e *Env, a []string) []any {
		s, err := geocoding.GetDescriptionForValidNumberForUserRegion(e.num(a[0]), a[1], a[2])
		return []any{s, err}
	}},
	{"geocoding.GetDescriptionForNumberForUserRegion", []Kind{Num, Lang, Region}, func(e *Env, a []string) []any {
		s, err := geocoding.GetDescriptionForNumberForUserRegion(e.num(a[0]), a[1], a[2])
		return []any{s, err}
	}},
	{"timezone.GetTimeZonesForNumber", []Kind{Num}, func(e *Env, a []string) []any {
		s, err := timezone.GetTimeZonesForNumber(e.num(a[0]))
		return []any{s, err}
	}},
	{"timezone.GetTimeZonesForGeographicalNumber", []Kind{Num}, func(e *Env, a []string) []any {
		s, err := timezone.GetTimeZonesForGeographicalNumber(e.num(a[0]))
		return []any{s, err}
	}},

	{"AsYouType", []Kind{Region, Keys}, func(e *Env, a []string) []any {
		f := pn.GetAsYouTypeFormatter(a[0])
		var out []any
		for i, r := range keys(a[1]) {
			if i%3 == 1 {
				out = append(out, f.InputDigitAndRememberPosition(r))
			} else {
				out = append(out, f.InputDigit(r))
			}
			out = append(out, f.GetRememberedPosition())
		}
		e.rets = append(e.rets, func() { f.Clear(); f.InputDigitAndRememberPosition('5') })
		return out
	}},
	{"AsYouTypeReuse", []Kind{Region, Keys}, func(e *Env, a []string) []any {
		f := pn.GetAsYouTypeFormatter(a[0])
		ks := keys(a[1])
		for _, r := range ks {
			f.InputDigitAndRememberPosition(r)
		}
		f.Clear()
		var out []any
		for _, r := range ks {
			out = append(out, f.InputDigit(r))
		}
		return append(out, f.GetRememberedPosition())
	}},

	{"GetCountryMobileToken", []Kind{CC}, func(e *Env, a []string) []any { return []any{pn.GetCountryMobileToken(atoi(a[0]))} }},
	{"GetSupportedTypesForNonGeoEntity", []Kind{CC}, func(e *Env, a []string) []any { return []any{pn.GetSupportedTypesForNonGeoEntity(atoi(a[0]))} }},
	{"GetExampleNumberForNonGeoEntity", []Kind{CC}, func(e *Env, a []string) []any { return []any{pn.GetExampleNumberForNonGeoEntity(atoi(a[0]))} }},
	{"GetRegionCodeForCountryCode", []Kind{CC}, func(e *Env, a []string) []any { return []any{pn.GetRegionCodeForCountryCode(atoi(a[0]))} }},
	{"GetRegionCodesForCountryCode", []Kind{CC}, func(e *Env, a []string) []any { return []any{pn.GetRegionCodesForCountryCode(atoi(a[0]))} }},
	{"IsNumberGeographicalForType", []Kind{Type, CC}, func(e *Env, a []string) []any {
		return []any{pn.IsNumberGeographicalForType(pn.PhoneNumberType(atoi(a[0])), atoi(a[1]))}
	}},
	{"GetSupportedRegions", nil, func(e *Env, a []string) []any { return []any{pn.GetSupportedRegions()} }},
	{"GetSupportedCallingCodes", nil, func(e *Env, a []string) []any { return []any{pn.GetSupportedCallingCodes()} }},
	{"GetSupportedGlobalNetworkCallingCodes", nil, func(e *Env, a []string) []any {
		return []any{pn.GetSupportedGlobalNetworkCallingCodes()}
	}},
	{"GetSupportedTypesForRegion", []Kind{Region}, func(e *Env, a []string) []any { return []any{pn.GetSupportedTypesForRegion(a[0])} }},
	{"GetExampleNumber", []Kind{Region}, func(e *Env, a []string) []any { return []any{pn.GetExampleNumber(a[0])} }},
	{"GetInvalidExampleNumber", []Kind{Region}, func(e *Env, a []string) []any { return []any{pn.GetInvalidExampleNumber(a[0])} }},
	{"GetExampleNumberForTypeInRegion", []Kind{Region, Type}, func(e *Env, a []string) []any {
		return []any{pn.GetExampleNumberForTypeInRegion(a[0], pn.PhoneNumberType(atoi(a[1])))}
	}},
	{"GetExampleNumberForType", []Kind{Type}, func(e *Env, a []string) []any {
		// it may belong to any country, so only its existence is determined
		n := pn.GetExampleNumberForType(pn.PhoneNumberType(atoi(a[0])))
		e.rets = append(e.rets, func() { scribbleNumber(n) })
		return []any{n != nil}
	}},
	{"GetCountryCodeForRegion", []Kind{Region}, func(e *Env, a []string) []any { return []any{pn.GetCountryCodeForRegion(a[0])} }},
	{"GetNddPrefixForRegion", []Kind{Region, Bool}, func(e *Env, a []string) []any { return []any{pn.GetNddPrefixForRegion(a[0], isTrue(a[1]))} }},
	{"IsNANPACountry", []Kind{Region}, func(e *Env, a []string) []any { return []any{pn.IsNANPACountry(a[0])} }},
	{"IsMobileNumberPortableRegion", []Kind{Region}, func(e *Env, a []string) []any { return []any{pn.IsMobileNumberPortableRegion(a[0])} }},
	{"MetadataCollection", nil, func(e *Env, a []string) []any {
		c, err := pn.MetadataCollection()
		return []any{len(c.GetMetadata()), err}
	}},
	{"ShortNumberMetadataCollection", nil, func(e *Env, a []string) []any {
		c, err := pn.ShortNumberMetadataCollection()
		return []any{len(c.GetMetadata()), err}
	}},
	{"metadata.RegionMetadata", []Kind{Region}, func(e *Env, a []string) []any {
		m, ok := metadata.RegionMetadata(a[0])
		return []any{ok, m.GetId(), int(m.GetCountryCode())}
	}},
	{"metadata.NonGeoMetadata", []Kind{CC}, func(e *Env, a []string) []any {
		m, ok := metadata.NonGeoMetadata(atoi(a[0]))
		return []any{ok, m.GetId(), int(m.GetCountryCode())}
	}},
	{"metadata.IsNANPARegion", []Kind{Region}, func(e *Env, a []string) []any { return []any{metadata.IsNANPARegion(a[0])} }},
	{"metadata.Load", nil, func(e *Env, a []string) []any {
		c, err := metadata.Load()
		return []any{c != nil, err}
	}},
	{"PhoneNumber.getters", []Kind{Num}, func(e *Env, a []string) []any {
		n := e.num(a[0])
		return []any{int(n.GetCountryCode()), n.GetExtension(), n.GetItalianLeadingZero(), int(n.GetNumberOfLeadingZeros()),
			n.GetRawInput(), int(n.GetCountryCodeSource()), n.GetPreferredDomesticCarrierCode(),
			strconv.FormatUint(n.GetNationalNumber(), 10)}
	}},
}

var byName = map[string]*Op{}

func init() {
	for _, o := range All {
		byName[o.Name] = o
	}
}

// Get finds an operation.
func Get(name string) *Op { return byName[name] }

// Call runs an operation. The rendering is canonical; scribble overwrites
// everything mutable the call handed out; err tells about changed arguments.
func Call(name string, args []string) (out string, scribble func(), vals []any, err error) {
	o := byName[name]
	e := &Env{}
	vals = o.Fn(e, args)
	for _, c := range e.checks {
		if err2 := c(); err2 != nil {
			err = fmt.Errorf("%s: %w", name, err2)
		}
	}
	return Render(vals), func() {
		for _, v := range vals {
			Scribble(v)
		}
		for _, f := range e.rets {
			f()
		}
	}, vals, err
}

// Render shows results canonically.
func Render(vals []any) string {
	var b strings.Builder
	for i, v := range vals {
		if i > 0 {
			b.WriteString(" ; ")
		}
		switch v := v.(type) {
		case nil:
			b.WriteString("nil")
		case error:
			b.WriteString("error " + v.Error())
		case string:
			b.WriteString(strconv.Quote(v))
		case *pn.PhoneNumber:
			b.WriteString(dump(v))
		case []string:
			fmt.Fprintf(&b, "%q", v)
		case map[string]bool:
			for _, k := range slices.Sorted(maps.Keys(v)) {
				fmt.Fprintf(&b, "%s=%v ", k, v[k])
			}
		case map[int]bool:
			for _, k := range slices.Sorted(maps.Keys(v)) {
				fmt.Fprintf(&b, "%d=%v ", k, v[k])
			}
		case map[pn.PhoneNumberType]bool:
			for _, k := range slices.Sorted(maps.Keys(v)) {
				fmt.Fprintf(&b, "%d=%v ", int(k), v[k])
			}
		default:
			fmt.Fprint(&b, v)
		}
	}
	return b.String()
}

func scribbleNumber(n *pn.PhoneNumber) {
	if n == nil {
		return
	}
	// through the pointers first, as a caller holding them would
	if n.CountryCode != nil {
		*n.CountryCode = 4242
	}
	if n.NationalNumber != nil {
		*n.NationalNumber = math.MaxUint64
	}
	if n.Extension != nil {
		*n.Extension = "scribble"
	}
	if n.RawInput != nil {
		*n.RawInput = "scribble"
	}
	if n.PreferredDomesticCarrierCode != nil {
		*n.PreferredDomesticCarrierCode = "scribble"
	}
	if n.NumberOfLeadingZeros != nil {
		*n.NumberOfLeadingZeros = 9
	}
	if n.ItalianLeadingZero != nil {
		*n.ItalianLeadingZero = !*n.ItalianLeadingZero
	}
	if n.CountryCodeSource != nil {
		*n.CountryCodeSource = 99
	}
	n.CountryCode, n.NationalNumber = proto.Int32(-7), proto.Uint64(3)
	n.Extension, n.RawInput = proto.String("x"), proto.String("y")
	n.ItalianLeadingZero, n.NumberOfLeadingZeros = proto.Bool(true), proto.Int32(5)
	n.PreferredDomesticCarrierCode = proto.String("z")
}

// Scribble overwrites a result.
func Scribble(v any) {
	switch v := v.(type) {
	case *pn.PhoneNumber:
		scribbleNumber(v)
	case []string:
		for i := range v[:cap(v)] {
			v[:cap(v)][i] = "scribble"
		}
	case map[string]bool:
		for k := range v {
			v[k] = false
		}
		clear(v)
		if v != nil {
			v["scribble"], v["XX"] = true, true
		}
	case map[int]bool:
		for k := range v {
			v[k] = false
		}
		clear(v)
		if v != nil {
			v[4242] = true
		}
	case map[pn.PhoneNumberType]bool:
		clear(v)
		if v != nil {
			v[pn.PhoneNumberType(4242)] = true
		}
	}
}

// Texts lists every text among results.
func Texts(vals []any) []string {
	var out []string
	num := func(n *pn.PhoneNumber) {
		if n != nil {
			out = append(out, n.GetExtension(), n.GetRawInput(), n.GetPreferredDomesticCarrierCode())
		}
	}
	for _, v := range vals {
		switch v := v.(type) {
		case string:
			out = append(out, v)
		case error:
			out = append(out, v.Error())
		case []string:
			out = append(out, v...)
		case *pn.PhoneNumber:
			num(v)
		}
	}
	return out
}

package props

import (
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

// DataFiles lists the embedded blobs.
func DataFiles() []string {
	var out []string
	for _, pat := range []string{"metadata/data/*.gz", "data/*.gz", "carrier/data/*.gz", "geocoding/data/*.gz", "timezone/data/*.gz"} {
		m, _ := filepath.Glob(filepath.Join(RepoDir(), pat))
		for _, p := range m {
			rel, _ := filepath.Rel(RepoDir(), p)
			out = append(out, rel)
		}
	}
	sort.Strings(out)
	return out
}

func pbDesc(d *metadata.PhoneNumberDesc) model.Desc {
	out := model.Desc{}
	if d == nil {
		return out
	}
	out.Present = true
	out.HasPattern, out.Pattern, out.Example = d.NationalNumberPattern != nil, d.GetNationalNumberPattern(), d.GetExampleNumber()
	for _, l := range d.GetPossibleLength() {
		out.Len = append(out.Len, int(l))
	}
	for _, l := range d.GetPossibleLengthLocalOnly() {
		out.Local = append(out.Local, int(l))
	}
	return out
}

func pbFmts(fs []*metadata.NumberFormat) []*model.Fmt {
	var out []*model.Fmt
	for _, f := range fs {
		out = append(out, &model.Fmt{Pattern: f.GetPattern(), Format: f.GetFormat(), Leading: f.GetLeadingDigitsPattern(),
			NPRule: f.GetNationalPrefixFormattingRule(), NPOptional: f.GetNationalPrefixOptionalWhenFormatting(), CCRule: f.GetDomesticCarrierCodeFormattingRule()})
	}
	return out
}

// PBPlan reads a territory through the generated accessors.
func PBPlan(m *metadata.PhoneMetadata) *model.Plan {
	return &model.Plan{
		ID: m.GetId(), CC: int(m.GetCountryCode()),
		General: pbDesc(m.GetGeneralDesc()), Fixed: pbDesc(m.GetFixedLine()), Mobile: pbDesc(m.GetMobile()), TollFree: pbDesc(m.GetTollFree()),
		Premium: pbDesc(m.GetPremiumRate()), Shared: pbDesc(m.GetSharedCost()), Personal: pbDesc(m.GetPersonalNumber()), Voip: pbDesc(m.GetVoip()),
		Pager: pbDesc(m.GetPager()), UAN: pbDesc(m.GetUan()), Emergency: pbDesc(m.GetEmergency()), Voicemail: pbDesc(m.GetVoicemail()),
		ShortCode: pbDesc(m.GetShortCode()), Standard: pbDesc(m.GetStandardRate()), CarrierSpecific: pbDesc(m.GetCarrierSpecific()),
		SMS: pbDesc(m.GetSmsServices()), NoIntl: pbDesc(m.GetNoInternationalDialling()),
		IDD: m.GetInternationalPrefix(), PrefIDD: m.GetPreferredInternationalPrefix(), NP: m.GetNationalPrefix(), ExtPrefix: m.GetPreferredExtnPrefix(),
		NPParse: m.GetNationalPrefixForParsing(), Transform: m.GetNationalPrefixTransformRule(),
		SameMobileFixed: m.GetSameMobileAndFixedLinePattern(), MainCountry: m.GetMainCountryForCode(), Portable: m.GetMobileNumberPortableRegion(),
		LeadingDigits: m.GetLeadingDigits(), Formats: pbFmts(m.GetNumberFormat()), IntlFormats: pbFmts(m.GetIntlNumberFormat()),
	}
}

func pbPlans(c *metadata.PhoneMetadataCollection) []*model.Plan {
	var out []*model.Plan
	for _, m := range c.GetMetadata() {
		out = append(out, PBPlan(m))
	}
	return out
}

func fileBytes(rel string) []byte { return model.ReadGz(filepath.Join(RepoDir(), rel)) }

// loadedOracle compares what the library loaded with the bytes it embeds.
func loadedOracle(a []string) error {
	var coll *metadata.PhoneMetadataCollection
	var err error
	switch a[0] {
	case "metadata/data/metadata.xml.gz":
		coll, err = metadata.Collection()
	case "data/shortnumber_metadata.xml.gz":
		coll, err = phonenumbers.ShortNumberMetadataCollection()
	case "metadata/data/countrycode_to_region.xml.gz":
		if g, x := metadata.CountryCodeToRegion(), model.DecodeIntArrayMap(fileBytes(a[0])); !reflect.DeepEqual(g, x) {
			return diff(a[0], g, x)
		}
		return nil
	default:
		return nil
	}
	if err != nil {
		return err
	}
	return samePlans(pbPlans(coll), model.DecodeCollection(fileBytes(a[0])))
}

// Loaded is the oracle of the tables the library loads.
var Loaded explore.Oracle = loadedOracle

// TableKeys are keys at the edges of their encoding.
var TableKeys = []int{0, 1, 9, 10, 99, 127, 128, 255, 256, 999, 1000, 16383, 16384, 16511, 65535, 65536, 2097151, 2097152, 268435456, 1<<31 - 1, 1 << 31, 1 << 32, 999999999999999, 1000000000000000, 9999999999999999, 1 << 61}

// SmallTables calls f with every table of up to n entries: keys at the edges of
// their encoding, values that share, repeat and are empty.
func SmallTables(n int, lists bool, f func(es []model.Entry) bool) bool {
	keys := TableKeys
	vals := [][]string{{"A"}, {"B"}, {"é ü"}, {"A B"}, {""}}
	if lists {
		vals = [][]string{{"A"}, {"B", "A"}, {"A", "A"}, {"é/ü"}, {}, {"B", "", "C"}}
	}
	var rec func(i int, es []model.Entry) bool
	rec = func(i int, es []model.Entry) bool {
		if !f(es) {
			return false
		}
		if len(es) == n {
			return true
		}
		for ; i < len(keys); i++ {
			for _, v := range vals {
				if !rec(i+1, append(es[:len(es):len(es)], model.Entry{Key: keys[i], Vals: v})) {
					return false
				}
			}
		}
		return true
	}
	return rec(0, nil)
}

// EncodeEntries and DecodeEntries carry a table through a case.
func EncodeEntries(es []model.Entry) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "%d\x03%d\x03", e.Key, len(e.Vals))
		for _, v := range e.Vals {
			b.WriteString(v + "\x03")
		}
		b.WriteString("\x02")
	}
	return b.String()
}

// DecodeEntries undoes EncodeEntries.
func DecodeEntries(s string) []model.Entry {
	var out []model.Entry
	for _, e := range strings.Split(strings.TrimSuffix(s, "\x02"), "\x02") {
		if e == "" {
			continue
		}
		p := strings.Split(e, "\x03")
		var x model.Entry
		var n int
		fmt.Sscan(p[0], &x.Key)
		fmt.Sscan(p[1], &n)
		x.Vals = append([]string{}, p[2:2+n]...)
		out = append(out, x)
	}
	return out
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C23",
		Rule:        "the tables the library loads at start, through its public interface only (the decoder did not compile against the harness)",
		Oracles:     map[string]explore.Oracle{"loaded": loadedOracle},
		Assumptions: []string{"the bytes in the data folders are the reference"},
		Explore: func(c *explore.Ctx) {
			c.Seq("embedded tables", func(k *explore.Worker) {
				for _, f := range DataFiles() {
					k.Do("loaded", f)
				}
			})
			c.Incomplete()
		},
	})
}

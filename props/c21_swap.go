package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/nyaruka/phonenumbers/v2/metadata"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
	"google.golang.org/protobuf/proto"
)

// swapped is set while another collection than the embedded one is in use.
var swapped bool

// A collection is something the library can be told to use, with the world it
// means. nil makes the embedded one.
type collection struct {
	name string
	coll *metadata.PhoneMetadataCollection
	cc   map[int][]string
	w    *model.World

	spaces  []*ccSpace
	spaceOf map[int]*ccSpace
	fresh   func() (*metadata.PhoneMetadataCollection, map[int][]string)
}

var (
	collOnce    sync.Once
	collections []*collection
	collOf      map[string]*collection
)

func pbOfDesc(d *model.Desc) *metadata.PhoneNumberDesc {
	if !d.Present {
		return nil
	}
	out := &metadata.PhoneNumberDesc{}
	if d.HasPattern {
		out.NationalNumberPattern = proto.String(d.Pattern)
	}
	if d.Example != "" {
		out.ExampleNumber = proto.String(d.Example)
	}
	for _, l := range d.Len {
		out.PossibleLength = append(out.PossibleLength, int32(l))
	}
	for _, l := range d.Local {
		out.PossibleLengthLocalOnly = append(out.PossibleLengthLocalOnly, int32(l))
	}
	return out
}

func str(s string) *string {
	if s == "" {
		return nil
	}
	return &s
}

func pbOfFmts(fs []*model.Fmt) []*metadata.NumberFormat {
	var out []*metadata.NumberFormat
	for _, f := range fs {
		x := &metadata.NumberFormat{Pattern: proto.String(f.Pattern), Format: proto.String(f.Format), LeadingDigitsPattern: f.Leading,
			NationalPrefixFormattingRule: str(f.NPRule), DomesticCarrierCodeFormattingRule: str(f.CCRule)}
		if f.NPOptional {
			x.NationalPrefixOptionalWhenFormatting = proto.Bool(true)
		}
		out = append(out, x)
	}
	return out
}

func pbOfPlan(p *model.Plan) *metadata.PhoneMetadata {
	return &metadata.PhoneMetadata{
		Id: proto.String(p.ID), CountryCode: proto.Int32(int32(p.CC)),
		GeneralDesc: pbOfDesc(&p.General), FixedLine: pbOfDesc(&p.Fixed), Mobile: pbOfDesc(&p.Mobile), TollFree: pbOfDesc(&p.TollFree),
		PremiumRate: pbOfDesc(&p.Premium), SharedCost: pbOfDesc(&p.Shared), PersonalNumber: pbOfDesc(&p.Personal), Voip: pbOfDesc(&p.Voip),
		Pager: pbOfDesc(&p.Pager), Uan: pbOfDesc(&p.UAN), Emergency: pbOfDesc(&p.Emergency), Voicemail: pbOfDesc(&p.Voicemail),
		ShortCode: pbOfDesc(&p.ShortCode), StandardRate: pbOfDesc(&p.Standard), CarrierSpecific: pbOfDesc(&p.CarrierSpecific),
		SmsServices: pbOfDesc(&p.SMS), NoInternationalDialling: pbOfDesc(&p.NoIntl),
		InternationalPrefix: str(p.IDD), PreferredInternationalPrefix: str(p.PrefIDD), NationalPrefix: str(p.NP), PreferredExtnPrefix: str(p.ExtPrefix),
		NationalPrefixForParsing: str(p.NPParse), NationalPrefixTransformRule: str(p.Transform),
		SameMobileAndFixedLinePattern: proto.Bool(p.SameMobileFixed), MainCountryForCode: proto.Bool(p.MainCountry),
		MobileNumberPortableRegion: proto.Bool(p.Portable), LeadingDigits: str(p.LeadingDigits),
		NumberFormat: pbOfFmts(p.Formats), IntlNumberFormat: pbOfFmts(p.IntlFormats),
	}
}

const oneDoc = `<territory id="XA" countryCode="1" internationalPrefix="0(?:0|9[12])" preferredInternationalPrefix="00" nationalPrefix="8" nationalPrefixForParsing="8(2)?" nationalPrefixTransformRule="7$1" preferredExtnPrefix=" int. " nationalPrefixFormattingRule="($NP$FG)" leadingDigits="[23]" mobileNumberPortableRegion="true">
<availableFormats>
<numberFormat pattern="(\d{2})(\d{3})" carrierCodeFormattingRule="$NP $CC $FG"><leadingDigits>2</leadingDigits><format>$1-$2</format></numberFormat>
<numberFormat pattern="(\d)(\d{3})(\d{3})" nationalPrefixOptionalWhenFormatting="true"><leadingDigits>[3-7]</leadingDigits><leadingDigits>[3-6]|72</leadingDigits><format>$1 $2 $3</format><intlFormat>$2.$1.$3</intlFormat></numberFormat>
</availableFormats>
<generalDesc><nationalNumberPattern>[2-7]\d{4,6}</nationalNumberPattern></generalDesc>
<noInternationalDialling><nationalNumberPattern>29\d{3}</nationalNumberPattern><possibleLengths national="5"/></noInternationalDialling>
<fixedLine><nationalNumberPattern>2\d{4}|4\d{6}</nationalNumberPattern><possibleLengths national="5,7" localOnly="3"/><exampleNumber>21234</exampleNumber></fixedLine>
<mobile><nationalNumberPattern>3\d{6}|4\d{6}</nationalNumberPattern><possibleLengths national="7"/><exampleNumber>3123456</exampleNumber></mobile>
<tollFree><nationalNumberPattern>70\d{4}</nationalNumberPattern><possibleLengths national="6"/><exampleNumber>701234</exampleNumber></tollFree>
</territory>`

func planBytes(c *metadata.PhoneMetadataCollection) []byte {
	b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

// initCollections makes the collections, all from the embedded bytes.
func initCollections() {
	initLookups()
	initShort()
	collOnce.Do(func() {
		raw := fileBytes("metadata/data/metadata.xml.gz")
		ccraw := fileBytes("metadata/data/countrycode_to_region.xml.gz")
		embedded := func() (*metadata.PhoneMetadataCollection, map[int][]string) {
			c := &metadata.PhoneMetadataCollection{}
			if err := proto.Unmarshal(raw, c); err != nil {
				panic(err)
			}
			return c, model.DecodeIntArrayMap(ccraw)
		}
		collOf = map[string]*collection{}
		add := func(name string, make func() (*metadata.PhoneMetadataCollection, map[int][]string)) {
			c, cc := make()
			x := &collection{name: name, coll: c, cc: cc, fresh: make}
			x.w = model.NewWorld(model.DecodeCollection(planBytes(c)), func() map[int][]string { _, m := make(); return m }())
			x.w.Dir, x.w.Short, x.w.Alt = w.Dir, w.Short, w.Alt
			x.w.TZ, x.w.Carrier, x.w.Geo = w.TZ, w.Carrier, w.Geo
			collections = append(collections, x)
			collOf[name] = x
		}
		few := func(regions []string) (*metadata.PhoneMetadataCollection, map[int][]string) {
			c, cc := embedded()
			keep := map[string]bool{}
			for _, r := range regions {
				keep[r] = true
			}
			out := &metadata.PhoneMetadataCollection{}
			for _, m := range c.GetMetadata() {
				if keep[m.GetId()] || m.GetId() == "001" && keep[strconv.Itoa(int(m.GetCountryCode()))] {
					out.Metadata = append(out.Metadata, m)
				}
			}
			for k, rs := range cc {
				if slices.Equal(rs, []string{"001"}) {
					if !keep[strconv.Itoa(k)] {
						delete(cc, k)
					}
					continue
				}
				if rs = slices.DeleteFunc(slices.Clone(rs), func(r string) bool { return !keep[r] }); len(rs) > 0 {
					cc[k] = rs
				} else {
					delete(cc, k)
				}
			}
			return out, cc
		}
		some := []string{"US", "CA", "BS", "GB", "JE", "IT", "VA", "AR", "MX", "BR", "DE", "800", "979"}
		add("embedded", embedded)
		add("few", func() (*metadata.PhoneMetadataCollection, map[int][]string) { return few(some) })
		add("moved", func() (*metadata.PhoneMetadataCollection, map[int][]string) {
			// the same plans under other calling codes, North America's among them
			c, cc := few(some)
			to := map[int]int{1: 44, 44: 1, 39: 54, 54: 39, 52: 55, 55: 52, 49: 999, 800: 979, 979: 888}
			for _, m := range c.Metadata {
				m.CountryCode = proto.Int32(int32(to[int(m.GetCountryCode())]))
			}
			out := map[int][]string{}
			for k, rs := range cc {
				out[to[k]] = rs
			}
			return c, out
		})
		add("rotated", func() (*metadata.PhoneMetadataCollection, map[int][]string) {
			// every region has the plan of the next one; lists in other orders
			c, cc := embedded()
			var ms []*metadata.PhoneMetadata
			for _, m := range c.Metadata {
				if m.GetId() != "001" {
					ms = append(ms, m)
				}
			}
			byCC := map[int][]string{}
			first := ms[0].GetId()
			for i, m := range ms {
				id := first
				if i+1 < len(ms) {
					id = ms[i+1].GetId()
				}
				m.Id = proto.String(id)
				byCC[int(m.GetCountryCode())] = append(byCC[int(m.GetCountryCode())], id)
			}
			for k, rs := range cc {
				if slices.Equal(rs, []string{"001"}) && k != 800 {
					byCC[k] = rs
				}
			}
			c.Metadata = slices.DeleteFunc(c.Metadata, func(m *metadata.PhoneMetadata) bool {
				return m.GetId() == "001" && m.GetCountryCode() == 800
			})
			return c, byCC
		})
		add("partial", func() (*metadata.PhoneMetadataCollection, map[int][]string) {
			// a build with parts of the descriptions left out: over the regions,
			// each kind of number lacks its example, lengths or pattern, in every
			// combination
			c, cc := few(some)
			for i, m := range c.Metadata {
				for j, d := range []*metadata.PhoneNumberDesc{m.FixedLine, m.Mobile, m.TollFree, m.PremiumRate, m.SharedCost, m.PersonalNumber, m.Voip, m.Pager, m.Uan, m.Voicemail} {
					if d == nil {
						continue
					}
					k := (i*5 + j) % 12
					if k&1 != 0 {
						d.ExampleNumber = nil
					}
					if k&2 != 0 {
						d.NationalNumberPattern = nil
					}
					if k>>2 == 1 {
						d.PossibleLength, d.PossibleLengthLocalOnly = nil, nil
					} else if k>>2 == 2 {
						d.PossibleLength, d.PossibleLengthLocalOnly = []int32{-1}, nil
					}
				}
			}
			// international prefixes with a waiting sign and no preferred one
			for _, m := range c.Metadata {
				switch m.GetId() {
				case "DE":
					m.InternationalPrefix, m.PreferredInternationalPrefix = proto.String("8~10"), nil
				case "IT":
					m.InternationalPrefix, m.PreferredInternationalPrefix = proto.String("8\u223C10"), nil
				}
			}
			// and regions no other data knows of, in the middle of shared codes
			for _, e := range [][2]string{{"GB", "XB"}, {"US", "XC"}} {
				for _, m := range c.Metadata {
					if m.GetId() == e[0] {
						x := proto.Clone(m).(*metadata.PhoneMetadata)
						x.Id, x.MainCountryForCode = proto.String(e[1]), nil
						c.Metadata = append(c.Metadata, x)
						k := int(m.GetCountryCode())
						cc[k] = slices.Insert(slices.Clone(cc[k]), 1, e[1])
						break
					}
				}
			}
			return c, cc
		})
		add("rules", func() (*metadata.PhoneMetadataCollection, map[int][]string) {
			// rules the present data has no example of: carrier codes glued to a prefix
			// or behind another group, waiting signs in the national prefix, parts
			// of dialling rules for some regions that nobody may dial from abroad
			c, cc := few(append([]string{"CL", "UZ", "JP", "CR"}, some...))
			for i, m := range c.Metadata {
				switch m.GetId() {
				case "MX", "UZ", "CL", "001", "BR", "US":
					d := proto.Clone(m.GeneralDesc).(*metadata.PhoneNumberDesc)
					d.NationalNumberPattern = proto.String("\\d*[02468]")
					m.NoInternationalDialling = d
				case "DE", "JP":
					m.NationalPrefix = proto.String("0~")
				case "GB", "JE":
					m.NumberFormat = m.NumberFormat[:len(m.NumberFormat)/2]
				}
				// lengths that only local calls have, for one of the two kinds or
				// different ones for each
				f, mo := m.FixedLine, m.Mobile
				if f != nil && mo != nil && len(f.PossibleLength) > 0 && f.PossibleLength[0] > 4 && len(mo.PossibleLength) > 0 && mo.PossibleLength[0] > 4 {
					switch i % 3 {
					case 0:
						f.PossibleLengthLocalOnly, mo.PossibleLengthLocalOnly = nil, []int32{3, 4}
					case 1:
						f.PossibleLengthLocalOnly, mo.PossibleLengthLocalOnly = []int32{4}, []int32{2, 3}
					}
				}
				if i%2 == 0 {
					m.IntlNumberFormat = nil
				}
				for j, f := range m.NumberFormat {
					switch (i + j) % 4 {
					case 0:
						f.DomesticCarrierCodeFormattingRule = proto.String("0$CC-$1")
					case 1:
						f.DomesticCarrierCodeFormattingRule = proto.String("$1 ($CC)")
					case 2:
						f.NationalPrefixFormattingRule = proto.String("$1 (0)")
					case 3:
						f.Format = proto.String("(-" + strings.Replace(f.GetFormat(), "$1", "$1)", 1))
					}
				}
			}
			return c, cc
		})
		fromDoc := func(doc []byte) func() (*metadata.PhoneMetadataCollection, map[int][]string) {
			return func() (*metadata.PhoneMetadataCollection, map[int][]string) {
				plans, err := model.BuildXML(doc, model.FullDoc)
				if err != nil {
					panic(err)
				}
				c := &metadata.PhoneMetadataCollection{}
				for _, p := range plans {
					c.Metadata = append(c.Metadata, pbOfPlan(p))
				}
				return c, model.RegionMap(plans)
			}
		}
		add("one", fromDoc([]byte(wrapDoc(oneDoc))))
		if doc, err := os.ReadFile(filepath.Join(RepoDir(), "testdata/PhoneNumberMetadataForTesting.xml")); err == nil {
			add("test", fromDoc(doc))
		}
	})
}

// using runs f with a collection in use in the library and in the model.
var (
	activeName string // set while the exploration itself has swapped
)

func using(name string, f func() error) error {
	if name == activeName {
		return f()
	}
	x := collOf[name]
	if x == nil {
		return nil
	}
	c, cc := x.fresh()
	mc, err := metadata.NewContainer(c, cc)
	if err != nil {
		return err
	}
	restore := metadata.Use(mc)
	oldW, oldS := w, swapped
	w, swapped = x.w, name != "embedded"
	defer func() {
		restore()
		w, swapped = oldW, oldS
	}()
	return f()
}

var swapOracles map[string]explore.Oracle

func onOracle(a []string) error {
	return using(a[0], func() error { return swapOracles[a[1]](a[2:]) })
}

// accessorsOracle compares the accessors of package metadata.
func accessorsOracle(a []string) error {
	r := a[0]
	p, ok := metadata.RegionMetadata(r)
	want := w.Regions[r]
	if ok != (want != nil) {
		return diff("RegionMetadata", ok, want != nil)
	}
	if ok && PBPlan(p).Dump() != want.Dump() {
		return diff("RegionMetadata", PBPlan(p).Dump(), want.Dump())
	}
	if g, x := metadata.IsNANPARegion(r), slices.Contains(w.CCRegions[1], r); g != x {
		return diff("IsNANPARegion", g, x)
	}
	if g, x := metadata.SupportedRegions(), w.Supported; !reflect.DeepEqual(g, x) {
		return diff("SupportedRegions", g, x)
	}
	cc, _ := strconv.Atoi(a[1])
	p, ok = metadata.NonGeoMetadata(cc)
	want = w.NonGeo[cc]
	if ok != (want != nil) {
		return diff("NonGeoMetadata", ok, want != nil)
	}
	if ok && PBPlan(p).Dump() != want.Dump() {
		return diff("NonGeoMetadata", PBPlan(p).Dump(), want.Dump())
	}
	codes, nongeo := map[int]bool{}, map[int]bool{}
	for k, rs := range w.CCRegions {
		codes[k] = true
		if slices.Equal(rs, []string{"001"}) {
			nongeo[k] = true
		}
	}
	if g := metadata.SupportedCallingCodes(); !reflect.DeepEqual(g, codes) {
		return diff("SupportedCallingCodes", g, codes)
	}
	if g := metadata.CountryCodesForNonGeographicalRegion(); !reflect.DeepEqual(g, nongeo) {
		return diff("CountryCodesForNonGeographicalRegion", g, nongeo)
	}
	if g := metadata.CountryCodeToRegion(); !reflect.DeepEqual(g, w.CCRegions) {
		return diff("CountryCodeToRegion", g, w.CCRegions)
	}
	return nil
}

// embeddedOracle: Collection is the embedded one whatever is in use.
func embeddedOracle([]string) error {
	c, err := metadata.Collection()
	if err != nil {
		return err
	}
	if g, x := planBytes(c), planBytes(collOf["embedded"].coll); !bytes.Equal(g, x) {
		return errors.New("Collection is not the embedded one")
	}
	return nil
}

type question struct {
	oracle string
	args   []string
}

var (
	batteryOnce sync.Once
	battery     []question
	small       []question
)

// initBattery collects questions about numbers of every collection.
func initBattery() {
	initCollections()
	batteryOnce.Do(func() {
		seen := map[string]bool{}
		ask := func(brief bool, o string, args ...string) {
			k := o + "\x00" + strings.Join(args, "\x00")
			if seen[k] {
				return
			}
			seen[k] = true
			battery = append(battery, question{o, args})
			if brief {
				small = append(small, question{o, args})
			}
		}
		for i, x := range collections {
			ccs := x.w.CCs()
			if len(ccs) > 40 {
				ccs = []int{1, 33, 39, 44, 49, 52, 54, 55, 81, 86, 800, 979}
			}
			for j, cc := range ccs {
				p := x.w.Main(cc)
				if p == nil {
					continue
				}
				n := 0
				for _, d := range []*model.Desc{&p.Fixed, &p.Mobile, &p.TollFree, &p.Premium, &p.Shared} {
					if d.Example == "" || n == 2 {
						continue
					}
					n++
					e := enc(numOf(cc, d.Example))
					brief := i > 0 && j < 2 && n == 1
					ask(brief, "parse", "+"+strconv.Itoa(cc)+d.Example, "ZZ")
					ask(brief, "classify", e)
					ask(brief, "format", e)
					ask(false, "possible", e)
					ask(false, "anatomy", e)
					ask(false, "dial", e, "US")
					ask(false, "validFor", e, p.ID)
					ask(brief, "session", d.Example, p.ID)
					ask(false, "find", "call "+p.NP+d.Example+" now", p.ID, "1", "")
					for _, r := range []string{"US", "GB", p.ID} {
						ask(brief, "parse", p.NP+d.Example, r)
					}
				}
				ask(j < 3, "cc", strconv.Itoa(cc))
				ask(j < 3, "region", p.ID)
				ask(false, "accessors", p.ID, strconv.Itoa(cc))
			}
		}
		ask(false, "embedded")
	})
}

// seqOracle: a history of swaps ("u:name"), restores ("r", and "d" for calling
// the same restore function once more), and calls that build containers but do
// not put them in use ("l", "n"), with questions after every step.
func seqOracle(a []string) error {
	type frame struct {
		w       *model.World
		swapped bool
		restore func()
	}
	var stack []frame
	oldW, oldS := w, swapped
	defer func() {
		for i := len(stack) - 1; i >= 0; i-- {
			stack[i].restore()
		}
		w, swapped = oldW, oldS
	}()
	var last func()
	for i, op := range a {
		switch {
		case strings.HasPrefix(op, "u:"):
			x := collOf[op[2:]]
			if x == nil {
				return nil
			}
			c, cc := x.fresh()
			mc, err := metadata.NewContainer(c, cc)
			if err != nil {
				return fmt.Errorf("NewContainer(%s): %w", x.name, err)
			}
			stack = append(stack, frame{w, swapped, metadata.Use(mc)})
			w, swapped = x.w, x.name != "embedded"
		case op == "r":
			f := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			f.restore()
			w, swapped, last = f.w, f.swapped, f.restore
		case op == "d":
			if last != nil {
				last()
			}
		case op == "l":
			if _, err := metadata.Load(); err != nil {
				return fmt.Errorf("Load: %w", err)
			}
		case op == "n":
			if _, err := metadata.NewContainer(&metadata.PhoneMetadataCollection{}, map[int][]string{1: {"US"}}); !errors.Is(err, metadata.ErrEmptyMetadata) {
				return fmt.Errorf("an empty collection: %v", err)
			}
			c, cc := collOf["one"].fresh()
			if _, err := metadata.NewContainer(c, cc); err != nil {
				return fmt.Errorf("NewContainer: %w", err)
			}
		}
		qs := small
		if i == len(a)-1 {
			qs = battery
		}
		for _, q := range qs {
			if err := explore.Safe(swapOracles[q.oracle], q.args); err != nil {
				return fmt.Errorf("after %v: %s(%q): %w", a[:i+1], q.oracle, q.args, err)
			}
		}
	}
	return nil
}

func exploreSwaps(c *explore.Ctx) {
	histories := func(names []string, n int) {
		var all [][]string
		var rec func(ops []string, depth int)
		rec = func(ops []string, depth int) {
			if len(ops) == n {
				all = append(all, slices.Clone(ops))
				return
			}
			for _, x := range names {
				rec(append(ops, "u:"+x), depth+1)
			}
			if depth > 0 {
				rec(append(ops, "r"), depth-1)
			}
			if len(ops) > 0 && ops[len(ops)-1] == "r" {
				rec(append(ops, "d"), depth)
			}
			if len(ops) == 0 || ops[len(ops)-1] != "l" && ops[len(ops)-1] != "n" {
				rec(append(ops, "l"), depth)
				rec(append(ops, "n"), depth)
			}
		}
		rec(nil, 0)
		c.Seq("histories", func(k *explore.Worker) {
			for _, h := range all {
				if !k.Do("seq", h...) {
					return
				}
			}
		})
	}
	var names []string
	for _, x := range collections {
		names = append(names, x.name)
	}
	if c.Thorough {
		histories(names, 4)
		histories([]string{"few", "moved"}, 6)
	} else {
		histories(names, 3)
		histories([]string{"few", "moved"}, 4)
	}
	for _, x := range collections {
		if x.name == "embedded" && !c.Thorough || c.Stopped() {
			continue
		}
		exploreCollection(c, x)
	}
}

// exploreCollection asks everything about one collection, in parallel, with it
// in use.
func exploreCollection(c *explore.Ctx, x *collection) {
	err := using(x.name, func() error {
		activeName = x.name
		defer func() { activeName = "" }()
		limit := 20000
		if len(x.w.CCRegions) > 100 && !c.Thorough {
			limit = 400
		}
		sp, of := buildSpaces(limit)
		oldSp, oldOf := spaces, spaceOf
		spaces, spaceOf = sp, of
		defer func() { spaces, spaceOf = oldSp, oldOf }()
		countSpaces(c)
		c.With([]string{"on", x.name}, func() {
			c.Par("numbers of "+x.name, len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				cc := strconv.Itoa(s.cc)
				for i, nsn := range s.nsns {
					e := enc(numOf(s.cc, nsn))
					if !k.Do("classify", e) || !k.Do("possible", e) || !k.Do("format", e) || !k.Do("anatomy", e) || !k.Do("parse", "+"+cc+nsn, "ZZ") || !k.Do("carrier", e, "15") {
						return
					}
					for j, r := range s.reg {
						if j > 0 && len(s.reg) > 4 && (i+j)%len(s.reg) > 2 {
							continue
						}
						k.Do("validFor", e, r)
						k.Do("parse", nsn, r)
						k.Do("parse", cc+nsn, r)
						k.Do("dial", e, r)
						if p := w.Region(r); p != nil && p.NP != "" {
							k.Do("parse", p.NP+nsn, r)
						}
					}
					k.Do("dial", e, otherRegions[i%len(otherRegions)])
				}
			})
			c.Par("lengths of "+x.name, len(spaces), func(k *explore.Worker, u int) {
				for n := 1; n <= 19; n++ {
					for _, d := range "129" {
						for z := 0; z <= 2; z++ {
							k.Do("possible", enc(numOf(spaces[u].cc, strings.Repeat("0", z)+strings.Repeat(string(d), n))))
						}
					}
				}
			})
			c.Par("forms of "+x.name, len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				cc := strconv.Itoa(s.cc)
				for i, nsn := range s.reps {
					if i == 60 && !c.Thorough {
						break
					}
					n := numOf(s.cc, nsn)
					for j, r := range append([]string{"ZZ", "US", "XA"}, s.reg...) {
						if j > 6 {
							break
						}
						p := w.Region(r)
						np := ""
						if p != nil {
							np = p.NP
						}
						for _, t := range []string{"+" + cc + " " + nsn, np + nsn, nsn} {
							k.Do("session", t, r)
							k.Do("original", t, r, r)
							k.Do("original", t, r, "US")
							for l := 0; l < 4; l++ {
								k.Do("find", "Tel. "+styled(t, "-")+" x5, ok", r, strconv.Itoa(l), "")
							}
							k.Do("strings", "+"+cc+nsn, t)
							k.Do("one", enc(n), t)
							k.Do("possibleString", t, r)
						}
						for _, y := range idds(p, 2) {
							k.Do("parse", y+cc+nsn, r)
							k.Do("session", y+cc+nsn, r)
						}
						for _, y := range natPrefixes(p, 6) {
							k.Do("parse", y+nsn, r)
						}
						k.Do("dial", enc(n), r)
						k.Do("number", enc(n), r)
					}
				}
			})
			c.Par("short numbers with "+x.name, len(shortSpaces), func(k *explore.Worker, u int) {
				s := shortSpaces[u]
				p := w.Region(s.region)
				if p == nil || len(x.w.CCRegions) > 100 && !c.Thorough {
					return
				}
				cc := p.CC
				for _, nsn := range s.nsns {
					e := enc(numOf(cc, nsn))
					if !k.Do("short", e) || !k.Do("shortFor", e, s.region) {
						return
					}
					for _, r := range w.CCRegions[cc] {
						k.Do("shortFor", e, r)
					}
				}
			})
			c.Par("lookups with "+x.name, len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				for i, nsn := range s.reps {
					if i == 400 && !c.Thorough {
						break
					}
					e := enc(numOf(s.cc, nsn))
					if !k.Do("geo", e, "en") || !k.Do("geo", e, "de") || !k.Do("zones", e) || !k.Do("carrierName", e, "en") {
						return
					}
					for _, r := range append([]string{"US", "XB"}, s.reg...) {
						k.Do("geoUser", e, "en", r)
					}
				}
			})
			c.Seq("codes of "+x.name, func(k *explore.Worker) {
				for cc := -2; cc <= 1100; cc++ {
					k.Do("cc", strconv.Itoa(cc))
				}
				for a := 'A'; a <= 'Z'; a++ {
					for b := 'A'; b <= 'Z'; b++ {
						k.Do("region", string(a)+string(b))
					}
				}
				for _, r := range append(allRegions(), "gb", "U", "USX", "840") {
					k.Do("region", r)
					k.Do("accessors", r, "800")
				}
				for _, cc := range w.CCs() {
					k.Do("accessors", "US", strconv.Itoa(cc))
				}
				for t := -1; t <= 13; t++ {
					k.Do("exampleType", strconv.Itoa(t))
				}
				for _, n := range oddNumbers() {
					k.Do("classify", enc(n))
					k.Do("format", enc(n))
					k.Do("possible", enc(n))
				}
				k.Do("embedded")
			})
		})
		return nil
	})
	if err != nil {
		c.Note("%s: %v", x.name, err)
		c.Incomplete()
	}
}

func init() {
	swapOracles = map[string]explore.Oracle{
		"parse": parseOracle, "classify": classifyOracle, "validFor": validForOracle, "possible": possibleOracle, "possibleString": possibleStringOracle,
		"format": formatOracle, "dial": dialOracle, "carrier": carrierFormatOracle, "anatomy": anatomyOracle, "cc": ccOracle, "region": regionOracle,
		"exampleType": exampleTypeOracle, "session": sessionOracle, "find": findOracle, "strings": matchStringsOracle, "one": matchOneOracle,
		"original": originalOracle, "number": originalNumOracle, "accessors": accessorsOracle, "embedded": embeddedOracle,
		"short": shortOracle, "shortFor": shortRegionOracle, "geo": geoOracle, "geoUser": geoUserOracle, "zones": zonesOracle, "carrierName": carrierOracle,
	}
	explore.Register(&explore.Property{
		ID:          "C21",
		Rule:        "all histories of 3 (thorough 4) swaps, restores, repeated restores and container constructions over seven collections (embedded, a subset, the subset with parts of its descriptions left out and regions no other data knows, the subset under other calling codes, every plan given to the next region, one synthetic region as the whole of North America, the repository's test document), and of 4 (thorough 6) over two of them, with questions about numbers of all collections after every step; and, for each collection in use, every product-automaton transition of its plans and the class representatives in written forms, typed, searched, matched, formatted and looked up, every transition of the short-number plans of its regions, all calling codes and all two-letter regions",
		Assumptions: []string{"swaps are not concurrent with calls, and restores happen in reverse order, as documented", "collections are consistent: every listed region has a plan"},
		Init:        initBattery,
		Oracles:     map[string]explore.Oracle{"seq": seqOracle, "on": onOracle},
		Explore:     exploreSwaps,
	})
}

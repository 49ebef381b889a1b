// Package model is an independent, deliberately boring reference model of what
// nyaruka/phonenumbers promises: the numbering-plan semantics of
// libphonenumber, written from its specification, with its own decoder for the
// embedded data. It never calls the code under test.
package model

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Fmt is one formatting rule.
type Fmt struct {
	Pattern, Format string
	Leading         []string
	NPRule          string
	NPOptional      bool
	CCRule          string

	full, re, lead, first *regexp.Regexp
}

// Desc describes one kind of number in a plan.
type Desc struct {
	Present    bool
	Pattern    string
	HasPattern bool
	Len, Local []int
	Example    string

	full, look *regexp.Regexp
}

// Plan is the metadata of one territory.
type Plan struct {
	ID                                              string
	CC                                              int
	General, Fixed, Mobile, TollFree, Premium       Desc
	Shared, Personal, Voip, Pager, UAN              Desc
	Emergency, Voicemail, ShortCode, Standard       Desc
	CarrierSpecific, SMS, NoIntl                    Desc
	IDD, PrefIDD, NP, ExtPrefix, NPParse, Transform string
	SameMobileFixed, MainCountry, Portable          bool
	LeadingDigits                                   string
	Formats, IntlFormats                            []*Fmt

	iddRe, npRe, leadRe *regexp.Regexp
}

// World is a complete set of numbering plans.
type World struct {
	Dir       string
	CCRegions map[int][]string
	Regions   map[string]*Plan
	NonGeo    map[int]*Plan
	Short     map[string]*Plan
	Alt       map[int]*Plan
	Supported map[string]bool
	TZ        map[int][]string
	Carrier   map[string]map[string]string // language -> prefix digits -> value
	Geo       map[string]map[string]string
}

type field struct {
	num  int
	wt   int
	v    uint64
	data []byte
}

func fields(b []byte) []field {
	var out []field
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			panic("bad tag")
		}
		b = b[n:]
		f := field{num: int(tag >> 3), wt: int(tag & 7)}
		switch f.wt {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				panic("bad varint")
			}
			f.v, b = v, b[n:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || int(l) > len(b)-n {
				panic("bad length")
			}
			f.data, b = b[n:n+int(l)], b[n+int(l):]
		default:
			panic(fmt.Sprintf("unexpected wire type %d", f.wt))
		}
		out = append(out, f)
	}
	return out
}

func (f field) ints() []int {
	if f.wt == 0 {
		return []int{int(int32(f.v))}
	}
	var out []int
	b := f.data
	for len(b) > 0 {
		v, n := binary.Uvarint(b)
		out = append(out, int(int32(v)))
		b = b[n:]
	}
	return out
}

func decodeFmt(b []byte) *Fmt {
	f := &Fmt{}
	for _, x := range fields(b) {
		switch x.num {
		case 1:
			f.Pattern = string(x.data)
		case 2:
			f.Format = string(x.data)
		case 3:
			f.Leading = append(f.Leading, string(x.data))
		case 4:
			f.NPRule = string(x.data)
		case 5:
			f.CCRule = string(x.data)
		case 6:
			f.NPOptional = x.v != 0
		}
	}
	return f
}

func decodeDesc(b []byte) Desc {
	d := Desc{Present: true}
	for _, x := range fields(b) {
		switch x.num {
		case 2:
			d.Pattern, d.HasPattern = string(x.data), true
		case 6:
			d.Example = string(x.data)
		case 9:
			d.Len = append(d.Len, x.ints()...)
		case 10:
			d.Local = append(d.Local, x.ints()...)
		}
	}
	return d
}

func decodePlan(b []byte) *Plan {
	p := &Plan{}
	for _, x := range fields(b) {
		switch x.num {
		case 1:
			p.General = decodeDesc(x.data)
		case 2:
			p.Fixed = decodeDesc(x.data)
		case 3:
			p.Mobile = decodeDesc(x.data)
		case 4:
			p.TollFree = decodeDesc(x.data)
		case 5:
			p.Premium = decodeDesc(x.data)
		case 6:
			p.Shared = decodeDesc(x.data)
		case 7:
			p.Personal = decodeDesc(x.data)
		case 8:
			p.Voip = decodeDesc(x.data)
		case 21:
			p.Pager = decodeDesc(x.data)
		case 25:
			p.UAN = decodeDesc(x.data)
		case 27:
			p.Emergency = decodeDesc(x.data)
		case 28:
			p.Voicemail = decodeDesc(x.data)
		case 29:
			p.ShortCode = decodeDesc(x.data)
		case 30:
			p.Standard = decodeDesc(x.data)
		case 31:
			p.CarrierSpecific = decodeDesc(x.data)
		case 33:
			p.SMS = decodeDesc(x.data)
		case 24:
			p.NoIntl = decodeDesc(x.data)
		case 9:
			p.ID = string(x.data)
		case 10:
			p.CC = int(int32(x.v))
		case 11:
			p.IDD = string(x.data)
		case 17:
			p.PrefIDD = string(x.data)
		case 12:
			p.NP = string(x.data)
		case 13:
			p.ExtPrefix = string(x.data)
		case 15:
			p.NPParse = string(x.data)
		case 16:
			p.Transform = string(x.data)
		case 18:
			p.SameMobileFixed = x.v != 0
		case 19:
			p.Formats = append(p.Formats, decodeFmt(x.data))
		case 20:
			p.IntlFormats = append(p.IntlFormats, decodeFmt(x.data))
		case 22:
			p.MainCountry = x.v != 0
		case 23:
			p.LeadingDigits = string(x.data)
		case 32:
			p.Portable = x.v != 0
		}
	}
	p.Compile()
	return p
}

func full(p string) *regexp.Regexp { return regexp.MustCompile(`^(?:` + p + `)$`) }
func look(p string) *regexp.Regexp { return regexp.MustCompile(`^(?:` + p + `)`) }

// Compile prepares the rule's regular expressions.
func (f *Fmt) Compile() *Fmt {
	f.full = full(f.Pattern)
	f.re = regexp.MustCompile(f.Pattern)
	if n := len(f.Leading); n > 0 {
		f.lead = look(f.Leading[n-1])
		f.first = look(f.Leading[0])
	}
	return f
}

func (d *Desc) compile() {
	if d.Pattern != "" {
		d.full, d.look = full(d.Pattern), look(d.Pattern)
	}
}

func (p *Plan) descs() []*Desc {
	return []*Desc{&p.General, &p.Fixed, &p.Mobile, &p.TollFree, &p.Premium, &p.Shared, &p.Personal, &p.Voip,
		&p.Pager, &p.UAN, &p.Emergency, &p.Voicemail, &p.ShortCode, &p.Standard, &p.CarrierSpecific, &p.SMS, &p.NoIntl}
}

// Descs returns every description of the plan.
func (p *Plan) Descs() []*Desc { return p.descs() }

// Compile prepares the plan's regular expressions.
func (p *Plan) Compile() *Plan {
	for _, d := range p.descs() {
		d.compile()
	}
	for _, f := range p.Formats {
		f.Compile()
	}
	for _, f := range p.IntlFormats {
		f.Compile()
	}
	if p.IDD != "" {
		p.iddRe = look(p.IDD)
	}
	if p.NPParse != "" {
		p.npRe = look(p.NPParse)
	}
	if p.LeadingDigits != "" {
		p.leadRe = look(p.LeadingDigits)
	}
	return p
}

// Gunzip decompresses data.
func Gunzip(data []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		panic(err)
	}
	out, err := io.ReadAll(r)
	if err != nil {
		panic(err)
	}
	return out
}

// ReadGz reads a compressed file.
func ReadGz(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return Gunzip(b)
}

// DecodeCollection decodes a serialized metadata collection.
func DecodeCollection(b []byte) []*Plan {
	var out []*Plan
	for _, x := range fields(b) {
		if x.num == 1 {
			out = append(out, decodePlan(x.data))
		}
	}
	return out
}

type cursor struct {
	b []byte
}

func (c *cursor) u32() int {
	v := binary.LittleEndian.Uint32(c.b)
	c.b = c.b[4:]
	return int(v)
}
func (c *cursor) u16() int {
	v := binary.LittleEndian.Uint16(c.b)
	c.b = c.b[2:]
	return int(v)
}
func (c *cursor) u8() int { v := c.b[0]; c.b = c.b[1:]; return int(v) }
func (c *cursor) uvarint() int {
	v, n := binary.Uvarint(c.b)
	if n <= 0 {
		panic("bad uvarint")
	}
	c.b = c.b[n:]
	return int(v)
}
func (c *cursor) values() []string {
	n := c.u32()
	v := string(c.b[:n])
	c.b = c.b[n:]
	return strings.Split(v, "\n")
}

// DecodeIntArrayMap decodes an (unzipped) key -> list blob.
func DecodeIntArrayMap(b []byte) map[int][]string {
	c := &cursor{b}
	vals := c.values()
	n := c.u32()
	out := map[int][]string{}
	key := 0
	for i := 0; i < n; i++ {
		key += c.uvarint()
		k := c.u8()
		l := []string{}
		for j := 0; j < k; j++ {
			l = append(l, vals[c.u16()])
		}
		out[key] = l
	}
	if len(c.b) != 0 {
		panic("trailing bytes")
	}
	return out
}

// DecodePrefixMap decodes an (unzipped) prefix -> value blob, keyed by digits.
func DecodePrefixMap(b []byte) map[string]string {
	c := &cursor{b}
	vals := c.values()
	n := c.u32()
	out := map[string]string{}
	key := 0
	for i := 0; i < n; i++ {
		key += c.uvarint()
		out[fmt.Sprint(key)] = vals[c.u16()]
	}
	if len(c.b) != 0 {
		panic("trailing bytes")
	}
	return out
}

// NewWorld derives a world from plans and a calling-code table.
func NewWorld(plans []*Plan, cc map[int][]string) *World {
	w := &World{CCRegions: cc, Regions: map[string]*Plan{}, NonGeo: map[int]*Plan{}, Short: map[string]*Plan{},
		Alt: map[int]*Plan{}, Supported: map[string]bool{}}
	for _, p := range plans {
		if p.ID == "001" {
			w.NonGeo[p.CC] = p
		} else {
			w.Regions[p.ID] = p
		}
	}
	for _, rs := range cc {
		if len(rs) == 1 && rs[0] == "001" {
			continue
		}
		for _, r := range rs {
			if r != "001" {
				w.Supported[r] = true
			}
		}
	}
	return w
}

// Load reads the world embedded in the repository at dir.
func Load(dir string) *World {
	w := NewWorld(DecodeCollection(ReadGz(filepath.Join(dir, "metadata/data/metadata.xml.gz"))),
		DecodeIntArrayMap(ReadGz(filepath.Join(dir, "metadata/data/countrycode_to_region.xml.gz"))))
	w.Dir = dir
	for _, p := range DecodeCollection(ReadGz(filepath.Join(dir, "data/shortnumber_metadata.xml.gz"))) {
		if p.ID != "001" {
			w.Short[p.ID] = p
		}
	}
	for _, p := range DecodeCollection(ReadGz(filepath.Join(dir, "data/alternateformats_metadata.xml.gz"))) {
		w.Alt[p.CC] = p
	}
	return w
}

// LoadLookups additionally reads the carrier, geocoding and timezone tables.
func (w *World) LoadLookups() {
	w.TZ = DecodeIntArrayMap(ReadGz(filepath.Join(w.Dir, "timezone/data/prefix_to_timezone.xml.gz")))
	load := func(sub string) map[string]map[string]string {
		out := map[string]map[string]string{}
		es, _ := filepath.Glob(filepath.Join(w.Dir, sub, "data/*.txt.gz"))
		for _, e := range es {
			out[strings.TrimSuffix(filepath.Base(e), ".txt.gz")] = DecodePrefixMap(ReadGz(e))
		}
		return out
	}
	w.Carrier = load("carrier")
	w.Geo = load("geocoding")
}

// CCs lists the calling codes in order.
func (w *World) CCs() []int {
	var out []int
	for c := range w.CCRegions {
		out = append(out, c)
	}
	sort.Ints(out)
	return out
}

// RegionList lists the supported regions in order.
func (w *World) RegionList() []string {
	var out []string
	for r := range w.Supported {
		out = append(out, r)
	}
	sort.Strings(out)
	return out
}

// Main returns the main plan of a calling code (nil if unknown).
func (w *World) Main(cc int) *Plan {
	rs := w.CCRegions[cc]
	if len(rs) == 0 {
		return nil
	}
	if rs[0] == "001" {
		return w.NonGeo[cc]
	}
	return w.region(rs[0])
}

func (w *World) region(r string) *Plan {
	if !w.Supported[r] {
		return nil
	}
	return w.Regions[r]
}

// Region returns the plan of a supported region, or nil.
func (w *World) Region(r string) *Plan { return w.region(r) }

// RegionForCC is the main region of a calling code, "ZZ" if there is none.
func (w *World) RegionForCC(cc int) string {
	if rs := w.CCRegions[cc]; len(rs) > 0 {
		return rs[0]
	}
	return "ZZ"
}

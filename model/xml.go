package model

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Node is an XML element.
type Node struct {
	Name  string
	Attr  map[string]string
	Kids  []*Node
	Text  string
	depth int
}

// ParseXML reads a document into a tree.
func ParseXML(b []byte) (*Node, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	root := &Node{}
	stack := []*Node{root}
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			n := &Node{Name: t.Name.Local, Attr: map[string]string{}}
			for _, a := range t.Attr {
				n.Attr[a.Name.Local] = a.Value
			}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.Text += string(t)
		}
	}
	if len(stack) != 1 || len(root.Kids) != 1 {
		return nil, errors.New("not one document")
	}
	return root.Kids[0], nil
}

func (n *Node) kids(name string) []*Node {
	var out []*Node
	if n == nil {
		return nil
	}
	for _, k := range n.Kids {
		if k.Name == name {
			out = append(out, k)
		}
	}
	return out
}

func (n *Node) kid(name string) *Node {
	if k := n.kids(name); len(k) > 0 {
		return k[0]
	}
	return nil
}

var errMalformed = errors.New("malformed metadata")

// ErrMalformed is what the build has to stop on.
func malformed(f string, a ...any) error {
	return fmt.Errorf("%w: "+f, append([]any{errMalformed}, a...)...)
}

func checkedRE(s string, squeeze bool) (string, error) {
	if squeeze {
		s = strings.Map(func(r rune) rune {
			switch r {
			case ' ', '\t', '\n', '\r', '\f':
				return -1
			}
			return r
		}, s)
	}
	if _, err := regexp.Compile(s); err != nil {
		return "", malformed("%v", err)
	}
	return s, nil
}

// ParseLengths reads a possible-length list: numbers and [min-max] ranges of
// at least three, separated by commas.
func ParseLengths(s string) (map[int]bool, error) {
	out := map[int]bool{}
	for _, e := range strings.Split(s, ",") {
		if e == "" {
			return nil, malformed("empty length in %q", s)
		}
		if e[0] != '[' {
			v, err := strconv.Atoi(e)
			if err != nil {
				return nil, malformed("length %q", e)
			}
			out[v] = true
			continue
		}
		m := regexp.MustCompile(`^\[(\d+)-(\d+)\]$`).FindStringSubmatch(e)
		if m == nil {
			return nil, malformed("range %q", e)
		}
		lo, _ := strconv.Atoi(m[1])
		hi, _ := strconv.Atoi(m[2])
		if hi-lo < 2 {
			return nil, malformed("range %q", e)
		}
		for v := lo; v <= hi; v++ {
			out[v] = true
		}
	}
	return out, nil
}

func lengthsOf(d *Node) (nat, loc map[int]bool, err error) {
	nat, loc = map[int]bool{}, map[int]bool{}
	p := d.kid("possibleLengths")
	if p == nil {
		return
	}
	if nat, err = ParseLengths(p.Attr["national"]); err != nil {
		return
	}
	if l := p.Attr["localOnly"]; l != "" {
		if loc, err = ParseLengths(l); err != nil {
			return
		}
		for v := range loc {
			if nat[v] {
				return nat, loc, malformed("length %d is both national and local-only", v)
			}
		}
	}
	return
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for v := range m {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}

// Kinds of metadata document.
const (
	FullDoc = iota
	ShortDoc
	AlternateDoc
)

// BuildXML gives the plans a document denotes, in document order.
func BuildXML(doc []byte, kind int) ([]*Plan, error) {
	root, err := ParseXML(doc)
	if err != nil {
		return nil, malformed("%v", err)
	}
	var out []*Plan
	for _, ts := range root.kids("territories") {
		for _, t := range ts.kids("territory") {
			p, err := buildTerritory(t, kind)
			if err != nil {
				return nil, err
			}
			out = append(out, p)
		}
	}
	return out, nil
}

func buildTerritory(t *Node, kind int) (*Plan, error) {
	p := &Plan{ID: t.Attr["id"]}
	var err error
	if p.CC, err = strconv.Atoi(t.Attr["countryCode"]); err != nil {
		if t.Attr["countryCode"] != "" {
			return nil, malformed("calling code")
		}
	}
	re := func(name string, squeeze bool) string {
		s, e := checkedRE(t.Attr[name], squeeze)
		if e != nil {
			err = e
		}
		return s
	}
	err = nil
	np := t.Attr["nationalPrefix"]
	p.LeadingDigits = re("leadingDigits", false)
	p.IDD = re("internationalPrefix", false)
	p.PrefIDD = t.Attr["preferredInternationalPrefix"]
	if p.NPParse = re("nationalPrefixForParsing", true); p.NPParse != "" {
		p.Transform = re("nationalPrefixTransformRule", false)
	}
	p.NP = np
	if p.NPParse == "" {
		p.NPParse = np
	}
	p.ExtPrefix = t.Attr["preferredExtnPrefix"]
	p.MainCountry = t.Attr["mainCountryForCode"] == "true"
	p.Portable = t.Attr["mobileNumberPortableRegion"] == "true"
	if err != nil {
		return nil, err
	}

	rule := func(s string) string {
		s = strings.Replace(s, "$NP", np, 1)
		return strings.Replace(s, "$FG", "$1", 1)
	}
	parentRule := rule(t.Attr["nationalPrefixFormattingRule"])
	parentOpt := t.Attr["nationalPrefixOptionalWhenFormatting"] == "true"
	parentCarrier := rule(t.Attr["carrierCodeFormattingRule"])
	if _, err := checkedRE(parentCarrier, false); err != nil {
		return nil, err
	}
	explicit := false
	for _, af := range t.kids("availableFormats") {
		for _, nf := range af.kids("numberFormat") {
			f := &Fmt{Pattern: nf.Attr["pattern"], NPRule: parentRule, NPOptional: parentOpt, CCRule: parentCarrier}
			if _, err := checkedRE(f.Pattern, false); err != nil {
				return nil, err
			}
			for _, l := range nf.kids("leadingDigits") {
				s, err := checkedRE(l.Text, true)
				if err != nil {
					return nil, err
				}
				f.Leading = append(f.Leading, s)
			}
			if k := nf.kid("format"); k != nil {
				f.Format = k.Text
			}
			if s := nf.Attr["nationalPrefixFormattingRule"]; s != "" {
				f.NPRule = rule(s)
			}
			if s, ok := nf.Attr["nationalPrefixOptionalWhenFormatting"]; ok {
				f.NPOptional = s == "true"
			}
			if s := nf.Attr["carrierCodeFormattingRule"]; s != "" {
				f.CCRule = rule(s)
				if _, err := checkedRE(f.CCRule, false); err != nil {
					return nil, err
				}
			}
			p.Formats = append(p.Formats, f)
			intl := nf.kids("intlFormat")
			switch {
			case len(intl) > 1:
				return nil, malformed("several intlFormats")
			case len(intl) == 0:
				g := *f
				p.IntlFormats = append(p.IntlFormats, &g)
			default:
				explicit = true
				if s := intl[0].Text; s != "NA" {
					p.IntlFormats = append(p.IntlFormats, &Fmt{Pattern: f.Pattern, Leading: f.Leading, Format: s})
				}
			}
		}
	}
	if !explicit {
		p.IntlFormats = nil
	}
	if kind == AlternateDoc {
		return p, nil
	}

	// general description: the union of what its kinds of number list
	gen := t.kid("generalDesc")
	gn, gl, err := lengthsOf(gen)
	if err != nil {
		return nil, err
	}
	if len(gn)+len(gl) > 0 {
		return nil, malformed("lengths in the general description")
	}
	var union []string
	if kind == FullDoc {
		union = []string{"fixedLine", "mobile", "pager", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "uan", "voicemail", "standardRate", "shortCode", "emergency", "carrierSpecific"}
	} else {
		union = []string{"shortCode"}
	}
	allNat, allLoc := map[int]bool{}, map[int]bool{}
	for _, name := range union {
		n, l, err := lengthsOf(t.kid(name))
		if err != nil {
			return nil, err
		}
		for v := range n {
			allNat[v] = true
		}
		for v := range l {
			allLoc[v] = true
		}
	}
	if kind == ShortDoc && len(allLoc) > 0 {
		return nil, malformed("local-only lengths of short numbers")
	}
	locOnly := map[int]bool{}
	for v := range allLoc {
		if !allNat[v] {
			locOnly[v] = true
		}
	}
	desc := func(name string) (Desc, error) {
		n := t.kid(name)
		if n == nil {
			return Desc{Present: true, Len: []int{-1}}, nil
		}
		d := Desc{Present: true}
		if k := n.kid("nationalNumberPattern"); k != nil {
			s, err := checkedRE(k.Text, true)
			if err != nil {
				return d, err
			}
			d.Pattern, d.HasPattern = s, s != ""
		}
		if k := n.kid("exampleNumber"); k != nil {
			d.Example = k.Text
		}
		if name == "generalDesc" {
			return d, nil
		}
		nat, loc, err := lengthsOf(n)
		if err != nil {
			return d, err
		}
		same := len(nat) == len(allNat)
		for v := range nat {
			same = same && allNat[v]
		}
		if !same {
			for v := range nat {
				if !allNat[v] {
					return d, malformed("length %d is not listed generally", v)
				}
			}
			d.Len = sortedInts(nat)
		}
		for v := range loc {
			if !allNat[v] && !locOnly[v] {
				return d, malformed("local-only length %d is not listed generally", v)
			}
		}
		d.Local = sortedInts(loc)
		return d, nil
	}
	if p.General, err = desc("generalDesc"); err != nil {
		return nil, err
	}
	p.General.Len = nil
	if gen == nil {
		p.General = Desc{Present: true}
	}
	p.General.Len = sortedInts(allNat)
	p.General.Local = sortedInts(locOnly)
	type slot struct {
		name string
		d    *Desc
	}
	var slots []slot
	if kind == FullDoc {
		slots = []slot{{"fixedLine", &p.Fixed}, {"mobile", &p.Mobile}, {"sharedCost", &p.Shared}, {"voip", &p.Voip},
			{"personalNumber", &p.Personal}, {"pager", &p.Pager}, {"uan", &p.UAN}, {"voicemail", &p.Voicemail},
			{"noInternationalDialling", &p.NoIntl}, {"tollFree", &p.TollFree}, {"premiumRate", &p.Premium}}
	} else {
		slots = []slot{{"standardRate", &p.Standard}, {"shortCode", &p.ShortCode}, {"carrierSpecific", &p.CarrierSpecific},
			{"emergency", &p.Emergency}, {"tollFree", &p.TollFree}, {"premiumRate", &p.Premium}, {"smsServices", &p.SMS}}
	}
	for _, s := range slots {
		if *s.d, err = desc(s.name); err != nil {
			return nil, err
		}
	}
	if kind == FullDoc {
		p.SameMobileFixed = p.Mobile.Pattern == p.Fixed.Pattern
	}
	return p, nil
}

// RegionMap lists the regions of each calling code: main countries first,
// latest first, then the others in document order.
func RegionMap(plans []*Plan) map[int][]string {
	out := map[int][]string{}
	for _, p := range plans {
		l, seen := out[p.CC]
		switch {
		case !seen && p.ID == "":
			out[p.CC] = []string{}
		case seen && p.MainCountry:
			out[p.CC] = append([]string{p.ID}, l...)
		default:
			out[p.CC] = append(l, p.ID)
		}
	}
	return out
}

func (d *Desc) dump() string {
	return fmt.Sprintf("{%v %q %v %v %v %q}", d.Present, d.Pattern, d.HasPattern, d.Len, d.Local, d.Example)
}

func (f *Fmt) dump() string {
	return fmt.Sprintf("{%q %q %q %q %v %q}", f.Pattern, f.Format, f.Leading, f.NPRule, f.NPOptional, f.CCRule)
}

// Dump renders everything a plan says.
func (p *Plan) Dump() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %d idd=%q pref=%q np=%q ext=%q parse=%q tr=%q same=%v main=%v port=%v lead=%q\n",
		p.ID, p.CC, p.IDD, p.PrefIDD, p.NP, p.ExtPrefix, p.NPParse, p.Transform, p.SameMobileFixed, p.MainCountry, p.Portable, p.LeadingDigits)
	names := []string{"general", "fixed", "mobile", "tollfree", "premium", "shared", "personal", "voip", "pager", "uan", "emergency", "voicemail", "shortcode", "standard", "carrier", "sms", "nointl"}
	for i, d := range p.descs() {
		fmt.Fprintf(&b, " %s %s\n", names[i], d.dump())
	}
	for _, f := range p.Formats {
		b.WriteString(" fmt " + f.dump() + "\n")
	}
	for _, f := range p.IntlFormats {
		b.WriteString(" intl " + f.dump() + "\n")
	}
	return b.String()
}

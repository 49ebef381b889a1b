package model

import (
	"strconv"

	"golang.org/x/text/language"
	"golang.org/x/text/language/display"
)

// longest returns the value of the longest prefix of digits in m.
func longest(m map[string]string, digits string) string {
	for i := len(digits); i > 0; i-- {
		if v, ok := m[digits[:i]]; ok {
			return v
		}
	}
	return ""
}

func (w *World) e164Digits(n Num) string { return strconv.Itoa(n.CC) + n.NSN() }

// CarrierValid is the carrier of a number assumed valid.
func (w *World) CarrierValid(n Num, lang string) string {
	return longest(w.Carrier[lang], w.e164Digits(n))
}

// CarrierName is the carrier of a mobile number.
func (w *World) CarrierName(n Num, lang string) string {
	switch w.Type(n) {
	case Mobile, FixedOrMobile, Pager:
		return w.CarrierValid(n, lang)
	}
	return ""
}

// CarrierSafe is the carrier where numbers cannot be ported.
func (w *World) CarrierSafe(n Num, lang string) string {
	if p := w.region(w.RegionOf(n)); p != nil && p.Portable {
		return ""
	}
	return w.CarrierName(n, lang)
}

// RegionName is the localised name of a region.
func RegionName(region, lang string) string {
	if region == "" || region == "ZZ" || region == "001" {
		return ""
	}
	reg, err := language.ParseRegion(region)
	if err != nil {
		return ""
	}
	t, err := language.Parse(lang)
	if err != nil {
		t = language.English
	}
	if n := display.Regions(t); n != nil {
		return n.Name(reg)
	}
	return display.Regions(language.English).Name(reg)
}

// CountryName is the name of the only region where the number is valid.
func (w *World) CountryName(n Num, lang string) string {
	rs := w.CCRegions[n.CC]
	if len(rs) == 1 {
		return RegionName(rs[0], lang)
	}
	found := ""
	for _, r := range rs {
		if w.ValidFor(n, r) {
			if found != "" {
				return ""
			}
			found = r
		}
	}
	return RegionName(found, lang)
}

// GeoValid describes where a number assumed valid is from.
func (w *World) GeoValid(n Num, lang string) string {
	look := n
	nsn := n.NSN()
	if tok := MobileToken(n.CC); tok != "" && len(nsn) >= len(tok) && nsn[:len(tok)] == tok {
		if c, err := w.Parse(nsn[len(tok):], w.RegionForCC(n.CC), false); err == nil {
			look = c
		}
	}
	if v := longest(w.Geo[lang], w.e164Digits(look)); v != "" {
		return v
	}
	return w.CountryName(n, lang)
}

// GeoValidFor describes a number for a user in a region.
func (w *World) GeoValidFor(n Num, lang, user string) string {
	r := w.RegionOf(n)
	if r == user {
		return w.GeoValid(n, lang)
	}
	return RegionName(r, lang)
}

// GeoNumber describes a number, checking its type.
func (w *World) GeoNumber(n Num, lang string) string {
	t := w.Type(n)
	if t == Unknown {
		return ""
	}
	if !Geographical(t, n.CC) {
		return w.CountryName(n, lang)
	}
	return w.GeoValid(n, lang)
}

// GeoNumberFor describes a number for a user in a region, checking its type.
func (w *World) GeoNumberFor(n Num, lang, user string) string {
	t := w.Type(n)
	if t == Unknown {
		return ""
	}
	if !Geographical(t, n.CC) {
		return w.CountryName(n, lang)
	}
	return w.GeoValidFor(n, lang, user)
}

func (w *World) tz(digits string) []string {
	for i := len(digits); i > 0; i-- {
		k, err := strconv.Atoi(digits[:i])
		if err != nil {
			continue // longer than any key
		}
		if digits[0] == '0' {
			break
		}
		if v, ok := w.TZ[k]; ok {
			return v
		}
	}
	return []string{"Etc/Unknown"}
}

// TZGeo is the time zones of a number assumed geographical.
func (w *World) TZGeo(n Num) []string { return w.tz(w.e164Digits(n)) }

// TZNumber is the time zones of a number.
func (w *World) TZNumber(n Num) []string {
	t := w.Type(n)
	if t == Unknown {
		return []string{"Etc/Unknown"}
	}
	if !Geographical(t, n.CC) {
		return w.tz(strconv.Itoa(n.CC))
	}
	return w.TZGeo(n)
}

package model

// Short-number costs, in the order of the public enumeration.
const (
	CostTollFree = iota
	CostStandard
	CostPremium
	CostUnknown
)

// matchesShort: length (when restricted) and a non-empty pattern both match.
func (d *Desc) matchesShort(s string) bool {
	if !d.Present || d.full == nil {
		return false
	}
	if len(d.Len) > 0 && !has(d.Len, len(s)) {
		return false
	}
	return d.full.MatchString(s)
}

func (w *World) belongs(n Num, region string) *Plan {
	for _, r := range w.CCRegions[n.CC] {
		if r == region {
			return w.Short[region]
		}
	}
	return nil
}

// ShortPossibleFor region.
func (w *World) ShortPossibleFor(n Num, region string) bool {
	p := w.belongs(n, region)
	return p != nil && has(p.General.Len, len(n.NSN()))
}

// ShortPossible in any region of its calling code.
func (w *World) ShortPossible(n Num) bool {
	for _, r := range w.CCRegions[n.CC] {
		if w.ShortPossibleFor(n, r) {
			return true
		}
	}
	return false
}

// ShortValidFor region.
func (w *World) ShortValidFor(n Num, region string) bool {
	p := w.belongs(n, region)
	return p != nil && p.General.matchesShort(n.NSN()) && p.ShortCode.matchesShort(n.NSN())
}

func (w *World) shortRegion(n Num) string {
	rs := w.CCRegions[n.CC]
	if len(rs) == 1 {
		return rs[0]
	}
	for _, r := range rs {
		if p := w.Short[r]; p != nil && p.ShortCode.matchesShort(n.NSN()) {
			return r
		}
	}
	return ""
}

// ShortValid in some region of its calling code.
func (w *World) ShortValid(n Num) bool {
	r := w.shortRegion(n)
	if len(w.CCRegions[n.CC]) > 1 && r != "" {
		return true
	}
	return w.ShortValidFor(n, r)
}

// ShortCostFor region.
func (w *World) ShortCostFor(n Num, region string) int {
	p := w.belongs(n, region)
	s := n.NSN()
	switch {
	case p == nil || !has(p.General.Len, len(s)):
		return CostUnknown
	case p.Premium.matchesShort(s):
		return CostPremium
	case p.Standard.matchesShort(s):
		return CostStandard
	case p.TollFree.matchesShort(s):
		return CostTollFree
	case w.Emergency(s, region, false):
		return CostTollFree
	}
	return CostUnknown
}

// ShortCost over all regions of the calling code: the most expensive in the
// order premium, unknown, standard, toll free.
func (w *World) ShortCost(n Num) int {
	rs := w.CCRegions[n.CC]
	if len(rs) == 0 {
		return CostUnknown
	}
	rank := map[int]int{CostPremium: 3, CostUnknown: 2, CostStandard: 1, CostTollFree: 0}
	best := CostTollFree
	for _, r := range rs {
		if c := w.ShortCostFor(n, r); rank[c] > rank[best] {
			best = c
		}
	}
	return best
}

// CarrierSpecific short number.
func (w *World) CarrierSpecific(n Num) bool {
	p := w.Short[w.shortRegion(n)]
	return p != nil && p.CarrierSpecific.matchesShort(n.NSN())
}

// CarrierSpecificFor region.
func (w *World) CarrierSpecificFor(n Num, region string) bool {
	p := w.belongs(n, region)
	return p != nil && p.CarrierSpecific.matchesShort(n.NSN())
}

// SMSFor region.
func (w *World) SMSFor(n Num, region string) bool {
	p := w.belongs(n, region)
	return p != nil && p.SMS.matchesShort(n.NSN())
}

// Emergency: s is (or, with prefix, connects to) an emergency number in region.
func (w *World) Emergency(s, region string, prefix bool) bool {
	s = PossibleNumber(s)
	for _, r := range s {
		if isPlus(r) {
			return false
		}
		break
	}
	p := w.Short[region]
	if p == nil || !p.Emergency.Present || p.Emergency.full == nil {
		return false
	}
	d := Digits(s)
	if prefix && region != "BR" && region != "CL" && region != "NI" {
		return p.Emergency.look.MatchString(d)
	}
	return p.Emergency.full.MatchString(d)
}

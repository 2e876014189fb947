package model

import "strings"

// Costs in the order of the public enum.
const (
	CostFree = iota
	CostStandard
	CostPremium
	CostUnknown
)

func (m *M) shortOf(n *Num, region string) *Meta {
	for _, r := range m.Codes[int(n.CC)] {
		if r == region {
			return m.Short[region]
		}
	}
	return nil
}

// ShortPossible: some region of the calling code has short numbers of this length.
func (m *M) ShortPossible(n *Num) bool {
	for _, r := range m.Codes[int(n.CC)] {
		if md := m.Short[r]; md != nil && has(md.General.Lengths, len(n.NSN())) {
			return true
		}
	}
	return false
}

// ShortPossibleFor a region.
func (m *M) ShortPossibleFor(n *Num, region string) bool {
	md := m.shortOf(n, region)
	return md != nil && has(md.General.Lengths, len(n.NSN()))
}

// ShortValidFor a region.
func (m *M) ShortValidFor(n *Num, region string) bool {
	md := m.shortOf(n, region)
	return md != nil && md.General.matches(n.NSN()) && md.ShortCode.matches(n.NSN())
}

func (m *M) shortRegion(n *Num) string {
	rs := m.Codes[int(n.CC)]
	if len(rs) == 1 {
		return rs[0]
	}
	for _, r := range rs {
		if md := m.Short[r]; md != nil && md.ShortCode.matches(n.NSN()) {
			return r
		}
	}
	return ""
}

// ShortValid anywhere in the calling code.
func (m *M) ShortValid(n *Num) bool {
	r := m.shortRegion(n)
	if len(m.Codes[int(n.CC)]) > 1 && r != "" {
		return true
	}
	return m.ShortValidFor(n, r)
}

// CostFor a region.
func (m *M) CostFor(n *Num, region string) int {
	md := m.shortOf(n, region)
	s := n.NSN()
	switch {
	case md == nil || !has(md.General.Lengths, len(s)):
		return CostUnknown
	case md.Premium.matches(s):
		return CostPremium
	case md.StdRate.matches(s):
		return CostStandard
	case md.TollFree.matches(s), m.Emergency(s, region, false):
		return CostFree
	}
	return CostUnknown
}

// Cost over all regions of the calling code: the worst case, where unknown is
// worse than standard and premium is the worst.
func (m *M) Cost(n *Num) int {
	rs := m.Codes[int(n.CC)]
	if len(rs) == 0 {
		return CostUnknown
	}
	rank := map[int]int{CostFree: 0, CostStandard: 1, CostUnknown: 2, CostPremium: 3}
	worst := CostFree
	for _, r := range rs {
		if c := m.CostFor(n, r); rank[c] > rank[worst] {
			worst = c
		}
	}
	return worst
}

// Emergency: exact (or prefix) match of an emergency number of the region.
func (m *M) Emergency(s, region string, prefix bool) bool {
	c := Candidate(s)
	if strings.ContainsFunc(c, isPlus) {
		return false
	}
	md := m.Short[region]
	if md == nil || md.Emergency.pattern() == "" {
		return false
	}
	d := DigitsOnly(c)
	if whole(md.Emergency.Pattern, d) {
		return true
	}
	return prefix && region != "BR" && region != "CL" && region != "NI" && at0(md.Emergency.Pattern, d) != nil
}

// CarrierSpecific anywhere.
func (m *M) CarrierSpecific(n *Num) bool {
	md := m.Short[m.shortRegion(n)]
	return md != nil && md.CarrierSpec.matches(n.NSN())
}

// CarrierSpecificFor a region.
func (m *M) CarrierSpecificFor(n *Num, region string) bool {
	md := m.shortOf(n, region)
	return md != nil && md.CarrierSpec.matches(n.NSN())
}

// SMSFor a region.
func (m *M) SMSFor(n *Num, region string) bool {
	md := m.shortOf(n, region)
	return md != nil && md.Sms.matches(n.NSN())
}

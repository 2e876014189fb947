package model

import (
	"strconv"
	"strings"
)

// Number types, in the order of the public enum.
const (
	FixedLine = iota
	Mobile
	FixedOrMobile
	TollFree
	Premium
	SharedCost
	Voip
	Personal
	Pager
	Uan
	Voicemail
	Unknown
)

// Length verdicts, in the order of the public enum.
const (
	Possible = iota
	PossibleLocal
	InvalidCC
	TooShortLen
	InvalidLen
	TooLongLen
)

func (md *Meta) descOf(t int) *Desc {
	switch t {
	case FixedLine, FixedOrMobile:
		return md.Fixed
	case Mobile:
		return md.Mobile
	case TollFree:
		return md.TollFree
	case Premium:
		return md.Premium
	case SharedCost:
		return md.Shared
	case Voip:
		return md.Voip
	case Personal:
		return md.Personal
	case Pager:
		return md.Pager
	case Uan:
		return md.Uan
	case Voicemail:
		return md.Voicemail
	}
	return md.General
}

func has(ls []int32, n int) bool {
	for _, l := range ls {
		if int(l) == n {
			return true
		}
	}
	return false
}

func (d *Desc) noNumbers() bool { return len(d.Lengths) == 1 && d.Lengths[0] == -1 }

// matches: length and pattern of the description both accept nsn.
func (d *Desc) matches(nsn string) bool {
	if d == nil || d.Pattern == "" {
		return false
	}
	if len(d.Lengths) > 0 && !has(d.Lengths, len(nsn)) {
		return false
	}
	return whole(d.Pattern, nsn)
}

func (m *M) lengthVerdict(nsn string, md *Meta, t int) int {
	lens := func(d *Desc) []int32 {
		if len(d.Lengths) > 0 {
			return d.Lengths
		}
		return md.General.Lengths
	}
	set := map[int]bool{}
	local := map[int]bool{}
	add := func(d *Desc) {
		for _, l := range lens(d) {
			set[int(l)] = true
		}
		for _, l := range d.Local {
			local[int(l)] = true
		}
	}
	if t == FixedOrMobile {
		if md.Fixed.noNumbers() {
			add(md.Mobile)
		} else {
			add(md.Fixed)
			if !md.Mobile.noNumbers() {
				add(md.Mobile)
			}
		}
	} else {
		add(md.descOf(t))
	}
	if set[-1] {
		return InvalidLen
	}
	n := len(nsn)
	if local[n] {
		return PossibleLocal
	}
	lo, hi := 1<<30, -1
	for l := range set {
		lo, hi = min(lo, l), max(hi, l)
	}
	switch {
	case set[n]:
		return Possible
	case n < lo:
		return TooShortLen
	case n > hi:
		return TooLongLen
	}
	return InvalidLen
}

func (m *M) typeIn(nsn string, md *Meta) int {
	if !md.General.matches(nsn) {
		return Unknown
	}
	for _, t := range []int{Premium, TollFree, SharedCost, Voip, Personal, Pager, Uan, Voicemail} {
		if md.descOf(t).matches(nsn) {
			return t
		}
	}
	fixed, mob := md.Fixed.matches(nsn), md.Mobile.matches(nsn)
	switch {
	case fixed && (md.SameMobileFixed || mob):
		return FixedOrMobile
	case fixed:
		return FixedLine
	case mob && !md.SameMobileFixed:
		return Mobile
	}
	return Unknown
}

// RegionOf is the region a number belongs to ("" when none).
func (m *M) RegionOf(n *Num) string {
	rs := m.Codes[int(n.CC)]
	if len(rs) == 1 {
		return rs[0]
	}
	nsn := n.NSN()
	for _, r := range rs {
		md := m.region(r)
		if md.LeadingDigits != "" {
			if at0(md.LeadingDigits, nsn) != nil {
				return r
			}
		} else if m.typeIn(nsn, md) != Unknown {
			return r
		}
	}
	return ""
}

// Type of a number.
func (m *M) Type(n *Num) int {
	md := m.metaFor(int(n.CC), m.RegionOf(n))
	if md == nil {
		return Unknown
	}
	return m.typeIn(n.NSN(), md)
}

// ValidFor a region.
func (m *M) ValidFor(n *Num, region string) bool {
	md := m.metaFor(int(n.CC), region)
	if md == nil || (region != "001" && md.CC != n.CC) {
		return false
	}
	return m.typeIn(n.NSN(), md) != Unknown
}

// Valid at all.
func (m *M) Valid(n *Num) bool { return m.ValidFor(n, m.RegionOf(n)) }

// PossibleReason for a number.
func (m *M) PossibleReason(n *Num) int {
	if _, ok := m.Codes[int(n.CC)]; !ok {
		return InvalidCC
	}
	md := m.mainMeta(int(n.CC))
	nsn := n.NSN()
	if md.General.pattern() == "" {
		switch {
		case len(nsn) < 2:
			return TooShortLen
		case len(nsn) > 17:
			return TooLongLen
		}
		return Possible
	}
	return m.lengthVerdict(nsn, md, Unknown)
}

// PossibleForType for a number and a type.
func (m *M) PossibleForType(n *Num, t int) int {
	if _, ok := m.Codes[int(n.CC)]; !ok {
		return InvalidCC
	}
	return m.lengthVerdict(n.NSN(), m.mainMeta(int(n.CC)), t)
}

// IntlDiallable reports whether a number may be dialled from abroad.
func (m *M) IntlDiallable(n *Num) bool {
	r := m.RegionOf(n)
	md := m.region(r)
	return md == nil || !md.NoIntl.matches(n.NSN())
}

var geoMobile = map[int]bool{52: true, 54: true, 55: true, 62: true, 86: true}

// Geographical for a type and calling code.
func Geographical(t, cc int) bool {
	return t == FixedLine || t == FixedOrMobile || t == Mobile && geoMobile[cc]
}

// Truncate: the expected outcome of TruncateTooLongNumber.
func (m *M) Truncate(n *Num) (bool, uint64) {
	if m.Valid(n) {
		return true, n.NN
	}
	c := *n
	for {
		c.NN /= 10
		if c.NN == 0 || m.PossibleReason(&c) == TooShortLen {
			return false, n.NN
		}
		if m.Valid(&c) {
			return true, c.NN
		}
	}
}

// NDCLen is the length of the national destination code.
func (m *M) NDCLen(n *Num) int {
	c := *n
	c.Ext = ""
	s := m.Format(&c, INTERNATIONAL)
	var groups []string
	cur := ""
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			cur += string(s[i])
		} else {
			groups = append(groups, cur)
			cur = ""
			for i+1 < len(s) && (s[i+1] < '0' || s[i+1] > '9') {
				i++
			}
		}
	}
	groups = append(groups, cur)
	if len(groups) <= 3 {
		return 0
	}
	if n.CC == 54 && m.Type(n) == Mobile {
		return len(groups[2]) + len(groups[3])
	}
	return len(groups[2])
}

// AreaCodeLen is the length of the geographical area code.
func (m *M) AreaCodeLen(n *Num) int {
	md := m.region(m.RegionOf(n))
	if md == nil {
		return 0
	}
	t := m.Type(n)
	if md.NatPrefix == "" && !n.ILZ && n.CC != 52 {
		return 0
	}
	if t == Mobile && n.CC == 86 || !Geographical(t, int(n.CC)) {
		return 0
	}
	return m.NDCLen(n)
}

// Match types in the order of the public enum.
const (
	MNotANumber = iota
	MNo
	MShortNSN
	MNSN
	MExact
)

// Match compares two numbers.
func (m *M) Match(a, b *Num) int {
	if a.Ext != "" && b.Ext != "" && a.Ext != b.Ext {
		return MNo
	}
	z := func(n *Num) int32 {
		if !n.ILZ {
			return -1
		}
		if !n.HasNLZ {
			return 1
		}
		return n.NLZ
	}
	same := a.NN == b.NN && a.Ext == b.Ext && a.ILZ == b.ILZ && z(a) == z(b)
	sa, sb := strconv.FormatUint(a.NN, 10), strconv.FormatUint(b.NN, 10)
	suffix := strings.HasSuffix(sa, sb) || strings.HasSuffix(sb, sa)
	if a.CC != 0 && b.CC != 0 {
		switch {
		case a.CC != b.CC:
			return MNo
		case same:
			return MExact
		case suffix:
			return MShortNSN
		}
		return MNo
	}
	switch {
	case same:
		return MNSN
	case suffix:
		return MShortNSN
	}
	return MNo
}

// MatchNumStr compares a number and a string.
func (m *M) MatchNumStr(a *Num, s string) int {
	b, e := m.Parse(s, "ZZ", false)
	if e == OK {
		return m.Match(a, b)
	}
	if e != InvalidCountryCode {
		return MNotANumber
	}
	if r := m.MainRegion(int(a.CC)); r != "ZZ" {
		b, e = m.Parse(s, r, false)
		if e != OK {
			return MNotANumber
		}
		if k := m.Match(a, b); k != MExact {
			return k
		}
		return MNSN
	}
	b, e = m.parse(s, "", false, false)
	if e != OK {
		return MNotANumber
	}
	return m.Match(a, b)
}

// MatchStrs compares two strings.
func (m *M) MatchStrs(s, t string) int {
	a, e := m.Parse(s, "ZZ", false)
	if e == OK {
		return m.MatchNumStr(a, t)
	}
	if e != InvalidCountryCode {
		return MNotANumber
	}
	b, e := m.Parse(t, "ZZ", false)
	if e == OK {
		return m.MatchNumStr(b, s)
	}
	if e != InvalidCountryCode {
		return MNotANumber
	}
	a, e = m.parse(s, "", false, false)
	if e != OK {
		return MNotANumber
	}
	b, e = m.parse(t, "", false, false)
	if e != OK {
		return MNotANumber
	}
	return m.Match(a, b)
}

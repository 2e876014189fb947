package model

// MobileToken is inserted before the area code of mobile numbers.
func MobileToken(cc int) string {
	if cc == 54 {
		return "9"
	}
	return ""
}

// SupportedTypes lists the types a territory has data for.
func SupportedTypes(md *Meta) map[int]bool {
	out := map[int]bool{}
	if md == nil {
		return out
	}
	for t := FixedLine; t < Unknown; t++ {
		if t == FixedOrMobile {
			continue
		}
		d := md.descOf(t)
		if d != nil && (d.Example != "" || d.HasPattern || len(d.Lengths) > 0 && !d.noNumbers()) {
			out[t] = true
		}
	}
	return out
}

// DescOf is the description consulted for a type.
func (md *Meta) DescOf(t int) *Desc { return md.descOf(t) }

// RegionMeta is the entry of a supported region.
func (m *M) RegionMeta(r string) *Meta { return m.region(r) }

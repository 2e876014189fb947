package model

import (
	"path/filepath"
	"strings"

	"golang.org/x/text/language"
	"golang.org/x/text/language/display"
)

// Tables reads the prefix data of a tree.
type Tables struct {
	Root string
	M    *M
	TZ   map[string][]string
}

// LoadTables opens the prefix data below root.
func LoadTables(root string, m *M) (*Tables, error) {
	b, err := Gunzip(filepath.Join(root, "timezone/data/prefix_to_timezone.xml.gz"))
	if err != nil {
		return nil, err
	}
	tz, err := DecodeArrayMap(b)
	if err != nil {
		return nil, err
	}
	return &Tables{root, m, tz}, nil
}

// longest returns the value of the longest entry that is a prefix of digits.
func longest[V any](t map[string]V, digits string) (v V, prefix string) {
	for i := len(digits); i > 0; i-- {
		if x, ok := t[digits[:i]]; ok {
			return x, digits[:i]
		}
	}
	return
}

func e164(n *Num) string { return itoa(int(n.CC)) + n.NSN() }

// CarrierTable of a language.
func (t *Tables) CarrierTable(lang string) map[string]string {
	return PrefixTable(filepath.Join(t.Root, "carrier/data"), lang)
}

// GeoTable of a language.
func (t *Tables) GeoTable(lang string) map[string]string {
	return PrefixTable(filepath.Join(t.Root, "geocoding/data"), lang)
}

// CarrierValid is the carrier of a number assumed valid.
func (t *Tables) CarrierValid(n *Num, lang string) string {
	v, _ := longest(t.CarrierTable(lang), e164(n))
	return v
}

// Carrier of a number, only for types that have a carrier.
func (t *Tables) Carrier(n *Num, lang string) string {
	switch t.M.Type(n) {
	case Mobile, FixedOrMobile, Pager:
		return t.CarrierValid(n, lang)
	}
	return ""
}

// CarrierSafe hides the name where numbers can be ported.
func (t *Tables) CarrierSafe(n *Num, lang string) string {
	if md := t.M.region(t.M.RegionOf(n)); md != nil && md.Portable {
		return ""
	}
	return t.Carrier(n, lang)
}

// CountryName renders a region.
func CountryName(region, lang string) string {
	if region == "" || region == "ZZ" || region == "001" {
		return ""
	}
	r, err := language.ParseRegion(region)
	if err != nil {
		return ""
	}
	l, err := language.Parse(lang)
	if err != nil {
		l = language.English
	}
	if n := display.Regions(l); n != nil {
		return n.Name(r)
	}
	return display.Regions(language.English).Name(r)
}

func (t *Tables) country(n *Num, lang string) string {
	rs := t.M.Codes[int(n.CC)]
	if len(rs) == 1 {
		return CountryName(rs[0], lang)
	}
	in := ""
	for _, r := range rs {
		if t.M.ValidFor(n, r) {
			if in != "" {
				return ""
			}
			in = r
		}
	}
	return CountryName(in, lang)
}

// GeoValid describes a number assumed valid.
func (t *Tables) GeoValid(n *Num, lang string) string {
	look := n
	if tok := MobileToken(int(n.CC)); tok != "" {
		if rest, ok := strings.CutPrefix(n.NSN(), tok); ok {
			if c, e := t.M.Parse(rest, t.M.MainRegion(int(n.CC)), false); e == OK {
				look = c
			}
		}
	}
	if v, _ := longest(t.GeoTable(lang), e164(look)); v != "" {
		return v
	}
	return t.country(n, lang)
}

// GeoValidUser is GeoValid as seen by a user elsewhere.
func (t *Tables) GeoValidUser(n *Num, lang, user string) string {
	r := t.M.RegionOf(n)
	if r == user {
		return t.GeoValid(n, lang)
	}
	return CountryName(r, lang)
}

// Geo describes any number.
func (t *Tables) Geo(n *Num, lang string) string {
	ty := t.M.Type(n)
	if ty == Unknown {
		return ""
	}
	if !Geographical(ty, int(n.CC)) {
		return t.country(n, lang)
	}
	return t.GeoValid(n, lang)
}

// GeoUser describes any number for a user elsewhere.
func (t *Tables) GeoUser(n *Num, lang, user string) string {
	ty := t.M.Type(n)
	if ty == Unknown {
		return ""
	}
	if !Geographical(ty, int(n.CC)) {
		return t.country(n, lang)
	}
	return t.GeoValidUser(n, lang, user)
}

// UnknownZone is the time zone of numbers that map nowhere.
const UnknownZone = "Etc/Unknown"

// ZonesFor resolves digits.
func (t *Tables) ZonesFor(digits string) []string {
	if v, p := longest(t.TZ, digits); p != "" {
		return v
	}
	return []string{UnknownZone}
}

// ZonesGeo resolves a geographical number.
func (t *Tables) ZonesGeo(n *Num) []string { return t.ZonesFor(e164(n)) }

// Zones resolves any number.
func (t *Tables) Zones(n *Num) []string {
	ty := t.M.Type(n)
	if ty == Unknown {
		return []string{UnknownZone}
	}
	if !Geographical(ty, int(n.CC)) {
		return t.ZonesFor(itoa(int(n.CC)))
	}
	return t.ZonesGeo(n)
}

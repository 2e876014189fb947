package model

import (
	"fmt"
	"sort"
	"strings"
)

// The upstream source of one territory, as the build step reads it, and what it compiles to.

// SrcDesc is the description of one kind of number.
type SrcDesc struct {
	Pattern         string // may contain white space, which means nothing
	National, Local []int32
	NoLengths       bool // the lengths element is left out
	Example         string
}

// SrcFmt is one format.
type SrcFmt struct {
	Pattern, Format string
	Leading         []string
	Intl            []string
	NPRule, CCRule  string
	NPOptional      *bool
}

// SrcTerr is one territory.
type SrcTerr struct {
	ID                                          string
	CC                                          int32
	IntlPrefix, PrefIntlPrefix                  string
	NatPrefix, PrefExtn, NPParsing, NPTransform string
	MainCountry, Portable                       bool
	LeadingDigits                               string
	NPRule, CCRule                              string
	NPOptional                                  bool
	Formats                                     []*SrcFmt
	Descs                                       map[string]*SrcDesc // by element name
}

// MainTags are the number kinds of the main file, ShortTags those of the short-number file.
var (
	MainTags  = []string{"fixedLine", "mobile", "pager", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "uan", "voicemail", "noInternationalDialling"}
	ShortTags = []string{"standardRate", "shortCode", "carrierSpecific", "emergency", "tollFree", "premiumRate", "smsServices"}
)

// TagSlots maps element names to the descriptions of m.
func (m *Meta) TagSlots() map[string]**Desc {
	return map[string]**Desc{"generalDesc": &m.General, "fixedLine": &m.Fixed, "mobile": &m.Mobile, "pager": &m.Pager, "tollFree": &m.TollFree,
		"premiumRate": &m.Premium, "sharedCost": &m.Shared, "personalNumber": &m.Personal, "voip": &m.Voip, "uan": &m.Uan, "voicemail": &m.Voicemail,
		"noInternationalDialling": &m.NoIntl, "standardRate": &m.StdRate, "shortCode": &m.ShortCode, "carrierSpecific": &m.CarrierSpec,
		"emergency": &m.Emergency, "smsServices": &m.Sms}
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(" \t\n\r\f", r) {
			return -1
		}
		return r
	}, s)
}

func set(xs ...[]int32) map[int32]bool {
	m := map[int32]bool{}
	for _, x := range xs {
		for _, v := range x {
			m[v] = true
		}
	}
	return m
}

func sorted(m map[int32]bool) []int32 {
	var out []int32
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (s *SrcTerr) rule(r string) string {
	r = strings.Replace(r, "$NP", s.NatPrefix, 1)
	return strings.Replace(r, "$FG", "$1", 1)
}

// Compile gives the metadata a territory stands for; kind is "main", "short" or "alt".
func (s *SrcTerr) Compile(kind string) *Meta {
	m := &Meta{ID: s.ID, CC: s.CC, IntlPrefix: s.IntlPrefix, PrefIntlPrefix: s.PrefIntlPrefix, NatPrefix: s.NatPrefix, PrefExtn: s.PrefExtn,
		MainCountry: s.MainCountry, Portable: s.Portable, LeadingDigits: s.LeadingDigits}
	if s.NPParsing != "" {
		m.NPParsing, m.NPTransform = squeeze(s.NPParsing), s.NPTransform
	} else {
		m.NPParsing = s.NatPrefix
	}
	explicit := false
	for _, f := range s.Formats {
		o := &Fmt{Pattern: f.Pattern, Format: f.Format}
		for _, l := range f.Leading {
			o.Leading = append(o.Leading, squeeze(l))
		}
		o.NPRule = s.rule(s.NPRule)
		if f.NPRule != "" {
			o.NPRule = s.rule(f.NPRule)
		}
		o.CCRule = s.rule(s.CCRule)
		if f.CCRule != "" {
			o.CCRule = s.rule(f.CCRule)
		}
		o.NPOptional = s.NPOptional
		if f.NPOptional != nil {
			o.NPOptional = *f.NPOptional
		}
		m.Formats = append(m.Formats, o)
		switch {
		case len(f.Intl) == 0:
			c := *o
			m.IntlFormats = append(m.IntlFormats, &c)
		case f.Intl[0] == "NA":
			explicit = true
		default:
			explicit = true
			m.IntlFormats = append(m.IntlFormats, &Fmt{Pattern: o.Pattern, Leading: o.Leading, Format: f.Intl[0]})
		}
	}
	if !explicit {
		m.IntlFormats = nil
	}
	if kind == "alt" {
		return m
	}
	tags := MainTags
	if kind == "short" {
		tags = ShortTags
	}
	var nat, loc [][]int32
	for _, t := range tags {
		if d := s.Descs[t]; d != nil && (kind == "short" && t == "shortCode" || kind == "main" && t != "noInternationalDialling") && !d.NoLengths {
			nat, loc = append(nat, d.National), append(loc, d.Local)
		}
	}
	n, l := set(nat...), set(loc...)
	for v := range n {
		delete(l, v)
	}
	m.General = &Desc{Lengths: sorted(n), Local: sorted(l)}
	if d := s.Descs["generalDesc"]; d != nil {
		m.General.Pattern, m.General.Example = squeeze(d.Pattern), d.Example
	}
	slots := m.TagSlots()
	for _, t := range tags {
		d := s.Descs[t]
		if d == nil {
			*slots[t] = &Desc{Lengths: []int32{-1}}
			continue
		}
		o := &Desc{Pattern: squeeze(d.Pattern), Example: d.Example}
		if !d.NoLengths {
			o.Lengths, o.Local = sorted(set(d.National)), sorted(set(d.Local))
			if fmt.Sprint(o.Lengths) == fmt.Sprint(m.General.Lengths) {
				o.Lengths = nil
			}
		}
		*slots[t] = o
	}
	if kind == "main" {
		m.SameMobileFixed = m.Mobile.Pattern == m.Fixed.Pattern
	}
	return m
}

// Decompile writes metadata back as a source; ok is false where lengths do not add up to the general ones.
func Decompile(m *Meta, kind string) (*SrcTerr, bool) {
	s := &SrcTerr{ID: m.ID, CC: m.CC, IntlPrefix: m.IntlPrefix, PrefIntlPrefix: m.PrefIntlPrefix, NatPrefix: m.NatPrefix, PrefExtn: m.PrefExtn,
		NPParsing: m.NPParsing, NPTransform: m.NPTransform, MainCountry: m.MainCountry, Portable: m.Portable, LeadingDigits: m.LeadingDigits, Descs: map[string]*SrcDesc{}}
	intl := map[string]*Fmt{}
	for _, f := range m.IntlFormats {
		intl[f.Pattern+"\x00"+strings.Join(f.Leading, "\x00")] = f
	}
	for _, f := range m.Formats {
		o := &SrcFmt{Pattern: f.Pattern, Format: f.Format, Leading: f.Leading, NPRule: f.NPRule, CCRule: f.CCRule}
		if f.NPOptional {
			t := true
			o.NPOptional = &t
		}
		if len(m.IntlFormats) > 0 {
			i := intl[f.Pattern+"\x00"+strings.Join(f.Leading, "\x00")]
			switch {
			case i == nil:
				o.Intl = []string{"NA"}
			case i.Format != f.Format || i.NPRule != f.NPRule || i.CCRule != f.CCRule || i.NPOptional != f.NPOptional:
				o.Intl = []string{i.Format}
			case f.NPRule == "" && f.CCRule == "" && !f.NPOptional:
				o.Intl = []string{i.Format} // indistinguishable from leaving it out
			}
		}
		s.Formats = append(s.Formats, o)
	}
	if kind == "alt" {
		return s, true
	}
	tags := MainTags
	if kind == "short" {
		tags = ShortTags
	}
	slots := m.TagSlots()
	s.Descs["generalDesc"] = &SrcDesc{Pattern: m.General.Pattern, Example: m.General.Example, NoLengths: true}
	for _, t := range tags {
		d := *slots[t]
		if d == nil || len(d.Lengths) == 1 && d.Lengths[0] == -1 {
			continue
		}
		o := &SrcDesc{Pattern: d.Pattern, Example: d.Example, National: d.Lengths, Local: d.Local}
		if len(o.National) == 0 {
			o.National = m.General.Lengths
		}
		s.Descs[t] = o
	}
	c := s.Compile(kind)
	return s, fmt.Sprint(c.General.Lengths) == fmt.Sprint(m.General.Lengths)
}

// Show renders metadata for comparison and reports.
func (m *Meta) Show() string {
	var b strings.Builder
	fmt.Fprintf(&b, "id=%q cc=%d intlPrefix=%q preferredIntl=%q natPrefix=%q extn=%q parsing=%q transform=%q same=%v main=%v portable=%v leading=%q\n",
		m.ID, m.CC, m.IntlPrefix, m.PrefIntlPrefix, m.NatPrefix, m.PrefExtn, m.NPParsing, m.NPTransform, m.SameMobileFixed, m.MainCountry, m.Portable, m.LeadingDigits)
	for i, fs := range [][]*Fmt{m.Formats, m.IntlFormats} {
		for _, f := range fs {
			fmt.Fprintf(&b, "format%d %q -> %q leading=%q np=%q cc=%q optional=%v\n", i, f.Pattern, f.Format, f.Leading, f.NPRule, f.CCRule, f.NPOptional)
		}
	}
	slots := m.TagSlots()
	var tags []string
	for t := range slots {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	for _, t := range tags {
		if d := *slots[t]; d != nil {
			fmt.Fprintf(&b, "%s %q lengths=%v local=%v example=%q\n", t, d.Pattern, d.Lengths, d.Local, d.Example)
		}
	}
	return b.String()
}

package main

import (
	"fmt"
	"slices"
	"sort"
	"unicode"
	"unicode/utf8"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/metadata"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() {
	checks["C07"] = checkTables
	checks["C08"] = checkNormalize
	checks["C18"] = checkShort
}

// C07: regions and calling codes.
func checkTables(e *env) {
	e.Rule = "distinct region codes and calling codes for which every table lookup was compared (exhaustive over two-letter codes and codes -5..1999)"
	e.tables("embedded")
}

// tables compares every lookup with the model's tables.
func (e *env) tables(stream string) {
	var regs []string
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			regs = append(regs, string(a)+string(b))
		}
	}
	regs = append(regs, gen.OddRegions...)
	e.Run(stream+"-regions", len(regs), func(c *core.Case) {
		r := regs[c.Index]
		md := e.m.RegionMeta(r)
		c.Note("tables for region %q", r)
		c.Eval()
		if md != nil {
			c.Seen(r)
			c.Tag("supported-region")
		} else {
			c.Tag("unsupported-region")
		}
		bad := func(what string, got, want any) {
			c.Fail(what+"|"+r, "%s(%q) = %v, want %v", what, r, got, want)
		}
		cc := 0
		if md != nil {
			cc = int(md.CC)
		}
		if g := phonenumbers.GetCountryCodeForRegion(r); g != cc {
			bad("GetCountryCodeForRegion", g, cc)
		}
		if g := phonenumbers.GetSupportedRegions()[r]; g != (md != nil) {
			bad("GetSupportedRegions", g, md != nil)
		}
		if g := metadata.SupportedRegions()[r]; g != (md != nil) {
			bad("metadata.SupportedRegions", g, md != nil)
		}
		for _, strip := range []bool{false, true} {
			if g, w := phonenumbers.GetNddPrefixForRegion(r, strip), e.m.NDD(r, strip); g != w {
				bad("GetNddPrefixForRegion", g, w)
			}
		}
		if g, w := phonenumbers.IsNANPACountry(r), e.m.Nanpa(r); g != w {
			bad("IsNANPACountry", g, w)
		}
		if g, w := metadata.IsNANPARegion(r), e.m.Nanpa(r); g != w {
			bad("metadata.IsNANPARegion", g, w)
		}
		if g, w := phonenumbers.IsMobileNumberPortableRegion(r), md != nil && md.Portable; g != w {
			bad("IsMobileNumberPortableRegion", g, w)
		}
		if g, w := typeSet(phonenumbers.GetSupportedTypesForRegion(r)), fmt.Sprint(model.SupportedTypes(md)); g != w {
			bad("GetSupportedTypesForRegion", g, w)
		}
		if _, ok := metadata.RegionMetadata(r); ok != (md != nil) {
			bad("metadata.RegionMetadata present", ok, md != nil)
		}
		if md != nil {
			got, ok := metadata.RegionMetadata(r)
			if !ok || got.GetId() != r || int(got.GetCountryCode()) != cc || got.GetNationalPrefix() != md.NatPrefix || got.GetGeneralDesc().GetNationalNumberPattern() != md.General.Pattern {
				bad("metadata.RegionMetadata", got, md)
			}
			if !slices.Contains(phonenumbers.GetRegionCodesForCountryCode(cc), r) {
				bad("GetRegionCodesForCountryCode", phonenumbers.GetRegionCodesForCountryCode(cc), r)
			}
			if w := phonenumbers.GetRegionCodeForCountryCode(cc); phonenumbers.GetCountryCodeForRegion(w) != cc {
				bad("main region", w, cc)
			}
		}
	})
	e.Run(stream+"-codes", 2005, func(c *core.Case) {
		cc := c.Index - 5
		c.Note("tables for calling code %d", cc)
		c.Eval()
		rs, known := e.m.Codes[cc]
		if known {
			c.Seen(cc)
			c.Tag("supported-code")
		} else {
			c.Tag("unsupported-code")
		}
		bad := func(what string, got, want any) {
			c.Fail(what+"|"+itoa(cc), "%s(%d) = %v, want %v", what, cc, got, want)
		}
		if g := phonenumbers.GetRegionCodesForCountryCode(cc); !slices.Equal(g, rs) {
			bad("GetRegionCodesForCountryCode", g, rs)
		}
		if g, w := phonenumbers.GetRegionCodeForCountryCode(cc), e.m.MainRegion(cc); g != w {
			bad("GetRegionCodeForCountryCode", g, w)
		}
		if g := phonenumbers.GetSupportedCallingCodes()[cc]; g != known {
			bad("GetSupportedCallingCodes", g, known)
		}
		if g := metadata.SupportedCallingCodes()[cc]; g != known {
			bad("metadata.SupportedCallingCodes", g, known)
		}
		if g, ok := metadata.CountryCodeToRegion()[cc]; ok != known || !slices.Equal(g, rs) {
			bad("metadata.CountryCodeToRegion", g, rs)
		}
		nongeo := len(rs) == 1 && rs[0] == "001"
		var entity *model.Meta
		if nongeo {
			entity = e.m.NonGeo[cc]
		}
		if g, w := typeSet(phonenumbers.GetSupportedTypesForNonGeoEntity(cc)), fmt.Sprint(model.SupportedTypes(entity)); g != w {
			bad("GetSupportedTypesForNonGeoEntity", g, w)
		}
		if g := phonenumbers.GetSupportedGlobalNetworkCallingCodes()[cc]; g != nongeo {
			bad("GetSupportedGlobalNetworkCallingCodes", g, nongeo)
		}
		if g := metadata.CountryCodesForNonGeographicalRegion()[cc]; g != nongeo {
			bad("metadata.CountryCodesForNonGeographicalRegion", g, nongeo)
		}
		if _, ok := metadata.NonGeoMetadata(cc); ok != nongeo {
			bad("metadata.NonGeoMetadata present", ok, nongeo)
		}
		if nongeo {
			c.Tag("non-geographical-code")
			if md, ok := metadata.NonGeoMetadata(cc); !ok || int(md.GetCountryCode()) != cc {
				bad("NonGeoMetadata", md, cc)
			}
		}
		if g, w := phonenumbers.GetCountryMobileToken(cc), model.MobileToken(cc); g != w {
			bad("GetCountryMobileToken", g, w)
		}
		// the main region comes first and is marked so in the metadata
		if len(rs) > 1 {
			for i, r := range rs {
				md := e.m.RegionMeta(r)
				if md == nil || int(md.CC) != cc {
					bad("region of code", r, cc)
				} else if md.MainCountry != (i == 0) {
					c.Tag("main-country-flag-differs")
				}
			}
		}
	})
	e.Run(stream+"-sets", 1, func(c *core.Case) {
		c.Eval()
		var a []string
		for r, ok := range phonenumbers.GetSupportedRegions() {
			if ok {
				a = append(a, r)
			}
		}
		sort.Strings(a)
		if !slices.Equal(a, e.m.SupportedRegions()) {
			c.Fail("regions", "GetSupportedRegions = %v, want %v", a, e.m.SupportedRegions())
		}
		n := 0
		for _, ok := range phonenumbers.GetSupportedCallingCodes() {
			if ok {
				n++
			}
		}
		if n != len(e.m.SupportedCodes()) {
			c.Fail("codes", "%d supported calling codes, want %d", n, len(e.m.SupportedCodes()))
		}
		n = 0
		for _, ok := range phonenumbers.GetSupportedGlobalNetworkCallingCodes() {
			if ok {
				n++
			}
		}
		if n != len(e.m.NonGeoCodes()) {
			c.Fail("nongeo", "%d global network codes, want %d", n, len(e.m.NonGeoCodes()))
		}
	})
}

// C08: characters.
func checkNormalize(e *env) {
	e.Rule = "distinct code points (exhaustive: all 1,114,112 including surrogates and beyond-range encodings) and distinct mixed strings"
	const block = 4096
	e.Run("runes", (unicode.MaxRune+block)/block, func(c *core.Case) {
		for r := rune(c.Index * block); r < rune((c.Index+1)*block) && r <= unicode.MaxRune; r++ {
			c.Eval()
			s := string(r)
			c.Note("normalising %q", s)
			one := func(what, got, want string) {
				if got != want {
					c.Fail(what+"|"+s, "%s(%q) = %q, want %q", what, s, got, want)
				}
			}
			d, isD := model.Digit(r)
			w := ""
			if isD {
				w = string(rune(d))
				c.Tag("decimal-digit")
			}
			one("NormalizeDigitsOnly", phonenumbers.NormalizeDigitsOnly("<"+s+">"), w)
			one("NormalizeDiallableCharsOnly", phonenumbers.NormalizeDiallableCharsOnly("<"+s+">"), model.Diallable(s))
			one("ConvertAlphaCharactersInNumber", phonenumbers.ConvertAlphaCharactersInNumber(s), model.Alpha(s))
			// a number written with this digit means the same number
			if isD {
				c.Seen(r)
				t := "+4420700000" + s + "0"
				p, err := phonenumbers.Parse(t, "ZZ")
				if err != nil || p.GetNationalNumber() != 2070000000+uint64(d-'0')*10 {
					c.Fail("parse-digit|"+s, "Parse(%q) = %s (%v)", t, showPB(p), err)
				}
				f := phonenumbers.GetAsYouTypeFormatter("US")
				g := phonenumbers.GetAsYouTypeFormatter("US")
				var a, b string
				for _, ch := range "650253000" {
					a, b = f.InputDigit(ch), g.InputDigit(ch)
				}
				a, b = f.InputDigit(r), g.InputDigit(rune(d))
				if a != b {
					c.Fail("aytf-digit|"+s, "as-you-type shows %q after %q, %q after %q", a, s, b, string(rune(d)))
				}
			}
		}
	})
	e.Run("strings", e.N(200000), func(c *core.Case) {
		s := c.Hostile()
		if c.P(2) {
			s, _ = e.g.Entry(c.R)
		}
		c.Eval()
		c.Seen(s)
		c.Note("normalising %q", s)
		one := func(what, got, want string) {
			if got != want {
				c.Fail(what+"|"+s, "%s(%q) = %q, want %q", what, s, got, want)
			}
		}
		one("NormalizeDigitsOnly", phonenumbers.NormalizeDigitsOnly(s), model.DigitsOnly(s))
		one("NormalizeDiallableCharsOnly", phonenumbers.NormalizeDiallableCharsOnly(s), model.Diallable(s))
		one("ConvertAlphaCharactersInNumber", phonenumbers.ConvertAlphaCharactersInNumber(s), model.Alpha(s))
		if g, w := phonenumbers.IsAlphaNumber(s), model.IsAlphaNumber(s); g != w {
			c.Fail("IsAlphaNumber|"+s, "IsAlphaNumber(%q) = %v, want %v", s, g, w)
		} else if w {
			c.Tag("alpha-number")
		}
		// idempotence
		one("idempotent", phonenumbers.NormalizeDigitsOnly(phonenumbers.NormalizeDigitsOnly(s)), phonenumbers.NormalizeDigitsOnly(s))
		if !utf8.ValidString(s) {
			c.Tag("invalid-utf8")
		}
	})
}

// C18: short numbers.
func checkShort(e *env) {
	e.Rule = "distinct (short number, region) pairs for which possibility, validity, cost, carrier, SMS and emergency answers were compared"
	costs := []string{"TOLL_FREE", "STANDARD", "PREMIUM", "UNKNOWN"}
	costNames := []string{"TOLL_FREE", "STANDARD_RATE", "PREMIUM_RATE", "UNKNOWN_COST"}
	one := func(c *core.Case, n *model.Num, s, reg string) {
		p := toPB(n)
		c.Note("short number %s in %q (%q)", show(n), reg, s)
		c.Eval()
		c.Seen(show(n), reg, s)
		bad := func(what string, got, want any) {
			c.Fail(what+"|"+show(n)+"|"+reg, "%s(%s, %q) = %v, want %v", what, show(n), reg, got, want)
		}
		if g, w := phonenumbers.IsPossibleShortNumber(p), e.m.ShortPossible(n); g != w {
			bad("IsPossibleShortNumber", g, w)
		}
		if g, w := phonenumbers.IsPossibleShortNumberForRegion(p, reg), e.m.ShortPossibleFor(n, reg); g != w {
			bad("IsPossibleShortNumberForRegion", g, w)
		}
		if g, w := phonenumbers.IsValidShortNumber(p), e.m.ShortValid(n); g != w {
			bad("IsValidShortNumber", g, w)
		} else if w {
			c.Tag("valid-short")
		}
		if g, w := phonenumbers.IsValidShortNumberForRegion(p, reg), e.m.ShortValidFor(n, reg); g != w {
			bad("IsValidShortNumberForRegion", g, w)
		}
		w := e.m.CostFor(n, reg)
		c.Tag("cost:" + costs[w])
		if g := phonenumbers.GetExpectedCostForRegion(p, reg); int(g) != w || g.String() != costNames[w] {
			bad("GetExpectedCostForRegion", g, costNames[w])
		}
		if g, w := int(phonenumbers.GetExpectedCost(p)), e.m.Cost(n); g != w {
			bad("GetExpectedCost", g, w)
		}
		if g, w := phonenumbers.IsCarrierSpecific(p), e.m.CarrierSpecific(n); g != w {
			bad("IsCarrierSpecific", g, w)
		} else if w {
			c.Tag("carrier-specific")
		}
		if g, w := phonenumbers.IsCarrierSpecificForRegion(p, reg), e.m.CarrierSpecificFor(n, reg); g != w {
			bad("IsCarrierSpecificForRegion", g, w)
		}
		if g, w := phonenumbers.IsSmsServiceForRegion(p, reg), e.m.SMSFor(n, reg); g != w {
			bad("IsSmsServiceForRegion", g, w)
		} else if w {
			c.Tag("sms-service")
		}
		ex, co := e.m.Emergency(s, reg, false), e.m.Emergency(s, reg, true)
		if g := phonenumbers.IsEmergencyNumber(s, reg); g != ex {
			c.Fail("IsEmergencyNumber|"+s+"|"+reg, "IsEmergencyNumber(%q, %q) = %v, want %v", s, reg, g, ex)
		}
		if g := phonenumbers.ConnectsToEmergencyNumber(s, reg); g != co {
			c.Fail("ConnectsToEmergencyNumber|"+s+"|"+reg, "ConnectsToEmergencyNumber(%q, %q) = %v, want %v", s, reg, g, co)
		}
		if ex {
			c.Tag("emergency")
		} else if co {
			c.Tag("connects-to-emergency")
		}
		if c.Index < 25 {
			c.Sample("short", map[string]any{"number": show(n), "region": reg, "text": s, "valid": e.m.ShortValid(n), "cost": costs[w], "emergency": ex})
		}
	}
	e.Run("short", e.N(250000), func(c *core.Case) {
		reg, d := e.g.Short(c.R)
		n := &model.Num{NLZ: 1}
		if md := e.m.RegionMeta(reg); md != nil {
			n = e.g.Split(md, d)
		}
		s := d
		switch c.Intn(12) {
		case 0:
			s = c.ForeignDigits(d)
		case 1:
			s = c.Punctuate(d)
		case 2:
			s = "+" + d
		case 3:
			s = d + c.Digits(1+c.Intn(7))
		case 4:
			s = " (" + d + ")"
		case 5:
			s = c.Mutate(d)
		case 6:
			s = "Tel:" + d + "/x"
		}
		ask := reg
		if c.P(5) {
			ask = e.g.RegionFor(c.R, n)
		}
		if c.P(20) {
			n = e.g.Num(c.R)
		}
		one(c, n, s, ask)
	})
	e.Run("exhaustive-3", e.N(len(e.g.Regions)), func(c *core.Case) { // every two- and three-digit code of every region
		reg := e.g.Regions[c.Index%len(e.g.Regions)]
		for d := 10; d < 1000; d++ {
			s := itoa(d)
			one(c, e.g.Split(e.m.RegionMeta(reg), s), s, reg)
		}
	})
}

// typeSet prints the types that are set.
func typeSet(ts map[phonenumbers.PhoneNumberType]bool) string {
	out := map[int]bool{}
	for t, ok := range ts {
		out[int(t)] = ok
	}
	return fmt.Sprint(out)
}

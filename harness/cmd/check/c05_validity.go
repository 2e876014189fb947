package main

import (
	"slices"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/metadata"

	"verif/core"
	"verif/model"
)

func init() {
	checks["C05"] = checkValidity
	checks["C06"] = checkPossible
}

// C05: validity, type and region follow from the metadata.
func checkValidity(e *env) {
	e.Rule = "distinct (number, region) pairs on which every validity/type/region answer was compared with the metadata"
	e.Run("numbers", e.N(400000), func(c *core.Case) {
		n := e.g.Num(c.R)
		p := toPB(n)
		reg := e.g.RegionFor(c.R, n)
		c.Note("validity of %s, region %q", show(n), reg)
		c.Eval()
		c.Seen(show(n), reg)
		bad := func(what string, got, want any) {
			c.Fail(what+"|"+show(n)+"|"+reg, "%s(%s) region %q: got %v, want %v", what, show(n), reg, got, want)
		}
		if g, w := phonenumbers.IsValidNumber(p), e.m.Valid(n); g != w {
			bad("IsValidNumber", g, w)
		} else if g {
			c.Tag("valid")
		} else {
			c.Tag("invalid")
		}
		if g, w := phonenumbers.IsValidNumberForRegion(p, reg), e.m.ValidFor(n, reg); g != w {
			bad("IsValidNumberForRegion", g, w)
		}
		w := e.m.Type(n)
		if g := int(phonenumbers.GetNumberType(p)); g != w {
			bad("GetNumberType", g, w)
		}
		c.Tag("type:" + typeNames[w])
		if g, w := phonenumbers.GetRegionCodeForNumber(p), e.m.RegionOf(n); g != w {
			bad("GetRegionCodeForNumber", g, w)
		}
		if g, w := phonenumbers.IsNumberGeographical(p), model.Geographical(w, int(n.CC)); g != w {
			bad("IsNumberGeographical", g, w)
		}
		if g, w := phonenumbers.CanBeInternationallyDialled(p), e.m.IntlDiallable(n); g != w {
			bad("CanBeInternationallyDialled", g, w)
		}
		if g, w := phonenumbers.GetNationalSignificantNumber(p), n.NSN(); g != w {
			bad("GetNationalSignificantNumber", g, w)
		}
		// laws among the answers, without the model
		if v, t, r := phonenumbers.IsValidNumber(p), phonenumbers.GetNumberType(p), phonenumbers.GetRegionCodeForNumber(p); v != (t != phonenumbers.UNKNOWN && r != "") {
			bad("valid-has-type-and-region", v, r)
		} else if v && !phonenumbers.IsValidNumberForRegion(p, r) {
			bad("valid-for-its-region", false, r)
		} else if v && !phonenumbers.IsPossibleNumber(p) {
			bad("valid-is-possible", phonenumbers.IsPossibleNumberWithReason(p), true)
		}
		if c.P(3) {
			t := c.Intn(12)
			cc := int(n.CC)
			if g, w := phonenumbers.IsNumberGeographicalForType(phonenumbers.PhoneNumberType(t), cc), model.Geographical(t, cc); g != w {
				bad("IsNumberGeographicalForType", g, w)
			}
		}
		if c.Index < 40 {
			c.Sample("number", map[string]any{"number": show(n), "region": reg, "type": typeNames[w], "valid": e.m.Valid(n), "belongs_to": e.m.RegionOf(n)})
		}
	})
}

var typeNames = []string{"FIXED_LINE", "MOBILE", "FIXED_LINE_OR_MOBILE", "TOLL_FREE", "PREMIUM_RATE", "SHARED_COST", "VOIP", "PERSONAL_NUMBER", "PAGER", "UAN", "VOICEMAIL", "UNKNOWN"}
var verdictNames = []string{"IS_POSSIBLE", "IS_POSSIBLE_LOCAL_ONLY", "INVALID_COUNTRY_CODE", "TOO_SHORT", "INVALID_LENGTH", "TOO_LONG"}

// C06: the possible-number verdicts are exactly the lengths in the metadata.
func checkPossible(e *env) {
	e.Rule = "distinct (calling code, national significant number length, type) triples and (string, region) pairs whose length verdict was compared"
	one := func(c *core.Case, n *model.Num, t int) {
		p := toPB(n)
		c.Note("possibility of %s as %d", show(n), t)
		c.Eval()
		c.Seen(n.CC, len(n.NSN()), t)
		bad := func(what string, got, want any) {
			c.Fail(what+"|"+show(n)+"|"+typeNames[t], "%s(%s) type %s: got %v, want %v", what, show(n), typeNames[t], got, want)
		}
		w := e.m.PossibleReason(n)
		c.Tag("verdict:" + verdictNames[w])
		if g := int(phonenumbers.IsPossibleNumberWithReason(p)); g != w {
			bad("IsPossibleNumberWithReason", g, w)
		}
		if g, w := phonenumbers.IsPossibleNumber(p), w == model.Possible || w == model.PossibleLocal; g != w {
			bad("IsPossibleNumber", g, w)
		}
		w = e.m.PossibleForType(n, t)
		c.Tag("typed-verdict:" + verdictNames[w])
		if g := int(phonenumbers.IsPossibleNumberForTypeWithReason(p, phonenumbers.PhoneNumberType(t))); g != w {
			bad("IsPossibleNumberForTypeWithReason", g, w)
		}
		if g, w := phonenumbers.IsPossibleNumberForType(p, phonenumbers.PhoneNumberType(t)), w == model.Possible || w == model.PossibleLocal; g != w {
			bad("IsPossibleNumberForType", g, w)
		}
	}
	// every calling code, every length 1..18, every type
	codes := append(append([]int{}, e.g.Codes...), 0, 2, 999, 1000, -1)
	e.Run("grid", len(codes), func(c *core.Case) {
		for l := 1; l <= 18; l++ {
			for z := 0; z <= 1; z++ {
				nsn := "1" + c.Digits(l-1)
				if z == 1 {
					nsn = "0" + nsn[1:]
				}
				n := e.g.Split(&model.Meta{CC: int32(codes[c.Index])}, nsn)
				for t := 0; t < 12; t++ {
					one(c, n, t)
				}
			}
		}
	})
	// the length tests of the metadata descriptions themselves
	coll, err := metadata.Collection()
	if err != nil {
		e.Fail("desc", "collection", "metadata.Collection: %v", err)
		return
	}
	all := coll.GetMetadata()
	e.Run("desc", len(all), func(c *core.Case) {
		md := all[c.Index]
		for i, d := range []*metadata.PhoneNumberDesc{md.GetGeneralDesc(), md.GetFixedLine(), md.GetMobile(), md.GetTollFree(), md.GetPremiumRate(), md.GetVoip(), md.GetUan()} {
			if d == nil {
				continue
			}
			for l := int32(-2); l < 20; l++ {
				c.Eval()
				if g, w := d.HasPossibleLength(l), slices.Contains(d.GetPossibleLength(), l); g != w {
					c.Fail("HasPossibleLength|"+md.GetId(), "HasPossibleLength(%d) of description %d of %s/%d is %v, lengths %v", l, i, md.GetId(), md.GetCountryCode(), g, d.GetPossibleLength())
				}
				if g, w := d.HasPossibleLengthLocalOnly(l), slices.Contains(d.GetPossibleLengthLocalOnly(), l); g != w {
					c.Fail("HasPossibleLengthLocalOnly|"+md.GetId(), "HasPossibleLengthLocalOnly(%d) of description %d of %s/%d is %v, lengths %v", l, i, md.GetId(), md.GetCountryCode(), g, d.GetPossibleLengthLocalOnly())
				}
			}
			c.Tag("description-lengths")
		}
	})
	e.Run("numbers", e.N(200000), func(c *core.Case) { one(c, e.g.Num(c.R), c.Intn(12)) })
	e.Run("strings", e.N(150000), func(c *core.Case) {
		s, reg := e.g.Entry(c.R)
		c.Note("IsPossibleNumberFromRegion(%q, %q)", s, reg)
		c.Eval()
		c.Seen(s, reg)
		n, err := e.m.Parse(s, reg, false)
		w := err == model.OK
		if w {
			r := e.m.PossibleReason(n)
			w = r == model.Possible || r == model.PossibleLocal
		}
		if g := phonenumbers.IsPossibleNumberFromRegion(s, reg); g != w {
			c.Fail("IsPossibleNumberFromRegion|"+s+"|"+reg, "IsPossibleNumberFromRegion(%q, %q): got %v, want %v", s, reg, g, w)
		}
	})
}

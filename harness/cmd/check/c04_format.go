package main

import (
	"strings"

	"github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/proto"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() {
	checks["C04"] = checkFormat
	checks["C19"] = checkDialing
	checks["C22"] = checkDerived
	checks["C12"] = checkMatch
}

var styleNames = []string{"E164", "INTERNATIONAL", "NATIONAL", "RFC3966"}

func pbFormats(fs []*model.Fmt) []*phonenumbers.NumberFormat {
	var out []*phonenumbers.NumberFormat
	for _, f := range fs {
		x := &phonenumbers.NumberFormat{Pattern: proto.String(f.Pattern), Format: proto.String(f.Format), LeadingDigitsPattern: append([]string(nil), f.Leading...)}
		if f.HasNPRule || f.NPRule != "" {
			x.NationalPrefixFormattingRule = proto.String(f.NPRule)
		}
		if f.HasCCRule || f.CCRule != "" {
			x.DomesticCarrierCodeFormattingRule = proto.String(f.CCRule)
		}
		out = append(out, x)
	}
	return out
}

// userRules are formatting rules a caller might pass in.
func userRules(r gen.R, md *model.Meta, nsn string) []*model.Fmt {
	var out []*model.Fmt
	for i := 0; i < 1+r.Intn(3); i++ {
		var f *model.Fmt
		if len(md.Formats) > 0 && r.P(2) {
			c := *gen.Pick(r, md.Formats)
			f = &c
		} else {
			k := 1 + r.Intn(3)
			if len(nsn) > k+1 {
				f = &model.Fmt{Pattern: "(\\d{" + itoa(k) + "})(\\d{" + itoa(1+r.Intn(len(nsn)-k)) + "})(\\d*)"}
			} else {
				f = &model.Fmt{Pattern: "(\\d)(\\d*)(\\d*)"}
			}
			f.Format = gen.Pick(r, []string{"$1 $2 $3", "($1) $2-$3", "$1$2$3", "$1/$2 $3", "$1.$2.$3", "$2 $1 $3", "$1-$2$3", "$3$2$1"})
			if r.P(3) && len(nsn) > 0 {
				f.Leading = []string{nsn[:1]}
				if r.P(3) {
					f.Leading = append(f.Leading, nsn[:min(2, len(nsn))])
				}
			}
		}
		if r.P(2) {
			f.NPRule = gen.Pick(r, []string{"$NP$FG", "($NP$FG)", "$FG", "$NP $FG", "$NP-$FG", "", "0$1", "($1)"})
			f.HasNPRule = true
		}
		out = append(out, f)
	}
	return out
}

// C04: formatted text follows the metadata.
func checkFormat(e *env) {
	e.Rule = "distinct (number, style) pairs whose formatted text was compared with the metadata's rules"
	e.Run("format", e.N(300000), func(c *core.Case) {
		n := e.g.Num(c.R)
		if c.P(60) {
			n.NN = 0
			n.Raw, n.HasRaw = c.Hostile(), true
		}
		p := toPB(n)
		for f := 0; f < 4; f++ {
			c.Note("Format(%s, %s)", show(n), styleNames[f])
			got, want := phonenumbers.Format(p, phonenumbers.PhoneNumberFormat(f)), e.m.Format(n, f)
			c.Eval()
			c.Seen(show(n), f)
			if got != want {
				c.Fail("Format|"+show(n)+"|"+styleNames[f], "Format(%s, %s) = %q, want %q", show(n), styleNames[f], got, want)
				continue
			}
			// digits are conserved independently of the rule chosen
			if n.NN != 0 && n.CC > 0 && n.ILZ == (len(n.NSN()) > len(itoa64(n.NN))) && f != model.NATIONAL {
				if _, ok := e.m.Codes[int(n.CC)]; ok {
					body := got
					if n.Ext != "" && f != model.E164 {
						body = strings.TrimSuffix(body, n.Ext)
					}
					if d := onlyDigits(body); d != itoa(int(n.CC))+n.NSN() && !e.formatAddsDigits(n) {
						c.Fail("digits|"+show(n)+"|"+styleNames[f], "Format(%s, %s) = %q does not carry the digits of the number", show(n), styleNames[f], got)
					}
					c.Tag("digits-conserved")
				}
			}
			c.Tag("style:" + styleNames[f])
			if c.Index < 60 {
				c.Sample(styleNames[f], map[string]any{"number": show(n), "text": got})
			}
		}
	})
	e.Run("by-pattern", e.N(80000), func(c *core.Case) {
		n := e.g.Num(c.R)
		md := e.g.M.RegionMeta(e.m.RegionOf(n))
		if md == nil {
			md = e.g.Meta(c.R)
		}
		rules := userRules(c.R, md, n.NSN())
		f := c.Intn(4)
		c.Note("FormatByPattern(%s, %s)", show(n), styleNames[f])
		in := pbFormats(rules)
		before := proto.Clone(in[0])
		got, want := phonenumbers.FormatByPattern(toPB(n), phonenumbers.PhoneNumberFormat(f), in), e.m.FormatByPattern(n, f, rules)
		c.Eval()
		c.Seen("by", show(n), f, rules[0].Pattern, rules[0].Format)
		c.Tag("by-pattern:" + styleNames[f])
		if got != want {
			c.Fail("FormatByPattern|"+show(n), "FormatByPattern(%s, %s, %v) = %q, want %q", show(n), styleNames[f], in, got, want)
		}
		if !proto.Equal(before, in[0]) {
			c.Fail("FormatByPattern-mutates|"+show(n), "FormatByPattern changed the caller's rule from %v to %v", before, in[0])
		}
	})
	e.Run("carrier", e.N(100000), func(c *core.Case) {
		n := e.g.Num(c.R)
		code := gen.Pick(c.R, []string{"", "15", "12", "031", "x", "21", "9999"})
		p := toPB(n)
		c.Note("carrier formats of %s, %q", show(n), code)
		c.Eval()
		c.Seen("cc", show(n), code)
		if got, want := phonenumbers.FormatNationalNumberWithCarrierCode(p, code), e.m.FormatCarrier(n, code); got != want {
			c.Fail("FormatCarrier|"+show(n)+"|"+code, "FormatNationalNumberWithCarrierCode(%s, %q) = %q, want %q", show(n), code, got, want)
		} else if code != "" && strings.Contains(got, code) {
			c.Tag("carrier-code-shown")
		}
		if got, want := phonenumbers.FormatNationalNumberWithPreferredCarrierCode(p, code), e.m.FormatPreferredCarrier(n, code); got != want {
			c.Fail("FormatPreferredCarrier|"+show(n)+"|"+code, "FormatNationalNumberWithPreferredCarrierCode(%s, %q) = %q, want %q", show(n), code, got, want)
		}
	})
}

// formatAddsDigits: the rule that applies has literal digits of its own.
func (e *env) formatAddsDigits(n *model.Num) bool {
	want := itoa(int(n.CC)) + n.NSN()
	c := *n
	c.Ext = ""
	return onlyDigits(e.m.Format(&c, model.INTERNATIONAL)) != want
}

func itoa64(n uint64) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for ; n > 0; n /= 10 {
		b = append([]byte{byte('0' + n%10)}, b...)
	}
	return string(b)
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa64(uint64(-n))
	}
	return itoa64(uint64(n))
}

// C19: dialling formats.
func checkDialing(e *env) {
	e.Rule = "distinct (number, calling region) pairs whose dialling formats were compared"
	judge := func(c *core.Case, n *model.Num, reg string) {
		p := toPB(n)
		c.Note("dialling formats of %s from %q", show(n), reg)
		c.Eval()
		c.Seen(show(n), reg)
		cmp := func(what, got, want string) {
			if got != want {
				c.Fail(what+"|"+show(n)+"|"+reg, "%s(%s, %q) = %q, want %q", what, show(n), reg, got, want)
			}
		}
		cmp("FormatOutOfCountryCallingNumber", phonenumbers.FormatOutOfCountryCallingNumber(p, reg), e.m.FormatOutOfCountry(n, reg))
		cmp("FormatInOriginalFormat", phonenumbers.FormatInOriginalFormat(p, reg), e.m.FormatOriginal(n, reg))
		cmp("FormatOutOfCountryKeepingAlphaChars", phonenumbers.FormatOutOfCountryKeepingAlphaChars(p, reg), e.m.FormatKeepAlpha(n, reg))
		w := e.m.FormatMobileDialing(n, reg, true)
		cmp("FormatNumberForMobileDialing/formatted", phonenumbers.FormatNumberForMobileDialing(p, reg, true), w)
		cmp("FormatNumberForMobileDialing", phonenumbers.FormatNumberForMobileDialing(p, reg, false), e.m.FormatMobileDialing(n, reg, false))
		if w == "" {
			c.Tag("mobile:not-diallable")
		} else if strings.HasPrefix(w, "+") {
			c.Tag("mobile:international")
		} else {
			c.Tag("mobile:national")
		}
		if n.HasRaw {
			c.Tag("raw-kept")
		}
		if c.Index < 20 {
			c.Sample("dial", map[string]any{"number": show(n), "from": reg, "out_of_country": e.m.FormatOutOfCountry(n, reg), "mobile": w})
		}
	}
	e.Run("dialing", e.N(250000), func(c *core.Case) {
		n := e.g.Num(c.R)
		if c.P(3) { // raw input kept, as FormatInOriginalFormat and the alpha variant need
			md := e.g.Meta(c.R)
			if k, err := e.m.Parse(e.g.Render(c.R, md, e.g.NSN(c.R, md)), md.ID, true); err == model.OK {
				n = k
			}
		}
		judge(c, n, e.g.RegionFor(c.R, n))
	})
	e.Run("raw", e.N(150000), func(c *core.Case) { // raw inputs that go with the number in all kinds of ways
		md := e.g.Meta(c.R)
		nsn := e.g.NSN(c.R, md)
		if c.P(3) {
			nsn = c.Digits(1 + c.Intn(6))
		}
		n := e.g.Split(md, nsn)
		body := nsn
		switch c.Intn(4) {
		case 0, 1:
			body = c.Vanity(nsn)
		case 2:
			body = c.Punctuate(c.Vanity(nsn))
		}
		before := gen.Pick(c.R, []string{"", "", "0", "1", "00", "011", "+" + itoa(int(n.CC)) + " ", itoa(int(n.CC)), md.NatPrefix, md.NatPrefix + " ", md.NatPrefix + "-", "(" + md.NatPrefix + ")", c.FromPattern(md.IntlPrefix) + itoa(int(n.CC)), c.FromPattern(md.NPParsing), c.Digits(1 + c.Intn(3)), "*", "#31#"})
		n.Raw, n.HasRaw = before+body, true
		if c.P(8) {
			n.Raw += c.Ext()
		}
		if c.P(12) {
			n.Raw = c.Mutate(n.Raw)
		}
		n.Src = gen.Pick(c.R, []int{0, 1, 5, 10, 20, 20})
		if c.P(6) {
			n.Ext = c.Digits(1 + c.Intn(5))
		}
		if c.P(8) {
			n.PDCC = gen.Pick(c.R, []string{"15", "0", "12", "21", "123", "19", "31"})
		}
		if c.P(25) { // a number of no known calling code is shown as it was written
			n.CC = gen.Pick(c.R, []int32{210, 999, 3, 28, 21, 1000})
			c.Tag("unknown-code")
		}
		reg := md.ID
		if c.P(2) {
			reg = e.g.RegionFor(c.R, n)
		}
		judge(c, n, reg)
	})
}

// C22: truncation, examples, area codes.
func checkDerived(e *env) {
	e.Rule = "distinct numbers / (region, type) pairs whose derived facts were compared"
	e.Run("lengths", e.N(150000), func(c *core.Case) {
		n := e.g.Num(c.R)
		p := toPB(n)
		c.Note("derived lengths of %s", show(n))
		c.Eval()
		c.Seen(show(n))
		if g, w := phonenumbers.GetLengthOfNationalDestinationCode(p), e.m.NDCLen(n); g != w {
			c.Fail("NDC|"+show(n), "GetLengthOfNationalDestinationCode(%s) = %d, want %d", show(n), g, w)
		}
		if g, w := phonenumbers.GetLengthOfGeographicalAreaCode(p), e.m.AreaCodeLen(n); g != w {
			c.Fail("Area|"+show(n), "GetLengthOfGeographicalAreaCode(%s) = %d, want %d", show(n), g, w)
		} else if w > 0 {
			c.Tag("has-area-code")
		}
		for i := c.Intn(5); i > 0 && n.NN < 1e17; i-- {
			n.NN = n.NN*10 + uint64(c.Intn(10))
		}
		p = toPB(n)
		ok, nn := e.m.Truncate(n)
		before := proto.Clone(p).(*pb)
		if g := phonenumbers.TruncateTooLongNumber(p); g != ok || p.GetNationalNumber() != nn {
			c.Fail("Truncate|"+show(n), "TruncateTooLongNumber(%s) = %v leaving %d, want %v leaving %d", show(n), g, p.GetNationalNumber(), ok, nn)
		}
		before.NationalNumber = p.NationalNumber
		if !proto.Equal(before, p) {
			c.Fail("Truncate-fields|"+show(n), "TruncateTooLongNumber changed more than the national number of %s", show(n))
		}
		if ok {
			c.Tag("truncated-to-valid")
		} else {
			c.Tag("not-truncatable")
		}
	})
	regs := append(append([]string{}, e.g.Regions...), gen.OddRegions...)
	e.Run("examples", len(regs), func(c *core.Case) {
		reg := regs[c.Index]
		md := e.m.RegionMeta(reg)
		for t := -1; t <= 12; t++ {
			c.Note("examples for %q type %d", reg, t)
			c.Eval()
			c.Seen("ex", reg, t)
			p := phonenumbers.GetExampleNumberForTypeInRegion(reg, phonenumbers.PhoneNumberType(t))
			var w *model.Num
			if md != nil {
				if d := md.DescOf(t); d != nil && d.Example != "" {
					if n, err := e.m.Parse(d.Example, reg, false); err == model.OK {
						w = n
					}
				}
			}
			if (p == nil) != (w == nil) || p != nil && !same(fromPB(p), w) {
				c.Fail("example|"+reg+"|"+itoa(t), "GetExampleNumberForTypeInRegion(%q, %d) = %s, want %s", reg, t, showPB(p), show(w))
				continue
			}
			if t == model.FixedLine {
				q := phonenumbers.GetExampleNumber(reg)
				if (q == nil) != (w == nil) || q != nil && !same(fromPB(q), w) {
					c.Fail("example|"+reg, "GetExampleNumber(%q) = %s, want %s", reg, showPB(q), show(w))
				}
			}
			if p != nil && t >= 0 && t < 11 && e.prefix == "" {
				c.Tag("example")
				if !phonenumbers.IsValidNumber(p) {
					c.Fail("example-valid|"+reg+"|"+itoa(t), "example %s for %q type %d is not valid", showPB(p), reg, t)
				}
				ty := int(phonenumbers.GetNumberType(p))
				if ty != t && !(ty == model.FixedOrMobile && (t == model.FixedLine || t == model.Mobile)) && t != model.FixedOrMobile {
					c.Fail("example-type|"+reg+"|"+itoa(t), "example %s for %q type %d has type %d", showPB(p), reg, t, ty)
				}
			}
		}
		types := phonenumbers.GetSupportedTypesForRegion(reg)
		want := model.SupportedTypes(md)
		if len(types) != len(want) {
			c.Fail("types|"+reg, "GetSupportedTypesForRegion(%q) = %v, want %v", reg, types, want)
		}
		for t := range want {
			if !types[phonenumbers.PhoneNumberType(t)] {
				c.Fail("types|"+reg, "GetSupportedTypesForRegion(%q) = %v, want %v", reg, types, want)
			}
		}
		bad := phonenumbers.GetInvalidExampleNumber(reg)
		if (bad == nil) != (md == nil) && (e.prefix == "" || bad != nil) {
			c.Fail("invalid-example|"+reg, "GetInvalidExampleNumber(%q) = %s", reg, showPB(bad))
		} else if bad != nil && (phonenumbers.IsValidNumber(bad) || e.m.Valid(fromPB(bad)) || bad.GetCountryCode() != md.CC) {
			c.Fail("invalid-example|"+reg, "GetInvalidExampleNumber(%q) = %s is valid or foreign", reg, showPB(bad))
		}
	})
	e.Run("nongeo", 1100, func(c *core.Case) {
		cc := c.Index - 50
		md := e.m.NonGeo[cc]
		if _, ok := e.m.Codes[cc]; !ok {
			md = nil
		}
		c.Note("non-geographical %d", cc)
		c.Eval()
		p := phonenumbers.GetExampleNumberForNonGeoEntity(cc)
		var w *model.Num
		if md != nil {
			for _, d := range []*model.Desc{md.Mobile, md.TollFree, md.Shared, md.Voip, md.Voicemail, md.Uan, md.Premium} {
				if d != nil && d.Example != "" {
					if n, err := e.m.Parse("+"+itoa(cc)+d.Example, "ZZ", false); err == model.OK {
						w = n
					}
					break
				}
			}
			c.Seen("nongeo", cc)
		}
		if (p == nil) != (w == nil) || p != nil && !same(fromPB(p), w) {
			c.Fail("nongeo|"+itoa(cc), "GetExampleNumberForNonGeoEntity(%d) = %s, want %s", cc, showPB(p), show(w))
		}
		types := phonenumbers.GetSupportedTypesForNonGeoEntity(cc)
		want := model.SupportedTypes(md)
		if len(types) != len(want) {
			c.Fail("types|"+itoa(cc), "GetSupportedTypesForNonGeoEntity(%d) = %v, want %v", cc, types, want)
		}
		for t := range want {
			if !types[phonenumbers.PhoneNumberType(t)] {
				c.Fail("types|"+itoa(cc), "GetSupportedTypesForNonGeoEntity(%d) = %v, want %v", cc, types, want)
			}
		}
	})
	e.Run("anyexample", 12, func(c *core.Case) {
		t := c.Index
		known := map[string]bool{} // examples of the metadata in use
		add := func(md *model.Meta, in, reg string) {
			if d := md.DescOf(t); d != nil && d.Example != "" {
				if n, err := e.m.Parse(in+d.Example, reg, false); err == model.OK {
					known[show(n)] = true
				}
			}
		}
		for _, reg := range e.m.SupportedRegions() {
			add(e.m.RegionMeta(reg), "", reg)
		}
		if len(known) == 0 {
			for _, cc := range e.m.NonGeoCodes() {
				add(e.m.NonGeo[cc], "+"+itoa(cc), "ZZ")
			}
			c.Tag("type-without-region")
		}
		for k := 0; k < 20; k++ {
			c.Eval()
			p := phonenumbers.GetExampleNumberForType(phonenumbers.PhoneNumberType(t))
			if p == nil && len(known) > 0 || p != nil && !known[show(fromPB(p))] {
				c.Fail("anyexample|"+itoa(t), "GetExampleNumberForType(%d) = %s, which is none of the %d examples of that type", t, showPB(p), len(known))
			}
			if t < 11 && e.prefix == "" { // the released metadata has them all
				if p == nil {
					c.Fail("anyexample|"+itoa(t), "GetExampleNumberForType(%d) = nil", t)
				} else if ty := int(phonenumbers.GetNumberType(p)); !phonenumbers.IsValidNumber(p) || ty != t && !(ty == model.FixedOrMobile && t <= model.Mobile || t == model.FixedOrMobile && ty <= model.Mobile) {
					c.Fail("anyexample|"+itoa(t), "GetExampleNumberForType(%d) = %s: invalid or of type %d", t, showPB(p), ty)
				}
			}
		}
	})
}

var matchNames = []string{"NOT_A_NUMBER", "NO_MATCH", "SHORT_NSN_MATCH", "NSN_MATCH", "EXACT_MATCH"}

// relative returns a number or string that resembles n.
func (e *env) relative(c *core.Case, n *model.Num) *model.Num {
	o := *n
	o.Raw, o.HasRaw, o.Src, o.PDCC = "", false, 0, ""
	switch c.Intn(9) {
	case 0:
		o.CC = 0
	case 1:
		o.Ext = ""
	case 2:
		o.Ext = c.Digits(2)
	case 3:
		o.NN /= 10
	case 4:
		for m := uint64(10); m < o.NN; m *= 10 {
			if c.P(3) {
				o.NN %= m * 10
				break
			}
		}
	case 5:
		o.CC = int32(gen.Pick(c.R, e.g.Codes))
	case 6:
		o.ILZ = !o.ILZ
	case 7:
		return e.g.Num(c.R)
	}
	return &o
}

func (e *env) text(c *core.Case, n *model.Num) string {
	switch c.Intn(6) {
	case 0:
		return itoa64(n.NN)
	case 1:
		return n.NSN()
	case 2:
		s, _ := e.g.Entry(c.R)
		return s
	}
	return e.m.Format(n, c.Intn(4))
}

// C12: comparing numbers.
func checkMatch(e *env) {
	e.Rule = "distinct pairs of numbers/strings whose match verdict was compared and checked for symmetry and reflexivity"
	e.Run("numbers", e.N(200000), func(c *core.Case) {
		a := e.g.Num(c.R)
		b := e.relative(c, a)
		pa, pq := toPB(a), toPB(b)
		ca, cb := proto.Clone(pa), proto.Clone(pq)
		c.Note("match %s / %s", show(a), show(b))
		c.Eval()
		c.Seen(show(a), show(b))
		g, w := int(phonenumbers.IsNumberMatchWithNumbers(pa, pq)), e.m.Match(a, b)
		c.Tag("numbers:" + matchNames[w])
		if g != w {
			c.Fail("match|"+show(a)+"|"+show(b), "IsNumberMatchWithNumbers(%s, %s) = %d, want %d", show(a), show(b), g, w)
		}
		if r := int(phonenumbers.IsNumberMatchWithNumbers(pq, pa)); r != g {
			c.Fail("symmetry|"+show(a)+"|"+show(b), "IsNumberMatchWithNumbers(%s, %s) = %d but %d the other way round", show(a), show(b), g, r)
		}
		if r := phonenumbers.IsNumberMatchWithNumbers(pa, pa); r != phonenumbers.EXACT_MATCH && a.CC != 0 {
			c.Fail("reflexive|"+show(a), "IsNumberMatchWithNumbers(a, a) = %d for %s", r, show(a))
		}
		if !proto.Equal(ca, pa) || !proto.Equal(cb, pq) {
			c.Fail("mutates|"+show(a)+"|"+show(b), "comparison changed its arguments")
		}
	})
	e.Run("mixed", e.N(120000), func(c *core.Case) {
		a := e.g.Num(c.R)
		s := e.text(c, e.relative(c, a))
		c.Note("match %s / %q", show(a), s)
		c.Eval()
		c.Seen(show(a), s)
		g, w := int(phonenumbers.IsNumberMatchWithOneNumber(toPB(a), s)), e.m.MatchNumStr(a, s)
		c.Tag("mixed:" + matchNames[w])
		if g != w {
			c.Fail("match1|"+show(a)+"|"+s, "IsNumberMatchWithOneNumber(%s, %q) = %d, want %d", show(a), s, g, w)
		}
	})
	e.Run("strings", e.N(120000), func(c *core.Case) {
		a := e.g.Num(c.R)
		s, t := e.text(c, a), e.text(c, e.relative(c, a))
		c.Note("match %q / %q", s, t)
		c.Eval()
		c.Seen(s, t)
		g, w := int(phonenumbers.IsNumberMatch(s, t)), e.m.MatchStrs(s, t)
		c.Tag("strings:" + matchNames[w])
		if g != w {
			c.Fail("match2|"+s+"|"+t, "IsNumberMatch(%q, %q) = %d, want %d", s, t, g, w)
		}
		if r := int(phonenumbers.IsNumberMatch(t, s)); r != g {
			c.Fail("symmetry2|"+s+"|"+t, "IsNumberMatch(%q, %q) = %d but %d the other way round", s, t, g, r)
		}
		if c.Index < 20 {
			c.Sample("strings", map[string]any{"a": s, "b": t, "verdict": matchNames[w]})
		}
	})
}

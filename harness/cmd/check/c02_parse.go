package main

import (
	"fmt"
	"strings"

	"github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"

	"verif/core"
	"verif/gen"
	"verif/model"
)

func init() { checks["C02"] = checkParse }

// C02: the outcome of parsing follows from the metadata.
func checkParse(e *env) {
	e.Rule = "distinct (input, default region) pairs whose parse outcome was compared; trivial ones (empty input) are not counted"
	e.Run("entry", e.N(400000), func(c *core.Case) {
		s, reg := e.g.Entry(c.R)
		e.parseOne(c, s, reg)
	})
	var withCarrier []*model.Meta
	for _, r := range e.g.Regions {
		if md := e.m.RegionMeta(r); strings.Count(md.NPParsing, "(") > strings.Count(md.NPParsing, "(?:") {
			withCarrier = append(withCarrier, md)
		}
	}
	e.Run("prefixes", e.N(100000), func(c *core.Case) {
		// national prefixes with carrier codes and transform rules
		md := e.g.Meta(c.R)
		if c.P(2) {
			md = gen.Pick(c.R, withCarrier)
		}
		s := c.FromPattern(md.NPParsing) + e.g.NSN(c.R, md)
		if c.P(4) {
			s = c.Punctuate(s)
		}
		if c.P(4) {
			s = "+" + itoa(int(md.CC)) + s
		}
		e.parseOne(c, s, md.ID)
	})
	e.Run("lengths", e.N(80000), func(c *core.Case) {
		// inputs at the limits of length, after every kind of prefix
		md := e.g.Meta(c.R)
		n := c.Intn(5)
		if c.P(2) {
			n = 13 + c.Intn(9)
		}
		s := c.Digits(n)
		switch c.Intn(6) {
		case 0:
			s = c.FromPattern(md.IntlPrefix) + s
		case 1:
			s = c.FromPattern(md.IntlPrefix) + itoa(int(md.CC)) + s
		case 2:
			s = "+" + itoa(int(md.CC)) + s
		case 3:
			s = itoa(int(md.CC)) + s
		case 4:
			s = md.NatPrefix + s
		}
		if c.P(40) {
			s += strings.Repeat(gen.Pick(c.R, []string{" ", "-", "1", "("}), 225+c.Intn(30))
		}
		if c.P(6) {
			s += c.Ext()
		}
		e.parseOne(c, s, md.ID)
	})
	e.Run("hostile", e.N(60000), func(c *core.Case) {
		e.parseOne(c, c.Hostile(), e.g.AnyRegion(c.R))
	})
}

func (e *env) parseOne(c *core.Case, s, reg string) {
	keep := c.P(3)
	var p *pb
	var err error
	c.Note("Parse(%q, %q) keep=%v", s, reg, keep)
	if keep {
		p, err = phonenumbers.ParseAndKeepRawInput(s, reg)
	} else {
		p, err = phonenumbers.Parse(s, reg)
	}
	want, we := e.m.Parse(s, reg, keep)
	c.Eval()
	if s != "" {
		c.Seen(s, reg, keep)
	}
	got := errClass(err)
	c.Tag("parse:" + errName(got))
	if got != we {
		c.Fail("parse|"+s+"|"+reg, "Parse(%q, %q) keep=%v: outcome %s (%v), expected %s", s, reg, keep, errName(got), err, we)
		return
	}
	if err != nil {
		if p != nil && got != model.OK {
			c.Tag("error-with-number")
		}
		return
	}
	if !same(fromPB(p), want) {
		c.Fail("parse|"+s+"|"+reg, "Parse(%q, %q) keep=%v\n   got %s\n  want %s", s, reg, keep, showPB(p), show(want))
	}
	if c.P(4) { // stored and restored
		b, err := proto.Marshal(p)
		back := &pb{}
		if err == nil {
			err = proto.Unmarshal(b, back)
		}
		if err != nil || !proto.Equal(p, back) {
			c.Fail("stored|"+s+"|"+reg, "the result of Parse(%q, %q) does not survive being stored: %v, %s", s, reg, err, showPB(back))
		}
		if got, want := wire(b), fields(p); err == nil && got != want {
			c.Fail("encoded|"+s+"|"+reg, "the result of Parse(%q, %q) is stored as %s, by phonenumber.proto it is %s", s, reg, got, want)
		}
		c.Tag("stored")
	}
	c.Tag("source:" + phonenumbers.PhoneNumber_CountryCodeSource(want.Src).String())
	if want.Ext != "" {
		c.Tag("with-extension")
	}
	if want.ILZ {
		c.Tag("with-leading-zero")
	}
	if want.PDCC != "" {
		c.Tag("with-carrier-code")
	}
	c.Sample("parsed", map[string]any{"input": s, "region": reg, "result": show(want)})
}

// wire lists the fields an encoded message has, by number.
func wire(b []byte) string {
	f := map[int]string{}
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return "garbage"
		}
		b = b[n:]
		switch typ {
		case protowire.VarintType:
			v, k := protowire.ConsumeVarint(b)
			f[int(num)], n = fmt.Sprint(v), k
		case protowire.BytesType:
			v, k := protowire.ConsumeBytes(b)
			f[int(num)], n = fmt.Sprintf("%q", v), k
		default:
			n = -1
		}
		if n < 0 {
			return "garbage"
		}
		b = b[n:]
	}
	return fmt.Sprint(f)
}

// fields lists the fields of a number by the numbers phonenumber.proto gives
// them, which numbers stored by other programs and releases rely on.
func fields(p *pb) string {
	f := map[int]string{}
	num := func(k int, v uint64) { f[k] = fmt.Sprint(v) }
	if p.CountryCode != nil {
		num(1, uint64(int64(*p.CountryCode)))
	}
	if p.NationalNumber != nil {
		num(2, *p.NationalNumber)
	}
	if p.Extension != nil {
		f[3] = fmt.Sprintf("%q", *p.Extension)
	}
	if p.ItalianLeadingZero != nil {
		num(4, map[bool]uint64{true: 1}[*p.ItalianLeadingZero])
	}
	if p.RawInput != nil {
		f[5] = fmt.Sprintf("%q", *p.RawInput)
	}
	if p.CountryCodeSource != nil {
		num(6, map[phonenumbers.PhoneNumber_CountryCodeSource]uint64{
			phonenumbers.PhoneNumber_FROM_NUMBER_WITH_PLUS_SIGN:    1,
			phonenumbers.PhoneNumber_FROM_NUMBER_WITH_IDD:          5,
			phonenumbers.PhoneNumber_FROM_NUMBER_WITHOUT_PLUS_SIGN: 10,
			phonenumbers.PhoneNumber_FROM_DEFAULT_COUNTRY:          20,
		}[*p.CountryCodeSource])
	}
	if p.PreferredDomesticCarrierCode != nil {
		f[7] = fmt.Sprintf("%q", *p.PreferredDomesticCarrierCode)
	}
	if p.NumberOfLeadingZeros != nil {
		num(8, uint64(int64(*p.NumberOfLeadingZeros)))
	}
	return fmt.Sprint(f)
}

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"

	"verif/core"
	"verif/gen"
	"verif/model"
)

// args are the arguments an operation picks from.
type args struct {
	s, s2, text, cand, reg, lang, code string
	n, n2                              *pb
	cc, typ, fmt, len, tries, ntypes   int
	formats                            []*phonenumbers.NumberFormat
}

func (a *args) String() string {
	return fmt.Sprintf("s=%q s2=%q text=%q cand=%q region=%q lang=%q code=%q n={%s} n2={%s} cc=%d type=%d format=%d leniency=%d tries=%d",
		a.s, a.s2, a.text, a.cand, a.reg, a.lang, a.code, rawPB(a.n), rawPB(a.n2), a.cc, a.typ, a.fmt, a.len, a.tries)
}

// rawPB shows every field of a number with its presence.
func rawPB(p *pb) string {
	if p == nil {
		return "<nil>"
	}
	var b strings.Builder
	if p.CountryCode != nil {
		fmt.Fprintf(&b, "cc:%d ", *p.CountryCode)
	}
	if p.NationalNumber != nil {
		fmt.Fprintf(&b, "nn:%d ", *p.NationalNumber)
	}
	if p.Extension != nil {
		fmt.Fprintf(&b, "ext:%q ", *p.Extension)
	}
	if p.ItalianLeadingZero != nil {
		fmt.Fprintf(&b, "ilz:%v ", *p.ItalianLeadingZero)
	}
	if p.NumberOfLeadingZeros != nil {
		fmt.Fprintf(&b, "nlz:%d ", *p.NumberOfLeadingZeros)
	}
	if p.RawInput != nil {
		fmt.Fprintf(&b, "raw:%q ", *p.RawInput)
	}
	if p.CountryCodeSource != nil {
		fmt.Fprintf(&b, "src:%d ", int(*p.CountryCodeSource))
	}
	if p.PreferredDomesticCarrierCode != nil {
		fmt.Fprintf(&b, "pdcc:%q ", *p.PreferredDomesticCarrierCode)
	}
	if u := p.ProtoReflect().GetUnknown(); len(u) > 0 {
		fmt.Fprintf(&b, "unknown:%x ", []byte(u))
	}
	return strings.TrimSpace(b.String())
}

// op is one public operation; run renders everything it returned.
type op struct {
	name string
	use  string // which arguments it takes, as letters, for reports
	run  func(a *args) string
}

func showErr(err error) string {
	if err == nil {
		return ""
	}
	return "!" + errName(errClass(err)) + ":" + err.Error()
}

func parsed(p *pb, err error) string {
	if err != nil {
		return showErr(err)
	}
	return rawPB(p)
}

func sortedInts(m map[int]bool) string {
	var k []int
	for i, v := range m {
		if v {
			k = append(k, i)
		} else {
			k = append(k, -i)
		}
	}
	sort.Ints(k)
	return fmt.Sprint(k)
}

func sortedStrs(m map[string]bool) string {
	var k []string
	for i, v := range m {
		k = append(k, fmt.Sprint(i, v))
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

func sortedTypes(m map[phonenumbers.PhoneNumberType]bool) string {
	var k []int
	for i := range m {
		k = append(k, int(i))
	}
	sort.Ints(k)
	return fmt.Sprint(k)
}

func pair(s string, err error) string { return s + showErr(err) }

const maxMatches = 100000

func drain(text, reg string, l, tries int) string {
	var b strings.Builder
	k := 0
	for m := range phonenumbers.FindNumbersWithLeniency(text, reg, phonenumbers.Leniency(l), tries) {
		fmt.Fprintf(&b, "[%d %d %q %s]", m.Start(), m.End(), m.RawString(), rawPB(m.Number()))
		if k++; k > maxMatches {
			panic("finder does not stop")
		}
	}
	return b.String()
}

func typeAll(reg, s string) string {
	f := phonenumbers.GetAsYouTypeFormatter(reg)
	var b strings.Builder
	for i, r := range s {
		if i%5 == 3 {
			b.WriteString(f.InputDigitAndRememberPosition(r))
		} else {
			b.WriteString(f.InputDigit(r))
		}
		fmt.Fprintf(&b, "|%d|", f.GetRememberedPosition())
	}
	f.Clear()
	for _, r := range "+12" {
		b.WriteString(f.InputDigit(r))
	}
	return b.String()
}

// ops lists the public operations that answer without changing their arguments.
var ops = []op{
	{"Parse", "sr", func(a *args) string { return parsed(phonenumbers.Parse(a.s, a.reg)) }},
	{"ParseAndKeepRawInput", "sr", func(a *args) string { return parsed(phonenumbers.ParseAndKeepRawInput(a.s, a.reg)) }},
	{"ParseToNumber", "srn", func(a *args) string {
		p := proto.Clone(a.n).(*pb)
		err := phonenumbers.ParseToNumber(a.s, a.reg, p)
		return parsed(p, err)
	}},
	{"ParseAndKeepRawInputToNumber", "srn", func(a *args) string {
		p := proto.Clone(a.n).(*pb)
		err := phonenumbers.ParseAndKeepRawInputToNumber(a.s, a.reg, p)
		return parsed(p, err)
	}},
	{"Format", "nf", func(a *args) string { return phonenumbers.Format(a.n, phonenumbers.PhoneNumberFormat(a.fmt)) }},
	{"FormatByPattern", "nfF", func(a *args) string {
		return phonenumbers.FormatByPattern(a.n, phonenumbers.PhoneNumberFormat(a.fmt), a.formats)
	}},
	{"FormatInOriginalFormat", "nr", func(a *args) string { return phonenumbers.FormatInOriginalFormat(a.n, a.reg) }},
	{"FormatNationalNumberWithCarrierCode", "nc", func(a *args) string { return phonenumbers.FormatNationalNumberWithCarrierCode(a.n, a.code) }},
	{"FormatNationalNumberWithPreferredCarrierCode", "nc", func(a *args) string {
		return phonenumbers.FormatNationalNumberWithPreferredCarrierCode(a.n, a.code)
	}},
	{"FormatNumberForMobileDialing", "nr", func(a *args) string {
		return phonenumbers.FormatNumberForMobileDialing(a.n, a.reg, true) + "|" + phonenumbers.FormatNumberForMobileDialing(a.n, a.reg, false)
	}},
	{"FormatOutOfCountryCallingNumber", "nr", func(a *args) string { return phonenumbers.FormatOutOfCountryCallingNumber(a.n, a.reg) }},
	{"FormatOutOfCountryKeepingAlphaChars", "nr", func(a *args) string { return phonenumbers.FormatOutOfCountryKeepingAlphaChars(a.n, a.reg) }},
	{"GetNationalSignificantNumber", "n", func(a *args) string { return phonenumbers.GetNationalSignificantNumber(a.n) }},
	{"GetNumberType", "n", func(a *args) string { return fmt.Sprint(phonenumbers.GetNumberType(a.n)) }},
	{"IsValidNumber", "n", func(a *args) string { return fmt.Sprint(phonenumbers.IsValidNumber(a.n)) }},
	{"IsValidNumberForRegion", "nr", func(a *args) string { return fmt.Sprint(phonenumbers.IsValidNumberForRegion(a.n, a.reg)) }},
	{"GetRegionCodeForNumber", "n", func(a *args) string { return phonenumbers.GetRegionCodeForNumber(a.n) }},
	{"IsPossible", "nt", func(a *args) string {
		t := phonenumbers.PhoneNumberType(a.typ)
		return fmt.Sprint(phonenumbers.IsPossibleNumber(a.n), phonenumbers.IsPossibleNumberWithReason(a.n),
			phonenumbers.IsPossibleNumberForType(a.n, t), phonenumbers.IsPossibleNumberForTypeWithReason(a.n, t))
	}},
	{"IsPossibleNumberFromRegion", "sr", func(a *args) string { return fmt.Sprint(phonenumbers.IsPossibleNumberFromRegion(a.s, a.reg)) }},
	{"IsNumberMatch", "ss", func(a *args) string { return fmt.Sprint(phonenumbers.IsNumberMatch(a.s, a.s2)) }},
	{"IsNumberMatchWithNumbers", "nn", func(a *args) string { return fmt.Sprint(phonenumbers.IsNumberMatchWithNumbers(a.n, a.n2)) }},
	{"IsNumberMatchWithOneNumber", "ns", func(a *args) string { return fmt.Sprint(phonenumbers.IsNumberMatchWithOneNumber(a.n, a.s)) }},
	{"TruncateTooLongNumber", "n", func(a *args) string {
		p := proto.Clone(a.n).(*pb)
		ok := phonenumbers.TruncateTooLongNumber(p)
		return fmt.Sprint(ok, " ", rawPB(p))
	}},
	{"CanBeInternationallyDialled", "n", func(a *args) string { return fmt.Sprint(phonenumbers.CanBeInternationallyDialled(a.n)) }},
	{"IsNumberGeographical", "n", func(a *args) string {
		return fmt.Sprint(phonenumbers.IsNumberGeographical(a.n), phonenumbers.IsNumberGeographicalForType(phonenumbers.PhoneNumberType(a.typ), a.cc))
	}},
	{"GetLengthOf", "n", func(a *args) string {
		return fmt.Sprint(phonenumbers.GetLengthOfGeographicalAreaCode(a.n), phonenumbers.GetLengthOfNationalDestinationCode(a.n))
	}},
	{"Normalize", "s", func(a *args) string {
		return fmt.Sprintf("%q %q %q %v", phonenumbers.NormalizeDigitsOnly(a.s), phonenumbers.NormalizeDiallableCharsOnly(a.s),
			phonenumbers.ConvertAlphaCharactersInNumber(a.s), phonenumbers.IsAlphaNumber(a.s))
	}},
	{"Region", "r", func(a *args) string {
		return fmt.Sprintf("%d %q %q %v %v %s", phonenumbers.GetCountryCodeForRegion(a.reg), phonenumbers.GetNddPrefixForRegion(a.reg, true),
			phonenumbers.GetNddPrefixForRegion(a.reg, false), phonenumbers.IsMobileNumberPortableRegion(a.reg), phonenumbers.IsNANPACountry(a.reg),
			sortedTypes(phonenumbers.GetSupportedTypesForRegion(a.reg)))
	}},
	{"CallingCode", "C", func(a *args) string {
		return fmt.Sprintf("%q %q %q %s", phonenumbers.GetCountryMobileToken(a.cc), phonenumbers.GetRegionCodeForCountryCode(a.cc),
			phonenumbers.GetRegionCodesForCountryCode(a.cc), sortedTypes(phonenumbers.GetSupportedTypesForNonGeoEntity(a.cc)))
	}},
	{"Supported", "", func(a *args) string {
		return sortedInts(phonenumbers.GetSupportedCallingCodes()) + sortedInts(phonenumbers.GetSupportedGlobalNetworkCallingCodes()) +
			sortedStrs(phonenumbers.GetSupportedRegions())
	}},
	{"Example", "rtC", func(a *args) string {
		t := phonenumbers.PhoneNumberType(a.typ)
		return rawPB(phonenumbers.GetExampleNumber(a.reg)) + ";" + rawPB(phonenumbers.GetExampleNumberForTypeInRegion(a.reg, t)) + ";" +
			rawPB(phonenumbers.GetExampleNumberForNonGeoEntity(a.cc)) + ";" + rawPB(phonenumbers.GetInvalidExampleNumber(a.reg))
	}},
	{"Short", "nr", func(a *args) string {
		return fmt.Sprint(phonenumbers.IsPossibleShortNumber(a.n), phonenumbers.IsPossibleShortNumberForRegion(a.n, a.reg),
			phonenumbers.IsValidShortNumber(a.n), phonenumbers.IsValidShortNumberForRegion(a.n, a.reg), phonenumbers.IsCarrierSpecific(a.n),
			phonenumbers.IsCarrierSpecificForRegion(a.n, a.reg), phonenumbers.IsSmsServiceForRegion(a.n, a.reg),
			phonenumbers.GetExpectedCost(a.n), phonenumbers.GetExpectedCostForRegion(a.n, a.reg))
	}},
	{"Emergency", "sr", func(a *args) string {
		return fmt.Sprint(phonenumbers.ConnectsToEmergencyNumber(a.s, a.reg), phonenumbers.IsEmergencyNumber(a.s, a.reg))
	}},
	{"FindNumbers", "T", func(a *args) string {
		var b strings.Builder
		for m := range phonenumbers.FindNumbers(a.text, a.reg) {
			b.WriteString(m.String() + rawPB(m.Number()))
		}
		return b.String()
	}},
	{"FindNumbersWithLeniency", "T", func(a *args) string { return drain(a.text, a.reg, a.len, a.tries) }},
	{"Verify", "ns", func(a *args) string { return fmt.Sprint(phonenumbers.Leniency(a.len).Verify(a.n, a.cand)) }},
	{"AsYouType", "sr", func(a *args) string { return typeAll(a.reg, a.s) }},
	{"Carrier", "nl", func(a *args) string {
		return pair(carrier.GetNameForNumber(a.n, a.lang)) + "|" + pair(carrier.GetNameForValidNumber(a.n, a.lang)) + "|" + pair(carrier.GetSafeDisplayName(a.n, a.lang))
	}},
	{"Geocoding", "nlr", func(a *args) string {
		return pair(geocoding.GetDescriptionForNumber(a.n, a.lang)) + "|" + pair(geocoding.GetDescriptionForValidNumber(a.n, a.lang)) + "|" +
			pair(geocoding.GetDescriptionForNumberForUserRegion(a.n, a.lang, a.reg)) + "|" + pair(geocoding.GetDescriptionForValidNumberForUserRegion(a.n, a.lang, a.reg))
	}},
	{"TimeZone", "n", func(a *args) string {
		x, e1 := timezone.GetTimeZonesForNumber(a.n)
		y, e2 := timezone.GetTimeZonesForGeographicalNumber(a.n)
		return fmt.Sprint(x, showErr(e1), y, showErr(e2))
	}},
}

var userFormats = []*phonenumbers.NumberFormat{
	{Pattern: proto.String(`(\d{3})(\d{3})(\d{4})`), Format: proto.String("($1) $2-$3")},
	{Pattern: proto.String(`(\d{2})(\d+)`), Format: proto.String("$1 $2"), NationalPrefixFormattingRule: proto.String("$NP$FG")},
	{Pattern: proto.String(`(\d)(\d{2})(\d+)`), Format: proto.String("$2-$3"), LeadingDigitsPattern: []string{"[2-9]"}},
	{Pattern: proto.String(`(\d+)`), Format: proto.String("$1"), NationalPrefixFormattingRule: proto.String("($FG)")},
	{Pattern: proto.String(`x`), Format: proto.String("$1")},
	{Pattern: proto.String(`(\d{4})(\d{4})`), Format: proto.String("$1.$2"), NationalPrefixFormattingRule: proto.String("")},
	{},
}

// args draws a set of arguments; wild ones include number objects no parser
// produces and values outside of the enumerations.
func (e *env) args(c *core.Case, wild bool) *args {
	a := &args{}
	a.s, a.reg = e.g.Entry(c.R)
	a.s2, _ = e.g.Entry(c.R)
	n := e.g.Num(c.R)
	a.n = toPB(n)
	switch c.Intn(4) {
	case 0:
		a.s2 = e.m.Format(n, c.Intn(4))
	case 1:
		a.s = e.m.Format(n, c.Intn(4))
	case 2:
		a.s = e.g.Render(c.R, &model.Meta{CC: n.CC, ID: a.reg}, n.NSN())
	}
	m := e.g.Num(c.R)
	if c.P(2) {
		k := *n
		m = &k
		m.NN = m.NN % 10000000
	}
	a.n2 = toPB(m)
	a.cand = e.m.Format(n, 1+c.Intn(2))
	if c.P(2) {
		a.cand = regroup(c.R, a.cand)
	}
	a.text, _ = e.prose(c)
	if c.P(3) {
		a.reg = e.g.RegionFor(c.R, n)
	}
	a.lang = gen.Pick(c.R, []string{"en", "fr", "de", "zh", "ar", "es", "ru", "zh_Hant", "ko", "fa"})
	if c.P(5) {
		a.lang = oddLang(c.R)
	}
	a.code = gen.Pick(c.R, []string{"", "1", "15", "0", "123", "99"})
	a.cc = int(n.CC)
	if c.P(3) {
		a.cc = gen.Pick(c.R, []int{0, -1, 1, 7, 39, 44, 52, 54, 800, 808, 882, 979, 999, 1000, math.MaxInt32, math.MinInt32})
	}
	a.typ, a.fmt, a.len = c.Intn(13), c.Intn(4), c.Intn(4)
	a.tries = gen.Pick(c.R, []int{math.MaxInt32, 65535, 3, 1, 0, -5})
	for i := c.Intn(3); i > 0; i-- {
		a.formats = append(a.formats, gen.Pick(c.R, userFormats))
	}
	if !wild {
		return a
	}
	if c.P(2) {
		a.s = c.Hostile()
	}
	if c.P(3) {
		a.s2 = c.Hostile()
	}
	if c.P(3) {
		a.text = c.Hostile()
	}
	if c.P(2) {
		a.cand = c.Hostile()
	}
	if c.P(4) {
		a.reg = c.Hostile()
	}
	if c.P(4) {
		a.lang = c.Hostile()
	}
	if c.P(4) {
		a.code = c.Hostile()
	}
	if c.P(3) {
		a.cc = int(int32(c.Uint32()))
	}
	if c.P(4) {
		a.typ = c.Intn(60) - 20
	}
	if c.P(6) {
		a.fmt = c.Intn(40) - 20
	}
	if c.P(2) {
		e.wildNumber(c, a.n)
	}
	if c.P(4) {
		e.wildNumber(c, a.n2)
	}
	return a
}

// wildNumber distorts a number object.
func (e *env) wildNumber(c *core.Case, p *pb) {
	for k := 1 + c.Intn(3); k > 0; k-- {
		switch c.Intn(9) {
		case 0:
			p.CountryCode = nil
		case 1:
			p.CountryCode = proto.Int32(gen.Pick(c.R, []int32{0, -1, -44, 1, 999, 1000, 1234567, math.MaxInt32, math.MinInt32}))
		case 2:
			p.NationalNumber = nil
		case 3:
			p.NationalNumber = proto.Uint64(gen.Pick(c.R, []uint64{0, 1, 9, 10, 99999999999999999, math.MaxInt64, math.MaxUint64}))
		case 4:
			p.NationalNumber = proto.Uint64(c.Uint64() >> uint(c.Intn(64)))
		case 5:
			p.ItalianLeadingZero = proto.Bool(c.P(2))
			p.NumberOfLeadingZeros = proto.Int32(gen.Pick(c.R, []int32{0, 1, 2, 5, 17, 300, -1, -5, math.MinInt32}))
		case 6:
			p.Extension = proto.String(gen.Pick(c.R, []string{"", "0", "x", c.Hostile(), strings.Repeat("9", 60)}))
		case 7:
			p.RawInput = proto.String(c.Hostile())
			p.CountryCodeSource = phonenumbers.PhoneNumber_CountryCodeSource(gen.Pick(c.R, []int32{0, 1, 5, 10, 20, 7, -1, 1 << 30})).Enum()
		case 8:
			p.PreferredDomesticCarrierCode = proto.String(gen.Pick(c.R, []string{"", "1", "15", c.Hostile()}))
			if c.P(4) {
				p.ProtoReflect().SetUnknown(protowire.AppendVarint(protowire.AppendTag(nil, 99, protowire.VarintType), 7))
			}
		}
	}
}

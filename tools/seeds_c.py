# Bugs planted from the properties; written by hand, edits first, then the demonstration.

seed('B40', 'C04', [('phonenumberutil.go', '''	if len(intlNumberFormats) == 0 || numberFormat == NATIONAL {
''', '''	if len(intlNumberFormats) == 0 || numberFormat == NATIONAL || numberFormat == RFC3966 {
''')], '''
	num := func(s, r string) *PhoneNumber {
		n, err := ParseAndKeepRawInput(s, r)
		if err != nil {
			t.Fatal(s, err)
		}
		return n
	}
	if g := Format(num("+93 2601396", "ZZ"), RFC3966); g != "tel:+93-2601396" {
		t.Error(g)
	}
''', 'a region whose international formats leave out what the national ones group (short numbers of Afghanistan, say)', 'RFC 3966 output is grouped like the national format, not like the international one')

seed('B41', 'C05', [('phonenumberutil.go', '''	metadata := getMetadataForRegion(GetRegionCodeForNumber(number))
	if metadata == nil {
		// Note numbers''', '''	metadata := getMetadataForRegion(GetRegionCodeForCountryCode(int(number.GetCountryCode())))
	if metadata == nil {
		// Note numbers''')], '''
	cc, nn := int32(7), uint64(7518889943)
	if CanBeInternationallyDialled(&PhoneNumber{CountryCode: &cc, NationalNumber: &nn}) {
		t.Error("cannot be dialled from abroad")
	}
''', 'a number of a secondary region that restricts international dialling', 'dialability from abroad is judged by the main region of the calling code')

seed('B42','C08',[('phonenumberutil.go','''normalizationReplacements[unicode.ToUpper(character)]''','''normalizationReplacements[unicode.ToUpper(unicode.ToLower(character))]''')],'''
	if g := ConvertAlphaCharactersInNumber("1800 \u212A"); g != "1800 \u212A" {
		t.Error(g)
	}
	if g := ConvertAlphaCharactersInNumber("1800 K"); g != "1800 5" {
		t.Error(g)
	}
''',"a letter outside ASCII whose lower case is an ASCII letter (the Kelvin sign)","characters that are no keypad letters become digits")
seed('B43', 'C09', [('phonenumbermatcher.go', '''			m.searchIndex = m.lastMatch.End()''', '''			m.searchIndex = m.lastMatch.End() + 1
			if m.searchIndex > len(m.text) {
				m.searchIndex = len(m.text)
			}''')], '''
	text := "+968-5004770,ext,01686#+675 180 5025"
	var got []string
	for m := range FindNumbersWithLeniency(text, "PG", POSSIBLE, 100) {
		got = append(got, m.RawString())
	}
	if len(got) != 2 || got[0]+got[1] != text {
		t.Error(got)
	}
''', 'two numbers that touch each other, the second with a plus sign', 'a number directly after another one loses its plus sign or is not found')

seed('B44', 'C10', [('phonenumbermatcher.go', '''				index++
				if IsNumberMatchWithOneNumber(number, candidate[index:]) != NSN_MATCH {''', '''				index++
				if m := IsNumberMatchWithOneNumber(number, candidate[index:]); m != NSN_MATCH && m != SHORT_NSN_MATCH {''')], '''
	num := func(s, r string) *PhoneNumber {
		n, err := ParseAndKeepRawInput(s, r)
		if err != nil {
			t.Fatal(s, err)
		}
		return n
	}
	n := num("+227 97 25 09 67", "ZZ")
	if VALID.Verify(n, "+22xx7 97 2-5 09 67") {
		t.Error("accepted")
	}
''', 'a doubled carrier mark in front of only the end of the number', 'candidates whose digits after the carrier mark are only part of the number pass verification')

seed('B45', 'C11', [('asyoutypeformatter.go', '''	aytf.shouldAddSpaceAfterNationalPrefix = false
	if''', '''	if''')], '''
	f := GetAsYouTypeFormatter("HU")
	for _, c := range "+3633212119" {
		f.InputDigit(c)
	}
	f.Clear()
	g := ""
	for _, c := range "069" {
		g = f.InputDigit(c)
	}
	h := GetAsYouTypeFormatter("HU")
	w := ""
	for _, c := range "069" {
		w = h.InputDigit(c)
	}
	if g != w {
		t.Error(g, w)
	}
''', 'a formatter used again after Clear, when the first number was written with a space after the prefix', 'Clear does not bring the formatter back to its first state')

seed('B46', 'C15', [('carrier/carrier.go', '''	if phonenumbers.IsMobileNumberPortableRegion(phonenumbers.GetRegionCodeForNumber(number)) {''', '''	if phonenumbers.IsMobileNumberPortableRegion(phonenumbers.GetRegionCodeForCountryCode(int(number.GetCountryCode()))) {''')], '''package carrier_test

import (
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
)

func TestDemo(t *testing.T) {
	n, err := phonenumbers.Parse("+1 6702849254", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	if name, err := carrier.GetSafeDisplayName(n, "en"); err != nil || name != "PTI PACIFICA" {
		t.Error(name, err)
	}
}
''', 'a number of a region without number portability whose main region has it', 'the carrier is withheld by the rules of another region', pkg="carrier", raw=True)

seed('B47', 'C03', [('phonenumberutil.go', '''	val, _ := strconv.ParseUint(normalizedNationalNumber.String(), 10, 64)
''', '''	val, _ := strconv.ParseUint(strings.TrimLeft(normalizedNationalNumber.String(), "0"), 10, 64)
'''), ('phonenumberutil.go', '''	for numLeadZeros < len(nationalNum)-1 && nationalNum[numLeadZeros] == '0' {''', '''	for numLeadZeros < len(nationalNum)-1 && numLeadZeros < 4 && nationalNum[numLeadZeros] == '0' {''')], '''
	num := func(s, r string) *PhoneNumber {
		n, err := ParseAndKeepRawInput(s, r)
		if err != nil {
			t.Fatal(s, err)
		}
		return n
	}
	for _, s := range []string{"+80000000428133", "+39 0000002366"} {
		n := num(s, "ZZ")
		if g := Format(n, E164); g != "+80000000428133" && g != "+390000002366" {
			t.Error(s, g)
		}
		if m, err := Parse(Format(n, E164), "ZZ"); err != nil || IsNumberMatchWithNumbers(n, m) != EXACT_MATCH {
			t.Error(s)
		}
	}
''', 'a national number with more than four leading zeros', 'leading zeros beyond the fourth are lost on parsing')

seed('B48', 'C12', [('phonenumberutil.go', '''	if firstNumber.GetExtension() != "" && secondNumber.GetExtension() != "" &&
		firstNumber.GetExtension() != secondNumber.GetExtension() {''', '''	if firstNumber.GetExtension() != "" && secondNumber.GetExtension() != "" &&
		firstNumberIn.GetCountryCode() != 0 && secondNumberIn.GetCountryCode() != 0 &&
		firstNumber.GetExtension() != secondNumber.GetExtension() {''')], '''
	if g := IsNumberMatch("0913542568 ext. 8349135", "0913542568 ext. 40"); g != NO_MATCH {
		t.Error(g)
	}
''', 'two numbers without a calling code that differ in their extensions', 'different extensions are taken for the same line')

seed('B49', 'C19', [('phonenumberutil.go', '''		normalizedFormattedNumber := NormalizeDiallableCharsOnly(formattedNumber)
		normalizedRawInput := NormalizeDiallableCharsOnly(rawInput)''', '''		normalizedFormattedNumber := NormalizeDigitsOnly(formattedNumber)
		normalizedRawInput := NormalizeDigitsOnly(rawInput)''')], '''
	num := func(s, r string) *PhoneNumber {
		n, err := ParseAndKeepRawInput(s, r)
		if err != nil {
			t.Fatal(s, err)
		}
		return n
	}
	s := "0-8\\uff100\\uff179-2/2\\uff1139"
	for _, r := range []string{"UA", "US", "MX"} {
		for _, s := range []string{s, "044*668 18 00", "*044 668 18 00", "#650 253 0000", "650*253 0000"} {
			n, err := ParseAndKeepRawInput(s, r)
			if err != nil {
				continue
			}
			g := FormatInOriginalFormat(n, r)
			if NormalizeDiallableCharsOnly(g) != NormalizeDiallableCharsOnly(s) {
				t.Error(r, s, g)
			}
		}
	}
	_ = num
''', 'raw input with dialling characters other than ASCII digits', 'the original-format answer drops characters the user dialled')

seed('B50', 'C22', [('phonenumberutil.go', '''	number.NationalNumber = proto.Uint64(nationalNumber)
	return true
}

// GetAsYou''', '''	proto.Reset(number)
	number.CountryCode = numberCopy.CountryCode
	number.NationalNumber = numberCopy.NationalNumber
	number.ItalianLeadingZero = numberCopy.ItalianLeadingZero
	number.Extension = numberCopy.Extension
	return true
}

// GetAsYou''')], '''
	num := func(s, r string) *PhoneNumber {
		n, err := ParseAndKeepRawInput(s, r)
		if err != nil {
			t.Fatal(s, err)
		}
		return n
	}
	n := num("+1 650 253 00000 ext. 7", "ZZ")
	raw := n.GetRawInput()
	if raw == "" || !TruncateTooLongNumber(n) || n.GetNationalNumber() != 6502530000 || n.GetRawInput() != raw || n.GetCountryCodeSource() != PhoneNumber_FROM_NUMBER_WITH_PLUS_SIGN || n.GetExtension() != "7" {
		t.Error(n)
	}
''', 'a too long number that carries its raw input', 'truncation drops the raw input and the source of the calling code')

seed('B51', 'C20', [('metadata/source.go', '''func IsNANPARegion(region string) bool {
	_, ok := current.nanpaRegions[region]
	return ok
}''', '''func IsNANPARegion(region string) bool {
	nanpaOnce.Do(func() { nanpa = current.nanpaRegions })
	_, ok := nanpa[region]
	return ok
}

var (
	nanpaOnce sync.Once
	nanpa     map[string]struct{}
)'''), ('metadata/source.go', '''	"errors"
''', '''	"errors"
	"sync"
''')], '''
	if !IsNANPACountry("US") {
		t.Error("US")
	}
	c, err := metadata.Collection()
	if err != nil {
		t.Fatal(err)
	}
	x, err := metadata.NewContainer(c, map[int][]string{1: {"US", "FR"}})
	if err != nil {
		t.Fatal(err)
	}
	restore := metadata.Use(x)
	fr, ca := IsNANPACountry("FR"), IsNANPACountry("CA")
	restore()
	if !fr || ca || IsNANPACountry("FR") || !IsNANPACountry("CA") {
		t.Error(fr, ca)
	}
''', 'other metadata installed after the membership was asked for once', 'NANPA membership stays that of the metadata in use at the first question', imports=('github.com/nyaruka/phonenumbers/v2/metadata',))
seed('B52','C01',[('phonenumberutil.go','''	if len(nationalNumber) > 3 {
		firstNational''','''	if len(rawInput) > 3 {
		firstNational''')],'''
	n, err := ParseAndKeepRawInput("+44 12", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	if g := FormatOutOfCountryKeepingAlphaChars(n, "US"); g == "" {
		t.Error(g)
	}
''',"a number of two digits with longer raw input","the call panics")
seed('B53','C07',[('phonenumberutil.go','''PERSONAL_NUMBER, PAGER, UAN, VOICEMAIL, UNKNOWN,
''','''PERSONAL_NUMBER, PAGER, UAN, UNKNOWN,
''')],'''
	for r := range GetSupportedRegions() {
		for ty := FIXED_LINE; ty < UNKNOWN; ty++ {
			if ts := GetSupportedTypesForRegion(r); ty != FIXED_LINE_OR_MOBILE && GetExampleNumberForTypeInRegion(r, ty) != nil && !ts[ty] {
				t.Error(r, ts, ty)
			}
		}
	}
''',"a region with voicemail numbers","a type the metadata has is missing from the supported types")
seed('B54','C13',[('internal/prefixmapper/prefixmapper.go','''	m.mu.Lock()
	defer m.mu.Unlock()

	// if we already have prefixes (or nil if they don't exist) return that
	prefixes, ok := m.langMap[language]
	if ok {
		return prefixes, nil
	}
''','''	// if we already have prefixes (or nil if they don't exist) return that
	prefixes, ok := m.langMap[language]
	if ok {
		return prefixes, nil
	}

	m.mu.Lock()
	defer m.mu.Unlock()
''')],'''package carrier_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
)

func TestDemo(t *testing.T) {
	n, err := phonenumbers.Parse("+8613702032331", "ZZ")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := range 32 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range 50 {
				carrier.GetNameForNumber(n, "en")
				carrier.GetNameForNumber(n, fmt.Sprintf("q%d", (i*k)%23))
			}
		}()
	}
	wg.Wait()
}
''',"two goroutines, one of which asks in a language nobody asked in before","the table of loaded languages is read while another goroutine writes to it",pkg="carrier",raw=True,flags="-race")
seed('B55','C21',[('internal/metadatabuilder/metadatabuilder.go','''			if numberFormatElement.NationalPrefixOptionalWhenFormatting != nil {
				format''','''			if optional := numberFormatElement.NationalPrefixOptionalWhenFormatting; optional != nil && *optional {
				format''')],'''package metadatabuilder_test

import (
	"testing"

	"github.com/nyaruka/phonenumbers/v2/internal/metadatabuilder"
)

const doc = `<phoneNumberMetadata><territories>
<territory id="XA" countryCode="999" internationalPrefix="00" nationalPrefix="0" nationalPrefixFormattingRule="$NP$FG" nationalPrefixOptionalWhenFormatting="true">
<availableFormats>
<numberFormat pattern="(\\d{3})(\\d{4})" nationalPrefixOptionalWhenFormatting="false"><leadingDigits>1</leadingDigits><format>$1 $2</format></numberFormat>
<numberFormat pattern="(\\d{3})(\\d{4})"><leadingDigits>2</leadingDigits><format>$1-$2</format></numberFormat>
</availableFormats>
<generalDesc><nationalNumberPattern>[12]\\d{6}</nationalNumberPattern></generalDesc>
<fixedLine><possibleLengths national="7"/><exampleNumber>1234567</exampleNumber><nationalNumberPattern>[12]\\d{6}</nationalNumberPattern></fixedLine>
</territory></territories></phoneNumberMetadata>`

func TestDemo(t *testing.T) {
	c, err := metadatabuilder.BuildPhoneMetadataCollection([]byte(doc), false, false, false)
	if err != nil {
		t.Fatal(err)
	}
	f := c.GetMetadata()[0].GetNumberFormat()
	if f[0].GetNationalPrefixOptionalWhenFormatting() || !f[1].GetNationalPrefixOptionalWhenFormatting() {
		t.Error(f)
	}
}
''',"a format that says no where its territory says yes","the territory's setting overrides the format's own",pkg="internal/metadatabuilder",raw=True)
seed('B56','C23',[('cmd/phoneparser/main.go','''	fmt.Printf("        National: %d\\n", *num.NationalNumber)
''','''	fmt.Printf("        National: %s\\n", phonenumbers.GetNationalSignificantNumber(num))
''')],'''package main

import (
	"io"
	"os"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	out, args := os.Stdout, os.Args
	os.Stdout, os.Args = w, []string{"phoneparser", "02 3661 8300", "IT"}
	main()
	os.Stdout, os.Args = out, args
	w.Close()
	b, _ := io.ReadAll(r)
	if !strings.Contains(string(b), "National: 236618300\\n") {
		t.Errorf("%s", b)
	}
}
''',"a number with a leading zero","the national number is printed with the zeros that the field does not hold",pkg="cmd/phoneparser",raw=True)

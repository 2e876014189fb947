seed("B21","C14",[(U,'''		numFormatCopy := &NumberFormat{}
		// Before we do a replacement of the national prefix pattern
		// $NP with the national prefix, we need to copy the rule so
		// that subsequent replacements for different numbers have the
		// appropriate national prefix.
		proto.Merge(numFormatCopy, formattingPattern)''','''		numFormatCopy := formattingPattern''')],'''
	p, f, r := "(\\\\d{3})(\\\\d{3})(\\\\d{4})", "$1 $2 $3", "$NP ($FG)"
	pat := []*NumberFormat{{Pattern: &p, Format: &f, NationalPrefixFormattingRule: &r}}
	us, _ := Parse("+16502530000", "ZZ")
	FormatByPattern(us, NATIONAL, pat)
	if got := pat[0].GetNationalPrefixFormattingRule(); got != "$NP ($FG)" {
		t.Fatalf("the caller's pattern was changed to %q", got)
	}
''',"a caller pattern with a $NP rule that is used again or inspected after formatting","formatting rewrites the caller's pattern, so its next use for another country shows the wrong prefix")
seed("B23","C06",[(U,'''				mobileLengths := mobileDesc.PossibleLength
				if len(mobileLengths) == 0 {
					mobileLengths = metadata.GeneralDesc.PossibleLength
				}
				possibleLengths''','''				mobileLengths := mobileDesc.PossibleLength
				possibleLengths''')],'''
	for r := range GetSupportedRegions() {
		cc := int32(GetCountryCodeForRegion(r))
		if GetRegionCodeForCountryCode(int(cc)) != r {
			continue
		}
		nn := uint64(2)
		for l := 1; l <= 15; l, nn = l+1, nn*10+2 {
			v := nn
			n := &PhoneNumber{CountryCode: &cc, NationalNumber: &v}
			if IsPossibleNumberForTypeWithReason(n, MOBILE) == IS_POSSIBLE && !IsPossibleNumberForType(n, FIXED_LINE_OR_MOBILE) {
				t.Fatalf("%s: %d digits possible as mobile, not as fixed-line-or-mobile", r, l)
			}
		}
	}
''',"a region whose mobile numbers have all general lengths while its fixed-line numbers have fewer","lengths only mobile numbers have are refused for fixed-line-or-mobile")
seed("B27","C16",[("geocoding/geocoding.go",'''	regionCode := phonenumbers.GetRegionCodeForNumber(number)
	if userRegion == regionCode {''','''	regionCode := phonenumbers.GetRegionCodeForNumber(number)
	if userRegion == regionCode || phonenumbers.GetCountryCodeForRegion(userRegion) == int(number.GetCountryCode()) {''')],'''package geocoding

import (
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
)

func TestDemo(t *testing.T) {
	n, _ := phonenumbers.Parse("+14162530000", "ZZ")
	s, err := GetDescriptionForNumberForUserRegion(n, "en", "US")
	if err != nil || s != "Canada" {
		t.Fatal(s, err)
	}
}
''',"a user in another region of the same calling code","a user in the US is shown a Canadian number's town without its country",pkg="geocoding",raw=True)
seed("B28","C17",[("timezone/timezone.go",'''	for i := matchLength; i > 0; i-- {''','''	for i := matchLength; i > 1; i-- {''')],'''package timezone

import (
	"testing"

	"github.com/nyaruka/phonenumbers/v2"
)

func TestDemo(t *testing.T) {
	for _, s := range []string{"+78001234567", "+18002530000"} {
		n, _ := phonenumbers.Parse(s, "ZZ")
		z, err := GetTimeZonesForNumber(n)
		if err != nil || len(z) < 2 {
			t.Fatal(s, z, err)
		}
	}
}
''',"a non-geographical number under a one-digit calling code","its zones are reported unknown",pkg="timezone",raw=True)
seed("B29","C18",[("shortnumberinfo.go",'''	regionCode := getRegionCodeForShortNumberFromRegionList(number, regionCodes)
	nationalNumber := GetNationalSignificantNumber(number)
	phoneMetadata := getShortNumberMetadataForRegion(regionCode)
	return phoneMetadata != nil &&''','''	regionCode := GetRegionCodeForCountryCode(int(number.GetCountryCode()))
	if len(regionCodes) == 0 {
		return false
	}
	nationalNumber := GetNationalSignificantNumber(number)
	phoneMetadata := getShortNumberMetadataForRegion(regionCode)
	return phoneMetadata != nil &&''')],'''
	for cc := 1; cc < 1000; cc++ {
		rs := GetRegionCodesForCountryCode(cc)
		for nn := uint64(10); nn < 100000 && len(rs) > 1; nn++ {
			c, v := int32(cc), nn
			n := &PhoneNumber{CountryCode: &c, NationalNumber: &v}
			for _, r := range rs {
				if IsValidShortNumberForRegion(n, r) { // the first region it is valid in decides
					if IsCarrierSpecific(n) != IsCarrierSpecificForRegion(n, r) {
						t.Fatal(r, n)
					}
					break
				}
			}
		}
	}
''',"a carrier-specific short number valid only in a secondary region of a shared calling code","carrier-specific numbers of secondary regions are not recognised")
seed("B31","C20",[("metadata/source.go",'''	prev := current
	current = c
	return func() { current = prev }''','''	current = c
	return func() { current = embedded }'''),("metadata/source.go",'''	current = c
}

// Load reads''','''	current, embedded = c, c
}

// embedded is the container built from the embedded metadata.
var embedded *Container

// Load reads''')],'''
	c, err := metadata.Collection()
	if err != nil {
		t.Fatal(err)
	}
	only := func(id string) *metadata.Container {
		x := &metadata.PhoneMetadataCollection{}
		for _, m := range c.GetMetadata() {
			if m.GetId() == id {
				x.Metadata = append(x.Metadata, m)
			}
		}
		k, err := metadata.NewContainer(x, map[int][]string{int(x.Metadata[0].GetCountryCode()): {id}})
		if err != nil {
			t.Fatal(err)
		}
		return k
	}
	out := metadata.Use(only("US"))
	in := metadata.Use(only("FR"))
	in()
	if len(GetSupportedRegions()) != 1 || !GetSupportedRegions()["US"] {
		t.Error("inner restore did not bring back the outer set")
	}
	out()
	if len(GetSupportedRegions()) < 200 {
		t.Error("not restored")
	}
''',"nested installations of other metadata","the inner restore installs the built-in set instead of the outer one",imports=("github.com/nyaruka/phonenumbers/v2/metadata",))

From b7f62ba3d61422583607340b08be7ded4e12fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:12 +0000
Subject: [PATCH 01/12] fix: Leniency.Verify panics at STRICT_GROUPING when the
 candidate is shorter than the country code

The search position after the country code could lie beyond the end of the
candidate; upstream's indexOf reports no match there.
---
 phonenumbermatcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phonenumbermatcher.go b/phonenumbermatcher.go
index 73ad4f5..2245862 100644
--- a/phonenumbermatcher.go
+++ b/phonenumbermatcher.go
@@ -380,6 +380,10 @@ func allNumberGroupsRemainGrouped(
 		// First skip the country code if the normalized candidate contained it.
 		countryCode := strconv.Itoa(int(number.GetCountryCode()))
 		fromIndex = strings.Index(normalizedCandidate, countryCode) + len(countryCode)
+		if fromIndex > len(normalizedCandidate) {
+			// The candidate is too short to hold even the country code.
+			return false
+		}
 	}
 	// Check each group of consecutive digits is not broken into separate
 	// groupings in the normalizedCandidate string.
-- 
2.43.0


From 25a6a009c8117441895669dfd51a93f70dba44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:12 +0000
Subject: [PATCH 02/12] fix: as-you-type formatter loses digits after a longer
 national prefix was extracted

A second extraction put the stale, shorter prefix back in front of the national
number and cut the text shown at its last occurrence, e.g. 041495623 typed in CO
was shown as 05 623.
---
 asyoutypeformatter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asyoutypeformatter.go b/asyoutypeformatter.go
index 1de359a..cda0a85 100644
--- a/asyoutypeformatter.go
+++ b/asyoutypeformatter.go
@@ -421,7 +421,16 @@ func (aytf *AsYouTypeFormatter) ableToExtractLongerNdd() bool {
 		indexOfPreviousNdd := aytf.prefixBeforeNationalNumber.LastIndexOf(aytf.extractedNationalPrefix)
 		aytf.prefixBeforeNationalNumber.SetLength(indexOfPreviousNdd)
 	}
-	return aytf.extractedNationalPrefix != aytf.removeNationalPrefixFromNationalNumber()
+	nationalPrefix := aytf.removeNationalPrefixFromNationalNumber()
+	if nationalPrefix == aytf.extractedNationalPrefix {
+		return false
+	}
+	if len(aytf.extractedNationalPrefix) > 0 {
+		// The NDD has been replaced, so it is the new one which has to be put back if we
+		// come here again; putting back the old one would lose digits of the input.
+		aytf.extractedNationalPrefix = nationalPrefix
+	}
+	return true
 }
 
 func (aytf *AsYouTypeFormatter) isDigitOrLeadingPlusSign(nextChar rune) bool {
-- 
2.43.0


From 085a7d4b046ba433a82952bc95c2687a738b9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 03/12] fix: geocoding panics for languages that have no
 country names

display.Regions returns nil for well-formed language tags without data, e.g. aa
or und; fall back to English as is done for malformed tags.
---
 geocoding/geocoding.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geocoding/geocoding.go b/geocoding/geocoding.go
index f986de1..30f3c4e 100644
--- a/geocoding/geocoding.go
+++ b/geocoding/geocoding.go
@@ -131,5 +131,9 @@ func regionDisplayName(regionCode, lang string) string {
 	if err != nil {
 		langT = language.English // fall back to english only for rendering the country name
 	}
-	return display.Regions(langT).Name(reg)
+	namer := display.Regions(langT)
+	if namer == nil {
+		namer = display.Regions(language.English) // no country names in this language
+	}
+	return namer.Name(reg)
 }
-- 
2.43.0


From 401005d4195e27a7038d490dd23bb4e442fc8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 04/12] fix: ParseToNumber leaves fields of an earlier parse in
 the number

A reused PhoneNumber kept the extension, number of leading zeros, raw input,
country code source and carrier code of the previous number, although the result
should be the same as that of Parse.
---
 phonenumberutil.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 621e61c..4cdb245 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2638,6 +2638,7 @@ func Parse(numberToParse, defaultRegion string) (*PhoneNumber, error) {
 // Same as Parse(string, string), but accepts mutable PhoneNumber as a
 // parameter to decrease object creation when invoked many times.
 func ParseToNumber(numberToParse, defaultRegion string, phoneNumber *PhoneNumber) error {
+	proto.Reset(phoneNumber)
 	return parseHelper(numberToParse, defaultRegion, false, true, phoneNumber)
 }
 
@@ -2658,6 +2659,7 @@ func ParseAndKeepRawInput(
 func ParseAndKeepRawInputToNumber(
 	numberToParse, defaultRegion string,
 	phoneNumber *PhoneNumber) error {
+	proto.Reset(phoneNumber)
 	return parseHelper(numberToParse, defaultRegion, true, true, phoneNumber)
 }
 
-- 
2.43.0


From 6605caad2cd8a29960ea2babd0c67de4811af483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 05/12] fix: returned collections alias the library's own
 tables

---
 phonenumberutil.go   | 10 ++++++----
 timezone/timezone.go |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 4cdb245..8a7e3e3 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -4,8 +4,10 @@ package phonenumbers
 import (
 	"errors"
 	"iter"
+	"maps"
 	"math"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
@@ -702,7 +704,7 @@ func normalizeHelper(number string,
 
 // GetSupportedRegions returns all regions the library has metadata for.
 func GetSupportedRegions() map[string]bool {
-	return metadata.SupportedRegions()
+	return maps.Clone(metadata.SupportedRegions())
 }
 
 // GetSupportedCallingCodes returns all country calling codes the library has metadata for, covering both non-geographical
@@ -710,12 +712,12 @@ func GetSupportedRegions() map[string]bool {
 // used to populate a drop-down box of country calling codes for a phone-number widget, for
 // instance.
 func GetSupportedCallingCodes() map[int]bool {
-	return metadata.SupportedCallingCodes()
+	return maps.Clone(metadata.SupportedCallingCodes())
 }
 
 // GetSupportedGlobalNetworkCallingCodes returns all global network calling codes the library has metadata for.
 func GetSupportedGlobalNetworkCallingCodes() map[int]bool {
-	return metadata.CountryCodesForNonGeographicalRegion()
+	return maps.Clone(metadata.CountryCodesForNonGeographicalRegion())
 }
 
 // allPhoneNumberTypes lists every PhoneNumberType, used to iterate types like
@@ -2026,7 +2028,7 @@ func GetRegionCodeForCountryCode(countryCallingCode int) string {
 // an empty list is returned.
 func GetRegionCodesForCountryCode(countryCallingCode int) []string {
 	var regionCodes []string = metadata.CountryCodeToRegion()[countryCallingCode]
-	return regionCodes
+	return slices.Clone(regionCodes)
 }
 
 // Returns the country calling code for a specific region. For example, this
diff --git a/timezone/timezone.go b/timezone/timezone.go
index d9e782c..29a21b0 100644
--- a/timezone/timezone.go
+++ b/timezone/timezone.go
@@ -4,6 +4,7 @@ package timezone
 import (
 	_ "embed"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -79,7 +80,7 @@ func lookupTimeZones(number string) ([]string, error) {
 		}
 		tzs, found := timezoneMap.Map[index]
 		if found {
-			return tzs, nil
+			return slices.Clone(tzs), nil
 		}
 	}
 	return []string{Unknown}, nil
-- 
2.43.0


From a36cce389edf6922ae3734f356e62edde2d5eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:59 +0000
Subject: [PATCH 06/12] fix: metadata builder reads malformed possible lengths
 as zero

---
 internal/metadatabuilder/metadatabuilder.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/metadatabuilder/metadatabuilder.go b/internal/metadatabuilder/metadatabuilder.go
index 1157df9..d1ff2b4 100644
--- a/internal/metadatabuilder/metadatabuilder.go
+++ b/internal/metadatabuilder/metadatabuilder.go
@@ -334,8 +334,8 @@ func parsePossibleLengthStringToSet(possibleLengthString string) map[int32]bool
 			if len(minMax) != 2 {
 				panic(fmt.Sprintf("Ranges must have exactly one - character: missing for %s.", possibleLengthString))
 			}
-			min, _ := strconv.Atoi(minMax[0])
-			max, _ := strconv.Atoi(minMax[1])
+			min := parsePossibleLength(minMax[0], possibleLengthString)
+			max := parsePossibleLength(minMax[1], possibleLengthString)
 
 			// We don't even accept [6-7] since we prefer the shorter 6,7 variant; for a range to be in
 			// use the hyphen needs to replace at least one digit.
@@ -347,13 +347,21 @@ func parsePossibleLengthStringToSet(possibleLengthString string) map[int32]bool
 				lengthSet[int32(j)] = true
 			}
 		} else {
-			length, _ := strconv.Atoi(lengthSubstring)
-			lengthSet[int32(length)] = true
+			lengthSet[int32(parsePossibleLength(lengthSubstring, possibleLengthString))] = true
 		}
 	}
 	return lengthSet
 }
 
+// parsePossibleLength parses one number of a possible length string.
+func parsePossibleLength(length, possibleLengthString string) int {
+	n, err := strconv.Atoi(length)
+	if err != nil {
+		panic(fmt.Sprintf("Invalid length %q in possible length string %s.", length, possibleLengthString))
+	}
+	return n
+}
+
 /**
  * Reads the possible lengths present in the metadata and splits them into two sets: one for
  * full-length numbers, one for local numbers.
-- 
2.43.0


From 48c77d7ac2c4967a7e463224c0eff82c707bfef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:03 +0000
Subject: [PATCH 07/12] fix: buildmetadata writes a truncated count for keys
 with more than 255 values

---
 cmd/buildmetadata/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 65d1ca0..3821f25 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -457,6 +457,11 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 		// then our values
 		values := prefixMap[key]
 
+		// make sure we won't overrun the uint8 count
+		if len(values) > math.MaxUint8 {
+			return nil, fmt.Errorf("too many values for key %d to represent their count in uint8", key)
+		}
+
 		// write our number of values
 		if err := binary.Write(data, binary.LittleEndian, uint8(len(values))); err != nil {
 			return nil, err
-- 
2.43.0


From 6aa79dfa1c73b8fd51446a356a2269e73e93aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:31 +0000
Subject: [PATCH 08/12] fix: don't keep an entry for every language without
 data

The carrier and geocoding mappers remembered each language tag they were ever
asked for, so callers passing on tags from requests made memory grow without
limit.
---
 internal/prefixmapper/prefixmapper.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/prefixmapper/prefixmapper.go b/internal/prefixmapper/prefixmapper.go
index 8162bec..19c8d15 100644
--- a/internal/prefixmapper/prefixmapper.go
+++ b/internal/prefixmapper/prefixmapper.go
@@ -39,7 +39,7 @@ func (m *Mapper) lazyLoadPrefixes(language string) (*serialize.IntStringMap, err
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
-	// if we already have prefixes (or nil if they don't exist) return that
+	// if we already have prefixes return those
 	prefixes, ok := m.langMap[language]
 	if ok {
 		return prefixes, nil
@@ -57,9 +57,7 @@ func (m *Mapper) lazyLoadPrefixes(language string) (*serialize.IntStringMap, err
 			return nil, err
 		}
 		m.langMap[language] = prefixes
-	} else {
-		m.langMap[language] = nil // language doesn't have data
-	}
+	} // a language without data isn't remembered: there's no limit to what callers ask for
 
 	return m.langMap[language], nil
 }
-- 
2.43.0


From 88c6dc1a3cb9c9bfe6426eb7159b7f16d95e2be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 09/12] fix: use the data's own longest prefix for carrier and
 geocoding lookups

Lookups tried prefixes of at most nine digits, whatever the data held, so
longer entries in a metadata release would have been ignored.
---
 carrier/carrier.go                    |  2 +-
 geocoding/geocoding.go                |  2 +-
 internal/prefixmapper/prefixmapper.go | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/carrier/carrier.go b/carrier/carrier.go
index 623758f..ae18237 100644
--- a/carrier/carrier.go
+++ b/carrier/carrier.go
@@ -18,7 +18,7 @@ var mapper = prefixmapper.New(carrierData, "data")
 // accuracy. The number is assumed to be valid.
 func GetNameForValidNumber(number *phonenumbers.PhoneNumber, lang string) (string, error) {
 	e164 := phonenumbers.Format(number, phonenumbers.E164)
-	name, _, err := mapper.ValueForNumber(lang, 10, e164)
+	name, _, err := mapper.ValueForNumber(lang, e164)
 	return name, err
 }
 
diff --git a/geocoding/geocoding.go b/geocoding/geocoding.go
index 30f3c4e..5444b84 100644
--- a/geocoding/geocoding.go
+++ b/geocoding/geocoding.go
@@ -34,7 +34,7 @@ func GetDescriptionForValidNumber(number *phonenumbers.PhoneNumber, lang string)
 	}
 
 	e164 := phonenumbers.Format(lookupNumber, phonenumbers.E164)
-	areaDescription, _, err := mapper.ValueForNumber(lang, 10, e164)
+	areaDescription, _, err := mapper.ValueForNumber(lang, e164)
 	if err != nil {
 		return "", err
 	}
diff --git a/internal/prefixmapper/prefixmapper.go b/internal/prefixmapper/prefixmapper.go
index 19c8d15..21e68e3 100644
--- a/internal/prefixmapper/prefixmapper.go
+++ b/internal/prefixmapper/prefixmapper.go
@@ -64,18 +64,18 @@ func (m *Mapper) lazyLoadPrefixes(language string) (*serialize.IntStringMap, err
 
 // ValueForNumber returns the value mapped to the longest matching prefix of the
 // given E164 string (as produced by Format with E164, leading + included),
-// along with the matched prefix, trying prefixes from maxLength digits downward.
+// along with the matched prefix, trying prefixes from the longest ones the
+// language has data for downward.
 // It returns "" and 0 if no prefix matches or the language has no data.
-func (m *Mapper) ValueForNumber(language string, maxLength int, e164 string) (string, int, error) {
+func (m *Mapper) ValueForNumber(language string, e164 string) (string, int, error) {
 	prefixes, err := m.lazyLoadPrefixes(language)
 	if err != nil || prefixes == nil {
 		return "", 0, err
 	}
 
-	l := len(e164)
-	if maxLength > l {
-		maxLength = l
-	}
+	// one more than the number of digits, for the plus
+	maxLength := min(prefixes.MaxLength+1, len(e164))
+
 	// e164[0] is the leading '+', which strconv.Atoi reads as a sign, so e.g.
 	// "+86137" parses to 86137 — the prefixes are keyed without the plus.
 	for i := maxLength; i > 1; i-- {
-- 
2.43.0


From 42f7a3cb5aee47dfd2275bd6a39d5b7688c14094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:03 +0000
Subject: [PATCH 10/12] fix: refuse repeated prefixes in the time zone source

The last one silently won; the carrier and geocoding builders already refuse them.
---
 cmd/buildmetadata/main.go | 3 +++
 go.sum                    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 3821f25..397b52d 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -270,6 +270,9 @@ func buildTimezoneMetadata(srcFile, varName, destDir, dstFile string) error {
 		if err != nil {
 			return fmt.Errorf("invalid prefix in line: %s", line)
 		}
+		if _, repeat := prefixMap[prefix]; repeat {
+			return fmt.Errorf("found repeated prefix on line: %s", line)
+		}
 		prefixMap[prefix] = zones
 	}
 
diff --git a/go.sum b/go.sum
index 61f2d45..7c284ed 100644
--- a/go.sum
+++ b/go.sum
@@ -1,5 +1,6 @@
 github.com/davecgh/go-spew v1.1.1 h1:vj9j/u1bqnvCEfJOwUhtlOARqs3+rkHYY13jYWTU97c=
 github.com/davecgh/go-spew v1.1.1/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
+github.com/golang/protobuf v1.5.0/go.mod h1:FsONVRAS9T7sI+LIUmWTfcYkHO4aIWwzhcaSAoJOfIk=
 github.com/google/go-cmp v0.7.0 h1:wk8382ETsv4JYUZwIsn6YpYiWiBsYLSJiTsyBybVuN8=
 github.com/google/go-cmp v0.7.0/go.mod h1:pXiqmnSA92OHEEa9HXL2W4E7lf9JzCmGVUdgjX3N/iU=
 github.com/pmezard/go-difflib v1.0.0 h1:4DBwDE0NGyQoBHbLQYPwSUPoCMWR5BEzIk/f1lZbAQM=
-- 
2.43.0


From 55b30783b5c7e27e6ef13f606c8abcf06598967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:03 +0000
Subject: [PATCH 11/12] fix: remove carrier and geocoding data of languages a
 release no longer has

The files of an earlier release stayed embedded and were still answered from.
---
 cmd/buildmetadata/main.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 397b52d..b199382 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -402,6 +402,20 @@ func buildPrefixMetadata(srcDir, varName, destDir string) error {
 		}
 	}
 
+	// drop the data of languages the release no longer has
+	files, err := filepath.Glob(filepath.Join(destDir, "*.txt.gz"))
+	if err != nil {
+		return err
+	}
+	for _, file := range files {
+		lang := strings.TrimSuffix(filepath.Base(file), ".txt.gz")
+		if _, ok := languageMappings[lang]; !ok {
+			if err := os.Remove(file); err != nil {
+				return err
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 65ec215ce415e896ff9dbb64db9200dc92905c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:46 +0000
Subject: [PATCH 12/12] fix: refuse more map values than the metadata format
 can number

---
 cmd/buildmetadata/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index b199382..b091b7e 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -435,6 +435,12 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 			}
 		}
 	}
+
+	// make sure we won't overrun uint16s
+	if len(values) > math.MaxUint16 {
+		return nil, fmt.Errorf("too many values to represent in uint16")
+	}
+
 	sort.Strings(values)
 	sort.Ints(keys)
 
-- 
2.43.0


From e8474c88caa49e04aa0a164e29ef6460ecc60dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 01/13] fix: keep digits when a group reference in a format is
 followed by a word character

FormatByPattern with a rule such as "$1x$2" dropped the digits of the group,
because Go reads "1x" as the name of a group that does not exist.
---
 phonenumberutil.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 621e61c..3c9b8f0 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -388,6 +388,10 @@ var (
 	fgPattern         = regexp.MustCompile(`\$FG`)
 	ccPattern         = regexp.MustCompile(`\$CC`)
 
+	// groupReferencePattern matches a reference to a capturing group in a
+	// formatting template.
+	groupReferencePattern = regexp.MustCompile(`\$(\d)`)
+
 	// A pattern that is used to determine if the national prefix
 	// formatting rule has the first group only, i.e., does not start
 	// with the national prefix. Note that the pattern explicitly allows
@@ -1624,10 +1628,10 @@ func formatNsnUsingPatternWithCarrier(
 		fgp := numberFormatRule
 		if loc := firstGroupPattern.FindStringSubmatchIndex(numberFormatRule); loc != nil {
 			expanded := firstGroupPattern.ExpandString(
-				nil, carrierCodeFormattingRule, numberFormatRule, loc)
+				nil, delimitGroupReferences(carrierCodeFormattingRule), numberFormatRule, loc)
 			fgp = numberFormatRule[:loc[0]] + string(expanded) + numberFormatRule[loc[1]:]
 		}
-		formattedNationalNumber = m.ReplaceAllString(nationalNumber, fgp)
+		formattedNationalNumber = m.ReplaceAllString(nationalNumber, delimitGroupReferences(fgp))
 	} else {
 		// Use the national prefix formatting rule instead.
 		nationalPrefixFormattingRule :=
@@ -1642,14 +1646,14 @@ func formatNsnUsingPatternWithCarrier(
 			fgp := numberFormatRule
 			if loc := firstGroupPattern.FindStringSubmatchIndex(numberFormatRule); loc != nil {
 				expanded := firstGroupPattern.ExpandString(
-					nil, nationalPrefixFormattingRule, numberFormatRule, loc)
+					nil, delimitGroupReferences(nationalPrefixFormattingRule), numberFormatRule, loc)
 				fgp = numberFormatRule[:loc[0]] + string(expanded) + numberFormatRule[loc[1]:]
 			}
-			formattedNationalNumber = m.ReplaceAllString(nationalNumber, fgp)
+			formattedNationalNumber = m.ReplaceAllString(nationalNumber, delimitGroupReferences(fgp))
 		} else {
 			formattedNationalNumber = m.ReplaceAllString(
 				nationalNumber,
-				numberFormatRule,
+				delimitGroupReferences(numberFormatRule),
 			)
 		}
 	}
@@ -1665,6 +1669,15 @@ func formatNsnUsingPatternWithCarrier(
 	return formattedNationalNumber
 }
 
+// delimitGroupReferences rewrites the "$1" style group references of a
+// formatting template to "${1}". Go reads the longest run of word characters
+// after the dollar as the name of a group, so a reference directly followed by a
+// letter, digit or underscore (e.g. "$1x$2") would otherwise expand to nothing
+// and drop digits, whereas in Java's syntax it is group 1 followed by an "x".
+func delimitGroupReferences(template string) string {
+	return groupReferencePattern.ReplaceAllString(template, "$${${1}}")
+}
+
 // Gets a valid number for the specified region.
 func GetExampleNumber(regionCode string) *PhoneNumber {
 	return GetExampleNumberForTypeInRegion(regionCode, FIXED_LINE)
-- 
2.43.0


From 0ccbe710dab5bf00b2e66188aa4fcdc40d93e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:29 +0000
Subject: [PATCH 02/13] fix: don't let callers change the time zone table

GetTimeZonesForNumber and GetTimeZonesForGeographicalNumber handed out the
slice stored in the shared prefix table, so that sorting or editing a result
changed the answer of every later lookup with the same prefix.
---
 timezone/timezone.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timezone/timezone.go b/timezone/timezone.go
index d9e782c..4e20102 100644
--- a/timezone/timezone.go
+++ b/timezone/timezone.go
@@ -4,6 +4,7 @@ package timezone
 import (
 	_ "embed"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -79,7 +80,8 @@ func lookupTimeZones(number string) ([]string, error) {
 		}
 		tzs, found := timezoneMap.Map[index]
 		if found {
-			return tzs, nil
+			// a copy, so that callers can't change the shared table
+			return slices.Clone(tzs), nil
 		}
 	}
 	return []string{Unknown}, nil
-- 
2.43.0


From ce9e0bf5d8912d5ff034cfd634e8eeb6a674dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 03/13] fix: don't let callers change the supported regions and
 calling codes

GetSupportedRegions, GetSupportedCallingCodes,
GetSupportedGlobalNetworkCallingCodes and GetRegionCodesForCountryCode handed
out the live maps and slices of the metadata container, so that editing a
result changed what the library supports.
---
 phonenumberutil.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 3c9b8f0..30329a5 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -4,8 +4,10 @@ package phonenumbers
 import (
 	"errors"
 	"iter"
+	"maps"
 	"math"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
@@ -706,7 +708,7 @@ func normalizeHelper(number string,
 
 // GetSupportedRegions returns all regions the library has metadata for.
 func GetSupportedRegions() map[string]bool {
-	return metadata.SupportedRegions()
+	return maps.Clone(metadata.SupportedRegions())
 }
 
 // GetSupportedCallingCodes returns all country calling codes the library has metadata for, covering both non-geographical
@@ -714,12 +716,12 @@ func GetSupportedRegions() map[string]bool {
 // used to populate a drop-down box of country calling codes for a phone-number widget, for
 // instance.
 func GetSupportedCallingCodes() map[int]bool {
-	return metadata.SupportedCallingCodes()
+	return maps.Clone(metadata.SupportedCallingCodes())
 }
 
 // GetSupportedGlobalNetworkCallingCodes returns all global network calling codes the library has metadata for.
 func GetSupportedGlobalNetworkCallingCodes() map[int]bool {
-	return metadata.CountryCodesForNonGeographicalRegion()
+	return maps.Clone(metadata.CountryCodesForNonGeographicalRegion())
 }
 
 // allPhoneNumberTypes lists every PhoneNumberType, used to iterate types like
@@ -2039,7 +2041,7 @@ func GetRegionCodeForCountryCode(countryCallingCode int) string {
 // an empty list is returned.
 func GetRegionCodesForCountryCode(countryCallingCode int) []string {
 	var regionCodes []string = metadata.CountryCodeToRegion()[countryCallingCode]
-	return regionCodes
+	return slices.Clone(regionCodes)
 }
 
 // Returns the country calling code for a specific region. For example, this
-- 
2.43.0


From 9300a0ca6b91fb635267105e9f27480de2860ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:53 +0000
Subject: [PATCH 04/13] fix: don't panic naming a country in a language without
 region names

display.Regions returns nil for well-formed languages it has no data for (for
example und, aa or grc), which made every geocoding call that falls back to the
country name panic. Use English names, as for languages that don't parse.
---
 geocoding/geocoding.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geocoding/geocoding.go b/geocoding/geocoding.go
index f986de1..9632db7 100644
--- a/geocoding/geocoding.go
+++ b/geocoding/geocoding.go
@@ -131,5 +131,9 @@ func regionDisplayName(regionCode, lang string) string {
 	if err != nil {
 		langT = language.English // fall back to english only for rendering the country name
 	}
-	return display.Regions(langT).Name(reg)
+	namer := display.Regions(langT)
+	if namer == nil {
+		namer = display.Regions(language.English) // no names in this language
+	}
+	return namer.Name(reg)
 }
-- 
2.43.0


From 81e92afb06a07cea9b2898489b57ac6ad0b38f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:58 +0000
Subject: [PATCH 05/13] fix: only a leading plus sign rules out an emergency
 number

As the comment says (and upstream does with lookingAt), a number is ruled out
when it starts with a plus sign; the unanchored search also ruled out numbers
with a plus sign elsewhere, for example 9+11.
---
 shortnumberinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shortnumberinfo.go b/shortnumberinfo.go
index a751908..69723fd 100644
--- a/shortnumberinfo.go
+++ b/shortnumberinfo.go
@@ -336,7 +336,7 @@ func matchesEmergencyNumber(number string, regionCode string, allowPrefixMatch b
 	// Returns false if the number starts with a plus sign. We don't believe dialing the country
 	// code before emergency numbers (e.g. +1911) works, but later, if that proves to work, we can
 	// add additional logic here to handle it.
-	if plusCharsPattern.MatchString(possibleNumber) {
+	if loc := plusCharsPattern.FindStringIndex(possibleNumber); loc != nil && loc[0] == 0 {
 		return false
 	}
 
-- 
2.43.0


From d95e7807ce702bdd10f48535b5eb7737c29f0692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:47 +0000
Subject: [PATCH 06/13] fix: remember the typed position while non-ASCII digits
 are still shown as typed

The remembered position is found by walking the output for the normalized
input, so digits of other scripts that are still shown as typed (before any
formatting applies) were never recognised and the position ended up behind the
whole text.
---
 asyoutypeformatter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyoutypeformatter.go b/asyoutypeformatter.go
index 1de359a..1d58235 100644
--- a/asyoutypeformatter.go
+++ b/asyoutypeformatter.go
@@ -471,7 +471,13 @@ func (aytf *AsYouTypeFormatter) GetRememberedPosition() int {
 	accruedInputIndex := 0
 	currentOutputIndex := 0
 	for accruedInputIndex < aytf.positionToRemember && currentOutputIndex < len(currentOutputRunes) {
-		if accruedInputRunes[accruedInputIndex] == currentOutputRunes[currentOutputIndex] {
+		outputRune := currentOutputRunes[currentOutputIndex]
+		// The accrued input holds normalized digits, whereas the output can still
+		// have them as they were typed.
+		if digit, ok := character.Digit(outputRune); ok {
+			outputRune = digit
+		}
+		if accruedInputRunes[accruedInputIndex] == outputRune {
 			accruedInputIndex++
 		}
 		currentOutputIndex++
-- 
2.43.0


From 71676b747ed51e7d36f651f26b7bc26df008bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:38 +0000
Subject: [PATCH 07/13] fix: don't keep stale fields when parsing into a reused
 number

---
 phonenumberutil.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 30329a5..fd4f93f 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2653,6 +2653,8 @@ func Parse(numberToParse, defaultRegion string) (*PhoneNumber, error) {
 // Same as Parse(string, string), but accepts mutable PhoneNumber as a
 // parameter to decrease object creation when invoked many times.
 func ParseToNumber(numberToParse, defaultRegion string, phoneNumber *PhoneNumber) error {
+	// a reused number must not keep fields of the number it held before
+	phoneNumber.Reset()
 	return parseHelper(numberToParse, defaultRegion, false, true, phoneNumber)
 }
 
@@ -2673,6 +2675,8 @@ func ParseAndKeepRawInput(
 func ParseAndKeepRawInputToNumber(
 	numberToParse, defaultRegion string,
 	phoneNumber *PhoneNumber) error {
+	// a reused number must not keep fields of the number it held before
+	phoneNumber.Reset()
 	return parseHelper(numberToParse, defaultRegion, true, true, phoneNumber)
 }
 
-- 
2.43.0


From 1fa026d55c944e901f3b6072086e8f7ee1f0e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:58 +0000
Subject: [PATCH 08/13] fix: reject possible lengths that are not numbers

---
 internal/metadatabuilder/metadatabuilder.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/metadatabuilder/metadatabuilder.go b/internal/metadatabuilder/metadatabuilder.go
index 1157df9..e6ee585 100644
--- a/internal/metadatabuilder/metadatabuilder.go
+++ b/internal/metadatabuilder/metadatabuilder.go
@@ -334,8 +334,8 @@ func parsePossibleLengthStringToSet(possibleLengthString string) map[int32]bool
 			if len(minMax) != 2 {
 				panic(fmt.Sprintf("Ranges must have exactly one - character: missing for %s.", possibleLengthString))
 			}
-			min, _ := strconv.Atoi(minMax[0])
-			max, _ := strconv.Atoi(minMax[1])
+			min := parseLength(minMax[0], possibleLengthString)
+			max := parseLength(minMax[1], possibleLengthString)
 
 			// We don't even accept [6-7] since we prefer the shorter 6,7 variant; for a range to be in
 			// use the hyphen needs to replace at least one digit.
@@ -347,13 +347,21 @@ func parsePossibleLengthStringToSet(possibleLengthString string) map[int32]bool
 				lengthSet[int32(j)] = true
 			}
 		} else {
-			length, _ := strconv.Atoi(lengthSubstring)
-			lengthSet[int32(length)] = true
+			lengthSet[int32(parseLength(lengthSubstring, possibleLengthString))] = true
 		}
 	}
 	return lengthSet
 }
 
+// parseLength parses one number of a possible length string.
+func parseLength(length string, possibleLengthString string) int {
+	value, err := strconv.Atoi(length)
+	if err != nil {
+		panic(fmt.Sprintf("Invalid length %q in possible length string %s.", length, possibleLengthString))
+	}
+	return value
+}
+
 /**
  * Reads the possible lengths present in the metadata and splits them into two sets: one for
  * full-length numbers, one for local numbers.
-- 
2.43.0


From b4d9aca05f5a57e1bcf3bf2ecc85120468beaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:29 +0000
Subject: [PATCH 09/13] fix: reject tables with more values than their encoding
 can hold

---
 cmd/buildmetadata/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 65d1ca0..756cf6d 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -421,6 +421,11 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 	sort.Strings(values)
 	sort.Ints(keys)
 
+	// make sure we won't overrun uint16s
+	if len(values) > math.MaxUint16 {
+		return nil, fmt.Errorf("too many values to represent in uint16")
+	}
+
 	internMap := make(map[string]int, len(values))
 	for i, v := range values {
 		internMap[v] = i
@@ -458,6 +463,9 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 		values := prefixMap[key]
 
 		// write our number of values
+		if len(values) > math.MaxUint8 {
+			return nil, fmt.Errorf("too many values for %d to represent in uint8", key)
+		}
 		if err := binary.Write(data, binary.LittleEndian, uint8(len(values))); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8a858828845426e50391c285ae3714e95825a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:29 +0000
Subject: [PATCH 10/13] fix: don't crash on prefixes of more than 12 digits

---
 cmd/buildmetadata/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 756cf6d..048f836 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -371,7 +371,7 @@ func buildPrefixMetadata(srcDir, varName, destDir string) error {
 		// we write our prefix / value pairs as a varint of the difference of the previous prefix
 		// and a uint16 of the value index
 		last := 0
-		intBuf := make([]byte, 6)
+		intBuf := make([]byte, binary.MaxVarintLen64)
 		for _, prefix := range prefixes {
 			value := mappings[prefix]
 			valueIntern := internMappings[value]
@@ -450,7 +450,7 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 	// we write our key / value pairs as a varint of the difference of the previous prefix
 	// and a uint16 of the value index
 	last := 0
-	intBuf := make([]byte, 6)
+	intBuf := make([]byte, binary.MaxVarintLen64)
 	for _, key := range keys {
 		// first write our prefix
 		diff := key - last
-- 
2.43.0


From 9d0314f8866d748f210f6b7b4285508c0135e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:10 +0000
Subject: [PATCH 11/13] fix: bound memory when decoding corrupt tables

---
 internal/serialize/serialize.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/serialize/serialize.go b/internal/serialize/serialize.go
index a9505e9..6592b40 100644
--- a/internal/serialize/serialize.go
+++ b/internal/serialize/serialize.go
@@ -35,6 +35,9 @@ func LoadPrefixMap(data []byte) (*IntStringMap, error) {
 	}
 
 	// then our values
+	if int64(valueSize) > int64(reader.Len()) {
+		return nil, fmt.Errorf("unable to read all values: %v", io.ErrUnexpectedEOF)
+	}
 	valueBytes := make([]byte, valueSize)
 	n, err := reader.Read(valueBytes)
 	if uint32(n) < valueSize {
@@ -51,7 +54,8 @@ func LoadPrefixMap(data []byte) (*IntStringMap, error) {
 	}
 
 	maxLength := 0
-	mappings := make(map[int]string, mappingCount)
+	// (a corrupt count mustn't make us allocate more than the data can hold)
+	mappings := make(map[int]string, min(int64(mappingCount), int64(reader.Len())))
 	prefix := 0
 	for range int(mappingCount) {
 		// first read our diff
@@ -119,6 +123,9 @@ func LoadIntArrayMap(data []byte) (*IntStringArrayMap, error) {
 	}
 
 	// then our values
+	if int64(valueSize) > int64(reader.Len()) {
+		return nil, fmt.Errorf("unable to read all values: %v", io.ErrUnexpectedEOF)
+	}
 	valueBytes := make([]byte, valueSize)
 	n, err := reader.Read(valueBytes)
 	if uint32(n) < valueSize {
@@ -135,7 +142,8 @@ func LoadIntArrayMap(data []byte) (*IntStringArrayMap, error) {
 	}
 
 	maxLength := 0
-	mappings := make(map[int][]string, mappingCount)
+	// (a corrupt count mustn't make us allocate more than the data can hold)
+	mappings := make(map[int][]string, min(int64(mappingCount), int64(reader.Len())))
 	key := 0
 	for range int(mappingCount) {
 		// first read our diff
-- 
2.43.0


From 4341e247d4a6732f514fcb1eaf56de0abd49620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:14 +0000
Subject: [PATCH 12/13] fix: count the digits of 16-digit prefixes exactly

---
 internal/serialize/serialize.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/serialize/serialize.go b/internal/serialize/serialize.go
index 6592b40..bccc699 100644
--- a/internal/serialize/serialize.go
+++ b/internal/serialize/serialize.go
@@ -8,7 +8,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"math"
+	"strconv"
 	"strings"
 )
 
@@ -89,15 +89,11 @@ func LoadPrefixMap(data []byte) (*IntStringMap, error) {
 }
 
 func digitCount(n int) int {
-	if n == 0 {
-		return 1 // Special case for 0
-	}
-
 	if n < 0 {
 		n = -n // Handle negative numbers
 	}
 
-	return int(math.Floor(math.Log10(float64(n)))) + 1
+	return len(strconv.Itoa(n))
 }
 
 // IntStringArrayMap is our map from an int to an array of strings; this is used
-- 
2.43.0


From 4a2b260113969753824b7e9d6757d551f05241d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 13/13] fix: merging a number format into itself never returned

The loop over other's leading-digit patterns appended to the slice it was
bounded by when both formats are the same, and grew without end.
---
 metadata/metadata_util.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metadata/metadata_util.go b/metadata/metadata_util.go
index 40f93e6..ed89ac8 100644
--- a/metadata/metadata_util.go
+++ b/metadata/metadata_util.go
@@ -13,9 +13,7 @@ func (nf *NumberFormat) Merge(other *NumberFormat) {
 	if other.Format != nil {
 		nf.Format = other.Format
 	}
-	for i := 0; i < len(other.LeadingDigitsPattern); i++ {
-		nf.LeadingDigitsPattern = append(nf.LeadingDigitsPattern, other.LeadingDigitsPattern[i])
-	}
+	nf.LeadingDigitsPattern = append(nf.LeadingDigitsPattern, other.LeadingDigitsPattern...)
 	if other.NationalPrefixFormattingRule != nil {
 		nf.NationalPrefixFormattingRule = other.NationalPrefixFormattingRule
 	}
-- 
2.43.0


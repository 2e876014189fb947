#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, A, M, S = "phonenumberutil.go", "asyoutypeformatter.go", "phonenumbermatcher.go", "shortnumberinfo.go"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))
MODEL = "Verdict by an independent reference model (own decoder of the embedded metadata, own re-statement of the rules) compared call by call; trusts that model and the embedded data; "

prop("C01", "Every call on any input returns, without a panic, with a documented error",
 "No input makes a public operation panic, run away in time or memory, or corrupt what it returns: hostile strings (invalid UTF-8, huge, control characters), unknown regions and languages, out-of-range enum values, negative counts and number objects with arbitrary or missing fields are all answered. "
 "Parsing either yields a number or one of the documented errors, and never a number together with no national digits.",
 ["inputs"], "for all strings, region and language codes, enum values and number objects passed to any public operation",
 "The tests feed a few dozen well-formed numbers; totality is a claim over all byte strings and all field combinations.",
 [U, M, A, S, "enums.go", "errors.go", "carrier/carrier.go", "geocoding/geocoding.go", "timezone/timezone.go", "internal/stringbuilder/stringbuilder.go"],
 [("length limits and viability test before any parsing", U+":parseHelper,isViablePhoneNumber"), ("bounded leading zeros", U+":GetNationalSignificantNumber"), ("candidate limits", M+":parseAndVerify,find")],
 "crash/time/allocation monitors around every public operation under a hostile workload",
 "Exploration: hundreds of thousands of hostile calls per run, including every Unicode code point, each under a panic, deadline and result-shape monitor. Finding nothing is evidence, not proof.",
 ["every public operation (41 of them, table in ops.go)"])
prop("C02", "Parsing follows the metadata: same number, same error, for every text and region",
 "Parsing a text with a default region gives exactly the calling code, national number, leading-zero count, extension, raw input, preferred carrier code and calling-code source that the metadata and the documented rules determine (alpha and non-ASCII digits, international and national prefixes, carrier codes, tel: URIs with phone-context and isdn-subaddress, extensions, leading plus variants), or exactly the error they determine. "
 "The default region matters only when the text does not itself say which country is meant, region codes are taken as given, and the number is complete: stored as a protocol buffer, in the encoding phonenumber.proto states, and restored it is the same.",
 ["inputs", "configurations"], "for all texts, default regions and both keep-raw-input modes",
 "The tests parse a few hundred texts of some 20 regions; the rules are data of 245 regions with their own prefixes, transforms and lengths, composed with punctuation, extensions and URI syntax.",
 [U, "errors.go", "internal/stringbuilder/stringbuilder.go", "internal/character/character.go", "internal/regexcache/regexcache.go"],
 [("parse", U+":parseHelper"), ("country code extraction", U+":maybeExtractCountryCode,maybeStripInternationalPrefixAndNormalize"), ("national prefix", U+":maybeStripNationalPrefixAndCarrierCode"), ("extension", U+":maybeStripExtension"), ("tel URI", U+":buildNationalNumberForParsing")],
 "reference-model monitor on every parse", MODEL+"all 245 regions and 9 non-geographic codes are driven with their own prefixes and lengths.",
 ["Parse", "ParseToNumber", "ParseAndKeepRawInput", "ParseAndKeepRawInputToNumber"])
prop("C03", "A number written internationally parses back to the same number",
 "Formatting a number as E.164, international or RFC 3966 text and parsing that text, with any default region or none, gives back the same calling code, national number and leading zeros, and (outside E.164) the same extension, whenever the national number is one the parser would itself produce. "
 "Every default region gives the same result.",
 ["inputs"], "for all numbers obtained by parsing or built from metadata, all three international formats and all default regions",
 "Round-trip tests exist for a handful of numbers; the law quantifies over all numbers, extensions and regions.",
 [U], [("formats", U+":Format,prefixNumberWithCountryCallingCode,maybeAppendFormattedExtension"), ("parse", U+":parseHelper")],
 "round-trip monitor (metamorphic oracle, no model of the format needed)", "Exploration: the law is checked on the library's own outputs for hundreds of thousands of numbers of every calling code.",
 ["Format", "Parse"])
prop("C04", "Formatting renders the number's digits by the metadata and loses none",
 "Each of the four standard formats, formatting by caller-supplied patterns and formatting with a (preferred) carrier code gives exactly the text that the number's metadata prescribes: the pattern chosen, the grouping, national-prefix and carrier rules, the extension prefix and the calling-code prefix. "
 "The digits of the national significant number appear in order and complete, E.164 is a plus and digits only, and numbers of unknown calling codes are rendered as their bare national number.",
 ["inputs", "configurations"], "for all numbers, formats, caller patterns and carrier codes",
 "Tests look at about a hundred formatted numbers; there are several thousand format rules in the data.",
 [U], [("format", U+":formatWithBuf,formatNsnWithCarrier,chooseFormattingPatternForNumber,formatNsnUsingPatternWithCarrier"), ("by pattern", U+":FormatByPattern"), ("carrier", U+":FormatNationalNumberWithCarrierCode")],
 "reference-model monitor plus digit-conservation monitor on every formatted text", MODEL+"digit conservation is checked without the model.",
 ["Format", "FormatByPattern", "FormatNationalNumberWithCarrierCode", "FormatNationalNumberWithPreferredCarrierCode", "GetNationalSignificantNumber"])
prop("C05", "Validity, type and region of a number are what its metadata says",
 "Whether a number is valid (overall, or for a region), which type it has, which region it belongs to, whether it is geographical and whether it can be dialled from abroad are exactly what the patterns and lengths of its calling code's metadata determine, first matching region of a shared calling code included. "
 "A number is valid exactly when it has a type and a region, it is valid for the region reported for it, and a valid number is always possible.",
 ["inputs"], "for all number objects, regions and calling codes",
 "Tests try a few valid and invalid numbers per type for some regions; the claim covers each pattern of each region and the boundaries of its lengths.",
 [U, "internal/regexbasedmatcher/regexbasedmatcher.go", "metadata/metadata_util.go"],
 [("type", U+":getNumberTypeHelper"), ("region", U+":getRegionCodeForNumberFromRegionList"), ("whole-number match", "internal/regexbasedmatcher/regexbasedmatcher.go:match")],
 "reference-model monitor plus consistency laws among the answers", MODEL+"consistency laws need no model.",
 ["IsValidNumber", "IsValidNumberForRegion", "GetNumberType", "GetRegionCodeForNumber", "IsNumberGeographical", "CanBeInternationallyDialled"])
prop("C06", "Possible-length verdicts match the metadata lengths exactly",
 "For any number, and for any of its types, the verdict (possible, possible locally only, invalid calling code, too short, too long, invalid length) is the one that the lengths listed in the metadata determine, fixed-line-or-mobile being the union of both. "
 "The yes/no answers agree with the verdicts, and the answer for a text agrees with parsing that text and judging the number.",
 ["inputs"], "for all calling codes, types, national number lengths and texts",
 "Tests touch a few regions; the verdict is a function of about 20 lengths x 12 types x 254 calling entities.",
 [U], [("length test", U+":testNumberLength,mergeLengths"), ("verdicts", U+":IsPossibleNumberForTypeWithReason,IsPossibleNumberFromRegion")],
 "reference-model monitor over the full code x type x length grid", MODEL+"the grid of calling codes, types and lengths 0-20 is swept completely on every run.",
 ["IsPossibleNumber*", "GetSupportedTypes*"])
prop("C07", "Region and calling-code tables agree with each other and the metadata",
 "The supported regions, supported calling codes, global-network calling codes, region-to-code and code-to-region mappings (main region first), national dialling prefixes, NANPA membership, number-portability flags, mobile tokens and supported types are exactly those of the metadata. "
 "The mappings agree with each other: each region is listed under its own calling code and nowhere else, and unknown regions or codes give the documented neutral answers.",
 ["inputs"], "for all region strings and calling codes",
 "Tests spot-check about ten regions.", [U, "metadata/source.go"],
 [("container build", "metadata/source.go:NewContainer"), ("lookups", U+":GetRegionCodeForCountryCode,GetCountryCodeForRegion,GetNddPrefixForRegion")],
 "table monitor: every region and calling code against the decoded metadata", MODEL+"all two-letter codes and calling codes -5..1999 are enumerated.",
 ["GetSupported*", "GetRegionCode*", "GetCountryCodeForRegion", "GetNddPrefixForRegion", "IsNANPACountry", "GetCountryMobileToken", "IsMobileNumberPortableRegion"])
prop("C08", "Digit and letter normalization is exact over all of Unicode",
 "Normalizing to digits keeps precisely the decimal digits of any script as ASCII digits in order and drops everything else; normalizing to diallable characters keeps digits, plus, star and hash; letters convert by the telephone keypad and everything else is left alone; and the alphanumeric test accepts exactly the texts that are viable numbers (extension aside) with at least three letters.",
 ["inputs"], "for all strings, every Unicode code point included",
 "Tests use ASCII, full-width and Arabic samples; Unicode has over 700 decimal digits.",
 [U, "internal/character/character.go"], [("digit value", "internal/character/character.go:Digit"), ("normalization", U+":normalizeDigits,normalizeHelper,NormalizeDiallableCharsOnly,ConvertAlphaCharactersInNumber")],
 "exhaustive code-point monitor plus string workload against a reference", "Every code point is run through each function; strings are sampled. Trusts Go's unicode tables for the digit ranges, cross-checked with a frozen list of the scripts' zeros.",
 ["NormalizeDigitsOnly", "NormalizeDiallableCharsOnly", "ConvertAlphaCharactersInNumber", "IsAlphaNumber"])
prop("C09", "Finding numbers in text: in order, disjoint, faithful spans, right numbers",
 "Each match found in a text is a substring at its stated byte offsets, matches come in order without overlapping, and the number attached is the one that parsing the matched text with the same region gives and it satisfies the leniency asked for. "
 "A valid number written in an accepted form, set apart from other digits and letters, is found with exactly its span, while dates, timestamps, citations and prices are not reported, and stopping the iteration early or limiting the tries bounds the work done.",
 ["inputs", "histories"], "for all texts, default regions, leniency levels and try limits",
 "Tests scan some 200 short contexts; texts with several numbers, mixed scripts and hostile repetition are unbounded.",
 [M, "phonenumbermatch.go", U], [("find", M+":find,extractMatch,extractInnerMatch,parseAndVerify"), ("iteration", U+":FindNumbersWithLeniency")],
 "trace monitors (span, order, parse, leniency) plus a reference finder over whole match sequences", MODEL+"each match's span, order, parse and validity are also checked without the model of the search.",
 ["FindNumbers", "FindNumbersWithLeniency", "PhoneNumberMatch.*"])
prop("C10", "Leniency levels: each accepts exactly what its rules say, and no panic",
 "Verifying a number against the text it was found in accepts, at the possible level, exactly possible numbers; at the valid level, valid numbers whose national prefix is there when required and whose x characters mean what they should; at strict grouping, those whose digit groups in the text are not split against some known format; at exact grouping, those whose groups equal some known format's groups. "
 "Each stricter level among possible, valid and the grouping levels accepts only what the valid level accepts.",
 ["inputs"], "for all pairs of number and candidate text and all levels",
 "Tests hold about 60 texts per level; groupings vary with several thousand formats and alternate formats.",
 ["enums.go", M, "alternateformats.go"], [("levels", "enums.go:Verify"), ("grouping", M+":checkNumberGroupingIsValid,allNumberGroupsRemainGrouped,allNumberGroupsAreExactlyPresent"), ("prefix rule", M+":isNationalPrefixPresentIfRequired")],
 "reference-model monitor of all four levels on regrouped candidate texts", MODEL+"candidates are made by formatting, regrouping, splitting and joining digit groups.",
 ["Leniency.Verify", "FindNumbersWithLeniency"])
prop("C11", "As-you-type output shows exactly the typed digits, formatted by the metadata",
 "After every keystroke the as-you-type formatter returns exactly what the formatting rules of the metadata prescribe for the text typed so far; in particular the digits and leading plus it shows are those typed (normalized to ASCII), in order, none lost or invented, up to a national prefix the rules themselves rewrite. "
 "The remembered position points just after the remembered character in the current output, and clearing makes the formatter equal to a new one.",
 ["inputs", "histories"], "for all regions and all sequences of keystrokes, remember-position and clear operations",
 "Tests type about 60 fixed sequences; the formatter is a state machine over unbounded histories.",
 [A], [("state machine", A+":inputDigitWithOptionToRememberPosition"), ("templates", A+":maybeCreateNewTemplate,inputDigitHelper"), ("prefix extraction", A+":attemptToExtractIdd,ableToExtractLongerNdd,removeNationalPrefixFromNationalNumber")],
 "online state-machine monitor (reference formatter in lock step) on keystroke traces", MODEL+"digit conservation, remembered position and clear are checked independently of the model.",
 ["GetAsYouTypeFormatter", "InputDigit", "InputDigitAndRememberPosition", "GetRememberedPosition", "Clear"])
prop("C12", "Number matching is symmetric and gives the strength the fields determine",
 "Comparing two numbers, given as number objects or as texts in any mixture, gives the documented strength (exact, national significant number only, short, none, not a number) that their calling codes, national numbers, leading zeros and extensions determine; raw input, source and carrier code never matter. "
 "The comparison is symmetric, a number matches itself exactly, and texts without a calling code borrow the other's region as documented.",
 ["inputs"], "for all pairs of numbers and texts",
 "Tests compare about 60 pairs; the verdict is a function of two full numbers.", [U],
 [("matching", U+":IsNumberMatchWithNumbers,IsNumberMatch,IsNumberMatchWithOneNumber,copyCoreFieldsOnly")],
 "reference-model monitor plus symmetry/reflexivity laws on related pairs", MODEL+"pairs are built by relating one number to another (same, suffix, other code, extension, zeros).",
 ["IsNumberMatch*"])
prop("C13", "Concurrent use is race-free and gives the same answers as sequential use",
 "All public operations may be called from any number of goroutines at once, from the very first call on, without data races, deadlock or crash. "
 "Each concurrent call returns what the same call returns when made alone, lazily loaded data and caches included.",
 ["schedules", "inputs"], "for all interleavings of calls from any number of goroutines, including races for first use",
 "No test runs two goroutines; first-use races happen once per process.",
 ["internal/regexcache/regexcache.go", "internal/prefixmapper/prefixmapper.go", "timezone/timezone.go", "alternateformats.go", S, "metadata/source.go"],
 [("regex cache lock", "internal/regexcache/regexcache.go"), ("lazy prefix maps", "internal/prefixmapper/prefixmapper.go:lazyLoadPrefixes"), ("once", "timezone/timezone.go, alternateformats.go")],
 "race detector over many fresh processes with cold caches, plus result comparison with sequential runs",
 "Go race detector (happens-before, no false alarms) on every operation pair mixed across 20 plans of fresh processes; a race is only seen if both accesses execute in the run, which the plans arrange for each lazily initialised table.",
 ["all operations"])
prop("C14", "Answers depend only on arguments; arguments and shared tables are never altered",
 "A call's answer depends only on its arguments: not on earlier calls, on their order, on caches being warm, or on what the caller does to values it was given earlier. "
 "Operations that only read leave the numbers, patterns and slices passed to them unchanged, parsing into an existing number leaves nothing of its old content, and independent formatters or searches do not influence each other.",
 ["histories", "inputs"], "for all sequences of calls, reuse of number objects, and mutation of returned values between calls",
 "Each test makes isolated calls on fresh values; nothing repeats calls in other orders or keeps using returned values.",
 [U, "metadata/source.go", "timezone/timezone.go", "internal/prefixmapper/prefixmapper.go", "internal/regexcache/regexcache.go", A, "internal/stringbuilder/stringbuilder.go"],
 [("fresh copies", U+":copyCoreFieldsOnly,FormatByPattern,FormatInOriginalFormat"), ("reset before parse", U+":ParseToNumber"), ("copied tables", U+":GetSupportedRegions,GetRegionCodesForCountryCode")],
 "history monitors: repeated, reordered and interleaved calls, argument snapshots, mutation of returned values, process-order comparison",
 "Metamorphic: no model of any answer is needed, only equality between runs.", ["all operations"])
prop("C15", "Carrier names: longest matching prefix, mobile types only, portability hidden",
 "The carrier name of a number in a language is the entry of the longest prefix of the number in that language's table, or empty when there is none; the validity-respecting form answers only for mobile, fixed-line-or-mobile and pager numbers; and the safe form answers only in regions without number portability.",
 ["inputs"], "for all numbers, languages and table entries", "Tests look up a dozen numbers; the tables have tens of thousands of prefixes.",
 ["carrier/carrier.go", "internal/prefixmapper/prefixmapper.go", "internal/serialize/serialize.go"],
 [("longest prefix", "internal/prefixmapper/prefixmapper.go:ValueForNumber"), ("decoder", "internal/serialize/serialize.go:LoadPrefixMap")],
 "reference-model monitor: every table entry looked up through the public operation", MODEL+"every prefix of every language's table is queried on each run.",
 ["carrier.*"])
prop("C16", "Geographic descriptions: longest prefix in the language, else the country name",
 "The description of a number in a language is the entry of its longest prefix in that language's table (a mobile token being skipped), else the country's name in that language; numbers of unknown type get an empty description, non-geographical ones the country's name, and none when several countries share the number. "
 "For a user in another region than a geographical number's only the country's name is given, and no language makes the lookup fail.",
 ["inputs"], "for all numbers, languages and user regions", "Tests look up about 30 numbers; the tables have hundreds of thousands of prefixes in 30 languages.",
 ["geocoding/geocoding.go", "internal/prefixmapper/prefixmapper.go", "internal/serialize/serialize.go"],
 [("lookup", "geocoding/geocoding.go:GetDescriptionForValidNumber"), ("country names", "geocoding/geocoding.go:countryNameForNumber,regionDisplayName")],
 "reference-model monitor over the table entries of every language", MODEL+"country names are taken from the same CLDR package the library uses.",
 ["geocoding.*"])
prop("C17", "Time zones: longest prefix for a number, calling-code zones otherwise",
 "The time zones of a geographical number are those of the longest matching prefix in the time-zone table, those of a valid but non-geographical number are the zones of its calling code, and numbers of no known type or prefix give the single unknown zone. "
 "The list is non-empty, in table order, and independent of earlier lookups.",
 ["inputs", "histories"], "for all numbers and table entries", "Tests look up about a dozen numbers of a table of over two thousand prefixes.",
 ["timezone/timezone.go", "internal/serialize/serialize.go"],
 [("lookup", "timezone/timezone.go:lookupTimeZones,countryLevelTimeZonesForNumber"), ("decoder", "internal/serialize/serialize.go:LoadIntArrayMap")],
 "reference-model monitor: every table entry looked up through the public operation", MODEL+"every prefix is queried eight times with different completions.",
 ["timezone.*"])
prop("C18", "Short numbers: validity, cost, emergency and service flags per region",
 "Whether a short number is possible, valid, carrier-specific, an SMS service or (exactly or by prefix) an emergency number in a region, and what it costs there, is exactly what the short-number metadata of that region says; the region-free answers combine the regions sharing the calling code as documented, the cost being the highest in the order premium, unknown, standard, toll-free. "
 "Emergency numbers without another listed cost are toll-free, and a text starting with a plus is never an emergency number.",
 ["inputs"], "for all numbers, texts and regions", "Tests cover about 40 numbers in 10 regions of 240.",
 [S], [("validity", S+":IsValidShortNumberForRegion"), ("cost", S+":GetExpectedCostForRegion,GetExpectedCost"), ("emergency", S+":matchesEmergencyNumber")],
 "reference-model monitor plus exhaustive two- and three-digit codes of every region", MODEL+"all 2- and 3-digit codes of every region are enumerated each run.",
 ["IsPossibleShortNumber*", "IsValidShortNumber*", "GetExpectedCost*", "IsEmergencyNumber", "ConnectsToEmergencyNumber", "IsCarrierSpecific*", "IsSmsServiceForRegion"])
prop("C19", "Dialling formats: from abroad, from a mobile, as originally written",
 "Formatting a number for calling from a given region, for dialling from a mobile there, keeping its letters, or in the form it was originally written gives exactly the text that the metadata of the number and of the calling region prescribe (international prefix, preferred prefix, national prefix, same-calling-code rules, carrier rules). "
 "Original-form output has the same diallable characters as the raw input whenever raw input is kept, and mobile dialling output, when not asked for formatting, is diallable characters only.",
 ["inputs", "configurations"], "for all numbers, calling regions and formatting switches", "Tests try about 120 number and region pairs; the output is a function of two regions' metadata (245 x 245).",
 [U], [("out of country", U+":FormatOutOfCountryCallingNumber,FormatOutOfCountryKeepingAlphaChars"), ("mobile", U+":FormatNumberForMobileDialing"), ("original", U+":FormatInOriginalFormat")],
 "reference-model monitor plus diallable-digit conservation", MODEL+"conservation is checked without the model.",
 ["FormatOutOfCountryCallingNumber", "FormatOutOfCountryKeepingAlphaChars", "FormatNumberForMobileDialing", "FormatInOriginalFormat"])
prop("C20", "Swapped-in metadata is used everywhere and restored exactly",
 "After installing another complete metadata set, every operation answers according to that set alone, and after restoring, also when installations are nested, every operation answers exactly as before; the built-in set loads to the same answers and an empty set is refused with the documented error.",
 ["configurations", "histories"], "for all metadata sets of the form the build step produces and all sequences of install and restore", "Tests install one fixed test set and never restore and compare.",
 ["metadata/source.go", U], [("container", "metadata/source.go:NewContainer,Use,Load")],
 "model-based monitors of C02-C12 re-run under generated metadata sets; fingerprints before and after", "The reference model is instantiated with the same generated metadata; also guards the other checks against being tuned to the current data.",
 ["metadata.NewContainer", "metadata.Use", "metadata.Load", "all operations"])
prop("C22", "Truncation, example numbers and area-code lengths obey their contracts",
 "Truncating a too-long number gives the longest valid number obtained by dropping trailing digits and leaves the number alone when there is none; example numbers for a region, type or calling code are the metadata's, valid and of the asked type, and invalid examples are invalid. "
 "The lengths of the area code and of the national destination code are those that the number's international format and mobile token determine, and never exceed the national significant number.",
 ["inputs"], "for all numbers, regions, types and calling codes", "Tests truncate about eight numbers and measure about twenty area codes.",
 [U], [("truncate", U+":TruncateTooLongNumber"), ("examples", U+":GetExampleNumberForTypeInRegion,GetInvalidExampleNumber,GetExampleNumberForNonGeoEntity"), ("lengths", U+":GetLengthOfGeographicalAreaCode,GetLengthOfNationalDestinationCode")],
 "reference-model monitor plus contract laws; every region, type and calling code enumerated for examples", MODEL+"laws (valid, of the type, longest) are checked without the model.",
 ["TruncateTooLongNumber", "GetExampleNumber*", "GetLengthOf*"])
exec(open(os.path.join(ROOT, "tools/docs_extra.py")).read()) if os.path.exists(os.path.join(ROOT, "tools/docs_extra.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
            observe_at=p["observe"], hook_needed=None))) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=[dict(property=p["id"], quick_cmd="./run.sh "+p["id"],
        thorough_cmd="VERIF_TIER=thorough ./run.sh "+p["id"], evidence_file="evidence/%s.json" % p["id"], technique="runtime monitoring: "+p["technique"],
        level="exploration", level_note=p["note"]) for p in P], not_applicable=[],
        notes="No hooks are needed in /repo: every property is observable at the public API. The twelve fix: commits in /repo are listed in known_findings.txt."), f, indent=1)
    f.write("\n")

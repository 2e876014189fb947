prop("C21", "The metadata build compiles the upstream sources faithfully or refuses them",
 "Building from an upstream release produces data files that decode to exactly what its sources state: territories with their attributes, formats, inherited rules and derived lengths, short-number and alternate-format metadata, the calling-code table with the main region first, time-zone, carrier and geographic prefix tables, and the version constant naming that release (the latest one when none is given). "
 "Building the same release again gives identical files, and no language of an earlier release stays behind. "
 "Sources that are malformed, contradictory or incomplete, a release that cannot be fetched or a file that cannot be written make the build fail with a non-zero status, and a failed build never changes the recorded version.",
 ["inputs", "configurations", "fault_sequences"], "for all upstream source trees and releases, and for each kind of damage to them",
 "One test compiles a single territory; nothing runs the build command, its prefix-table writers or its failures.",
 ["cmd/buildmetadata/main.go", "internal/metadatabuilder/metadatabuilder.go"],
 [("xml compiler", "internal/metadatabuilder/metadatabuilder.go:loadCountryMetadata,setPossibleLengths,loadAvailableFormats"), ("table writers", "cmd/buildmetadata/main.go:renderMap,buildPrefixMetadata,readMappingsForDir"), ("release choice", "cmd/buildmetadata/main.go:latestUpstreamRelease,cloneUpstreamRepo,writeVersionFile")],
 "reference-compiler monitor on the outputs of the real command over generated and written-back source trees, with fault injection into the sources",
 "The real command is run in scratch directories against local git repositories; expected outputs come from an independent compiler in the model, outputs are read with the model's decoders. One tree is the repository's own data written back as sources (254 territories, all prefix tables).",
 ["cmd/buildmetadata"])
prop("C23", "The phoneparser command reports the number's formats and validity truthfully",
 "Given a text and a region the command prints the E.164 form, the national form, the national number and the validity of the number the text denotes there and succeeds; for a text that is no number it prints the reason and fails. "
 "With any other number of arguments it prints its usage and fails, and it never crashes.",
 ["inputs"], "for all argument lists", "No test runs the command.",
 ["cmd/phoneparser/main.go"], [("report", "cmd/phoneparser/main.go:main")],
 "reference-model monitor on the output and exit status of the real command", MODEL+"each case is one process.",
 ["cmd/phoneparser"])
prop("C24", "No call leaves memory or goroutines behind",
 "Once the tables and patterns they need are loaded, calls keep nothing: the memory in use does not grow with the number of distinct texts, numbers, regions, languages or codes the library was asked about, so a long-running service that passes its users' input through is safe. "
 "A search abandoned before its end leaves no goroutine behind. "
 "The one thing kept by design is the compiled pattern of each format a program itself passes to FormatByPattern.",
 ["histories", "inputs"], "for all call histories of any length", "No test makes more than a few calls or measures what they leave behind.",
 ["internal/prefixmapper/prefixmapper.go", "internal/regexcache/regexcache.go", "phonenumbermatcher.go"],
 [("lazily loaded tables", "internal/prefixmapper/prefixmapper.go:lazyLoadPrefixes"), ("compiled patterns", "internal/regexcache/regexcache.go:For"), ("search iteration", "phonenumbermatcher.go:FindNumbersWithLeniency")],
 "reachable-heap and goroutine monitor between batches of distinct calls", "Each public operation is called thousands of times with arguments that never repeat; the heap after a full collection is compared between batches, growth is confirmed by further batches so that bounded caches pass.",
 [])
prop("C25", "Answers follow whatever release's data the library is built with",
 "Built with the data files of another release — territories, calling codes, short numbers, alternate formats, carriers, places and time zones that come, go or change, languages added or removed, prefixes shorter or longer than today's — the library starts and every answer follows those files. "
 "Nothing of today's data is assumed in code, apart from the country rules the library states itself (mobile tokens, countries whose mobile numbers are geographical, countries where emergency numbers are not extended).",
 ["configurations", "inputs"], "for all data files a metadata build can produce, and all calls", "The tests run on the data of the tree; a data release is only ever tested after it was made.",
 ["internal/prefixmapper/prefixmapper.go", "internal/serialize/serialize.go", "metadata/source.go", "alternateformats.go", "shortnumberinfo.go", "timezone/timezone.go"],
 [("table decoding", "internal/serialize/serialize.go:LoadPrefixMap,LoadIntArrayMap"), ("prefix lookup", "internal/prefixmapper/prefixmapper.go:ValueForNumber"), ("short numbers", "shortnumberinfo.go:matchesPossibleNumberAndNationalNumber"), ("alternate formats", "phonenumbermatcher.go:checkNumberGroupingIsValid")],
 "reference-model monitor in programs built with generated data files", MODEL+"each release is a complete generated set of data files, put in place of the embedded ones by a build overlay; the model reads the same files.",
 [])

#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable as text).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
U="phonenumberutil.go"
p("C01","E.164 output is exactly plus, calling code and national significant number",
 "Formatting any number value in E.164 style yields exactly '+', the country calling code in decimal, and the national significant number, with no extension, spacing or carrier data. The national significant number is the recorded leading zeros (when flagged; at most 17 of them) followed by the national number in decimal. The only exception is a number whose national number is zero and which carries raw input: there the raw input is returned verbatim.",
 ["inputs"],"every number value: any calling code, any 64-bit national number, any leading-zero flag and count, any extension, raw input and carrier fields",
 "the tests format a few dozen fixed numbers; the field combinations (leading-zero counts, zero national numbers, 20-digit values) are unbounded",
 [U,"internal/stringbuilder/stringbuilder.go"],[("E.164 branch of number formatting","Format / formatWithBuf"),("national significant number rendering","GetNationalSignificantNumber"),("calling-code prefixing","prefixNumberWithCountryCallingCode"),("byte buffer","internal/stringbuilder")])
p("C02","International, national and RFC3966 styles frame the number the same way",
 "For a number with a known calling code, international style is '+', calling code, a space and the body; RFC3966 style is 'tel:+', calling code, '-' and the body; national style is the body alone. The body is the region's formatting of the national significant number followed, when there is an extension, by ';ext=' (RFC3966), the region's own extension prefix, or ' ext. ' and the extension digits; this holds for built-in and caller-supplied formats and for carrier-code formatting. With an unknown calling code the bare national significant number is returned.",
 ["inputs","configurations"],"every number value, every style value, every metadata set and every caller-supplied list of formats",
 "tests sample some region/style/extension combinations; the framing must hold for every combination, including rare regions with their own extension prefix",
 [U],[("style dispatch and framing","formatWithBuf, FormatByPattern, FormatNationalNumberWithCarrierCode, prefixNumberWithCountryCallingCode"),("extension suffix","maybeAppendFormattedExtension")])
p("C03","Out-of-country formatting dials correctly from the calling region",
 "Formatting for a caller in a supported region yields: the national format when both share a calling code, '1 ' plus the national format inside the North American plan, and otherwise the caller region's preferred (else its single fixed) international prefix, the calling code, the internationally formatted body and any extension, or '+' form when the caller region has no single prefix. A caller region that is not supported gets the plain international format, and an unknown calling code gives the bare national significant number.",
 ["inputs","configurations"],"every number value, every calling-from region string, every metadata set",
 "tests cover about ten region pairs out of tens of thousands, and few with preferred prefixes, tone markers or unknown regions",
 [U],[("out-of-country formatting","FormatOutOfCountryCallingNumber"),("single-prefix test","uniqueInternationalPrefix")])
p("C04","A successful parse keeps every digit, including leading zeros",
 "Whenever parsing succeeds, the national significant number of the result has 2 to 17 characters, all ASCII digits, and reproduces digit for digit, leading zeros included, the number that was left after removing calling code, national prefix and extension. Unless the region rewrites prefixes, that digit string is a tail of the input's own digits (keypad letters mapped to digits), so no digit is lost, added or reordered.",
 ["inputs","configurations"],"every input text up to 250 bytes, every default region, both parse variants, every metadata set whose rewriting rules produce digits",
 "tests parse a few hundred fixed strings; the space of texts and leading-zero patterns is unbounded",
 [U],[("leading-zero capture","setItalianLeadingZerosForPhoneNumber"),("digit conversion","parseHelper"),("prefix removal","maybeExtractCountryCode, maybeStripNationalPrefixAndCarrierCode"),("rendering back","GetNationalSignificantNumber")])
p("C05","Parsing ends in one of the documented errors or a complete number",
 "Empty text is rejected as not a number and text longer than 250 bytes as too long; every rejection is one of the five documented errors. A successful parse with region checking always yields a non-zero calling code known to the metadata, and records raw text, calling-code source and carrier code exactly when the caller asked to keep the raw input; without a supported default region it succeeds only for text in international form.",
 ["inputs","configurations"],"every text, every default region (supported, unsupported, empty), both parse variants",
 "tests check selected error cases; the claim is about all texts and all regions",
 [U,"errors.go"],[("parse driver","parseHelper"),("region check","checkRegionForParsing"),("viability grammar","isViablePhoneNumber / validPhoneNumberPattern")])
p("C06","No input makes the library panic or index out of range",
 "With well-formed metadata, no text, region code, option, rune sequence or non-nil number value makes the parsing, formatting, matching, short-number, prefix-lookup or as-you-type functions slice or index out of bounds, dereference nil or divide by zero.",
 ["inputs","configurations"],"every input to every function under contract",
 "tests only show the sampled inputs do not panic; slicing arithmetic fails on rare lengths and match positions",
 [U,"phonenumbermatcher.go","asyoutypeformatter.go","shortnumberinfo.go","internal/stringbuilder/stringbuilder.go","internal/prefixmapper/prefixmapper.go"],[("index arithmetic on match positions","all functions under contract")])
p("C07","Read-only operations never modify their arguments or shared metadata",
 "Formatting, classifying, validating, comparing and searching never modify the number passed in, the caller's format list, the loaded metadata or any other shared table; parsing writes only the target number, truncation writes only the national number of its argument, and an as-you-type formatter writes only its own state.",
 ["inputs","histories"],"every call with every argument; every sequence of calls on one formatter",
 "tests compare results, not the absence of writes; a stray in-place edit of shared metadata only shows in a later unrelated call",
 [U,"asyoutypeformatter.go","shortnumberinfo.go","phonenumbermatcher.go"],[("copies before editing","FormatByPattern, FormatNumberForMobileDialing, TruncateTooLongNumber, copyCoreFieldsOnly"),("in-place deletion from format lists","AsYouTypeFormatter possibleFormats")])
p("C08","Possible-length verdicts follow the region's length table exactly",
 "For every digit string and number type the verdict is: invalid length when the type has no lengths at all; possible locally when the length is in the local-only set; possible when it is in the possible set; too short or too long when it lies below or above the whole possible set; invalid length otherwise. For the combined fixed-line-or-mobile type the sets are the unions of the two types' sets (a type with no lengths of its own inherits the general ones), and an unknown calling code is always reported as such.",
 ["inputs","configurations"],"every number, every type value and every metadata table with ascending length lists",
 "tests check a handful of lengths in a handful of regions; the verdict must agree with the table for all lengths, types and tables",
 [U],[("length test","testNumberLength"),("list merge","mergeLengths"),("entry points","IsPossibleNumberWithReason, IsPossibleNumberForTypeWithReason")])
p("C09","Number type, validity and region agree with each other and the metadata",
 "A number's type is unknown unless it fully matches its region's general description, and otherwise the first matching type in the fixed order premium, toll-free, shared-cost, VoIP, personal, pager, UAN, voicemail, fixed/mobile (fixed-line-or-mobile when both apply). A number is valid exactly when its type in its own region is not unknown, and valid for a given region only if that region's calling code (or the non-geographic entity) is the number's own. The region reported is always one that shares the calling code, or none.",
 ["inputs","configurations"],"every number value, every region, every metadata set",
 "tests classify sample numbers of a few regions; precedence and consistency must hold for all numbers and all metadata",
 [U],[("type order","getNumberTypeHelper, getNumberDescByType"),("validity","IsValidNumber, IsValidNumberForRegion"),("region choice","GetRegionCodeForNumber, getRegionCodeForNumberFromRegionList"),("full-length match","isNumberMatchingDesc, isNumberPossibleForDesc")])
p("C10","Number comparison is symmetric and follows the match ladder",
 "Comparing two number values gives the same verdict in either order. It is exact when calling codes are both present and calling code, national number, leading zeros and extension all agree; national match when only a missing calling code differs; short match when calling codes agree or one is missing and one national number is a digit suffix of the other; otherwise no match, and always no match when both have different extensions. A number always matches itself, exactly when it has a calling code.",
 ["inputs"],"every pair of number values",
 "tests compare fixed pairs in mostly one order",
 [U],[("comparison","IsNumberMatchWithNumbers, copyCoreFieldsOnly, isNationalNumberSuffixOfTheOther")])
p("C11","Region and calling-code tables stay mutually consistent",
 "For any metadata installed, a region is supported exactly when some calling code's region list (other than a lone non-geographic entry) names it and it is not the non-geographic code; a calling code is supported exactly when it has an entry; North American membership is exactly membership in calling code 1's list. The main region of a calling code is the first of its list or 'ZZ' when it has none, a supported region's calling code is its own metadata's, and an unsupported region's is 0.",
 ["inputs","configurations"],"every metadata collection and calling-code table, every region string and calling code",
 "tests check a few codes against the shipped tables only",
 ["metadata/source.go",U],[("table construction","metadata.NewContainer"),("lookups","GetRegionCodeForCountryCode, GetCountryCodeForRegion, isValidRegionCode, getMetadataForRegion")])
p("C12","Calling-code extraction splits off a known prefix and keeps the rest",
 "Given a digit string, calling-code extraction returns the shortest known calling code of one to three digits that prefixes it, and the remaining digits are appended unchanged to the output; if the string is empty, starts with zero, or no such prefix is known, the result is zero and the output is left untouched.",
 ["inputs","configurations"],"every digit string and every calling-code table",
 "tests use a few strings; the prefix search must be right for all strings and tables",
 [U],[("prefix search","extractCountryCode"),("use in parsing and as-you-type","maybeExtractCountryCode, attemptToExtractCountryCallingCode")])
p("C13","Normalisation maps each character independently and yields only digits",
 "Digit normalisation of a text is the concatenation, character by character, of the ASCII value of each Unicode decimal digit and nothing for any other character. Keypad conversion replaces each character whose upper-case form is an ASCII letter by that letter's keypad digit and either keeps the other characters or keeps of them only the ASCII digits; the diallable form keeps exactly ASCII digits, '+', '*' and '#'. Hence each result is a fixed point of the same normalisation.",
 ["inputs"],"every text, including invalid UTF-8 and every script's digits",
 "tests use a few scripts and strings",
 [U,"internal/character/character.go"],[("digit folding","normalizeDigits, character.Digit"),("table folding","normalizeHelper, alphaPhoneMappings, diallableCharMappings")])
p("C14","Found numbers are genuine, ordered, non-overlapping spans of the text",
 "Every match reported when searching text covers a non-empty byte range inside the text whose content equals the match's raw string, matches come in increasing order without overlap, each carries a number that parsed from that substring and satisfied the requested leniency, and the search ends after at most the allowed number of failed tries.",
 ["inputs","histories"],"every text, default region, leniency and try limit; every prefix of the iteration",
 "tests search sample sentences; offsets go wrong only for rare nestings, multi-byte text and exhausted limits",
 ["phonenumbermatcher.go","phonenumbermatch.go",U,"enums.go"],[("search loop","find, hasNext, next"),("candidate slicing","extractMatch, extractInnerMatch, trimAfterFirstMatch, parseAndVerify")])
p("C15","A cleared as-you-type formatter equals a new one; formatted input is echoed",
 "After clearing, an as-you-type formatter is in the same observable state as a newly created one for its region, whatever was typed before. Once a character that is neither a digit nor a leading plus is typed, the output is the raw input so far verbatim until cleared, the formatter always accrues exactly the characters typed, and the remembered position always lies within the current output (or the raw input).",
 ["inputs","histories"],"every sequence of typed characters, position requests and clears, every region",
 "tests type a few dozen fixed numbers; the state space of keystroke histories is unbounded",
 ["asyoutypeformatter.go"],[("reset","AsYouTypeFormatter.Clear / newAsYouTypeFormatter"),("keystroke handling","inputDigitWithOptionToRememberPosition"),("cursor","GetRememberedPosition")])
p("C16","Prefix lookups return the longest known prefix of the number",
 "Carrier, area-description and time-zone lookups return the value of the longest prefix of the number present in the table (up to the lookup's length limit), never that of a shorter one when a longer is present, and the documented empty or unknown value when none is. Carrier names are given only for mobile, fixed-or-mobile and pager numbers (and not in number-portable regions for the safe variant), and a time-zone answer is never empty when the table has no empty entries.",
 ["inputs","configurations"],"every number, language and prefix table",
 "tests look up a few numbers in the shipped tables",
 ["internal/prefixmapper/prefixmapper.go","timezone/timezone.go","carrier/carrier.go","geocoding/geocoding.go"],[("longest-prefix loop","Mapper.ValueForNumber, lookupTimeZones"),("type gates","GetNameForNumber, GetSafeDisplayName, GetTimeZonesForNumber, GetDescriptionForNumber")])
p("C17","Prefix-table decoding is exact and rejects truncated data",
 "Decoding a packed prefix table yields exactly the mapping it encodes: the running sums of the stored differences as keys, each mapped to the interned strings its indices name, with the maximum length equal to the number of digits of the longest key. Data that ends early or names a missing string is reported as an error rather than yielding a partial table.",
 ["inputs"],"every byte stream",
 "tests decode the shipped files and a few hand-made ones",
 ["internal/serialize/serialize.go"],[("decoders","LoadPrefixMap, LoadIntArrayMap"),("digit count","digitCount")])
p("C18","Short-number answers are consistent and costs follow precedence",
 "A valid short number for a region is always also a possible one there, and both require the number's calling code to belong to the region. The expected cost is premium, else standard rate, else toll-free (emergency numbers included), in that precedence, unknown if none applies; across several regions premium dominates unknown, which dominates standard, which dominates toll-free. Every emergency number also connects to emergency, and a text with a plus sign between its first dialable character and the end of its number part never does.",
 ["inputs","configurations"],"every number or dialled text, every region, every short-number metadata set",
 "tests sample a few regions and numbers",
 ["shortnumberinfo.go"],[("validity","IsPossibleShortNumberForRegion, IsValidShortNumberForRegion, matchesPossibleNumberAndNationalNumber"),("cost","GetExpectedCostForRegion, GetExpectedCost"),("emergency","matchesEmergencyNumber")])
p("C19","Original-format output never changes what the user dialled",
 "When a number carries the raw text it was parsed from and its calling-code source, formatting it in its original form yields either that raw text or a string with exactly the same diallable characters in the same order; with raw text but no formatting pattern for the number, it yields the raw text itself.",
 ["inputs","configurations"],"every number value with raw input, every calling-from region, every metadata set",
 "tests try sample numbers; the guarantee is for all raw texts",
 [U],[("final comparison with raw input","FormatInOriginalFormat")])
p("C20","Truncation yields a valid number by dropping trailing digits only",
 "Truncating an over-long number succeeds only by leaving a valid number whose national number is the original with some (possibly zero) trailing decimal digits dropped and all other fields unchanged, using the fewest dropped digits; otherwise it fails and leaves the number completely unchanged. It always terminates.",
 ["inputs","configurations"],"every number value, every metadata set",
 "tests truncate a few numbers",
 [U],[("truncation loop","TruncateTooLongNumber")])
p("C21","Compiled-pattern and prefix-table caches are coherent and lock-protected",
 "The shared pattern cache always returns the compiled form of exactly the pattern asked for, whatever was cached before, and the per-language table cache returns the table loaded for exactly that language. Every access to either cache happens while its lock is held (exclusively for writes), and every lock taken is released on every path.",
 ["inputs","histories","schedules"],"every history of lookups; every interleaving, given that the lock itself provides mutual exclusion",
 "tests run mostly sequentially and never revisit a poisoned entry",
 ["internal/regexcache/regexcache.go","internal/prefixmapper/prefixmapper.go"],[("cache invariant and lock discipline","regexcache.For/read/write, Mapper.lazyLoadPrefixes")])
p("C22","RFC3966 phone-context is validated and assembled exactly",
 "When text carries a phone-context parameter, its value is exactly the text between the parameter and the next ';' (or the end), and parsing rejects it as not a number unless it is a global number ('+' then digits and visual separators, at least one digit) or a domain name. Otherwise the number analysed is the context (only when it starts with '+') followed by exactly the text between 'tel:' (or the start) and the parameter, up to any ISDN sub-address.",
 ["inputs"],"every text",
 "tests use about twenty sample URIs",
 [U],[("context extraction","extractPhoneContext, isPhoneContextValid, buildNationalNumberForParsing"),("context grammar","rfc3966GlobalNumberDigitsPattern, rfc3966DomainnamePattern")])
p("C23","Concurrent read-only use is free of data races",
 "Any number of goroutines may parse, format, validate and search at the same time with results equal to sequential use and no data race, as long as nobody swaps the metadata.",
 ["schedules"],"every interleaving of read-only calls",
 "tests are sequential apart from a few parallel sub-tests",
 [U,"internal/regexcache/regexcache.go","alternateformats.go","timezone/timezone.go"],[("lazy initialisation","sync.Once in alternateformats.go and timezone.go"),("caches","regexcache, prefixmapper")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json
I = "src/phonenumberutil/phonenumberutil_internal.rs"
PU = "src/phonenumberutil/phonenumberutil.rs"
H = "src/phonenumberutil/helper_functions.rs"
R = "src/phonenumberutil/phone_number_regexps_and_mappings.rs"
M = "src/generated/metadata/metadata.rs"
X = "resources/PhoneNumberMetadata.xml"
CA = "src/regexp_cache.rs"
MA = "src/regex_based_matcher.rs"


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


P = [
 p("C01", "A formatted number parses back to the same number",
   "Formatting a valid number as E.164, International or RFC3966 and parsing the text (with any default region, supported or not) yields the same country calling code, national number, leading zeros and, except in E.164, extension (of up to 9 digits, which every label accepts); the National format read with the number's own region does so too wherever the plan's formats are readable that way, in particular for every number whose national format only adds the national prefix. Formatting the parsed number again in the same format gives the same text.",
   ["inputs", "histories"], "every valid number of every region, type, length and formatting pattern, with and without extension and leading zeros; every format; every default region",
   "The tests format and parse a few dozen literal numbers separately; the round trip has to hold for each of the ~250 plans, ~1000 formatting patterns and all their numbers.",
   [I, H, M], [("format", I), ("parse_helper", I), ("prefix_number_with_country_calling_code", H), ("get_italian_leading_zeros_for_phone_number", I)], ["format then parse"]),
 p("C02", "Parsing finds the calling code and national number the plan prescribes",
   "For every text and default region, parsing returns exactly the calling code and national significant number (with its leading zeros) that the text denotes under the numbering plans: a leading plus or the region's international prefix introduces a calling code, a calling code without plus is recognized only when the rest then fits the region's plan or the whole is too long, and the region's national prefix, carrier code and prefix transformation are applied only when that leaves a possible number. Otherwise it returns the error of the right category: not a number, invalid country code, too short after the international prefix, too short (under 2 digits) or too long (over 17 digits).",
   ["inputs"], "every text and every default region (supported or not), under the bundled metadata and under bounded synthetic plans",
   "About 190 parse calls in the tests sample some 20 regions of the small test metadata; prefixes, transforms and tie-breaking differ per plan and interact.",
   [I, H, R, M], [("parse_helper", I), ("maybe_extract_country_code", I), ("maybe_strip_international_prefix_and_normalize", I), ("maybe_strip_national_prefix_and_carrier_code", I), ("extract_country_code", I)], ["parse"]),
 p("C03", "No call panics or fails to return",
   "Every public operation returns normally for every text, region string, calling code and phone number object, including malformed, empty, very long and non-ASCII text, unsupported regions, unknown or negative calling codes, zero or 64-bit-maximal national numbers and inconsistent optional fields.",
   ["inputs"], "all inputs of all public operations (number_of_leading_zeros up to a few hundred: the text it asks for has to fit in memory)",
   "Tests call the operations with well-formed arguments; slicing at byte offsets and unwrapping in error paths fail only on rare combinations.",
   [I, PU, H, "src/string_util.rs"], [("string slicing", I), ("expect on internal errors", PU)], ["every public operation, under catch_unwind and a time limit"]),
 p("C04", "Validity is exactly membership in the numbering plan",
   "A number is valid for a region iff the region's calling code (or the non-geographic entity's) is the number's and its whole national significant number matches the region's general pattern and at least one number-type pattern, each with an allowed length. It is valid iff it is valid for the region it is attributed to, and every valid number is also possible and has a known type.",
   ["inputs", "configurations"], "every number of every calling code and every region argument, against every pattern of the bundled plans",
   "Tests check about 30 literal numbers on test metadata; patterns with alternatives of different lengths and shared calling codes are not sampled.",
   [I, MA, "src/regex_util.rs", M], [("is_valid_number_for_region", I), ("get_number_type_helper", I), ("is_number_matching_desc", I), ("match_number", MA)], ["is_valid_number", "is_valid_number_for_region"]),
 p("C05", "Number types follow the plan with a fixed precedence",
   "The type of a number is the first of premium rate, toll free, shared cost, VoIP, personal, pager, UAN and voicemail whose pattern and lengths in its region it fully matches, and otherwise fixed-line, mobile, or fixed-line-or-mobile when both match or the region does not distinguish them, and unknown exactly when none matches or the general description does not. International diallability is denied exactly to numbers of regions whose plan lists them as not internationally diallable.",
   ["inputs"], "every number of every region, including numbers that match several type patterns",
   "Tests sample one or two numbers for each type in a few regions; the precedence matters only where patterns overlap.",
   [I, M], [("get_number_type_helper", I), ("get_number_type", I), ("can_be_internationally_dialled", I)], ["get_number_type", "can_be_internationally_dialled"]),
 p("C06", "Numbers and calling codes resolve to the right regions",
   "The region of a number is that of its calling code when only one region uses it, and otherwise the first region in the code's list, main region first, whose leading digits the number starts with or in which it has a known type; it is unknown (ZZ) if there is none, and 001 for non-geographic codes. The lookup tables agree with each other and with the metadata: the regions of a code are exactly the regions having that code with the main one first, every supported region has its code, and NANPA regions are exactly those with code 1.",
   ["inputs", "configurations"], "every calling code (also unknown and negative), every region string, every number of the shared calling codes",
   "Tests look at a handful of regions and numbers; shared codes (1, 7, 39, 44, 47, 61, 212, 262, 290, 358, 590, 599) need all regions and boundary prefixes.",
   [I, M], [("get_region_code_for_number", I), ("get_region_code_for_number_from_region_list", I), ("new_for_metadata", I)], ["get_region_code_for_number", "get_region_code_for_country_code", "get_region_codes_for_country_code", "get_country_code_for_region", "get_supported_regions", "is_nanpa_country"],
   [("country_calling_code_to_region_code_map", "calling code to regions, main region first", I), ("nanpa_regions", "regions with code 1", I)]),
 p("C07", "Length verdicts are exactly those of the possible-length lists",
   "Whether a number is possible, and the reason if not, depends only on its calling code and the length of its national significant number: local-only lengths are possible locally, listed lengths are possible, and otherwise the verdict is too short below the shortest listed length, too long above the longest, invalid length in between or when the type has no numbers, and invalid country code for unknown codes. For a number type, an empty list stands for the general one, and fixed-line-or-mobile stands for the union of both lists.",
   ["inputs", "configurations"], "every calling code with every length from 1 to 20, every number type, and all small configurations of length lists",
   "Tests check selected lengths for three or four regions; the verdict is a function of list configurations (gaps, local-only, missing types) that they do not enumerate.",
   [I, H], [("test_number_length", H), ("is_possible_number_for_type_with_reason", I)], ["is_possible_number", "is_possible_number_with_reason"], None, "type-specific verdicts are crate-private: vp_hooks::Internal"),
 p("C08", "Formats show the plan's pattern and never lose or alter digits",
   "E.164 is exactly plus, calling code and national significant number; International, National and RFC3966 apply the first formatting pattern of the number's plan whose leading digits and whole pattern match (the international list when there is one and the format is not National), with the national prefix rule only in National, hyphen separators and tel: in RFC3966, and the extension appended with the plan's or format's label. The digits of every output are the calling code where shown, the national prefix where the rule adds it, and all digits the pattern keeps, in order; numbers without a matching pattern or known code are left unformatted.",
   ["inputs"], "every number (valid or not) of every plan, every formatting pattern, all four formats, with extensions and leading zeros",
   "Tests format about 70 literal numbers of the test metadata; each of the ~1000 patterns has its own leading digits, rule and international variant.",
   [I, H, M], [("format", I), ("choose_formatting_pattern_for_number", I), ("format_nsn_using_pattern_with_carrier", I), ("get_formatted_extension", I), ("prefix_number_with_country_calling_code", H)], ["format", "get_national_significant_number"]),
 p("C09", "Number matching is a symmetric, graded comparison",
   "Comparing two numbers is symmetric and reflexive and ignores raw input, source and carrier fields: with both calling codes known it is exact iff code, national number, leading zeros and extension agree, a short match iff the codes agree and one national number is a suffix of the other, and no match otherwise; with a code missing, equality of the rest is an NSN match and the suffix relation a short match. Two present but different extensions never match, and an empty extension is the same as none.",
   ["inputs"], "all pairs of numbers",
   "Tests never call the comparison; symmetry and reflexivity quantify over pairs.",
   [I, H], [("is_number_match", I), ("copy_core_fields_only", H), ("is_national_number_suffix_of_the_other", H)], ["is_number_match"], None, "string variants are crate-private: vp_hooks::Internal"),
 p("C10", "Out-of-country and mobile dialling strings can be dialled",
   "Formatting for calling from a region gives the national format inside the number's own numbering area (with the calling code in front within NANPA), and otherwise the region's single or preferred international prefix, calling code and internationally formatted number, or the plus form when the region has no such prefix. For mobile dialling the result is the national or international form prescribed for the two regions, is empty exactly when the number cannot be dialled from there, drops the extension, and without formatting contains only digits and + * #.",
   ["inputs"], "every number and every calling region, supported or not",
   "Tests use about 15 and 36 literal cases; the outcome depends on the pair of regions, number type and diallability.",
   [I, M], [("format_out_of_country_calling_number", I), ("format_number_for_mobile_dialing", I), ("format_out_of_country_keeping_alpha_chars", I)], ["format_out_of_country_calling_number", "format_number_for_mobile_dialing"]),
 p("C11", "The original format never changes what was dialled",
   "For a number parsed with its raw input kept, formatting in the original format yields a text with the same diallable characters as the raw input, or the raw input itself; the kind of prefix the user typed (plus, international prefix, bare calling code, national prefix or none) is what the output shows, and numbers without a formatting pattern come out as they were typed. Without raw input or a recorded source the national format is returned.",
   ["inputs", "histories"], "every text that parses, in every region, formatted for any calling region; and hand-built numbers with arbitrary optional fields",
   "Tests cover about 27 literal cases; the guarantee compares output and input for every text.",
   [I], [("format_in_original_format", I), ("raw_input_contains_national_prefix", I), ("has_formatting_pattern_for_number", I), ("format_by_pattern", I)], ["parse_and_keep_raw_input then format_in_original_format"]),
 p("C12", "Truncation yields the longest valid prefix or changes nothing",
   "Truncating a valid number succeeds and leaves it unchanged. Truncating an invalid number succeeds iff dropping digits from the end of its national number reaches a valid number before it becomes too short, and then it holds the longest such prefix; otherwise it fails and leaves the number unchanged. All other fields are never touched.",
   ["inputs", "histories"], "every number of every region, also with appended digits, leading zeros and other fields set, and repeated truncation",
   "Tests truncate three literal numbers; longest-prefix and leave-unchanged are statements about all numbers.",
   [I], [("truncate_too_long_number", I)], ["truncate_too_long_number"]),
 p("C13", "Extensions are recognized in every supported notation, and only there",
   "Parsing a number followed by an extension in any supported notation (;ext=, the ext/extension/anexo/доб family, x # ~ int, commas, semicolon, and -123#, in ASCII or full width, any letter case, with the permitted separators) stores exactly those digits as the extension and parses the number as if it stood alone. The number of digits accepted is capped by notation (20, 15, 9 or 6), and longer or ambiguous runs, or what precedes not being a viable number, never yield an extension.",
   ["inputs"], "every number, notation, separator and extension of 1 to 22 digits",
   "Tests list about 40 literal texts; notations, separators, caps and what precedes combine freely.",
   [H, I, R], [("create_extn_pattern", H), ("maybe_strip_extension", I)], ["parse", "format with an extension then parse"]),
 p("C14", "Equivalent spellings of a number are treated alike",
   "Decimal digits of any script, full-width plus signs and punctuation, letters as on a telephone keypad (when at least three are present, in either case, among ASCII digits), and leading or trailing text that cannot belong to a number do not change what parsing returns (the digits of an extension are kept as typed). Converting letters replaces exactly the ASCII letters by their keypad digits and keeps everything else, and a text counts as alphabetic iff it is a viable number with at least three letters before any extension.",
   ["inputs"], "every text, every Unicode decimal digit and every code point in the punctuation and letter classes",
   "Tests try full-width and Arabic-Indic digits in two or three numbers; the classes have hundreds of members.",
   [I, R, H], [("normalize", I), ("normalize_helper", H), ("extract_possible_number", I), ("is_viable_phone_number", I), ("alpha_phone_mappings", R)], ["parse", "convert_alpha_characters_in_number", "is_alpha_number"]),
 p("C15", "Results depend only on the arguments, not on history, threads or instance",
   "Every operation returns the same result for the same arguments whatever calls were made before, on whichever instance over the same metadata, and however many threads use one instance at the same time; concurrent first uses of the same patterns neither block forever nor produce a wrong or missing pattern. (Where any of several answers will do, such as an example number of a type in no particular region or the order of a list of regions, only the set of possible answers is fixed.)",
   ["schedules", "histories"], "every interleaving of concurrent calls on a shared instance (pattern caches empty, warm or partly filled) and every order of calls",
   "The tests are sequential and build one instance per test; nothing runs two calls at the same time or compares a warm with a cold instance.",
   [CA, MA, I, "src/phonenumberutil/mod.rs"], [("RegexCache::get_regex", CA), ("get_full_match_regex", CA), ("PHONE_NUMBER_UTIL", "src/phonenumberutil/mod.rs")], ["every public operation, from several threads"],
   [("cache", "pattern text to compiled pattern, grows only", CA)]),
 p("C16", "tel: URIs and phone-context are read as RFC 3966 prescribes",
   "A tel: prefix, the visual separators, ;ext= and ;isub= are understood, the subaddress and unknown trailing parameters never become part of the number, and the RFC3966 output of any number is a well-formed tel: URI that reads back. A ;phone-context= must be a global number prefix (plus and digits with visual separators) or a domain name, or the text is rejected as not a number; a global one is put in front of the local number in place of the default region's code, a domain is ignored, and what follows the context's end is ignored.",
   ["inputs"], "every URI built from these parts in any order and every context value, valid or not",
   "Tests contain about 20 literal URIs, mostly for New Zealand; the parts interact by position.",
   [I, R], [("build_national_number_for_parsing", I), ("extract_phone_context", I), ("is_phone_context_valid", I)], ["parse", "format RFC3966"]),
 p("C17", "Keeping the raw input adds information and changes nothing else",
   "Parsing while keeping the raw input succeeds or fails exactly as plain parsing, with the same number and extension, stores the input verbatim, and records how the calling code was found: with plus sign, with international prefix, without plus sign, or from the default region. A carrier code is recorded exactly when the plan's national prefix pattern captured one from the input and stripping it was accepted; plain parsing never sets raw input, source or carrier.",
   ["inputs"], "every text and every default region",
   "Tests compare some 30 literal results; the agreement of the two parsers is over all texts.",
   [I], [("parse_helper", I), ("maybe_extract_country_code", I), ("maybe_strip_national_prefix_and_carrier_code", I)], ["parse", "parse_and_keep_raw_input"]),
 p("C18", "Area-code and destination-code lengths split the number",
   "The national destination code length is the length of the second digit group of the international format (plus the mobile token in Argentina), and 0 when there are not at least three groups. The geographical area code length equals it for geographical numbers of regions with national prefixes, Italian leading zeros or area codes without prefix, and is 0 for all others; a number is geographical iff it is fixed-line, fixed-line-or-mobile, or mobile in a country with geographical mobile numbers. Neither depends on the extension.",
   ["inputs"], "every number of every region and type, with and without extension",
   "Tests check 13 and 14 literal numbers.",
   [I, R], [("get_length_of_geographical_area_code", I), ("get_length_of_national_destination_code", I), ("is_number_geographical", I)], ["get_length_of_geographical_area_code", "get_length_of_national_destination_code", "is_number_geographical"]),
 p("C19", "Carrier codes and letters survive formatting where asked for",
   "Formatting nationally with a carrier code puts that code where the plan's carrier rule says, and is the plain national format when the plan has no carrier rule for the number or the code is empty. Out-of-country formatting that keeps letters shows the number's raw input in upper case with its own grouping, stripped of the typed country prefix, after the same prefix that out-of-country formatting would choose, with the extension appended once; without raw input it equals out-of-country formatting.",
   ["inputs"], "every number, carrier code (digits or letters), raw input and calling region",
   "Tests contain four calls for each of the two operations.",
   [I, R], [("format_national_number_with_carrier_code", I), ("format_out_of_country_keeping_alpha_chars", I), ("all_plus_number_grouping_symbols", R)], ["format_national_number_with_carrier_code", "format_out_of_country_keeping_alpha_chars"]),
 p("C20", "The bundled plans are the published ones and their examples hold",
   "The metadata compiled into the library describes exactly the regions, codes, patterns, lengths, formats and prefixes of the XML it is generated from. The example number of a region is its plan's example and is valid, an example for a type has that type in some region, an invalid example parses for its region but is not valid, and unsupported regions give an error.",
   ["configurations", "inputs"], "every region and non-geographic code, every number type, every field of the metadata",
   "Tests use a separate small test metadata; the bundled one is used by no test.",
   [M, X, H, I], [("load_compiled_metadata", H), ("get_example_number_for_type", I), ("get_invalid_example_number", I)], ["get_example_number", "get_example_number_for_type", "get_invalid_example_number", "get_supported_regions"]),
]
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

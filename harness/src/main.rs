//! vpdrive: executes calls of the rlibphonenumber API read from an ndjson file
//! and writes one event per call (operation, arguments, result), also ndjson.
//!
//!   vpdrive run   WORLD CALLS EVENTS       one thread, one instance
//!   vpdrive mt    WORLD CALLS EVENTS T R   T threads over one shared instance, R calls of each
//!   vpdrive fresh WORLD CALLS EVENTS T     a new instance for every call (T at a time)
//!   vpdrive race  WORLD CALLS EVENTS T G   a new instance for every G calls, each of T threads
//!                                          makes all of the G calls, from a different one on
//!   vpdrive sched WORLD SCHEDULES EVENTS T the schedules of calls to the cache of patterns that
//!                                          spec/Cache.tla generates, T at a time
//!   vpdrive has-hooks                      exit status 0 if built with --cfg vp_hooks
//!
//! WORLD is `bundled` or the path of a JSON metadata file (see gen/export.py).
//! Text travels as arrays of code points, national numbers as digit strings, so
//! that the TLA+ side needs no string or 64-bit support.

#![allow(unexpected_cfgs)]

use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
#[cfg(vp_hooks)]
use std::sync::LazyLock;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[cfg(vp_hooks)]
use protobuf::MessageField;
#[cfg(vp_hooks)]
use rlibphonenumber::phonemetadata::{NumberFormat, PhoneMetadata, PhoneMetadataCollection, PhoneNumberDesc};
#[cfg(vp_hooks)]
use rlibphonenumber::vp_hooks::Internal;
use rlibphonenumber::{
    CountryCodeSource, GetExampleNumberError, MatchType, NumberLengthType, ParseError, PhoneNumber,
    PhoneNumberFormat, PhoneNumberType, PhoneNumberUtil, ValidationError,
};
use serde_json::{json, Map, Value};

struct World {
    api: PhoneNumberUtil,
    #[cfg(vp_hooks)]
    int: LazyLock<Internal, Box<dyn FnOnce() -> Internal + Send>>,
}

// ------------------------------------------------------------ values <-> JSON

fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

fn text(v: &Value) -> String {
    v.as_array()
        .expect("code points")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("scalar value"))
        .collect()
}

/// The text `s` of a call, with a piece repeated `k` times before or behind it if the
/// call is about very long texts.
fn whole(e: &Value) -> String {
    let s = text(&e["s"]);
    match e["pad"].as_array() {
        Some(p) => {
            let long = p[0].as_str().unwrap().repeat(p[1].as_u64().unwrap() as usize);
            if p[2] == true { long + &s } else { s + &long }
        }
        None => s,
    }
}

/// the number of a call; its raw input is the long text of the call, if that has one
fn number(e: &Value) -> PhoneNumber {
    let mut n = num_in(&e["n"]);
    if e["pad"].is_array() {
        n.set_raw_input(whole(e));
    }
    n
}

fn src_name(s: CountryCodeSource) -> &'static str {
    match s {
        CountryCodeSource::UNSPECIFIED => "UNSPECIFIED",
        CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN => "PLUS",
        CountryCodeSource::FROM_NUMBER_WITH_IDD => "IDD",
        CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => "NOPLUS",
        CountryCodeSource::FROM_DEFAULT_COUNTRY => "DEFAULT",
    }
}

fn num_out(n: &PhoneNumber) -> Value {
    json!({
        "cc": n.country_code(),
        "nn": cps(&n.national_number().to_string()),
        "hext": n.has_extension(), "ext": cps(n.extension()),
        "ilz": n.italian_leading_zero(), "nlz": n.number_of_leading_zeros(),
        "hraw": n.has_raw_input(), "raw": cps(n.raw_input()),
        "src": if n.has_country_code_source() { src_name(n.country_code_source()) } else { "NONE" },
        "hpdcc": n.has_preferred_domestic_carrier_code(), "pdcc": cps(n.preferred_domestic_carrier_code()),
    })
}

fn num_in(v: &Value) -> PhoneNumber {
    let mut n = PhoneNumber::new();
    let b = |k: &str| v[k].as_bool().unwrap();
    if v["cc"].as_i64().unwrap() != 0 {
        n.set_country_code(v["cc"].as_i64().unwrap() as i32);
    }
    n.set_national_number(text(&v["nn"]).parse().expect("u64"));
    if b("hext") {
        n.set_extension(text(&v["ext"]));
    }
    if b("ilz") {
        n.set_italian_leading_zero(true);
    }
    if v["nlz"].as_i64().unwrap() != 1 {
        n.set_number_of_leading_zeros(v["nlz"].as_i64().unwrap() as i32);
    }
    if b("hraw") {
        n.set_raw_input(text(&v["raw"]));
    }
    match v["src"].as_str().unwrap() {
        "UNSPECIFIED" => n.set_country_code_source(CountryCodeSource::UNSPECIFIED),
        "PLUS" => n.set_country_code_source(CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN),
        "IDD" => n.set_country_code_source(CountryCodeSource::FROM_NUMBER_WITH_IDD),
        "NOPLUS" => n.set_country_code_source(CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN),
        "DEFAULT" => n.set_country_code_source(CountryCodeSource::FROM_DEFAULT_COUNTRY),
        _ => {}
    }
    if b("hpdcc") {
        n.set_preferred_domestic_carrier_code(text(&v["pdcc"]));
    }
    n
}

fn fmt_in(v: &Value) -> PhoneNumberFormat {
    match v.as_str().unwrap() {
        "E164" => PhoneNumberFormat::E164,
        "INTL" => PhoneNumberFormat::International,
        "NATL" => PhoneNumberFormat::National,
        _ => PhoneNumberFormat::RFC3966,
    }
}

const TYPES: [(&str, PhoneNumberType); 12] = [
    ("FixedLine", PhoneNumberType::FixedLine),
    ("Mobile", PhoneNumberType::Mobile),
    ("FixedLineOrMobile", PhoneNumberType::FixedLineOrMobile),
    ("TollFree", PhoneNumberType::TollFree),
    ("PremiumRate", PhoneNumberType::PremiumRate),
    ("SharedCost", PhoneNumberType::SharedCost),
    ("VoIP", PhoneNumberType::VoIP),
    ("PersonalNumber", PhoneNumberType::PersonalNumber),
    ("Pager", PhoneNumberType::Pager),
    ("UAN", PhoneNumberType::UAN),
    ("VoiceMail", PhoneNumberType::VoiceMail),
    ("Unknown", PhoneNumberType::Unknown),
];

fn type_in(v: &Value) -> PhoneNumberType {
    TYPES.iter().find(|(n, _)| *n == v.as_str().unwrap()).expect("type").1
}

fn type_name(t: PhoneNumberType) -> &'static str {
    TYPES.iter().find(|(_, x)| *x == t).unwrap().0
}

fn parse_err(e: &ParseError) -> &'static str {
    match e {
        ParseError::InvalidCountryCode => "InvalidCountryCode",
        ParseError::NotANumber(_) => "NotANumber",
        ParseError::TooShortAfterIdd => "TooShortAfterIdd",
        ParseError::TooShortNsn => "TooShortNsn",
        ParseError::TooLongNsn => "TooLongNsn",
    }
}

fn r(k: &str, v: Value) -> Value {
    json!({"k": k, "v": v})
}

fn r_parse(x: Result<PhoneNumber, ParseError>) -> Value {
    match x {
        Ok(n) => r("num", num_out(&n)),
        Err(e) => r("err", json!(parse_err(&e))),
    }
}

fn r_example(x: Result<PhoneNumber, GetExampleNumberError>) -> Value {
    match x {
        Ok(n) => r("num", num_out(&n)),
        Err(_) => r("err", json!("NoExample")),
    }
}

fn r_len(x: Result<NumberLengthType, ValidationError>) -> Value {
    r("enum", json!(match x {
        Ok(NumberLengthType::IsPossible) => "IsPossible",
        Ok(NumberLengthType::IsPossibleLocalOnly) => "IsPossibleLocalOnly",
        Err(ValidationError::InvalidCountryCode) => "InvalidCountryCode",
        Err(ValidationError::TooShort) => "TooShort",
        Err(ValidationError::InvalidLength) => "InvalidLength",
        Err(ValidationError::TooLong) => "TooLong",
    }))
}

fn match_name(m: MatchType) -> &'static str {
    match m {
        MatchType::NoMatch => "NoMatch",
        MatchType::ShortNsnMatch => "ShortNsnMatch",
        MatchType::NsnMatch => "NsnMatch",
        MatchType::ExactMatch => "ExactMatch",
    }
}

fn r_match(x: Result<MatchType, ParseError>) -> Value {
    match x {
        Ok(m) => r("enum", json!(match_name(m))),
        Err(e) => r("err", json!(parse_err(&e))),
    }
}

fn r_str(s: &str) -> Value {
    r("str", cps(s))
}
fn r_bool(b: bool) -> Value {
    r("bool", json!(b))
}
fn sorted(mut v: Vec<String>) -> Value {
    v.sort();
    json!(v)
}

// ------------------------------------------------------------ one call

fn call(w: &World, e: &Value) -> Value {
    let api = &w.api;
    let n = || number(e);
    let s = || whole(e);
    let reg = || e["r"].as_str().unwrap().to_owned();
    match e["op"].as_str().unwrap() {
        "parse" => r_parse(api.parse(s(), reg())),
        "parsekeep" => r_parse(api.parse_and_keep_raw_input(s(), reg())),
        "format" => r_str(&api.format(&n(), fmt_in(&e["f"]))),
        "original" => r_str(&api.format_in_original_format(&n(), reg())),
        "carrier" => r_str(&api.format_national_number_with_carrier_code(&n(), text(&e["c"]))),
        "mobile" => r_str(&api.format_number_for_mobile_dialing(&n(), reg(), e["b"].as_bool().unwrap())),
        "ooc" => r_str(&api.format_out_of_country_calling_number(&n(), reg())),
        "keepalpha" => r_str(&api.format_out_of_country_keeping_alpha_chars(&n(), reg())),
        "nsn" => r_str(&api.get_national_significant_number(&n())),
        "type" => r("enum", json!(type_name(api.get_number_type(&n())))),
        "region" => r("enum", json!(api.get_region_code_for_number(&n()))),
        "valid" => r_bool(api.is_valid_number(&n())),
        "validfor" => r_bool(api.is_valid_number_for_region(&n(), reg())),
        "possible" => r_bool(api.is_possible_number(&n())),
        "reason" => r_len(api.is_possible_number_with_reason(&n())),
        "intl" => r_bool(api.can_be_internationally_dialled(&n())),
        "geo" => r_bool(api.is_number_geographical(&n())),
        "arealen" => r("int", json!(api.get_length_of_geographical_area_code(&n()))),
        "ndclen" => r("int", json!(api.get_length_of_national_destination_code(&n()))),
        "match" => r("enum", json!(match_name(api.is_number_match(&n(), &num_in(&e["m"]))))),
        "truncate" => {
            let mut x = n();
            let ok = api.truncate_too_long_number(&mut x);
            r("trunc", json!({"ok": ok, "n": num_out(&x)}))
        }
        "alpha" => r_bool(api.is_alpha_number(s())),
        "convert" => r_str(&api.convert_alpha_characters_in_number(s())),
        "example" => r_example(api.get_example_number(reg())),
        "exampletype" => r_example(api.get_example_number_for_type(type_in(&e["t"]))),
        "invexample" => r_example(api.get_invalid_example_number(reg())),
        "ccregion" => r("enum", json!(api.get_region_code_for_country_code(e["i"].as_i64().unwrap() as i32))),
        "ccregions" => match api.get_region_codes_for_country_code(e["i"].as_i64().unwrap() as i32) {
            None => r("none", json!(0)),
            Some(it) => r("list", json!(it.collect::<Vec<_>>())),
        },
        "regioncc" => match api.get_country_code_for_region(reg()) {
            None => r("none", json!(0)),
            Some(c) => r("int", json!(c)),
        },
        "regions" => r("list", sorted(api.get_supported_regions().map(str::to_owned).collect())),
        "nanpa" => r_bool(api.is_nanpa_country(reg())),
        // short histories: every step's result is recorded
        "chain" => chain(w, e),
        "keep2" => r("pair", json!([r_parse(api.parse(s(), reg())), r_parse(api.parse_and_keep_raw_input(s(), reg()))])),
        "ext" => {
            let mut t = s();
            let base = api.parse(&t, reg());
            t.push_str(&text(&e["x"]));
            r("pair", json!([r_parse(base), r_parse(api.parse(&t, reg()))]))
        }
        "same" => r("pair", e["ss"].as_array().unwrap().iter().map(|t| r_parse(api.parse(text(t), reg()))).collect()),
        "matchboth" => {
            let (a, b) = (n(), num_in(&e["m"]));
            r("pair", json!([match_name(api.is_number_match(&a, &b)), match_name(api.is_number_match(&b, &a)),
                             match_name(api.is_number_match(&a, &a))]))
        }
        "origchain" | "alphachain" => match api.parse_and_keep_raw_input(s(), reg()) {
            Err(x) => r("err", json!(parse_err(&x))),
            Ok(n) => {
                let r2 = e["r2"].as_str().unwrap();
                let out = match e["op"].as_str().unwrap() {
                    "origchain" => api.format_in_original_format(&n, r2).into_owned(),
                    _ => api.format_out_of_country_keeping_alpha_chars(&n, r2).into_owned(),
                };
                r("pair", json!([r("num", num_out(&n)), r_str(&out)]))
            }
        },
        _ => hooked(w, e),
    }
}

#[cfg(not(vp_hooks))]
fn hooked(_: &World, e: &Value) -> Value {
    panic!("unknown operation {}", e["op"])
}

/// operations behind the verification hook
#[cfg(vp_hooks)]
fn hooked(w: &World, e: &Value) -> Value {
    let n = || number(e);
    let s = || whole(e);
    let reg = || e["r"].as_str().unwrap().to_owned();
    match e["op"].as_str().unwrap() {
        "reasontype" => r_len(w.int.is_possible_number_for_type_with_reason(&n(), type_in(&e["t"]))),
        "possiblestr" => r_bool(w.int.is_possible_number_for_string(&s(), &reg())),
        "match2" => r_match(w.int.is_number_match_with_two_strings(&s(), &text(&e["s2"]))),
        "match1" => r_match(w.int.is_number_match_with_one_string(&n(), &s())),
        "bypattern" => {
            let fs: Vec<NumberFormat> = e["fs"].as_array().unwrap().iter().map(nf_in).collect();
            r_str(&w.int.format_by_pattern(&n(), fmt_in(&e["f"]), &fs))
        }
        "prefcarrier" => r_str(&w.int.format_national_number_with_preferred_carrier_code(&n(), &text(&e["c"]))),
        "types" => match w.int.get_supported_types_for_region(&reg()) {
            None => r("none", json!(0)),
            Some(t) => r("list", sorted(t.into_iter().map(|t| type_name(t).to_owned()).collect())),
        },
        "typesng" => match w.int.get_supported_types_for_non_geo_entity(e["i"].as_i64().unwrap() as i32) {
            None => r("none", json!(0)),
            Some(t) => r("list", sorted(t.into_iter().map(|t| type_name(t).to_owned()).collect())),
        },
        "codes" => {
            let mut v = w.int.get_supported_calling_codes();
            v.sort();
            r("list", json!(v))
        }
        "codesng" => {
            let mut v = w.int.get_supported_global_network_calling_codes();
            v.sort();
            r("list", json!(v))
        }
        "ndd" => match w.int.get_ndd_prefix_for_region(&reg(), e["b"].as_bool().unwrap()) {
            None => r("none", json!(0)),
            Some(p) => r_str(&p),
        },
        "exampleregtype" => match w.int.get_example_number_for_type_and_region_code(&reg(), type_in(&e["t"])) {
            None => r("err", json!("NoExample")),
            Some(n) => r("num", num_out(&n)),
        },
        "exampleng" => match w.int.get_example_number_for_non_geo_entity(e["i"].as_i64().unwrap() as i32) {
            None => r("err", json!("NoExample")),
            Some(n) => r("num", num_out(&n)),
        },
        "plan" => match w.int.get_metadata(e["i"].as_i64().unwrap() as i32, &reg()) {
            None => r("none", json!(0)),
            Some(m) => r("plan", md_out(&m)),
        },
        op => panic!("unknown operation {op}"),
    }
}

/// parse s in region r, then format the result in format f, then parse that
/// text again in region r2 (the round trip, as one history of three calls).
fn chain(w: &World, e: &Value) -> Value {
    let start = if e["from"] == json!("s") {
        match w.api.parse(text(&e["s"]), e["r"].as_str().unwrap()) {
            Ok(n) => n,
            Err(x) => return r("chainerr", json!(parse_err(&x))),
        }
    } else {
        num_in(&e["n"])
    };
    let out = w.api.format(&start, fmt_in(&e["f"])).into_owned();
    let back = r_parse(w.api.parse(&out, e["r2"].as_str().unwrap()));
    let again = match w.api.parse(&out, e["r2"].as_str().unwrap()) {
        Ok(n) => r_str(&w.api.format(&n, fmt_in(&e["f"]))),
        Err(x) => r("err", json!(parse_err(&x))),
    };
    r("chain", json!({
        "n": num_out(&start), "valid": w.api.is_valid_number(&start), "out": cps(&out), "back": back, "again": again,
    }))
}

// ------------------------------------------------------------ metadata worlds

#[cfg(vp_hooks)]
fn nf_in(v: &Value) -> NumberFormat {
    let mut f = NumberFormat::new();
    f.set_pattern(v["pattern"].as_str().unwrap().to_owned());
    f.set_format(v["format"].as_str().unwrap().to_owned());
    for l in v["leading"].as_array().unwrap() {
        f.leading_digits_pattern.push(l.as_str().unwrap().to_owned());
    }
    let rule = v["nprule"].as_str().unwrap();
    if !rule.is_empty() {
        f.set_national_prefix_formatting_rule(rule.to_owned());
    }
    let rule = v["ccrule"].as_str().unwrap();
    if !rule.is_empty() {
        f.set_domestic_carrier_code_formatting_rule(rule.to_owned());
    }
    f
}

#[cfg(vp_hooks)]
fn desc_in(v: &Value) -> MessageField<PhoneNumberDesc> {
    let mut d = PhoneNumberDesc::new();
    let p = v["pattern"].as_str().unwrap();
    if !p.is_empty() {
        d.set_national_number_pattern(p.to_owned());
    }
    let x = v["example"].as_str().unwrap();
    if !x.is_empty() {
        d.set_example_number(x.to_owned());
    }
    for l in v["lengths"].as_array().unwrap() {
        d.possible_length.push(l.as_i64().unwrap() as i32);
    }
    for l in v["local"].as_array().unwrap() {
        d.possible_length_local_only.push(l.as_i64().unwrap() as i32);
    }
    MessageField::some(d)
}

#[cfg(vp_hooks)]
fn md_in(v: &Value) -> PhoneMetadata {
    let mut m = PhoneMetadata::new();
    let s = |k: &str| Some(v[k].as_str().unwrap().to_owned()).filter(|x| !x.is_empty());
    m.set_id(v["id"].as_str().unwrap().to_owned());
    m.set_country_code(v["cc"].as_i64().unwrap() as i32);
    m.leading_digits = s("leading");
    m.international_prefix = s("idd");
    m.preferred_international_prefix = s("prefidd");
    m.national_prefix = s("np");
    m.national_prefix_for_parsing = s("npparse");
    m.national_prefix_transform_rule = s("nptransform");
    m.preferred_extn_prefix = s("extn");
    if v["main"].as_bool().unwrap() {
        m.set_main_country_for_code(true);
    }
    if v["same"].as_bool().unwrap() {
        m.set_same_mobile_and_fixed_line_pattern(true);
    }
    m.general_desc = desc_in(&v["general"]);
    m.fixed_line = desc_in(&v["fixedLine"]);
    m.mobile = desc_in(&v["mobile"]);
    m.toll_free = desc_in(&v["tollFree"]);
    m.premium_rate = desc_in(&v["premiumRate"]);
    m.shared_cost = desc_in(&v["sharedCost"]);
    m.voip = desc_in(&v["voip"]);
    m.personal_number = desc_in(&v["personalNumber"]);
    m.pager = desc_in(&v["pager"]);
    m.uan = desc_in(&v["uan"]);
    m.voicemail = desc_in(&v["voicemail"]);
    m.no_international_dialling = desc_in(&v["noInternationalDialling"]);
    m.number_format = v["nf"].as_array().unwrap().iter().map(nf_in).collect();
    m.intl_number_format = v["intl"].as_array().unwrap().iter().map(nf_in).collect();
    m
}

/// The same record a world file has for a plan.
#[cfg(vp_hooks)]
fn md_out(m: &PhoneMetadata) -> Value {
    let nf = |f: &NumberFormat| {
        json!({"pattern": f.pattern(), "format": f.format(), "leading": f.leading_digits_pattern,
               "nprule": f.national_prefix_formatting_rule(), "ccrule": f.domestic_carrier_code_formatting_rule()})
    };
    let d = |d: &MessageField<PhoneNumberDesc>| {
        json!({"pattern": d.national_number_pattern(), "example": d.example_number(),
               "lengths": d.possible_length, "local": d.possible_length_local_only})
    };
    json!({
        "id": m.id(), "cc": m.country_code(), "leading": m.leading_digits(), "idd": m.international_prefix(),
        "prefidd": m.preferred_international_prefix(), "np": m.national_prefix(),
        "npparse": m.national_prefix_for_parsing(), "nptransform": m.national_prefix_transform_rule(),
        "extn": m.preferred_extn_prefix(), "main": m.main_country_for_code(),
        "same": m.same_mobile_and_fixed_line_pattern(), "general": d(&m.general_desc),
        "fixedLine": d(&m.fixed_line), "mobile": d(&m.mobile), "tollFree": d(&m.toll_free),
        "premiumRate": d(&m.premium_rate), "sharedCost": d(&m.shared_cost), "voip": d(&m.voip),
        "personalNumber": d(&m.personal_number), "pager": d(&m.pager), "uan": d(&m.uan),
        "voicemail": d(&m.voicemail), "noInternationalDialling": d(&m.no_international_dialling),
        "nf": m.number_format.iter().map(nf).collect::<Vec<_>>(),
        "intl": m.intl_number_format.iter().map(nf).collect::<Vec<_>>(),
    })
}

#[cfg(not(vp_hooks))]
fn world(name: &str) -> World {
    assert_eq!(name, "bundled", "other worlds need the hooks");
    World { api: PhoneNumberUtil::new() }
}

#[cfg(vp_hooks)]
fn world(name: &str) -> World {
    if name == "bundled" {
        return World { api: PhoneNumberUtil::new(), int: LazyLock::new(Box::new(Internal::bundled)) };
    }
    let t = std::fs::read_to_string(name).expect("world file");
    let v: Value = serde_json::from_str(&t).expect("world JSON");
    let mut c = PhoneMetadataCollection::new();
    c.metadata = v.as_array().unwrap().iter().map(md_in).collect();
    World { api: PhoneNumberUtil::vp_for_metadata(c.clone()), int: LazyLock::new(Box::new(move || Internal::for_metadata(c))) }
}

// ------------------------------------------------------------ runs

/// A log that is written out and thrown away. Every second call is made with it, so that the messages of the
/// library are composed as they are for a caller who logs; what a call returns must not depend on it.
struct Log;

impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}

fn guarded(w: &World, e: &Value) -> Value {
    static CALLS: AtomicUsize = AtomicUsize::new(0);
    let logged = CALLS.fetch_add(1, Ordering::SeqCst) % 2 == 1;
    log::set_max_level(if logged { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    match catch_unwind(AssertUnwindSafe(|| call(w, e))) {
        // what comes out of very long texts is long as well
        Ok(v) if e["pad"].is_array() => json!({"k": v["k"]}),
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"k": "panic", "v": m})
        }
    }
}

fn event(i: usize, e: &Value, out: Value) -> Value {
    let mut m: Map<String, Value> = e.as_object().unwrap().clone();
    m.insert("ix".into(), json!(i));
    m.insert("out".into(), out);
    Value::Object(m)
}

fn read_calls(p: &str) -> Vec<Value> {
    std::io::BufReader::new(std::fs::File::open(p).expect("calls"))
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("call JSON"))
        .collect()
}

const HANG: Duration = Duration::from_secs(20);

/// Runs `calls` on `threads` threads over one shared instance. Thread k executes the
/// calls k, k+T, ... (or, with a shared queue, whatever comes next), each result is
/// recorded at the return of the call. A call that does not return in HANG is recorded
/// as such and ends the process: non-termination is data as well.
fn execute(w: Option<World>, name: &str, calls: Vec<Value>, threads: usize, out: &str, rounds: usize) {
    let n = calls.len();
    let w = Arc::new(w);
    let name = name.to_owned();
    let calls = Arc::new(calls);
    let slots: Arc<Vec<Mutex<Option<Value>>>> = Arc::new((0..n * rounds).map(|_| Mutex::new(None)).collect());
    let start = Instant::now();
    let next = Arc::new(AtomicUsize::new(0));
    let busy: Arc<Vec<(AtomicU64, AtomicUsize)>> =
        Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicUsize::new(0))).collect());
    let done = Arc::new(AtomicBool::new(false));
    let gate = Arc::new(std::sync::Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (w, calls, slots, next, busy, gate, name) =
                (w.clone(), calls.clone(), slots.clone(), next.clone(), busy.clone(), gate.clone(), name.clone());
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    gate.wait();
                    loop {
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= n * rounds {
                            return;
                        }
                        let (i, slot) = (j / rounds, j);
                        busy[t].1.store(slot, Ordering::SeqCst);
                        busy[t].0.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        let v = match &*w {
                            Some(w) => guarded(w, &calls[i]),
                            None => guarded(&world(&name), &calls[i]),
                        };
                        busy[t].0.store(u64::MAX, Ordering::SeqCst);
                        *slots[slot].lock().unwrap() = Some(v);
                    }
                })
                .unwrap()
        })
        .collect();
    let watchdog = {
        let (busy, slots, done) = (busy.clone(), slots.clone(), done.clone());
        std::thread::spawn(move || loop {
            if done.load(Ordering::SeqCst) {
                return false;
            }
            let now = start.elapsed().as_millis() as u64;
            let mut hung = false;
            for b in busy.iter() {
                let s = b.0.load(Ordering::SeqCst);
                if s != u64::MAX && now > s && now - s > HANG.as_millis() as u64 {
                    *slots[b.1.load(Ordering::SeqCst)].lock().unwrap() = Some(json!({"k": "hang", "v": 0}));
                    hung = true;
                }
            }
            if hung {
                return true;
            }
            std::thread::sleep(Duration::from_millis(100));
        })
    };
    // the watchdog ends the wait when a call hangs
    let finisher = {
        let done = done.clone();
        std::thread::spawn(move || {
            for h in handles {
                let _ = h.join();
            }
            done.store(true, Ordering::SeqCst);
        })
    };
    let hung = watchdog.join().unwrap();
    if !hung {
        finisher.join().unwrap();
    }
    let mut f = BufWriter::new(std::fs::File::create(out).expect("events"));
    let mut count = 0;
    for j in 0..n * rounds {
        if let Some(v) = slots[j].lock().unwrap().take() {
            writeln!(f, "{}", event(count, &calls[j / rounds], v)).unwrap();
            count += 1;
        }
    }
    f.flush().unwrap();
    drop(f);
    eprintln!("vpdrive: {count} events{}", if hung { ", stopped at a call that does not return" } else { "" });
    std::process::exit(0);
}

/// First uses at the same time: for every group of calls a new instance, on which all
/// threads make the calls of the group, thread k beginning with the k-th.
fn race(name: &str, calls: Vec<Value>, out: &str, threads: usize, group: usize) {
    #[cfg(vp_hooks)]
    sched::install();
    let f = Mutex::new(BufWriter::new(std::fs::File::create(out).expect("events")));
    let busy = Arc::new((AtomicU64::new(u64::MAX), AtomicUsize::new(0)));
    let start = Instant::now();
    let out2 = out.to_owned();
    let calls = Arc::new(calls);
    {
        let (busy, calls) = (busy.clone(), calls.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let (s, now) = (busy.0.load(Ordering::SeqCst), start.elapsed().as_millis() as u64);
            if s != u64::MAX && now > s && now - s > HANG.as_millis() as u64 {
                let i = busy.1.load(Ordering::SeqCst);
                std::fs::write(&out2, format!("{}\n", event(0, &calls[i], json!({"k": "hang", "v": 0})))).unwrap();
                eprintln!("vpdrive: stopped at a group of calls that does not return");
                std::process::exit(0);
            }
        });
    }
    let count = AtomicUsize::new(0);
    let mut at = 0;
    while at < calls.len() {
        let g = &calls[at..(at + group).min(calls.len())];
        let w = world(name);
        let gate = std::sync::Barrier::new(threads);
        busy.1.store(at, Ordering::SeqCst);
        busy.0.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (w, gate, f, count) = (&w, &gate, &f, &count);
                s.spawn(move || {
                    #[cfg(vp_hooks)]
                    sched::dawdle((at * threads + t) as u64);
                    gate.wait();
                    for k in 0..g.len() {
                        let e = &g[(k + t) % g.len()];
                        let v = guarded(w, e);
                        let mut f = f.lock().unwrap();
                        writeln!(f, "{}", event(count.fetch_add(1, Ordering::SeqCst), e, v)).unwrap();
                    }
                });
            }
        });
        busy.0.store(u64::MAX, Ordering::SeqCst);
        at += group;
    }
    f.lock().unwrap().flush().unwrap();
    eprintln!("vpdrive: {} events", count.load(Ordering::SeqCst));
    std::process::exit(0);
}

/// One thread, one instance; each event is on disk before
/// the next call begins, so that an abort of the process can be attributed to its call.
fn run(name: &str, calls: Vec<Value>, out: &str) {
    let f = Arc::new(Mutex::new(std::fs::File::create(out).expect("events")));
    let start = Instant::now();
    let busy = Arc::new((AtomicU64::new(u64::MAX), AtomicUsize::new(0)));
    let calls = Arc::new(calls);
    let name = name.to_owned();
    {
        let (f, busy, calls) = (f.clone(), busy.clone(), calls.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let (s, now) = (busy.0.load(Ordering::SeqCst), start.elapsed().as_millis() as u64);
            if s != u64::MAX && now > s && now - s > HANG.as_millis() as u64 {
                let mut f = f.lock().unwrap();
                if busy.0.load(Ordering::SeqCst) == s {
                    let i = busy.1.load(Ordering::SeqCst);
                    let e = event(i, &calls[i], json!({"k": "hang", "v": 0}));
                    f.write_all(format!("{e}\n").as_bytes()).unwrap();
                    eprintln!("vpdrive: stopped at a call that does not return");
                    std::process::exit(0);
                }
            }
        });
    }
    let body = move || {
        let w = world(&name);
        for (i, e) in calls.iter().enumerate() {
            busy.1.store(i, Ordering::SeqCst);
            busy.0.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
            let v = guarded(&w, e);
            let mut f = f.lock().unwrap();
            busy.0.store(u64::MAX, Ordering::SeqCst);
            if e["warm"] == true {
                continue;
            }
            f.write_all(format!("{}\n", event(i, e, v)).as_bytes()).unwrap();
        }
        eprintln!("vpdrive: {} events", calls.len());
    };
    std::thread::Builder::new().stack_size(2 << 20).spawn(body).unwrap().join().unwrap();
    std::process::exit(0);
}

// ------------------------------------------------------------ imposed schedules

#[cfg(vp_hooks)]
mod sched {
    use super::*;
    use std::cell::{Cell, RefCell};
    use std::sync::Condvar;

    #[derive(Default)]
    struct State {
        waiting: Vec<bool>,
        finished: Vec<bool>,
        go: Vec<bool>,
        free: bool,
    }

    #[derive(Default)]
    pub struct Control(Mutex<State>, Condvar);

    /// how long a thread may take to its next point before it counts as blocked
    const BLOCKED: Duration = Duration::from_millis(2);

    thread_local! {
        static ME: RefCell<Option<(Arc<Control>, usize)>> = const { RefCell::new(None) };
        static DICE: Cell<u64> = const { Cell::new(0) };
    }

    impl Control {
        fn stop(&self, t: usize) {
            let mut s = self.0.lock().unwrap();
            s.waiting[t] = true;
            self.1.notify_all();
            while !s.go[t] && !s.free {
                s = self.1.wait(s).unwrap();
            }
            s.go[t] = false;
            s.waiting[t] = false;
        }

        fn finish(&self, t: usize) {
            self.0.lock().unwrap().finished[t] = true;
            self.1.notify_all();
        }

        fn rest(&self, t: usize, d: Duration) -> bool {
            let s = self.0.lock().unwrap();
            let (s, _) = self.1.wait_timeout_while(s, d, |s| !(s.waiting[t] && !s.go[t] || s.finished[t])).unwrap();
            s.waiting[t] && !s.go[t] || s.finished[t]
        }

        fn let_go(&self, t: usize) {
            if self.rest(t, BLOCKED) {
                self.0.lock().unwrap().go[t] = true;
                self.1.notify_all();
                self.rest(t, BLOCKED);
            }
        }
    }

    /// at a point: wait for the controller; in runs without one, sometimes for others
    fn at_point(_: &str) {
        if let Some((c, t)) = ME.with(|m| m.borrow().clone()) {
            return c.stop(t);
        }
        let d = DICE.get();
        if d != 0 {
            let d = d ^ (d << 13);
            let d = d ^ (d >> 7);
            let d = d ^ (d << 17);
            DICE.set(d);
            match d % 8 {
                0 | 1 => std::thread::yield_now(),
                2 => std::thread::sleep(Duration::from_micros(d >> 8 & 127)),
                _ => (),
            }
        }
    }

    pub fn install() {
        rlibphonenumber::vp_hooks::set_point(Box::new(at_point));
    }

    /// has this thread dawdle at some of the points
    pub fn dawdle(seed: u64) {
        DICE.set(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    }

    fn one(e: &Value) -> Value {
        let todo: Vec<Vec<String>> = serde_json::from_value(e["todo"].clone()).unwrap();
        let order: Vec<usize> = serde_json::from_value(e["sched"].clone()).unwrap();
        let texts: Vec<&str> = e["texts"].as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect();
        let cache = rlibphonenumber::vp_hooks::Cache::with_capacity(e["cap"].as_u64().unwrap() as usize);
        let n = todo.len();
        let c = Arc::new(Control::default());
        {
            let mut s = c.0.lock().unwrap();
            s.waiting = vec![false; n];
            s.finished = vec![false; n];
            s.go = vec![false; n];
        }
        let results = std::thread::scope(|s| {
            let hs: Vec<_> = todo
                .iter()
                .enumerate()
                .map(|(t, ps)| {
                    let (c, cache, texts) = (c.clone(), &cache, &texts);
                    s.spawn(move || {
                        ME.set(Some((c.clone(), t)));
                        let mut r = vec![];
                        for p in ps {
                            c.stop(t);
                            let p = &e["pats"][p];
                            let v = catch_unwind(AssertUnwindSafe(|| {
                                cache.matches(p[0].as_str().unwrap(), p[1].as_bool().unwrap(), texts)
                            }));
                            r.push(v.map_or(json!("panic"), |v| json!(v)));
                        }
                        ME.set(None);
                        c.finish(t);
                        r
                    })
                })
                .collect();
            for t in order {
                c.let_go(t - 1);
            }
            c.0.lock().unwrap().free = true;
            c.1.notify_all();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        json!(results)
    }

    pub fn run(calls: Vec<Value>, out: &str, threads: usize) {
        install();
        let n = calls.len();
        let start = Instant::now();
        let slots: Vec<Mutex<Option<Value>>> = (0..n).map(|_| Mutex::new(None)).collect();
        let busy: Vec<(AtomicU64, AtomicUsize)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicUsize::new(0))).collect();
        let next = AtomicUsize::new(0);
        let left = AtomicUsize::new(threads);
        let write = |hung: Option<usize>| {
            let mut f = BufWriter::new(std::fs::File::create(out).expect("events"));
            for (i, slot) in slots.iter().enumerate() {
                let v = if hung == Some(i) { Some(json!("hang")) } else { slot.lock().unwrap().take() };
                if let Some(v) = v {
                    writeln!(f, "{}", event(i, &calls[i], v)).unwrap();
                }
            }
            f.flush().unwrap();
        };
        std::thread::scope(|s| {
            for b in &busy {
                let (slots, calls, next, left) = (&slots, &calls, &next, &left);
                s.spawn(move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        b.1.store(i, Ordering::SeqCst);
                        b.0.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        let v = one(&calls[i]);
                        b.0.store(u64::MAX, Ordering::SeqCst);
                        *slots[i].lock().unwrap() = Some(v);
                    }
                    left.fetch_sub(1, Ordering::SeqCst);
                });
            }
            while left.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                for b in &busy {
                    let t = b.0.load(Ordering::SeqCst);
                    if t != u64::MAX && now > t && now - t > HANG.as_millis() as u64 {
                        write(Some(b.1.load(Ordering::SeqCst)));
                        eprintln!("vpdrive: stopped at a schedule that does not end");
                        std::process::exit(0);
                    }
                }
            }
        });
        write(None);
        eprintln!("vpdrive: {n} schedules");
        std::process::exit(0);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    log::set_logger(&Log).unwrap();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "run" => run(&a[2], read_calls(&a[3]), &a[4]),
        "fresh" => execute(None, &a[2], read_calls(&a[3]), a[5].parse().unwrap(), &a[4], 1),
        "mt" => execute(Some(world(&a[2])), &a[2], read_calls(&a[3]), a[5].parse().unwrap(), &a[4], a[6].parse().unwrap()),
        "race" => race(&a[2], read_calls(&a[3]), &a[4], a[5].parse().unwrap(), a[6].parse().unwrap()),
        #[cfg(vp_hooks)]
        "sched" => sched::run(read_calls(&a[3]), &a[4], a[5].parse().unwrap()),
        "has-hooks" => std::process::exit(if cfg!(vp_hooks) { 0 } else { 1 }),
        m => {
            eprintln!("unknown mode {m}");
            std::process::exit(2);
        }
    }
}

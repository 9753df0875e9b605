"""Reading of resources/PhoneNumberMetadata*.xml into plain records.

This is the oracle side of the metadata: an independent transcription of the
documented rules of the XML (resources/phonemetadata.proto, the XML's own DTD
and comments, and the metadata builder's semantics), never the compiled bytes.
"""
import re
import xml.etree.ElementTree as ET

TYPES = ["fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "voip",
         "personalNumber", "pager", "uan", "voicemail", "noInternationalDialling"]


def nows(s):
    return re.sub(r"\s", "", s) if s is not None else None


def parse_lengths(s):
    out = []
    if not s:
        return out
    for part in s.split(","):
        part = part.strip()
        m = re.fullmatch(r"\[(\d+)-(\d+)\]", part)
        if m:
            out.extend(range(int(m.group(1)), int(m.group(2)) + 1))
        else:
            out.append(int(part))
    return sorted(set(out))


def np_rule(el, np):
    r = el.get("nationalPrefixFormattingRule", "")
    return r.replace("$NP", np).replace("$FG", "$1")


def cc_rule(el, np):
    r = el.get("carrierCodeFormattingRule", "")
    return r.replace("$FG", "$1").replace("$NP", np)


def desc(el, tag, parent):
    d = {"pattern": "", "example": "", "lengths": [], "local": []}
    e = el.find(tag)
    if e is None:
        d["lengths"] = [-1]
        return d
    p = e.find("possibleLengths")
    nat = parse_lengths(p.get("national")) if p is not None else []
    loc = parse_lengths(p.get("localOnly")) if p is not None else []
    if parent is not None:
        if nat != parent["lengths"]:
            d["lengths"] = nat
        d["local"] = [x for x in loc if x not in nat]
    pat = e.find("nationalNumberPattern")
    if pat is not None:
        d["pattern"] = nows(pat.text)
    ex = e.find("exampleNumber")
    if ex is not None:
        d["example"] = ex.text.strip()
    return d


def territory(el):
    np = el.get("nationalPrefix", "")
    t = {
        "id": el.get("id"),
        "cc": int(el.get("countryCode")),
        "leading": nows(el.get("leadingDigits", "")),
        "idd": nows(el.get("internationalPrefix", "")),
        "prefidd": el.get("preferredInternationalPrefix", ""),
        "np": np,
        "npparse": nows(el.get("nationalPrefixForParsing", "")) or np,
        "nptransform": nows(el.get("nationalPrefixTransformRule", "")),
        "extn": el.get("preferredExtnPrefix", ""),
        "main": el.get("mainCountryForCode") == "true",
    }
    # general description: lengths are the union over the number types
    nat, loc = set(), set()
    for tag in TYPES:
        if tag == "noInternationalDialling":
            continue
        for e in el.findall(tag):
            p = e.find("possibleLengths")
            if p is not None:
                nat |= set(parse_lengths(p.get("national")))
                loc |= set(parse_lengths(p.get("localOnly")))
    g = desc(el, "generalDesc", None)
    g["lengths"] = sorted(nat)
    g["local"] = sorted(loc - nat)
    t["general"] = g
    for tag in TYPES:
        t[tag] = desc(el, tag, g)
    t["same"] = t["mobile"]["pattern"] == t["fixedLine"]["pattern"]
    # formats
    base_np, base_cc = np_rule(el, np), cc_rule(el, np)
    nf, intl, explicit = [], [], False
    af = el.find("availableFormats")
    for f in (af.findall("numberFormat") if af is not None else []):
        r = {
            "pattern": nows(f.get("pattern")),
            "format": f.find("format").text,
            "leading": [nows(x.text) for x in f.findall("leadingDigits")],
            "nprule": np_rule(f, np) if f.get("nationalPrefixFormattingRule") is not None else base_np,
            "ccrule": cc_rule(f, np) if f.get("carrierCodeFormattingRule") is not None else base_cc,
        }
        nf.append(r)
        i = f.findall("intlFormat")
        if not i:
            intl.append(dict(r))
        else:
            explicit = True
            if i[0].text != "NA":
                intl.append({"pattern": r["pattern"], "format": i[0].text,
                             "leading": r["leading"], "nprule": "", "ccrule": ""})
    if not explicit:
        intl = []
    t["nf"], t["intl"] = nf, intl
    return t


def load(path):
    root = ET.parse(path).getroot()
    return [territory(e) for e in root.find("territories").findall("territory")]

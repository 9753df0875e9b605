"""The bounded worlds in which spec/Explore.tla lets a caller type: which tokens, how
many, with which other arguments."""
import random
import unicodedata

import synth
from lib import C, N, nat, FORMATS, Plans, words

DIGITS = ["0", "1", "2", "3"]
NUMBERS = {"C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C18", "C19"}
TEXTS = {"C02", "C11", "C17"}
PROPS = NUMBERS | TEXTS | {"C03", "C13", "C14", "C16"}
NOARG = {"x": [], "r": "ZZ", "r2": "ZZ", "cc": 0, "f": "E164", "t": "Unknown", "c": [], "s2": [], "m": N(0, "0")}


def case(tokens, most, args, start="", base="", pair=False, rest="", raw=False):
    return {"toks": [C(t) for t in tokens], "most": most, "args": [dict(NOARG, **a) for a in args],
            "start": C(start), "rest": C(rest), "base": C(base), "pair": pair, "raw": raw}


def regions(terrs):
    return sorted(t["id"] for t in terrs if t["id"] != "001")


def number_args(prop, terrs, rng):
    codes = sorted({t["cc"] for t in terrs})
    rs = regions(terrs)
    out = []
    for cc in codes + [999]:
        own = [t["id"] for t in terrs if t["cc"] == cc and t["id"] != "001"] or ["001"]
        if prop == "C01":
            out += [{"cc": cc, "f": f, "r": own[0] if f == "NATL" and own[0] != "001" else rng.choice(rs + ["ZZ"]), "x": C(rng.choice(["", "", "12"]))} for f in FORMATS]
        elif prop == "C04":
            out += [{"cc": cc, "r": r} for r in own + [rng.choice(rs)]]
        elif prop == "C07":
            out += [{"cc": cc, "t": t} for t in rng.sample(["FixedLine", "Mobile", "FixedLineOrMobile", "TollFree", "VoIP", "Pager"], 2)]
        elif prop == "C08":
            out += [{"cc": cc, "f": f, "x": C(rng.choice(["", "3"]))} for f in FORMATS]
        elif prop == "C09":
            out += [{"cc": cc, "x": C(rng.choice(["", "", "1"])), "m": nat(rng.choice([cc, cc, 0, codes[0]]), "".join(rng.choice("0123") for _ in range(rng.randrange(1, 5))),
                     rng.choice([None, None, "", "1"]))} for _ in range(3)]
        elif prop == "C10":
            out += [{"cc": cc, "r": r, "x": C(rng.choice(["", "3"]))} for r in rng.sample(rs, 2) + own[:1] + ["ZZ"]]
        elif prop == "C18":
            out += [{"cc": cc, "x": C(rng.choice(["", "5"]))}]
        elif prop == "C19":
            out += [{"cc": cc, "c": C(c)} for c in ("", "15", "3")]
        else:
            out.append({"cc": cc})
    return out


GENERALS = ["\\d{2,3}", "[1-3]\\d{1,2}", "[0-2]\\d{2}"]


def family(prop, deep):
    """[(name, plans, cases)]: all small configurations of what the property depends on"""
    D, few = DIGITS, DIGITS[:3]

    def each(terrs, toks, most, *variants):
        """every code of these plans"""
        return [case(toks, most, [dict({"cc": cc}, **v) for cc in sorted({t["cc"] for t in terrs}) for v in (variants or [{}])])]

    def own(terrs, toks, most, start="", geo=lambda t: True):
        """every region of these plans"""
        return [case(toks, most, [{"r": t["id"], "r2": t["id"]}], start=start % t["cc"] if start else "") for t in terrs if t["id"] != "001" and geo(t)]

    out = []
    n = 1 if deep else 0
    if prop in ("C04", "C05", "C07", "C12"):
        t = synth.lengths()
        if prop == "C07":
            out.append(("lengths", t, each(t, ["1"], 7, *[{"t": y} for y in ("FixedLine", "Mobile", "FixedLineOrMobile", "VoIP")])))
        else:
            out.append(("lengths", t, each(t, ["1"], 7)))
    if prop in ("C04", "C05", "C10", "C12", "C18"):
        t = synth.precedence()
        out.append(("precedence", t, each(t, ["1", "2", "3"], 4 if prop in ("C04", "C05") else 3)))
    if prop in ("C04", "C06", "C05"):
        t = synth.sharing(1)
        if prop == "C04":
            out.append(("sharing", t, [case(["1", "2", "3"], 3, [{"cc": x["cc"], "r": x["id"]} for x in t])]))
        else:
            out.append(("sharing", t, each(t, D if deep else D[1:], 3 + n if prop == "C06" else 3)))
    if prop in ("C02", "C17", "C01"):
        t = synth.prefixes(synth.M_GENERAL if deep else GENERALS)
        if prop == "C01":
            out.append(("prefixes", t, each(t, few, 3 + n, {"f": "NATL"}, {"f": "INTL"})))
            cs = out[-1][2][0]
            for a in cs["args"]:
                a["r"] = next(x["id"] for x in t if x["cc"] == a["cc"])
            cs["args"] = [a for a in cs["args"] if a["r"] != "001" or a["f"] == "INTL"]
        else:
            out.append(("prefixes", t, own(t, D, 4) + own(t, D, 3 + n, start="+%d") + own(t, few, 3, start="%d")
                        + [case(D, 3, [{"r": r, "r2": r} for r in ("001", t[0]["id"], "ZZ")], start="+%d" % x["cc"]) for x in t if x["id"] == "001"]))
    if prop in ("C08", "C19"):
        t = synth.rules()
        if prop == "C08":
            out.append(("rules", t, each(t, ["1", "2", "0"], 4 if deep else 3, *[{"f": f, "x": C(x)} for f, x in (("NATL", ""), ("NATL", "7"), ("INTL", "7"), ("RFC", "7"), ("RFC", ""))])))
        else:
            out.append(("rules", t, each(t, ["1", "2", "0"], 4 if deep else 3, {"c": C("")}, {"c": C("15")}, {"c": C("3"), "x": C("9")})))
    if prop in ("C08", "C01", "C11"):
        t = synth.separators()
        if prop == "C08":
            out.append(("separators", t, each(t, D, 3, *[{"f": f, "x": C(x)} for f, x in (("NATL", ""), ("INTL", "7"), ("RFC", "7"), ("RFC", ""))])))
        elif prop == "C01":
            out.append(("separators", t, each(t, D, 3, *[{"f": f} for f in FORMATS])))
            for a in out[-1][2][0]["args"]:
                a["r"] = next(x["id"] for x in t if x["cc"] == a["cc"])
        else:
            out.append(("separators", t, own(t, ["0", "1", "3"], 4)))
    if prop == "C11":
        t = synth.originals()
        out.append(("originals", t, own(t, few, 4 + n) + own(t, few, 3, start="+%d")))
    if prop == "C10":
        t = synth.dialling()
        some = sorted({x["cc"] for x in t})[::40]
        out.append(("dialling", t, [case(["1", "2"], 3, [{"cc": cc, "r": x["id"]} for cc in some for x in t])]))
        t = synth.mobiles()
        out.append(("mobiles", t, [case(D, 4 if deep else 3, [{"cc": cc, "r": r, "x": C("")} for cc in sorted({x["cc"] for x in t}) for r in
                                                              ([x["id"] for x in t if x["cc"] == cc and x["id"] != "001"] + ["US", "BR", "GB", "ZZ"])])]))
    if prop == "C18":
        t = synth.areas()
        out.append(("areas", t, each(t, D, 5 if deep else 4, {}, {"x": C("5")})))
    return out


def small(prop, seed, deep):
    """(plans, cases): everything that can be typed over a few digits, on small plans"""
    terrs = synth.micro(seed)
    rng = random.Random("explore/%s/%d" % (prop, seed))
    rs = regions(terrs)
    cs = []
    if prop in NUMBERS:
        heavy = prop in ("C01", "C08", "C10", "C19", "C07", "C09")
        cs.append(case(DIGITS, (5 if deep else 4) if heavy else (6 if deep else 5), number_args(prop, terrs, rng)))
        if prop == "C09":
            cs.append(case(["+"] + DIGITS, 5 if deep else 4, [{"s2": C(x), "m": nat(rng.choice([t["cc"] for t in terrs] + [0]), x.strip("+") or "1")}
                                                             for x in ("123", "+%d123" % terrs[0]["cc"], "0123", "+%d12" % terrs[1]["cc"], "12")], pair=True))
        if prop == "C19":
            cs.append(case(["1", "2", "abc", "D", " ", "+"], 5 if deep else 4, [{"r": r, "r2": x} for r in rng.sample(rs, 2) for x in (r, rng.choice(rs))], pair=True))
    elif prop in TEXTS:
        n = 6 if deep else 5
        for r in rng.sample(rs, 3) + ["ZZ"]:
            cs.append(case(["+"] + DIGITS, n if r != "ZZ" or deep else n - 1, [{"r": r, "r2": rng.choice([r, r, rng.choice(rs)])}]))
        if prop == "C11":
            claims = [{"r": r, "m": nat(t["cc"], w, src=src)} for t in rng.sample(terrs, 3) for w in ("12", "213", "0123") for r in (rng.choice(rs), t["id"])
                      for src in rng.sample(["PLUS", "IDD", "NOPLUS", "DEFAULT", "NONE"], 2)]
            cs.append(case(["+", "-"] + DIGITS, 4 if deep else 3, claims, raw=True))
    else:
        return None
    return terrs, cs


def codepoints(deep, rng):
    """characters at the ends of the classes of Unicode that matter, or (deep) all"""
    def cat(c):
        x = unicodedata.category(chr(c))
        return "Nd" if x == "Nd" else x[0]
    out, last = set(), None
    for c in range(0x110000):
        if 0xD800 <= c < 0xE000:
            last = None
            continue
        k = cat(c)
        if k != last and (k in ("Nd", "N", "L") or last in ("Nd", "N", "L")):
            out |= {c - 1, c, c + 1}
        last = k
        if deep and (c < 0x3400 or 0xA000 <= c < 0xAC00 or 0xF900 <= c < 0x20000) and rng.random() < 0.7:
            out.add(c)
    return sorted(c for c in out if 0 <= c < 0x110000 and not 0xD7FF <= c < 0xE000 and unicodedata.category(chr(c)) not in ("Cn", "Cs"))


def parts(terrs, t, rng, p):
    """what the texts that denote a number of plan t are made of"""
    w = p.some_valid(t)
    k = rng.choice([2, 3, len(w) // 2])
    npx = rng.choice([x for x in words(rng, t["npparse"], 6) if x] or [""]) if t["npparse"] else ""
    idd = rng.choice(words(rng, t["idd"], 6) or [""]) if t["idd"] else ""
    other = rng.choice(terrs)
    out = ["+", str(t["cc"]), w[:k], w[k:], w, t["np"] if t["np"].isdigit() else "", npx, idd, str(other["cc"]), rng.choice(["0", "1", "9"])]
    return list(dict.fromkeys(x for x in out if x))


def composed(prop, terrs, seed, deep, n):
    """texts composed of the parts that mean something to a plan, on real plans"""
    rng = random.Random("composed/%s/%d" % (prop, seed))
    p = Plans(terrs, seed, prop)
    rs = p.regions
    cs = []
    if prop in TEXTS:
        for t in rng.sample(p.geo, n):
            args = [{"r": t["id"], "r2": t["id"]}]
            if rng.random() < 0.3:
                o = rng.choice([rng.choice(rs), "ZZ", rng.choice(p.by_code[t["cc"]])["id"]])
                args.append({"r": o, "r2": rng.choice([o, t["id"]])})
            cs.append(case(parts(terrs, t, rng, p), 4 if deep else 3, args))
        if prop == "C02":
            # what can be a number at all
            cs.append(case(["+", "1", "2", "-", " ", "x", "A", "*", "(", ";"], 5 if deep else 4, [{"r": rng.choice(rs)}]))
            cs.append(case(["\uff0b", "\uff11", "\u0662", "\u2010", "\u200b", "z", "~", "/", "#", "\n"], 5 if deep else 4, [{"r": rng.choice(rs)}], start="12"))
            # several numbers
            cs.append(case(["/", "\\", " ", "x", "1", "\n"], 6 if deep else 5, [{"r": rng.choice(rs)}], start="23456"))
    elif prop == "C13":
        t = rng.choice(p.geo)
        w = p.some_valid(t)
        base = rng.choice([w, "+%d%s" % (t["cc"], w)])
        arg = [{"r": t["id"]}]
        n = 5 if deep else 4
        for toks in (["x", "ext", ";ext=", "1", "#", " "], [",", ";", "-", "12", " ", "#"], ["e", "xt", "n", ".", ":", "5"], ["int", "anexo", "\u0434\u043e\u0431", " ", ",", "7"],
                     ["\uff45", "\uff58", "\uff54", "\uff4e", "1", "\uff03"], ["\u00a0", "\t", "~", "\uff5e", "3", "-"], ["extensi", "o", "\u0301", "\u00f3", "n", "9"],
                     ["1", "23456789", "x", ";ext=", ",,", "-", "#"][:7]):
            cs.append(case(toks, n, arg, base=base, pair=True))
        cs.append(case(["x", "1", "#", ";ext=", " ", "-", ","], n + 1 if deep else n, arg, start=w[:3]))
    elif prop == "C14":
        for t in rng.sample(p.geo, 3 if deep else 1):
            w = p.some_valid(t)
            arg = [{"r": t["id"]}]
            z = rng.choice([0x660, 0x966, 0xff10, 0x1d7ce])
            cs.append(case(["A", "b", "Z", "2", "-", " "], 5 if deep else 4, arg, start=w[:5]))
            cs.append(case(["+", "\uff0b", p.script("1", z), "2", "!", "\u00e9", "a"], 5 if deep else 4, arg))
            cs.append(case(["\u017f", "\u212a", "abc", "3", "\u0661", "(", "\uff09", "x"], 4 if deep else 3, arg, start=w[:6]))
        cps = [chr(c) for c in codepoints(deep, rng)]
        us = [{"r": "US"}]
        frames = [("+1650", "2530000"), ("", "650 2530000"), ("6502530000", ""), ("1800AB", ""), ("650253", "abc"), ("tel:2530000;phone-context=a", "b"), ("+16502530000x", "5")]
        for a, b in rng.sample(frames, 3) if not deep else frames:
            cs.append(case(cps, 1, us, start=a, rest=b))
    elif prop == "C16":
        t = rng.choice(p.geo)
        w = p.some_valid(t)
        arg = [{"r": t["id"]}]
        n = 5 if deep else 4
        cs.append(case(["tel:", w, "+%d" % t["cc"], ";phone-context=", ";isub=", ";ext=", "1", ";", "a.b"], n, arg))
        cs.append(case(["+", "1", "-", "a", ".", ";", "("], n, arg, start="tel:%s;phone-context=" % w))
        cs.append(case(["a", "1", "-", "."], 7 if deep else 6, arg, start="tel:%s;phone-context=" % w))
        cs.append(case(["1", ";isub=", ";ext=", "=", ";x=y", "-"], n, arg, start="tel:+%d-%s" % (t["cc"], w)))
    elif prop == "C03":
        t = rng.choice(p.geo)
        w = p.some_valid(t)
        arg = [{"r": t["id"], "r2": rng.choice(rs), "s2": C(rng.choice(["\uff0b1", w, "tel:", "x1", "\u0661\u0662\u0663"])), "m": nat(t["cc"], w)}]
        n = 4 if deep else 3
        cs += [case(["+", "\u0661", "\uff11", "a", "\u00e9", "\U0001d7d9", ";", " "], n, arg),
               case(["tel:", ";phone-context=", "+", "1", ";isub=", "\u0661", "x", ";ext="], n, arg, start=rng.choice(["", w[:4]])),
               case(["x", "\uff58", "#", "\u0434\u043e\u0431", "1", "\u0662", "~", "\u0301"], n, arg, start=w[:4]),
               case(["0", "\uff10", "\uff0b", w, "-", "\u3000", str(t["cc"]), "("], n, arg)]
        raw = [dict(a, m=nat(t["cc"], w, src=src)) for a in arg for src in ("PLUS", "IDD", "NOPLUS", "DEFAULT", "NONE")]
        cs += [case(["+", t["np"] or "0", w, "\uff11", "a", "\u00e9", "-", "\U0001d7d9"], 3 if deep else 2, raw, raw=True)]
    elif prop != "C19":
        return None
    if prop in ("C11", "C19"):
        # what a number may claim to be read from
        for t in rng.sample(p.geo, n):
            w = p.some_valid(t)
            args = [{"r": r, "m": nat(t["cc"], w, rng.choice([None, None, "3"]), src=src)} for src in ("PLUS", "IDD", "NOPLUS", "DEFAULT") for r in (t["id"], rng.choice(rs + ["ZZ"]))]
            cs.append(case(parts(terrs, t, rng, p)[:7] + ["-", "A"], 3 if deep else 2, args, raw=True))
    return cs

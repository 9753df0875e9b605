"""Synthetic numbering plans: plans of the bundled metadata, recombined and changed within
what the metadata's XML can express. They reach combinations of rules that no published
plan has (yet), so that the code is held to the meaning of the rules and not only to
their use today."""
import copy
import random

import rx
import xmlmeta
from lib import Dfa

TYPES = xmlmeta.TYPES
HOME = ["US", "CA", "MX", "BR", "CO", "CL", "HU", "AR", "IT", "GB", "CN", "ID", "UZ", "AU", "RU"]
NONE = {"pattern": "", "example": "", "lengths": [-1], "local": []}
IDDS = ["00", "8~10", "0\uff5e0", "0\u223c1", "011", "0011", "810", "0(?:0|11)", "00[1-9]", "001|003", "119", "9", "00(?:1\\d)?", "1(?:0|1)", "00|99(?:1|22)?", "", "0", "000?"]
PREFIDDS = ["", "", "", "00", "0011", "8~10", "0~0", "011"]
# (national prefix, for parsing, transform rule)
PREFIXES = [("", "", ""), ("0", "0", ""), ("1", "1", ""), ("8", "8", ""), ("06", "06", ""), ("0", "0(1\\d)?", ""), ("0", "0|80?", ""), ("0", "0|7", ""),
            ("1", "([2-9]\\d{6})$|1", "246$1"), ("0", "0([3579]|4(?:[14]4|56))?", ""), ("0", "0?(?:(11|2[2-4]|3)15)?", "9$1"), ("", "(19\\d\\d)", ""),
            ("0", "(?:0|90)(?:(1[245]|2[1-35])(\\d{7,8}))?", "$2"), ("0", "0(11\\d{6}|6[0-5]\\d{5})", "$1"), ("0", "(183[12])|0", ""), ("8", "8~?", ""),
            ("0", "0|([2-9]\\d{5})$", "8$1"), ("01", "0?1", ""), ("0", "0(\\d)(\\d{4})", "$2$1"), ("0", "00?", ""), ("0", "0([1-4])?", "5$1"), ("8~0", "80?", ""),
            ("0", "(0[1-3])?0", ""), ("", "9?", ""), ("0", "([3-8]\\d{6})$|0", "$1"), ("0", "0(?:(9)|([1-8]))?", "$2")]
EXTNS = ["", "", "", " x", " int. ", "#", " Anexo ", ";ext=", " \u0434\u043e\u0431. "]
NPRULES = ["", "", "0$1", "(0$1)", "($1)", "8 ($1)", "0 $1", "(0-$1)", "1 $1", "$1"]
CCRULES = ["", "", "", "$CC $1", "0$CC-$1", "0 $CC ($1)", "$CC ($1)", "0$CC $1"]
LEADING = ["[2-9]", "1", "[1-5]", "0|9", "2[0-4]|[3-7]", "[89]", "4[1-3]", "(?:1|2)5", "0[1-9]", "3"]


class Synth:
    def __init__(self, terrs, seed):
        self.rng = random.Random("synth/%s" % seed)
        self.src = terrs
        self.formats = [f for t in terrs for f in t["nf"] + t["intl"]]
        self.by_code = {}
        for t in terrs:
            self.by_code.setdefault(t["cc"], []).append(t)

    def pick(self, n):
        r = self.rng
        by = {t["id"]: t for t in self.src}
        ids = r.sample(HOME, 6)
        ts = [by[x] for x in ids]
        shared = [c for c, l in self.by_code.items() if len(l) > 1]
        for c in r.sample(shared, 3):
            ts += r.sample(self.by_code[c], min(3, len(self.by_code[c])))
        ts += r.sample([t for t in self.src if t["id"] == "001"], 3)
        geo = [t for t in self.src if t["id"] != "001"]
        while len(ts) < n:
            ts.append(r.choice(geo))
        out, seen = [], set()
        for t in ts:
            k = (t["id"], t["cc"] if t["id"] == "001" else 0)
            if k not in seen:
                seen.add(k)
                out.append(copy.deepcopy(t))
        return out

    # ---- changes
    def codes(self, ts):
        """move some plans to other codes: shared ones, ones that begin others"""
        r = self.rng
        for t in ts:
            x = r.random()
            if t["id"] == "001":
                continue
            if x < 0.12:
                t["cc"] = r.choice([u["cc"] for u in ts if u["id"] != "001"])
            elif x < 0.16:
                t["cc"] = r.choice([1, 7, 39, 44, 52, 54, 86, 379])
            elif x < 0.22:
                t["cc"] = r.randrange(2, 1000)
        used = {}
        for t in ts:
            used.setdefault(t["cc"], []).append(t)
        for c, l in used.items():
            # a code of a non-geographical entity is nobody else's
            if any(t["id"] == "001" for t in l) and len(l) > 1:
                for t in l:
                    if t["id"] != "001":
                        t["cc"] = next(x for x in range(200, 1000) if x not in used)
        used = {}
        for t in ts:
            used.setdefault(t["cc"], []).append(t)
        for l in used.values():
            if len(l) == 1:
                l[0]["main"] = False
                continue
            # exactly one of them is the main one
            for t in l:
                t["main"] = False
            l[r.randrange(len(l))]["main"] = True

    def types(self, t):
        r = self.rng
        have = [k for k in TYPES[:10] if t[k]["pattern"]]
        for k in TYPES:
            if t[k]["lengths"] == []:
                t[k]["lengths"] = list(t["general"]["lengths"])
        if t["id"] == "001" and have and r.random() < 0.7:
            # an entity with numbers of one other type
            k = have.pop()
            o = r.choice([z for z in TYPES[:10] if z != k])
            t[o], t[k] = t[k], copy.deepcopy(NONE)
            have = [z for z in TYPES[:10] if t[z]["pattern"]]
        for _ in range(r.choice([0, 1, 2, 3])):
            x = r.randrange(9)
            k = r.choice(have) if have else "fixedLine"
            d = t[k]
            o = r.choice([z for z in TYPES if z != k])
            if x == 0 and len(have) > 1:
                t[k] = copy.deepcopy(NONE)
                have.remove(k)
            elif x == 1:
                t[o] = copy.deepcopy(d)
            elif x == 2:
                t["mobile"] = copy.deepcopy(t["fixedLine"])
            elif x == 3 and t[o]["pattern"] and d["pattern"]:
                d["pattern"] = "(?:%s)|(?:%s)" % (d["pattern"], t[o]["pattern"])
                d["lengths"] = sorted(set(d["lengths"]) | set(t[o]["lengths"]))
            elif x == 4 and d["pattern"]:
                n = r.choice([1, 2])
                d["pattern"] = "(?:%s)(?:%s)?" % (d["pattern"], "[0-4]" if n == 1 else "\\d\\d")
                d["lengths"] = sorted(set(d["lengths"]) | {y + n for y in d["lengths"] if 0 < y + n <= 17})
            elif x == 5 and len(d["lengths"]) > 2:
                d["lengths"].pop(r.randrange(1, len(d["lengths"]) - 1))
            elif x == 5 and len(d["lengths"]) > 1:
                d["lengths"] = sorted(r.sample(d["lengths"], len(d["lengths"]) - 1))
            elif x == 5 and d["pattern"]:
                n = d["lengths"][0] if d["lengths"] else 6
                d["pattern"], d["lengths"] = "(?:%s)(?:\\d\\d?)?" % d["pattern"], [n, n + 2] if 0 < n < 14 else [n]
            elif x == 6 and d["pattern"]:
                d["lengths"] = sorted(set(d["lengths"]) | {r.randrange(3, 15)})
            elif x == 7 and d["pattern"]:
                d["local"] = sorted(set(d["local"]) | {r.randrange(2, 9)})
            elif x == 8 and d["pattern"]:
                t["noInternationalDialling"] = dict(copy.deepcopy(NONE), pattern=d["pattern"] if r.random() < 0.5 else "[1-4]\\d{3,9}",
                                                    lengths=list(d["lengths"]))
        if r.random() < 0.1:
            t["general"]["pattern"] = "[1-9]\\d{3,12}"
        if t["general"]["example"] == "" and have:
            t["general"]["example"] = t[have[0]]["example"]

    def prefixes(self, t):
        r = self.rng
        if r.random() < 0.4:
            t["np"], t["npparse"], t["nptransform"] = r.choice(PREFIXES)
        if r.random() < 0.3:
            t["idd"] = r.choice(IDDS)
            t["prefidd"] = r.choice(PREFIDDS)
        elif r.random() < 0.15:
            t["prefidd"] = r.choice(PREFIDDS)
        if r.random() < 0.3:
            t["extn"] = r.choice(EXTNS)
        if t["main"]:
            t["leading"] = ""
        elif r.random() < 0.25:
            t["leading"] = r.choice(LEADING)

    def fmts(self, t):
        r = self.rng
        nf = t["nf"]
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            x = r.randrange(8)
            f = copy.deepcopy(r.choice(nf)) if nf else copy.deepcopy(r.choice(self.formats))
            if x == 0:
                nf.insert(r.randrange(len(nf) + 1), copy.deepcopy(r.choice(self.formats)))
            elif x == 1 and nf:
                nf.pop(r.randrange(len(nf)))
            elif x == 2:
                r.shuffle(nf)
            elif x == 3 and nf:
                nf[r.randrange(len(nf))]["leading"] = r.choice([[], [r.choice(LEADING)], [r.choice(LEADING), r.choice(LEADING)]])
            elif x == 4 and nf:
                nf[r.randrange(len(nf))]["nprule"] = r.choice(NPRULES)
            elif x == 5 and nf:
                nf[r.randrange(len(nf))]["ccrule"] = r.choice(CCRULES)
            elif x == 6 and nf:
                f["format"] = r.choice([f["format"].replace(" ", "-"), f["format"].replace("$1", "$1/", 1), f["format"].replace("-", "."), f["format"].replace("$1", "$2", 1) if "$2" in f["format"] else f["format"]])
                nf.insert(0, f)
            elif x == 7 and nf:
                f["nprule"] = r.choice(NPRULES)
                f["leading"] = [r.choice(LEADING)]
                nf.insert(0, f)
        x = r.random()
        if x < 0.15:
            t["intl"] = []
        elif x < 0.4:
            t["intl"] = []
            for f in nf:
                if r.random() < 0.8:
                    g = copy.deepcopy(f)
                    if r.random() < 0.6:
                        g.update(nprule="", ccrule="")
                    if r.random() < 0.4:
                        g["format"] = g["format"].replace(" ", "-")
                    t["intl"].append(g)

    def close(self, t):
        """what the builder of the metadata derives"""
        nat, loc = set(), set()
        for k in TYPES[:10]:
            if t[k]["pattern"]:
                nat |= {x for x in t[k]["lengths"] if x > 0}
                loc |= set(t[k]["local"])
        if not nat:
            nat = {7}
        t["general"]["lengths"] = sorted(nat)
        t["general"]["local"] = sorted(loc - nat)
        if t["general"]["pattern"] == "":
            t["general"]["pattern"] = "\\d{4,12}"
        for k in TYPES:
            d = t[k]
            if d["pattern"] == "":
                t[k] = dict(copy.deepcopy(NONE))
                continue
            d["local"] = [x for x in d["local"] if x not in d["lengths"]]
            if sorted(d["lengths"]) == t["general"]["lengths"]:
                d["lengths"] = []
        t["same"] = t["mobile"]["pattern"] == t["fixedLine"]["pattern"]
        # an example is a number of its type
        for k in TYPES[:10]:
            d = t[k]
            a = Dfa(d["pattern"]) if d["pattern"] else None
            if a and not (a.accepts(d["example"]) and len(d["example"]) in (d["lengths"] or t["general"]["lengths"])):
                d["example"] = next((w for n in (d["lengths"] or t["general"]["lengths"]) for w in [a.sample(self.rng, n)] if w), "")
        return t

    def world(self, n=36):
        ts = self.pick(n)
        self.codes(ts)
        for t in ts:
            self.types(t)
            self.prefixes(t)
            self.fmts(t)
            self.close(t)
        self.rng.shuffle(ts)
        return ts


# ------------------------------------------------------------ small plans

M_TYPES = ["[1-3]\\d{2}", "1\\d{1,2}", "[23]\\d", "(?:1|12)3", "3\\d|2\\d{2}", "12(?:3|1)?", "2[0-2]\\d{1,2}", "0\\d{2,3}", "[0-3]{4}", "1[1-3]\\d{0,2}", "3[0-3]{3}",
           "13|31", "(?:2|21)[12]{2}", "1{3}", "0?1\\d{2}", "[12]{2,4}", "3", "2\\d{1,3}", "[0-3]{2,5}", "[1-3]{1,4}", "11\\d|22\\d{2}"]
M_GENERAL = ["\\d{2,4}", "[1-3]\\d{1,3}", "[0-3]\\d{2,3}", "[12]\\d{1,2}|3\\d{3}", "(?:0?[1-3])\\d{2}", "\\d{3}", "[1-3]\\d{2,4}"]
M_FORMATS = [("(\\d)(\\d{2})", "$1 $2"), ("(\\d{2})(\\d{2})", "$1-$2"), ("(\\d)(\\d)(\\d)", "$1 $2 $3"), ("(\\d)(\\d)(\\d{1,2})", "$1/$2-$3"), ("(\\d{2})(\\d)", "$1 $2"),
             ("(\\d)(\\d{1,3})", "($1) $2"), ("(\\d{2,4})", "$1"), ("(\\d)(\\d)(\\d{2})", "$2 15-$3"), ("(\\d)(\\d)(\\d)(\\d)", "$1 $2 $3 $4"), ("(\\d{3})(\\d)", "$1.$2"),
             ("(\\d)(\\d{2})", " ($1) $2"), ("(\\d{2})(\\d+)", "\uff08$1\uff09 - $2"), ("(\\d)(\\d{2})", "- [$1]~$2.")]
M_LEADING = ["", "", "1", "[23]", "1[0-2]", "0", "12|3", "[1-3]"]
M_PREFIXES = [("", "", ""), ("0", "0", ""), ("1", "1", ""), ("3", "3", ""), ("0", "0(1|2)?", ""), ("0", "0?(?:(1)2)?", "3$1"), ("1", "1(\\d)", ""), ("0", "0|1", ""), ("1", "([23]\\d)$|1", "1$1"),
              ("0", "0(1)?(2)?", "$2"), ("2", "2|0(3)", ""), ("01", "0?1", ""), ("", "3?", ""), ("0", "00?", ""), ("0", "(?:0|31)(?:(1|2)(\\d{2}))?", "$2"), ("1~0", "10?", ""), ("0~2", "02", "")]
M_IDDS = ["0~0", "00", "0", "11", "0[12]", "1(?:0|1)", "00|2", "", "03?", "010"]
M_CODES = [1, 2, 21, 213, 3, 30, 301, 12, 39, 7, 54, 52, 55, 44, 110, 11]


def micro(seed):
    """six or so plans with numbers of two to four digits over 0123"""
    r = random.Random("micro/%s" % seed)

    def desc(p=None):
        return dict(copy.deepcopy(NONE)) if p is None else {"pattern": p, "example": "", "lengths": [], "local": []}

    n = r.choice([5, 6, 7])
    ids = r.sample(HOME, n - 1)
    codes = r.sample(M_CODES, n - 1) + [r.choice([800, 979, 8, 9])]
    ts = []
    for i, ident in enumerate(ids + ["001"]):
        cc = codes[i]
        if i in (2, 4) and r.random() < 0.8 and ident != "001":
            cc = codes[r.choice([0, 1])]    # a shared code
        if ident in ("US", "CA") and r.random() < 0.5:
            cc = 1
        t = {"id": ident, "cc": cc, "main": False, "leading": "", "idd": r.choice(M_IDDS), "prefidd": r.choice(["", "", "", "00", "0~0", "11"]), "extn": r.choice(EXTNS)}
        t["np"], t["npparse"], t["nptransform"] = r.choice(M_PREFIXES)
        for k in TYPES:
            t[k] = desc(r.choice(M_TYPES) if r.random() < (0.8 if k in ("fixedLine", "mobile") else 0.25) else None)
            if t[k]["pattern"]:
                ls = Dfa(t[k]["pattern"]).lengths(6)
                x = r.random()
                if len(ls) > 2 and r.random() < 0.5:
                    ls = [ls[0], ls[-1]]    # the pattern is not all there is to a number
                t[k]["lengths"] = ls if x < 0.7 else sorted(r.sample(ls, max(1, len(ls) - 1))) if x < 0.85 else sorted(set(ls + [r.randrange(1, 6)]))
                if r.random() < 0.3:
                    t[k]["local"] = [r.randrange(1, 5)]
        if r.random() < 0.25:
            t["mobile"] = copy.deepcopy(t["fixedLine"])
        t["general"] = dict(desc(r.choice(M_GENERAL)), example="")
        t["nf"] = []
        for p, f in r.sample(M_FORMATS, r.choice([0, 2, 3, 4])):
            ld = r.choice(M_LEADING)
            t["nf"].append({"pattern": p, "format": f, "leading": [ld] if ld else [], "nprule": r.choice(NPRULES).replace("8", "1"), "ccrule": r.choice(CCRULES)})
        t["intl"] = [dict(copy.deepcopy(f), nprule="", ccrule="", format=f["format"].replace("/", " ")) for f in t["nf"] if r.random() < 0.8] if r.random() < 0.4 else []
        ts.append(t)
    used = {}
    for t in ts:
        used.setdefault(t["cc"], []).append(t)
    for c, l in used.items():
        if len(l) > 1:
            r.choice(l)["main"] = True
            for t in l:
                if not t["main"] and r.random() < 0.5:
                    t["leading"] = r.choice(["1", "[23]", "12", "0"])
    s = Synth.__new__(Synth)
    s.rng = r
    return [s.close(t) for t in ts]


# ------------------------------------------------------------ all small configurations of one thing

class Family:
    """plans that differ in one respect each, every one with a code and regions of its own"""
    def __init__(self):
        self.plans, self.code, self.n = [], 100, 0
        self.close = Synth.__new__(Synth)
        self.close.rng = random.Random("family")

    def plan(self, types, general="\\d{1,6}", ident=None, cc=None, **more):
        t = {"id": ident or "%c%c" % (65 + self.n // 26, 65 + self.n % 26), "cc": cc or self.code, "main": False, "leading": "", "idd": "00", "prefidd": "",
             "extn": "", "np": "", "npparse": "", "nptransform": "", "nf": [], "intl": [], "same": False}
        for k in TYPES:
            t[k] = dict(copy.deepcopy(NONE))
        t["general"] = {"pattern": general, "example": "", "lengths": [], "local": []}
        for k, d in types.items():
            p, ls, lo = d if isinstance(d, tuple) else (d, None, [])
            t[k] = {"pattern": p, "example": "", "lengths": list(ls or Dfa(p).lengths(7)), "local": list(lo)}
        t.update(more)
        self.close.close(t)
        self.n += ident is None
        self.code += cc is None
        assert t["id"] != "ZZ" and self.code <= 1000
        self.plans.append(t)
        return t

    def done(self):
        assert len({t["id"] for t in self.plans if t["id"] != "001"}) == len([t for t in self.plans if t["id"] != "001"])
        return self.plans


def fmt(pattern, form, leading="", nprule="", ccrule=""):
    return {"pattern": pattern, "format": form, "leading": [leading] if leading else [], "nprule": nprule, "ccrule": ccrule}


FMTS = [fmt("(\\d)(\\d)(\\d{1,2})", "$1 $2-$3"), fmt("(\\d)(\\d)", "$1 $2")]


def precedence():
    """numbers of any two types at once, of all of them, and such as may not be dialled from abroad"""
    w = Family()
    ks = TYPES[:10]
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            w.plan({a: "1\\d{1,2}|2[12]", b: "[13]\\d{2}|2\\d", "noInternationalDialling": "[123]1\\d?"})
    for drop in range(11):
        w.plan({k: "1\\d|2\\d{2}" if n % 2 else "[12]\\d" for n, k in enumerate(ks) if n >= drop or n == 9}, general="[1-3]\\d{1,2}")
    for general in ("1\\d", "\\d{3}", "[23]\\d{1,2}"):
        for a in ks:
            # a pattern that accepts lengths in between the ones there are
            w.plan({a: ("[12]\\d{1,3}", [2, 4], []), "noInternationalDialling": ("[1-3]{1,4}", [1, 3], [])}, general=general + "|\\d{4}")
    return w.done()


PREFIXING = M_PREFIXES + [("0", "0|([23]\\d)$", "1$1"), ("3", "3(?:(1)|(2))?", "$2"), ("0", "0(1\\d)?", ""), ("00", "0{1,2}", ""), ("2~0", "20?", "")]


def prefixes(generals):
    """every kind of national prefix with several kinds of numbers"""
    w = Family()
    for np, parse, rule in PREFIXING:
        for g in generals:
            w.plan({"fixedLine": g, "mobile": ("3\\d{2}", [3], [2])}, general=g, np=np, npparse=parse, nptransform=rule, nf=copy.deepcopy(FMTS))
        # of no region: whoever calls it from nowhere has to be understood as well
        w.plan({"fixedLine": generals[0]}, general=generals[0], ident="001", np=np, npparse=parse, nptransform=rule)
    return w.done()


def rules():
    """every kind of rule for the national prefix with every kind for carriers"""
    w = Family()
    for x in dict.fromkeys(NPRULES):
        for y in dict.fromkeys(CCRULES):
            nf = [fmt("(\\d)(\\d)(\\d{1,2})", "$1 $2-$3", "1", x, y), fmt("(\\d)(\\d{1,3})", "$1/$2", "[02]", "", y), fmt("(\\d{2})(\\d)", "$2 $1", "", x, "")]
            n = w.n % 4
            w.plan({"fixedLine": "[0-2]\\d{1,3}", "mobile": "3\\d{2}"}, np="0" if n else "1", npparse="0(1\\d)?" if n > 1 else "0|1", nf=nf,
                   intl=[fmt("(\\d)(\\d{1,3})", "$1 $2", "[12]")] if n == 1 else [], extn=EXTNS[w.n % len(EXTNS)])
    return w.done()


PUNCT = ("-x\u2010\u2011\u2012\u2013\u2014\u2015\u2212\u30fc\uff0d\uff0e\uff0f \u00a0\u00ad\u200b\u2060\u3000()\uff08\uff09\uff3b\uff3d.[]/~\u2053\u223c"
         "X+*#,;:\u200c\u200d\uff5e_\u3001")     # the latter are none


def separators():
    """formats that begin, end and are divided with every separator, one or several, and with what is none"""
    w = Family()
    for i, c in enumerate(PUNCT):
        d = PUNCT[(i * 7 + 3) % len(PUNCT)]
        w.plan({"fixedLine": "[0-3]\\d{1,2}"}, np="0", npparse="0", extn=EXTNS[i % len(EXTNS)],
               nf=[fmt("(\\d)(\\d)(\\d)", "%s$1%s $2%s%s$3" % (c, c, c, d), "1"), fmt("(\\d)(\\d)(\\d)", "%s%s%s$1-$2 %s$3 %s" % (c, d, c, d, c), "[02]", "(0%s$1" % c),
                   fmt("(\\d)(\\d+)", "%s%s$1 $2%s" % (d, c, c), "3"), fmt("(\\d)(\\d)", "$1$2%s" % d)],
               intl=[fmt("(\\d)(\\d+)", " %s$1%s$2" % (c, d), "0")] if i % 3 == 0 else [])
    return w.done()


def originals():
    """national prefixes, the rules to write them, and texts with and without them"""
    w = Family()
    for np, parse, rule in [("0", "0", ""), ("1", "1", ""), ("0", "0|1", ""), ("0", "0(1|2)?", ""), ("1", "1?(?:(2)0)?", "2$1"), ("", "", ""), ("0", "", ""), ("", "0", ""), ("01", "01", ""), ("1~0", "10?", ""), ("0~1", "0", "")]:
        for x in dict.fromkeys(NPRULES + ["0$2", "$2 0$1", "$1 0$1", "0", "-$1", "0 - $1 1", "01$1"]):
            w.plan({"fixedLine": "[12]\\d{1,2}", "mobile": "0\\d{2}"}, np=np, npparse=parse, nptransform=rule,
                   nf=[fmt("(\\d)(\\d{2})", "$1 $2", "1", x), fmt("(\\d)(\\d{2})", "$1-$2", "2", ""), fmt("(\\d{2})", "$1", "", x), fmt("(\\d)(\\d{2})", "$1.$2", "0", x)][w.n % 2:])
    return w.done()


def dialling():
    """every kind of international prefix to call from"""
    w = Family()
    for idd in dict.fromkeys(IDDS):
        for pref in dict.fromkeys(PREFIDDS):
            w.plan({"fixedLine": "1\\d", "noInternationalDialling": "12"}, idd=idd, prefidd=pref, np="0", npparse="0", nf=copy.deepcopy(FMTS))
    return w.done()


def mobiles():
    """the regions with customs of their own for dialling from a mobile phone, and one without"""
    w = Family()
    codes = {"US": 1, "CA": 1, "MX": 52, "BR": 55, "CO": 57, "CL": 56, "HU": 36, "AR": 54, "IT": 39, "GB": 44, "CN": 86, "ID": 62, "UZ": 998, "AU": 61, "RU": 7, "KZ": 7}
    for n, (ident, cc) in enumerate(codes.items()):
        w.plan({"fixedLine": "[13]\\d{1,3}", "mobile": "[23]\\d{1,2}", "tollFree": "0\\d{2}", "noInternationalDialling": "\\d1\\d{0,2}"}, general="\\d{2,4}", ident=ident, cc=cc,
               main=ident in ("US", "RU"), leading="3|22" if ident in ("CA", "KZ") else "", np="0" if n % 4 else "06", npparse="0" if n % 4 else "06",
               nf=[fmt("(\\d)(\\d)(\\d{1,2})", "$1 $2-$3", "", "0$1" if n % 2 else "($1)", "0$CC $1" if n % 3 else ""), fmt("(\\d)(\\d)", "$1 $2")])
    w.plan({"tollFree": "[0-3]\\d{1,3}"}, ident="001", cc=800, nf=copy.deepcopy(FMTS))
    return w.done()


def sharing(seed):
    """regions that share a code: who has which numbers, and how one can tell"""
    w = Family()
    rng = random.Random("sharing/%s" % seed)
    kinds = [{"fixedLine": "1\\d"}, {"mobile": "[12]\\d"}, {"fixedLine": "1\\d{2}", "tollFree": "2\\d"}, {"premiumRate": "[1-3]{2}"}]
    leads = ["", "1", "2\\d", "[13]"]

    def group(rest):
        cc = w.code
        for n, (k, l) in enumerate(rest):
            w.plan(kinds[k], general="\\d{2,3}", cc=cc, main=n == main, leading=leads[l] if n != main else "", idd="00", np=["", "0"][n % 2], npparse=["", "0"][n % 2], nf=copy.deepcopy(FMTS))
        w.code += 1

    for a in range(4):
        for b in range(4):
            for l in range(4):
                main = (a + b + l) % 2
                group([(a, l), (b, l)])
    for _ in range(80):
        main = rng.randrange(3)
        group([(rng.randrange(4), rng.randrange(4)) for _ in range(3)])
    return w.done()


def areas():
    """the codes with area codes of their own sort, in regions with and without a national prefix"""
    w = Family()
    for cc in (52, 54, 55, 62, 86, 39, 379, 44):
        for n, (lead, np) in enumerate([("", "0"), ("2", ""), ("3", "8")]):
            w.plan({"fixedLine": "[1-3][01]\\d{2,3}", "mobile": "[1-3][12]\\d{2,3}", "tollFree": "[1-3]3\\d{2}", "pager": "0\\d{3}"}, general="\\d{4,5}", cc=cc, main=n == 0, leading=lead, np=np, npparse=np,
                   nf=[fmt("(\\d)(\\d{1,2})(\\d{2})", "$1 $2-$3", "[12]", "0$1"), fmt("(\\d{2})(\\d{2})", "$1 $2"), fmt("(\\d{2})(\\d)(\\d)(\\d)", "$1 $2 $3 $4", "3")],
                   intl=[fmt("(\\d{2})(\\d)(\\d{1,2})", "$1 $2 $3", "1")] if cc % 2 else [])
    return w.done()


def lengths():
    """plans for all small configurations of length lists"""
    ts = []
    code = 100
    for general in ([2], [2, 4], [3, 4, 5]):
        for fixed in ([], [-1], [2], [4], [2, 4], [3, 5]):
            for mobile in ([], [-1], [3], [2, 4], [5]):
                for lf, lm in (([], []), ([3], []), ([], [1]), ([1, 4], [3])):
                    t = {"id": "", "cc": code, "main": False, "leading": "", "idd": "00", "prefidd": "", "extn": "", "np": "", "npparse": "", "nptransform": "", "nf": [], "intl": [], "same": False}
                    for k in TYPES:
                        t[k] = dict(copy.deepcopy(NONE))
                    t["general"] = {"pattern": "\\d{1,6}", "example": "", "lengths": general, "local": sorted(set(lf + lm) - set(general))}
                    for k, l, lo in (("fixedLine", fixed, lf), ("mobile", mobile, lm)):
                        if l != [-1]:
                            t[k] = {"pattern": "\\d{1,6}", "example": "", "lengths": l, "local": [x for x in lo if x not in l]}
                    t["id"] = "%c%c" % (65 + (code // 26) % 26, 65 + code % 26)
                    ts.append(t)
                    code += 1
    assert code <= 1000 and len({t["id"] for t in ts}) == len(ts)
    return ts

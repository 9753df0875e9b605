"""Generation of calls, one generator per property: systematic over the plans (every
region, type, length, format, automaton transition), random in the rest. What a call
must give is decided by the specification, never here.

   python3 gen.py XML PROPERTY TIER SEED OUT.ndjson
"""
import json
import sys

import rx
import xmlmeta
from lib import (C, N, nat, ZEROS, PUNCT, SAFE_PUNCT, Dfa, Both, word, words, Plans, KEYPAD, LETTERS_OF,
                 FORMATS, API_TYPES, TYPE_NAMES)

HOOK_OPS = {"reasontype", "possiblestr", "match1", "match2", "bypattern", "prefcarrier", "types", "typesng",
            "codes", "codesng", "ndd", "exampleregtype", "exampleng", "plan"}

STRANGE = ["ZZ", "", "001", "us", "XX", "USA", "U", "\u00e9\u00e9", "GB ", "UN001", "AQ", "\U0001F1E9\U0001F1EA", "01", "00"]


def F(pattern, format, leading=(), np="", cc=""):
    return {"pattern": pattern, "format": format, "leading": list(leading), "nprule": np, "ccrule": cc}


USER_FORMATS = [
    F(r"(\d{3})(\d{3})(\d{4})", "($1) $2-$3"),
    F(r"(\d{3})(\d{3})(\d{4})", "$1 $2-$3", np="$NP ($FG)"),
    F(r"(\d{3})(\d{3})(\d{4})", "$1 $2-$3", np="$NP$FG"),
    F(r"(\d{2})(\d{5})(\d{3})", "$1-$2 $3"),
    F(r"(\d{4})(\d{3})(\d{3})", "$1 $2 $3", ["[2-9]"], "$NP$FG"),
    F(r"(\d{3})(\d{3,4})(\d{4})", "$1.$2.$3", ["[1-5]"], "($NP)$FG"),
    F(r"(\d)(\d{8})", "$1 - $2", [], "$FG"),
    F(r"(\d{1,4})(\d{4})", "$1/$2"),
    F(r"(\d+)", "$1", [], "$NP $FG"),
    F(r"(\d{2})(\d{2})(\d{2})(\d{2})", "$1 $2 $3 $4", ["[3-8]"]),
    F(r"(\d{2})(\d+)", "$2 $1", ["0|1[2-8]"]),
    F(r"(\d{2})(\d{8})", "$1 $2 $1"),
    F(r"(\d{3})(\d{7})", "$1  [$2]", [], "$NP-$FG x"),
    F(r"(\d{2})(\d{3,})", "$1 $2", [], "($FG)"),
    F(r"(\d{3})(\d{4,})", "$1-$2", [], "0$FG"),
    F(r"(\d{2})(\d{2,})", "$2/$1", [], "$NP ($FG)"),
    F(r"(\d)(\d{3})(\d{3,4})", "9$3 $1-$2", ["[2-7]"], "$FG-$NP"),
]

# labels of extensions: text, most digits
EXT_LABELS = [
    (";ext=", 20),
    (" ext. ", 20), ("ext", 20), (" extn ", 20), (" ext:", 20), ("xt", 20), ("xtn", 20), (" extension ", 20),
    ("extensio", 20), ("extensi\u00f3n", 20), (" extensi\u00f3 ", 20), ("extensio\u0301n", 20), ("extensio\u0301", 20),
    ("\uff45\uff58\uff54\uff4e", 20), ("\uff58\uff54", 20), ("\uff45\uff58\uff54", 20), ("\uff58\uff54\uff4e", 20),
    ("\u0434\u043e\u0431", 20), (" \u0434\u043e\u0431. ", 20), ("anexo", 20), (" anexo ", 20),
    ("x", 9), (" x ", 9), ("\uff58", 9), ("#", 9), (" # ", 9), ("\uff03", 9), ("~", 9), ("\uff5e", 9), ("int", 9), (" int. ", 9),
    ("\uff49\uff4e\uff54", 9), ("x:", 9), ("x.", 9),
    (",,", 15), (";", 15), (" ;", 15), (",, ", 15), (",,-", 15), (",", 9), (" , ", 9), (",,,", 9), (", ", 9),
    ("-", 6), (" - ", 6), (" ", 6), ("--", 6),
    # not labels
    ("y", 0), ("+", 0), ("*", 0), ("ex", 0), ("ektension", 0), ("/", 0), (":", 0), ("..", 0), ("ext;", 0), ("innt", 0),
    ("\u0434\u043e", 0), ("anex", 0), (";ext", 0), (";EXT=", 20), (";Ext=", 20),
]


class Gen(Plans):
    def __init__(self, terrs, prop, tier, seed):
        super().__init__(terrs, seed, prop)
        self.prop, self.tier, self.calls = prop, tier, []

    def add(self, op, j=None, **k):
        for x in ("n", "m"):
            if x in k and isinstance(k[x], dict):
                pass
        for x in ("s", "x", "c", "s2"):
            if x in k and isinstance(k[x], str):
                k[x] = C(k[x])
        if "ss" in k:
            k["ss"] = [C(s) if isinstance(s, str) else s for s in k["ss"]]
        k.update(op=op, j=j or self.prop)
        self.calls.append(k)

    # ---- parts
    def anyregion(self, t=None):
        r = self.rng.random()
        if t is not None and t["id"] != "001" and r < 0.5:
            return t["id"]
        if r < 0.85:
            return self.region()
        return self.rng.choice(STRANGE)

    def ext(self, most=20):
        n = self.rng.choice([1, 1, 2, 3, 4, 4, 5, 6, 7, 9, 15, 20])
        return self.digits(min(n, most))

    def samples(self, per=1, plans=None):
        """(plan, type, national significant number) for every plan, type and length"""
        for t in plans or self.all:
            for k in self.types(t):
                d = Dfa(t[k]["pattern"])
                for n in self.lens(t, k):
                    for _ in range(per):
                        w = d.sample(self.rng, n)
                        if w:
                            yield t, k, w

    def format_samples(self, per=1, plans=None):
        """(plan, format, number that the format is for), valid ones where possible"""
        for t in plans or self.all:
            for f in t["nf"] + t["intl"]:
                b = Both(f["leading"][-1] if f["leading"] else "", f["pattern"])
                g = Dfa(t["general"]["pattern"])
                ls = b.p.lengths(17)
                for n in ls[:6]:
                    for _ in range(per):
                        w = None
                        for _ in range(8):
                            x = b.sample(self.rng, n)
                            if x is None:
                                break
                            w = x
                            if g.accepts(x):
                                break
                        if w:
                            yield t, f, w

    def junk(self, n):
        """a number with arbitrary optional fields"""
        r = self.rng
        n = dict(n)
        if r.random() < 0.4:
            n.update(hext=True, ext=C(r.choice(["", "1", "0", "123", self.ext()])))
        if r.random() < 0.3:
            n.update(ilz=r.random() < 0.7, nlz=r.choice([0, 1, 1, 2, 3]))
        if r.random() < 0.5:
            raw = r.choice(["", "+1 650 253 0000", "0650-253", "1-800-FLOWERS", "(0)20 7031x44", "".join(map(chr, n["nn"])),
                            "+" + str(abs(n["cc"])) + " " + "".join(map(chr, n["nn"]))])
            n.update(hraw=True, raw=C(raw))
        if r.random() < 0.5:
            n["src"] = r.choice(["UNSPECIFIED", "PLUS", "IDD", "NOPLUS", "DEFAULT"])
        if r.random() < 0.3:
            n.update(hpdcc=True, pdcc=C(r.choice(["", "15", "31", "1", "0800", "A2"])))
        return n

    def anynumber(self):
        r = self.rng
        t = r.choice(self.all)
        w = self.some_valid(t)
        for _ in range(r.choice([0, 0, 1, 2])):
            w = self.mutate(w)
        w = w[:18] or "0"
        cc = t["cc"] if r.random() < 0.9 else r.choice([0, 2, 999, 1000, 210, 384, -1, 12345])
        return nat(cc, w)

    def idds(self, t, most=2):
        return words(self.rng, t["idd"], most) if t["idd"] else []

    def nps(self, t, most=2):
        out = [t["np"]] if t["np"] and t["np"].isdigit() else []
        if t["npparse"]:
            out += [w for w in words(self.rng, t["npparse"], most) if w]
        return out

    def notations(self, t, w, full=False):
        """texts (with a default region) that denote, or nearly denote, number w of plan t"""
        r = self.rng
        cc, own = str(t["cc"]), t["id"] if t["id"] != "001" else r.choice(self.regions)
        other = r.choice(self.geo)
        same = r.choice(self.by_code[t["cc"]])["id"]
        same = own if same == "001" else same
        nps = self.nps(t)
        out = [("+" + cc + w, self.anyregion(t)), (w, own), (cc + w, own)]
        for p in nps:
            out += [(p + w, own), ("+" + cc + p + w, self.anyregion(t)), (cc + p + w, own)]
            if r.random() < 0.5:
                k = r.randrange(1, len(w)) if len(w) > 1 else 1
                out.append((p + w[k:], own))
            if r.random() < 0.3:
                out.append((p + p + w, own))
        home = self.by.get(own) or other
        for i in self.idds(home):
            out.append((i + cc + w, own))
            if r.random() < 0.3:
                out.append((i + "0" + cc + w, own))
                out.append((i + r.choice(nps or ["0"]) + w, own))
        for i in self.idds(other, 1):
            out.append((i + cc + w, other["id"]))
            if nps:
                out.append((i + cc + r.choice(nps) + w, other["id"]))
        out += [(w, same), (w, other["id"]), ("0" + w, own), (cc + w, other["id"])]
        x = r.randrange(9)
        if x == 0:
            out.append(("++" + cc + w, own))
        elif x == 1:
            out.append(("\uff0b" + cc + w, own))
        elif x == 2:
            out.append((w, r.choice(STRANGE)))
            out.append(("+" + cc + w, r.choice(STRANGE)))
        elif x == 3:
            out.append(("+" + w, own))
        elif x == 4:
            out.append(("00" + w, own))
        elif x == 5:
            out.append(("+0" + cc + w, own))
        elif x == 6:
            out.append((w[:r.randrange(1, 5)], own))
            out.append(("+" + cc + w[:r.randrange(0, 4)], own))
        elif x == 7:
            out.append((w + self.digits(r.randrange(1, 9)), own))
            out.append(("+" + cc + w + self.digits(r.randrange(1, 9)), own))
        else:
            out.append((self.mutate(w), own))
            out.append((cc + self.mutate(w), own))
        return out

    def viable(self, t, most=24):
        """numbers as the plan accepts them, of any length, that begin with what may be a prefix"""
        if not t["npparse"]:
            return []
        r, g, out = self.rng, Dfa(t["general"]["pattern"]), []
        for p in words(r, t["npparse"], most) + [t["np"]]:
            q = g.run(p)
            ns = [n for n in range(17 - len(p)) if q and g.alive(n)[q]]
            out += [p + g.complete(r, q, n) for n in r.sample(ns, min(4, len(ns)))]
        return [w for w in out if w]

    # ---- properties
    def c01(self):
        r = self.rng

        def one(t, w, f, ext=None):
            n = nat(t["cc"], w, ext)
            r2 = t["id"] if f == "NATL" and t["id"] != "001" else self.anyregion(t)
            self.add("chain", **{"from": "n"}, n=n, f=f, r2=r2)
        for t, k, w in self.samples(2):
            for f in FORMATS:
                one(t, w, f, self.ext() if r.random() < 0.35 else None)
        for t, f, w in self.format_samples(1):
            for fm in r.sample(FORMATS, 2):
                one(t, w, fm, self.ext(9) if r.random() < 0.25 else None)
        # numbers near to other notations: beginning like prefixes, codes, zeros
        for t in self.all:
            g = Dfa(t["general"]["pattern"])
            for p in set(self.nps(t, 6) + [str(t["cc"]), "0", "00", "1", "8"]):
                q = g.run(p)
                for n in r.sample(self.lens(t, "general"), min(3, len(self.lens(t, "general")))):
                    c = g.complete(r, q, n - len(p)) if n > len(p) else None
                    if c is not None:
                        for f in FORMATS:
                            one(t, p + c, f)
            for w in self.viable(t, 12):
                one(t, w, r.choice(FORMATS))

    def c02(self):
        r = self.rng
        for t, k, w in self.samples(1):
            ns = self.notations(t, w)
            for s, reg in r.sample(ns, min(len(ns), 12)):
                if r.random() < 0.15:
                    s = self.spaced(s)
                self.add("parse", s=s, r=reg)
        # national prefixes, carriers and transforms in front of numbers of every length
        for t in self.geo:
            if not t["npparse"]:
                continue
            for p in words(r, t["npparse"], 12):
                for n in range(0, 14):
                    if r.random() < 0.35:
                        self.add("parse", s=p + self.digits(n), r=t["id"])
                w = self.some_valid(t)
                self.add("parse", s=p + w, r=t["id"])
                self.add("parse", s="+%d%s%s" % (t["cc"], p, w), r=self.region())
            for w in self.viable(t):
                self.add("parse", s=r.choice(["", "", "+%d" % t["cc"], str(t["cc"])]) + w, r=t["id"])
        # international prefixes
        for t in self.geo:
            for i in self.idds(t, 4):
                for _ in range(2):
                    o = r.choice(self.all)
                    w = self.some_valid(o)
                    for s in (i + str(o["cc"]) + w, i + " " + str(o["cc"]) + w, i, i + self.digits(r.randrange(1, 6)),
                              i + "0" + w, i + i + str(o["cc"]) + w, i[:-1] + str(o["cc"]) + w):
                        if r.random() < 0.6:
                            self.add("parse", s=s, r=t["id"])
                # a plus in front of an international prefix; the region may be unknown
                o = r.choice(self.all)
                w = self.some_valid(o)
                for reg in (t["id"], r.choice(STRANGE), self.region()):
                    self.add("parse", s=r.choice(["+", "++", "\uff0b"]) + r.choice([i, i, "00", "011", "0"]) + str(o["cc"]) + w, r=reg)
        # every prefix as a calling code
        for c in range(1000):
            self.add("parse", s="+%d%s" % (c, self.digits(r.choice([6, 8, 9, 10]))), r=self.anyregion())
            self.add("parse", s="+%d" % c, r=self.anyregion())
            if c % 3 == 0:
                self.add("parse", s="%d%s" % (c, self.digits(r.choice([7, 9, 10, 11]))), r=self.region())
        # lengths
        for t in self.geo:
            for n in list(range(1, 22)):
                if r.random() < 0.5:
                    z = "0" * r.choice([0, 0, 1, 2, 5])
                    self.add("parse", s=r.choice(["", "+%d" % t["cc"], str(t["cc"]), t["np"]]) + z + self.digits(n), r=t["id"])
        # not numbers, shapes
        for s in self.shapes():
            self.add("parse", s=s, r=self.anyregion())

    def shapes(self):
        r = self.rng
        out = ["", "1", "12", "123", "+", "++", "+1", "+12", "-", "()", "#", "*", "(1", "(12", "1-2", "1*2*3", "*123", "*1*2*3", "+*123",
               "12x", "+ 1 2 3", "(+)123", "1)2)3", "\u200b123", "12\u2060345678", "1.2.3", "ABC", "1ABC", "12ABC", "123A", "abc123",
               "+abc", "0", "00", "000", "0000", "+0", "+00", "+000123", "1 2", "12 ", " 12", "1x2", "123x", "x123", "123;", "123,",
               "123~45", "1/2/3", "123/ x45", "123 /x 45\n678/x", "123\n456", "12\n3456", "123\n/ x", "tel:", "tel:12", "tel:123",
               ";phone-context=", "123;phone-context=+1", "123;phone-context=", "123;isub=4", ";isub=123", "12;isub=3", "123456;isub=",
               "1\u00b2\u00b3", "\u2460\u2461\u2462123", "\u0661\u0662\u0663", "a1b2c3", "1a2b3c", "+1a2b3c", "123\u017f", "123\u212a", "123\u017f\u212ak"]
        alpha = "0123456789" * 3 + "+-() .x/#*;,~" + "AZaz" + "\uff0b\uff11\u0660\u200b\u2010\uff0d\u00a0\u00ad"
        for _ in range(600):
            out.append("".join(r.choice(alpha) for _ in range(r.choice([2, 3, 4, 5, 6, 8, 12]))))
        return out

    def c03(self):
        r = self.rng
        pieces = ["+", "++", "\uff0b", "00", "011", "0", "1", "44", "+44", "650", "2530000", "tel:", "TEL:", ";phone-context=", ";ext=", ";isub=",
                  "+1", "example.com", ";", ",", "=", "x", "ext", " ext. ", "#", "~", "/", "\\", "/ x", "*", "(", ")", "[", "]", "-", ".", " ",
                  "\n", "\t", "\u00a0", "\u200b", "\u2060", "\u3000", "\u0660\u0661\u0662", "\uff10\uff19", "\U0001D7CE\U0001D7D7", "\u00b2", "\u2460",
                  "\u00e9", "e\u0301", "\u4e00", "\U0001F600", "\u0130", "\u00df", "\u017f", "\u212a", "\u1e9e", "\ufb03", "abc", "DEF", "\u0434\u043e\u0431",
                  "\x00", "\u007f", "$1", "${0}", "$", "\\d", "(?i)", "\U0010ffff", "\ue000", "\ud7ff", "0" * 20, "9" * 25, "anexo", "int"]

        def text():
            x = r.randrange(12)
            if x == 0:
                return r.choice(pieces) * r.choice([50, 125, 126, 249, 250, 251, 252, 300])
            if x == 1:
                return "".join(r.choice(pieces) for _ in range(r.choice([60, 200])))
            if x == 2:
                t = r.choice(self.all)
                s, _ = r.choice(self.notations(t, self.some_valid(t)))
                i = r.randrange(len(s) + 1)
                return s[:i] + r.choice(pieces) + s[i:]
            if x == 3:
                return "".join(chr(r.choice([r.randrange(0x20, 0x7f), r.randrange(0xa0, 0x800), r.randrange(0x800, 0xd800),
                                             r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)])) for _ in range(r.randrange(1, 12)))
            return "".join(r.choice(pieces) for _ in range(r.randrange(1, 9)))

        def number():
            cc = r.choice([0, 1, 7, 39, 44, 49, 52, 54, 55, 86, 800, 979, 999, 1000, -1, -2147483648, 2147483647, r.choice(self.codes), r.choice(self.codes), r.choice(self.codes)])
            nn = r.choice(["0", "1", "12", "123", "1234567", "18446744073709551615", "10000000000000000000", "9" * 19, self.digits(r.randrange(1, 18)).lstrip("0") or "0",
                           self.some_valid(r.choice(self.all)).lstrip("0") or "0"])
            n = N(cc, nn)
            if r.random() < 0.5:
                n.update(hext=True, ext=C(r.choice(["", "1", text()[:300], self.digits(r.randrange(1, 30))])))
            if r.random() < 0.4:
                n.update(ilz=r.random() < 0.7, nlz=r.choice([-2147483648, -1, 0, 1, 2, 3, 5, 17, 100, 250]))
            if r.random() < 0.6:
                n.update(hraw=True, raw=C(text()))
            if r.random() < 0.6:
                n["src"] = r.choice(["UNSPECIFIED", "PLUS", "IDD", "NOPLUS", "DEFAULT"])
            if r.random() < 0.3:
                n.update(hpdcc=True, pdcc=C(r.choice(["", "15", "$1", "$", text()[:40]])))
            return n

        def region():
            return r.choice(STRANGE + ["\x00", "\n", "GB\u0301", "\U0001F600" * 3, "A" * 300]) if r.random() < 0.2 else self.region()
        n_ops = ["original", "carrier", "mobile", "ooc", "keepalpha", "nsn", "type", "region", "valid", "validfor", "possible", "reason", "intl",
                 "geo", "arealen", "ndclen", "truncate", "prefcarrier"]
        for _ in range(9000):
            self.add(r.choice(["parse", "parse", "parsekeep", "alpha", "convert", "possiblestr"]), s=text(), r=region())
        # very long texts: a piece over and over before or behind a number
        for p in pieces:
            for front in (False, True):
                for t in ("", r.choice(["123", "+1 650 253 0000", "1-800-FLOWERS", "tel:+1650", "650 253 0000 ext. 12"])):
                    op = r.choice(["parse", "parsekeep", "alpha", "convert", "origchain", "alphachain"])
                    self.add(op, s=t, pad=[p, 30000 // len(p), front], r=self.region(), r2=self.region())
            t = r.choice(self.all)
            self.add(r.choice(["original", "keepalpha", "mobile", "match"]), n=nat(t["cc"], self.some_valid(t), src=r.choice(["PLUS", "IDD", "NOPLUS", "DEFAULT"])),
                     m=number(), s=r.choice(["", "123"]), pad=[p, 30000 // len(p), r.random() < 0.5], r=self.region(), b=r.random() < 0.5)
        for _ in range(4000):
            self.add("origchain" if r.random() < 0.5 else "alphachain", s=text(), r=region(), r2=region())
        for op in n_ops:
            for _ in range(700):
                self.add(op, n=number(), r=region(), b=r.random() < 0.5, c=C(r.choice(["", "1", "15", "\uff11", "\u00e9", "A", text()[:30]])))
        for f in FORMATS:
            for _ in range(900):
                self.add("format", n=number(), f=f)
        for _ in range(1200):
            self.add("match", n=number(), m=number())
            self.add("match1", n=number(), s=text())
            self.add("match2", s=text(), s2=text())
            self.add("reasontype", n=number(), t=r.choice(API_TYPES))
        for i in [-2147483648, -1, 0, 1, 2, 999, 1000, 2147483647] + self.codes:
            for op in ("ccregion", "ccregions", "exampleng", "typesng"):
                self.add(op, i=i)
        for reg in STRANGE + ["\x00", "A" * 300] + self.regions:
            for op in ("example", "invexample", "regioncc", "nanpa", "types"):
                self.add(op, r=reg)
            self.add("ndd", r=reg, b=True)
            self.add("exampleregtype", r=reg, t=r.choice(API_TYPES))
        for t in API_TYPES:
            self.add("exampletype", t=t)
        for _ in range(1500):
            self.add("bypattern", **self.userfmt(number()))

    def userfmt(self, n):
        u = self.rng.sample(range(len(USER_FORMATS)), self.rng.randrange(0, 4))
        return dict(n=n, f=self.rng.choice(FORMATS), u=[i + 1 for i in u], fs=[USER_FORMATS[i] for i in u])

    def membership(self, one, dead):
        for t in self.all:
            for k in ["general"] + self.types(t):
                d = Dfa(t[k]["pattern"])
                for w in d.edges(self.rng, self.lens(t, k), dead):
                    if w and len(w) <= 17:
                        one(t, k, w)

    def c04(self):
        r = self.rng
        def one(t, k, w):
            n = nat(t["cc"], w)
            x = r.random()
            if x < 0.65:
                self.add("validfor", n=n, r=t["id"])
            if x > 0.5:
                self.add("valid", n=n)
            if x < 0.08:
                self.add("validfor", n=n, r=r.choice(self.by_code[t["cc"]])["id"])
            if 0.2 < x < 0.26:
                self.add("validfor", n=n, r=self.anyregion())
            if 0.3 < x < 0.42 or 0.6 < x < 0.7:
                v = r.choice([w + self.digits(1), w[:-1], w + self.digits(2), w[1:], "0" + w, w + w[:3]])
                if 1 <= len(v) <= 17:
                    self.add("validfor", n=nat(t["cc"], v), r=t["id"])
            if x < 0.02:
                self.add("valid", n=dict(n, cc=r.choice([0, 999, 2, -1, 1000])))
            if 0.02 < x < 0.06:
                self.add("valid", n=self.junk(n))
            if 0.1 < x < 0.14:
                self.add("possible", n=n)
        self.membership(one, 0.25)

    def c05(self):
        r = self.rng
        def one(t, k, w):
            n = nat(t["cc"], w)
            x = r.random()
            self.add("type", n=n)
            if x < 0.06 or t["noInternationalDialling"]["pattern"]:
                self.add("intl", n=n)
            if 0.2 < x < 0.24:
                self.add("type", n=self.junk(n))
            if 0.3 < x < 0.4:
                v = r.choice([w + self.digits(1), w[:-1], "0" + w])
                if 1 <= len(v) <= 17:
                    self.add("type", n=nat(t["cc"], v))
        self.membership(one, 0.2)
        for t in self.all:
            p = t["noInternationalDialling"]["pattern"]
            if p:
                ls = self.lens(t, "noInternationalDialling") + [n for n in self.lens(t, "general")]
                for w in Dfa(p).edges(r, ls, 1.0):
                    if w:
                        self.add("intl", n=nat(t["cc"], w))
            # numbers in two type patterns
            ks = self.types(t)
            for a in ks:
                for b in ks:
                    if a != b:
                        da, db = Dfa(t[a]["pattern"]), Dfa(t[b]["pattern"])
                        for n in set(self.lens(t, a)) & set(self.lens(t, b)):
                            for _ in range(3):
                                w = da.sample(r, n)
                                if w and db.accepts(w):
                                    self.add("type", n=nat(t["cc"], w))

    def c06(self):
        r = self.rng
        for t in self.all:
            shared = len(self.by_code[t["cc"]]) > 1
            if t["leading"]:
                for w in Dfa(t["leading"]).edges(r, range(1, 8), 1.0):
                    for _ in range(3):
                        for n in r.sample(self.lens(t, "general"), min(2, len(self.lens(t, "general")))):
                            if n >= len(w):
                                self.add("region", n=nat(t["cc"], w + self.digits(n - len(w))))
            for k in ["general"] + self.types(t):
                d = Dfa(t[k]["pattern"])
                for w in d.edges(r, self.lens(t, k), 0.3 if shared else 0.0):
                    if w and len(w) <= 17 and (shared or r.random() < 0.06):
                        n = nat(t["cc"], w)
                        self.add("region", n=self.junk(n) if r.random() < 0.03 else n)
                        if r.random() < 0.05:
                            self.add("region", n=nat(r.choice(self.codes), w))
        for c in range(-20, 1120):
            self.add("ccregion", i=c)
            self.add("ccregions", i=c)
            self.add("region", n=N(c, "1234567"))
        for c in (2147483647, -2147483647, 65537, 4097, 1 << 20):
            self.add("ccregion", i=c)
            self.add("ccregions", i=c)
        allr = self.regions + STRANGE + [x.lower() for x in self.regions[:20]] + [a + b for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" for b in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
        for reg in allr:
            self.add("regioncc", r=reg)
            self.add("nanpa", r=reg)
        self.add("regions")
        self.add("codes")
        self.add("codesng")
        for reg in self.regions + STRANGE:
            for b in (True, False):
                self.add("ndd", r=reg, b=b)

    def c07(self):
        r = self.rng
        for cc in self.codes + [0, 2, 999, -1, 1000, 210]:
            for n in range(1, 23):
                z = max(0, n - 19) + r.choice([0, 0, 0, 1, 2])
                z = min(z, n - 1) if n > 1 else 0
                body = r.choice("123456789") + self.digits(n - z - 1)
                if z == 0 and n == 20:
                    body = "1" + body[1:]
                x = N(cc, body, ilz=z > 0, nlz=max(z, 1))
                self.add("reason", n=x)
                self.add("possible", n=self.junk(x) if r.random() < 0.1 else x)
                ts = API_TYPES if self.tier == "thorough" or cc in (1, 39, 44, 49, 54) else r.sample(API_TYPES, 8)
                for t in ts:
                    self.add("reasontype", n=x, t=t)
            self.add("reason", n=N(cc, "0"))
            for d in (1, 2, 3):
                self.add("reason", n=N(cc, "123456", ilz=False, nlz=d))
                self.add("reason", n=N(cc, "123456", ilz=True, nlz=0))
        for t, k, w in self.samples(1):
            if r.random() < 0.4:
                s, reg = r.choice(self.notations(t, w))
                self.add("possiblestr", s=s, r=reg)

    def c08(self):
        r = self.rng
        def one(t, w, f=None, ext=0.2):
            n = nat(t["cc"], w, r.choice([self.ext(), "", "12345678901234567890123"]) if r.random() < ext else None)
            self.add("format", n=n, f=f or r.choice(FORMATS))
        for t in self.all:
            for f in t["nf"] + t["intl"]:
                p = Dfa(f["pattern"])
                ls = p.lengths(17)
                if f["leading"]:
                    for w in Dfa(f["leading"][-1]).edges(r, range(1, 10), 0.5):
                        o = [n for n in ls if n >= len(w) and p.alive(n - len(w))[p.run(w)]]
                        if o:
                            n = r.choice(o)
                            one(t, w + p.complete(r, p.run(w), n - len(w)), r.choice(["NATL", "INTL", "INTL", "NATL", "RFC"]), 0.05)
        for t, f, w in self.format_samples(2):
            for fm in FORMATS:
                one(t, w, fm)
        for t, k, w in self.samples(1):
            one(t, w, r.choice(["INTL", "NATL", "RFC"]))
            if r.random() < 0.3:
                v = self.mutate(self.mutate(w))
                if 1 <= len(v) <= 17:
                    one(t, v)
            if r.random() < 0.15:
                self.add("format", n=self.junk(nat(t["cc"], w)), f=r.choice(FORMATS))
            if r.random() < 0.2:
                self.add("bypattern", **self.userfmt(self.junk(nat(t["cc"], w)) if r.random() < 0.2 else nat(t["cc"], w)))
            if r.random() < 0.05:
                self.add("nsn", n=nat(t["cc"], "0" * r.randrange(0, 5) + w))
            if r.random() < 0.05:
                self.add("format", n=nat(r.choice([0, 2, 999, 1000, -5, 210]), w), f=r.choice(FORMATS))
            if r.random() < 0.05:
                self.add("format", n=N(t["cc"], "0", hraw=True, raw=C(r.choice(["", "+800 6015", "  x", "911\u0661"])), ilz=r.random() < .5), f=r.choice(FORMATS))
        # user formats of numbers of any plan, with and without a national prefix
        fits = [(i, Dfa(f["pattern"]), f) for i, f in enumerate(USER_FORMATS)]
        for t in self.all:
            for i, d, f in fits:
                for _ in range(2):
                    w = self.some_valid(t)
                    if not d.accepts(w):
                        w = d.sample(r, r.choice(d.lengths(17)[:8]))
                    if f["leading"] and r.random() < 0.8:
                        q = Both(f["leading"][-1], f["pattern"])
                        w = q.sample(r, len(w)) or w
                    u = [i] if r.random() < 0.7 else [r.randrange(len(fits)), i]
                    n = nat(t["cc"], w, self.ext() if r.random() < 0.15 else None)
                    self.add("bypattern", n=n, f=r.choice(["NATL", "NATL", "INTL", "RFC", "E164"]), u=[x + 1 for x in u], fs=[USER_FORMATS[x] for x in u])
        for c in self.codes:
            for z in (0, 1, 2, 3, 7, 120):
                for f in FORMATS:
                    self.add("format", n=N(c, self.digits(r.randrange(1, 12)).lstrip("0") or "0", ilz=z > 0, nlz=max(z, 1)), f=f)

    def c09(self):
        r = self.rng

        def variants(t, n):
            w = "".join(map(chr, n["nn"]))
            k = r.randrange(16)
            m = dict(n)
            if k == 0:
                m.update(hext=True, ext=C(r.choice(["", "1", "123", "0", "01"])))
            elif k == 1:
                m.update(hraw=True, raw=C(w), src=r.choice(["PLUS", "IDD", "DEFAULT", "NOPLUS", "UNSPECIFIED"]))
            elif k == 2:
                m.update(hpdcc=True, pdcc=C("15"))
            elif k == 3:
                m["cc"] = 0
            elif k == 4:
                m["cc"] = r.choice(self.codes)
            elif k == 5:
                m["nn"] = C(w[1:].lstrip("0") or "0")
            elif k == 6:
                m["nn"] = C(r.choice("123456789") + w)
            elif k == 7:
                m["nn"] = C(self.mutate(w).lstrip("0")[:17] or "0")
            elif k == 8:
                m.update(ilz=not n["ilz"])
            elif k == 9:
                m.update(ilz=True, nlz=r.choice([1, 2, 3]))
            elif k == 10:
                m.update(nlz=r.choice([0, 2, 5]))
            elif k == 11:
                m["nn"] = C(w[-r.randrange(1, len(w) + 1):].lstrip("0") or "0")
            elif k == 12:
                m["nn"] = C(w[:-1] or "0")
            elif k == 13:
                m["nn"] = C("0")
            elif k == 14:
                m.update(hext=False, ext=[])
            return m
        for t in self.all:
            for _ in range(14):
                n = nat(t["cc"], self.some_valid(t), self.ext() if r.random() < 0.3 else None)
                for _ in range(r.choice([0, 0, 1])):
                    n = variants(t, n)
                m = variants(t, n)
                for _ in range(r.choice([0, 0, 1, 2])):
                    m = variants(t, m)
                self.add("matchboth", n=n, m=m)
                self.add("match", n=n, m=variants(t, m))
            n = nat(t["cc"], self.some_valid(t))
            w = "".join(map(chr, n["nn"]))
            for _ in range(6):
                s, _x = r.choice(self.notations(t, self.some_valid(t) if r.random() < 0.3 else "0" * (n["nlz"] if n["ilz"] else 0) + w))
                s += r.choice(["", "", "", " ext. 12", "x3", ";ext=12"])
                self.add("match1", n=r.choice([n, variants(t, n)]), s=s)
                s2, _x = r.choice(self.notations(t, w))
                self.add("match2", s=s, s2=r.choice([s, s2, s2, s2 + " ext. 12", w]))
        # national numbers up to the largest 64-bit one
        big = ["18446744073709551615", "18446744073709551614", "10000000000000000000", "9999999999999999999", "8446744073709551615", "1", "5", "15", "0", "10", "0000"]
        for a in big:
            for b in big:
                for c, d in ((1, 1), (0, 44), (7, 0), (0, 0), (44, 1)):
                    self.add("matchboth", n=N(c, a.lstrip("0") or "0"), m=N(d, b.lstrip("0") or "0", ilz=b == "0000", nlz=3 if b == "0000" else 1))
        # every two numbers of a grid
        cc = str(r.choice(self.codes))
        w = "".join(r.choice("123456789") for _ in range(r.choice([3, 7, 8])))
        grid = [N(c, n, ilz=z, nlz=k, hext=x is not None, ext=C(x or ""))
                for c in (0, int(cc), r.choice([c for c in self.codes if str(c) != cc] + [999]))
                for n in (w, w[1:], w[0] + w, cc + w, r.choice(["0", "1", w[:-1]]))
                for z, k in ((False, 1), (True, 1), (True, 2), r.choice([(False, 2), (True, 0)]))
                for x in (None, "", r.choice(["1", "12"]), r.choice(["01", "012"]))]
        grid = r.sample(grid, len(grid) if self.tier == "thorough" else 120 if len(self.all) > 100 else 50)
        for i, n in enumerate(grid):
            for m in grid[:i + 1]:
                self.add("matchboth", n=n, m=m)
        texts = [p + t + x for p in ("", "+", "+" + cc, cc, "0", "00" + cc, "tel:+" + cc + "-", "(0)") for t in (w, w[1:], "0" + w)
                 for x in ("", " x1", " ext. 01", ";ext=12")]
        texts += [w + ";phone-context=+" + cc, "tel:" + w + ";phone-context=+" + cc + ";ext=1", w + ";phone-context=a.b", ""]
        texts = r.sample(texts, len(texts) if self.tier == "thorough" else 50 if len(self.all) > 100 else 25)
        for s in texts:
            for s2 in texts:
                self.add("match2", s=s, s2=s2)
            for n in r.sample(grid, 30):
                self.add("match1", n=n, s=s)
        # one text without a region
        for _ in range(1500):
            t = r.choice(self.all)
            w = self.some_valid(t)
            cc = str(t["cc"])
            ss = ["+" + cc + w, cc + w, w, "00" + cc + w, "011" + cc + w, "+00" + cc + w, "+0" + w, "0" + w, w[-7:], "tel:" + w, "tel:+" + cc + "-" + w,
                  "tel:" + w[2:] + ";phone-context=+" + cc + w[:2], self.spaced(w), self.spaced("+" + cc + w), w + "x1", "+" + cc + w + " ext 1", w + ";ext=1", cc + "0" + w]
            self.add("match2", s=r.choice(ss), s2=r.choice(ss))
            n = nat(r.choice([t["cc"], t["cc"], 0, 999]), w, r.choice([None, None, "1", "2", ""]))
            self.add("match1", n=n, s=r.choice(ss))
        for _ in range(300):
            self.add("match2", s=r.choice(self.shapes()), s2=r.choice(["+16502530000", "6502530000", "12", "+999123456"]))

    def dial_numbers(self, per):
        r = self.rng
        for t in self.all:
            ks = self.types(t) or ["general"]
            for _ in range(per):
                k = r.choice(ks)
                w = self.of_type(t, k) or "12345"
                yield t, nat(t["cc"], w, self.ext() if r.random() < 0.25 else None)
            if t["noInternationalDialling"]["pattern"]:
                for _ in range(per):
                    w = self.of_type(t, "noInternationalDialling")
                    if w:
                        yield t, nat(t["cc"], w)
            w = self.mutate(self.some_valid(t))
            if 1 <= len(w) <= 17:
                yield t, nat(t["cc"], w)

    def c10(self):
        r = self.rng
        special = [self.by[x] for x in self.by if x in ("US", "CA", "BS", "BR", "CO", "MX", "CL", "UZ", "HU", "AU", "UY", "IT", "RU", "KZ", "GB", "GG", "AR", "CN", "IN", "SG", "NZ")]
        def both(n, reg):
            self.add("ooc", n=n, r=reg)
            self.add("mobile", n=n, r=reg, b=True)
            self.add("mobile", n=n, r=reg, b=False)
        for t, n in self.dial_numbers(6):
            regs = {t["id"], r.choice(self.by_code[t["cc"]])["id"], self.region()}
            if r.random() < 0.15:
                regs.add(r.choice(STRANGE))
            for reg in regs:
                both(n, reg)
            if r.random() < 0.1:
                both(self.junk(n), r.choice(list(regs)))
            if r.random() < 0.05:
                both(self.junk(dict(n, cc=r.choice([0, 2, 999, -1]))), r.choice(list(regs)))
            if r.random() < 0.05:
                both(N(t["cc"], "0", hraw=True, raw=C(r.choice(["+80012", "0", "a1b", "\u0661\u0662"])), hext=True, ext=C("7")), r.choice(list(regs)))
        for t in special + [r.choice(self.ng or self.geo)]:
            for k in self.types(t):
                for _ in range(4):
                    w = self.of_type(t, k)
                    if not w:
                        continue
                    n = nat(t["cc"], w)
                    if r.random() < 0.3:
                        n.update(hpdcc=True, pdcc=C(r.choice(["", "15", "12", "31"])))
                    for reg in {t["id"], r.choice(special)["id"], r.choice(self.by_code.get(1) or special)["id"]}:
                        both(n, reg)
        n = [nat(39, "0236618300"), nat(44, "7912345678"), nat(1, "6502530000"), nat(61, "236618300", "99"), nat(800, "12345678")]
        for reg in self.regions:
            self.add("ooc", n=r.choice(n), r=reg)
            self.add("mobile", n=r.choice(n), r=reg, b=r.random() < 0.5)
            self.add("ooc", n=n[3], r=reg)

    def dialled(self, t, w):
        """a text for w as it may have been typed: notation, separators, extension, letters"""
        r = self.rng
        s, reg = r.choice(self.notations(t, w))
        x = r.random()
        if x < 0.45:
            s = self.spaced(s, [0x20, 0x2d, 0x2e, 0x2f, 0x28, 0x29, 0x2010, 0xa0], 0.25)
        elif x < 0.5:
            s = self.spaced(s)
        x = r.random()
        if x < 0.15:
            s += r.choice([" ext. ", "x", ";ext=", " #", ",,"]) + self.ext(9)
        elif x < 0.2:
            s = self.script(s)
        elif x < 0.25:
            s += "*" if x < 0.23 else "*1"
        return s, reg

    def c11(self):
        r = self.rng
        for t, k, w in self.samples(1):
            for _ in range(4):
                s, reg = self.dialled(t, w)
                r2 = r.choice([reg, reg, reg, self.anyregion(t)])
                self.add("origchain", s=s, r=reg, r2=r2)
        for t, f, w in self.format_samples(1):
            if r.random() < 0.6:
                s, reg = r.choice(self.notations(t, w))
                self.add("origchain", s=s, r=reg, r2=r.choice([reg, reg, self.anyregion(t)]))
        # exactly as the plan formats it, with and without national prefix, letters
        for t in self.geo:
            for _ in range(3):
                w = self.some_valid(t)
                np = t["np"] if t["np"].isdigit() else ""
                i = r.randrange(1, max(2, len(w)))
                for s in (np + w, np + " " + w[:i] + "-" + w[i:], "(%s)%s" % (np + w[:i], w[i:]) if len(np + w[:i]) < 6 else w,
                          "".join(r.choice(LETTERS_OF[c]) if c in LETTERS_OF and x > 3 else c for x, c in enumerate(np + w))):
                    self.add("origchain", s=s, r=t["id"], r2=t["id"])
                n = self.junk(nat(t["cc"], w))
                self.add("original", n=n, r=self.anyregion(t))
                m = dict(n, hraw=True, raw=C(r.choice([np + w, w, "+%d%s" % (t["cc"], w), "%d%s" % (t["cc"], w), w[:-1], "+" + w, ""])),
                         src=r.choice(["PLUS", "IDD", "NOPLUS", "DEFAULT", "UNSPECIFIED"]))
                self.add("original", n=m, r=self.anyregion(t))
        for _ in range(300):
            n = self.junk(self.anynumber())
            self.add("original", n=n, r=self.anyregion())

    def c12(self):
        r = self.rng
        for t, k, w in self.samples(2):
            for _ in range(2):
                x = r.randrange(8)
                v = w + (self.digits(r.randrange(1, 7)) if x < 5 else "" if x == 5 else r.choice("0123456789") * r.randrange(1, 5) if x == 6 else w[:4])
                if r.random() < 0.15:
                    v = self.mutate(v)
                v = v[:19] or "1"
                n = nat(t["cc"], v)
                if r.random() < 0.2:
                    n = self.junk(n)
                    if not n["ilz"] and v.startswith("0"):
                        n["ilz"] = True
                self.add("truncate", n=n)
        for t in self.all:
            ls = self.lens(t, "general")
            for n in range(1, max(ls) + 3):
                if n <= 19:
                    self.add("truncate", n=nat(t["cc"], r.choice("123456789") + self.digits(n - 1)))
            self.add("truncate", n=N(t["cc"], "0"))
            self.add("truncate", n=N(t["cc"], self.some_valid(t).lstrip("0")[:15] + "00", ilz=True, nlz=r.choice([0, 1, 2])))
        for c in (0, 2, 999, 1000, -1):
            self.add("truncate", n=N(c, "12345678901"))

    def c13(self):
        r = self.rng
        seps = ["", " ", "  ", "\u00a0", "\t", ",", "-", ".", ":", "\uff0e", ". ", ": ", " - "]

        def case(l):
            x = r.random()
            return l.upper() if x < 0.2 else "".join(c.upper() if r.random() < 0.5 else c for c in l) if x < 0.35 else l
        bases = []
        for t in self.all:
            for _ in range(2):
                w = self.some_valid(t)
                bases += r.sample(self.notations(t, w), 3)
        for label, cap in EXT_LABELS:
            for n in sorted({1, 2, 3, 5, 6, 7, 8, 9, 10, 14, 15, 16, 19, 20, 21, 22}):
                for end in (("", "#") if r.random() < 0.4 or cap == 6 else ("",)):
                    for _ in range(6 if cap else 2):
                        s, reg = r.choice(bases)
                        pre, post = (r.choice(seps), r.choice(seps)) if r.random() < 0.4 else ("", "")
                        d = self.digits(n)
                        if r.random() < 0.08:
                            d = self.script(d)
                        if r.random() < 0.05:
                            d = "0" * n
                        self.add("ext", s=s, x=pre + case(label) + post + d + end, r=reg)
        # hardly anything before the extension
        for label, cap in EXT_LABELS:
            for head in ("", "5", "*5", "5*", "(5", "5 ", "12", "1 2", "1*2", "12*", "+1", "+12", "+1 2", "123", "1 2 3", "+44", "tel:5", "tel:12", "0", "00"):
                for n in (1, 2, 3, 4, 6, 7, 9, 10):
                    if r.random() < 0.3:
                        self.add("ext", s=head, x=r.choice(["", " ", "  "]) + case(label) + r.choice(["", " "]) + self.digits(n) + r.choice(["", "", "#"]), r=r.choice(["US", "GB", "DE", "IT"]))
        # several extensions, text after, nothing before, short bases
        for _ in range(2500):
            s, reg = r.choice(bases)
            l1, l2 = r.choice(EXT_LABELS)[0], r.choice(EXT_LABELS)[0]
            x = r.randrange(6)
            if x == 0:
                s, e = s, l1 + self.ext(9) + l2 + self.ext(9)
            elif x == 1:
                s, e = s[:r.randrange(0, 4)], l1 + self.ext(9)
            elif x == 2:
                e = l1 + self.ext(9) + r.choice([" ", ".", "a", " foo", "##", "#1", ")", "\n"])
            elif x == 3:
                e = l1
            elif x == 4:
                e = l1 + l2 + self.ext(9)
            else:
                s, e = self.spaced(s), l1 + self.ext(9)
            self.add("ext", s=s, x=e, r=reg)

    def c14(self):
        r = self.rng
        bases = []
        for t in self.all:
            for _ in range(3):
                bases += r.sample(self.notations(t, self.some_valid(t)), 2)
        # every script
        for z in ZEROS:
            for _ in range(8):
                s, reg = r.choice(bases)
                self.add("same", ss=[s, self.script(s, z), "".join(self.script(c, r.choice(ZEROS)) for c in s)], r=reg)
                self.add("same", ss=[s + ";ext=1290", self.script(s + ";ext=1290", z)], r=reg)
        # plus signs
        for s, reg in bases:
            if s.startswith("+"):
                self.add("same", ss=[s, "\uff0b" + s[1:], "+\uff0b" + s[1:], "++" + s[1:]], r=reg)
        # separators: each one in every kind of place
        for p in PUNCT:
            for _ in range(25):
                s, reg = r.choice(bases)
                if len(s) < 5:
                    continue
                i = r.randrange(3, len(s))
                v = s[:i] + chr(p) + s[i:]
                self.add("same", ss=[s, v, self.spaced(s, [p], 0.3)], r=reg)
        for s, reg in bases:
            self.add("same", ss=[s, self.spaced(s), self.spaced(s)], r=reg)
        # letters
        for _ in range(2500):
            s, reg = r.choice(bases)
            idx = [i for i, c in enumerate(s) if c in LETTERS_OF and i >= 3]
            if len(idx) < 3:
                continue
            pick = set(r.sample(idx, r.randrange(3, len(idx) + 1)))
            v = "".join(r.choice(LETTERS_OF[c]) if i in pick else c for i, c in enumerate(s))
            self.add("same", ss=[s, v, v.lower(), "".join(c.lower() if r.random() < 0.5 else c for c in v)], r=reg)
            self.add("convert", s=self.spaced(v))
            self.add("alpha", s=r.choice([v, v + " ext. 12", self.spaced(v), v[:6], s + r.choice([" ext 123", "x12", "AB", "ABC", " abc", "x123ABC"])]))
        # surroundings
        before = ["", " ", "Tel. ", "(", "[", "\u00bb ", "a", "abc: ", "\u260e", "\n", "x", ".", "/", "Fax-", "\u4e2d\u6587", "--", "#", "*"]
        after = ["", " ", ".", ")", "]", " (", "\n", ",", "!", "\u3002", "-", " /", "\u00ab", "\u200b", ";"]
        for _ in range(3000):
            s, reg = r.choice(bases)
            self.add("same", ss=[s, r.choice(before) + s, s + r.choice(after), r.choice(before) + s + r.choice(after)], r=reg)
        # all of Unicode, one character at a time, in conversion, viability and normalization
        special = [0x17f, 0x212a, 0x131, 0x130, 0xdf, 0x1e9e, 0xff21, 0xff41, 0xff3a, 0xff5a, 0x410, 0x391, 0x1d400, 0x2160, 0xb2, 0xbd, 0x2460, 0x24b6, 0x1f130, 0xe9, 0xaa]
        cps = special + [r.randrange(0x80, 0x3000) for _ in range(400)] + list(range(0, 0x180)) + PUNCT
        import unicodedata
        for c in cps:
            ch = chr(c)
            if c >= 0x80 and unicodedata.category(ch) == "Cn":
                continue
            self.add("convert", s="1" + ch + "a" + ch)
            self.add("alpha", s="123456" + ch + "abc")
            self.add("alpha", s="1800" + ch + "ab")
            self.add("parse", s="+1 650" + ch + "2530000", r="US")
            self.add("parse", s=ch + "650 253 0000" + ch, r="US")
        for s in self.shapes():
            self.add("alpha", s=s)
            self.add("convert", s=s)
            self.add("parse", s=s, r="US")

    def c16(self):
        r = self.rng
        good = ["+1", "+44", "+64", "+1-650", "+(44)", "+49.30", "+1-", "+\u0661", "+99", "+999", "+0", "example.com", "a", "a.b.c", "x1", "www.phone.com",
                "1a.b", "a-b.c-d", "example.com.", "A.B", "a1", "\u0661.a", "3phone.J4."]
        bad = ["", "+", "+-", "-", "1", "1.2", "a_b", "a..b", ".a", "a-", "-a", "a.1", "+a", "+1a", "64", "+1 2", " +1", "+1 ", "++1", "a b", "\u00e9", "a.-b", "example.com..", "+1;", "a.b-", "www.\u00e9.com"]
        for t in self.all:
            for _ in range(5):
                w = self.some_valid(t)
                np = r.choice(self.nps(t, 1) or [""])
                loc = r.choice([w, np + w, "+%d%s" % (t["cc"], w), self.spaced(w, [45, 46, 40, 41]), w[:4], w[2:], self.spaced(np + w, [45])])
                ctx = r.choice(good + ["+%d" % t["cc"]] * 8 + ["+%d" % self.rng.choice(self.codes)] * 3) if r.random() < 0.75 else r.choice(bad)
                parts = [";phone-context=" + ctx]
                if r.random() < 0.3:
                    parts.append(";ext=" + self.ext(22))
                if r.random() < 0.25:
                    parts.append(";isub=" + r.choice(["", "1", "12345", "+", ";"]))
                if r.random() < 0.2:
                    parts.append(";" + r.choice(["a=b", "x", "phone-context=+1", "ext=5", "a%2Db", "tel:1", "isub", "ISUB=1"]))
                if r.random() < 0.1:
                    parts.append(";isub=" + r.choice(["", "7", "1;ext=3"]))
                if r.random() < 0.08:
                    parts.append(";ext=" + self.ext(9))
                if r.random() < 0.15:
                    parts.append(r.choice(["tel:", " x", "tel:+1"]))
                if r.random() < 0.5:
                    r.shuffle(parts)
                if r.random() < 0.15:
                    parts.pop(r.randrange(len(parts)))
                pre = r.choice(["tel:", "tel:", "tel:", "", "TEL:", "xtel:", " tel:", "tel:tel:", "call tel:", "tel: "])
                self.add("parse", s=pre + loc + "".join(parts), r=self.anyregion(t))
                if r.random() < 0.5:
                    self.add("parse", s=pre + "+%d-%s%s" % (t["cc"], self.spaced(w, [45, 46]), "".join(parts[1:])), r=self.anyregion(t))
                n = nat(t["cc"], w if r.random() < 0.8 else self.mutate(w)[:17] or "1", self.ext() if r.random() < 0.5 else None)
                self.add("format", n=n, f="RFC")
                self.add("chain", **{"from": "n"}, n=n, f="RFC", r2=self.anyregion(t))
            for c in good + bad:
                if r.random() < 0.12:
                    self.add("parse", s="tel:" + self.some_valid(t)[-7:] + ";phone-context=" + c, r=self.anyregion(t))
        for t, f, w in self.format_samples(1):
            n = nat(t["cc"], w, self.ext() if r.random() < 0.3 else None)
            self.add("format", n=n, f="RFC")
            if r.random() < 0.3:
                self.add("chain", **{"from": "n"}, n=n, f="RFC", r2=self.anyregion(t))
        for c in (good + bad) * 3:
            for x in ("", ";ext=7", ";isub=1", ";phone-context=+1", ";a"):
                self.add("parse", s="tel:033316005" + ";phone-context=" + c + x, r=r.choice(["NZ", "ZZ", "US", "GB"]))
        tails = [";isub=1", ";isub=", ";ext=7", ";isub=1;isub=2", ";isub=2;ext=3", ";ext=3;isub=2", ";ext=3;ext=4", ";a=b", ";isub=1;a=b", ";a=b;isub=1", ";ISUB=1", ";isub", ";isub=;isub=;isub=9",
                 ";isub=12345678;isub=1;ext=1", ";ext=123456789012345678901", ";ext=;isub=1"]
        for x in tails:
            for y in tails + [""]:
                for _ in range(2):
                    t = r.choice(self.geo)
                    w = self.some_valid(t)
                    s, reg = r.choice([("tel:+%d-%s" % (t["cc"], w), self.anyregion(t)), ("tel:" + w, t["id"]), (w, t["id"])])
                    c = r.choice(["", "", ";phone-context=+%d" % t["cc"], ";phone-context=a.b"])
                    self.add("parse", s=s + r.choice([x + y + c, x + c + y, c + x + y]), r=reg)

    def c17(self):
        r = self.rng
        for t, k, w in self.samples(1):
            for _ in range(3):
                s, reg = self.dialled(t, w)
                self.add("keep2", s=s, r=reg)
        for t in self.geo:
            for p in words(r, t["npparse"], 10) if t["npparse"] else []:
                for w in (self.some_valid(t), self.some_valid(t), self.digits(r.randrange(3, 12))):
                    self.add("keep2", s=r.choice(["", "", "+%d" % t["cc"], str(t["cc"])]) + p + w, r=t["id"])
            for w in self.viable(t):
                self.add("keep2", s=r.choice(["", "", "+%d" % t["cc"], str(t["cc"])]) + w, r=t["id"])
        for s in self.shapes():
            self.add("keep2", s=s, r=self.anyregion())

    def c18(self):
        r = self.rng
        ops = ["arealen", "ndclen", "geo"]
        for t, k, w in self.samples(3):
            n = nat(t["cc"], w, self.ext() if r.random() < 0.35 else None)
            for op in ops if k in ("fixedLine", "mobile") else [r.choice(ops)]:
                self.add(op, n=n)
            if r.random() < 0.05:
                self.add(r.choice(ops), n=self.junk(n))
            if r.random() < 0.05:
                v = self.mutate(w)
                if 1 <= len(v) <= 17:
                    self.add(r.choice(ops), n=nat(t["cc"], v))
        for t, f, w in self.format_samples(2):
            self.add("arealen", n=nat(t["cc"], w))
            self.add("ndclen", n=nat(t["cc"], w, self.ext() if r.random() < 0.3 else None))
        for c in [0, 2, 999, -1, 1000] + self.codes:
            for op in ops:
                self.add(op, n=N(c, "12345678"))
                self.add(op, n=N(c, "12345678", hext=True, ext=C("99"), ilz=True, nlz=2))
        for s in ["+1 650 253", "1 2 3", "11 222 3333 44444", "\u0661\u0661 \u0662\u0662\u0662 3", "", "abc", "1\u06612 3\u00e94 5"]:
            for cc in (1, 54, 44, 0):
                for op in ops:
                    self.add(op, n=N(cc, "0", hraw=True, raw=C(s)))

    def c19(self):
        r = self.rng
        carriers = ["", "15", "1", "31", "016", "0", "A1", "x", "12345", "\uff11"]
        for t, f, w in self.format_samples(2):
            n = nat(t["cc"], w, self.ext() if r.random() < 0.2 else None)
            has = any(x["ccrule"] for x in t["nf"])
            if has or r.random() < 0.3:
                self.add("carrier", n=n, c=r.choice(carriers))
            if has or r.random() < 0.08:
                h = r.random() < 0.7
                self.add("prefcarrier", n=dict(n, hpdcc=h, pdcc=C(r.choice(["", "15", "23"])) if h else []), c=r.choice(carriers))
                n2 = dict(n)
                if not r.randrange(4):
                    n2 = self.junk(n2)
                self.add("carrier", n=n2, c=r.choice(carriers))
        for cc in (0, 2, 999):
            self.add("carrier", n=N(cc, "123456789", hext=True, ext=C("5")), c="15")
        # letters
        def vanity(s, lo=3):
            idx = [i for i, c in enumerate(s) if c in LETTERS_OF and i >= lo]
            k = r.randrange(0, len(idx) + 1)
            pick = set(r.sample(idx, k)) if r.random() < 0.5 else set(idx[-k:] if k else [])
            return "".join(r.choice([str.upper, str.lower])(r.choice(LETTERS_OF[c])) if i in pick else c for i, c in enumerate(s))
        # those that are kept (as plain ones), and some that are not
        seps = [0x20, 0x2d, 0x2e, 0x2f, 0xff0d, 0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2015, 0x2212, 0x2060, 0x3000, 0xff0e, 0xff0f] + \
            [0x28, 0x29, 0xa0, 0x30fc, 0x200b, 0xad, 0x5b]
        for t in self.all:
            for _ in range(14):
                w = self.some_valid(t)
                s, reg = r.choice(self.notations(t, w))
                s = self.spaced(vanity(s, r.choice([2, 3, 5])), seps, 0.2)
                if r.random() < 0.2:
                    s += r.choice([" ext. 12", "x123", ";ext=1", " #4"])
                r2 = r.choice([reg, t["id"], self.region(), self.region(), r.choice(self.by_code[t["cc"]])["id"], self.anyregion()])
                self.add("alphachain", s=s, r=reg, r2=r2)
            for _ in range(4):
                w = self.some_valid(t)
                raw = r.choice([w, "+%d %s" % (t["cc"], w), t["np"] + w, "%d%s" % (t["cc"], w), "00%d %s" % (t["cc"], w), w[:3], w[3:], "", w + "x5", w + " ext. 12"])
                n = nat(t["cc"], w, r.choice([None, None, "5", "12", ""]), hraw=True, raw=C(self.spaced(vanity(raw, 0), seps, 0.15)))
                self.add("keepalpha", n=n, r=r.choice([t["id"], self.region(), r.choice(self.by_code[t["cc"]])["id"], self.anyregion()]))
            w = self.some_valid(t)
            self.add("keepalpha", n=nat(t["cc"], w, r.choice([None, "5"])), r=self.anyregion(t))
        for reg in self.regions:
            for cc, w, raw in ((1, "8003567000", "1 800 FLO-WERS"), (61, "236618300", "0236 618-3OO"), (39, "0236618300", "02.3661.ABCD")):
                self.add("keepalpha", n=nat(cc, w, r.choice([None, "1234"]), hraw=True, raw=C(raw)), r=reg)
        for _ in range(300):
            self.add("keepalpha", n=self.junk(self.anynumber()), r=self.anyregion())

    def c20(self):
        for t in self.all:
            self.add("plan", i=t["cc"], r=t["id"])
            for k in ["general"] + xmlmeta.TYPES:
                x = t[k]["example"]
                if x:
                    self.add("valid", n=nat(t["cc"], x))
                    self.add("type", n=nat(t["cc"], x))
                    self.add("validfor", n=nat(t["cc"], x), r=t["id"])
        for c in list(range(-2, 1001)):
            self.add("plan", i=c, r="001")
            self.add("exampleng", i=c)
            self.add("typesng", i=c)
        for reg in self.regions + STRANGE:
            self.add("example", r=reg)
            self.add("invexample", r=reg)
            self.add("types", r=reg)
            for t in API_TYPES:
                self.add("exampleregtype", r=reg, t=t)
            if reg in STRANGE and reg != "001":
                self.add("plan", i=1, r=reg)
        for t in API_TYPES:
            for _ in range(20):
                self.add("exampletype", t=t)
        self.add("regions")
        self.add("codes")
        self.add("codesng")

    # ---- histories
    def neighbour(self, w, t):
        """a number of another plan with the code of t, as long as possible like w"""
        r = self.rng
        o = r.choice(self.by_code[t["cc"]])
        k = r.choice(self.types(o) or ["general"])
        d = Dfa(o[k]["pattern"])
        for p in range(min(6, len(w) - 1), -1, -1):
            q = d.run(w[:p])
            for n in [len(w)] + r.sample(self.lens(o, k), min(2, len(self.lens(o, k)))):
                if n > p:
                    c = d.complete(r, q, n - p)
                    if c is not None:
                        return w[:p] + c
        return w

    def confusable(self, c):
        """a call that differs from c in one respect"""
        r = self.rng
        c = json.loads(json.dumps(c))
        xs = [k for k in ("n", "m", "s", "r", "r2", "f", "b", "t", "i", "op") if k in c]
        k = r.choice(xs + ["n"] * (3 if "n" in xs else 0) + ["s"] * (3 if "s" in xs else 0) + ["r"] * ("r" in xs))
        if k in ("n", "m"):
            n = c[k]
            w = "".join(map(chr, n["nn"]))
            x = r.randrange(9)
            ts = self.by_code.get(n["cc"]) or self.all
            if x <= 3:
                w2 = self.neighbour("0" * (n["nlz"] if n["ilz"] else 0) + w, r.choice(ts))
                n.update({q: v for q, v in nat(n["cc"], w2).items() if q in ("nn", "ilz", "nlz")})
            elif x == 4:
                n["nn"] = C(w[:-1] + r.choice("0123456789"))
            elif x == 5:
                i = r.randrange(len(w))
                n["nn"] = C((w[:i] + r.choice("123456789") + w[i + 1:])[:18])
            elif x == 6:
                n["cc"] = r.choice(self.codes)
            elif x == 7:
                n.update(ilz=not n["ilz"], nlz=r.choice([1, 2]))
            else:
                n.update(hext=not n["hext"], ext=[] if n["hext"] else C("7"))
        elif k == "s":
            w = c["s"]
            x = r.randrange(5)
            i = r.randrange(len(w)) if w else 0
            if x == 0 and w:
                w[-1] = ord(r.choice("0123456789"))
            elif x == 1 and w:
                w[i] = ord(r.choice("0123456789 -"))
            elif x == 2:
                w[i:i] = [ord(r.choice("0123456789 "))]
            elif x == 3 and w:
                del w[i]
            else:
                w += C(r.choice([" ", "1", "x1", " ext. 12", "a"]))
        elif k in ("r", "r2"):
            t = self.by.get(c[k])
            c[k] = r.choice(self.by_code[t["cc"]])["id"] if t and r.random() < 0.5 else self.anyregion()
        elif k == "f":
            c["f"] = r.choice(FORMATS)
        elif k == "b":
            c["b"] = not c["b"]
        elif k == "t":
            c["t"] = r.choice(API_TYPES)
        elif k == "i":
            c["i"] += r.choice([-1, 1, 10])
        elif c["op"] in ("parse", "keep2", "parsekeep"):
            c["op"] = r.choice(["parse", "keep2", "parsekeep", "alpha", "convert"])
        elif c["op"] in ("valid", "type", "region", "geo", "possible", "reason", "intl", "nsn", "arealen", "ndclen", "truncate"):
            c["op"] = r.choice(["valid", "type", "region", "geo", "possible", "reason", "intl", "nsn", "arealen", "ndclen", "truncate"])
        return c

    def crowded(self, n):
        """calls about numbers of codes with several regions"""
        r = self.rng
        codes = [c for c, ts in self.by_code.items() if len(ts) > 1]
        for _ in range(n):
            t = r.choice(self.by_code[r.choice(codes)])
            w = self.some_valid(t)
            x = nat(t["cc"], w)
            op = r.choice(["region", "region", "valid", "validfor", "type", "geo", "arealen", "ooc", "mobile", "original", "intl"])
            if op in ("validfor", "ooc", "original"):
                self.add(op, n=x, r=r.choice(self.by_code[t["cc"]])["id"])
            elif op == "mobile":
                self.add(op, n=x, r=r.choice(self.by_code[t["cc"]])["id"], b=r.random() < 0.5)
            else:
                self.add(op, n=x)
        return self.calls

    def everywhere(self):
        """calls that come by every pattern of every plan"""
        for t, k, w in self.samples(1):
            self.add("type", n=nat(t["cc"], w))
            self.add("validfor", n=nat(t["cc"], w), r=t["id"])
        for t, f, w in self.format_samples(1):
            self.add("format", n=nat(t["cc"], w), f="NATL")
            self.add("format", n=nat(t["cc"], w), f="INTL")
        for t in self.all:
            for p in [""] + self.nps(t) + self.idds(t):
                self.add("parse", s=p + self.some_valid(t), r=t["id"])
        return self.calls

    def run(self):
        getattr(self, self.prop.lower())()
        return self.calls


def write(calls, path):
    with open(path, "w") as f:
        for c in calls:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")


if __name__ == "__main__":
    xml, prop, tier, seed, out = sys.argv[1:6]
    g = Gen(xmlmeta.load(xml), prop, tier, int(seed))
    write(g.run(), out)

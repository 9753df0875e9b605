"""Export of a metadata world for the TLA+ side: patterns become syntax trees
(spec/Rx.tla) and digit automata, text becomes sequences of code points."""
import json
import sys
import unicodedata

import rx
import xmlmeta


def cps(s):
    return [ord(c) for c in s]


def ranges(pred):
    out, lo = [], None
    for c in range(0x110000):
        if pred(chr(c)) if not 0xD800 <= c < 0xE000 else False:
            if lo is None:
                lo = c
        elif lo is not None:
            out.append([lo, c - 1])
            lo = None
    return out


def unicode_tables():
    nd = [c for c in range(0x110000) if unicodedata.category(chr(c)) == "Nd"]
    zeros = [c for c in nd if unicodedata.decimal(chr(c)) == 0]
    assert sorted(z + i for z in zeros for i in range(10)) == nd
    return {"zeros": zeros,
            "n": ranges(lambda c: unicodedata.category(c)[0] == "N"),
            "l": ranges(lambda c: unicodedata.category(c)[0] == "L")}


class World:
    def __init__(self):
        self.dfas, self.dix = [], {}
        self.rxs, self.rix = [], {}

    def dfa(self, p):
        """index from 1, 0 for no pattern"""
        if p == "":
            return 0
        if p not in self.dix:
            t, a = rx.dfa(p)
            self.dfas.append({"t": [x for row in t for x in row], "a": [int(x) for x in a]})
            self.dix[p] = len(self.dfas)
        return self.dix[p]

    def rx(self, p):
        if p not in self.rix:
            n = rx.parse(p)
            self.rxs.append({"n": n, "g": rx.groups(n)})
            self.rix[p] = len(self.rxs)
        return self.rix[p]

    def desc(self, d):
        return {"p": self.dfa(d["pattern"]), "l": d["lengths"], "lo": d["local"], "ex": cps(d["example"])}

    def fmt(self, f):
        return {"p": self.rx(f["pattern"]), "pd": self.dfa(f["pattern"]),
                "ld": self.dfa(f["leading"][-1]) if f["leading"] else 0,
                "f": cps(f["format"]), "np": cps(f["nprule"]), "cc": cps(f["ccrule"])}

    def terr(self, t):
        o = {"id": t["id"], "cc": t["cc"], "leading": self.dfa(t["leading"]),
             "idd": self.rx(t["idd"]), "iddtext": cps(t["idd"]), "prefidd": cps(t["prefidd"]),
             "np": cps(t["np"]), "npparse": self.rx(t["npparse"]) if t["npparse"] else 0,
             "nptransform": cps(t["nptransform"]), "extn": cps(t["extn"]),
             "main": t["main"], "same": t["same"], "general": self.desc(t["general"]),
             "nf": [self.fmt(f) for f in t["nf"]], "intl": [self.fmt(f) for f in t["intl"]]}
        for k in xmlmeta.TYPES:
            o[k] = self.desc(t[k])
        return o


def export(terrs, out, extra_formats=(), raw=False):
    w = World()
    md = [dict(w.terr(t), raw=t) if raw else w.terr(t) for t in terrs]
    ef = [w.fmt(f) for f in extra_formats]
    json.dump({"md": md, "dfa": w.dfas, "rx": w.rxs, "uf": ef, "uni": unicode_tables()},
              open(out, "w"), separators=(",", ":"))
    return w


if __name__ == "__main__":
    export(xmlmeta.load(sys.argv[1]), sys.argv[2])

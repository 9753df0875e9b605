"""Sampling of numbers and texts from the numbering plans. All randomness comes from
one seeded generator; the plans are those of the XML, never the compiled ones."""
import random
import unicodedata

import rx
import xmlmeta

TYPE_NAMES = {"fixedLine": "FixedLine", "mobile": "Mobile", "tollFree": "TollFree",
              "premiumRate": "PremiumRate", "sharedCost": "SharedCost", "voip": "VoIP",
              "personalNumber": "PersonalNumber", "pager": "Pager", "uan": "UAN", "voicemail": "VoiceMail"}
API_TYPES = list(TYPE_NAMES.values()) + ["FixedLineOrMobile", "Unknown"]
FORMATS = ["E164", "INTL", "NATL", "RFC"]
ZEROS = [c for c in range(0x110000) if unicodedata.category(chr(c)) == "Nd" and unicodedata.decimal(chr(c)) == 0]
PUNCT = [0x2D, 0x78] + list(range(0x2010, 0x2016)) + [0x2212, 0x30FC, 0xFF0D, 0xFF0E, 0xFF0F, 0x20, 0xA0, 0xAD,
         0x200B, 0x2060, 0x3000, 0x28, 0x29, 0xFF08, 0xFF09, 0xFF3B, 0xFF3D, 0x2E, 0x5B, 0x5D, 0x2F, 0x7E, 0x2053, 0x223C]
# punctuation that cannot be taken for the beginning of an extension or a second number
SAFE_PUNCT = [c for c in PUNCT if c not in (0x78, 0x7E, 0x2F)]


def C(s):
    return [ord(c) for c in s]


def N(cc, nn, **k):
    d = dict(cc=cc, nn=C(nn), hext=False, ext=[], ilz=False, nlz=1, hraw=False, raw=[],
             src="NONE", hpdcc=False, pdcc=[])
    d.update(k)
    return d


def nat(cc, nsn, ext=None, **k):
    """the number whose national significant number is nsn"""
    z = len(nsn) - len(nsn.lstrip("0"))
    if z == len(nsn):
        z -= 1
    d = N(cc, nsn[z:] if nsn else "0", ilz=z > 0, nlz=max(z, 1), **k)
    if ext is not None:
        d.update(hext=True, ext=C(ext))
    return d


class Dfa:
    """sampling of a digit automaton"""
    cache = {}

    def __new__(cls, pattern):
        if pattern not in cls.cache:
            o = super().__new__(cls)
            o.t, o.a = rx.dfa(pattern)
            o.live = {0: [bool(x) for x in o.a]}
            cls.cache[pattern] = o
        return cls.cache[pattern]

    def alive(self, n):
        """per state: can it accept a word of exactly n more digits"""
        for k in range(max(self.live) + 1, n + 1):
            p = self.live[k - 1]
            self.live[k] = [any(p[x] for x in row) for row in self.t]
        return self.live[n]

    def lengths(self, most=20):
        return [n for n in range(most + 1) if self.alive(n)[1]]

    def run(self, s, q=1):
        for c in s:
            if c not in "0123456789":
                return 0
            q = self.t[q][ord(c) - 48]
        return q

    def accepts(self, s):
        return self.a[self.run(s)]

    def complete(self, rng, q, n):
        """a random accepted continuation of n digits from q, or None"""
        if not self.alive(n)[q]:
            return None
        out = ""
        for k in range(n - 1, -1, -1):
            a = self.alive(k)
            d = rng.choice([d for d in range(10) if a[self.t[q][d]]])
            out += str(d)
            q = self.t[q][d]
        return out

    def sample(self, rng, n):
        return self.complete(rng, 1, n)

    def access(self):
        """shortest words reaching the states"""
        if not hasattr(self, "acc"):
            self.acc = {1: ""}
            todo = [1]
            while todo:
                q = todo.pop(0)
                for d in range(10):
                    x = self.t[q][d]
                    if x and x not in self.acc:
                        self.acc[x] = self.acc[q] + str(d)
                        todo.append(x)
        return self.acc

    def edges(self, rng, lengths, dead=1.0):
        """words of the given lengths that take every live transition, and (a share of)
        those that leave the language at every state"""
        seen = set()
        for q, w in self.access().items():
            for d in range(10):
                x = self.t[q][d]
                if (q, d) in seen:
                    continue
                opts = [n for n in lengths if n > len(w) and self.alive(n - len(w) - 1)[x]]
                if opts:
                    n = rng.choice(opts)
                    c = self.complete(rng, x, n - len(w) - 1)
                    v = w + str(d) + c
                    y = 1
                    for ch in v:
                        seen.add((y, int(ch)))
                        y = self.t[y][int(ch)]
                    yield v
                elif rng.random() < dead:
                    opts = [n for n in lengths if n > len(w)]
                    if opts:
                        n = rng.choice(opts)
                        yield w + str(d) + "".join(rng.choice("0123456789") for _ in range(n - len(w) - 1))


class Both:
    """words that begin in one language (leading digits, any prefix) and are in another"""

    def __init__(self, leading, pattern):
        self.l = Dfa(leading) if leading else None
        self.p = Dfa(pattern)

    def sample(self, rng, n, tries=40):
        if not self.p.alive(n)[1]:
            return None
        if self.l is None:
            return self.p.sample(rng, n)
        for _ in range(tries):
            opts = [k for k in range(n + 1) if self.l.alive(k)[1]]
            if not opts:
                return None
            k = rng.choice(opts)
            pre = self.l.sample(rng, k)
            c = self.p.complete(rng, self.p.run(pre), n - k)
            if c is not None:
                return pre + c
        return None


def word(rng, node, most=3):
    """a random word of a syntax tree (digits only)"""
    k = node["k"]
    if k == "set":
        lo, hi = rng.choice(node["r"])
        return chr(rng.randint(lo, hi))
    if k == "cat":
        return "".join(word(rng, x, most) for x in node["a"])
    if k == "alt":
        return word(rng, rng.choice(node["a"]), most)
    if k == "grp":
        return word(rng, node["a"], most)
    if k == "rep":
        hi = node["hi"] if node["hi"] != -1 else node["lo"] + most
        return "".join(word(rng, node["a"], most) for _ in range(rng.randint(node["lo"], hi)))
    return ""


def words(rng, pattern, most):
    """up to `most` different random words of a pattern"""
    if pattern == "":
        return []
    t = rx.parse(pattern)
    return sorted({word(rng, t) for _ in range(most * 3)})[:most] if most > 1 else [word(rng, t)]


class Plans:
    def __init__(self, terrs, seed, prop):
        self.all = terrs
        self.geo = [t for t in terrs if t["id"] != "001"]
        self.ng = [t for t in terrs if t["id"] == "001"]
        self.by = {t["id"]: t for t in self.geo}
        self.regions = sorted(self.by)
        self.codes = sorted({t["cc"] for t in terrs})
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.by_code = {}
        for t in terrs:
            l = self.by_code.setdefault(t["cc"], [])
            l.insert(0, t) if t["main"] else l.append(t)

    def main(self, cc):
        return self.by_code[cc][0]

    def types(self, t):
        return [k for k in xmlmeta.TYPES[:10] if t[k]["pattern"]]

    def lens(self, t, k):
        d = t[k]
        l = d["lengths"] or t["general"]["lengths"]
        return [x for x in l if x > 0]

    def of_type(self, t, k):
        """a random number of type k (matching its pattern with an allowed length)"""
        d = Dfa(t[k]["pattern"])
        ls = [n for n in self.lens(t, k) if d.alive(n)[1]]
        return d.sample(self.rng, self.rng.choice(ls)) if ls else None

    def some_valid(self, t):
        ks = self.types(t)
        for _ in range(10 if ks else 0):
            k = self.rng.choice(ks)
            w = self.of_type(t, k)
            if w:
                return w
        return t["fixedLine"]["example"] or "123456"

    def digits(self, n):
        return "".join(self.rng.choice("0123456789") for _ in range(n))

    def mutate(self, w):
        """a small change of a digit string"""
        r = self.rng
        k = r.randrange(7)
        if k == 0:
            return w + r.choice("0123456789")
        if k == 1 and len(w) > 1:
            return w[:-1]
        if k == 2 and w:
            i = r.randrange(len(w))
            return w[:i] + r.choice("0123456789") + w[i + 1:]
        if k == 3:
            return "0" + w
        if k == 4 and len(w) > 1:
            return w[1:]
        if k == 5 and w:
            i = r.randrange(len(w))
            return w[:i] + r.choice("0123456789") + w[i:]
        return w

    def script(self, s, zero=None):
        """the digits of s in another script"""
        z = zero if zero is not None else self.rng.choice(ZEROS)
        return "".join(chr(z + ord(c) - 48) if c in "0123456789" else c for c in s)

    def spaced(self, s, chars=None, p=0.3):
        """separators between characters of s (never before the first digit or plus)"""
        out = ""
        for i, c in enumerate(s):
            if i and self.rng.random() < p:
                out += chr(self.rng.choice(chars or SAFE_PUNCT))
            out += c
        return out

    def region(self):
        return self.rng.choice(self.regions)


KEYPAD = {**dict.fromkeys("ABC", "2"), **dict.fromkeys("DEF", "3"), **dict.fromkeys("GHI", "4"),
          **dict.fromkeys("JKL", "5"), **dict.fromkeys("MNO", "6"), **dict.fromkeys("PQRS", "7"),
          **dict.fromkeys("TUV", "8"), **dict.fromkeys("WXYZ", "9")}
LETTERS_OF = {}
for _l, _d in KEYPAD.items():
    LETTERS_OF.setdefault(_d, []).append(_l)

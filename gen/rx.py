"""Parser of the regular expressions used in the metadata, their export as syntax
trees for spec/Regex.tla, and their compilation to digit automata for
spec/Metadata.tla. Nothing here is taken from the Rust code.

Tree nodes (JSON):  {"k":"set","r":[[lo,hi],...]}  one character in the ranges
                    {"k":"cat","a":[...]}  {"k":"alt","a":[...]}
                    {"k":"rep","a":node,"lo":m,"hi":n|-1}  greedy
                    {"k":"grp","n":i,"a":node}  {"k":"end"}  end of the text
"""
from functools import lru_cache

DIG = [[48, 57]]


class P:
    def __init__(self, s):
        self.s, self.i, self.g = s, 0, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        a = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            a.append(self.cat())
        return a[0] if len(a) == 1 else {"k": "alt", "a": a}

    def cat(self):
        a = []
        while self.peek() not in (None, "|", ")"):
            a.append(self.rep())
        return {"k": "cat", "a": a}

    def rep(self):
        n = self.atom()
        while self.peek() in ("?", "*", "+", "{"):
            c = self.s[self.i]
            if c == "{":
                j = self.s.index("}", self.i)
                b = self.s[self.i + 1:j].split(",")
                lo = int(b[0])
                hi = lo if len(b) == 1 else (int(b[1]) if b[1] else -1)
                self.i = j + 1
            else:
                lo, hi = {"?": (0, 1), "*": (0, -1), "+": (1, -1)}[c]
                self.i += 1
            assert self.peek() not in ("?", "+"), "lazy/possessive: " + self.s
            n = {"k": "rep", "a": n, "lo": lo, "hi": hi}
        return n

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == "(":
            if self.s.startswith("?:", self.i):
                self.i += 2
                n = self.alt()
            else:
                assert self.peek() != "?", self.s
                self.g += 1
                g = self.g
                n = {"k": "grp", "n": g, "a": self.alt()}
            assert self.s[self.i] == ")"
            self.i += 1
            return n
        if c == "[":
            rs = []
            assert self.peek() != "^", self.s
            while self.peek() != "]":
                lo = self.ch()
                if isinstance(lo, list):
                    rs += lo
                    continue
                if self.peek() == "-" and self.s[self.i + 1] != "]":
                    self.i += 1
                    hi = self.ch()
                    rs.append([lo, hi])
                else:
                    rs.append([lo, lo])
            self.i += 1
            return {"k": "set", "r": rs}
        if c == "\\":
            self.i -= 1
            x = self.ch()
            return {"k": "set", "r": x if isinstance(x, list) else [[x, x]]}
        if c == "$":
            return {"k": "end"}
        assert c not in "^.", "unsupported %r in %s" % (c, self.s)
        return {"k": "set", "r": [[ord(c), ord(c)]]}

    def ch(self):
        c = self.s[self.i]
        self.i += 1
        if c == "\\":
            c = self.s[self.i]
            self.i += 1
            if c == "d":
                return [list(x) for x in DIG]
            assert not c.isalnum(), "escape \\%s in %s" % (c, self.s)
        return ord(c)


def parse(s):
    p = P(s)
    n = p.alt()
    assert p.i == len(s), s
    return n


def groups(n):
    if n["k"] == "grp":
        return max(n["n"], groups(n["a"]))
    if n["k"] in ("cat", "alt"):
        return max([groups(x) for x in n["a"]] + [0])
    if n["k"] == "rep":
        return groups(n["a"])
    return 0


# ------------------------------------------------------------ digit automata

def nfa(n):
    eps, tr = {}, {}
    cnt = [0]

    def new():
        cnt[0] += 1
        return cnt[0] - 1

    def e(a, b):
        eps.setdefault(a, []).append(b)

    def go(n, s):
        k = n["k"]
        if k == "set":
            t = new()
            for lo, hi in n["r"]:
                for c in range(max(lo, 48), min(hi, 57) + 1):
                    tr.setdefault((s, c - 48), []).append(t)
            return t
        assert k != "end", "no automaton for an anchored pattern"
        if k == "cat":
            for x in n["a"]:
                s = go(x, s)
            return s
        if k == "alt":
            t = new()
            for x in n["a"]:
                b = new()
                e(s, b)
                e(go(x, b), t)
            return t
        if k == "grp":
            return go(n["a"], s)
        for _ in range(n["lo"]):
            s = go(n["a"], s)
        if n["hi"] == -1:
            a = new()
            e(s, a)
            b = go(n["a"], a)
            e(b, a)
            t = new()
            e(a, t)
            return t
        t = new()
        for _ in range(n["hi"] - n["lo"]):
            e(s, t)
            s = go(n["a"], s)
        e(s, t)
        return t

    s0 = new()
    f = go(n, s0)
    return eps, tr, s0, f


@lru_cache(None)
def dfa(pattern):
    """(trans, acc): trans[q][d] in 0..n-1, state 0 dead, state 1 initial; minimal."""
    eps, tr, s0, f = nfa(parse(pattern))

    def clo(ss):
        st, seen = list(ss), set(ss)
        while st:
            for b in eps.get(st.pop(), ()):
                if b not in seen:
                    seen.add(b)
                    st.append(b)
        return frozenset(seen)

    init = clo({s0})
    ids, order, T = {init: 0}, [init], []
    i = 0
    while i < len(order):
        row = []
        for d in range(10):
            t = set()
            for q in order[i]:
                t.update(tr.get((q, d), ()))
            t = clo(t)
            if t not in ids:
                ids[t] = len(order)
                order.append(t)
            row.append(ids[t])
        T.append(row)
        i += 1
    acc = [f in s for s in order]
    # Moore minimisation
    cls = [int(a) for a in acc]
    while True:
        sig = {}
        new = [sig.setdefault((cls[q],) + tuple(cls[x] for x in T[q]), len(sig)) for q in range(len(T))]
        if len(sig) == len(set(cls)):
            break
        cls = new
    n = len(set(cls))
    # canonical numbering: dead = 0, initial = 1, then breadth first
    rep = {}
    for q, c in enumerate(cls):
        rep.setdefault(c, q)
    dead = next((c for c in rep if not acc[rep[c]] and all(cls[x] == c for x in T[rep[c]])), None)
    num = {}
    if dead is not None:
        num[dead] = 0
    k = 1
    todo = [cls[0]]
    if cls[0] not in num:
        num[cls[0]] = 1
        k = 2
    out = {}
    while todo:
        c = todo.pop(0)
        if c in out:
            continue
        out[c] = True
        for x in T[rep[c]]:
            c2 = cls[x]
            if c2 not in num:
                num[c2] = k
                k += 1
            if c2 not in out:
                todo.append(c2)
    trans = [[0] * 10 for _ in range(k)]
    accs = [False] * k
    for c, j in num.items():
        trans[j] = [num[cls[x]] for x in T[rep[c]]]
        accs[j] = acc[rep[c]]
    return trans, accs


def accepts(pattern, s):
    t, a = dfa(pattern)
    q = 1
    for c in s:
        q = t[q][ord(c) - 48]
    return a[q]


def has_prefix(pattern, s):
    """some prefix of s (possibly empty or all of it) is in the language"""
    t, a = dfa(pattern)
    q = 1
    if a[q]:
        return True
    for c in s:
        q = t[q][ord(c) - 48]
        if a[q]:
            return True
    return False

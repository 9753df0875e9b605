"""What each check consists of."""
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import time

import explore
import export
import gen
import runner
import synth
import xmlmeta

BATCH = 60000


def generated(ctx, seed, tag):
    calls = gen.Gen(ctx.terrs, ctx.prop, ctx.tier, seed).run()
    for i in range(0, len(calls), 150000):
        runner.conform(ctx, "%s.%d" % (tag, i), calls[i:i + 150000])
        if len(ctx.stats.violations) > 500:
            return


MIXED = {"C01": 0.3, "C02": 1, "C05": 1, "C06": 0.5, "C07": 0.3, "C08": 1, "C09": 0.5, "C10": 1, "C11": 1, "C12": 1, "C13": 0.6,
         "C14": 0.4, "C16": 0.5, "C17": 0.5, "C18": 1, "C19": 1, "C20": 0.3}


def part(terrs, prop, seed, n, hooks):
    cs = [c for c in gen.Gen(terrs, prop, "quick", seed).run()
          if c["op"] not in ("exampletype", "plan") and (hooks or c["op"] not in gen.HOOK_OPS)]
    return random.Random("%s/%d" % (prop, seed)).sample(cs, min(len(cs), n))


def mixture(ctx, seed, n):
    """groups of calls of all operations, as the other properties generate them; those of
    a group differ in one respect each"""
    rng = random.Random("mixture/%d" % seed)
    total = sum(MIXED.values())
    with multiprocessing.Pool(len(MIXED)) as pool:
        parts = pool.starmap(part, [(ctx.terrs, p, seed, int(0.8 * n * w / total), ctx.hooks) for p, w in MIXED.items()])
    g = gen.Gen(ctx.terrs, "C15", "quick", seed)
    base = [c for cs in parts for c in cs] + g.crowded(int(0.2 * n))
    groups = []
    for i, c in enumerate(base):
        new = [c]
        if i % 3 == 0 or i >= len(base) * 0.8:
            new += [g.confusable(rng.choice(new)) for _ in range(rng.randrange(1, 4))]
        groups.append(new)
    rng.shuffle(groups)
    i = 0
    for cs in groups:
        for c in cs:
            i += 1
            c["id"] = i
            c["j"] = "C15"
    return groups, rng


def flat(groups):
    return [c for cs in groups for c in cs]


def histories(ctx, seed, tag, n_memo, n_race):
    """the same calls on new instances, in different orders on one, and at the same time"""
    groups, rng = mixture(ctx, seed, n_memo)
    calls = flat(groups)
    memo = "%s/%s.memo" % (ctx.work, tag)
    runner.drive_once(ctx, "fresh", "bundled", calls, memo, [runner.WORKERS])
    rows = open(memo).read().splitlines()
    if len(rows) < len(calls):
        # a call that does not return, or an abort, on a new instance
        for l in rows:
            e = json.loads(l)
            if e["out"]["k"] in ("hang", "abort"):
                ctx.stats.violations.append((e, "want a result"))
        return
    path = "%s/%s.events" % (ctx.work, tag)

    def judged(name, mode, order, *extra):
        runner.drive_once(ctx, mode, "bundled", order, path, extra)
        runner.history(ctx, "%s.%s" % (tag, name), memo, path)

    # like calls after one another, in any order, twice
    rng.shuffle(groups)
    order = []
    for cs in groups:
        cs = cs + cs
        rng.shuffle(cs)
        order += cs
    judged("alike", "run", order)
    order = calls + calls
    rng.shuffle(order)
    judged("any", "run", order)
    # after everything that an instance may remember
    warm = [dict(c, id=0, j="C15", warm=True) for c in gen.Gen(ctx.terrs, "C15", "quick", seed).everywhere()]
    rng.shuffle(warm)
    judged("filled", "run", warm + flat(rng.sample(groups, len(groups))))
    order = flat(rng.sample(groups, len(groups)))
    judged("threads", "mt", order, 16, 4)
    # first uses at the same time; calls of one region together meet on the same patterns
    order = sorted(rng.sample(calls, min(len(calls), n_race)), key=lambda c: (str(c.get("r")), c["op"]))
    judged("race", "race", order, 8, 4)
    rng.shuffle(order)
    judged("race1", "race", order[:n_race // 3], 16, 1)


# stand-ins for the patterns of spec/Cache.tla: (pattern, whole text), the last does not compile
STAND_INS = [
    {"p": ("[2-9]\\d{2}", False), "q": ("[2-9]\\d{3}", False), "b": ("[2-9", False)},
    {"p": ("1|12", True), "q": ("1|12", False), "b": ("(1|12", True)},
    {"p": ("12", False), "q": ("(?:12)", True), "b": ("12)", False)},
    {"p": ("(?:[1-3]\\d|4[0-57-9]|5[024-68]|6[0-35-9]){2}1", True), "q": ("(?:[1-3]\\d|4[0-57-9]|5[024-68]|6[0-35-9]){2}2", True),
     "b": ("(?:[1-3]\\d|4[0-57-9]|5[024-68]|6[0-35-9]){2,1}", True)},
]
PROBES = ["", "1", "2", "12", "121", "212", "22", "222", "223", "2223", "12122", "1212", "4011", "11111", "11112", "35501"]


def schedules(ctx, cfgs):
    """the schedules of the model of the cache, imposed on the code; each call must give
    what it gives in the model"""
    if not ctx.hooks:
        return
    for cfg in cfgs:
        t = runner.Tlc("Cache.tla", cfg + ".cfg", {}, ctx.work)
        if not t.ok:
            raise runner.ToolError("TLC failed on %s:\n%s" % (cfg, t.text[-3000:]))
        ctx.stats.tlc(t, {"stage": cfg})
        lines = sorted({l.replace("\\", "").replace("<<", "[").replace(">>", "]") for l in t.lines("SCHED")})
        calls, want = [], []
        for i, l in enumerate(lines):
            todo, sched, result = (json.loads(x) for x in split3(l))
            k = (i + ctx.seed) % len(STAND_INS)
            pats = STAND_INS[k]
            calls.append({"id": i, "j": "C15", "op": "schedule", "pats": pats, "texts": PROBES, "cap": (0, 1, 300)[i % 3],
                          "todo": todo, "sched": sched})
            want.append([[None if x == "failure" else TRUTH[k][x] for x in r] for r in result])
        if not calls:
            continue
        ctx.stats.parts[-1]["schedules replayed"] = impose(ctx, cfg, calls, want)


def proof(ctx):
    """spec/CacheProof.tla, by the TLA+ proof system"""
    d = ctx.work + "/proof"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ("Cache.tla", "CacheProof.tla"):
        shutil.copy(runner.ROOT + "/spec/" + f, d)
    try:
        r = subprocess.run(["tlapm", "--threads", runner.WORKERS, "CacheProof.tla"], cwd=d, capture_output=True, text=True, timeout=300)
        m = re.search(r"All (\d+) obligations? proved", r.stdout + r.stderr)
    except (OSError, subprocess.TimeoutExpired):
        m = None
    ctx.stats.parts.append({"stage": "CacheProof", "proved obligations": int(m[1]) if m else 0})


def impose(ctx, name, calls, want):
    path = "%s/%s.events" % (ctx.work, name)
    n = runner.drive_once(ctx, "sched", "bundled", calls, path, [2 * int(runner.WORKERS)])
    bad = 0
    for e in map(json.loads, open(path)):
        if e["out"] != want[e["ix"]]:
            bad += 1
            ctx.stats.violations.append((dict(e, run=name, want=want[e["ix"]]), "want %s" % json.dumps(want[e["ix"]])))
    ctx.stats.traces += n - bad
    return n


def split3(l):
    """three bracketed lists, separated by blanks"""
    out, depth, cur = [], 0, ""
    for ch in l:
        depth += (ch == "[") - (ch == "]")
        if ch == " " and not depth:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def truth(pattern, whole):
    r = re.compile(pattern)
    return [bool(r.fullmatch(x) if whole else r.search(x)) for x in PROBES]


TRUTH = [{n: truth(*m[n]) for n in ("p", "q")} for m in STAND_INS]


# ------------------------------------------------------------ other plans

def other_world(ctx, name, terrs, seed):
    """the same generators over other plans, which the library is given through the hooks"""
    if not ctx.hooks:
        return
    given, spec = "%s/%s.plans" % (ctx.work, name), "%s/%s.world" % (ctx.work, name)
    with open(given, "w") as f:
        json.dump(terrs, f)
    export.export(terrs, spec, gen.USER_FORMATS, raw=ctx.prop == "C20")
    calls = gen.Gen(terrs, ctx.prop, "quick", seed).run()
    if ctx.prop == "C16":
        # the separators of these plans' formats are not all ones of RFC 3966
        calls = [c for c in calls if c["op"] != "format"]
    if ctx.tier == "quick" and len(calls) > 16000:
        calls = random.Random(seed).sample(calls, 16000)
    before = len(ctx.stats.violations)
    runner.conform(ctx, name, calls, given, spec)
    if len(ctx.stats.violations) == before:
        os.remove(given)
    os.remove(spec)


def synthetic(ctx, seed):
    other_world(ctx, "synth%d" % seed, synth.Synth(ctx.terrs, seed).world(), seed)


# ------------------------------------------------------------ everything that can be typed

def typed(ctx, name, cases, given, spec):
    """the calls of all states of spec/Explore.tla, made on the code"""
    conf = "%s/%s.explore" % (ctx.work, name)
    with open(conf, "w") as f:
        json.dump({"prop": ctx.prop, "cases": cases}, f)
    t = runner.Tlc("Explore.tla", "Explore.cfg", {"VP_WORLD": spec, "VP_EXPLORE": conf}, ctx.work, extra=["-fpmem", "0.1"])
    if not t.ok:
        raise runner.ToolError("TLC failed on %s:\n%s" % (conf, t.text[-3000:]))
    ctx.stats.tlc(t, {"stage": name + ", laws"})
    calls = [json.loads(json.loads('"%s"' % l)) for l in sorted(set(t.lines("CALL")))]
    for i, c in enumerate(calls):
        c["id"] = i
    os.remove(t.log)
    os.remove(conf)
    runner.conform(ctx, name, calls, given, spec)


def typed_world(ctx, name, terrs, cases):
    given, spec = "%s/%s.plans" % (ctx.work, name), "%s/%s.world" % (ctx.work, name)
    with open(given, "w") as f:
        json.dump(terrs, f)
    export.export(terrs, spec, gen.USER_FORMATS)
    before = len(ctx.stats.violations)
    typed(ctx, name, cases, given, spec)
    if len(ctx.stats.violations) == before:
        os.remove(given)
    os.remove(spec)


def small_world(ctx, seed, deep):
    if ctx.hooks and ctx.prop in explore.PROPS:
        w = explore.small(ctx.prop, seed, deep)
        if w:
            typed_world(ctx, "typed%d" % seed, *w)


def families(ctx, deep):
    """all small configurations of what the property depends on"""
    if ctx.hooks:
        for name, terrs, cases in explore.family(ctx.prop, deep):
            typed_world(ctx, name, terrs, cases)


def composed(ctx, seed, deep, n):
    cases = explore.composed(ctx.prop, ctx.terrs, seed, deep, n) if ctx.prop in explore.PROPS else None
    if cases:
        typed(ctx, "composed%d" % seed, cases, "bundled", ctx.world)


ROUNDS = {"C02": 2, "C07": 2, "C09": 2, "C10": 3, "C11": 4, "C12": 4, "C16": 2, "C17": 4, "C18": 3, "C19": 4}    # of the quick checks


def run(ctx):
    if ctx.prop == "C15":
        return run_c15(ctx)
    k = 0
    start = time.time()
    other_world(ctx, "testing", xmlmeta.load(runner.REPO + "/resources/PhoneNumberMetadataForTesting.xml"), ctx.seed)
    deep = ctx.tier != "quick"
    families(ctx, deep)
    while True:
        generated(ctx, ctx.seed * 1000 + k, "gen%d" % k)
        small_world(ctx, ctx.seed * 1000 + k, deep)
        if deep or k == 0:
            composed(ctx, ctx.seed * 1000 + k, deep, 10)
        for i in (0, 1):
            synthetic(ctx, (ctx.seed * 1000 + k) * 2 + i)
        k += 1
        spent = time.time() - start
        if ctx.stats.violations or (ctx.tier == "quick" and k >= ROUNDS.get(ctx.prop, 1)) or time.time() + 1.3 * spent / k > ctx.deadline:
            return


def run_c15(ctx):
    k = 0
    start = time.time()
    if ctx.tier == "thorough":
        proof(ctx)
    schedules(ctx, ["CacheSched", "CacheSched3"] if ctx.tier == "quick" else ["Cache", "CacheOne", "CacheSched", "CacheSched3", "CacheSchedLong"])
    while True:
        if ctx.tier == "quick":
            histories(ctx, ctx.seed, "h", 2500, 1200)
            return
        histories(ctx, ctx.seed * 1000 + k, "h%d" % k, 8000, 6000)
        k += 1
        spent = time.time() - start
        if ctx.stats.violations or time.time() + 1.3 * spent / k > ctx.deadline:
            return

"""Runs the check of one property:  runner.py PROPERTY quick|thorough
                                    runner.py replay FILE
Exit status 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import export  # noqa: E402
import gen  # noqa: E402
import xmlmeta  # noqa: E402

REPO = "/repo"
XML = REPO + "/resources/PhoneNumberMetadata.xml"
BUILD = ROOT + "/.build"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = str(os.cpu_count() or 4)


class ToolError(Exception):
    pass


class Enough(Exception):
    """no time is left for what remains, or too much goes wrong to go on"""


START = time.time()
LIMIT = {"quick": 600, "thorough": 830}
HANGS, ABORTS = 2, 20    # so many are enough


def left(ctx):
    return LIMIT.get(ctx.tier, 600) - (time.time() - START)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


# ------------------------------------------------------------------ building

def env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")
    e.setdefault("HOME", "/root")
    return e


def build():
    """the driver over /repo's working tree; with the hooks if they still fit the code"""
    last = ""
    for hooks in (True, False):
        e = env()
        target = BUILD + ("/target" if hooks else "/target-plain")
        e["CARGO_TARGET_DIR"] = target
        e["RUSTFLAGS"] = "--cfg vp_hooks" if hooks else ""
        r = sh(["cargo", "build", "--offline"], cwd=ROOT + "/harness", env=e)
        if r.returncode == 0:
            return target + "/debug/vpdrive", hooks
        last = r.stdout
        print("note: the driver does not build %s hooks" % ("with" if hooks else "without"))
    raise ToolError("the driver does not build:\n" + last[-3000:])


# ------------------------------------------------------------------ running the code

HUGE = 1 << 31


def tame(v):
    """integers TLC cannot hold become text; they equal no specified value"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v if -HUGE <= v < HUGE else "int %d" % v
    if isinstance(v, list):
        return [tame(x) for x in v]
    if isinstance(v, dict):
        return {k: tame(x) for k, x in v.items()}
    return v


def drive(ctx, mode, world, calls, path, extra=()):
    """execute calls; an aborted process is attributed to the call it was in. Writes
    one event per call and returns their number, which is smaller if too many calls do
    not return or time runs out."""
    done = 0
    exe = ctx.exe
    with open(path, "w") as out:
        while done < len(calls) and ctx.hangs < HANGS and ctx.aborts < ABORTS:
            cf, ef = path + ".calls", path + ".part"
            gen.write(calls[done:], cf)
            late = False
            try:
                r = subprocess.run([exe, mode, world, cf, ef] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   timeout=max(60, left(ctx)))
            except subprocess.TimeoutExpired:
                late = True
            n = 0
            if os.path.exists(ef):
                for line in open(ef):
                    if not line.endswith("\n"):
                        break
                    if '"int"' in line:
                        line = json.dumps(tame(json.loads(line)), separators=(",", ":")) + "\n"
                    # indices count from the beginning of the first run
                    if done:
                        e = json.loads(line)
                        e["ix"] += done
                        line = json.dumps(e, separators=(",", ":")) + "\n"
                    out.write(line)
                    n += 1
            done += n
            for x in (cf, ef):
                if os.path.exists(x):
                    os.remove(x)
            if late:
                break
            if r.returncode == 0 and n and done < len(calls):
                ctx.hangs += 1
                continue  # stopped at a hanging call, which is recorded
            if r.returncode < 0 and done < len(calls):
                e = dict(calls[done], ix=done, out={"k": "abort", "v": str(-r.returncode)})
                out.write(json.dumps(e, separators=(",", ":")) + "\n")
                done += 1
                ctx.aborts += 1
            elif r.returncode != 0 or (n == 0 and calls):
                raise ToolError("driver failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    return done


def drive_once(ctx, mode, world, calls, path, extra=()):
    """a run of which nothing is known call by call if the process aborts"""
    cf = path + ".calls"
    gen.write(calls, cf)
    if os.path.exists(path):
        os.remove(path)
    if left(ctx) < 0:
        raise Enough("no time is left for %s" % mode)
    try:
        r = subprocess.run([ctx.exe, mode, world, cf, path] + [str(x) for x in extra], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=max(60, left(ctx)))
    except subprocess.TimeoutExpired:
        raise Enough("time ran out in %s" % mode)
    os.remove(cf)
    if r.returncode < 0:
        with open(path, "w") as f:
            f.write(json.dumps(dict(calls[0], ix=0, out={"k": "abort", "v": str(-r.returncode)})) + "\n")
    elif r.returncode != 0 or not os.path.exists(path):
        raise ToolError("driver failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    lines = open(path).read().splitlines()
    with open(path, "w") as f:
        for l in lines:
            f.write((json.dumps(tame(json.loads(l)), separators=(",", ":")) if '"int"' in l else l) + "\n")
    return len(lines)


# ------------------------------------------------------------------ TLC

class Tlc:
    def __init__(self, module, cfg, envs, work, workers=WORKERS, extra=(), timeout=850, heap="12g"):
        e = dict(os.environ)
        e.update(envs)
        meta = work + "/tlc-" + os.path.basename(cfg).replace(".cfg", "")
        shutil.rmtree(meta, ignore_errors=True)
        self.log = meta + ".log"
        tmp = meta + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(self.log, "w") as f:
            p = subprocess.run(["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC", "-workers", workers,
                                "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module], cwd=ROOT + "/spec", env=e, stdout=f, stderr=subprocess.STDOUT)
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
        self.rc = p.returncode
        self.text = open(self.log, errors="replace").read()
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", self.text)
        self.transitions, self.states = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
        self.ok = self.rc == 0 and "Model checking completed. No error has been found" in self.text

    def lines(self, word):
        return re.findall(r'^"%s (.*)"$' % word, self.text, re.M)


class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.vacuous = 0
        self.samples, self.parts = [], []
        self.violations = []    # (event, reason)

    def tlc(self, t, part):
        self.states += t.states
        self.transitions += t.transitions
        self.parts.append(dict(part, states=t.states, transitions=t.transitions))


def conform(ctx, name, calls, world="bundled", wfile=None):
    """drive the calls and validate every event against the specification"""
    if not ctx.hooks:
        calls = [c for c in calls if c["op"] not in gen.HOOK_OPS]
        if world != "bundled":
            return
    if not calls:
        return
    if left(ctx) < 0:
        raise Enough("no time is left for %s" % name)
    path = "%s/%s.events" % (ctx.work, name)
    n = drive(ctx, "run", world, calls, path)
    if not n:
        raise Enough("no call made in %s" % name)
    t = Tlc("Trace.tla", "Trace.cfg", {"VP_WORLD": wfile or ctx.world, "VP_EVENTS": path}, ctx.work)
    rejects = [x.split(" ", 1) for x in t.lines("REJECT")]
    if not t.ok:
        raise ToolError("TLC failed on %s:\n%s" % (path, t.text[-3000:]))
    vac = len(t.lines("VACUOUS"))
    if t.states < n:
        raise ToolError("TLC saw %d states for %d events" % (t.states, n))
    s = ctx.stats
    s.tlc(t, {"stage": name, "events": n, "vacuous": vac})
    s.traces += n - vac - len(rejects)
    s.vacuous += vac
    evs = None
    if rejects or len(s.samples) < 3:
        evs = open(path).read().splitlines()
        for i in sorted({0, n // 3, n // 2}):
            if len(s.samples) < 5:
                s.samples.append(json.loads(evs[i]))
    for ix, why in rejects:
        e = json.loads(evs[int(ix)])
        e["world"] = world
        s.violations.append((e, why))
    if not rejects and not os.environ.get("VP_KEEP"):
        os.remove(path)
    if n < len(calls):
        raise Enough("%d of %d calls made in %s" % (n, len(calls), name))


def history(ctx, name, memo, path, world="bundled"):
    """validate the events of a run against the memo of first results"""
    t = Tlc("History.tla", "History.cfg", {"VP_MEMO": memo, "VP_EVENTS": path}, ctx.work)
    if not t.ok:
        raise ToolError("TLC failed on %s:\n%s" % (path, t.text[-3000:]))
    evs = open(path).read().splitlines()
    rejects = [x.split(" ", 1) for x in t.lines("REJECT")]
    by_ix = {e["ix"]: e for e in map(json.loads, evs)} if rejects else {}
    ctx.stats.tlc(t, {"stage": name, "events": len(evs)})
    ctx.stats.traces += len(evs) - len(rejects)
    if len(ctx.stats.samples) < 4:
        ctx.stats.samples.append({"run": name, "event": json.loads(evs[len(evs) // 2])})
    for ix, why in rejects:
        ctx.stats.violations.append((dict(by_ix[int(ix)], world=world, run=name), why))
    os.remove(path)


# ------------------------------------------------------------------ readable reports

def show(v):
    if isinstance(v, list) and v and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 0x110000 for x in v):
        return repr("".join(map(chr, v)))
    if isinstance(v, list):
        return "[%s]" % ", ".join(show(x) for x in v)
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (k, show(x)) for k, x in v.items() if k != "fs")
    return json.dumps(v, ensure_ascii=False) if not isinstance(v, str) else v


def pretty(why):
    def f(m):
        xs = [int(x) for x in re.findall(r"-?\d+", m.group(0))]
        return repr("".join(chr(x) if 0 <= x < 0x110000 else "?" for x in xs))
    return re.sub(r"<<\s*-?\d+(?:,\s*-?\d+)*\s*>>", f, why)


# ------------------------------------------------------------------ known findings

def known(prop):
    p = ROOT + "/known_findings.json"
    return [k for k in json.load(open(p))["known"] if k["property"] == prop] if os.path.exists(p) else []


def matches(k, e):
    return all(e.get(x) == v for x, v in k["call"].items())


class Ctx:
    pass


def context(prop, tier, seed):
    ctx = Ctx()
    ctx.prop, ctx.tier, ctx.seed = prop, tier, seed
    ctx.work = "%s/run/%s-%s" % (BUILD, prop, tier)
    shutil.rmtree(ctx.work, ignore_errors=True)
    os.makedirs(ctx.work)
    ctx.stats = Stats()
    ctx.hangs = ctx.aborts = 0
    ctx.exe, ctx.hooks = build()
    ctx.terrs = xmlmeta.load(XML)
    ctx.world = ctx.work + "/world.json"
    export.export(ctx.terrs, ctx.world, gen.USER_FORMATS, raw=prop == "C20")
    return ctx


def check(prop, tier):
    import stages
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = context(prop, tier, seed)
    ctx.deadline = t0 + (780 if tier == "thorough" else 240)
    s = ctx.stats
    try:
        stages.run(ctx)
    except Enough as x:
        print("note: stopped early: %s" % x)
        s.parts.append({"stage": "stopped early", "why": str(x)})
    kf = known(prop)
    seen, bad = set(), []
    for e, why in s.violations:
        k = next((i for i, k in enumerate(kf) if matches(k, e)), None)
        if k is None:
            bad.append((e, why))
        else:
            seen.add(k)
    # findings are listed whether or not this run's inputs reached them
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": s.states, "transitions": s.transitions, "traces_validated_against_impl": s.traces,
                       "vacuous_relations": s.vacuous, "stages": s.parts, "hooks": ctx.hooks,
                       "samples": [show(x)[:1500] for x in s.samples[:5]]},
          "assumptions": ["TLC evaluates the specification correctly", "gen/xmlmeta.py and gen/rx.py read the XML and its patterns correctly",
                          "the driver reports arguments and results faithfully"],
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    json.dump(ev, open("%s/evidence/%s.json" % (ROOT, prop), "w"), indent=1, ensure_ascii=False)
    if bad:
        os.makedirs(BUILD + "/replay", exist_ok=True)
        rp = "%s/replay/%s-%s.ndjson" % (BUILD, prop, tier)
        for e, why in bad[:200]:
            if e.get("world", "bundled").startswith(ctx.work):
                e["world"] = shutil.copy(e["world"], BUILD + "/replay/%s-%s" % (prop, os.path.basename(e["world"])))
        with open(rp, "w") as f:
            for e, why in bad[:200]:
                f.write(json.dumps(dict(e, why=why)) + "\n")
        for e, why in bad[:8]:
            print("  %s\n    %s" % (show({k: v for k, v in e.items() if k not in ("ix", "j", "u", "fs")})[:1200], pretty(why)[:900]))
        print("%d of %d events rejected" % (len(bad), s.traces + len(bad)))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s %s: held on %d events (%d vacuous), %d states, %.0f s" % (prop, tier, s.traces, s.vacuous, s.states, time.time() - t0))
    return 0


def replay(path):
    evs = [json.loads(x) for x in open(path)]
    prop = evs[0]["j"]
    ctx = context(prop, "replay", 1)
    plans = [e for e in evs if e["op"] == "schedule"]
    if plans and ctx.hooks:
        import stages
        stages.impose(ctx, "replay", plans, [e["want"] for e in plans])
    calls = [{k: v for k, v in e.items() if k not in ("ix", "out", "why", "world", "run")} for e in evs
             if e.get("world", "bundled") == "bundled" and e["op"] != "schedule"]
    conform(ctx, "replay", calls)
    for w in sorted({e["world"] for e in evs if e.get("world", "bundled") != "bundled"}):
        terrs = json.load(open(w))
        export.export(terrs, ctx.work + "/replay.world", gen.USER_FORMATS, raw=prop == "C20")
        conform(ctx, "replay-" + os.path.basename(w), [{k: v for k, v in e.items() if k not in ("ix", "out", "why", "world", "run")} for e in evs
                                                       if e.get("world") == w], w, ctx.work + "/replay.world")
    for e, why in ctx.stats.violations:
        print(show(e), "\n   ", pretty(why))
    print("%d of %d still rejected" % (len(ctx.stats.violations), len(evs)))
    return 1 if ctx.stats.violations else 0


if __name__ == "__main__":
    import runner   # the module that the others import
    try:
        sys.exit(runner.replay(sys.argv[2]) if sys.argv[1] == "replay" else runner.check(sys.argv[1], sys.argv[2]))
    except runner.ToolError as x:
        print("ERROR: %s" % x)
        sys.exit(2)

"""Shared machinery: sharded exhaustive enumeration, watchdog, evidence, replay.

A check is a module with
    ID       property id
    cases(tier)            generator of JSON-able case descriptors, simplest first
    run(case, ctx)         explores every execution of the case; raises Violation
and optionally
    BOUNDS   text describing the bounds of each tier
    setup(ctx)             once per shard
    finish(ctx)            once, after all shards, in the parent (extra single checks)
Everything nondeterministic is decided by the harness, so a case is its own replay.
"""
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HYPERPACK_REPO", "/repo")
_real_time = _time.time
_mono = _time.monotonic
_cpu = _time.process_time


class Violation(Exception):
    pass


class Timeout(BaseException):
    """Raised by the watchdog inside the explored execution."""


class StopShard(Exception):
    """Soft time cap reached."""


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.counts = {}
        self.samples = []
        self.outcomes = set()
        self.quick = tier == "quick"

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # the three numbers every model checking evidence file reports
    def state(self, n=1):
        self.count("states", n)

    def trans(self, n=1):
        self.count("transitions", n)

    def validated(self, n=1):
        self.count("traces_validated_against_impl", n)

    def outcome(self, o):
        """Distinct observed outcomes (guards against vacuous exploration)."""
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(repr(o)))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)


def load_check(pid):
    sys.path.insert(0, os.path.join(VERIF, "mc"))
    return importlib.import_module("checks." + pid.lower())


def _from_hyperpack(tb):
    """Does the innermost non-library frame belong to the code under test?"""
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/hyperpack/" in fn:
            last = "hyperpack"
        elif fn.startswith(VERIF):
            last = "verif"
        tb = tb.tb_next
    return last == "hyperpack"


def run_case(mod, case, ctx, cpu_limit):
    """Returns None or a violation message."""
    def on_alarm(*a):
        raise Timeout()

    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
    try:
        mod.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Timeout:
        return "no termination within %d s of CPU time" % cpu_limit
    except Exception as e:
        if _from_hyperpack(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return "unexpected %s: %s (%s:%s)" % (
                type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shard_main(pid, tier, seed, index, n, cap, out):
    # a run away case ends itself, not the machine
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    mod = load_check(pid)
    ctx = Ctx(tier, seed)
    cpu = getattr(mod, "CPU_LIMIT", 150)
    t0 = _mono()
    known = known_findings(pid)
    res = {"violation": None, "case": None, "cases": 0, "capped": False, "error": None, "slowest": [0, ""]}
    if getattr(mod, "PIN", False):
        # baton passing between threads is much faster on one core
        try:
            cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {cpus[index % len(cpus)]})
        except OSError:
            pass
    try:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        for i, case in enumerate(mod.cases(tier)):
            if i % n != index:
                continue
            if _mono() - t0 > cap:
                res["capped"] = True
                res["capped_at"] = i
                break
            t = _cpu()
            msg = run_case(mod, case, ctx, cpu)
            t = _cpu() - t
            if t > res["slowest"][0]:
                res["slowest"] = [round(t, 2), json.dumps(case)[:300]]
            res["cases"] += 1
            if msg is not None and fingerprint(case) in known:
                res["known_seen"] = res.get("known_seen", 0) + 1
                msg = None
            if msg is not None:
                # own the nondeterminism: the same case must fail again
                again = run_case(mod, case, Ctx(tier, seed), cpu)
                res["violation"], res["case"] = msg, case
                res["deterministic"] = again is not None
                res["index"] = i
                break
            if index == 0 and len(ctx.samples) < 2 and res["cases"] in (3, 50):
                ctx.sample(case)
    except Exception:
        res["error"] = traceback.format_exc()
    res["counts"] = ctx.counts
    res["samples"] = ctx.samples
    res["outcomes"] = len(ctx.outcomes)
    res["wall"] = _mono() - t0
    # a shard may be terminated at any time: complete results only
    with open(out + ".part", "w") as f:
        json.dump(res, f)
    os.replace(out + ".part", out)


def python():
    p = "/opt/venv/bin/python"
    return p if os.path.exists(p) else sys.executable


def known_findings(pid):
    """Listed (unrepaired) findings: {fingerprint: text}."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                fp, text = line.split(" ", 2)[2].strip().split(" ", 1)
                out[fp] = text
    return out


def fingerprint(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def main(argv):
    pid = argv[0].upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = load_check(pid)

    if "--replay" in argv:
        case = json.load(open(argv[argv.index("--replay") + 1]))["case"]
        ctx = Ctx(tier, seed)
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        msg = run_case(mod, case, ctx, getattr(mod, "CPU_LIMIT", 150))
        print("case:", json.dumps(case))
        print("result:", msg or "property holds")
        return 1 if msg else 0

    t0 = _mono()
    n = getattr(mod, "SHARDS", min(8, os.cpu_count() or 8))
    cap = getattr(mod, "CAP", 600 if tier == "quick" else 3000)
    if "VERIF_CAP" in os.environ:
        cap = float(os.environ["VERIF_CAP"])
    scratch = os.path.join("/tmp", "hpmc-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed % 4294967295),
               MALLOC_ARENA_MAX="2")
    procs, outs = [], []
    try:
        for i in range(n):
            out = os.path.join(scratch, "shard%d.json" % i)
            outs.append(out)
            procs.append(subprocess.Popen(
                [python(), os.path.join(VERIF, "mc", "run.py"), "--shard", pid, tier,
                 str(seed), str(i), str(n), str(cap), out], env=env, cwd=scratch))
        # a shard that found a violation ends the others
        pending = set(range(n))
        results = {}
        hard = cap + 250
        while pending:
            _time.sleep(0.02)
            for i in list(pending):
                if procs[i].poll() is not None:
                    pending.discard(i)
                    if os.path.exists(outs[i]):
                        results[i] = json.load(open(outs[i]))
                    else:
                        results[i] = {"error": "shard %d ended with %s" % (i, procs[i].returncode)}
                    if results[i].get("violation") or results[i].get("error"):
                        for j in pending:
                            procs[j].terminate()
            if _mono() - t0 > hard:
                for j in pending:
                    procs[j].kill()
        for p in procs:
            p.wait()
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    violations = [r for r in results.values() if r.get("violation")]
    errors = [r["error"] for r in results.values() if r.get("error")]
    if errors and not violations and not all("ended with -15" in e for e in errors):
        sys.stderr.write(errors[0] + "\n")
        return 2

    counts, samples, cases, capped, outcomes = {}, [], 0, False, 0
    for i in sorted(results):
        r = results[i]
        if "counts" not in r:
            continue
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        samples += r["samples"]
        cases += r["cases"]
        capped |= r["capped"]
        outcomes += r["outcomes"]

    if hasattr(mod, "finish") and not violations:
        ctx = Ctx(tier, seed)
        try:
            mod.finish(ctx)
        except Violation as e:
            violations.append({"violation": str(e), "case": {"finish": True}, "index": 0})
        for k, v in ctx.counts.items():
            counts[k] = counts.get(k, 0) + v
        samples += ctx.samples

    known = known_findings(pid)
    for fp, text in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))

    coverage = {
        "states": counts.pop("states", 0),
        "transitions": counts.pop("transitions", 0),
        "traces_validated_against_impl": counts.pop("traces_validated_against_impl", 0),
        "cases": cases,
        "distinct_outcomes_summed_over_shards": outcomes,
        "exhaustive_within_bounds": not capped and not violations,
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "oracle": getattr(mod, "ORACLE", ""),
        "samples": samples[:4] or [{"note": "no case completed"}],
    }
    coverage.update(counts)
    coverage["slowest_case_cpu_s"] = max(r.get("slowest", [0, ""]) for r in results.values())
    if getattr(mod, "LEVEL", "model_checking") in ("fault_enumeration", "exploration"):
        coverage["evaluations"] = coverage["transitions"]
        coverage["distinct_nontrivial"] = coverage["states"]
        coverage["rule"] = getattr(mod, "RULE", coverage["bounds"])
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": coverage, "wall_s": round(_mono() - t0, 3),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if violations:
        v = min(violations, key=lambda r: r.get("index", 0))
        rep_dir = os.path.join(VERIF, "replays")
        os.makedirs(rep_dir, exist_ok=True)
        rep = os.path.join(rep_dir, "%s-%s.json" % (pid, fingerprint(v["case"])))
        with open(rep, "w") as f:
            json.dump({"property": pid, "case": v["case"], "message": v["violation"]}, f, indent=1)
        print("%s: %s" % (pid, v["violation"][:2000]))
        print("case: %s" % json.dumps(v["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s ok: %s states, %s transitions, %d cases%s, %.1f s" % (
        pid, coverage["states"], coverage["transitions"], cases,
        " (time cap hit)" if capped else "", _mono() - t0))
    return 0

"""
Runs the check of one property.

A check is a module checks/<id>.py with
  LEVEL, RULE                  for the evidence file
  cases(tier, seed)            a list of JSON-able cases, most important first
  run_case(case, rec)          drives the real code for one case; the monitors in
                               it report to rec what they saw and what was wrong
  MIN_CHECKS (optional)        fewer monitor evaluations than this: inconclusive
  JOBS (optional)              number of processes

Exit 0: held on everything explored. 1: VIOLATION. 2: inconclusive.
"""
import sys, os, json, time, traceback, importlib, hashlib, tempfile, shutil, atexit

import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")


class Rec:
    """what the monitors observed during one case"""

    def __init__(self, prop):
        self.prop = prop
        self.checks = 0          # monitor evaluations
        self.events = {}         # observed events, by kind
        self.states = set()      # fingerprints of distinct non-trivial observations
        self.bads = []
        self.notes = []

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def seen(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])

    def expect(self, cond, kind, **detail):
        """a monitor evaluation: cond has to hold"""
        self.checks += 1
        if not bool(cond):
            self.bad(kind, **detail)
        return bool(cond)

    def bad(self, kind, **detail):
        if len(self.bads) < 20:
            self.bads.append({"kind": kind, \
                    "detail": {k: short(v) for k, v in detail.items()}})

    def note(self, obj):
        if len(self.notes) < 3:
            self.notes.append(obj)


class Inconclusive(Exception):
    pass


def short(v):
    s = v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)
    return s if not isinstance(s, str) else s[:400]


def scratch_root():
    return os.environ["VERIF_SCRATCH"]


def one_case(args):
    prop, case, idx = args
    mod = importlib.import_module(f"checks.{prop.lower()}")
    rec = Rec(prop)
    err = None
    t0 = time.time()
    work = tempfile.mkdtemp(dir=scratch_root(), prefix=f"case{idx}_")
    old = os.getcwd()
    try:
        os.chdir(work)
        reset_globals(case)
        mod.run_case(case, rec)
    except Inconclusive as e:
        err = f"inconclusive: {e}"
    except (MemoryError, TimeoutError, KeyboardInterrupt) as e:
        err = f"inconclusive: {type(e).__name__} {e}"
    except BaseException as e:
        # an exception out of the code under test, on an input it has to accept
        frames = traceback.extract_tb(e.__traceback__)
        roots = [os.path.realpath(REPO) + "/yuca", scratch_root() + "/build"]
        inside = [f for f in frames if any(os.path.realpath(f.filename).startswith(r) for r in roots)]
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
        if inside:
            rec.bad("exception", error=f"{type(e).__name__}: {e}", at=f"{inside[-1].name}", trace=text)
        elif isinstance(e, (AttributeError, TypeError, ValueError, LookupError, RuntimeError, ArithmeticError, EOFError)) and not isinstance(e, (RecursionError, NotImplementedError)):
            # what the code answered is not of the form every answer has (a missing value, another shape or type)
            rec.bad("answer cannot be read", error=f"{type(e).__name__}: {e}", at=f"{frames[-1].name}:{frames[-1].lineno}", trace=text)
        else:
            err = "harness error: " + text
    finally:
        os.chdir(old)
        shutil.rmtree(work, ignore_errors=True)
    return {"idx": idx, "checks": rec.checks, "events": rec.events, "states": sorted(rec.states), \
            "bads": rec.bads, "notes": rec.notes, "err": err, "s": time.time() - t0}


def reset_globals(case):
    """every case starts from the same global state, however cases are scheduled"""
    import torch, numpy as np, random
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    s = int(case.get("seed", 0)) % (2**31)
    torch.manual_seed(s); np.random.seed(s); random.seed(s)


def init_worker(quiet):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import torch
    torch.set_num_threads(1)
    torch.set_flush_denormal(True)
    if quiet:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)


def known_findings(prop):
    """open findings: lines `known: property=<id> key=<kind> <text>`"""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: ") and f"property={prop} " in line:
                key = line.split("key=", 1)[1].split(" ", 1)[0]
                out[key] = line.split("key=", 1)[1].split(" ", 1)[1].strip()
    return out


def make_build(prop):
    """a copy of the package as it is now, for code that writes next to itself"""
    dst = os.path.join(scratch_root(), "build")
    os.makedirs(dst)
    skip = shutil.ignore_patterns("__pycache__", "*.pyc")
    for name in ["yuca", "ca_configs"]:
        shutil.copytree(os.path.join(REPO, name), os.path.join(dst, name), ignore=skip)
    for name in ["logs", "assets", "models", "ca_analysis"]:
        os.makedirs(os.path.join(dst, name), exist_ok=True)
    return dst


def main():
    prop = sys.argv[1].upper()
    rest = sys.argv[2:]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] == "--replay":
        replay = rest[1]
    elif rest:
        tier = rest[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.environ["VERIF_SCRATCH"] = scratch
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(scratch, ignore_errors=True))

    sys.path.insert(0, HERE)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    src = REPO
    if getattr(mod, "BUILD", False):
        src = make_build(prop)
        os.environ["PYTHONPATH"] = os.pathsep.join([src] + os.environ["PYTHONPATH"].split(os.pathsep))
    sys.path.insert(0, src)
    os.environ["VERIF_SRC"] = src

    import torch
    torch.set_num_threads(1)
    import yuca
    where = os.path.realpath(os.path.dirname(yuca.__file__))
    if where != os.path.realpath(os.path.join(src, "yuca")):
        print(f"yuca imported from {where}, not from {src}")
        return 2

    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = mod.cases(tier, seed)
    cases = json.loads(json.dumps(cases))   # cases have to be replayable

    budget = float(os.environ.get("VERIF_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 2400)))
    jobs = 1 if replay else min(getattr(mod, "JOBS", 8), max(1, len(cases)))
    results, left = [], 0
    ctx = mp.get_context("fork")
    pool = ctx.Pool(jobs, initializer=init_worker, initargs=(not replay and not os.environ.get("VERIF_LOUD"),), \
            maxtasksperchild=getattr(mod, "PER_CHILD", None))
    lost = 0
    try:
        todo = [(prop, c, i) for i, c in enumerate(cases)]
        it = pool.imap_unordered(one_case, todo, chunksize=1)
        for _ in range(len(todo)):
            try:
                r = it.next(timeout=max(1.0, budget - (time.time() - t0)))
            except mp.TimeoutError:
                left = len(todo) - len(results)
                break
            results.append(r)
    finally:
        pool.terminate()
        pool.join()

    # whole-run monitors
    rec = Rec(prop)
    if hasattr(mod, "finish") and not replay:
        mod.finish(cases, results, rec)
    checks = sum(r["checks"] for r in results) + rec.checks
    events, states = dict(rec.events), set(rec.states)
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        states.update(r["states"])
    errs = [(r["idx"], r["err"]) for r in results if r["err"]]

    known = known_findings(prop)
    viol, knownhit = [], {}
    for r in sorted(results, key=lambda r: r["idx"]):
        for b in r["bads"]:
            key = b["kind"]
            (knownhit.setdefault(key, []) if key in known else viol).append((r["idx"], b))
    for b in rec.bads:
        viol.append((None, b))

    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for key in knownhit:
        print(f"KNOWN-FINDING: property={prop} {known[key]} ({len(knownhit[key])} times)")
    shown = {}
    for idx, b in viol:
        if b["kind"] in shown:
            shown[b["kind"]] += 1
            continue
        shown[b["kind"]] = 1
        path = replay
        if not replay:
            path = os.path.join(rdir, f"{prop}-{b['kind'].replace(' ', '_').replace('/', '_')[:50]}.json")
            json.dump({"property": prop, "case": cases[idx] if idx is not None else None, \
                    "violation": b, "seed": seed}, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {b['kind']}: {json.dumps(b['detail'])[:1500]}")
    for k, n in shown.items():
        print(f"  {k}: {n} observation(s)")

    wall = time.time() - t0
    samples = []
    for r in results:
        if r["notes"] and len(samples) < 6:
            samples.append({"case": cases[r["idx"]], "observed": r["notes"]})
    if not samples:
        samples = [{"case": c} for c in cases[:3]]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, \
            "level": mod.LEVEL, \
            "coverage": {"evaluations": len(results), "distinct_nontrivial": len(states), \
                "rule": mod.RULE, "samples": samples, \
                "monitor_evaluations": checks, "events_observed": events, \
                "cases_not_run_for_lack_of_time": left}, \
            "assumptions": getattr(mod, "ASSUMPTIONS", []), \
            "wall_s": round(wall, 2), "violations": len(viol)}
    if getattr(mod, "EXHAUSTIVE", False) and not left:
        ev["coverage"]["exhaustive_part"] = mod.EXHAUSTIVE
    if not replay:
        json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)

    slow = sorted(results, key=lambda r: -r["s"])[:2]
    print(f"{prop} {tier}: {len(results)} executions ({left} not run), {checks} monitor evaluations, "\
            f"{len(states)} distinct observations, {len(viol)} violations, {wall:.1f} s "\
            f"(slowest case {slow[0]['s']:.1f} s, #{slow[0]['idx']})" if slow else f"{prop}: nothing ran")
    if viol:
        return 1
    if errs:
        for idx, e in errs[:3]:
            print(f"case {idx} {json.dumps(cases[idx])[:300]}:\n{e}")
        return 2
    if replay:
        return 0
    need = getattr(mod, "MIN_CHECKS", 20)
    if checks < need or not states:
        print(f"inconclusive: {checks} monitor evaluations, {len(states)} observations")
        return 2
    for name in getattr(mod, "MUST_SEE", []):
        if not events.get(name):
            print(f"inconclusive: no {name} observed")
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

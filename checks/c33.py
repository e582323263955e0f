"""An interrupted search leaves a complete log of its generations."""
import os, sys, signal, resource, shutil
import numpy as np
from gen import *
import checks.c21 as c21
import checks.c18 as c18

BUILD = True
LEVEL = "fault_enumeration"
RULE = ("one case = one search, repeated in child processes that are killed at (a sweep of) the lines they execute, the bytes they write and the times that pass, or told that the disk is "
        "full; the logs left are compared with those of the search that was not interrupted; distinct by fault and what is left")
MUST_SEE = ["killed at a line", "killed at a byte", "write error", "killed at a time", "completed", "log of some generations", "no log yet"]
MIN_CHECKS = 100


def cases(tier, seed):
    q = tier == "quick"
    return [{"seed": seed * 100459 + i, "what": "search", "ca": ["CCA", "Lenia", "NCA", "MetaCA"][i % 4], "mode": i % 3, "agent": "pattern" if i % 8 == 5 else "universe",
             "env": "SimpleHaltingWrapper", "lines": 40 if q else 160, "bytes": 12 if q else 60, "times": 5 if q else 30} for i in range(12 if q else 60)]


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    np.seterr(all="ignore")
    pop, gens = int(rng.integers(3, 6)), int(rng.integers(2, 5))
    seeds = [int(v) for v in rng.choice(500, int(rng.choice([1, 2])), replace=False)]
    if case["agent"] == "pattern":
        seeds = seeds[:1]; pop = 3
    es = c21.make(case, dict(population_size=pop, generations=gens, seed=seeds, replicates=1))
    base = os.getcwd()
    n = pop * gens
    real = es.get_fitness
    pipe = [None]
    ref_size = [0]            # of the largest log

    def measured(agent_index, *a, **k):
        os.write(pipe[0], b"m")          # a measurement begins
        return real(agent_index, *a, **k)
    es.get_fitness = measured

    def trial(name, arm):
        """runs the search with a fault; returns how it ended, the number of measurements begun, and the logs left"""
        d = os.path.join(base, name)
        os.makedirs(os.path.join(d, "logs")); os.makedirs(os.path.join(d, "assets"))
        def body():
            os.chdir(d)
            pipe[0] = os.open("measured", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            arm()
            es.search()
            sys.settrace(None)
        end = c18.child(body)
        began = os.path.getsize(os.path.join(d, "measured")) if os.path.exists(os.path.join(d, "measured")) else 0
        logs = {}
        for f in sorted(os.listdir(os.path.join(d, "logs"))):
            if f.endswith(".npy"):
                ref_size[0] = max(ref_size[0], os.path.getsize(os.path.join(d, "logs", f)))
                try:
                    logs[f] = c21.load(os.path.join(d, "logs", f))
                except Exception as e:
                    logs[f] = repr(e)
        if name != "lines":
            shutil.rmtree(d)
        return end, began, logs

    import yuca
    root = os.path.dirname(yuca.__file__)
    roots = (os.path.join(root, "cmaes"), os.path.join(os.path.dirname(np.__file__), "lib", "npyio"))
    end, began, ref = trial("whole", lambda: None)
    what = dict(ca=case["ca"], agent=case["agent"], pop=pop, gens=gens, seeds=seeds)
    paths = [f"{es.exp_id}_seed{s}.npy" for s in seeds]
    if not rec.expect(end == ("exit", 0) and began == n * len(seeds) and sorted(ref) == sorted(paths) and all(type(r) is dict for r in ref.values()), "search without faults", end=end, began=began, logs=list(ref), **what):
        return
    keys = ["mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness"]

    def look(fault, end, began, logs):
        rec.expect(set(logs) <= set(paths), "a log under another name", fault=fault, logs=list(logs), **what)
        total = 0
        for si, path in enumerate(paths):
            # generations of this seed that must be in its log, and may be
            mine = min(max(began - si * n, 0), n)
            must = (mine - 1) // pop if mine else 0
            if began > (si + 1) * n or end == ("exit", 0):
                must = gens
            may = mine // pop
            got = logs.get(path)
            if type(got) is str:
                rec.bad("a log cannot be read", fault=fault, end=end, log=path, error=got, **what)
                continue
            have = 0 if got is None else len(got["max_fitness"])
            total += have
            rec.event("log of some generations" if have else "no log yet")
            rec.expect(must <= have <= may, "log does not have the generations that were completed", fault=fault, end=end, have=have, must=must, may=may, **what)
            if got is not None:
                rec.expect(all(len(got[k]) == have for k in keys + ["elite_configs"]) and "kwargs" in got, "log is not complete", fault=fault, **what)
                rec.expect(all(maxdiff(np.array(got[k], dtype=float), np.array(ref[path][k][:have], dtype=float)) < 1e-9 for k in keys), "log differs from that of the same search", fault=fault, **what)
        rec.seen(fault[0], end, began, total)

    # where it runs
    seen_at = {}

    def tracer(at=None):
        count = [0]

        def tr(frame, ev, arg):
            if not frame.f_code.co_filename.startswith(roots):
                return None
            if ev == "line":
                count[0] += 1
                if at is None:
                    seen_at.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(count[0])
                elif count[0] == at:
                    os._exit(9)
            return tr
        return tr
    # (the line numbers are collected in a child as well, through a file)
    import json
    def collect():
        sys.settrace(tracer())
        import atexit
        s = es.search
        def search():
            s(); sys.settrace(None)
            json.dump(sorted(seen_at.values(), key=lambda v: v[0]), open("lines.json", "w"))
        es.search = search
    end, began, _ = trial("lines", collect)
    if not rec.expect(end == ("exit", 0), "search fails", end=end, **what):
        return
    lines = json.load(open("lines/lines.json"))
    shutil.rmtree("lines")
    at = [int(rng.choice(v)) for v in lines]
    at = [at[i] for i in rng.permutation(len(at))[:case["lines"]]]
    # the last steps of each generation, when it is written, more often
    rare = [v for v in lines if len(v) <= gens * len(seeds) * 3]
    at += [int(rng.choice(rare[i])) for i in rng.integers(len(rare), size=case["lines"] // 4)]
    for j, k in enumerate(at):
        end, began, logs = trial(f"l{j}", lambda: sys.settrace(tracer(k)))
        rec.event("killed at a line", end == ("exit", 9)); rec.event("completed", end == ("exit", 0))
        look(("killed at line event", k), end, began, logs)
    # after so many bytes of a file
    size = ref_size[0]
    for j, k in enumerate([0, 1, 100] + [int(v) for v in rng.integers(n * len(seeds) + 1, size + 50, case["bytes"])]):
        err = bool(j % 2)

        def arm():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if err else signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        # (what is measured is told apart from files by its small size)
        end, began, logs = trial(f"b{j}", arm) if k > n * len(seeds) else (None, 0, {})
        if end is None:
            continue
        rec.event("completed" if end == ("exit", 0) else "write error" if err else "killed at a byte")
        look(("write error at byte" if err else "killed at byte", k), end, began, logs)
    # after some time
    import time
    t0 = time.time(); trial("timed", lambda: None); span = time.time() - t0
    for j in range(case["times"]):
        t = float(rng.uniform(0.02, 0.9) * span)
        end, began, logs = trial(f"t{j}", lambda: (signal.signal(signal.SIGALRM, signal.SIG_DFL), signal.setitimer(signal.ITIMER_REAL, t)))
        rec.event("killed at a time" if end != ("exit", 0) else "completed")
        look(("killed at a time",), end, began, logs)
    rec.note({**what, "lines": len(lines), "log_bytes": size})

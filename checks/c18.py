"""A store cut short at any point leaves the zoo usable."""
import os, sys, resource, signal, hashlib
import numpy as np
from gen import *

LEVEL = "fault_enumeration"
RULE = ("one case = one zoo and one store into it; the store is repeated in a child process that is killed at every line it executes, and "
        "at (a sweep of) every byte it writes, or gets a write error there; after each, a new librarian looks at what is left; distinct by fault and resulting files")
MUST_SEE = ["killed at a line", "killed at a byte", "write error", "completed", "stored again"]
MIN_CHECKS = 500


def cases(tier, seed):
    n = 16 if tier == "quick" else 160
    return [{"seed": seed * 100279 + i, "sweep": 40 if tier == "quick" else 400} for i in range(n)]


def digest(d):
    return {f: hashlib.md5(open(os.path.join(d, f), "rb").read()).hexdigest() for f in sorted(os.listdir(d))}


def child(fn):
    """runs fn in a child process; returns how it ended"""
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 1); os.dup2(nul, 2)
            fn()
            os._exit(0)
        except BaseException:
            os._exit(3)
    _, st = os.waitpid(pid, 0)
    return ("signal", os.WTERMSIG(st)) if os.WIFSIGNALED(st) else ("exit", os.WEXITSTATUS(st))


def run_case(case, rec):
    from yuca.zoo.librarian import Librarian
    rng = rng_of(case)
    model = {}

    def pattern():
        return rng.random((1, int(rng.choice([1, 2])), int(rng.integers(1, 20)), int(rng.integers(1, 20)))).astype(str(rng.choice(["float32", "float64"])))

    name = str(rng.choice(["frog", "wave_glider", "x.y"]))
    p = pattern()
    if rng.random() < 0.2:
        p = rng.random((1, 1, 128, 128))      # larger than a buffer
    kw = dict(config_name="a_config.npy", entry_point="evolve.py -t x", commit_hash="0123456789abcdef", notes="some longer notes " * int(rng.integers(1, 5)))
    earlier = [(str(rng.choice(["frog", "wave_glider", "x.y", "other"])), pattern(), f"c{k}.npy") for k in range(int(rng.integers(0, 4)))]

    def setup(d):
        os.mkdir(d)
        got = {}
        with quiet():
            lib = Librarian(directory=d, verbose=False)
            for n, a, c in earlier:
                before = set(os.listdir(d))
                lib.store(a, pattern_name=n, config_name=c)
                full = [f for f in os.listdir(d) if f.endswith(".npy") and f not in before]
                got[full[0][:-4]] = (a, c)
        return got

    def store(d):
        with quiet():
            Librarian(directory=d, verbose=False).store(p, pattern_name=name, **kw)

    def look(d, model, before, fault, done):
        """what a librarian opened afterwards finds"""
        with quiet():
            after = digest(d)
            rec.expect(all(after.get(f) == h for f, h in before.items()), "an earlier pattern was damaged", fault=fault)
            lib = Librarian(directory=d, verbose=False)
            names = list(lib.index)
            rec.expect(set(model) <= set(names), "an earlier pattern is gone from the index", fault=fault, index=names)
            new = [n for n in names if n not in model]
            rec.expect(len(new) <= 1 and (not done or len(new) == 1), "store neither happened nor did not happen", fault=fault, index=names)
            for n in names:
                want, cfg = model.get(n, (p, kw["config_name"]))
                try:
                    got, meta = lib.load(n)
                except Exception as e:
                    rec.bad("a listed pattern cannot be loaded", fault=fault, name=n, error=repr(e))
                    continue
                rec.expect(got.dtype == want.dtype and np.array_equal(got, want), "a listed pattern is not complete", fault=fault, name=n)
                rec.expect(meta["ca_config"] == cfg and (n in model or (meta["entry_point"] == kw["entry_point"] and meta["commit_hash"] == kw["commit_hash"] \
                        and meta["notes"] == kw["notes"].strip())), "metadata of a listed pattern is not complete", fault=fault, name=n, meta=meta)
            rec.seen(fault[0], tuple(sorted(set(after) - set(before))), len(names))
            # and storing goes on
            if rng.random() < 0.3:
                rec.event("stored again")
                lib.store(p + 1, pattern_name=name, config_name="later.npy")
                lib2 = Librarian(directory=d, verbose=False)
                added = [n for n in lib2.index if n not in names]
                if rec.expect(len(added) == 1 and set(names) <= set(lib2.index), "storing again after a fault does not add one pattern", fault=fault, index=lib2.index):
                    got, meta = lib2.load(added[0])
                    rec.expect(np.array_equal(got, p + 1) and meta["ca_config"] == "later.npy", "pattern stored after a fault differs", fault=fault)
                for n in names:
                    got, meta = lib2.load(n)
                    want, cfg = model.get(n, (p, kw["config_name"]))
                    rec.expect(np.array_equal(got, want) and meta["ca_config"] == cfg, "storing again damages what was there", fault=fault, name=n)

    k = 0

    def trial(fault, body):
        nonlocal k
        k += 1
        d = os.path.abspath(f"zoo{k}")
        model = setup(d)
        before = digest(d)
        end = child(lambda: body(d))
        look(d, model, before, fault + (end,), end == ("exit", 0))
        import shutil
        shutil.rmtree(d)
        return end

    # killed at every line
    def lines(d, at):
        count = [0]
        import yuca, numpy
        roots = (os.path.dirname(yuca.__file__), os.path.join(os.path.dirname(numpy.__file__), "lib", "npyio"))
        def tr(frame, ev, arg):
            if not frame.f_code.co_filename.startswith(roots):
                return None
            if ev == "line":
                count[0] += 1
                if count[0] == at:
                    os._exit(9)
            return tr
        lib = None
        with quiet():
            lib = Librarian(directory=d, verbose=False)
            sys.settrace(tr)
            lib.store(p, pattern_name=name, **kw)
            sys.settrace(None)
    at = 1
    while at < 400:
        end = trial(("killed at line event", at), lambda d: lines(d, at))
        if end == ("exit", 0):
            rec.event("completed")
            break
        if end != ("exit", 9):
            rec.bad("store fails", end=end, at=at)
            break
        rec.event("killed at a line")
        at += 1
    # killed, or told that the disk is full, after so many bytes in a file
    size = len(p.tobytes()) + 256
    limits = sorted(set([0, 1, 63, 64, 127, 128, 129, size] + [int(v) for v in rng.integers(0, size, case["sweep"])]))
    for n in limits:
        for err in (False, True):
            def body(d):
                with quiet():
                    lib = Librarian(directory=d, verbose=False)
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN if err else signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                    lib.store(p, pattern_name=name, **kw)
            end = trial(("write error" if err else "killed at byte", n), body)
            rec.event("completed" if end == ("exit", 0) else "write error" if err else "killed at a byte")
    rec.note({"line_events": at, "byte_limits": len(limits), "earlier": len(earlier)})

"""Saved configs restore the automaton that saved them."""
import os
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one automaton (kind, channels, rule from config or initialization, then a random history of parameter, step size "
        "and radius changes and steps) saved to a file and restored in a fresh automaton, in a differently configured one, and once "
        "more from the copy; non-trivial if the compared evolution moved")
MUST_SEE = ["saved", "restored", "name of a shipped config", "made from a file", "saved over its source"]


def shipped_names():
    repo = os.environ.get("VERIF_REPO", "/repo")
    return sorted(f for f in os.listdir(os.path.join(repo, "ca_configs")) if f.endswith(".npy"))


def cases(tier, seed):
    n = 600 if tier == "quick" else 3500
    return [{"seed": seed * 100189 + i, "ca": KINDS[i % len(KINDS)], "how": ["config", "init"][(i // 7) % 2], "f64": int(i % 4 == 3)} for i in range(n)]


def run_case(case, rec):
    import torch
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    rng = rng_of(case)
    kind = case["ca"]
    ext = 2 if kind == "RxnDfn" else int(rng.choice([1, 1, 2, 3, 4]))
    internal = 2 if kind == "RxnDfn" else ext * int(rng.choice([1, 2]))
    if kind in CCAS and rng.random() < 0.05:
        # very many channels
        ext, internal = [(1, 9), (2, 10), (10, 10), (5, 10)][int(rng.integers(4))]
    kw = dict(internal_channels=internal, external_channels=ext, kernel_radius=int(rng.integers(2, 7)),
              conv_mode=str(rng.choice(["circular", "zeros", "reflect"])), kernel_peaks=int(rng.integers(1, 4)),
              alive_threshold=float(rng.choice([0.1, 0.25])))
    if kind == "NCA":
        kw.update(hidden_channels=int(rng.integers(2, 9)), activation=str(rng.choice(["Gaussian", "ReLU", "Tanh", "SiLU"])), dropout_rate=0.2)
    if kind == "CODE":
        kw.update(error_threshold=float(rng.choice([1e-1, 1e-2])), min_dt=0.05, max_dt=float(rng.choice([0.3, 0.5])))
    if kind == "RxnDfn":
        kw = {}
    with quiet():
        torch.manual_seed(case["seed"] % 10007); np.random.seed(case["seed"] % 10007)
        ca = build(kind, **kw)
        if kind in CCAS and case["how"] == "config":
            c = config(rng, internal, ext, rmax=6)
            c["instant_kwargs"] = kw
            ca.load_config(c)
        source = None
        if kind != "RxnDfn" and rng.random() < 0.3:
            # made from a file, or from a file and a log, which may be gone or changed later
            source = os.path.abspath("source.npy")
            c = ca.make_config()
            c.pop("instant_kwargs")
            np.save(source, c)
            files = {"ca_config": source}
            if kind in CCAS and rng.random() < 0.5:
                np.save("log.npy", {"elite_params": [np.stack([ca.get_params() * 0.9] * 2)]})
                files["input_filepath"] = os.path.abspath("log.npy")
            ca = build(kind, **kw, **files)
        ca.no_grad()
        g = tt(state(rng, 2, ext, 20, 18, kind=str(rng.choice(["uniform", "sparse", "blob"])))[1])
        for s in range(int(rng.integers(0, 5))):
            op = str(rng.choice(["params", "dt", "radius", "step"]))
            if op == "params":
                p = ca.get_params()
                ca.set_params(p * rng.uniform(0.8, 1.2, p.shape))
            elif op == "dt" :
                ca.set_dt(float(rng.uniform(0.05, 0.9)))
            elif op == "radius":
                ca.set_kernel_radius(int(rng.integers(2, 7)))
            else:
                ca(g)
        if kind == "RxnDfn":
            ca.set_dx(float(rng.uniform(1 / 330., 1 / 150.)))
        if kind == "CODE":
            ca.reset()
        before = run(ca, g, 4)
        info = dict(ca=kind, how=case["how"], channels=(internal, ext))
        # a file of the user's is that file, even if it has the name of a shipped one
        path = os.path.abspath(str(rng.choice(["a.npy", "with space.npy", "exp_x_seed3.npy"])))
        if rng.random() < 0.3:
            path = str(rng.choice(shipped_names()))
            rec.event("name of a shipped config")
        elif source and rng.random() < 0.5:
            path = source
            rec.event("saved over its source")
        if source:
            rec.event("made from a file")
            for f in files.values():
                if rng.random() < 0.5:
                    os.remove(f)
                else:
                    np.save(f, build(kind).make_config() if f == source else {"elite_params": [np.zeros((2, 3))]})
        if kind in ("CODE", "RandomStepCA"):
            np.random.seed(1)
        c1 = ca.make_config()
        ca.save_config(path)
        rec.event("saved")
        rec.expect(os.path.exists(path), "no file saved", path=path)
        rec.expect(maxdiff(run(ca, g, 4), before) < 1e-7, "saving a config changes the automaton", **info)
        # into a fresh automaton, and into one that has been something else
        cls = class_of(kind)
        fresh = build(kind)
        other = build(kind, **kw)
        if kind in CCAS:
            other.load_config(config(rng, 2, 2, rmax=4, conv_mode="zeros"))
        used = ca.get_params()
        for who, b in (("fresh", fresh), ("used", other)):
            b.restore_config(path)
            rec.event("restored")
            tol = 1e-6 if case["f64"] else 2e-5
            after = run(b, g, 4)
            rec.expect(maxdiff(after, before) < (1e-4 if not case["f64"] else 1e-6), "restored automaton evolves differently", into=who,
                       diff=maxdiff(after, before), **info)
            rec.expect(np.allclose(b.get_params(), used, rtol=1e-5, atol=1e-9), "restored automaton has other parameters", into=who, **info)
            if kind not in ("CODE", "RandomStepCA"):
                rec.expect(abs(b.get_dt() - ca.get_dt()) < 1e-6, "restored step size differs", got=b.get_dt(), want=ca.get_dt(), **info)
            if kind == "RxnDfn":
                rec.expect(abs(b.get_dx() - ca.get_dx()) < 1e-9, "restored dx differs")
            else:
                rec.expect((b.internal_channels, b.external_channels) == (internal, ext), "restored channels differ", **info)
                rec.expect(b.get_kernel_radius() == ca.get_kernel_radius(), "restored radius differs", **info)
        if maxdiff(before[0], npa(g)) > 1e-6:
            rec.seen(kind, fp(before, 5))
        # a copy of the copy, and a config handed over without a file
        fresh.save_config("again.npy")
        third = build(kind)
        third.restore_config("again.npy")
        rec.expect(maxdiff(run(third, g, 4), before) < (1e-4 if not case["f64"] else 1e-6), "copy of the copy evolves differently", **info)
        fourth = build(kind)
        fourth.load_config(c1)
        rec.expect(maxdiff(run(fourth, g, 4), before) < (1e-4 if not case["f64"] else 1e-6), "config restores a different automaton", **info)
        # saving an explicit config saves that one
        ca.save_config("explicit.npy", config=c1)
        back = np.load("explicit.npy", allow_pickle=True).reshape(1)[0]
        rec.expect(same(back, c1), "file does not hold the config it was given", **info)
        # the record does not follow later changes of the automaton
        text = np.load(path, allow_pickle=True).reshape(1)[0]
        p = ca.get_params()
        if len(p):
            ca.set_params(p * 0.5)
        ca.set_dt(0.77)
        ca.set_kernel_radius(3 if kind != "RxnDfn" else 2)
        fifth = build(kind)
        fifth.load_config(c1)
        rec.expect(maxdiff(run(fifth, g, 4), before) < (1e-4 if not case["f64"] else 1e-6), "config changes along with the automaton it was made from", **info)
    rec.note({"ca": kind, "keys": sorted(c1)})

"""Loading a config: only the config counts, and it stays the caller's."""
import copy, os
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = two automata of one kind with different histories (other configs, parameters, radii, step sizes, steps) that load "
        "the same config; their evolutions and the caller's config are compared, also while one of them is changed further; "
        "non-trivial if the compared evolution moved")
MUST_SEE = ["load", "interference"]


def cases(tier, seed):
    n = 600 if tier == "quick" else 3500
    return [{"seed": seed * 100193 + i, "ca": KINDS[i % len(KINDS)], "inst": (i // 7) % 2, "by": ["dict", "file"][(i // 14) % 2]} for i in range(n)]


def some_config(rng, kind, internal, ext, mode, inst, dt=True):
    if kind == "RxnDfn":
        c = {"neighborhood_kernel_config": {"name": "LaplacianOfGaussian", "radius": int(rng.choice([1, 2, 3])), "kernel_kwargs": {"sigma": 0.5}},
             "params": np.array([2e-5 * rng.uniform(0.3, 1.2), 1e-5 * rng.uniform(0.3, 1.2), rng.uniform(0.02, 0.07), rng.uniform(0.04, 0.065)])}
        for key, v in (("dx", rng.uniform(1 / 330., 1 / 150.)), ("dt", rng.uniform(0.2, 0.8))):
            if rng.random() < 0.7:
                c[key] = float(v)
        return c
    if kind == "NCA":
        hidden = int(rng.integers(2, 8)) if inst else 6
        kc = kernel_config(rng, rmax=6)
        nk = sum(np.asarray(v).size for v in kc.get("kernel_kwargs", {}).values())
        n = hidden * 2 * internal + hidden * hidden + ext * hidden + 4
        c = {"neighborhood_kernel_config": kc,
             "params": np.concatenate([rng.normal(0, 1, n), *[np.asarray(v).ravel() for v in kc.get("kernel_kwargs", {}).values()]])}
        ik = {"internal_channels": internal, "external_channels": ext, "hidden_channels": hidden, "activation": "Gaussian", "conv_mode": mode}
    else:
        c = config(rng, internal, ext, rmax=6, conv_mode=mode)
        ik = c.pop("instant_kwargs")
        if kind == "CODE":
            ik.update(error_threshold=1e-2, min_dt=0.05)
        c.pop("dt")
    if rng.random() < 0.7:
        c["dt"] = float(rng.uniform(0.05, 0.9))
    if inst:
        c["instant_kwargs"] = ik
    return c


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    kind = case["ca"]
    ext = 2 if kind == "RxnDfn" else int(rng.choice([1, 1, 2, 3, 4]))
    internal = 2 if kind == "RxnDfn" else ext * int(rng.choice([1, 2]))
    if kind in CCAS and rng.random() < 0.05:
        # very many channels
        ext, internal = [(1, 9), (2, 10), (10, 10), (5, 10)][int(rng.integers(4))]
    mode = "circular" if kind == "RxnDfn" else str(rng.choice(["circular", "zeros"]))
    inst = case["inst"]
    kw = {} if kind == "RxnDfn" else dict(internal_channels=internal, external_channels=ext, conv_mode=mode, kernel_radius=int(rng.integers(2, 7)))
    if kind == "NCA":
        kw.update(hidden_channels=6, activation="Gaussian")
    if kind == "CODE":
        kw.update(error_threshold=1e-2, min_dt=0.05)
    tol = 1e-5
    with quiet():
        cfg = some_config(rng, kind, internal, ext, mode, inst)
        keep = copy.deepcopy(cfg)
        g = tt(state(rng, 2, ext, 20, 18, kind=str(rng.choice(["uniform", "sparse", "blob"])))[1])
        a = build(kind, **kw)
        b = build(kind, **(kw if not inst or kind == "RxnDfn" else {}))
        # a history for b
        for s in range(int(rng.integers(1, 5))):
            op = str(rng.choice(["load", "params", "dt", "radius", "step", "grad"]))
            if op == "load":
                if inst and kind != "RxnDfn":
                    e2 = int(rng.choice([1, 2, 3])); i2 = e2 * int(rng.choice([1, 2]))
                    b.load_config(some_config(rng, kind, i2, e2, "zeros", True))
                else:
                    b.load_config(some_config(rng, kind, internal, ext, mode, inst))
            elif op == "params" and len(b.get_params()):
                p = b.get_params()
                b.set_params(p * rng.uniform(0.7, 1.3, p.shape))
            elif op == "dt":
                b.set_dt(float(rng.uniform(0.1, 0.9)))
            elif op == "radius":
                b.set_kernel_radius(int(rng.integers(2, 7)))
            elif op == "step":
                b(torch.rand(1, b.external_channels, 20, 18))
            else:
                b.no_grad()
        def load(ca):
            rec.event("load")
            if case["by"] == "dict":
                ca.load_config(cfg)
            else:
                np.save("the config.npy", cfg)
                ca.restore_config("the config.npy")
        load(a); load(b)
        a.no_grad(); b.no_grad()
        info = dict(ca=kind, instant_kwargs=inst, channels=(internal, ext))
        rec.expect(same(cfg, keep), "loading a config modifies it", **info)
        if kind not in ("CODE", "RandomStepCA"):
            want = cfg.get("dt", 0.5 if kind == "RxnDfn" else 0.1)
            rec.expect(abs(a.get_dt() - want) < 1e-6 and abs(b.get_dt() - want) < 1e-6, "step size is not that of the config (or the default)",
                       got=(a.get_dt(), b.get_dt()), want=want, **info)
        ra, rb = run(a, g, 4), run(b, g, 4)
        rec.expect(maxdiff(ra, rb) < tol, "what was loaded before changes the loaded rule", diff=maxdiff(ra, rb), **info)
        rec.expect(np.allclose(a.get_params(), b.get_params(), rtol=1e-6), "what was loaded before changes the loaded parameters", **info)
        if maxdiff(ra[0], npa(g)) > 1e-6:
            rec.seen(kind, inst, fp(ra, 5))
        # b changes further, a and the config do not notice
        for s in range(3):
            rec.event("interference")
            op = ["params", "radius", "dt"][s]
            if op == "params" and len(b.get_params()):
                p = b.get_params()
                b.set_params(p * 0.6)
            elif op == "radius":
                b.set_kernel_radius(int(rng.integers(2, 7)))
            else:
                b.set_dt(0.66)
            b(g)
            rec.expect(same(cfg, keep), "changing the automaton modifies the config it was loaded from", op=op, **info)
            rec.expect(maxdiff(run(a, g, 4), ra) < 1e-7, "automata loaded from one config interfere", op=op, **info)
        c = build(kind, **kw)
        load(c); c.no_grad()
        rec.expect(maxdiff(run(c, g, 4), ra) < tol, "the config describes another rule after use", **info)
        load(b); b.no_grad()
        rec.expect(maxdiff(run(b, g, 4), ra) < tol, "loading the config again does not restore it", diff=maxdiff(run(b, g, 4), ra), **info)
    rec.note({"ca": kind, "keys": sorted(cfg)})

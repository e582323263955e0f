"""Parameter vectors round trip and determine the rule."""
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one automaton (kind, channels, rule from a random config or its random initialization) given a history of "
        "parameter vectors; after each, the vector is read back and the step compared with a twin that never saw the other vectors "
        "and with an independent model of the rule the vector describes; non-trivial if the new vector changed the step")
MUST_SEE = ["set", "model step", "restored", "changed in place", "nearly the same"]


def cases(tier, seed):
    n = 600 if tier == "quick" else 4000
    return [{"seed": seed * 100183 + i, "ca": KINDS[i % len(KINDS)], "how": ["config", "init"][(i // 7) % 2], "f64": int(i % 3 != 2)} for i in range(n)]


def vector(rng, size, base):
    r = rng.random()
    if r < 0.4:
        return rng.uniform(0.05, 0.9, size)
    if r < 0.8:
        return base * rng.uniform(0.6, 1.4, size)
    return np.abs(rng.normal(0.3, 0.3, size)) + 0.01


def run_case(case, rec):
    import torch
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    tol = 1e-9 if case["f64"] else 1e-5
    rng = rng_of(case)
    kind = case["ca"]
    ext = 2 if kind == "RxnDfn" else int(rng.choice([1, 1, 2, 3, 4]))
    internal = 2 if kind == "RxnDfn" else ext * int(rng.choice([1, 2]))
    if kind in CCAS and rng.random() < 0.05:
        # very many channels
        ext, internal = [(1, 9), (2, 10), (10, 10), (5, 10)][int(rng.integers(4))]
    mode = str(rng.choice(["circular", "zeros"]))
    kw = dict(internal_channels=internal, external_channels=ext, kernel_radius=int(rng.integers(2, 7)), conv_mode=mode,
              kernel_peaks=int(rng.integers(1, 4)))
    if kind == "NCA":
        kw.update(hidden_channels=int(rng.integers(2, 9)), activation=str(rng.choice(["Gaussian", "ReLU", "Tanh"])))
    if kind == "CODE":
        kw.update(error_threshold=1e-2, min_dt=0.05)
    with quiet():
        cfg = None
        if kind in CCAS and case["how"] == "config":
            cfg = config(rng, internal, ext, rmax=6, conv_mode=mode, **({"error_threshold": 1e-2, "min_dt": 0.05} if kind == "CODE" else {}))
        def make():
            torch.manual_seed(case["seed"] % 9973); np.random.seed(case["seed"] % 9973)
            ca = build(kind, **kw)
            if cfg is not None:
                ca.load_config(cfg)
            ca.no_grad()
            return ca
        ca = make()
        h, w = int(rng.integers(16, 22)), int(rng.integers(16, 22))
        name, g = state(rng, 2, ext, h, w, kind=str(rng.choice(["uniform", "sparse", "blob"])))
        g = tt(g)
        p0 = np.array(ca.get_params(), dtype=np.float64)
        info = dict(ca=kind, how=case["how"], channels=(internal, ext))
        if cfg is not None:
            want = cfg_params(cfg, kind == "Lenia")
            rec.expect(maxdiff(p0, want) < max(tol, 1e-7), "parameters are not those of the config", diff=maxdiff(p0, want), **info)
        if kind == "RxnDfn":
            rec.expect(len(p0) == 4, "Gray-Scott has four parameters", n=len(p0))
        if p0.size == 0:
            rec.event("no parameters")
            return
        first = run(ca, g, 3)
        last = first
        for s in range(3):
            p = vector(rng, p0.size, p0)
            if kind == "NCA":
                p = p * rng.choice([-1, 1], p.size) if rng.random() < 0.5 else p
                p[-3 * kw["kernel_peaks"]:] = np.abs(p[-3 * kw["kernel_peaks"]:])
            if kind == "RxnDfn":
                p = np.array([2e-5 * rng.uniform(0.2, 1.5), 1e-5 * rng.uniform(0.2, 1.5), rng.uniform(0.01, 0.1), rng.uniform(0.03, 0.08)])
            keep = p.copy()
            ca.set_params(p)
            rec.event("set")
            rec.expect(np.array_equal(p, keep), "vector modified by setting it", **info)
            got = np.array(ca.get_params(), dtype=np.float64)
            rec.expect(got.shape == p.shape and np.allclose(got, p, rtol=max(tol, 1e-6), atol=1e-12), "vector read back differs from the one set",
                       diff=maxdiff(got, p), **info)
            now = run(ca, g, 3)
            twin = make()
            twin.set_params(keep.copy())
            rec.expect(maxdiff(now, run(twin, g, 3)) < tol, "rule depends on parameters set earlier", diff=maxdiff(now, run(twin, g, 3)), **info)
            # the model of the rule the vector describes
            want = None
            if kind in ("CCA", "Lenia") and cfg is not None:
                want = ref.cca_step(npa(g), cfg_with(cfg, keep, kind == "Lenia"), internal=internal, mode=mode, lenia=kind == "Lenia")
            elif kind == "NCA":
                kp = keep[-3 * kw["kernel_peaks"]:]
                kern = ref.kernel({"name": "GaussianMixture", "radius": kw["kernel_radius"], "kernel_kwargs": {"parameters": kp}})
                want = ref.nca_step(npa(g), keep, kern, ext, internal, kw["hidden_channels"], kw["activation"], ca.get_dt(), mode)
            elif kind == "RxnDfn":
                kern = ref.kernel({"name": "LaplacianOfGaussian", "radius": 1, "kernel_kwargs": {"sigma": 0.5}})
                want = ref.gray_scott(npa(g), *keep, ca.get_dx(), ca.get_dt(), kern)
            if want is not None:
                rec.event("model step")
                # float32 evaluation of steep growth functions: wider, but far below any parameter change
                rec.expect(maxdiff(now[0], want) < (1e-5 if case["f64"] else 5e-3), "step is not the one the parameters describe",
                           diff=maxdiff(now[0], want), **info)
            if maxdiff(now, last) > 1e-6:
                rec.seen(kind, fp(now, 5))
            last = now
            if s == 1:
                # the caller's vector, used again with other values
                rec.event("changed in place")
                p *= rng.uniform(0.8, 1.2, p.shape)
                ca.set_params(p)
                got2 = np.array(ca.get_params(), dtype=np.float64)
                rec.expect(np.allclose(got2, p, rtol=max(tol, 1e-6), atol=1e-12), "vector read back differs from the one set", diff=maxdiff(got2, p), how2="changed in place", **info)
                twin.set_params(p.copy())
                rec.expect(maxdiff(run(ca, g, 3), run(twin, g, 3)) < tol, "rule depends on parameters set earlier", how2="changed in place", **info)
                if case["f64"]:
                    # a vector as near as a search that has converged sends them
                    rec.event("nearly the same")
                    near = p * (1 + rng.choice([3e-4, 3e-6, 2e-8, -4e-7]) * rng.choice([0, 1, 1], p.shape))
                    ca.set_params(near)
                    fresh = make()
                    fresh.set_params(near.copy())
                    a, b = run(ca, g, 3), run(fresh, g, 3)
                    rec.expect(maxdiff(a, b) < 1e-11, "rule depends on parameters set earlier", how2="nearly the same", diff=maxdiff(a, b), **info)
                p[:] = keep
                ca.set_params(p)
                rec.expect(maxdiff(run(ca, g, 3), now) < tol, "setting a vector again does not restore the rule", **info)
            # neither the caller's vector nor the returned one is tied to the automaton
            p *= 0.0
            got *= 0.0
            ca.get_params()[:] = 7.0
            rec.expect(maxdiff(run(ca, g, 3), now) < tol, "changing a vector afterwards changes the rule", **info)
            rec.expect(np.allclose(ca.get_params(), keep, rtol=max(tol, 1e-6), atol=1e-12), "changing a vector afterwards changes the parameters", **info)
        ca.set_params(p0.copy())
        rec.event("restored")
        # in float32 the vector holds exactly what the automaton held, in both precisions
        rec.expect(maxdiff(run(ca, g, 3), first) < max(tol, 1e-9), "setting the first parameters again does not restore the rule",
                   diff=maxdiff(run(ca, g, 3), first), **info)
    rec.note({"ca": kind, "parameters": int(p0.size)})

"""The documented update rule of continuous CA (glaberish, and Lenia)."""
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one rule built from a generated config (all kernel and growth families, 1-6 internal and 1-4 external "
        "channels, boundary modes, step sizes, identity kernels); every observed step is compared with an independent "
        "float64 model applied to the state it started from; non-trivial if the state changed, distinct by new state")
MUST_SEE = ["step", "step64", "neighborhood kernel given", "identity kernel given", "kernel of each channel", "recipe", "large world"]
ASSUMPTIONS = ["float32 steps may differ from exact arithmetic by 2e-3*dt+1e-5 scaled by the steepness of the growth function"]


def cases(tier, seed):
    n = 1120 if tier == "quick" else 5000
    out = []
    for i in range(n):
        out.append({"seed": seed * 100019 + i, "ca": "Lenia" if i % 5 == 4 else "CCA", "f64": int(i % 3 != 0),
                    "chan": i % 4, "steps": 3, "mode": ["circular", "circular", "zeros", "reflect", "circular"][i % 5 if i % 2 else 0],
                    "given": int(i % 7 == 3), "recipe": int(i % 16 == 1), "half": int(i % 30 == 6), "big": int(i % 28 == 9 or i % 28 == 20)})
    return out


def steepness(cfg):
    """largest slope of a growth function, on a grid"""
    x = np.linspace(-0.2, 1.2, 3001)
    m = 1.0
    for key in ["genesis_config", "persistence_config"]:
        for c in cfg[key] if isinstance(cfg[key], list) else [cfg[key]]:
            m = max(m, float(np.abs(np.diff(ref.growth(c, x))).max() / (x[1] - x[0])))
    return m


def give_kernels(rng, ca, internal, rec):
    """kernels given as arrays, of no particular shape or symmetry, for all channels or each its own"""
    out = []
    for what in ("neighborhood", "identity"):
        if rng.random() < 0.35:
            out.append(None)
            continue
        k, each = 2 * int(rng.integers(0 if what == "identity" else 1, 5)) + 1, internal > 1 and rng.random() < 0.5
        w = rng.uniform(0, 1, (internal if each else 1, 1, k, k))
        w /= w.sum((2, 3), keepdims=True)
        form = w if each or rng.random() < 0.5 else w[0, 0]
        if what == "neighborhood":
            given = tt(form) if rng.random() < 0.5 else form
            keep = np.array(form)
            ca.add_neighborhood_kernel(given)
            ca.initialize_neighborhood_layer()
        else:
            given = tt(form)
            keep = np.array(form)
            ca.add_identity_kernel(kernel=given)
            ca.initialize_id_layer()
        rec.event(what + " kernel given")
        rec.event("kernel of each channel", each)
        rec.expect(maxdiff(np.array(npa(given) if hasattr(given, "detach") else given), keep) < 1e-6, "taking a kernel changes it")
        out.append([w[j, 0] for j in range(internal)] if each else w[0, 0])
    return out


def recipe(rng, rec):
    """configs of well known rules, and what they have to be"""
    import yuca.configs as C
    name = str(rng.choice(["smooth life", "smooth life", "orbium", "geminium"]))
    r = int(rng.integers(3, 14))
    rec.event("recipe")
    if name == "smooth life":
        b = np.sort(rng.uniform(0.1, 0.6, (int(rng.integers(1, 3)), 2)), 1).tolist()
        s = np.sort(rng.uniform(0.1, 0.6, (int(rng.integers(1, 3)), 2)), 1).tolist()
        kw = {}
        if rng.random() < 0.7:
            kw["birth_intervals"] = b
        else:
            b = [[0.278, 0.365]]
        if rng.random() < 0.7:
            kw["survival_intervals"] = s
        else:
            s = [[0.267, 0.445]]
        got = C.get_smooth_life_config(radius=r, **kw)
        want = {"neighborhood_kernel_config": {"name": "SmoothLifeKernel", "radius": r, "kernel_kwargs": {"r_a": 1.05, "r_i": 1 / 3}},
                "identity_kernel_config": {"name": "SmoothLifeKernel", "radius": r, "kernel_kwargs": {"r_a": 1 / 3, "r_i": 0.0}},
                "genesis_config": {"name": "SmoothIntervals", "parameters": np.array(b), "alpha": 0.028, "mode": 1},
                "persistence_config": {"name": "SmoothIntervals", "parameters": np.array(s), "alpha": 0.147, "mode": 1}, "dt": 1.0}
    elif name == "orbium":
        got = C.get_orbium_config(radius=r)
        g = {"name": "Gaussian", "mu": 0.15, "sigma": 0.015, "mode": 1}
        want = {"neighborhood_kernel_config": {"name": "Gaussian", "radius": r, "kernel_kwargs": {"mu": 0.5, "sigma": 0.15}}, "genesis_config": g, "persistence_config": g}
    else:
        got = C.get_geminium_config(radius=r)
        g = {"name": "Gaussian", "mu": 0.26, "sigma": 0.036, "mode": 1}
        want = {"neighborhood_kernel_config": {"name": "GaussianMixture", "radius": r, "kernel_kwargs": {"parameters": [0.5, 0.093809, 0.033, 1.0, 0.28143, 0.033, 2 / 3, 0.46904, 0.033]}},
                "genesis_config": g, "persistence_config": g}
    return got, want


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    lenia = case["ca"] == "Lenia"
    ext = [1, 1, int(rng.integers(2, 4)), 4][case["chan"]]
    if case["chan"] == 0:
        internal = 1
    elif case["chan"] == 1:
        internal = int(rng.integers(1, 5))
    else:
        internal = ext * int(rng.integers(1, 3))
        if ext == 2 and rng.random() < 0.3 and not lenia:
            internal = 3     # channels mixed by the neighborhoods
    mode = case["mode"]
    extra = {}
    if ext >= 4 and rng.random() < 0.5:
        extra["alive_threshold"] = float(rng.uniform(0.05, 0.6))
    if case.get("big"):
        # large worlds and wide kernels, of few channels
        rec.event("large world")
        ext, internal, extra = 1, int(rng.integers(1, 3)), {}
        mode = str(rng.choice(["circular", "zeros", "reflect"]))
    cfg = config(rng, internal, ext, rmax=24 if case.get("big") else 12, conv_mode=mode, **extra)
    if case.get("big"):
        n, i = cfg["neighborhood_kernel_config"], cfg.get("identity_kernel_config")
        n["radius"] = int(rng.integers(10, 25))
        if i:
            i["radius"] = min(i["radius"], n["radius"])
    if rng.random() < 0.2:
        del cfg["dt"]
    given_cfg = cfg
    if case["recipe"] and not lenia:
        given_cfg, cfg = recipe(rng, rec)
        ext = internal = 1
        mode, extra = "circular", {}
    with quiet():
        ca = from_config(case["ca"], given_cfg)
        if rng.random() < 0.25:
            ca.set_dt(float(rng.uniform(0.02, 1.0)))
            dt = ca.get_dt()
        else:
            dt = cfg.get("dt", 0.1)
        nk = ik = None
        if case["given"]:
            nk, ik = give_kernels(rng, ca, internal, rec)
        ca.no_grad()
        r = cfg["neighborhood_kernel_config"]["radius"]
        lo = max(2 * 7 + 1, r + 2)
        h, w = int(rng.integers(lo, lo + 24)), int(rng.integers(lo, lo + 24))
        if case.get("big"):
            h, w = (int(v) for v in rng.choice([64, 96, 127, 128, 128, 129, 160, 200, 256, 256], 2))
        kind, g = state(rng, int(rng.choice([1, 2, 3])) if not case.get("big") else 1, ext, h, w, None if not case.get("big") else str(rng.choice(["uniform", "sparse", "binary", "ramp"])))
        u = tt(g)
        if case["half"] and not case["f64"]:
            u = u.to(torch.float16)
        steep = steepness(cfg)
        for s in range(case["steps"] if not case.get("big") else 2):
            new = ca(u)
            want = ref.cca_step(npa(u), cfg, dt=dt, internal=internal, mode=mode, lenia=lenia,
                                threshold=extra.get("alive_threshold", 0.1), nk=nk, ik=ik)
            err = np.abs(npa(new) - want) if tuple(new.shape) == want.shape else np.array([np.inf])
            if u.dtype == torch.float16:
                tol, name = 0.004 + 0.004 * dt * steep, "step16"
            elif case["f64"]:
                tol, name = 1e-8 + dt * 2e-7 * steep, "step64"
            else:
                tol, name = 1e-5 + dt * 1e-5 * steep, "step"
            rec.event(name)
            rec.event(cfg["neighborhood_kernel_config"]["name"] + " kernel")
            rec.expect(err.max() <= tol, "step differs from the documented rule", ca=case["ca"], err=float(err.max()), tol=tol,
                       channels=(internal, ext), mode=mode, dt=float(dt), step=s,
                       kernel=cfg["neighborhood_kernel_config"], genesis=cfg["genesis_config"], persistence=cfg["persistence_config"])
            if not torch.equal(new, u):
                rec.seen(case["ca"], fp(want, 6))
            u = new
    rec.note({"state": kind, "shape": [int(v) for v in u.shape], "internal": internal, "steepness": round(steep, 1), "max_err": float(err.max())})

"""Growth functions: documented closed forms on all inputs."""
import copy
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = a batch of generated growth functions evaluated on arrays and tensors of several shapes and precisions (values "
        "in and far outside [0, 1]), compared with independent closed forms; distinct by output values")
MUST_SEE = ["growth", "set later"]


def cases(tier, seed):
    n = 240 if tier == "quick" else 800
    return [{"seed": seed * 100169 + i, "n": 14, "f64": int(i % 2)} for i in range(n)]


def arr_(v):
    return np.asarray(npa(v) if hasattr(v, "detach") else v, dtype=np.float64).ravel()


def again(rng, v):
    """other values of the same form"""
    if hasattr(v, "detach"):
        return (v * tt(rng.uniform(0.6, 1.6, tuple(v.shape)))).to(v.dtype)
    if isinstance(v, float):
        return v * float(rng.uniform(0.6, 1.6))
    return np.asarray(v) * rng.uniform(0.6, 1.6, np.shape(v))


def run_case(case, rec):
    import torch
    from yuca import activations as A
    rng = rng_of(case)
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    for _ in range(case["n"]):
        name = str(rng.choice(GROWTHS + ["CosOverX2", "Identity", "SmoothSteps", "Meta"]))
        shape = tuple(int(v) for v in rng.integers(1, 9, int(rng.choice([1, 2, 4]))))
        x = rng.uniform(-0.3, 1.3, shape) if rng.random() < 0.8 else rng.normal(0, 5, shape)
        if rng.random() < 0.2:
            x = np.clip(np.round(x * 2) / 2, 0, 1)
        if name == "SmoothSteps":
            iv = [[float(a), float(a + b)] for a, b in zip(rng.uniform(0, 0.7, 3), rng.uniform(0.02, 0.3, 3))][:int(rng.integers(1, 4))]
            al = float(rng.uniform(0.01, 0.2))
            keep = x.copy()
            with np.errstate(over="ignore"):
                y = A.get_smooth_steps_fn(iv, alpha=al)(x)
            want = ref.growth({"name": "SmoothIntervals", "parameters": iv, "alpha": al}, x)
            rec.event("growth")
            rec.expect(maxdiff(y, want) < 1e-9 and (x == keep).all(), "smooth steps differ from their closed form", intervals=iv, alpha=al)
            rec.seen(name, fp(want, 6))
            continue
        if name == "Meta":
            z = rng.uniform(0.05, 1, (2, 3, 4, 5))
            m = int(rng.integers(2))
            y = A.GaussianMetaMixture(mode=m)(tt(z))
            want = ref.gauss(z[:, 0], z[:, 1], z[:, 2])[:, None]
            want = want * 2 - 1 if m else want
            rec.event("growth")
            rec.expect(maxdiff(npa(y), want) < (1e-5 if case["f64"] else 1e-4), "meta gaussian differs from its closed form", diff=maxdiff(npa(y), want))
            rec.seen(name, fp(want, 6))
            continue
        if name == "CosOverX2":
            cfg = {"name": name, "mu": float(rng.uniform(0, 1)), "omega": float(rng.uniform(2, 30)), "mode": int(rng.integers(2))}
        elif name == "Identity":
            cfg = {"name": name}
        else:
            cfg = growth_config(rng, name, torch_values=bool(rng.integers(2)) or name in ("DoubleGaussian",))
        cls = getattr(A, cfg["name"])
        fn = cls(**cfg)
        t = tt(x)
        keep = t.clone()
        y = fn(t)
        rec.event("growth")
        rec.expect(torch.equal(t, keep), "growth function changed its input", config=cfg)
        rec.expect(tuple(y.shape) == shape, "growth function changed the shape", config=cfg, got=tuple(y.shape), want=shape)
        xt = npa(t)
        want = ref.growth(cfg, xt)
        scale = np.maximum(1, np.abs(want))
        # how much the function can move under rounding of its arguments
        h = 1e-12 if case["f64"] else 3e-6
        slope = np.abs(ref.growth(cfg, xt + h * (1 + np.abs(xt))) - ref.growth(cfg, xt - h * (1 + np.abs(xt))))
        err = np.abs(npa(y) - want) / scale
        tol = (5e-7 if case["f64"] else 2e-4) + slope
        rec.expect((err <= tol).all(), "growth function differs from its closed form", config=cfg, err=float(err.max()), x=xt.ravel()[int(err.argmax())])
        lo_hi = {"Gaussian": (0, 1), "GaussianMixture": (0, 1), "DoubleGaussian": (0, 1)}
        if cfg["name"] in lo_hi:
            lo, hi = (-1, 1) if cfg.get("mode") else (0, 1)
            rec.expect(float(y.min()) >= lo - 1e-6 and float(y.max()) <= hi + 1e-6, "growth function out of its range", config=cfg, lo=float(y.min()), hi=float(y.max()))
        if cfg["name"] in ("Gaussian", "DoubleGaussian", "GaussianMixture", "DoGaussian", "CosOverX2", "Polynomial"):
            # parameters given later count like those given at once
            other = {k: (again(rng, v) if k not in ("name", "mode") else v) for k, v in cfg.items()}
            if cfg["name"] == "GaussianMixture" and len(arr_(cfg["parameters"])) % 3 == 0:
                # (amplitudes are no parameters)
                other["parameters"] = [a if i % 3 == 0 else b for i, (a, b) in enumerate(zip(arr_(cfg["parameters"]), arr_(other["parameters"])))]
            late = cls(**copy.deepcopy(cfg))
            keep_y = late(t).detach().clone()
            if "mu" in cfg and rng.random() < 0.6:
                with torch.no_grad():
                    for k in ("mu", "sigma", "omega"):
                        if k in cfg:
                            getattr(late, k).copy_(torch.as_tensor(other[k]))
            elif rng.random() < 0.5:
                late.load_state_dict(cls(**copy.deepcopy(other)).state_dict())
            else:
                with torch.no_grad():
                    for p, q in zip(late.parameters(), cls(**copy.deepcopy(other)).parameters()):
                        p[...] = q
            rec.event("set later")
            want2 = ref.growth(other, xt)
            slope2 = np.abs(ref.growth(other, xt + h * (1 + np.abs(xt))) - ref.growth(other, xt - h * (1 + np.abs(xt))))
            err2 = np.abs(npa(late(t)) - want2) / np.maximum(1, np.abs(want2))
            rec.expect((err2 <= (5e-7 if case["f64"] else 2e-4) + slope2).all(), "growth function does not follow its parameters", config=cfg, later=other, err=float(err2.max()))
            rec.expect(torch.equal(fn(t), y) and torch.equal(keep_y, y), "growth functions share parameters", config=cfg)
        if name not in ("Identity",):
            z = fn(x if name != "SmoothIntervals" else x)
            rec.expect(maxdiff(npa(z) if hasattr(z, "detach") else z, want if case["f64"] else ref.growth(cfg, x)) <= tol.max() * 2 * float(scale.max()), "arrays and tensors give different growth", config=cfg)
        else:
            rec.expect(torch.equal(y, t), "identity is not the identity")
        rec.seen(name, fp(want, 6))
    rec.note({"last": cfg["name"], "shape": list(shape)})

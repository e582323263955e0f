"""Kernels: normalized, centered, symmetric, of the size asked for, of the documented shape."""
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = a batch of generated kernel configs (all families, radii 1-40, many parameters) and direct constructors; each "
        "kernel built is compared with an independent closed form and checked for size, sign, sum, symmetry, and that building it "
        "changes nothing; distinct by kernel values")
MUST_SEE = ["kernel", "direct", "cells on the bounds"]


def cases(tier, seed):
    n = 240 if tier == "quick" else 800
    return [{"seed": seed * 100153 + i, "n": 12, "f64": int(i % 2), "direct": int(i % 4 == 3)} for i in range(n)]


def run_case(case, rec):
    import torch, copy
    from yuca import kernels as K
    rng = rng_of(case)
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    tol = 1e-7 if case["f64"] else 1e-5

    def shape_ok(k, r, what, cfg):
        a = npa(k if isinstance(k, torch.Tensor) else torch.tensor(k))
        ok = rec.expect(a.shape == (1, 1, 2 * r + 1, 2 * r + 1), "kernel has another size", got=a.shape, radius=r, what=what)
        return a[0, 0] if ok else None

    for _ in range(case["n"]):
        if not case["direct"]:
            name = str(rng.choice(KERNELS + ["LaplacianOfGaussian", "InnerMoore"]))
            if name in ("LaplacianOfGaussian", "InnerMoore"):
                cfg = {"name": name, "radius": int(rng.integers(1, 20))}
                if name == "LaplacianOfGaussian":
                    cfg["kernel_kwargs"] = {"sigma": float(rng.uniform(0.15, 0.9))}
            else:
                cfg = kernel_config(rng, name, rmax=int(rng.choice([6, 15, 40])), rmin=1 if name in ("MooreLike", "Gaussian") else 2)
            if name == "SmoothLifeKernel" and rng.random() < 0.5:
                # bounds that cells lie on exactly: the whole disk, the unit circle, half the radius
                ri = float(rng.choice([0.0, 0.5, 1 / 3.0]))
                cfg["kernel_kwargs"] = {} if ri == 1 / 3.0 and rng.random() < 0.5 else {"r_a": float(rng.choice([1.0, 0.75, 1.05])), "r_i": ri}
                if cfg["radius"] % 3 == 0 or cfg["kernel_kwargs"].get("r_a") == 0.75:
                    cfg["radius"] = int(rng.choice([4, 8, 16]))
                rec.event("cells on the bounds")
            elif rng.random() < 0.3:
                cfg["kernel_kwargs"] = {k: (tt(v) if np.ndim(v) else v) for k, v in cfg.get("kernel_kwargs", {}).items()}
            keep = copy.deepcopy(cfg)
            with quiet():
                k = K.get_kernel(cfg)
                k2 = K.get_kernel(cfg)
            rec.event("kernel")
            rec.expect(str(keep) == str(cfg), "building a kernel changed its config", was=keep, now=cfg)
            rec.expect(torch.equal(torch.as_tensor(k), torch.as_tensor(k2)), "same config, different kernels", config=cfg)
            keep = torch.as_tensor(k).clone()
            with torch.no_grad():
                torch.as_tensor(k2).mul_(0.5).add_(0.125)
            with quiet():
                k3 = K.get_kernel(cfg)
            rec.expect(torch.equal(torch.as_tensor(k), keep) and torch.equal(torch.as_tensor(k3), keep), "changing a kernel changed another one", config=cfg)
            r = 1 if name == "InnerMoore" else cfg["radius"]
            a = shape_ok(k, r, name, cfg)
            if a is None:
                continue
            want = ref.kernel(cfg)
            if not np.isfinite(want).all():
                continue
            d = maxdiff(a, want)
            rec.expect(d < tol * max(1, want.max()), "kernel differs from its closed form", diff=d, config=cfg, f64=case["f64"])
            if name == "LaplacianOfGaussian":
                rec.expect(abs(a.sum()) < 1e-5 and abs(np.abs(a).sum() - 1) < 1e-4, "laplacian kernel does not sum to zero", sum=a.sum(), config=cfg)
                rec.expect(a[r, r] < 0 and a[r, r] == a.min(), "laplacian kernel has no negative center", config=cfg)
            else:
                rec.expect(a.min() >= 0, "negative kernel weight", min=a.min(), config=cfg)
                # (the weights of a very narrow ring are lost in the guard against empty rings)
                rec.expect(abs(a.sum() - 1) < 1e-4 or abs(a.sum() - want.sum()) < 1e-6 and want.sum() < 1 - 1e-5, "kernel does not sum to one", sum=a.sum(), want=want.sum(), config=cfg)
            for t in (a.T, a[::-1], a[:, ::-1], np.rot90(a)):
                rec.expect(maxdiff(a, t) < 1e-6, "kernel is not symmetric", diff=maxdiff(a, t), config=cfg)
            if name == "MooreLike":
                rec.expect(a[r, r] == 0, "cell is part of its own Moore neighborhood", config=cfg)
            rec.seen(name, r, fp(a, 7))
        else:
            r = int(rng.integers(2, 25))
            mu, sg = float(rng.uniform(0.2, 0.8)), float(rng.uniform(0.08, 0.3))
            rs = float(rng.choice([1.0, rng.uniform(0.5, 1.5)]))
            d = ref.radii(r) / r
            yy, xx = np.mgrid[-r:r + 1, -r:r + 1]
            def norm(k):
                k = k - k.min()
                return k / k.sum()
            mode, dx = int(rng.integers(2)), float(rng.uniform(0.01, 0.5))
            if mode:
                d1, d2 = np.sqrt((xx - dx) ** 2 + yy ** 2) / r, np.sqrt((xx + dx) ** 2 + yy ** 2) / r
            else:
                d1, d2 = np.sqrt(xx ** 2 + (yy - dx) ** 2) / r, np.sqrt(xx ** 2 + (yy + dx) ** 2) / r
            g = lambda z: ref.gauss(z, mu, sg)
            dog = lambda z: ref.gauss(z + 0.01, mu, sg) - ref.gauss(z - 0.01, mu, sg)
            p = [v for _ in range(int(rng.integers(1, 4))) for v in (rng.uniform(0.2, 0.9), rng.uniform(0.1, 0.9), rng.uniform(0.08, 0.3))]
            om = float(rng.uniform(4, 25))
            todo = {
                "get_gaussian_kernel": (dict(radius=r, mu=mu, sigma=sg, r_scale=rs), norm(g(d * rs))),
                "get_gaussian_mixture_kernel": (dict(radius=r, parameters=np.array(p), r_scale=rs), norm(ref.growth({"name": "GaussianMixture", "parameters": p}, d * rs))),
                "get_dogaussian_kernel": (dict(radius=r, mu=mu, sigma=sg), norm(dog(d))),
                "get_cosx2_kernel": (dict(radius=r, mu=mu, omega=om, r_scale=rs), norm(ref.growth({"name": "CosOverX2", "mu": mu, "omega": om}, d * rs))),
                "get_gaussian_edge_kernel": (dict(radius=r, mu=mu, sigma=sg, mode=mode, dx=dx), norm(g(d1) - g(d2))),
                "get_dogaussian_edge_kernel": (dict(radius=r, mu=mu, sigma=sg, mode=mode, dx=dx), norm(dog(d1) - dog(d2))),
            }
            fn = str(rng.choice(list(todo)))
            kw, want = todo[fn]
            k = getattr(K, fn)(**kw)
            rec.event("direct")
            a = shape_ok(k, r, fn, kw)
            if a is None:
                continue
            # differences of nearly equal numbers
            t = tol * (300 if "edge" in fn or "dog" in fn else 1) * max(1, want.max())
            rec.expect(maxdiff(a, want) < t, "kernel differs from its closed form", fn=fn, diff=maxdiff(a, want), args=kw, f64=case["f64"])
            rec.expect(a.min() >= 0 and abs(a.sum() - 1) < 1e-4, "kernel is not normalized", fn=fn, min=a.min(), sum=a.sum(), args=kw)
            rec.seen(fn, r, fp(a, 7))
    lap = npa(K.get_laplacian_kernel())
    rec.expect(lap.shape == (1, 1, 3, 3) and abs(lap.sum()) < 1e-9 and maxdiff(lap[0, 0], lap[0, 0].T) == 0 and lap[0, 0, 1, 1] < 0, "finite difference laplacian", values=lap)

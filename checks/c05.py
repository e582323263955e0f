"""Symmetries of space: translation, rotation, reflection, tiling, batches, light cone."""
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one automaton (any kind) and one state; the step taken from a transformed state is compared with the "
        "transformed step (shifts over the torus, quarter turns, mirrors, transposition, 2x2 tiling, batch order, single "
        "samples, one changed cell); non-trivial if the step changed the state; distinct by new state")
MUST_SEE = ["shift", "turn", "mirror", "tile", "batch", "cone", "mixed batch", "large world"]


def cases(tier, seed):
    n = 630 if tier == "quick" else 3000
    return [{"seed": seed * 100069 + i, "ca": KINDS[i % 7], "how": ["config", "init", "params"][(i // 7) % 3], "big": int(i % 23 == 11)} for i in range(n)]


def run_case(case, rec):
    import torch
    torch.set_default_dtype(torch.float64)
    rng = rng_of(case)
    kind = case["ca"]
    ext = 2 if kind == "RxnDfn" else int(rng.choice([1, 1, 2, 4]))
    internal = 2 if kind == "RxnDfn" else ext * int(rng.choice([1, 2]))
    if ext == 2 and kind in CCAS and rng.random() < 0.2:
        internal = 3
    if case.get("big") and kind != "RxnDfn":
        ext, internal = 1, int(rng.integers(1, 3))
    kw = dict(internal_channels=internal, external_channels=ext, kernel_radius=int(rng.integers(2, 7)) if not case.get("big") else int(rng.integers(8, 12)))
    if kind == "NCA":
        kw.update(hidden_channels=8, activation=str(rng.choice(["Gaussian", "Tanh", "SiLU"])))
    if kind == "CODE":
        kw.update(error_threshold=0.05, min_dt=0.02)
    with quiet():
        ca = build(kind, **kw)
        rmax = kw["kernel_radius"]
        if kind in CCAS and case["how"] == "config":
            cfg = config(rng, internal, ext, rmax=7)
            if case.get("big"):
                cfg["neighborhood_kernel_config"]["radius"] = int(rng.integers(8, 12))
            ca.load_config(cfg)
            rmax = max(cfg["neighborhood_kernel_config"]["radius"], (cfg.get("identity_kernel_config") or {}).get("radius", 1))
        elif kind == "RxnDfn":
            rmax = 1
            if case["how"] == "config":
                ca.set_kernel_radius(3); rmax = 3
        elif case["how"] == "params" and kind == "NCA":
            p = ca.get_params()
            p[:-9] = rng.normal(0, 0.7, p.shape[0] - 9)
            ca.set_params(p)
        ca.no_grad(); ca.eval()
        h, w = int(rng.integers(18, 30)), int(rng.integers(18, 30))
        if case.get("big"):
            # wide kernels in large worlds
            rec.event("large world")
            h, w = (int(v) for v in rng.choice([64, 96, 127, 128, 130], 2))
        name, g = state(rng, 3, ext, h, w, str(rng.choice(["uniform", "sparse", "blob", "binary"])))
        u = tt(g)

        def step(x):
            ca.reset()
            torch.manual_seed(5); np.random.seed(5)
            return ca(x)

        base = step(u)
        # every cell is the product of sums in another order, so only nearly equal
        steep = 1e-9
        def same(a, b, what, exact_dt=True, **k):
            rec.event(what)
            d = maxdiff(npa(a), npa(b))
            rec.expect(d <= steep, f"{what}: step of transformed state is not the transformed step", ca=kind, diff=d,
                       how=case["how"], channels=(internal, ext), grid=(h, w), **k)
        for _ in range(2):
            dy, dx = int(rng.integers(-h, h)), int(rng.integers(-w, w))
            same(step(torch.roll(u, (dy, dx), (2, 3))), torch.roll(base, (dy, dx), (2, 3)), "shift", by=(dy, dx))
        k = int(rng.integers(1, 4))
        same(step(torch.rot90(u, k, (2, 3))), torch.rot90(base, k, (2, 3)), "turn", quarter=k)
        ax = int(rng.integers(2, 4))
        same(step(torch.flip(u, (ax,))), torch.flip(base, (ax,)), "mirror", axis=ax)
        same(step(u.transpose(2, 3).contiguous()), base.transpose(2, 3), "mirror", axis="diagonal")
        if not case.get("big"):
            same(step(u.repeat(1, 1, 2, 2)), base.repeat(1, 1, 2, 2), "tile")
        perm = torch.tensor(rng.permutation(3))
        same(step(u[perm]), base[perm], "batch", order=perm.tolist())
        if kind != "CODE":     # its step size is chosen for the batch as a whole
            b = int(rng.integers(3))
            same(step(u[b:b + 1]), base[b:b + 1], "batch", single=b)
            # some of the samples alike, or empty, in a larger batch
            m = int(rng.integers(2, 10)) if not case.get("big") else 2
            src = [u[int(rng.integers(3))] for _ in range(m)]
            for j in range(m):
                if rng.random() < 0.3:
                    src[j] = torch.zeros_like(u[0])
            if rng.random() < 0.5:
                src[-1] = src[0].clone()
            mixed = torch.stack(src)
            got = step(mixed)
            for j in range(m) if not case.get("big") else range(2):
                same(step(mixed[j:j + 1]), got[j:j + 1], "batch", sample=j, of=m)
            rec.event("mixed batch")
            # a cell can only change cells within reach of the kernels
            y, x = int(rng.integers(h)), int(rng.integers(w))
            v = u.clone()
            v[0, :, y, x] = 1.0 - v[0, :, y, x]
            d = (npa(step(v)) != npa(base))
            diff = np.abs(npa(step(v)) - npa(base)) > 1e-9
            yy, xx = np.mgrid[0:h, 0:w]
            ddy, ddx = np.abs(yy - y), np.abs(xx - x)
            ddy, ddx = np.minimum(ddy, h - ddy), np.minimum(ddx, w - ddx)
            far = np.maximum(ddy, ddx) > rmax
            rec.event("cone")
            rec.expect(not (diff[0][:, far]).any() and not diff[1:].any(), "influence beyond the kernel radius", ca=kind, radius=rmax)
        if maxdiff(npa(base), npa(u)) > 1e-12:
            rec.seen(kind, fp(npa(base), 7))
    rec.note({"state": name, "grid": [h, w], "channels": [internal, ext]})

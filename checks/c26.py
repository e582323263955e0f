"""Entropies are those of the quantized grid, window and neighborhood."""
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one grid (levels, size, structure) measured by all entropy functions; each value is compared with one computed from counts, and across "
        "grids that have to agree (shifted, shuffled, rescaled); distinct by entropies")
MUST_SEE = ["grid", "conditional", "window", "constant", "batch", "bounded window"]


def cases(tier, seed):
    n = 100 if tier == "quick" else 1500
    return [{"seed": seed * 100379 + i, "what": ["grid", "window", "conditional", "grid", "bounded window", "batch"][i % 6]} for i in range(n)]


def bins(a):
    """levels of a grid stretched to 0..255, and whether rounding may decide a level"""
    a = np.asarray(a, dtype=np.float64)
    lo, hi = a.min(), a.max()
    if hi - lo == 0:
        return np.zeros(a.shape, int), False
    x = 255 * (a - lo) / (hi - lo)
    b = np.floor(x).astype(int)
    mid = (a > lo) & (a < hi)
    frac = x - np.floor(x)
    close = bool((mid & ((frac < 1e-3) | (frac > 1 - 1e-3))).any()) or bool((b[mid] == 254).any())
    return b, close


def H(counts):
    p = np.asarray(counts, float)
    p = p[p > 0] / p.sum()
    return float(-(p * np.log2(p)).sum())


def entropy(a):
    b, close = bins(a)
    return H(np.unique(b, return_counts=True)[1]), close


def cond(a, shift):
    """entropy of cells given the neighbor a shift away"""
    b, close = bins(a)
    u = np.roll(b, shift, (0, 1))
    joint = H(np.unique(b.astype(np.int64) * 256 + u, return_counts=True)[1])
    return joint - H(np.unique(u, return_counts=True)[1]), close


def grid(rng, h, w):
    style = str(rng.choice(["levels", "few", "random", "constant", "stripes", "checkers"], p=[.35, .2, .2, .05, .1, .1]))
    if style == "levels":       # half way between two levels each: no rounding
        g = (rng.integers(0, int(rng.choice([3, 16, 254])), (h, w)) + 0.5) / 255
        g.flat[int(rng.integers(g.size))] = 0.0
        g.flat[int(rng.integers(g.size))] = 1.0
    elif style == "few":
        g = rng.choice([0, 0.3, 0.7, 1.0][:int(rng.integers(2, 5))], (h, w))
    elif style == "random":
        g = rng.random((h, w))
    elif style == "constant":
        g = np.full((h, w), float(rng.choice([0, 0.4, 1.0])))
    elif style == "stripes":
        g = np.zeros((h, w)); g[:, ::int(rng.integers(2, 4))] = 1.0
    else:
        g = ((np.arange(h)[:, None] + np.arange(w)) % 2).astype(float)
    return style, g


def run_case(case, rec):
    import torch
    from yuca.analyze import Phanes, get_grid_entropy, get_spatial_entropy, get_conditional_grid_entropy, get_multiconditional_grid_entropy
    np.seterr(all="ignore")
    rng = rng_of(case)
    with quiet():
        ph = Phanes(kernel_radius=2, kernel_peaks=1)
    tol = 2e-5
    ok = lambda got, want: abs(float(got) - want) < tol
    if case["what"] == "grid":
        h, w = int(rng.integers(2, 40)), int(rng.integers(2, 40))
        style, g = grid(rng, h, w)
        rec.event("grid"); rec.event("constant", style == "constant")
        want, close = entropy(g)
        if close:
            return
        versions = {"": g, "shuffled": rng.permutation(g.ravel()).reshape(h, w), "shifted": np.roll(g, (3, 1), (0, 1)), "rescaled": g * 0.5 + 0.25, "single": g.astype(np.float32), "batch": g[None, None]}
        for f, fn in (("function", get_grid_entropy), ("method", ph.get_grid_entropy)):
            for v, a in versions.items():
                keep = a.copy()
                got = fn(a)
                rec.expect(ok(got, want), "entropy of a grid", got=float(got), want=want, style=style, version=v, shape=(h, w), by=f)
                rec.expect(np.array_equal(a, keep), "measuring changes the grid", by=f)
        rec.seen(style, round(want, 5))
        rec.note({"grid": style, "shape": [h, w], "entropy": want})
    elif case["what"] == "conditional":
        h, w = int(rng.integers(3, 14)), int(rng.integers(3, 14))
        style, g = grid(rng, h, w)
        rec.event("conditional")
        got = [float(get_conditional_grid_entropy(g.copy(), direction=d)) for d in range(4)]
        # neighbors above, to the right, below, to the left
        want = [cond(g, s) for s in [(1, 0), (0, -1), (-1, 0), (0, 1)]]
        if any(c for _, c in want):
            return
        want = [v for v, _ in want]
        rec.expect(maxdiff(got, want) < tol, "conditional entropy", got=got, want=want, style=style, shape=(h, w))
        rec.expect(max(got) <= entropy(g)[0] + tol and min(got) > -tol, "knowing a neighbor adds uncertainty", got=got, entropy=entropy(g)[0], style=style)
        if rng.random() < 0.2:
            m = float(get_multiconditional_grid_entropy(g.copy()))
            rec.expect(ok(m, np.mean(want)), "mean conditional entropy", got=m, want=np.mean(want), style=style)
        rec.seen("cond", style, [round(v, 4) for v in want])
        rec.note({"grid": style, "conditional": want})
    else:
        h, w = int(rng.integers(5, 13)), int(rng.integers(5, 13))
        style, g = grid(rng, h, w)
        k = int(rng.choice([3, 5, 7, 9]))
        k = min(k, min(h, w) // 2 * 2 + 1 if case["what"] == "bounded window" else min(h, w) - 1 + min(h, w) % 2)
        half = (k - 1) // 2
        if case["what"] == "bounded window":
            rec.event("bounded window")
            got = get_spatial_entropy(g.copy(), window_size=k)
            rec.expect(got.shape == g.shape, "shape", got=got.shape)
            # windows are clipped at the edges, and may or may not include their far side
            res = []
            for far in (0, 1):
                bad = 0
                for y in range(h):
                    for x in range(w):
                        want, close = entropy(g[max(0, y - half):min(h, y + half + far), max(0, x - half):min(w, x + half + far)])
                        bad += not close and not ok(got[y, x], want)
                res.append(bad)
            rec.expect(min(res) == 0, "entropy of a window", wrong=res, style=style, shape=(h, w), window=k)
            rec.seen("bounded", style, fp(got))
            return
        if case["what"] == "window":
            rec.event("window")
            got = ph.get_spatial_entropy(g.copy(), window_size=k)[None, None]
            a = g[None, None]
        else:
            rec.event("batch")
            h, w = min(h, 8), min(w, 8)
            n, c = int(rng.integers(1, 3)), int(rng.integers(1, 3))
            a = np.stack([np.stack([grid(rng, h, w)[1] for _ in range(c)]) for _ in range(n)])
            k = min(k, 5)
            half = (k - 1) // 2
            given = tt(a) if rng.random() < 0.7 else a.astype(np.float32)
            a = np.asarray(npa(given) if hasattr(given, "detach") else given, dtype=np.float64)
            got = ph.get_spatial_entropy(given, window_size=k)
        if not rec.expect(got.shape == a.shape, "shape", got=got.shape, want=a.shape):
            return
        bad = []
        for b in range(a.shape[0]):
            for c in range(a.shape[1]):
                for y in range(a.shape[2]):
                    for x in range(a.shape[3]):
                        want, close = entropy(np.take(np.take(a[b, c], range(y - half, y + half + 1), 0, mode="wrap"), range(x - half, x + half + 1), 1, mode="wrap"))
                        if not close and not ok(got[b, c, y, x], want):
                            bad.append((b, c, y, x, float(got[b, c, y, x]), want))
        rec.checks += a.size
        rec.expect(not bad, "entropy of a window", wrong=len(bad), first=bad[:2], style=style, shape=a.shape, window=k)
        rec.seen("window", style, fp(got))
        rec.note({"grid": style, "window": k, "mean": float(got.mean())})

"""Masks, noise and starting batches for training."""
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one image (size, channels, content), discs of several sizes and places, and one prepared batch; every pixel is compared with the "
        "geometry; distinct by mask")
MUST_SEE = ["mask", "bite", "random bite", "aperture", "open aperture", "batch", "extra channels", "target", "odd size", "not square", "noise of its own"]


def cases(tier, seed):
    n = 1600 if tier == "quick" else 6000
    return [{"seed": seed * 100403 + i} for i in range(n)]


def disc(h, w, coords, radius):
    """distance of every pixel from a place (from the middle), in half image heights"""
    r = h // 2
    y = np.arange(h) * (h + 1) / h - h / 2
    x = np.arange(w) * (w + 1) / w - w / 2
    d = np.sqrt((x[None, :] - coords[0]) ** 2 + (y[:, None] - coords[1]) ** 2) / r
    return d < radius, np.abs(d - radius) < 1e-9


def run_case(case, rec):
    import torch
    from yuca.utils import get_mask, get_bite_mask, get_aperture, prep_input, make_target, seed_all, query_kwargs
    rng = rng_of(case)
    h, w, c = int(rng.integers(4, 48)), 0, int(rng.choice([1, 2, 3, 4, 5, 8, 16, 17], p=[.2, .1, .2, .2, .1, .1, .05, .05]))
    w = h if rng.random() < 0.6 else int(rng.integers(4, 48))
    rec.event("odd size", h % 2); rec.event("not square", h != w)
    img = state(rng, 1, c, h, w, str(rng.choice(["uniform", "blob", "ones", "binary"])))[1]
    keep = img.copy()
    what = dict(h=h, w=w, c=c)
    r = h // 2
    # plain masks
    g = rng.random((h, w)) * 2
    rad = float(rng.uniform(0, 2))
    m = get_mask(g, rad)
    rec.event("mask")
    rec.expect(m.shape == g.shape and np.array_equal(m, (g >= rad).astype(float)), "mask is not what lies outside of the radius", radius=rad, **what)
    # discs at given places
    for _ in range(3):
        coords = rng.uniform(-r, r, 2) if rng.random() < 0.7 else rng.integers(-r, r + 1, 2).astype(float)
        rad = float(rng.choice([0.0, rng.uniform(0, 0.3), rng.uniform(0, 1.5)]))
        m = get_bite_mask(img, rad, coords)
        inside, edge = disc(h, w, coords, rad)
        rec.event("bite")
        if not rec.expect(m.shape == (1, c, h, w), "shape of a mask", got=m.shape, **what):
            return
        rec.expect(set(np.unique(m)) <= {0.0, 1.0}, "a mask is not of zeros and ones", values=np.unique(m)[:5], **what)
        rec.expect(((m == 0) == inside)[..., ~edge].all(), "mask does not cut out the disc", coords=coords, radius=rad, wrong=int(((m == 0) != inside)[..., ~edge].sum()), **what)
        rec.seen("bite", h, w, int(inside.sum()))
    # bites in random places: in the image, in different places, the same after seeding
    rad = float(rng.uniform(0.15, 0.4))
    s = int(rng.integers(1000))
    seed_all(s)
    ms = [get_bite_mask(img, rad) for _ in range(6)]
    seed_all(s)
    again = [get_bite_mask(img, rad) for _ in range(6)]
    rec.event("random bite", 6)
    rec.expect(all(np.array_equal(a, b) for a, b in zip(ms, again)), "seeding does not repeat random masks", **what)
    if h == w and h >= 16:
        rec.expect(all((m == 0).any() and not (m == 0).all() for m in ms), "a random bite misses the image", radius=rad, **what)
    if h == w and h >= 16:
        rec.expect(len({m.tobytes() for m in ms}) > 1, "random bites are all in one place", **what)
    for m in ms:
        yy, xx = np.nonzero(m[0, 0] == 0)
        if len(yy):
            far = max(np.ptp(yy), np.ptp(xx)) if len(yy) else 0
            rec.expect(far <= 2 * rad * r + 1e-9 and all(np.array_equal(m[0, k], m[0, 0]) for k in range(c)), "a bite is not one disc through all channels", across=int(far), radius=rad * r, **what)
    # apertures
    for ap in [float(rng.uniform(0.1, 0.97)), float(rng.choice([0.975, 1.0, 1.3]))]:
        a = get_aperture(img, ap)
        if ap < 0.975:
            rec.event("aperture")
            inside, edge = disc(h, w, (0.0, 0.0), ap)
            rec.expect(np.shape(a) == img.shape and ((a == 1) == inside)[..., ~edge].all() and set(np.unique(a)) <= {0.0, 1.0}, "aperture is not the disc in the middle", aperture=ap, **what)
        else:
            rec.event("open aperture")
            rec.expect(np.shape(a) == img.shape and (np.asarray(a) == 1).all(), "a wide aperture hides something", aperture=ap, **what)
    # batches
    n, noise, bite, ap = int(rng.integers(1, 7)), float(rng.choice([0.0, rng.uniform(0.01, 0.5)])), float(rng.uniform(0.0, 0.5)), float(rng.choice([1.0, rng.uniform(0.2, 0.9)]))
    ext = c + int(rng.integers(0, 4)) if rng.random() < 0.7 else None
    seed_all(s)
    b = prep_input(img, **({} if ext is None else {"external_channels": ext}), batch_size=n, aperture_radius=ap, bite_radius=bite, noise_level=noise)
    rec.event("batch"); rec.event("extra channels", int(ext is not None and ext > c))
    if not rec.expect(tuple(b.shape) == (n, ext or c, h, w) and b.dtype == torch.get_default_dtype(), "shape of a batch", got=tuple(b.shape), **what):
        return
    x = npa(b)
    if ext:
        rec.expect(not x[:, c:].any(), "additional channels are not empty", **what)
    x = x[:, :c]
    window, edge = disc(h, w, (0.0, 0.0), ap)
    base = img * (window if ap < 0.975 else np.ones((h, w)))
    tol = 1e-6
    lo, hi = x - base, x
    # every pixel: the image, or nothing where it was bitten, plus noise
    kept = (x >= base - tol) & (x <= base + noise + tol)
    gone = (x >= -tol) & (x <= noise + tol)
    okay = kept | gone
    if ap < 0.975:
        okay |= edge
    rec.expect(okay.all(), "a sample is not the image with a bite and noise", wrong=int((~okay).sum()), noise=noise, **what)
    for i in range(n):
        bitten = ~kept[i].all(0)
        yy, xx = np.nonzero(bitten & ~(edge if ap < 0.975 else np.zeros((h, w), bool)))
        if len(yy):
            rec.expect(max(np.ptp(yy), np.ptp(xx)) <= 2 * bite * r + 1e-9, "a sample is bitten in more than one disc", across=int(max(np.ptp(yy), np.ptp(xx))), radius=bite * r, **what)
    if noise == 0 and ap >= 0.975 and (img > 0.01).all() and h == w:
        area = [(x[i, 0] == 0).sum() for i in range(n)]
        inner = np.pi * (bite * r) ** 2
        rec.expect(max(area) <= inner * 1.3 + 12 and min(area) >= inner / 4 * 0.6 - 8, "size of the bites", area=area, want=inner, **what)
    if noise > 0.01 and h * w > 100:
        dev = [x[i] - base for i in range(n)]
        rec.expect(all(v.max() > noise * 0.8 for v in dev), "noise is missing", noise=noise, got=[float(v.max()) for v in dev], **what)
        # every value has noise of its own: uniform, whatever the place, channel or sample
        for i in range(n):
            clear = kept[i].all(0) & (base > noise + tol).reshape(-1, h, w).all(0)
            if clear.sum() >= 60:
                rec.event("noise of its own")
                v = np.stack([c[clear] for c in dev[i].reshape(-1, h, w)]) / noise
                rec.expect((v.std(1) > 0.15).all() and (np.abs(v.mean(1) - 0.5) < 0.25).all(), "noise is not uniform up to its level", std=v.std(1), mean=v.mean(1), **what)
                if len(v) > 1:
                    rec.expect(all(np.abs(v[0] - u).mean() > 0.1 for u in v[1:]), "channels share their noise", **what)
        if n > 1:
            rec.expect(not np.array_equal(x[0], x[1]), "samples of a batch are alike", **what)
    seed_all(s)
    b2 = prep_input(img, **({} if ext is None else {"external_channels": ext}), batch_size=n, aperture_radius=ap, bite_radius=bite, noise_level=noise)
    rec.expect(torch.equal(b, b2), "seeding does not repeat a batch", **what)
    # targets
    t = make_target(img[0])
    rec.event("target")
    rec.expect(tuple(t.shape) == (1, c, h, w) and np.array_equal(npa(t), img), "target differs from the image", shape=tuple(t.shape), **what)
    rec.expect(np.array_equal(img, keep), "the image is changed", **what)
    # arguments
    d = {"a": 1, "b": None, "c": 0}
    rec.expect(query_kwargs("a", 5, **d) == 1 and query_kwargs("b", 5, **d) is None and query_kwargs("c", 5, **d) == 0 and query_kwargs("z", 5, **d) == 5, "an argument is not what was given, or the default")
    rec.note({"image": what, "noise": noise, "bite": bite, "aperture": ap})

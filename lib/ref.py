"""Reference models in float64 NumPy, written from the documented rules."""
import numpy as np
from scipy.signal import correlate

PAD = {"circular": "wrap", "zeros": "constant", "reflect": "reflect", "replicate": "edge"}


def arr(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().double().numpy()
    return np.array(x, dtype=np.float64)


def conv(grid, kernel, mode="circular"):
    """grid (H, W), kernel (k, k): neighborhood sums, centered, cross-correlation"""
    r = kernel.shape[0] // 2
    padded = np.pad(grid, r, mode=PAD[mode]) if r else grid
    method = "fft" if kernel.shape[0] > 9 else "direct"
    return correlate(padded, kernel, mode="valid", method=method)


# growth functions ---------------------------------------------------------
def gauss(x, mu, sigma):
    return np.exp(-0.5 * ((x - mu) / sigma) ** 2)


def sig(x, mu, alpha):
    with np.errstate(over="ignore"):
        return 1.0 / (1.0 + np.exp(-4.0 * (x - mu) / alpha))


def growth(config, x):
    """what the growth function described by config has to return at x"""
    x = np.asarray(x, dtype=np.float64)
    name = config["name"]
    mode = config.get("mode", 0)
    if name == "Gaussian":
        y = gauss(x, arr(config.get("mu", 0.0)).ravel()[0], arr(config.get("sigma", 0.1)).ravel()[0])
        return 2 * y - 1 if mode else y
    if name == "GaussianMixture":
        p = arr(config.get("parameters", [0.5, 0.15])).ravel()
        if len(p) % 3 == 0:
            parts = [p[i] * gauss(x, p[i + 1], p[i + 2]) for i in range(0, len(p), 3)]
        else:
            parts = [gauss(x, p[i], p[i + 1]) for i in range(0, len(p), 2)]
        y = sum(parts)
        return np.clip(2 * y - 1, -1, 1) if mode else np.clip(y, 0, 1)
    if name == "DoubleGaussian":
        mu, sg = arr(config["mu"]).ravel(), arr(config["sigma"]).ravel()
        mu = np.repeat(mu, 2) if len(mu) == 1 else mu
        sg = np.repeat(sg, 2) if len(sg) == 1 else sg
        y = gauss(x, mu[0], sg[0]) + gauss(x, mu[1], sg[1])
        return np.clip(2 * y - 1, -1, 1) if mode else np.clip(y, 0, 1)
    if name == "DoGaussian":
        mu, sg, dx = arr(config.get("mu", 0.0)).ravel()[0], arr(config.get("sigma", 0.1)).ravel()[0], config.get("dx", 0.01)
        a, b = gauss(x + dx, mu, sg), gauss(x - dx, mu, sg)
        return a - 2 * b - 1 if mode else a - b
    if name == "Polynomial":
        c = arr(config["coefficients"]).ravel()
        y = sum(v * x ** i for i, v in enumerate(c))
        return 2 * y - 1 if mode else y
    if name == "SmoothIntervals":
        alpha = float(arr(config.get("alpha", 0.0125)))
        y = np.zeros_like(x)
        for lo, hi in arr(config.get("parameters", [[0.185, 0.375]])):
            y = y + sig(x, lo, alpha) * (1 - sig(x, hi, alpha))
        return 2 * y - 1 if mode else y
    if name == "CosOverX2":
        z = np.abs(float(arr(config.get("mu", 0.0))) - x)
        y = np.cos(float(arr(config.get("omega", 25.12))) * z) / (1 + (10 * z) ** 2)
        return y if mode else y + 1
    if name == "Identity":
        return x
    if name == "ReLU":
        return np.maximum(x, 0)
    if name == "Tanh":
        return np.tanh(x)
    raise KeyError(name)


# kernels ------------------------------------------------------------------
def radii(r):
    yy, xx = np.mgrid[-r:r + 1, -r:r + 1]
    return np.sqrt(xx ** 2 + yy ** 2)


def kernel(config):
    """2r+1 square kernel described by config, (k, k)"""
    name = config["name"]
    if name == "InnerMoore":
        k = np.zeros((3, 3)); k[1, 1] = 1.0
        return k
    r = int(config["radius"])
    if name == "MooreLike":
        k = np.ones((2 * r + 1, 2 * r + 1)); k[r, r] = 0
        return k / k.sum()
    d = radii(r) / r
    kw = dict(config.get("kernel_kwargs", {}))
    if name == "LaplacianOfGaussian":
        s = float(arr(kw.get("sigma", 0.5)))
        k = -(1 / (np.pi * s ** 4)) * (1 - d ** 2 / (2 * s ** 2)) * np.exp(-d ** 2 / (2 * s ** 2))
        k = k - k.mean()
        return k / np.abs(k).sum()
    if name == "SmoothLifeKernel":
        ra, ri = kw.get("r_a", 1.0), kw.get("r_i", 1 / 3.0)
        k = ((d >= ri) & (d <= ra)).astype(float)
    else:
        k = growth(dict(kw, name=name), d)
    k = k - k.min()
    return k / (k.sum() + 1e-9)   # an empty ring stays empty


def aslist(c, n):
    return list(c) if isinstance(c, (list, tuple)) else [c] * n


def channel_map(internal, external):
    """which external channels each internal channel sees"""
    if internal % external:
        return [list(range(external))] * internal
    per = internal // external
    return [[j // per] for j in range(internal)]


def alive(u, threshold=0.1):
    # (a float32 state holds the threshold itself rounded, which is not above it)
    return u * (u[:, 3:4] > threshold * (1 + 1.2e-7)) if u.shape[1] >= 4 else u


def sense(u, kern, internal, mode):
    """neighborhoods (or identities) of all internal channels"""
    ext = u.shape[1]
    cmap = channel_map(internal, ext)
    kern = [kern] * internal if not isinstance(kern, list) else kern
    out = np.zeros((u.shape[0], internal) + u.shape[2:])
    for b in range(u.shape[0]):
        for j in range(internal):
            for c in cmap[j]:
                out[b, j] += conv(u[b, c], kern[j], mode)
    return out


def cca_update(u, config, internal=None, mode="circular", lenia=False, nk=None, ik=None):
    """rate of change of state u (B, C, H, W) under a config, after masking"""
    u = np.asarray(u, np.float64)
    ext = u.shape[1]
    internal = ext if internal is None else internal
    nb = sense(u, kernel(config["neighborhood_kernel_config"]) if nk is None else nk, internal, mode)
    idc = config.get("identity_kernel_config") or {"name": "InnerMoore"}
    ident = sense(u, kernel(idc) if ik is None else ik, internal, mode)
    gens = aslist(config["genesis_config"], internal)
    pers = aslist(config["persistence_config"], internal)
    genper = np.zeros_like(nb)
    for j in range(internal):
        g = growth(gens[j], nb[:, j])
        if lenia:
            genper[:, j] = g
        else:
            genper[:, j] = (1 - ident[:, j]) * g + ident[:, j] * growth(pers[j], nb[:, j])
    w = 1.0 / (ext * internal)
    update = np.repeat(genper.sum(axis=1, keepdims=True) * w, ext, axis=1)
    return update, nb, ident


def cca_step(u, config, dt=None, internal=None, mode="circular", lenia=False, threshold=0.1, nk=None, ik=None):
    """(nk, ik: kernels given directly, one or one per internal channel)"""
    u = alive(np.asarray(u, np.float64), threshold)
    dt = float(arr(config.get("dt", 0.1)).ravel()[0]) if dt is None else dt
    update, nb, ident = cca_update(u, config, internal, mode, lenia, nk, ik)
    return np.clip(u + dt * update, 0, 1)


def gray_scott(u, du, dv, f, k, dx, dt, kern, mode="circular"):
    u = np.asarray(u, np.float64)
    out = np.zeros_like(u)
    for b in range(u.shape[0]):
        lu, lv = conv(u[b, 0], kern, mode) / dx ** 2, conv(u[b, 1], kern, mode) / dx ** 2
        a, c = u[b, 0], u[b, 1]
        out[b, 0] = a + dt * (du * lu - a * c * c + f * (1 - a))
        out[b, 1] = c + dt * (dv * lv + a * c * c - (f + k) * c)
    return np.clip(out, 0, 1)


ACT = {
    "Tanh": np.tanh, "ReLU": lambda x: np.maximum(x, 0),
    "SiLU": lambda x: x / (1 + np.exp(-x)),
    "ELU": lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))),
    "Sigmoid": lambda x: 1 / (1 + np.exp(-x)),
    "Identity": lambda x: x,
}


def nca_layers(params, ext, internal, hidden, act):
    """split a parameter vector: three pointwise layers (and the widths and
    centers of the gaussian activations between them), kernel parameters"""
    p = np.asarray(params, np.float64)
    n = 0
    def take(*shape):
        nonlocal n
        size = int(np.prod(shape))
        v = p[n:n + size].reshape(shape)
        n += size
        return v
    w0 = take(hidden, 2 * internal)
    g0 = take(2) if act == "Gaussian" else None
    w1 = take(hidden, hidden)
    g1 = take(2) if act == "Gaussian" else None
    w2 = take(ext, hidden)
    return w0, g0, w1, g1, w2, p[n:]


def nca_step(u, params, kernels, ext, internal, hidden, act, dt, mode="circular", idk=None, dropped=False):
    u = np.asarray(u, np.float64)
    u = alive(u)
    w0, g0, w1, g1, w2, _ = nca_layers(params, ext, internal, hidden, act)
    nb = sense(u, kernels, internal, mode)
    ident = sense(u, kernel(idk or {"name": "InnerMoore"}), internal, mode)
    x = np.concatenate([ident, nb], axis=1)
    f0 = (lambda x: gauss(x, *g0)) if act == "Gaussian" else ACT[act]
    f1 = (lambda x: gauss(x, *g1)) if act == "Gaussian" else ACT[act]
    x = f0(np.einsum("oc,bchw->bohw", w0, x))
    if dropped:                     # none of the first hidden units is kept
        x = 0 * x
    x = f1(np.einsum("oc,bchw->bohw", w1, x))
    upd = np.tanh(np.einsum("oc,bchw->bohw", w2, x))
    return np.clip(u + dt * upd, 0, 1)

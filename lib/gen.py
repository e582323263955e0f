"""Generators of configurations, automata and states."""
import os, io, contextlib
import numpy as np


def rng_of(case):
    return np.random.default_rng(np.random.SeedSequence([int(case["seed"]), 7919]))


def tt(x, dtype=None):
    import torch
    return torch.tensor(np.asarray(x), dtype=dtype or torch.get_default_dtype())


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


KERNELS = ["Gaussian", "GaussianMixture2", "GaussianMixture3", "CosOverX2", "DoGaussian", "SmoothLifeKernel", "MooreLike"]


def kernel_config(rng, name=None, rmax=12, rmin=2):
    name = name or str(rng.choice(KERNELS))
    r = int(rng.integers(rmin, rmax + 1))
    if name == "Gaussian":
        return {"name": "Gaussian", "radius": r, "kernel_kwargs": {"mu": float(rng.uniform(0.2, 0.8)), "sigma": float(rng.uniform(0.05, 0.4))}}
    if name == "GaussianMixture2":
        n = int(rng.choice([1, 2, 4]))
        p = [v for _ in range(n) for v in (rng.uniform(0.1, 0.9), rng.uniform(0.05, 0.3))]
        return {"name": "GaussianMixture", "radius": r, "kernel_kwargs": {"parameters": np.array(p)}}
    if name == "GaussianMixture3":
        n = int(rng.integers(1, 5))
        p = [v for _ in range(n) for v in (rng.uniform(0.1, 0.9), rng.uniform(0.1, 0.9), rng.uniform(0.05, 0.3))]
        return {"name": "GaussianMixture", "radius": r, "kernel_kwargs": {"parameters": np.array(p)}}
    if name == "CosOverX2":
        return {"name": "CosOverX2", "radius": r, "kernel_kwargs": {"mu": float(rng.uniform(0.0, 0.8)), "omega": float(rng.uniform(4, 25))}}
    if name == "DoGaussian":
        return {"name": "DoGaussian", "radius": r, "kernel_kwargs": {"mu": float(rng.uniform(0.3, 0.7)), "sigma": float(rng.uniform(0.1, 0.3))}}
    if name == "SmoothLifeKernel":
        return {"name": "SmoothLifeKernel", "radius": r, "kernel_kwargs": {"r_a": float(rng.uniform(0.8, 1.05)), "r_i": float(rng.uniform(0.15, 0.45))}}
    return {"name": "MooreLike", "radius": r}


GROWTHS = ["Gaussian", "GaussianMixture2", "GaussianMixture3", "DoGaussian", "DoubleGaussian", "Polynomial", "SmoothIntervals"]


def growth_config(rng, name=None, torch_values=True, pairs=None):
    name = name or str(rng.choice(GROWTHS))
    tens = tt if torch_values else (lambda v: np.array(v))
    mu, sg = float(rng.uniform(0.05, 0.5)), float(rng.uniform(0.02, 0.12))
    if name == "Gaussian":
        return {"name": "Gaussian", "mu": mu, "sigma": sg, "mode": int(rng.integers(2))}
    if name == "GaussianMixture2":
        n = int(rng.choice([1, 2, 4])) if pairs is None else pairs
        p = [v for _ in range(n) for v in (rng.uniform(0.05, 0.6), rng.uniform(0.02, 0.1))]
        return {"name": "GaussianMixture", "parameters": tens(p), "mode": int(rng.integers(2))}
    if name == "GaussianMixture3":
        n = int(rng.integers(1, 4))
        # (an amplitude may take away, or be more than one)
        amp = lambda: rng.uniform(0.2, 0.9) if rng.random() < 0.7 else rng.uniform(-1.5, 2.0)
        p = [v for _ in range(n) for v in (amp(), rng.uniform(0.05, 0.6), rng.uniform(0.02, 0.1))]
        return {"name": "GaussianMixture", "parameters": tens(p), "mode": int(rng.integers(2))}
    if name == "DoGaussian":
        return {"name": "DoGaussian", "mu": mu, "sigma": sg, "mode": 0}
    if name == "DoubleGaussian":
        return {"name": "DoubleGaussian", "mu": tt([mu, float(rng.uniform(0.3, 0.8))]), "sigma": tt([sg, float(rng.uniform(0.02, 0.12))]), "mode": int(rng.integers(2))}
    if name == "Polynomial":
        return {"name": "Polynomial", "coefficients": tt(rng.normal(0, 1, int(rng.integers(1, 6)))), "mode": int(rng.integers(2))}
    if name == "SmoothIntervals":
        n = int(rng.integers(1, 4))
        lo = rng.uniform(0.05, 0.7, n)
        return {"name": "SmoothIntervals", "parameters": tt(np.stack([lo, lo + rng.uniform(0.03, 0.3, n)], 1)), "alpha": float(rng.uniform(0.02, 0.2)), "mode": int(rng.integers(2))}
    return {"name": name}


def id_kernel_config(rng):
    return {"name": "SmoothLifeKernel", "radius": int(rng.integers(2, 7)), "kernel_kwargs": {"r_a": float(rng.uniform(0.3, 0.9)), "r_i": 0.0}}


def config(rng, internal=1, external=1, kname=None, rmax=12, with_id=None, conv_mode="circular", **extra):
    """a configuration of a glaberish (or Lenia) CA"""
    same = internal == 1 or False
    plain = lambda: growth_config(rng) if rng.random() > 0.04 else {"name": str(rng.choice(["ReLU", "Tanh", "Identity"]))}
    gens = [plain() for _ in range(internal)]
    pers = [plain() for _ in range(internal)]
    c = {"neighborhood_kernel_config": kernel_config(rng, kname, rmax=rmax),
         "genesis_config": gens[0] if internal == 1 else gens,
         "persistence_config": pers[0] if internal == 1 else pers,
         "dt": float(rng.uniform(0.05, 1.0))}
    if with_id if with_id is not None else rng.random() < 0.25:
        c["identity_kernel_config"] = id_kernel_config(rng)
    c["instant_kwargs"] = dict({"internal_channels": internal, "external_channels": external, "conv_mode": conv_mode}, **extra)
    return vary(rng, c, internal)


def vary(rng, c, internal):
    """the same kinds of configs in the other forms users write them"""
    kw = c["neighborhood_kernel_config"].get("kernel_kwargs")
    if kw and rng.random() < 0.25:
        # named values have no particular order
        keys = list(kw)
        c["neighborhood_kernel_config"]["kernel_kwargs"] = kw = {keys[i]: kw[keys[i]] for i in rng.permutation(len(keys))}
    if kw and "parameters" in kw and rng.random() < 0.3:
        kw["parameters"] = tt(kw["parameters"]) if rng.random() < 0.5 else [float(v) for v in kw["parameters"]]
    both = [g for k in ("genesis_config", "persistence_config") for g in (c[k] if isinstance(c[k], list) else [c[k]])]
    for g in both:
        if g["name"] in ("Gaussian", "DoGaussian") and rng.random() < 0.25:
            g["mu"], g["sigma"] = tt([g["mu"]]), tt([g["sigma"]])
        if g["name"] == "Polynomial" and rng.random() < 0.2:
            g["coefficients"] = tt(rng.normal(0, 1, int(rng.integers(6, 12))))
    pick = rng.random()
    if pick < 0.12:
        # one description for both
        c["persistence_config"] = c["genesis_config"]
    elif pick < 0.2 and internal > 1:
        # or for all channels
        c["genesis_config"] = [c["genesis_config"][0]] * internal
        c["persistence_config"] = [c["persistence_config"][-1]] * internal
    return c


STATES = ["uniform", "sparse", "blob", "zeros", "ones", "pixel", "binary", "ramp", "noise_low"]


def state(rng, batch, channels, h, w, kind=None):
    kind = kind or str(rng.choice(STATES))
    shape = (batch, channels, h, w)
    if kind == "uniform":
        g = rng.random(shape)
    elif kind == "sparse":
        g = rng.random(shape) * (rng.random(shape) < rng.uniform(0.05, 0.5))
    elif kind == "blob":
        yy, xx = np.mgrid[0:h, 0:w]
        g = np.zeros(shape)
        for b in range(batch):
            for c in range(channels):
                cy, cx, s = rng.uniform(0, h), rng.uniform(0, w), rng.uniform(1.5, max(2, h / 4))
                g[b, c] = rng.uniform(0.3, 1) * np.exp(-((yy - cy) ** 2 + (xx - cx) ** 2) / (2 * s * s))
    elif kind == "zeros":
        g = np.zeros(shape)
    elif kind == "ones":
        g = np.ones(shape)
    elif kind == "pixel":
        g = np.zeros(shape)
        g[:, :, rng.integers(h), rng.integers(w)] = rng.uniform(0.2, 1)
    elif kind == "binary":
        g = (rng.random(shape) < rng.uniform(0.1, 0.9)).astype(float)
    elif kind == "ramp":
        g = np.broadcast_to(np.linspace(0, 1, w), shape).copy()
    else:
        g = rng.random(shape) * rng.choice([1e-6, 1e-3, 0.05])
    return kind, g


def build(kind, **kwargs):
    """an automaton of a kind, constructed the way the command line does"""
    with quiet():
        if kind == "CCA":
            from yuca.ca.continuous import CCA as C
        elif kind == "NCA":
            from yuca.ca.neural import NCA as C
        elif kind == "RxnDfn":
            from yuca.ca.reaction_diffusion import RxnDfn as C
        elif kind == "Lenia":
            from yuca.lenia import Lenia as C
        elif kind == "CODE":
            from yuca.code import CODE as C
        elif kind == "RandomStepCA":
            from yuca.random_step_ca import RandomStepCA as C
        elif kind == "MetaCA":
            from yuca.metaca import MetaCA as C
        else:
            raise KeyError(kind)
        return C(**kwargs)


KINDS = ["CCA", "NCA", "RxnDfn", "Lenia", "CODE", "RandomStepCA", "MetaCA"]
CCAS = ["CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA"]


def class_of(kind):
    import importlib
    mod, name = {"CCA": ("yuca.ca.continuous", "CCA"), "NCA": ("yuca.ca.neural", "NCA"),
                 "RxnDfn": ("yuca.ca.reaction_diffusion", "RxnDfn"), "Lenia": ("yuca.lenia", "Lenia"),
                 "CODE": ("yuca.code", "CODE"), "RandomStepCA": ("yuca.random_step_ca", "RandomStepCA"),
                 "MetaCA": ("yuca.metaca", "MetaCA")}[kind]
    return getattr(importlib.import_module(mod), name)


def from_config(kind, cfg, **kwargs):
    with quiet():
        ca = build(kind, **kwargs)
        ca.load_config(cfg)
    return ca


def fp(a, digits=5):
    """fingerprint of an array, for counting distinct observations"""
    import hashlib
    return hashlib.md5(np.round(np.asarray(a, np.float64), digits).tobytes()).hexdigest()[:12]


def npa(t):
    return t.detach().cpu().double().numpy()


def maxdiff(a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    return float("inf") if not np.isfinite(d).all() else float(d.max())


# how parameter vectors map to configs -------------------------------------
def growth_size(c):
    name = c["name"]
    if name in ("Gaussian", "DoGaussian"):
        return 2
    if name == "DoubleGaussian":
        return 4
    if name == "Polynomial":
        return len(np.asarray(ref_arr(c["coefficients"])).ravel())
    if name == "GaussianMixture":
        n = len(ref_arr(c["parameters"]).ravel())
        return 2 * (n // 3 if n % 3 == 0 else n // 2)
    return 0


def ref_arr(x):
    import ref
    return ref.arr(x)


def growth_put(c, p):
    """the growth function config with its evolvable values replaced by p"""
    c = dict(c)
    name = c["name"]
    if name in ("Gaussian", "DoGaussian"):
        c["mu"], c["sigma"] = p[0], p[1]
    elif name == "DoubleGaussian":
        c["mu"], c["sigma"] = np.array(p[:2]), np.array(p[2:])
    elif name == "Polynomial":
        c["coefficients"] = np.array(p)
    elif name == "GaussianMixture":
        old = ref_arr(c["parameters"]).ravel()
        if len(old) % 3 == 0:
            c["parameters"] = np.concatenate([[old[3 * i], p[2 * i], p[2 * i + 1]] for i in range(len(old) // 3)])
        else:
            c["parameters"] = np.array(p)
    return c


def growth_get(c):
    name = c["name"]
    if name in ("Gaussian", "DoGaussian", "DoubleGaussian"):
        return np.concatenate([ref_arr(c["mu"]).ravel(), ref_arr(c["sigma"]).ravel()])
    if name == "Polynomial":
        return ref_arr(c["coefficients"]).ravel()
    if name == "GaussianMixture":
        v = ref_arr(c["parameters"]).ravel()
        return np.concatenate([v[i + 1:i + 3] for i in range(0, len(v), 3)]) if len(v) % 3 == 0 else v
    return np.array([])


def cfg_lists(cfg):
    aslist = lambda c: list(c) if isinstance(c, list) else [c]
    return aslist(cfg["genesis_config"]), aslist(cfg["persistence_config"])


def cfg_params(cfg, lenia=False):
    """the parameter vector of an automaton with this config"""
    gens, pers = cfg_lists(cfg)
    parts = [growth_get(c) for c in (gens if lenia else gens + pers)]
    if not lenia:
        parts += [ref_arr(v).ravel() for v in cfg["neighborhood_kernel_config"].get("kernel_kwargs", {}).values()]
    return np.concatenate(parts) if parts else np.array([])


def cfg_with(cfg, p, lenia=False):
    """the config with a parameter vector put in"""
    cfg = dict(cfg)
    gens, pers = cfg_lists(cfg)
    n, out = 0, []
    for c in gens if lenia else gens + pers:
        k = growth_size(c)
        out.append(growth_put(c, p[n:n + k]))
        n += k
    g, q = (out, pers) if lenia else (out[:len(gens)], out[len(gens):])
    cfg["genesis_config"] = g if isinstance(cfg["genesis_config"], list) else g[0]
    cfg["persistence_config"] = q if isinstance(cfg["persistence_config"], list) else q[0]
    if not lenia:
        kc = dict(cfg["neighborhood_kernel_config"])
        kw = dict(kc.get("kernel_kwargs", {}))
        for key, v in kw.items():
            v = ref_arr(v)
            kw[key] = np.array(p[n:n + v.size]).reshape(v.shape) if v.ndim else float(p[n])
            n += v.size
        if kw:
            kc["kernel_kwargs"] = kw
        cfg["neighborhood_kernel_config"] = kc
    return cfg


def same(a, b):
    """deep equality of configs (tensors, arrays, lists, numbers, strings)"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    try:
        x, y = ref_arr(a), ref_arr(b)
    except Exception:
        return a is b or a == b
    return x.shape == y.shape and bool(np.array_equal(x, y, equal_nan=True))


def run(ca, g, steps, seed=0):
    """evolution of a state from a reset automaton"""
    import torch
    torch.manual_seed(seed); np.random.seed(seed)
    ca.eval()
    ca.reset()
    u, out = g.clone(), []
    with torch.no_grad():
        for _ in range(steps):
            u = ca(u)
            out.append(npa(u))
    return np.stack(out)

"""States stay valid: bounded, finite, same shape and precision, input untouched."""
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one automaton (kind, channels, precision, boundary mode, rule from a random config, from its random "
        "initialization or from random parameter vectors) driven for several steps from a generated state; an observation is "
        "non-trivial if the step changed the state, distinct by fingerprint of the new state")
MUST_SEE = ["step", "frame"]


def cases(tier, seed):
    n = 780 if tier == "quick" else 4000
    out = []
    for i in range(n):
        out.append({"seed": seed * 100003 + i, "ca": KINDS[i % len(KINDS)], "steps": 5 if tier == "quick" else 12,
                    "f64": int(i % 5 == 3), "how": ["config", "init", "params"][(i // 7) % 3]})
    return out


def monitor_call(rec, ca, fn, u, what, case):
    """every call of the automaton goes through here"""
    import torch
    before = u.clone()
    out = fn(u)
    new = out[0] if isinstance(out, tuple) else out
    rec.event(what)
    info = dict(ca=case["ca"], how=case["how"], what=what)
    rec.expect(torch.equal(before, u), "input state modified", **info)
    ok = rec.expect(tuple(new.shape) == tuple(u.shape), "shape changed", got=tuple(new.shape), was=tuple(u.shape), **info)
    rec.expect(new.dtype == u.dtype, "precision changed", got=str(new.dtype), was=str(u.dtype), **info)
    rec.expect(str(new.device) == str(u.device), "device changed", got=str(new.device), **info)
    rec.expect(bool(torch.isfinite(new).all()), "non-finite state", **info)
    if ok and new.numel():
        lo, hi = float(new.min()), float(new.max())
        rec.expect(lo >= 0.0 and hi <= 1.0, "state out of bounds", lo=lo, hi=hi, **info)
    rec.expect(new.data_ptr() != u.data_ptr(), "new state shares memory with the old", **info)
    # a caller changing its new state must not change the old one
    keep = new.clone()
    with torch.no_grad():
        keep2 = u.clone()
        new.detach().add_(0.25)
    rec.expect(torch.equal(keep2, u), "new state aliases the old", **info)
    if not torch.equal(keep, u):
        rec.seen(case["ca"], what, fp(npa(keep), 4))
    return keep


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    kind = case["ca"]
    mode = str(rng.choice(["circular", "circular", "zeros", "reflect"]))
    ext = 2 if kind == "RxnDfn" else int(rng.choice([1, 1, 2, 3, 4, 5]))
    per = int(rng.choice([1, 1, 1, 1, 2, 2, 9])) if kind != "RxnDfn" else 1
    internal = ext * per
    kwargs = dict(internal_channels=internal, external_channels=ext, conv_mode=mode, kernel_radius=int(rng.integers(2, 10)),
                  kernel_peaks=int(rng.integers(1, 4)))
    if kind == "NCA":
        kwargs["hidden_channels"] = int(rng.integers(2, 20))
        kwargs["activation"] = str(rng.choice(["Gaussian", "ReLU", "SiLU", "ELU", "Sigmoid", "Tanh", "Identity"]))
    if kind == "CODE":
        kwargs["error_threshold"] = float(rng.choice([1e-1, 1e-2]))
        kwargs["min_dt"] = 0.05
    round_values = False
    with quiet():
        if kind in CCAS and case["how"] == "config":
            ca = build(kind, **kwargs)
            ca.load_config(config(rng, internal, ext, conv_mode=mode, rmax=8))
        else:
            ca = build(kind, **kwargs)
            if case["how"] == "params":
                p = ca.get_params()
                scale = rng.choice([1.0, 0.01, 10.0])
                style = rng.random()
                ca.set_params(rng.normal(0, 1, p.shape) * scale if style < 0.4 else rng.random(p.shape) * scale if style < 0.75
                              else rng.choice([0.0, 0.0, 0.5, 1.0], p.shape))
                round_values = style >= 0.75
        if case["how"] == "config" and rng.random() < 0.5 and not (kind == "CODE" and rng.random() < 0.5):
            # (steps of no length too)
            ca.set_dt(float(rng.uniform(0.01, 1.5) if kind == "CODE" else rng.choice([rng.uniform(0.01, 1.5), rng.uniform(0.01, 1.5), 0.0, 1e-12, 50.0])))
        ca.no_grad()
        ca.eval()
        h, w = int(rng.integers(20, 33)), int(rng.integers(20, 33))
        name, g = state(rng, int(rng.choice([1, 1, 2, 3])), ext, h, w, str(rng.choice(["zeros", "ones", "binary"])) if round_values else None)
        u = tt(g)
        if kind == "CCA" and not case["f64"] and rng.random() < 0.2:
            u = u.to(torch.float16)
        first = None
        for s in range(case["steps"]):
            new = monitor_call(rec, ca, ca, u, "step", case)
            if s == 0:
                first = (u.clone(), new.clone())
            if u.dtype != torch.float16 and s == 1:
                monitor_call(rec, ca, ca.get_frame, u, "frame", case)
                monitor_call(rec, ca, lambda x: ca.get_frame(x, mode=3), u, "frame", case)
            u = new
        # what a step does depends on the state only, if there is no memory in the rule
        if kind in ("CCA", "Lenia", "NCA", "RxnDfn"):
            again = ca(first[0])
            rec.expect(torch.equal(again, first[1]), "same state, same rule, different step", ca=kind,
                       diff=float((again - first[1]).abs().max()))
    rec.note({"state": name, "shape": list(u.shape), "mode": mode, "min": float(u.min()), "max": float(u.max())})

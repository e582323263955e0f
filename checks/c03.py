"""Neural CA: the update is the documented pointwise network."""
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one neural CA (channels, hidden width, activation, kernel, boundary mode) given a parameter vector made by "
        "the check; every observed step is compared with an independent float64 network applied to the state it started from; "
        "also, with dropout active, runs are compared by statistics; non-trivial if the state changed")
MUST_SEE = ["reload", "step", "dropout", "dropped: none", "dropped: all"]


def cases(tier, seed):
    n = 640 if tier == "quick" else 2500
    return [{"seed": seed * 100043 + i, "f64": int(i % 4 != 0), "act": ["Gaussian", "ReLU", "SiLU", "ELU", "Sigmoid", "Tanh", "Identity"][i % 7],
             "how": ["init", "config", "params"][i % 3]} for i in range(n)]


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    act = case["act"]
    ext = int(rng.choice([1, 1, 2, 3, 4, 5]))
    internal = ext * int(rng.choice([1, 1, 2]))
    hidden = int(rng.integers(1, 24))
    mode = str(rng.choice(["circular", "circular", "zeros", "reflect"]))
    r = int(rng.integers(2, 9))
    peaks = int(rng.integers(1, 4))
    kw = dict(internal_channels=internal, external_channels=ext, hidden_channels=hidden, activation=act, conv_mode=mode,
              kernel_radius=r, kernel_peaks=peaks, dropout_rate=float(rng.choice([0.0, 0.1, 0.5, 1.0])))
    with quiet():
        ca = build("NCA", **kw)
        kc = {"name": "GaussianMixture", "radius": r, "kernel_kwargs": {"parameters": np.array([1 / peaks, 0.5, 0.15] * peaks)}}
        idk = None
        dt = 0.1
        p = ca.get_params()
        nw = p.shape[0] - 3 * peaks
        if case["how"] == "params":
            p = np.concatenate([rng.normal(0, 1, nw) * rng.choice([0.3, 1.0, 2.0]), p[nw:]])
            kp = np.concatenate([[rng.uniform(0.2, 1), rng.uniform(0.1, 0.9), rng.uniform(0.08, 0.3)] for _ in range(peaks)])
            p[nw:] = kp
            kc["kernel_kwargs"]["parameters"] = kp
            ca.set_params(p)
        elif case["how"] == "config":
            kc = kernel_config(rng, str(rng.choice(["Gaussian", "GaussianMixture3", "CosOverX2", "SmoothLifeKernel"])), rmax=8)
            kp = np.concatenate([[v] if np.ndim(v) == 0 else np.ravel(v) for v in kc.get("kernel_kwargs", {}).values()])
            p = np.concatenate([rng.normal(0, 1, nw), kp])
            dt = float(rng.uniform(0.05, 1.0))
            cfg = {"neighborhood_kernel_config": kc, "params": p, "dt": dt, "instant_kwargs": kw}
            if rng.random() < 0.4:
                idk = id_kernel_config(rng)
                cfg["identity_kernel_config"] = idk
            ca.load_config(cfg)
        ca.no_grad()
        ca.eval()
        kern = ref.kernel(kc)
        h, w = int(rng.integers(20, 32)), int(rng.integers(20, 32))
        kind, g = state(rng, int(rng.choice([1, 2])), ext, h, w)
        u = tt(g)
        # evaluation mode survives settings that are made again
        for op in rng.permutation(["device", "params", "dt", "radius", "reload", "none"])[:int(rng.integers(1, 4))]:
            if op == "reload":
                # its own configuration, for an automaton that is there already
                again = ca.make_config()
                again.pop("instant_kwargs", None)
                ca.load_config(again)
                rec.event("reload")
            if op == "device":
                ca.to_device("cpu")
            elif op == "params":
                ca.set_params(ca.get_params())
            elif op == "dt":
                ca.set_dt(dt)
            elif op == "radius":
                ca.set_kernel_radius(r if case["how"] != "config" else kc["radius"])
        ca.no_grad()
        for s in range(3):
            new = ca(u)
            want = ref.nca_step(npa(u), p, kern, ext, internal, hidden, act, dt, mode, idk)
            err = maxdiff(npa(new), want)
            tol = 1e-7 if case["f64"] else 2e-3
            rec.event("step")
            rec.expect(err <= tol, "step differs from the documented network", err=err, act=act, channels=(internal, ext, hidden),
                       how=case["how"], mode=mode, dt=dt, kernel=kc, step=s)
            if not torch.equal(u, new):
                rec.seen(act, fp(want, 6))
            u = new
        # evaluation is deterministic; dropout acts while training only
        a, b = ca(u), ca(u)
        rec.expect(torch.equal(a, b), "evaluation is not deterministic", act=act)
        # hidden dropout is applied to the outputs of the first layer: with most hidden units
        # contributing, some training steps differ from evaluation, and the state stays valid
        if hidden >= 6:
            v = tt(state(rng, 1, ext, h, w, "uniform")[1])
            ca.eval(); base = ca(v)
            ca.train()
            outs = [ca(v) for _ in range(4)]
            if kw["dropout_rate"] in (0.0, 1.0):
                # an automaton made from the config of this one has its rate
                with quiet():
                    other = build("NCA", dropout_rate=float(rng.choice([0.0, 0.4, 1.0])))
                    other.load_config(ca.make_config())
                other.no_grad(); other.train()
                outs += [other(v) for _ in range(2)]
            ca.eval()
            for o in outs:
                rec.expect(float(o.min()) >= 0 and float(o.max()) <= 1, "state out of bounds while training")
            rec.event("dropout")
            if kw["dropout_rate"] == 0.0:
                rec.event("dropped: none")
                rec.expect(all(torch.equal(o, base) for o in outs), "hidden units are dropped at a rate of zero", act=act)
            elif kw["dropout_rate"] == 1.0:
                # all units of the first hidden layer are dropped: the second gets zeros
                pz = np.array(p, dtype=np.float64)
                rec.event("dropped: all")
                zeroed = ref.nca_step(npa(v), pz, kern, ext, internal, hidden, act, dt, mode, idk, dropped=True)
                for o in outs:
                    rec.expect(maxdiff(npa(o), zeroed) <= tol, "hidden units are kept at a rate of one", err=maxdiff(npa(o), zeroed), act=act)
            rec.expect(torch.equal(ca(v), base), "training mode left a trace", act=act)
    rec.note({"state": kind, "act": act, "channels": [internal, ext, hidden], "last_err": err})

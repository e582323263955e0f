"""Random steps, and updates with momentum."""
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one random-step or momentum automaton run for many steps next to a float64 model that is given the observed "
        "step sizes (random steps) or keeps its own velocity (momentum), with resets and changes of grid shape and batch size in between; "
        "non-trivial if the state changed")
MUST_SEE = ["random step", "momentum step", "reset", "new shape", "new batch", "great velocity"]


def cases(tier, seed):
    n = 360 if tier == "quick" else 2000
    return [{"seed": seed * 100129 + i, "ca": ["RandomStepCA", "MetaCA"][i % 2], "steps": 12 if tier == "quick" else 40} for i in range(n)] \
        + [{"seed": seed * 100129 + n + i, "ca": "RandomStepCA", "steps": 600, "spread": 1} for i in range(4)] \
        + [{"seed": seed * 100129 + n + 10 + i, "ca": "MetaCA", "steps": 160, "long": 1} for i in range(24 if tier == "quick" else 120)]


def run_case(case, rec):
    import torch
    torch.set_default_dtype(torch.float64)
    rng = rng_of(case)
    kind = case["ca"]
    ext = int(rng.choice([1, 1, 2, 4]))
    internal = ext * int(rng.choice([1, 2]))
    if case.get("spread"):
        ext = internal = 1
    cfg = config(rng, internal, ext, rmax=4 if case.get("spread") else 7)
    with quiet():
        ca = from_config(kind, cfg)
        ca.no_grad()
        dt0 = cfg["dt"]
        h, w = int(rng.integers(15, 24)), int(rng.integers(15, 24))
        batch = int(rng.choice([1, 2]))
        name, g = state(rng, batch, ext, h, w, str(rng.choice(["uniform", "sparse", "blob", "binary"])))
        ca.reset()
        u, t, vel, dts = tt(g), 0.0, np.zeros(g.shape), []
        for s in range(case["steps"]):
            ev = rng.random() if not case.get("spread") and not case.get("long") else 1.0
            if ev < 0.1:
                ca.reset(); t = 0.0; vel = np.zeros(u.shape)
                rec.event("reset")
                rec.expect(float(ca.t_count) == 0.0, "time after a reset is not zero")
            elif ev < 0.27 and ev >= 0.2:
                # the same space, but another batch
                batch = batch % 3 + 1
                u = tt(state(rng, batch, ext, h, w, "uniform")[1]); vel = np.zeros(u.shape)
                rec.event("new batch")
            elif ev < 0.2:
                h, w = int(rng.integers(15, 24)), int(rng.integers(15, 24))
                if (h, w) != tuple(u.shape[-2:]):
                    u = tt(state(rng, batch, ext, h, w, "uniform")[1]); vel = np.zeros(u.shape)
                    rec.event("new shape")
            new = ca(u)
            x = npa(u)
            if kind == "RandomStepCA":
                dt = ca.get_dt()
                dts.append(dt)
                rec.event("random step")
                rec.expect(0.05 - 1e-9 <= dt <= 0.25 + 1e-9, "step size out of bounds", dt=dt)
                t += dt
                if not case.get("spread") or s < 5:
                    want = ref.cca_step(x, cfg, dt=dt, internal=internal)
                    rec.expect(maxdiff(npa(new), want) < 1e-5, "state is not one step of the reported size", dt=dt, diff=maxdiff(npa(new), want))
            else:
                upd, _, _ = ref.cca_update(ref.alive(x), cfg, internal)
                vel = vel + 0.25 * upd
                want = np.clip(ref.alive(x) + dt0 * vel, 0, 1)
                d = maxdiff(npa(new), want)
                rec.event("momentum step")
                rec.event("great velocity", bool(np.abs(vel).max() > 8))
                rec.expect(d < 1e-5, "state differs from the momentum model", diff=d, step=s, dt=dt0, channels=(internal, ext))
                t += dt0
            rec.expect(abs(float(ca.t_count) - t) < 1e-6, "simulated time is not the sum of the steps", t_count=float(ca.t_count), want=t, ca=kind)
            if not torch.equal(new, u) and (not case.get("spread") or s < 20):
                rec.seen(kind, fp(npa(new), 7))
            u = new
        if case.get("spread"):
            d = np.array(dts)
            rec.expect(abs(d.mean() - 0.15) < 0.015 and d.min() < 0.07 and d.max() > 0.23 and len(set(np.round(d, 9))) > 500,
                       "random step sizes are not spread over their range", mean=d.mean(), lo=d.min(), hi=d.max())
        if kind == "RandomStepCA":
            np.random.seed(case["seed"] % 1000); torch.manual_seed(3); ca.reset(); a = ca(ca(u)); da = ca.get_dt()
            np.random.seed(case["seed"] % 1000); torch.manual_seed(3); ca.reset(); b = ca(ca(u)); db = ca.get_dt()
            rec.expect(torch.equal(a, b) and da == db, "same seed, different steps")
    rec.note({"ca": kind, "state": name, "time": t, "dts": [round(v, 4) for v in dts[:4]]})

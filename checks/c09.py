"""Frames and their components agree with stepping; time is counted by steps only."""
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one automaton and state; frames of every mode are compared with the step, with each other, and with an "
        "independent model of neighborhoods and updates, while a clock model follows every step, frame, reset and change of step "
        "size; non-trivial if the step changed the state")
MUST_SEE = ["frame", "components", "clock"]


def cases(tier, seed):
    n = 640 if tier == "quick" else 2500
    return [{"seed": seed * 100151 + i, "ca": ["CCA", "Lenia", "NCA", "RxnDfn"][i % 4], "how": ["config", "init"][(i // 4) % 2]} for i in range(n)]


def run_case(case, rec):
    import torch
    torch.set_default_dtype(torch.float64)
    rng = rng_of(case)
    kind = case["ca"]
    ext = 2 if kind == "RxnDfn" else int(rng.choice([1, 1, 2, 3, 4, 5]))
    internal = 2 if kind == "RxnDfn" else ext * int(rng.choice([1, 2]))
    mode = "circular" if kind == "RxnDfn" else str(rng.choice(["circular", "zeros"]))
    kw = dict(internal_channels=internal, external_channels=ext, kernel_radius=int(rng.integers(2, 7)), conv_mode=mode)
    if kind == "NCA":
        kw["hidden_channels"] = 6
    cfg = None
    with quiet():
        ca = build(kind, **kw)
        if kind in CCAS and case["how"] == "config":
            cfg = config(rng, internal, ext, rmax=7, conv_mode=mode)
            ca.load_config(cfg)
        if kind == "RxnDfn":
            cfg = None
        ca.no_grad(); ca.eval()
        h, w = int(rng.integers(16, 26)), int(rng.integers(16, 26))
        name, g = state(rng, int(rng.choice([1, 2])), ext, h, w)
        u = tt(g)
        ca.reset()
        clock = 0.0
        dt = ca.get_dt()
        if cfg is not None:
            rec.expect(abs(dt - cfg["dt"]) < 1e-7, "step size is not that of the config", dt=dt, want=cfg["dt"])
        for s in range(8):
            ev = rng.random()
            if ev < 0.15:
                ca.reset(); clock = 0.0
            elif ev < 0.35:
                dt = float(rng.uniform(0.05, 1.0))
                ca.set_dt(dt if rng.random() < 0.5 else torch.tensor(dt))
                rec.expect(abs(ca.get_dt() - dt) < 1e-7, "step size is not the one set", got=ca.get_dt(), want=dt)
            f0 = ca.get_frame(u)
            f1 = ca.get_frame(u, mode=1)
            f2 = ca.get_frame(u, mode=2)
            f3 = ca.get_frame(u, mode=3)
            f4 = ca.get_frame(u, mode=4)
            rec.expect(abs(float(ca.t_count) - clock) < 1e-6, "frames take simulated time", t_count=float(ca.t_count), want=clock)
            new = ca(u)
            clock += dt
            rec.event("clock")
            rec.expect(abs(float(ca.t_count) - clock) < 1e-6, "simulated time is not the sum of the steps", t_count=float(ca.t_count), want=clock, ca=kind)
            rec.event("frame", 5)
            k = dict(ca=kind, channels=(internal, ext))
            for i, f in enumerate([f0, f1[0], f2[0], f3[0], f4[0]]):
                rec.expect(maxdiff(npa(f), npa(new)) < 1e-9, "frame is not the state after a step", mode=i, diff=maxdiff(npa(f), npa(new)), **k)
            rec.expect(maxdiff(npa(f1[1]), npa(f3[1])) < 1e-12 and maxdiff(npa(f1[1]), npa(f4[2])) < 1e-12, "neighborhoods differ between modes", **k)
            rec.expect(maxdiff(npa(f2[1]), npa(f3[2])) < 1e-12 and maxdiff(npa(f2[1]), npa(f4[3])) < 1e-12, "updates differ between modes", **k)
            x = npa(u)
            masked = x if kind == "RxnDfn" else ref.alive(x)
            rec.expect(maxdiff(npa(f4[1]), masked) < 1e-12, "state shown is not the (masked) state before the step", **k)
            want = np.clip(masked + dt * npa(f2[1]), 0, 1)
            rec.event("components")
            rec.expect(maxdiff(npa(new), want) < 1e-6, "step is not state + step size * update", diff=maxdiff(npa(new), want), dt=dt, **k)
            rec.expect(maxdiff(npa(ca.update_helper(tt(masked))), npa(f2[1])) < 1e-9, "update of the state differs from the frame's", **k)
            if cfg is not None:
                upd, nb, ident = ref.cca_update(masked, cfg, internal, mode, kind == "Lenia")
                rec.expect(maxdiff(npa(f1[1]), nb) < 1e-6, "neighborhoods are not the kernel sums of the state", diff=maxdiff(npa(f1[1]), nb), **k)
                rec.expect(maxdiff(npa(ca.neighborhood_conv(tt(masked))), nb) < 1e-6, "neighborhoods are not the kernel sums of the state", **k)
                rec.expect(maxdiff(npa(f2[1]), upd) < 1e-5, "update is not the documented one", diff=maxdiff(npa(f2[1]), upd), **k)
            if not torch.equal(u, new):
                rec.seen(kind, fp(npa(new), 7))
            u = new
        b, d = int(rng.integers(1, 4)), [int(rng.integers(3, 20)), int(rng.integers(3, 20))]
        if kind != "RxnDfn":
            g = ca.initialize_grid(batch_size=b, dim=d)
            rec.expect(tuple(g.shape) == (b, ext, d[0], d[1]) and float(g.abs().max()) == 0.0, "initial grid is not empty or has another shape")
    rec.note({"ca": kind, "state": name, "clock": clock})

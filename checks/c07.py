"""Adaptive step sizes."""
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one adaptive automaton (rule, bounds, error threshold) run for several steps; an online monitor checks each "
        "chosen step size against bounds, growth limit, error criterion and an independent float64 model, then repeats the run "
        "after a reset; non-trivial if the step size is not the smallest allowed, distinct by (step size, state)")
MUST_SEE = ["step", "kept", "shrunk", "fallback", "repeat"]


def cases(tier, seed):
    n = 300 if tier == "quick" else 2500
    return [{"seed": seed * 100109 + i, "thr": [1e-1, 3e-2, 1e-2, 1e-3, 1e-5][i % 5], "soft": int(i % 2), "bounds": i % 4,
             "steps": 8 if tier == "quick" else 20} for i in range(n)]


def run_case(case, rec):
    import torch
    torch.set_default_dtype(torch.float64)
    rng = rng_of(case)
    lo, hi, prev = [(0.01, 0.5, 0.3), (0.05, 0.4, 0.3), (0.005, 1.0, 0.02), (0.1, 0.9, 0.01)][case["bounds"]]
    kw = {} if case["bounds"] == 0 else dict(min_dt=lo, max_dt=hi, prev_dt=prev)
    ext = int(rng.choice([1, 1, 2, 4]))
    cfg = config(rng, ext, ext, rmax=7, with_id=False, error_threshold=case["thr"], **kw)
    if case["soft"]:        # slow rules, that allow for large steps
        for key in ["genesis_config", "persistence_config"]:
            poly = lambda: {"name": "Polynomial", "coefficients": tt(rng.normal(0, 0.01, 3)), "mode": 0}
            cfg[key] = poly() if ext == 1 else [poly() for _ in range(ext)]
    thr = case["thr"]
    with quiet():
        ca = from_config("CODE", cfg)
        ca.no_grad()
        h, w = int(rng.integers(15, 24)), int(rng.integers(15, 24))
        name, g = state(rng, int(rng.choice([1, 2])), ext, h, w, str(rng.choice(["uniform", "sparse", "blob", "ramp"])))
        start = tt(g)

        def err_of(u, dt):
            big = ref.cca_step(u, cfg, dt=dt, internal=ext)
            small = ref.cca_step(ref.cca_step(u, cfg, dt=dt / 2, internal=ext), cfg, dt=dt / 2, internal=ext)
            e = np.abs(big - small)
            live = small > 0
            return float((e[live] / small[live]).max()) if live.any() else 0.0

        def run(check):
            u, last, t, trail = start, prev, 0.0, []
            for s in range(case["steps"]):
                new = ca(u)
                dt = ca.get_dt()
                trail.append(dt)
                if check:
                    rec.event("step")
                    info = dict(dt=dt, previous=last, bounds=(lo, hi), threshold=thr, step=s)
                    rec.expect(lo - 1e-12 <= dt <= hi + 1e-12, "step size out of bounds", **info)
                    first = max(min(2 * last, hi), lo)
                    rec.expect(dt <= first + 1e-12, "step size more than doubled", **info)
                    t += dt
                    rec.expect(abs(float(ca.t_count) - t) < 1e-9, "simulated time is not the sum of the steps", t_count=float(ca.t_count), want=t, **info)
                    want = ref.cca_step(npa(u), cfg, dt=dt, internal=ext)
                    d = maxdiff(npa(new), want)
                    rec.expect(d < 1e-5, "state is not one step of the chosen size", diff=d, **info)
                    x = npa(u)
                    if dt > lo * (1 + 1e-9):
                        rec.event("kept")
                        e = err_of(x, dt)
                        rec.expect(e < thr * 1.01 + 1e-6, "chosen step misses the error threshold", error=e, **info)
                        rec.seen(round(dt, 6), fp(want, 6))
                        if dt < first * (1 - 1e-9):
                            rec.event("shrunk")
                            e = err_of(x, dt / 0.75)
                            rec.expect(e > thr * 0.99 - 1e-6, "a larger step would have met the threshold", error=e, **info)
                            # only steps a quarter smaller each time are tried
                            k = np.log(dt / first) / np.log(0.75)
                            rec.expect(abs(k - round(k)) < 1e-6, "step size is not a tried one", k=k, **info)
                    else:
                        # smallest step: nothing larger that was tried met the threshold
                        c = first
                        ok = False
                        while c > lo * (1 + 1e-9):
                            ok = ok or err_of(x, c) < thr * 0.99 - 1e-6
                            c *= 0.75
                        rec.event("fallback")
                        rec.expect(not ok, "smallest step taken though a larger one met the threshold", **info)
                u, last = new, dt
            return u, trail

        ca.reset()
        rec.expect(float(ca.t_count) == 0.0, "time after a reset is not zero")
        end, trail = run(True)
        ca.reset()
        rec.expect(float(ca.t_count) == 0.0, "time after a reset is not zero")
        end2, trail2 = run(False)
        rec.event("repeat")
        rec.expect(trail == trail2 and torch.equal(end, end2), "not the same run after a reset", first=trail, second=trail2)
    rec.note({"dts": [round(v, 5) for v in trail], "state": name, "thr": thr})

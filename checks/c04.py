"""Gray-Scott reaction-diffusion."""
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one reaction-diffusion model (parameters, kernel radius and width, step sizes, set directly or by config or by "
        "parameter vector) driven from a generated state, every step compared with an independent float64 model; equilibrium "
        "cases check the initial background stays put; non-trivial if the state changed (or, for equilibria, was not 0)")
MUST_SEE = ["step", "set again", "equilibrium", "conservation"]


def cases(tier, seed):
    n = 800 if tier == "quick" else 3000
    return [{"seed": seed * 100057 + i, "f64": int(i % 3 != 0), "how": ["default", "config", "params", "setters"][i % 4],
             "what": "equilibrium" if i % 5 == 4 else "step"} for i in range(n)]


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    v = dict(du=2e-5, dv=1e-5, f=0.0620, k=0.0609, dx=1 / 330., dt=0.5)
    r, s = 1, 0.5
    with quiet():
        ca = build("RxnDfn", **({} if rng.random() < 0.5 else dict(internal_channels=2, external_channels=2)))
        if case["how"] != "default":
            v["f"], v["k"] = float(rng.uniform(0.005, 0.09)), float(rng.uniform(0.01, 0.08))
            v["du"], v["dv"] = float(rng.uniform(1e-6, 4e-5)), float(rng.uniform(1e-6, 4e-5))
        vec = np.array([v["du"], v["dv"], v["f"], v["k"]])
        h, w = int(rng.integers(10, 30)), int(rng.integers(10, 30))
        b, dim = int(rng.integers(1, 4)), [h, w] if rng.random() < 0.5 else h
        if rng.random() < 0.4:
            ca.initialize_grid(batch_size=b, dim=dim)      # of the reaction before its rates are set
        if case["how"] == "config":
            r, s = int(rng.integers(1, 5)), float(rng.uniform(0.2, 0.8))
            v["dx"], v["dt"] = float(rng.uniform(1 / 400., 1 / 100.)), float(rng.uniform(0.05, 1))
            ca.load_config({"neighborhood_kernel_config": {"name": "LaplacianOfGaussian", "radius": r, "kernel_kwargs": {"sigma": s}},
                            "dt": v["dt"], "dx": v["dx"], "decay_rate": v["k"], "feed_rate": v["f"],
                            "diffusion_u": v["du"], "diffusion_v": v["dv"], "params": vec})
        elif case["how"] == "params":
            ca.set_params(vec)
        elif case["how"] == "setters":
            ca.set_params(vec)
            v["dx"], v["dt"] = float(rng.uniform(1 / 400., 1 / 100.)), float(rng.uniform(0.05, 1))
            ca.set_dx(v["dx"]); ca.set_dt(v["dt"])
            v["du"], v["dv"] = float(rng.uniform(1e-6, 4e-5)), float(rng.uniform(1e-6, 4e-5))
            ca.set_diffusion_u(v["du"]); ca.set_diffusion_v(v["dv"])
            if rng.random() < 0.5:
                r = int(rng.integers(1, 4))
                ca.set_kernel_radius(r)
        if rng.random() < 0.4:
            # what is set last counts, however it was set before
            rec.event("set again")
            for op in rng.permutation(["dx", "dt", "du", "dv", "f", "k", "params"])[:int(rng.integers(1, 4))]:
                if op == "dx":
                    v["dx"] = float(rng.uniform(1 / 400., 1 / 100.)); ca.set_dx(v["dx"])
                elif op == "dt":
                    v["dt"] = float(rng.uniform(0.05, 1)); ca.set_dt(v["dt"])
                elif op == "du":
                    v["du"] = float(rng.uniform(1e-6, 4e-5)); ca.set_diffusion_u(v["du"])
                elif op == "dv":
                    v["dv"] = float(rng.uniform(1e-6, 4e-5)); ca.set_diffusion_v(v["dv"])
                elif op == "params":
                    v["f"], v["k"] = float(rng.uniform(0.005, 0.09)), float(rng.uniform(0.01, 0.08))
                    v["du"], v["dv"] = float(rng.uniform(1e-6, 4e-5)), float(rng.uniform(1e-6, 4e-5))
                    ca.set_params(np.array([v["du"], v["dv"], v["f"], v["k"]]))
        for name, get in [("dx", ca.get_dx), ("dt", ca.get_dt), ("du", ca.get_diffusion_u), ("dv", ca.get_diffusion_v)]:
            rec.expect(abs(get() - v[name]) <= 1e-6 * abs(v[name]) + 1e-12, f"{name} is not what was set", got=get(), want=v[name], how=case["how"])
        got = ca.get_params()
        rec.expect(maxdiff(got, [v["du"], v["dv"], v["f"], v["k"]]) <= 1e-7, "params are not what was set", got=got, want=v)
        kern = ref.kernel({"name": "LaplacianOfGaussian", "radius": r, "kernel_kwargs": {"sigma": s}})
        if case["what"] == "equilibrium":
            g = ca.initialize_grid(batch_size=b, dim=dim)
            want = (b, 2, h, w if isinstance(dim, list) else h)
            rec.expect(tuple(g.shape) == want, "shape of the initial grid", got=tuple(g.shape), want=want)
            A = np.sqrt(v["f"]) / (v["f"] + v["k"])
            if A * A - 4 > 1e-4 and case["how"] != "default" or A * A - 4 > 1e-4:
                root = np.sqrt(A * A - 4)
                eq = np.array([(A - root) / (2 * A), np.sqrt(v["f"]) * (A + root) / 2])
                rec.event("equilibrium")
                got = npa(g)
                amp = 1e-6 if case["f64"] else 1e-4 / min(1, root)
                rec.expect(maxdiff(got[:, 0], np.full_like(got[:, 0], eq[0])) < amp and maxdiff(got[:, 1], np.full_like(got[:, 1], eq[1])) < amp,
                           "initial background is not the blue equilibrium", got=got[0, :, 0, 0], want=eq, f=v["f"], k=v["k"])
                u = g
                if eq.max() <= 1:
                    n = ca(u)
                    drift = float((n - u).abs().max())
                    rec.expect(drift < (1e-7 if case["f64"] else 1e-5) * (1 + v["dt"] * 1e-5 / v["dx"] ** 2), "equilibrium is not a fixed point", drift=drift, f=v["f"], k=v["k"])
                    rec.seen("eq", fp(eq, 7))
            # nothing reacts without the second species, and full feed stays
            z = torch.zeros(1, 2, h, w); z[:, 0] = 1.0
            n = ca(z)
            rec.expect(float((n - z).abs().max()) < (1e-7 if case["f64"] else 1e-5) * (1 + v["dt"] * 4e-5 / v["dx"] ** 2), "trivial state (1, 0) is not a fixed point")
            return
        kind, g = state(rng, int(rng.choice([1, 2])), 2, h, w)
        if rng.random() < 0.3:
            g[:, 0] = 1 - 0.5 * g[:, 0]
        u = tt(g)
        for step in range(4):
            new = ca(u)
            want = ref.gray_scott(npa(u), v["du"], v["dv"], v["f"], v["k"], v["dx"], v["dt"], kern)
            stiff = v["dt"] * max(v["du"], v["dv"]) / v["dx"] ** 2
            tol = (1e-9 if case["f64"] else 3e-6) * (1 + 2 * stiff) + (2e-6 if case["how"] in ("default", "setters") else 0) * 0 + (1e-7 * (1 + stiff) if case["f64"] else 0)
            err = maxdiff(npa(new), want)
            rec.event("step")
            rec.expect(err <= tol, "step differs from the Gray-Scott model", err=err, tol=tol, how=case["how"], values=v, r=r, step=step, state=kind)
            # without clamping, diffusion moves matter but makes none
            inside = (want.min() > 1e-6) and (want.max() < 1 - 1e-6)
            if inside:
                uu = npa(u)
                made = v["dt"] * (-uu[:, 0] * uu[:, 1] ** 2 + v["f"] * (1 - uu[:, 0])).sum()
                rec.event("conservation")
                d = abs((npa(new)[:, 0] - uu[:, 0]).sum() - made) / uu[:, 0].size
                rec.expect(d <= tol + 2e-7 * (1 + stiff), "diffusion makes or destroys matter", per_cell=d, values=v)
            if not torch.equal(u, new):
                rec.seen(fp(want, 6))
            u = new
    rec.note({"values": v, "r": r, "state": kind, "err": err, "tol": tol})

"""Changes of radius, kernel, step size and parameters take effect, in any order."""
import copy
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one automaton put through a random sequence of operations (radius, kernel config, step size, parameters, dx, "
        "steps, frames, resets, config round trips, device moves) next to a model holding the rule as plain numbers; after every "
        "operation step, kernel and getters have to agree with the model; distinct by operation history and state")
MUST_SEE = ["radius", "kernel", "dt", "params", "reload", "diffusion"]


def cases(tier, seed):
    n = 640 if tier == "quick" else 3000
    kinds = ["CCA", "Lenia", "CCA", "NCA", "RxnDfn"]
    return [{"seed": seed * 100207 + i, "ca": kinds[i % 5], "how": ["config", "init"][(i // 5) % 2], "ops": 7 if tier == "quick" else 14} for i in range(n)]


def run_case(case, rec):
    import torch
    torch.set_default_dtype(torch.float64)
    rng = rng_of(case)
    kind = case["ca"]
    ext = 2 if kind == "RxnDfn" else int(rng.choice([1, 1, 2, 3]))
    internal = 2 if kind == "RxnDfn" else ext * int(rng.choice([1, 2]))
    mode = "circular" if kind == "RxnDfn" else str(rng.choice(["circular", "zeros"]))
    kw = {} if kind == "RxnDfn" else dict(internal_channels=internal, external_channels=ext, conv_mode=mode, kernel_radius=int(rng.integers(2, 6)), kernel_peaks=2)
    hidden, act = 5, "Tanh"
    if kind == "NCA":
        kw.update(hidden_channels=hidden, activation=act)
    with quiet():
        ca = build(kind, **kw)
        model = {}
        if kind in ("CCA", "Lenia"):
            cfg = config(rng, internal, ext, rmax=6, conv_mode=mode)
            if case["how"] == "init":
                # as initialized, but with growth functions we know
                p = ca.get_params()
                kp = np.asarray(ca.kernel_params, np.float64)
                cfg["neighborhood_kernel_config"] = {"name": "GaussianMixture", "radius": kw["kernel_radius"], "kernel_kwargs": {"parameters": kp}}
            ca.load_config(cfg)
            model = dict(cfg)
        elif kind == "NCA":
            p = ca.get_params()
            model = {"k": {"name": "GaussianMixture", "radius": kw["kernel_radius"], "kernel_kwargs": {"parameters": p[-6:]}}, "p": p[:-6], "dt": 0.1}
        else:
            model = {"p": ca.get_params(), "dx": 1 / 330., "dt": 0.5,
                     "k": {"name": "LaplacianOfGaussian", "radius": 1, "kernel_kwargs": {"sigma": 0.5}}}
        ca.no_grad(); ca.eval()
        g = tt(state(rng, 1, ext, 17, 16, kind=str(rng.choice(["uniform", "sparse", "blob"])))[1])

        def expected():
            x = npa(g)
            if kind == "NCA":
                kern = ref.kernel(model["k"])
                return ref.nca_step(x, model["p"], kern, ext, internal, hidden, act, model["dt"], mode)
            if kind == "RxnDfn":
                return ref.gray_scott(x, *model["p"], model["dx"], model["dt"], ref.kernel(model["k"]))
            return ref.cca_step(x, model, internal=internal, mode=mode, lenia=kind == "Lenia")

        kcfg = lambda: model["neighborhood_kernel_config"] if kind in ("CCA", "Lenia") else model["k"]
        history, given = [], []
        for s in range(case["ops"]):
            ops = ["radius", "kernel", "dt", "params", "step", "frame", "reset", "reload", "device", "dx"]
            if kind == "RxnDfn":
                ops = ["dt", "params", "step", "frame", "reset", "reload", "device", "dx", "dx", "diffusion", "diffusion"]
            op = str(rng.choice(ops))
            history.append(op)
            rec.event(op)
            if op == "radius":
                r = int(rng.integers(2, 7))
                ca.set_kernel_radius(r)
                new = dict(kcfg(), radius=r)
            elif op == "kernel":
                if kind == "NCA":
                    # weights and kernel share a vector: same number of kernel parameters
                    new = {"name": "GaussianMixture", "radius": int(rng.integers(2, 7)), "kernel_kwargs": {"parameters": rng.uniform(0.1, 0.9, 6)}}
                else:
                    new = kernel_config(rng, rmax=6)
                ca.set_kernel_config(new)
                # the caller's own
                given.append((new, copy.deepcopy(new)))
            else:
                new = None
            if new is not None:
                if kind in ("CCA", "Lenia"):
                    model["neighborhood_kernel_config"] = new
                else:
                    model["k"] = new
            if op == "dt":
                # (a step may be very small, or none at all)
                dt = float(rng.choice([rng.uniform(0.05, 0.9), rng.uniform(0.05, 0.9), rng.uniform(0.05, 0.9), 1e-4, 1e-6, 0.0, 2.5]))
                ca.set_dt(dt if rng.random() < 0.5 else torch.tensor(dt))
                model["dt"] = dt
            elif op == "params":
                p = ca.get_params()
                if len(p):
                    p = p * rng.uniform(0.8, 1.2, p.shape)
                    ca.set_params(p)
                    if kind == "NCA":
                        model["p"], model["k"] = p[:-6], {"name": "GaussianMixture", "radius": model["k"]["radius"], "kernel_kwargs": {"parameters": p[-6:]}}
                    elif kind == "RxnDfn":
                        model["p"] = p
                    else:
                        model = cfg_with(model, p, kind == "Lenia")
            elif op == "step":
                g = ca(g)
            elif op == "frame":
                ca.get_frame(g, mode=int(rng.integers(0, 5)))
            elif op == "reset":
                ca.reset()
                rec.expect(float(ca.t_count) == 0.0, "time after a reset is not zero")
            elif op == "reload":
                if rng.random() < 0.5:
                    ca.save_config("c.npy"); ca.restore_config("c.npy")
                else:
                    ca.load_config(ca.make_config())
                ca.no_grad(); ca.eval()
            elif op == "device":
                ca.to_device("cpu")
            elif op == "dx":
                dx = float(rng.uniform(1 / 330., 1 / 150.))
                ca.set_dx(dx)
                if kind == "RxnDfn":
                    model["dx"] = dx
            elif op == "diffusion":
                # one alone leaves the other as it is
                i, v = int(rng.integers(2)), 1e-5 * float(rng.uniform(0.4, 2.5))
                (ca.set_diffusion_u, ca.set_diffusion_v)[i](v if rng.random() < 0.5 else torch.tensor(v))
                model["p"] = np.array(model["p"], dtype=np.float64)
                model["p"][i] = v
            info = dict(ca=kind, history=" ".join(history), channels=(internal, ext))
            for now, then in given:
                rec.expect(now["radius"] == then["radius"] and repr(now) == repr(then), "a kernel description changes after it was given", now=now, then=then, **info)
            got, want = npa(ca(g)), expected()
            if not rec.expect(maxdiff(got, want) < 1e-5, "step is not the one of the current settings", diff=maxdiff(got, want), **info):
                break
            rec.seen(kind, op, fp(got, 5))
            rec.expect(abs(ca.get_dt() - ref.arr(model["dt"]).item()) < 1e-7, "get_dt is not the current step size", **info)
            if kind == "RxnDfn":
                rec.expect(abs(ca.get_dx() - model["dx"]) < 1e-8, "get_dx is not the current spatial step", **info)
                rec.expect(abs(ca.get_diffusion_u() - model["p"][0]) < 1e-10 and abs(ca.get_diffusion_v() - model["p"][1]) < 1e-10, "diffusion read back differs", **info)
            else:
                rec.expect(ca.get_kernel_radius() == kcfg()["radius"], "get_kernel_radius is not the current radius", got=ca.get_kernel_radius(), want=kcfg()["radius"], **info)
                nb = ref.sense(npa(ref_alive(g)), ref.kernel(kcfg()), internal, mode)
                rec.expect(maxdiff(npa(ca.neighborhood_conv(g)), nb) < 1e-6, "neighborhoods are not those of the current kernel",
                           diff=maxdiff(npa(ca.neighborhood_conv(g)), nb), **info)
    rec.note({"ca": kind, "history": history})


def ref_alive(g):
    return g

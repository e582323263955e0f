"""Glider rewards measure steady travel."""
import os
import numpy as np
from gen import *
from script import recording, scripted, rollouts

LEVEL = "exploration"
RULE = ("one case = one automaton (real, or moving a pattern about by a script: steadily, growing, fading, freezing, across the edge) and starting pattern; "
        "the reward is recomputed in float64 from the recorded states, and compared with the distance travelled; distinct by script and reward")
MUST_SEE = ["real automaton", "moves", "crosses the edge", "grows", "dies", "freezes", "config", "log", "distance", "backward", "crosses the edge backward", "wide pattern"]


def cases(tier, seed):
    n = 960 if tier == "quick" else 4000
    return [{"seed": seed, "wide": True}] + [{"seed": seed * 100361 + i, "ca": KINDS[i // 3 % 7] if i % 3 == 0 else None, "start": ["plain", "config", "log"][i // 21 % 3] if i % 3 == 0 else "plain"} for i in range(n)]


def travel(states, kr, dim):
    """reward, and whether it was computed from comparisons too close to call"""
    g = [s.astype(np.float64) for s in states]
    eps, span = 1e-6, (dim - 1) / kr
    col = np.arange(dim) / kr
    m0, y0, total, close = g[0].mean(), 0.0, 0.0, False
    for s in g[1:]:
        m, y = s.mean(), (col * s[0:1]).sum() / (eps + s.sum())
        growth = abs(1 - m / (m0 + eps))
        m0 = m
        if y0 != 0.0:
            d = y - y0
            close |= min(abs(q - e) for q in (y0, y) for e in (2, span - 2)) < 1e-3
            if y0 > span - 2 and y < 2:
                d += span
            elif y0 < 2 and y > span - 2:
                d -= span
            total += d
        close |= y != 0.0 and abs(y) < 1e-9
        total -= growth
        y0 = y
    return total, close


def wide(rec):
    """a pattern of six columns that straddles the edge for some steps (known finding: it loses the width of the world)"""
    from yuca.wrappers.glider_wrapper import GliderWrapper
    import torch
    for v in (1, -1):
        for col, steps in ((10, 6), (13, 6), (20, 20) if v > 0 else (6, 20)):
            with quiet():
                env = GliderWrapper(ca_steps=steps, batch_size=1, dim=32, kernel_radius=2, kernel_peaks=1, ca_fn=scripted(class_of("CCA"), lambda self, t, x: torch.roll(x, v, dims=-1)))
            g = np.zeros((1, 1, 32, 32))
            g[:, :, 8:14, col:col + 6] = 0.5
            _, reward, _, _ = env.step(tt(g))
            n = len(env.ca.__dict__["tape"])
            got, dist, world = float(reward), v * (n - 1) / 2, 32 / 2
            inside = 0 <= col + v * n and col + 5 + v * n < 32
            rec.event("wide pattern")
            known = not inside and (v > 0) == (col > 13) and abs(got - (dist - v * world)) < 0.6
            rec.expect(abs(got - dist) < (0.05 if inside else 0.6), f"wide-pattern-crosses-edge-{'right' if v > 0 else 'left'}" if known else "reward of a wide pattern is not its distance",
                       got=got, want=dist, start=col, speed=v, steps=n)


def run_case(case, rec):
    import torch
    from yuca.wrappers.glider_wrapper import GliderWrapper
    if case.get("wide"):
        return wide(rec)
    rng = rng_of(case)
    if rng.random() < 0.5:
        torch.set_default_dtype(torch.float64)
    f64 = torch.get_default_dtype() == torch.float64
    steps, dim = int(rng.integers(1, 20)), int(rng.choice([12, 16, 25, 32]))
    kw = dict(ca_steps=steps, batch_size=1, dim=dim, kernel_radius=int(rng.integers(1, 5)), kernel_peaks=1)
    style = None
    if case["ca"]:
        rec.event("real automaton")
        base = class_of(case["ca"])
        kw["kernel_radius"] = max(2, kw["kernel_radius"])
        if case["ca"] == "NCA":
            kw["hidden_channels"] = 3
        if case["ca"] == "RxnDfn":
            kw["external_channels"] = 2
        kw["ca_fn"] = recording(base)
    else:
        style = str(rng.choice(["steady", "steady", "edge", "edge", "grows", "dies", "freezes", "wanders"]))
        v, at, f = int(rng.integers(-3, 4)), int(rng.integers(1, steps + 1)), float(rng.uniform(0.8, 1.25))
        jumps = [int(q) for q in rng.integers(-3, 4, steps + 1)]

        def script(self, t, x):
            if style == "dies" and t >= at:
                return x * 0
            if style == "freezes" and t >= at:
                return x.clone()
            y = torch.roll(x, jumps[t] if style == "wanders" else v, dims=-1)
            if style == "grows":
                y = torch.clamp(y * (f if t % 2 else 1 / f), 0, 1)
            if rng.random() < 0 or t % 3 == 1 and style == "wanders":
                y = torch.roll(y, 1, dims=-2)
            return y
        kw["ca_fn"] = scripted(class_of("CCA"), script)
    with quiet():
        params = None
        if case["start"] != "plain":
            # a wrapper made with a saved rule uses that rule
            other = build(case["ca"], **{k: v for k, v in kw.items() if k not in ("ca_fn",)})
            p = np.array(other.get_params(), dtype=np.float64)
            params = p * rng.uniform(0.6, 1.4, p.shape)
            other.set_params(params)
            rec.event(case["start"])
            if case["start"] == "config":
                other.save_config("rule.npy")
                kw["ca_config"] = os.path.abspath("rule.npy")
            else:
                best = np.stack([params, params * 1.1])
                np.save("log.npy", {"elite_params": [best * 0.5, best]})
                kw["input_filepath"] = os.path.abspath("log.npy")
        env = GliderWrapper(**kw)
        if params is not None:
            rec.expect(np.allclose(np.array(env.ca.get_params(), dtype=np.float64), params, rtol=1e-5, atol=1e-7), "wrapper does not use the saved rule", ca=case["ca"], how=case["start"])
        env.ca.no_grad()
        env.reset()
        env.to_device("cpu")
        env.eval()
        rec.expect(tuple(env.action_space.sample().shape) == (1, env.ca.external_channels, dim, dim), "shape of actions", shape=tuple(env.action_space.sample().shape))
        kr = env.ca.kernel_radius
        for trial in range(2):
            if case["ca"]:
                kind, g = state(rng, 1, env.ca.external_channels, dim, dim, str(rng.choice(["uniform", "sparse", "blob", "pixel"])))
            else:
                w = 1 if style == "edge" else int(rng.integers(1, 4))
                col = (dim - 2 - int(rng.integers(0, 4)) if v >= 0 else 1 + int(rng.integers(0, 4))) if style == "edge" else int(rng.integers(1, dim // 2))
                g = np.zeros((1, 1, dim, dim))
                h = int(rng.integers(2, dim // 2))
                g[:, :, 2:2 + h, col:col + w] = rng.uniform(0.5, 0.75, (1, 1, h, w))
                kind = style
            x = tt(g)
            keep = x.clone()
            env.ca.__dict__["tape"] = []
            env.ca.__dict__["resets"] = 0
            _, reward, done, info = env.step(x)
            tape = env.ca.__dict__["tape"]
            states = [npa(tape[0][0])] + [npa(b) for a, b in tape]
            what = dict(ca=case["ca"] or "scripted", style=kind, steps=steps, dim=dim, kernel_radius=kr)
            rec.expect(torch.equal(x, keep), "stepping changes the pattern given", **what)
            rec.expect(torch.equal(tape[0][0], x) and all(torch.equal(a, b) for (_, a), (b, _) in zip(tape, tape[1:])), "states are not those of one evolution from the pattern given", **what)
            rec.expect(env.ca.__dict__["resets"] >= 1, "automaton is not reset before an evolution", **what)
            n = len(tape)
            still = [np.abs(b - a).max() <= 1.1e-5 or b.mean() == 0 for a, b in zip(states, states[1:])]
            # (patterns that fade in all places may count as standing still)
            stop = [np.abs(b - a).max() <= 0.9e-5 or b.mean() == 0 for a, b in zip(states, states[1:])]
            fades = [(b - a).max() <= 1.1e-5 for a, b in zip(states, states[1:])]
            rec.expect(n <= steps and not any(stop[:-1]), "goes on after the pattern vanished or froze", n=n, **what)
            rec.expect(n == steps or still[-1] or fades[-1], "ends while the pattern still moves", n=n, **what)
            want, close = travel(states, kr, dim)
            tol = (1e-8 if f64 and env.y_grid.dtype == torch.float64 else 2e-3) * (1 + abs(want) + n)
            if f64:
                tol = max(tol, 1e-5 * n)
            if not close:
                rec.expect(abs(float(reward) - want) < tol, "reward is not distance minus growth", got=float(reward), want=want, n=n, **what)
            rec.expect(abs(float(info["active_grid"]) - states[-1].mean()) < 1e-5, "final activity", got=float(info["active_grid"]), want=states[-1].mean(), **what)
            if style:
                rec.event({"steady": "moves", "wanders": "moves", "edge": "crosses the edge"}.get(style, style))
            # a pattern that keeps its mass is rewarded for the distance it travels to one side, in kernel radii
            # (in worlds of at least four: the ends of smaller ones cannot be told apart)
            if style in ("steady", "edge") and v and n == steps and (dim - 1) / kr > 4.1:
                cols = [(np.arange(dim) * s[0, 0].sum(0)).sum() / s.sum() for s in states[1:]]
                straight = all(np.ptp(np.nonzero(s[0, 0].sum(0))[0]) <= 3 for s in states[1:]) and all(abs(c) > 1e-6 for c in cols)
                pairs = [(a, b) if v > 0 else (b, a) for a, b in zip(cols, cols[1:])]
                crossings = sum(b < a for a, b in pairs)
                near = all(b < 2 * kr and a > dim - 1 - 2 * kr for a, b in pairs if b < a)
                if straight and near:
                    dist = v * (n - 1) / kr
                    rec.event("distance")
                    rec.event("backward", v < 0)
                    rec.event("crosses the edge backward", bool(v < 0 and crossings > 0))
                    rec.expect(abs(float(reward) - dist) < 0.01 * (1 + n) + (1.0 / kr + 0.01) * crossings, "reward is not the distance travelled", got=float(reward), want=dist, crossings=crossings, speed=v, **what)
            rec.seen(case["ca"], style, steps, dim, round(float(reward), 4))
    rec.note({"pattern": kind, "reward": float(reward), "steps": n})

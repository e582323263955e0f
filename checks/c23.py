"""Halting rewards measure what became of the patterns."""
import numpy as np
from gen import *
from script import recording, scripted, rollouts

LEVEL = "exploration"
RULE = ("one case = one wrapper, automaton (real, or following a script of deaths and standstills) and parameters stepped several times; rewards are "
        "recomputed from the recorded states and the predictor's own answers; distinct by outcome of the batch and reward")
MUST_SEE = ["SimpleHaltingWrapper", "HaltingWrapper", "all dead", "some dead", "none dead", "static end", "moving end", "cut short", "right guess", "wrong guess", "learned", "another measurement", "guess from the early state"]


def cases(tier, seed):
    n = 600 if tier == "quick" else 3000
    return [{"seed": seed * 100357 + i, "env": "SimpleHaltingWrapper" if i % 2 else "HaltingWrapper", "ca": KINDS[i // 2 % 7] if i % 8 < 3 else None, "mode": i // 2 % 3} for i in range(n)]


def run_case(case, rec):
    import torch
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
    rng = rng_of(case)
    simple = case["env"] == "SimpleHaltingWrapper"
    if rng.random() < 0.2:
        torch.set_default_dtype(torch.float64)
    steps, batch, dim = int(rng.integers(1, 7)), int(rng.integers(1, 6)), int(rng.choice([16, 20, 33]) if not simple else rng.choice([4, 9, 12, 16, 21]))
    mode = case["mode"]
    kw = dict(ca_steps=steps, batch_size=batch, dim=dim, kernel_radius=1 + int(rng.integers(2)), kernel_peaks=1, prediction_mode=mode, lr=1e-2, dropout=0.125)
    rec.event(case["env"])
    if case["ca"]:
        base = class_of(case["ca"])
        if case["ca"] == "NCA":
            kw["hidden_channels"] = 3
        if case["ca"] == "RxnDfn":
            kw["external_channels"] = 2
        if case["ca"] == "CODE":
            kw.update(min_dt=0.1, error_threshold=0.2)
        kw["ca_fn"] = recording(base)
    else:
        base = class_of("CCA")
        if rng.random() < 0.3:
            kw.update(external_channels=int(rng.integers(2, 4)), internal_channels=1)
        # what becomes of each sample of the batch in each evolution
        warm = 0 if simple else 8
        style = str(rng.choice(["mixed", "dead", "alive", "static", "moves"]))
        plan = {}

        def outcome(run, b):
            if (run, b) not in plan:
                kind = {"mixed": str(rng.choice(["dies", "static", "moves", "fades"])), "dead": "dies", "alive": str(rng.choice(["static", "moves"]))}.get(style, style)
                plan[run, b] = (kind, int(rng.integers(0, warm + steps + 2)) if style == "mixed" else int(rng.integers(0, warm + max(1, steps - 1))), float(rng.choice([1.0, 0.6, 0.01])))
            return plan[run, b]

        def script(self, t, x):
            y = x.clone()
            for b in range(x.shape[0]):
                kind, at, level = outcome(self.__dict__["runs"], b)
                if kind == "dies":
                    y[b] = x[b] * (0.0 if t >= at else 0.9)
                elif kind == "fades":
                    y[b] = x[b] * 0.05
                elif kind == "static":
                    y[b] = x[b] if t else torch.clamp(x[b] * level, 0, 1)
                else:
                    y[b] = torch.roll(x[b], 1, dims=-1) if t else torch.clamp(x[b] * level, 0, 1)
            return y
        kw["ca_fn"] = scripted(base, script)
    torch.manual_seed(int(rng.integers(1 << 30)))
    with quiet():
        env = (SimpleHaltingWrapper if simple else HaltingWrapper)(**kw)
        env.ca.no_grad()
        asked = []
        if not simple:
            # what the predictor is shown, wherever it is asked
            answer = env.forward

            def forward(x):
                asked.append(x.detach().clone())
                return answer(x)
            env.forward = forward
        for trial in range(2 if simple or rng.random() < 0.4 else 1):
            p0 = np.array(env.ca.get_params(), dtype=np.float64)
            action = p0 * rng.uniform(0.6, 1.4, p0.shape)
            keep = action.copy()
            rec.event("another measurement", trial)
            env.reset()
            if rng.random() < 0.5:
                env.to_device("cpu")
            env.eval()
            if not simple:
                w0 = [p.detach().clone() for p in env.parameters()]
            env.ca.__dict__["tape"] = []
            env.ca.__dict__["resets"] = 0
            asked.clear()
            _, reward, done, info = env.step(action)
            runs = rollouts(env.ca.__dict__["tape"])
            end = runs[-1]
            what = dict(env=case["env"], ca=case["ca"] or "scripted", mode=mode, steps=steps, batch=batch)
            rec.expect(np.array_equal(action, keep), "stepping changes the parameters given", **what)
            rec.expect(np.allclose(np.array(env.ca.get_params(), dtype=np.float64), action, rtol=1e-5, atol=1e-7), "automaton does not have the parameters given", **what)
            rec.expect(env.ca.__dict__["resets"] >= len(runs), "automaton is not reset before an evolution", resets=env.ca.__dict__["resets"], runs=len(runs), **what)
            for r in runs:
                rec.expect(tuple(r[0].shape) == (batch, env.ca.external_channels, dim, dim) and float(r[0].min()) >= 0 and float(r[0].max()) <= 1, "starting states", shape=tuple(r[0].shape), **what)
                if batch > 1:
                    rec.expect(not torch.equal(r[0][0], r[0][1]), "samples of a batch start alike", **what)
            if simple:
                rec.expect(len(runs) == 1, "number of evolutions", got=len(runs), **what)
                q = dim // 4
                g0 = end[0]
                inside = g0[:, :, q:dim - q, q:dim - q]
                outside = g0.clone()
                outside[:, :, q:dim - q, q:dim - q] = 0
                rec.expect(float(outside.max()) == 0 and float((inside > 0).double().mean()) > 0.9 and 0.05 < float(inside.mean()) < 0.95, "patterns do not start in the middle half", **what)
                n = len(end) - 1
                rec.expect(n == steps or n < steps and float(end[-1].mean()) <= 0, "length of the evolution", got=n, want=steps, **what)
                rec.event("cut short", n < steps)
                alive = np.array([float(end[-1][b].double().mean()) > 0 for b in range(batch)])
                share = alive.mean()
                rec.event("all dead" if share == 0 else "none dead" if share == 1 else "some dead")
                rec.expect(abs(float(info["active_grid"]) - share) < 1e-6, "share of surviving patterns", got=float(info["active_grid"]), want=share, **what)
                rec.expect(abs(float(reward) + abs(0.5001 - share)) < 1e-5, "reward is not minus the distance of the surviving share from a half", got=float(reward), share=share, **what)
                rec.seen("simple", batch, tuple(alive), n)
            else:
                # 8 warming up steps, the evolution, and one more step to see if anything moves
                n = len(end) - 1 - 8 - 1
                last, nxt = end[-2].double(), end[-1].double()
                rec.expect(len(runs) > 1, "predictor is not trained on evolutions of its own", runs=len(runs), **what)
                starts = [fp(npa(r[0])) for r in runs]
                rec.expect(len(set(starts)) == len(starts), "evolutions start alike", **what)
                rec.expect(n == steps or 0 <= n < steps and float(last.max()) == 0, "length of the evolution", got=n, want=steps, **what)
                rec.event("cut short", n < steps)
                for r in runs[:-1]:
                    rec.expect(len(r) - 10 == steps or float(r[-2].max()) <= 0, "length of a training evolution", got=len(r) - 10, want=steps, **what)
                flat = lambda g: g.reshape(batch, -1)
                alive = (flat(last).max(1)[0] > 1e-5).numpy()
                moving = (flat((last - nxt).abs()).max(1)[0] > 1e-5).numpy()
                near = (((flat(last).max(1)[0] - 1e-5).abs() < 1e-6) | ((flat((last - nxt).abs()).max(1)[0] - 1e-5).abs() < 1e-6)).any()
                target = np.stack([alive, moving][:1] if mode == 0 else [moving] if mode == 1 else [alive, moving], 1)
                # one guess per evolution, made before its outcome is known
                if len(asked) == len(runs):
                    for r, x in zip(runs, asked):
                        rec.expect(torch.equal(x.double(), r[8].double()), "predictor is not shown the early state of its evolution", training=r is not end,
                                   state=[i for i, y in enumerate(r) if torch.equal(x.double(), y.double())], **what)
                        rec.event("guess from the early state")
                with torch.no_grad():
                    pred = env(end[8])
                    again = env(end[8])
                rec.expect(torch.equal(pred, again), "predictor still drops units out", **what)
                rec.expect(tuple(pred.shape) == (batch, 2 if mode == 2 else 1) and float(pred.min()) >= 0 and float(pred.max()) <= 1, "predictions", shape=tuple(pred.shape), **what)
                near = near or bool(((pred - 0.5).abs() < 1e-4).any())
                right = (pred.numpy() > 0.5) == target
                rec.event("right guess", int(right.sum())); rec.event("wrong guess", int((~right).sum()))
                rec.event("moving end" if moving.any() else "static end")
                rec.event("all dead" if not alive.any() else "none dead" if alive.all() else "some dead")
                if not near:
                    rec.expect(abs(float(reward) + right.mean()) < 1e-6, "reward is not minus the share of right predictions", got=float(reward), want=-right.mean(), pred=pred, target=target, **what)
                    rec.expect(abs(float(info["active_grid"]) - target.mean()) < 1e-6, "share of active patterns", got=float(info["active_grid"]), want=target.mean(), **what)
                moved = any(not torch.equal(a, b) for a, b in zip(w0, env.parameters()))
                rec.expect(moved, "predictor does not learn", **what)
                # where training evolutions all end alike, predictions approach that outcome
                ends = [(npa(r[-2]), npa(r[-1])) for r in runs[:-1]]
                goals = []
                for a, b in ends:
                    lives, move = a.reshape(batch, -1), np.abs(b - a).reshape(batch, -1)
                    goals.append([0.0 if lives.max() == 0 else 1.0 if lives.mean(1).min() > 1e-3 else None, 0.0 if move.max() == 0 else 1.0 if move.mean(1).min() > 1e-3 else None])
                goals = [g[:1] if mode == 0 else g[1:] if mode == 1 else g for g in goals]
                if all(g == goals[0] for g in goals) and None not in goals[0]:
                    with torch.no_grad():
                        now = [p.detach().clone() for p in env.parameters()]
                        for p, v in zip(env.parameters(), w0):
                            p.copy_(v)
                        before = env(end[8]).double().mean(0).numpy()
                        for p, v in zip(env.parameters(), now):
                            p.copy_(v)
                    rec.event("learned")
                    # (of two predictions, one may get worse for a while)
                    off = np.abs(pred.double().mean(0).numpy() - goals[0]) - np.abs(before - goals[0])
                    rec.event("learned in the right direction", int(off.sum() < 0))
                    rec.expect(off.max() < 0 or len(goals[0]) == 2, "training moves predictions away from the outcome", before=before, after=pred.mean(0), outcome=goals[0], **what)
                rec.seen("halting", mode, tuple(target.ravel()), n, round(float(right.mean()), 3))
        rec.note({"reward": float(reward), "steps": n})


def finish(cases, results, rec):
    n, ok = (sum(r["events"].get(k, 0) for r in results) for k in ("learned", "learned in the right direction"))
    if n >= 30:
        rec.expect(ok >= 0.9 * n, "training moves predictions away from the outcomes", trained=n, closer=ok)

"""Life-like rules are computed exactly."""
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one birth/survival rule (random subsets of 0..8, well known rules, the shipped Life rules) run for many "
        "generations on a binary torus next to an exact integer Life-like automaton; non-trivial if the state changed")
MUST_SEE = ["generation"]
FAMOUS = [([3], [2, 3]), ([3, 6], [2, 3]), ([3, 6, 8], [2, 4, 5]), ([2], []), ([3, 6, 7, 8], [3, 4, 6, 7, 8]), ([1, 3, 5, 7], [1, 3, 5, 7]),
          ([0, 1, 2, 3, 4, 5, 6, 7, 8], []), ([], [0, 1, 2, 3, 4, 5, 6, 7, 8]), ([8], [4]), ([0], [8])]


def cases(tier, seed):
    rng = np.random.default_rng(seed)
    n = 360 if tier == "quick" else 1500
    out = []
    for i in range(n):
        if i < len(FAMOUS):
            b, s = FAMOUS[i]
        elif i < len(FAMOUS) + 5:
            b, s = FAMOUS[0]
        else:
            b = [int(v) for v in range(9) if rng.random() < 0.4]
            s = [int(v) for v in range(9) if rng.random() < 0.4]
        c = {"seed": seed * 100103 + i, "b": b, "s": s, "kw": i % 4, "steps": 40 if tier == "quick" else 150}
        if i % 9 == 8:
            c.update(shipped=["conway_life.npy", "morley.npy"][(i // 9) % 2], b=FAMOUS[0][0] if (i // 9) % 2 == 0 else FAMOUS[2][0],
                     s=FAMOUS[0][1] if (i // 9) % 2 == 0 else FAMOUS[2][1])
        out.append(c)
    return out


def life(g, b, s):
    n = sum(np.roll(np.roll(g, dy, -2), dx, -1) for dy in (-1, 0, 1) for dx in (-1, 0, 1) if (dy, dx) != (0, 0))
    return np.where(g == 1, np.isin(n, s), np.isin(n, b)).astype(int)


def run_case(case, rec):
    import torch
    from yuca.configs import get_life_like_config
    rng = rng_of(case)
    with quiet():
        ca = build("CCA")
        if case.get("shipped"):
            ca.restore_config(case["shipped"])
        else:
            before = (list(case["b"]), list(case["s"]))
            b, s = list(case["b"]), list(case["s"])
            # asked for nothing in particular, it is the Game of Life
            kw = dict(radius=1, birth=b, survival=s)
            if (b, s) == ([3], [2, 3]):
                kw = [{}, kw, {"birth": b}, {"survival": s}][case["kw"]]
            ca.load_config(get_life_like_config(**kw))
            rec.expect((b, s) == before, "rule lists modified")
        ca.no_grad()
        h, w = int(rng.integers(5, 40)), int(rng.integers(5, 40))
        g = (rng.random((2, 1, h, w)) < rng.choice([0.1, 0.3, 0.5, 0.8])).astype(int)
        u = torch.tensor(g, dtype=torch.float32)
        for t in range(case["steps"]):
            new = life(g, case["b"], case["s"])
            u = ca(u)
            rec.event("generation")
            d = maxdiff(npa(u), new)
            if not rec.expect(d < 1e-3, "not the generation the rule prescribes", rule=f"B{case['b']}/S{case['s']}", generation=t, diff=d,
                              shipped=case.get("shipped"), grid=(h, w)):
                break
            if (new != g).any():
                rec.seen(fp(new))
            g = new
    rec.note({"rule": [case["b"], case["s"]], "grid": [h, w], "alive": int(g.sum())})

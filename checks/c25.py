"""A genome determines its pattern and rule completely."""
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one agent (pattern, pattern with rule, rule; channels, size, width, precision) given several genomes; patterns are compared with the "
        "network evaluated in float64 at every cell, across agents, sizes and orders of being set; distinct by pattern")
MUST_SEE = ["pattern", "pattern with rule", "rule", "filtered rule", "another size", "in a search"]


def cases(tier, seed):
    n = 720 if tier == "quick" else 3000
    return [{"seed": seed * 100363 + i, "what": ["pattern", "pattern with rule", "rule"][i % 3]} for i in range(n)]


def pattern(params, dim, channels, hidden):
    """the pattern a genome stands for, in float64; and how close its window is to the edge of the disc"""
    ax = np.linspace(-1, 1, dim)
    xx, yy = np.meshgrid(ax, ax)
    rr = np.sqrt(xx ** 2 + yy ** 2)
    eps = 1e-6
    ring = lambda k: np.sin(rr * np.pi * k) / (rr + eps)
    norm = lambda a: a / a.max()
    feats = [xx, 1 - rr, abs(xx), abs(yy), norm(2 ** xx), norm(xx ** 2), norm(xx ** 3), np.cos(np.pi * yy), np.sin(np.pi * xx), np.cos(2 * np.pi * yy), np.sin(2 * np.pi * xx),
             np.cos(4 * np.pi * yy), np.sin(4 * np.pi * xx), norm(ring(4)), norm(ring(8)), norm(ring(16))]
    x = np.stack(feats * channels, -1)
    n = 0
    sizes = [16 * channels, hidden, hidden, hidden, channels]
    for a, b in zip(sizes, sizes[1:]):
        w = params[n:n + a * b].reshape(b, a); n += a * b
        c = params[n:n + b]; n += b
        mu, sigma = params[n:n + 2]; n += 2
        x = np.exp(-0.5 * ((x @ w.T + c - mu) / (sigma + 1e-9)) ** 2)
    assert n == len(params)
    out = x * ((1 - rr) ** 2)[..., None]
    out[rr >= 0.75] *= 1e-6
    return out.transpose(2, 0, 1)[None], abs(rr - 0.75).min() < 1e-6, rr


def run_case(case, rec):
    import torch
    from yuca.cppn import CPPN, CPPNPlus
    from yuca.params_agent import ParamsAgent
    rng = rng_of(case)
    f64 = bool(rng.random() < 0.5)
    torch.set_default_dtype(torch.float64 if f64 else torch.float32)
    rec.event(case["what"])
    if case["what"] == "rule":
        return rule(case, rec, rng, ParamsAgent)
    channels, hidden, dim = int(rng.choice([1, 1, 2, 3, 4])), int(rng.choice([4, 16, 16, 7])), int(rng.choice([8, 9, 16, 31, 64, 100, 128]))
    plus = case["what"] == "pattern with rule"
    cls = CPPNPlus if plus else CPPN
    kw = dict(external_channels=channels, dim=dim, hidden_dim=hidden)
    size = 16 * channels * hidden + 2 * hidden * hidden + hidden * channels + 3 * hidden + channels + 8
    nrule = int(rng.integers(1, 9)) if plus else 0
    scale = float(rng.choice([0.05, 0.3, 1.0]))
    genomes = []
    for k in range(3):
        g, n = rng.normal(0, scale, size), 0
        for a, b in [(16 * channels, hidden), (hidden, hidden), (hidden, hidden), (hidden, channels)]:
            n += a * b + b
            # activations are narrow, and negative widths as good as positive ones
            g[n:n + 2] = rng.normal(0, 0.2), (rng.uniform(0.2, 1.0) if k else rng.uniform(0.05, 0.2)) * rng.choice([1, 1, -1])
            n += 2
        genomes.append(np.concatenate([g, rng.uniform(0.01, 0.5, nrule) * rng.choice([1, 1, 1, -1], nrule)]))
    tol = 1e-5 if f64 else 2e-3
    what = dict(what=case["what"], channels=channels, hidden=hidden, dim=dim, f64=f64)

    def split(agent):
        a = agent.get_action()
        return (a[1], a[0]) if plus else (a, None)

    with quiet():
        agent = cls(**kw, **({"ca_params": np.full(nrule, 0.1)} if plus else {}))
        agent.to_device("cpu")
        rec.expect(len(agent.get_params()) == size + nrule, "length of a genome", got=len(agent.get_params()), want=size + nrule, **what)
        seen = {}
        for k in [int(v) for v in rng.permutation(3)] + [int(rng.integers(3))]:
            g = genomes[k]
            given = g.copy()
            agent.set_params(given)
            got = np.array(agent.get_params(), dtype=np.float64)
            rec.expect(maxdiff(got[:size], g[:size].astype(np.float64 if f64 else np.float32)) == 0 and maxdiff(got[size:], g[size:]) == 0, "genome differs from the one given", **what)
            p, r = split(agent)
            rec.expect(np.array_equal(given, g), "the genome given is changed", **what)
            given[:size] *= 3
            q = split(agent)[0]
            rec.expect(torch.equal(p, q), "pattern changes by asking again, or with the array given", **what)
            rec.expect(maxdiff(np.array(agent.get_params(), dtype=np.float64)[:size], got[:size]) == 0, "asking for the pattern changes the genome", **what)
            a = npa(p)
            rec.expect(a.shape == (1, channels, dim, dim) and not p.requires_grad, "shape of the pattern", shape=a.shape, **what)
            rec.expect(np.isfinite(a).all() and a.min() >= 0 and a.max() <= 1, "values of the pattern", lo=a.min(), hi=a.max(), **what)
            want, edge, rr = pattern(got[:size], dim, channels, hidden)
            d = np.abs(a - want)
            if edge:
                d[..., np.abs(rr - 0.75) < 1e-6] = 0
            # slopes of narrow activations amplify rounding
            gain = 1 + scale * 100
            rec.expect(d.max() < tol * (1 if f64 else gain) or not f64 and np.mean(d > tol * gain) < 0.01, "pattern is not that of the network", diff=d.max(), **what)
            rec.expect(a[..., rr > 0.7501].max() <= 1e-6, "pattern outside of its disc", hi=a[..., rr > 0.7501].max(), **what)
            if plus:
                rec.expect(np.array_equal(np.array(r, dtype=np.float64), g[size:]) and np.array_equal(np.array(agent.get_rule_action(), dtype=np.float64), g[size:]), "rule is not the end of the genome", **what)
                rec.expect(torch.equal(agent.get_pattern_action(), p), "pattern action differs", **what)
            if k in seen:
                rec.expect(np.array_equal(seen[k], a), "pattern depends on the genomes before", **what)
            seen[k] = a
            rec.seen(case["what"], channels, fp(a))
        # what was given before belongs to whoever asked
        k = int(rng.integers(3))
        agent.set_params(genomes[k].copy())
        p, r = split(agent)
        with torch.no_grad():
            p *= 0.5
            p += 1
        rec.expect(np.array_equal(npa(split(agent)[0]), seen[k]), "changing a pattern that was given changes the next", **what)
        # every number of the genome counts: up to its end
        rec.expect(not np.array_equal(seen[0], seen[1]) or not (seen[0].any() or seen[1].any()), "different genomes, same pattern", **what)
        # every other agent makes the same of it
        k = int(rng.integers(3))
        fresh = cls(**kw, params=genomes[k].copy())
        rec.expect(np.array_equal(npa(split(fresh)[0]), seen[k]), "an agent made with a genome has another pattern", **what)
        rec.expect(maxdiff(np.array(fresh.get_params(), dtype=np.float64)[size:], genomes[k][size:]) == 0, "an agent made with a genome has another rule", **what)
        copy = cls(**kw, params=np.array(fresh.get_params()))
        rec.expect(np.array_equal(npa(split(copy)[0]), seen[k]), "pattern is not restored from its own parameters", **what)
        # at other resolutions the same function is sampled
        if dim % 2:
            other = cls(**dict(kw, dim=2 * dim - 1), params=genomes[k].copy())
            b = npa(split(other)[0])[..., ::2, ::2]
            d = np.abs(b - seen[k])
            rec.event("another size")
            # (ring features are normalized by their largest sample)
            rec.expect(b.shape == seen[k].shape, "shape of the pattern", shape=b.shape, **what)
        if rng.random() < 0.15:
            search(case, rec, rng, cls, genomes[k], channels, size, what)
    rec.note({"agent": what, "activity": [float(v.mean()) for v in seen.values()]})


def search(case, rec, rng, cls, g, channels, size, what):
    """what a search asks of its agents"""
    rec.event("in a search")
    a = cls(params=g.copy(), external_channels=channels, dim=16, hidden_dim=what["hidden"])
    b = cls(params=g.copy() * 0, external_channels=channels, dim=16, hidden_dim=what["hidden"])
    b.set_params(a.get_params())
    a.set_params(np.asarray(a.get_params()) * 0.5)
    h = np.array(b.get_params(), dtype=np.float64)
    rec.expect(np.allclose(h, g, rtol=1e-6, atol=1e-9), "agents share parameters", **what)


def rule(case, rec, rng, ParamsAgent):
    n = int(rng.integers(1, 12))
    g = rng.normal(0.1, 0.5, n)
    a = ParamsAgent(params=g.copy())
    rec.expect(np.array_equal(a.get_params(), g) and np.array_equal(a.get_action(), g) and np.array_equal(a.get_action(np.zeros(3)), g), "rule differs from the genome")
    h = rng.normal(0.1, 0.5, n)
    a.set_params(h.copy())
    rec.expect(np.array_equal(a.get_params(), h) and np.array_equal(a.get_action(), h), "rule differs from the genome")
    c = ParamsAgent(ca_params=g.copy())
    rec.expect(np.array_equal(c.get_params(), g) and c.num_params == n, "rule differs from the automaton's")
    r = ParamsAgent(num_params=n)
    v = np.array(r.get_params())
    rec.expect(v.shape == (n,) and v.min() >= 0 and v.max() <= 1 and np.array_equal(r.get_action(), v), "random rules")
    rec.event("filtered rule")
    f = ParamsAgent(params=g.copy(), filter_params=True)
    # with nothing at some place of the genome, too
    h[int(rng.integers(len(h)))] = rng.choice([0.0, 1e-6, -1e-6])
    f.set_params(h.copy())
    rec.expect(np.allclose(f.get_params(), np.clip(np.abs(h), 0.0001, 1.0)) and np.allclose(f.get_action(), f.get_params()), "filtered rules are not kept positive and within one", got=f.get_params(), given=h)
    own = g.copy()
    f = ParamsAgent(**{["params", "ca_params"][int(rng.integers(2))]: own}, filter_params=True)
    rec.expect((np.asarray(f.get_action()) >= 0).all(), "filtered rules act with negative values", got=f.get_action(), given=g)
    rec.expect(np.array_equal(own, g), "filtering changes the genome given", got=own, given=g)
    own = h.copy()
    f.set_params(own)
    f.get_action()
    rec.expect(np.array_equal(own, h), "filtering changes the genome given", got=own, given=h)
    rec.seen("rule", n, fp(h))

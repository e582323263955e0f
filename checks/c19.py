"""Selection and the search distribution of the evolution strategy."""
import numpy as np
from gen import *

BUILD = True
LEVEL = "exploration"
RULE = ("one case = one search (automaton, agent, population size, selection mode) given generated fitness values (random, tied, "
        "extreme, permuted) for several generations next to an independent model of selection and of the mean and covariance; sampling "
        "is judged by statistics with fixed seeds; distinct by elites chosen")
MUST_SEE = ["truncation", "tournament", "proportional", "final", "samples", "resumed"]


def cases(tier, seed):
    n = 45 if tier == "quick" else 600
    out = [{"seed": seed * 100291 + i, "mode": i % 3, "agent": "CPPN" if i % 30 == 7 else "ParamsAgent", "gens": 6} for i in range(n)]
    out += [{"seed": seed * 100291 + 700 + i, "mode": [0, 1, 2, 1, 1, 2, 1, 1][i % 8], "stats": 1, "form": i} for i in range(8 if tier == "quick" else 40)]
    out += [{"seed": seed * 100291 + 900 + i, "resume": 1, "mode": 0} for i in range(4 if tier == "quick" else 40)]
    return out


def search(case, rng, pop, **kw):
    from yuca.cmaes import CMAES
    from yuca.params_agent import ParamsAgent
    from yuca.cppn import CPPN
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
    from yuca.wrappers.glider_wrapper import GliderWrapper
    k = dict(population_size=pop, selection_mode=case["mode"], kernel_radius=2, dim=8, ca_steps=2, batch_size=1, seed=1, generations=2, tag="t")
    k.update(agent_fn=ParamsAgent, env_fn=SimpleHaltingWrapper)
    if case.get("agent") == "CPPN":
        k.update(agent_fn=CPPN, env_fn=GliderWrapper, tag="pattern")
    k.update(kw)
    with quiet():
        return CMAES(**k)


def rows(es):
    return np.stack([np.array(a.get_params(), dtype=np.float64) for a in es.population])


def fitnesses(rng, n):
    kind = str(rng.choice(["random", "tied", "extreme", "equal", "negative"]))
    if kind == "random":
        f = rng.normal(0, 1, n)
    elif kind == "tied":
        f = rng.integers(0, 4, n).astype(float)
    elif kind == "extreme":
        f = rng.choice([-1e30, -1.0, 0.0, 1e-30, 1e30], n)
    elif kind == "equal":
        f = np.full(n, 0.5)
    else:
        f = -rng.random(n) * 1e-6
    return kind, [np.float64(v) for v in f] if rng.random() < 0.5 else [np.float32(v) for v in f]


def find(elite, pop):
    """which member of the population an elite is"""
    d = np.abs(pop - elite).max(axis=1)
    i = int(np.argmin(d))
    return i if d[i] <= 1e-6 * (1 + np.abs(elite).max()) else None


def check_distribution(rec, es, elites, old_mean, what):
    k = len(elites)
    scale = 1 + np.abs(elites).max()
    rec.expect(maxdiff(np.asarray(es.means), elites.mean(0)) < 1e-6 * scale, "mean is not the mean of the elites", what=what)
    dev = elites - old_mean
    want = dev.T @ dev / k
    rec.expect(maxdiff(np.asarray(es.covar), want) < 1e-6 * (1 + np.abs(want).max()), "covariance is not that of the elites around the previous mean",
               what=what, diff=maxdiff(np.asarray(es.covar), want))


def run_case(case, rec):
    rng = rng_of(case)
    np.random.seed(case["seed"] % 2**31)
    if case.get("stats"):
        return statistics(case, rec, rng)
    if case.get("resume"):
        return resumed(case, rec, rng)
    pop = int(rng.choice([3, 8, 9, 16, 24, 33]))
    if case["agent"] == "CPPN":
        pop = 3
    es = search(case, rng, pop)
    with quiet():
        es.reset()
        rec.expect(len(es.population) == pop, "population has another size", got=len(es.population), want=pop)
        keep = es.elite_keep
        rec.expect(1 <= keep <= pop, "more elites than members")
        for gen in range(case["gens"] if case["agent"] != "CPPN" else 2):
            before = rows(es)
            old_mean = np.array(es.means, dtype=np.float64)
            kind, fit = fitnesses(rng, pop)
            given = list(fit)
            last = gen == case["gens"] - 1 or (case["agent"] == "CPPN" and gen == 1)
            info = dict(mode=case["mode"], fitness=kind, pop=pop, generation=gen)
            if last:
                es.rank_population(fit, seed=1)
                rec.event("final")
            else:
                es.update_population(fit)
                rec.event(["truncation", "tournament", "proportional"][case["mode"]])
            rec.expect(fit == given, "fitness list modified", **info)
            el = np.array(es.elite_params, dtype=np.float64)
            if not rec.expect(el.shape == (keep, before.shape[1]), "wrong number of elites", got=el.shape, want=keep, **info):
                break
            f = np.array(fit, np.float64)
            idx = [find(e, before) for e in el]
            if not rec.expect(None not in idx, "an elite is not a member of the population", **info):
                break
            top = np.sort(f)[::-1]
            if last or case["mode"] == 0:
                rec.expect(np.array_equal(f[idx], top[:keep]), "elites are not the fittest, best first", got=f[idx], want=top[:keep], final=last, **info)
                if len(set(f)) == pop:
                    rec.expect(len(set(idx)) == keep, "an elite is counted twice", **info)
            elif case["mode"] == 2:
                # each member at most once (members may be identical, then they count as often as they occur)
                mult = {i: int((np.abs(before - before[i]).max(axis=1) <= 1e-9).sum()) for i in set(idx)}
                rec.expect(all(idx.count(i) <= mult[i] for i in set(idx)), "a member is selected twice", **info)
            check_distribution(rec, es, el, old_mean, info)
            if last:
                rec.expect(np.array_equal(rows(es), before), "final ranking changes the population", **info)
                break
            after = rows(es)
            rec.expect(len(es.population) == pop, "population changes size", **info)
            n = keep // 2
            rec.expect(maxdiff(after[:n], el[:n]) < 1e-6 * (1 + np.abs(el).max()) if n else True, "elites are not carried over", **info)
            # samples vary only in the directions the elites spread, around their mean
            dev = el - old_mean
            x = after[n:] - el.mean(0)
            u, sv, vt = np.linalg.svd(dev, full_matrices=False)
            basis = vt[sv > 1e-9 * max(sv.max(), 1e-12)]
            rest = x - x @ basis.T @ basis
            # the covariance's tiny rounding leaves directions open that the elites do not spread in
            rec.expect(np.abs(rest).max() < 1e-3 * (np.abs(dev).max() + 1e-3), "samples leave the span of the elites", rest=np.abs(rest).max(), **info)
            spread = sv / np.sqrt(keep)
            z = np.abs(x @ basis.T) / spread[sv > 1e-9 * max(sv.max(), 1e-12)]
            rec.expect(z.size == 0 or z.max() < 7, "samples far outside the distribution", z=z.max() if z.size else 0, **info)
            if len(x) > 1 and sv.max() > 1e-6:
                rec.expect(len(np.unique(np.round(x, 12), axis=0)) == len(x), "samples are copies of each other", **info)
            # what the search keeps is its own
            es.population[-1].set_params(np.zeros(before.shape[1]))
            rec.expect(maxdiff(np.array(es.elite_params), el) == 0, "changing a member changes the elites", **info)
            es.population[-1].set_params(after[-1])
            rec.seen(case["mode"], tuple(idx), gen)
        es.reset()
        rec.expect(len(es.population) == pop and maxdiff(np.array(es.means), np.array(es.starting_means)) == 0 and maxdiff(np.array(es.covar), np.array(es.starting_covar)) == 0,
                   "reset does not restore the starting distribution", mode=case["mode"])
    rec.note({"pop": pop, "elites": keep, "mode": case["mode"], "fitness": kind})


def statistics(case, rec, rng):
    """which members get selected, and what is sampled, over many generations"""
    pop = 16
    es = search(case, rng, pop)
    with quiet():
        es.reset()
        n = 4
        start = np.array([float(v) for v in rng.random(n)])
        for a in es.population:
            a.set_params(rng.random(n))
        # only the order of the fitness values counts, not their sign or size
        fit = rng.permutation(pop).astype(float)
        form = ["positive", "negative", "mixed", "tiny", "steep"][case["form"] % 5]
        fit = {"positive": fit, "negative": fit - 3.0 * pop, "mixed": fit - 0.5 * pop, "tiny": -1e-3 * (pop - fit), "steep": np.exp(fit) - 50.0}[form]
        fit = [float(v) for v in fit]
        rank = np.argsort(np.argsort(-np.array(fit)))
        before = rows(es)
        keep = es.elite_keep
        count, trials, samples = np.zeros(pop), 1500, []
        for t in range(trials):
            for a, p in zip(es.population, before):
                a.set_params(p.copy())
            es.means = start.copy()
            es.covar = np.eye(n)
            es.update_population(list(fit))
            for e in np.array(es.elite_params):
                count[rank[find(e, before)]] += 1
            if case["mode"] == 0 and t < 400:
                samples.append(rows(es)[keep // 2:])
                mean, cov = np.array(es.means), np.array(es.covar)
        p = count / count.sum()
        if case["mode"] == 0:
            rec.expect(np.array_equal(count[:keep], np.full(keep, trials)), "truncation does not select the best")
            x = np.concatenate(samples)
            rec.event("samples", len(x))
            se = np.sqrt(np.diag(cov) / len(x)) + 1e-12
            rec.expect((np.abs(x.mean(0) - mean) < 6 * se).all(), "samples are not centered at the mean", off=((x.mean(0) - mean) / se).tolist())
            got = np.cov(x.T, bias=True)
            rec.expect(maxdiff(got, cov) < 0.15 * np.abs(cov).max(), "samples do not have the covariance", diff=maxdiff(got, cov), scale=np.abs(cov).max())
        elif case["mode"] == 1:
            # champion of a bracket of `keep` drawn with replacement
            r = np.arange(pop)
            want = ((pop - r) / pop) ** keep - ((pop - r - 1) / pop) ** keep
            rec.expect(np.abs(p - want).max() < 6 * np.sqrt(want.max() / count.sum()), "tournament does not select champions of random brackets", got=p, want=want)
        else:
            # keep draws without replacement, weights 1/rank^2
            w = 1.0 / np.arange(1, pop + 1) ** 2
            w /= w.sum()
            g = np.random.default_rng(5)
            sim = np.zeros(pop)
            for _ in range(20000):
                sim[g.choice(pop, keep, p=w, replace=False)] += 1
            want = sim / sim.sum()
            rec.expect(np.abs(p - want).max() < 6 * np.sqrt(want.max() / count.sum()) + 0.005, "selection is not proportional to the squared inverse rank", got=p, want=want)
        # the starting distribution
        es.reset()
        x = np.stack([np.array(es.sample_distribution()) for _ in range(3000)])
        rec.event("samples", len(x))
        cov = np.array(es.starting_covar)
        sd = np.sqrt(np.diag(cov))
        rec.expect((np.abs(x.mean(0) - np.array(es.starting_means)) < 6 * sd / np.sqrt(len(x)) + 1e-9).all(), "first samples are not centered at the automaton's parameters")
        rec.expect((np.abs(x.std(0) / np.maximum(sd, 1e-12) - 1) < 0.12).all(), "first samples do not have the starting variance")
        ca = np.array(es.env.ca.get_params(), dtype=float)
        rec.expect(maxdiff(np.array(es.starting_means), ca) < 1e-6, "search does not start from the automaton's parameters")
        rec.seen("stats", case["mode"], form, fp(p, 3))
        rec.event("statistics, %s fitness" % form)
    rec.note({"mode": case["mode"], "selected_by_rank": [round(float(v), 4) for v in p]})


def resumed(case, rec, rng):
    """a search that continues another one starts with its elites"""
    pop = int(rng.choice([3, 8, 9, 16]))
    es = search(case, rng, pop)
    keep, n = es.elite_keep, len(es.starting_means)
    logged = [rng.random((keep + int(rng.integers(0, 3)), n)) for _ in range(int(rng.integers(1, 4)))]
    np.save("log.npy", {"elite_params": logged})
    res = search(case, rng, pop, input_filepath="log.npy")
    with quiet():
        for again in range(2):
            res.reset()
            rec.event("resumed")
            got = rows(res)
            rec.expect(len(got) == pop and maxdiff(got[:keep], logged[-1][:keep]) < 1e-9, "resumed search does not start with the logged elites", again=again)
            rec.expect(maxdiff(np.array(res.means), logged[-1][:keep].mean(0)) < 1e-9, "resumed search is not centered at the logged elites", again=again)
        np.save("log.npy", {"elite_params": [rng.random((keep, n + 1))]})
        other = search(case, rng, pop, input_filepath="log.npy")
        other.reset()
        ca = np.array(other.env.ca.get_params(), dtype=float)
        rec.expect(len(other.population) == pop and maxdiff(np.array(other.means), ca) < 1e-6, "a log of other agents is not ignored")
        rec.seen("resumed", pop, fp(logged[-1]))

"""Fitness depends on the genome and the seed, on nothing else."""
import numpy as np
from gen import *

BUILD = True
LEVEL = "exploration"
RULE = ("one case = one search (kind of automaton, wrapper, agent); a genome's fitness is measured in a fresh search and again after and "
        "between evaluations of other genomes, updates, saved configs, at other places in the population and in other searches; distinct by fitness")
MUST_SEE = ["fitness", "SimpleHaltingWrapper", "HaltingWrapper", "GliderWrapper", "coevolution", "steps left out", "another seed", "replicates differ"]


def cases(tier, seed):
    n = 56 if tier == "quick" else 500
    return [{"seed": seed * 100297 + i, "ca": KINDS[i % 7], "env": ["SimpleHaltingWrapper", "HaltingWrapper", "GliderWrapper", "coevolution"][(i // 7) % 4]} for i in range(n)] + [
        {"seed": seed * 100297 + 7000 + i, "ca": ["CCA", "Lenia", "CCA", "MetaCA"][i % 4], "env": "SimpleHaltingWrapper", "varied": True} for i in range(8 if tier == "quick" else 60)]


def make(case, pop, extra):
    import torch
    from yuca.cmaes import CMAES, CMACES
    from yuca.params_agent import ParamsAgent
    from yuca.cppn import CPPN, CPPNPlus
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
    from yuca.wrappers.glider_wrapper import GliderWrapper
    k = dict(population_size=pop, kernel_radius=2, kernel_peaks=1, dim=16, ca_steps=extra["ca_steps"], batch_size=extra.get("batch", 2), seed=1, generations=2, tag="universe",
             agent_fn=ParamsAgent, ca_fn=class_of(case["ca"]), prediction_mode=extra["mode"])
    if k["ca_steps"] is None:
        k.pop("ca_steps")
    k["env_fn"] = {"SimpleHaltingWrapper": SimpleHaltingWrapper, "HaltingWrapper": HaltingWrapper}.get(case["env"], GliderWrapper)
    cls = CMAES
    if case["ca"] == "NCA":
        k["hidden_channels"] = 3
    if case["ca"] == "RxnDfn":
        k["external_channels"] = 2
    if case["ca"] == "CODE":
        k.update(min_dt=0.05, error_threshold=0.1)
    if case["env"] == "GliderWrapper":
        k.update(agent_fn=CPPN, tag="pattern")
    if case["env"] == "coevolution":
        k.update(agent_fn=CPPNPlus, tag="coevo"); cls = CMACES
    torch.manual_seed(case["seed"] % 4001); np.random.seed(case["seed"] % 4001)
    with quiet():
        es = cls(**k)
    if extra["mantle"]:
        es.env.ca.no_grad()
    return es


def populate(es, genomes):
    """a population of these genomes (sampling large genomes is slow)"""
    es.population = []
    es.means, es.covar = 1.0 * es.starting_means, 1.0 * es.starting_covar
    for g in genomes:
        es.population.append(es.agent_fn(params=g.copy(), external_channels=es.external_channels, dim=es.dim))
    for a, g in zip(es.population, genomes):
        a.set_params(g.copy())
        a.to_device("cpu")


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    extra = {"ca_steps": int(rng.integers(2, 8)), "mode": int(rng.integers(3)), "mantle": int(rng.integers(2))}
    seed, reps, steps = int(rng.integers(0, 1000)), int(rng.integers(1, 4)), int(rng.choice([1, 1, 2]))
    if case["env"] == "HaltingWrapper":
        extra["ca_steps"], reps, steps = min(extra["ca_steps"], 4), 1, 1
    if case.get("varied"):
        # long enough for some grids to die out and others not to
        extra.update(ca_steps=int(rng.integers(7, 13)) if case["ca"] == "CCA" else 40, batch=int(rng.integers(6, 12)))
        reps, steps = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    with quiet():
        es = make(case, 4, extra)
        base = np.array(es.starting_means, dtype=np.float64)
        genomes = [base * rng.uniform(0.5, 1.5, base.shape) + rng.normal(0, 0.02 if base.size < 200 else 0.3, base.shape) for _ in range(4)]
        if case.get("varied"):
            probe = make(case, 1, extra)
            got = []
            for _ in range(16):
                g = base * rng.uniform(*((0.1, 2.0) if case["ca"] == "CCA" else (0.7, 2.3)), base.shape) + rng.normal(0, 0.02, base.shape)
                torch.manual_seed(seed)
                r = [float(probe.env.step(g)[1]) for _ in range(4)]
                got.append((len(set(r)), g))
            got.sort(key=lambda a: -a[0])
            genomes = [g for _, g in got[:4]]
        info = dict(ca=case["ca"], env=case["env"], **extra)

        def measure(es, i):
            g = np.array(es.population[i].get_params(), dtype=np.float64)
            f, alive = es.get_fitness(i, steps=steps, replicates=reps, seed=seed)
            rec.event("fitness"); rec.event(case["env"])
            rec.expect(maxdiff(np.array(es.population[i].get_params(), dtype=np.float64), g) == 0, "measuring fitness changes the genome", **info)
            rec.expect(np.ndim(f) == 0 and np.isfinite(f), "fitness is not a finite number", got=f, **info)
            return float(f), float(torch.as_tensor(alive).mean())

        def other_seed(es, i):
            """the same genome under another seed, in between"""
            return float(es.get_fitness(i, steps=steps, replicates=reps, seed=seed + 1)[0])

        first = []
        for g in genomes:       # each in a search of its own
            one = make(case, 1, extra)
            populate(one, [g])
            first.append(measure(one, 0))
            rec.seen(case["ca"], case["env"], first[-1])
        order = [int(v) for v in rng.permutation(4)]
        populate(es, genomes)
        under_other = other_seed(es, order[0])
        for i in order + order[:2]:
            got = measure(es, i)
            rec.expect(got == first[i], "fitness depends on what was evaluated before", got=got, want=first[i], order=order, **info)
        populate(es, [genomes[i] for i in order])
        for j in [int(v) for v in rng.permutation(4)[:2]]:
            got = measure(es, j)
            rec.expect(got == first[order[j]], "fitness depends on the place in the population", got=got, want=first[order[j]], **info)
        # and after things that happen between generations
        es.elite_params = np.stack(genomes[:2])
        es.get_elite_configs()
        es.env.ca.save_config("between.npy")
        torch.rand(int(rng.integers(1, 9))); np.random.rand(3)
        got = measure(es, 0)
        rec.expect(got == first[order[0]], "fitness depends on what happened between generations", got=got, want=first[order[0]], **info)
        # the seed counts, too: what was measured first does not matter
        alone = make(case, 1, extra)
        populate(alone, [genomes[order[0]]])
        got = other_seed(alone, 0)
        rec.event("another seed")
        rec.expect(got == under_other == other_seed(es, 0), "fitness depends on the seed used before", got=under_other, want=got, **info)
        # with the number of steps left out, search and reward have defaults of their own
        free = make(case, 2, dict(extra, ca_steps=None))
        was = {k: getattr(free.env, k, None) for k in ("ca_steps", "batch_size", "dim", "prediction_mode", "dropout", "lr")}
        populate(free, genomes[:2])
        free.elite_params = np.stack(genomes[:2])
        free.env.reset()
        free.env.to_device("cpu")
        free.get_elite_configs()
        now = {k: getattr(free.env, k, None) for k in was}
        rec.event("steps left out")
        rec.expect(now == was, "saving configs changes the settings of the search", got=now, want=was, **info)
        rec.expect(es.env.ca_steps == extra["ca_steps"], "saving configs changes the length of evaluations", got=es.env.ca_steps, **info)
        other = make(case, 1, dict(extra, mantle=1 - extra["mantle"]))
        populate(other, genomes[:1])
        got = measure(other, 0)
        rec.expect(got == first[0], "fitness differs between parent and worker processes", got=got, want=first[0], **info)
        # fitness is the average reward over steps and replicates
        o2 = make(case, 1, extra)
        populate(o2, genomes[:1])
        torch.manual_seed(seed); np.random.seed(seed)
        rewards, alive = [], []
        for _ in range(reps):
            o2.env.reset()
            o2.env.to_device("cpu")
            o2.env.eval()
            for _ in range(steps):
                action = o2.population[0].get_action()
                if case["env"] == "coevolution":
                    o2.env.ca.set_params(action[0])
                    action = action[1]
                _, r, _, inf = o2.env.step(action)
                rewards.append(float(r))
                alive.append(float(torch.as_tensor(inf["active_grid"]).mean()))
        rec.event("replicates differ", len({round(v, 6) for v in rewards}) > 1)
        if case["env"] == "coevolution" and case["ca"] == "NCA":
            return                          # neural automata may coevolve with dropout
        rec.expect(abs(np.mean(rewards) - first[0][0]) < 1e-6 * (1 + abs(first[0][0])), "fitness is not the average reward", got=first[0][0], want=np.mean(rewards), **info)
        rec.expect(abs(np.mean(alive) - first[0][1]) < 1e-6, "proportion of active grids is not the average", got=first[0][1], want=np.mean(alive), **info)
    rec.note({"fitness": first, "evaluation_order": order})

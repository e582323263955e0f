"""What an evolution run records is what happened, and can be reproduced."""
import os, sys, glob, functools, subprocess
import numpy as np
from gen import *

BUILD = True
LEVEL = "exploration"
RULE = ("one case = one complete search (automaton, wrapper, agent, seeds, generations, selection mode), with every fitness measurement "
        "recorded at the call boundary; logs and saved configs are compared with that record, with repeated searches and with searches of single "
        "seeds, some through the command line; distinct by log contents")
MUST_SEE = ["measurement", "generation", "saved config", "repeat", "early stop", "no early stop", "command line", "continued"]
ASSUMPTIONS = ["animations are replaced by a recorder here (they are checked on their own)"]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(4 if q else 16):
        out.append({"seed": seed * 100313 + 900 + i, "what": "cli", "agent": ["universe", "pattern", "coevo", "universe"][i % 4], "ca": ["CCA", "Lenia", "RxnDfn", "MetaCA"][i // 4 % 4],
                    "env": ["RandomWrapper", "SimpleHaltingWrapper", "HaltingWrapper"][0 if i % 4 == 0 else 1 + (i // 4 + seed) % 2]})
    for i in range(35 if q else 350):
        out.append({"seed": seed * 100313 + i, "what": "search", "ca": KINDS[i % 7], "mode": (i // 7) % 3,
                    "agent": "pattern" if i % 12 == 5 else "coevo" if i % 12 == 11 else "universe", "env": ["SimpleHaltingWrapper", "HaltingWrapper"][int(i % 5 == 4)]})
    for i in range(9 if q else 60):
        out.append({"seed": seed * 100313 + 600 + i, "what": "stop", "ca": ["CCA", "Lenia", "RxnDfn"][i % 3], "mode": i % 3, "agent": "universe", "env": "SimpleHaltingWrapper"})
    return out


def make(case, kw, run=0):
    import torch, yuca.cmaes
    from yuca.cmaes import CMAES, CMACES
    from yuca.params_agent import ParamsAgent
    from yuca.cppn import CPPN, CPPNPlus
    from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper
    from yuca.wrappers.glider_wrapper import GliderWrapper
    yuca.cmaes.save_fig_sequence = lambda grid, ca, **k: None
    tag = {"universe": "universe", "pattern": "pattern", "coevo": "coevo"}[case["agent"]]
    k = dict(kernel_radius=2, kernel_peaks=1, dim=12, ca_steps=3, batch_size=2, ca_fn=class_of(case["ca"]), selection_mode=case["mode"],
             tag=f"{tag}_{os.getpid()}_{case['seed']}_{run}", agent_fn=ParamsAgent)
    k["env_fn"] = {"SimpleHaltingWrapper": SimpleHaltingWrapper, "HaltingWrapper": HaltingWrapper}[case["env"]]
    cls = CMAES
    if case["env"] == "HaltingWrapper":
        k["dim"] = 16
    if case["ca"] == "NCA":
        k["hidden_channels"] = 3
    if case["ca"] == "RxnDfn":
        k["external_channels"] = 2
    if case["ca"] == "CODE":
        k.update(min_dt=0.05, error_threshold=0.1) if case["env"] != "HaltingWrapper" else k.update(min_dt=0.2, error_threshold=0.4)
    small = lambda c: functools.partial(c, hidden_dim=4)        # sampling many parameters takes long
    if case["agent"] == "pattern":
        k.update(agent_fn=small(CPPN), env_fn=GliderWrapper)
    if case["agent"] == "coevo":
        k.update(agent_fn=small(CPPNPlus), env_fn=GliderWrapper); cls = CMACES
    k.update(kw)
    torch.manual_seed(case["seed"] % 4001); np.random.seed(case["seed"] % 4001)
    given = dict(k)
    with quiet():
        es = cls(**k)
    es.__dict__["given"] = given
    return es


def record(es, log, fake=None):
    """every fitness measurement, with the genome it was made for"""
    real = es.get_fitness
    def measured(agent_index, *a, **k):
        g = np.array(es.population[agent_index].get_params(), dtype=np.float64)
        out = real(agent_index, *a, **k) if fake is None else fake(len(log))
        log.append({"i": agent_index, "genome": g, "seed": k.get("seed"), "fitness": float(out[0]), "size": len(es.population), "means": np.array(es.means, dtype=np.float64), "covar": np.array(es.covar, dtype=np.float64),
                    "logs": {f: len(load(f)["max_fitness"]) for f in glob.glob("logs/*.npy")}})
        return out
    es.get_fitness = measured


def load(path):
    return np.load(path, allow_pickle=True).reshape(1)[0]


def config_params(case, kw, config):
    ca = build(case["ca"], **{k: kw[k] for k in ("kernel_radius", "kernel_peaks", "hidden_channels", "external_channels") if k in kw})
    ca.load_config(config)
    return ca, np.array(ca.get_params(), dtype=np.float64)


def rules(case, es, genome):
    """the part of a genome that is a rule"""
    if case["agent"] != "coevo":
        return genome
    return genome[-len(es.env.ca.get_params()):]


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    os.makedirs("logs"); os.makedirs("assets")
    if case["what"] == "cli":
        return cli(case, rec, rng)
    pop, gens = int(rng.choice([3, 5, 8, 9, 12])), int(rng.integers(2, 5))
    if case["agent"] != "universe" or case["env"] == "HaltingWrapper":
        pop, gens = 3, 2
    seeds = [int(v) for v in rng.integers(0, 500, int(rng.choice([1, 2])))]
    kw = dict(population_size=pop, generations=gens, seed=list(dict.fromkeys(seeds)), replicates=int(rng.integers(1, 3)))
    if case["agent"] != "universe":
        kw["seed"] = kw["seed"][:1]
    if case["what"] == "stop":
        return stop(case, rec, rng, kw)
    info = dict(ca=case["ca"], agent=case["agent"], env=case["env"], mode=case["mode"])
    earlier = None
    with quiet():
        if case["agent"] == "universe" and rng.random() < 0.35:
            # goes on from the elites of an earlier search, with every seed
            plain = make(case, kw, run=3)
            m = np.array(plain.starting_means, dtype=np.float64)
            earlier = m * rng.uniform(0.9, 1.1, (plain.elite_keep,) + m.shape)
            np.save("earlier.npy", {"elite_params": [earlier * 0.8, earlier]})
            kw["input_filepath"] = os.path.abspath("earlier.npy")
            info["continued"] = True
        es = make(case, kw)
        log = []
        record(es, log)
        es.search()
        n = pop * gens
        rec.event("measurement", len(log))
        if not rec.expect(len(log) == n * len(kw["seed"]), "number of fitness measurements", got=len(log), want=n * len(kw["seed"]), **info):
            return
        for si, s in enumerate(kw["seed"]):
            path = f"logs/{es.exp_id}_seed{s}.npy"
            if not rec.expect(os.path.exists(path), "no log for a seed", seed=s, files=os.listdir("logs"), **info):
                continue
            p = load(path)
            mine = log[si * n:(si + 1) * n]
            if earlier is not None:
                rec.event("continued")
                first = np.stack([r["genome"] for r in mine[:pop]])
                rec.expect(all(np.abs(first - e).max(1).min() < 1e-6 * (1 + np.abs(e).max()) for e in earlier), "a continued search does not start with the elites of the earlier one", seed=s, **info)
            for key in ["mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness", "elite_configs"]:
                rec.expect(len(p[key]) == gens, "log does not have an entry per generation", key=key, n=len(p[key]), want=gens, **info)
            for g in range(gens):
                rec.event("generation")
                rows = mine[g * pop:(g + 1) * pop]
                rec.expect(sorted(r["i"] for r in rows) == list(range(pop)), "not every member measured exactly once in a generation", got=[r["i"] for r in rows], **info)
                rec.expect({r["size"] for r in rows} == {pop}, "the population has members that are not measured", got={r["size"] for r in rows}, want=pop, generation=g, **info)
                rec.expect(len({r["seed"] for r in rows}) == 1, "members of a generation are measured with different seeds", **info)
                rec.expect(rows[0]["logs"].get(path, 0) == g, "log is not written after every generation", entries=rows[0]["logs"].get(path, 0), generation=g, **info)
                f = np.array([r["fitness"] for r in rows])
                got = [p[k][g] for k in ("mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness")]
                want = [f.mean(), f.max(), f.min(), f.std()]
                rec.expect(maxdiff(got, want) < 1e-6 * (1 + np.abs(f).max()), "logged statistics differ from the measured fitness", generation=g, got=got, want=want, **info)
                if case["agent"] != "pattern" and g + 1 < gens:
                    now = mine[(g + 1) * pop]
                    rec.event("logged distribution")
                    rec.expect(maxdiff(p["distribution"][g][0], now["means"]) == 0 and maxdiff(p["distribution"][g][1], now["covar"]) == 0,
                               "the logged distribution is not the one the next generation is drawn from", generation=g, **info)
                if case["agent"] != "pattern":
                    el = np.array(p["elite_params"][g], dtype=np.float64)
                else:
                    el = np.array(p["elite_params"][-1], dtype=np.float64) if g == gens - 1 else None
                if el is None:
                    continue
                pool = np.stack([r["genome"] for r in rows])
                near = [int(np.argmin(np.abs(pool - e).max(1))) for e in el]
                rec.expect(max(np.abs(pool[j] - e).max() for j, e in zip(near, el)) < 1e-6 * (1 + np.abs(el).max()), "a logged elite was not measured in that generation", generation=g, **info)
                if g == gens - 1 or case["mode"] == 0:
                    rec.expect(np.allclose(sorted(f[near])[::-1], np.sort(f)[::-1][:len(el)]) and f[near[0]] == f.max(), "logged elites are not the fittest, best first", generation=g, **info)
                for e, c in zip(el, p["elite_configs"][g]):
                    if case["agent"] == "pattern":
                        continue
                    _, cp = config_params(case, dict(kw, **base(case)), c)
                    rec.expect(np.allclose(cp, rules(case, es, e), rtol=1e-5, atol=1e-7), "config of an elite has other parameters", generation=g, **info)
            for key, v in {**{a: b for a, b in es.__dict__["given"].items() if isinstance(b, (int, float, str))}, **kw}.items():
                rec.expect(key in p["kwargs"] and p["kwargs"].get(key) == v, "log does not record the arguments", key=key, **info)
            # the saved config is the best of the last generation, and as good when measured again
            cfgs = glob.glob(os.path.join(os.environ["VERIF_SRC"], "ca_configs", f"{es.exp_id}_seed{s}.npy"))
            if rec.expect(len(cfgs) == 1, "no config saved for a seed", seed=s, **info):
                rec.event("saved config")
                ca, cp = config_params(case, dict(kw, **base(case)), load(cfgs[0]))
                rows = mine[-pop:]
                best = max(rows, key=lambda r: r["fitness"])
                if case["agent"] != "pattern":
                    ties = [r for r in rows if r["fitness"] == best["fitness"]]
                    rec.expect(any(np.allclose(cp, rules(case, es, r["genome"]), rtol=1e-5, atol=1e-7) for r in ties), "saved config is not the best of the last generation", seed=s, **info)
                if case["agent"] == "universe":
                    again = make(case, dict(kw, population_size=1), run=1)
                    again.env.ca.no_grad()
                    again.population = [again.agent_fn(params=cp.copy())]
                    got = float(again.get_fitness(0, steps=1, replicates=kw["replicates"], seed=best["seed"])[0])
                    rec.expect(abs(got - best["fitness"]) < 1e-3 * (1 + abs(best["fitness"])) or case["ca"] != "CCA", "saved config is not as fit as logged", got=got, want=best["fitness"], **info)
                os.remove(cfgs[0])
            rec.seen(case["ca"], case["agent"], case["mode"], fp(np.array([r["fitness"] for r in mine])))
        # again, and each seed by itself
        for s, sel in [(kw["seed"], slice(None))] + ([(kw["seed"][-1], slice(n * (len(kw["seed"]) - 1), None))] if len(kw["seed"]) > 1 else []):
            b = make(case, dict(kw, seed=s), run=2)
            blog = []
            record(b, blog)
            b.search()
            rec.event("repeat")
            a = log[sel]
            rec.expect(len(a) == len(blog) and all(x["fitness"] == y["fitness"] and np.array_equal(x["genome"], y["genome"]) for x, y in zip(a, blog)),
                       "the same seed gives another search", alone=s != kw["seed"], **info)
            for f in glob.glob(os.path.join(os.environ["VERIF_SRC"], "ca_configs", f"{b.exp_id}_*.npy")):
                os.remove(f)
    rec.note({"search": info, "seeds": kw["seed"], "max_fitness": [float(v) for v in p["max_fitness"]]})


def base(case):
    k = dict(kernel_radius=2, kernel_peaks=1)
    if case["ca"] == "NCA":
        k["hidden_channels"] = 3
    if case["ca"] == "RxnDfn":
        k["external_channels"] = 2
    return k


def stop(case, rec, rng, kw):
    """a search ends early once, after generation 6, fitness has converged"""
    import torch
    pop, gens = kw["population_size"], int(rng.integers(5, 14))
    kw.update(generations=gens)
    flat = [bool(rng.random() < 0.4) for _ in range(gens)]
    seeds = kw["seed"]
    state = {"calls": 0}
    # whatever the fitness is around
    level = float(rng.choice([0.0, 0.0, -0.6, 60.0, -300.0]))
    def fake(n):
        # generation of this measurement, within its seed
        g = (n - state.get("base", 0)) // pop
        v = level + 0.3 + (1e-4 if flat[min(g, gens - 1)] else 1.0) * float(rng.random()) if (n - state.get("base", 0)) % pop else level + (0.3 if flat[min(g, gens - 1)] else 2.0)
        return np.float64(v), torch.tensor(0.5)
    kw["seed"] = seeds[:1]
    with quiet():
        es = make(case, kw)
        log = []
        record(es, log, fake)
        es.search()
        want = next((g + 1 for g in range(7, gens) if flat[g]), gens)
        rec.event("early stop" if want < gens else "no early stop")
        p = load(f"logs/{es.exp_id}_seed{kw['seed'][0]}.npy")
        rec.expect(len(log) == want * pop and len(p["max_fitness"]) == want, "number of generations", got=len(log) / pop, logged=len(p["max_fitness"]), want=want, flat=flat)
        rows = log[-pop:]
        best = max(rows, key=lambda r: r["fitness"])
        el = np.array(p["elite_params"][-1], dtype=np.float64)
        rec.expect(np.allclose(el[0], best["genome"], rtol=1e-6), "best elite of the last generation is not the fittest", stopped=want < gens)
        f = glob.glob(os.path.join(os.environ["VERIF_SRC"], "ca_configs", f"{es.exp_id}_seed*.npy"))
        if rec.expect(len(f) == 1, "no config saved", stopped=want < gens):
            _, cp = config_params(case, base(case), load(f[0]))
            rec.expect(np.allclose(cp, best["genome"], rtol=1e-5, atol=1e-7), "saved config is not the best of the last generation", stopped=want < gens)
            os.remove(f[0])
        rec.seen("stop", want, gens, fp(el))
    rec.note({"converged": flat, "generations": want})


def cli(case, rec, rng):
    """the same through the command line, animations included"""
    src = os.environ["VERIF_SRC"]
    subprocess.run("git init -q . && git -c user.name=x -c user.email=x@x commit -q --allow-empty -m x", shell=True, check=True, capture_output=True)
    head = subprocess.run(["git", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    s, pop, gens = int(rng.integers(1, 99)), 2 if case["agent"] != "universe" else 3, 2
    tag = f"{case['agent']}_cli{case['seed']}"
    env = case["env"]
    args = ["-b", "1", "-c", "2", "-d", "cpu", "-g", str(gens), "-k", "3", "-m", "16", "-p", str(pop), "-s", str(s), "-t", tag, "-f", env, "-ca", case["ca"], "-dtype", "float64"]
    if case["ca"] == "RxnDfn":
        args += ["-x", "2"]
    out = subprocess.run([sys.executable, "-m", "yuca.evolve"] + args, capture_output=True, text=True, timeout=600)
    if not rec.expect(out.returncode == 0 and "evolution completed successfully" in out.stdout, "command line search fails", args=args, out=out.stdout[-500:], err=out.stderr[-1500:]):
        return
    rec.event("command line")
    logs = glob.glob(f"logs/exp_{tag}_*_seed{s}.npy")
    if rec.expect(len(logs) == 1, "no log of the search", files=os.listdir("logs")):
        p = load(logs[0])
        k = p["kwargs"]
        want = dict(batch_size=1, ca_steps=2, generations=gens, kernel_radius=3, dim=16, population_size=pop, tag=tag)
        rec.expect(all(k.get(a) == v for a, v in want.items()), "log does not record the arguments", got={a: k.get(a) for a in want}, want=want)
        rec.expect(str(k.get("git_hash", "")).strip() == head, "log does not record the version", got=k.get("git_hash"), want=head)
        flat = [v for a in k.get("entry_point", []) for v in (a if isinstance(a, list) else [a])]
        rec.expect(flat[0] == "evolve.py" and sorted(flat[1:]) == sorted(args), "log does not record the command line", got=k.get("entry_point"))
        rec.expect(len(p["max_fitness"]) == gens, "log does not have an entry per generation", n=len(p["max_fitness"]))
        rec.seen("cli", case["agent"], case["ca"], fp(np.array(p["max_fitness"], float)))
    cfgs = glob.glob(f"{src}/ca_configs/exp_{tag}_*_seed{s}.npy")
    if rec.expect(len(cfgs) == 1, "no config saved"):
        config_params(case, dict(kernel_radius=3), load(cfgs[0]))
        os.remove(cfgs[0])
    rec.note({"args": args})

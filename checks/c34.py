"""Every option of the evolution command reaches the search it starts."""
import os, sys, runpy, subprocess
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one call of the evolution entry point (command line or Python) with random options; the search it starts is stopped at its first "
        "instruction and the automaton, reward, agents, distribution and sizes it was made with are compared with the options; distinct by options")
MUST_SEE = ["command line", "python", "pattern search", "coevolution", "universe search", "float64", "config", "log of elites", "hidden channels given", "hidden channels left out",
            "several seeds", "refused", "option left out", "pattern log continued", "patterns for an evolved rule"]
ENVS = ["SimpleHaltingWrapper", "HaltingWrapper", "RandomWrapper"]
MIN_CHECKS = 800


def cases(tier, seed):
    n = 98 if tier == "quick" else 1400
    out = [{"seed": seed * 100501 + i, "ca": KINDS[i % 7], "kind": ["universe", "pattern", "coevo"][i // 7 % 3] if i % 4 else "universe", "cli": i // 3 % 2 == 0} for i in range(n)]
    # patterns for the rule that an earlier search has found
    out += [{"seed": seed * 100501 + 5000 + i, "rules": True, "ca": ["CCA", "Lenia", "CCA", "MetaCA", "CODE", "RandomStepCA", "NCA", "RxnDfn"][i % 8], "kind": ["pattern", "coevo"][i // 8 % 2],
             "cli": i % 3 == 0} for i in range(16 if tier == "quick" else 160)]
    # hidden channels, given and not, in every kind of search
    out += [{"seed": seed * 100501 + 7000 + i, "ca": "NCA", "kind": ["universe", "pattern", "coevo"][i % 3], "cli": i // 3 % 2 == 0, "hidden": i // 6 % 2 == 0} for i in range(12)]
    return out + [{"seed": seed * 100501 + 9000 + i, "bad": True, "cli": bool(i % 2)} for i in range(8 if tier == "quick" else 40)] + [{"seed": seed, "dt": True}]


class Stop(Exception):
    pass


def launch(kw, cli, flags):
    """the search started, just before it begins"""
    from yuca.cmaes import CMAES
    import yuca.cmaes
    got = []
    real = CMAES.search

    def search(self):
        got.append(self)
        raise Stop
    CMAES.search = search
    argv = sys.argv
    try:
        if cli:
            sys.argv = [os.path.join("yuca", "evolve.py")]
            for k, v in kw.items():
                sys.argv += [flags[k]] + [str(q) for q in (v if isinstance(v, list) else [v])]
            sys.modules.pop("yuca.evolve", None)
            runpy.run_module("yuca.evolve", run_name="__main__", alter_sys=False)
        else:
            from yuca.evolve import evolve
            evolve(**kw)
    except Stop:
        pass
    finally:
        CMAES.search = real
        sys.argv = argv
    return got[0] if got else None


SHORT = dict(batch_size="-b", ca_steps="-c", ca_fn="-ca", ca_config="-cc", internal_channels="-ch", device="-d", dtype="-dtype", selection_mode="-e", env_fn="-f", generations="-g",
             hidden_channels="-hc", input_filepath="-i", kernel_radius="-k", kernel_peaks="-kp", replicates="-l", dim="-m", population_size="-p", prediction_mode="-r", seed="-s", tag="-t",
             conv_mode="-v", workers="-w", external_channels="-x", activation="-a", dt="-dt")
DEFAULTS = dict(batch_size=64, ca_steps=1024, generations=32, selection_mode=0, kernel_radius=13, replicates=1, population_size=32, prediction_mode=0, seed=[13], conv_mode="circular", workers=0)


def setup(cli):
    if cli:
        subprocess.run("git init -q . && git -c user.name=x -c user.email=x@x commit -q --allow-empty -m x", shell=True, check=True, capture_output=True)


def ca_params_of(ca):
    return np.array(ca.get_params(), dtype=np.float64)


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    if case.get("bad"):
        return refused(case, rec, rng)
    if case.get("dt"):
        return dt_option(rec)
    if case.get("rules"):
        return evolved_rule(case, rec, rng)
    cli, kind, ca_kind = case["cli"], case["kind"], case["ca"]
    setup(cli)
    flags = {k: SHORT[k] if rng.random() < 0.5 else "--" + k for k in SHORT}
    pre, post = str(rng.choice(["", "my_", "a b ", "x-"])), str(rng.choice(["", "_search", "_7", "-run"]))
    tag = pre + {"universe": str(rng.choice(["universe", "halting", "test", "orbium"])), "pattern": "pattern", "coevo": str(rng.choice(["coevo", "coevolution"]))}[kind] + post
    env = str(rng.choice(ENVS))
    kw = dict(tag=tag, ca_fn=ca_kind, env_fn=env, dim=int(rng.integers(16, 40)), dtype=str(rng.choice(["float32", "float64"])))
    opt = dict(batch_size=int(rng.integers(1, 9)), ca_steps=int(rng.integers(1, 999)), generations=int(rng.integers(1, 99)), selection_mode=int(rng.integers(3)),
               kernel_radius=int(rng.integers(2, 9)), kernel_peaks=int(rng.integers(1, 5)), replicates=int(rng.integers(1, 6)), population_size=int(rng.integers(2, 40)),
               prediction_mode=int(rng.integers(3)), seed=[int(v) for v in rng.integers(0, 500, int(rng.integers(1, 4)))], conv_mode=str(rng.choice(["circular", "zeros", "reflect"])),
               workers=int(rng.integers(0, 5)), device="cpu")
    left = set(rng.choice(sorted(opt), int(rng.integers(0, 4)), replace=False)) - {"device"} if cli else set()
    if ca_kind == "RxnDfn":
        opt.pop("conv_mode")
    kw.update({k: v for k, v in opt.items() if k not in left})
    if not cli and rng.random() < 0.5:
        kw["seed"] = kw["seed"][0]
    ext = 1
    if ca_kind in ("CCA", "NCA", "MetaCA") and rng.random() < 0.5:
        ext = int(rng.integers(1, 4))
        kw.update(external_channels=ext, internal_channels=int(ext * rng.integers(1, 3)))
    if ca_kind == "RxnDfn":
        ext = 2
        if rng.random() < 0.3:
            kw["external_channels"] = 2
    if ca_kind == "NCA":
        kw["activation"] = str(rng.choice(["ReLU", "Tanh", "Gaussian"]))
    if rng.random() < 0.5 if "hidden" not in case else case["hidden"]:
        kw["hidden_channels"] = int(rng.integers(2, 30))
    saved = None
    with quiet():
        how = str(rng.choice(["plain", "plain", "config", "log"]))
        # (the configs these kinds restore when they are made replace all of the options)
        if how == "config" and ca_kind in ("CCA", "RxnDfn") and (kind != "universe" or ca_kind == "CCA" or env == "HaltingWrapper"):
            src = build(ca_kind, kernel_radius=4, kernel_peaks=1, **({"external_channels": 2} if ca_kind == "RxnDfn" else {}))
            p = ca_params_of(src)
            src.set_params(p * rng.uniform(0.6, 1.4, p.shape))
            saved = ca_params_of(src)
            src.save_config("rule.npy")
            kw["ca_config"] = os.path.abspath("rule.npy")
            for k in ("internal_channels", "external_channels"):
                kw.pop(k, None)
            ext = 2 if ca_kind == "RxnDfn" else 1
        elites = None
        if how == "log":
            base = launch(kw, cli, flags)
            n = base.starting_means.shape[0]
            if n < 1000:
                elites = rng.uniform(0.05, 0.6, (base.elite_keep + int(rng.integers(0, 3)), n))
                if kind == "pattern":
                    # the rule must come from elsewhere
                    if ca_kind != "CCA" or ext != 1:
                        elites = None
                    else:
                        src = build("CCA", kernel_radius=4, kernel_peaks=1); src.save_config("rule.npy")
                        kw["ca_config"] = os.path.abspath("rule.npy"); saved = ca_params_of(src)
                        for k in ("internal_channels", "external_channels"):
                            kw.pop(k, None)
                elif kind == "coevo":
                    # the reward takes the start of the genome for a rule
                    elites = None
            if elites is not None:
                np.save("elites.npy", {"elite_params": [elites * 0.5, elites]})
                kw["input_filepath"] = os.path.abspath("elites.npy")
        # what was set before the call must not matter
        torch.set_default_dtype(torch.float64 if rng.random() < 0.4 else torch.float32)
        es = launch(kw, cli, flags)
    what = dict(options={k: v for k, v in kw.items() if k not in ("ca_config", "input_filepath")}, cli=cli)
    if not rec.expect(es is not None, "no search is started", **what):
        return
    rec.event("command line" if cli else "python"); rec.event({"universe": "universe search", "pattern": "pattern search", "coevo": "coevolution"}[kind])
    rec.event("option left out", len(left))
    names = {c.__name__ for c in type(es).__mro__}
    rec.expect(("CMACES" in names) == (kind == "coevo") and "CMAES" in names, "wrong kind of search", got=type(es).__name__, **what)
    want_env = env if kind == "universe" else "GliderWrapper"
    rec.expect(type(es.env).__name__ == want_env, "wrong reward", got=type(es.env).__name__, want=want_env, **what)
    ca = es.env.ca
    rec.expect(type(ca).__name__ == ca_kind, "wrong kind of automaton", got=type(ca).__name__, **what)
    f64 = kw["dtype"] == "float64"
    rec.event("float64", f64)
    rec.expect(torch.get_default_dtype() == (torch.float64 if f64 else torch.float32), "wrong precision", got=str(torch.get_default_dtype()), **what)
    for k in DEFAULTS:
        if k == "conv_mode" or k == "kernel_radius":
            # (reaction-diffusion automata have a Laplacian of their own)
            if saved is not None or ca_kind == "RxnDfn":
                continue
        want = kw.get(k, DEFAULTS[k])
        if k == "seed":
            want = want if isinstance(want, list) else [want]
            rec.event("several seeds", len(want) > 1)
        at = {"seed": lambda: list(es.my_seed), "conv_mode": lambda: ca.conv_mode, "kernel_radius": lambda: ca.kernel_radius}.get(k, lambda: getattr(es, k))
        rec.expect(at() == want, "an option does not reach the search", option=k, got=at(), want=want, **what)
        for o in (es.env,):
            if k in ("batch_size", "ca_steps", "prediction_mode") and not (k == "prediction_mode" and kind != "universe"):
                rec.expect(getattr(o, k) == want, "an option does not reach the reward", option=k, got=getattr(o, k), want=want, **what)
    rec.expect(es.dim == kw["dim"] == es.env.dim, "an option does not reach the search", option="dim", got=[es.dim, es.env.dim], **what)
    rec.expect(ca.external_channels == ext == es.external_channels, "number of external channels", got=[ca.external_channels, es.external_channels], want=ext, **what)
    if "internal_channels" in kw and ca_kind != "RxnDfn":
        rec.expect(ca.internal_channels == kw["internal_channels"], "number of internal channels", got=ca.internal_channels, **what)
    if "kernel_peaks" in kw and saved is None and ca_kind != "RxnDfn":
        rec.expect(ca.kernel_peaks == kw["kernel_peaks"], "an option does not reach the automaton", option="kernel_peaks", got=ca.kernel_peaks, **what)
    if ca_kind == "NCA":
        given = "hidden_channels" in kw
        want = kw.get("hidden_channels", 16 if cli or kind != "pattern" else 256)
        rec.event("hidden channels given" if given else "hidden channels left out")
        rec.expect(ca.hidden_channels == want, "number of hidden channels", got=ca.hidden_channels, want=want, **what)
    # the agents
    with quiet():
        if es.starting_means.shape[0] < 1000:
            es.population_size = min(es.population_size, 2 if elites is None else 6)
            np.random.seed(1)
            es.reset()
            a = es.population[0]
            want_agent = {"universe": "ParamsAgent", "pattern": "CPPN", "coevo": "CPPNPlus"}[kind]
            rec.expect(type(a).__name__ == want_agent, "wrong kind of agent", got=type(a).__name__, **what)
            n = len(np.array(ca.get_params()).ravel())
            act = a.get_action()
            if kind == "universe":
                rec.expect(np.shape(act) == (n,), "an agent's rule does not fit the automaton", got=np.shape(act), want=n, **what)
            else:
                pat = act if kind == "pattern" else act[1]
                rec.expect(tuple(pat.shape) == (1, ext, kw["dim"], kw["dim"]), "an agent's pattern does not fit the automaton", got=tuple(pat.shape), **what)
                if kind == "coevo":
                    rec.expect(np.shape(act[0]) == (n,), "an agent's rule does not fit the automaton", got=np.shape(act[0]), want=n, **what)
            if elites is not None:
                rec.event("log of elites"); rec.event("pattern log continued", kind == "pattern")
                for i in range(min(len(es.population), len(elites), es.elite_keep)):
                    rec.expect(np.allclose(es.population[i].get_params(), elites[i], rtol=1e-5, atol=1e-6), "search does not go on from the elites of the log", member=i, **what)
                rec.expect(np.allclose(es.starting_means, elites[:es.elite_keep].mean(0), rtol=1e-6), "search does not start at the mean of the elites", **what)
    if saved is not None:
        rec.event("config")
        rec.expect(np.allclose(ca_params_of(ca), saved, rtol=1e-4, atol=1e-6), "search does not use the rule of the config", got=ca_params_of(ca)[:6], want=saved[:6], **what)
        if kind == "universe" and elites is None:
            rec.expect(np.allclose(es.starting_means, saved, rtol=1e-4, atol=1e-6), "search does not start at the rule of the config", **what)
    if cli:
        k = es.kwargs
        flat = [v for a in k["entry_point"] for v in (a if isinstance(a, list) else [a])]
        want = [v for o, q in kw.items() for v in [flags[o]] + [str(z) for z in (q if isinstance(q, list) else [q])]]
        rec.expect(flat[0] == "evolve.py" and sorted(flat[1:]) == sorted(want), "the record of the command lacks a part of it", got=flat, want=want)
        groups = sorted([flags[o]] + [str(z) for z in (q if isinstance(q, list) else [q])] for o, q in kw.items())
        rec.expect(sorted(list(g) for g in k["entry_point"][1:]) == groups, "the record of the command separates options from their values", got=k["entry_point"][1:], want=groups)
    rec.seen(kind, cli, ca_kind, env, sorted(kw), sorted(left), how)
    rec.note({"options": kw, "command line": cli})


def refused(case, rec, rng):
    """names that mean nothing start no search"""
    cli = case["cli"]
    setup(cli)
    kind = str(rng.choice(["universe", "pattern", "coevo"]))
    kw = dict(tag=kind, ca_fn="CCA", env_fn="SimpleHaltingWrapper", dim=16, dtype="float32", kernel_radius=3, population_size=2)
    if kind == "universe" and rng.random() < 0.5:
        kw["env_fn"] = str(rng.choice(["Halting", "Wrapper", "GliderWrap", "none"]))
    else:
        kw["ca_fn"] = str(rng.choice(["Life", "ca", "N", "Reaction"]))
    err = None
    with quiet():
        try:
            es = launch(kw, cli, {k: SHORT[k] for k in SHORT})
        except BaseException as e:
            es, err = None, e
    rec.event("refused")
    rec.expect(es is None and isinstance(err, Exception), "a search is started with an automaton or reward that does not exist", options=kw)


def evolved_rule(case, rec, rng):
    """a search for patterns that is given the log of a search for rules runs them under the best rule of its last generation"""
    cli, kind, ca_kind = case["cli"], case["kind"], case["ca"]
    setup(cli)
    flags = {k: SHORT[k] for k in SHORT}
    kw = dict(tag={"pattern": "pattern", "coevo": "coevo"}[kind], ca_fn=ca_kind, env_fn="HaltingWrapper", dim=int(rng.integers(16, 30)), dtype="float64", population_size=int(rng.integers(2, 20)),
              kernel_radius=int(rng.integers(2, 6)), kernel_peaks=int(rng.integers(1, 3)), hidden_channels=4)
    with quiet():
        base = launch(kw, cli, flags)
        start = ca_params_of(base.env.ca)
        gens = [np.abs(start * rng.uniform(0.7, 1.3, (int(rng.integers(2, 5)), len(start)))) for _ in range(int(rng.integers(2, 5)))]
        np.save("rules.npy", {"elite_params": gens})
        kw["input_filepath"] = os.path.abspath("rules.npy")
        es = launch(kw, cli, flags)
        rec.event("patterns for an evolved rule")
        what = dict(options={k: v for k, v in kw.items() if k != "input_filepath"}, cli=cli)
        if not rec.expect(es is not None, "no search is started", **what):
            return
        want = gens[-1][0]
        got = ca_params_of(es.env.ca)
        rec.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-5, atol=1e-8), "patterns are not run under the best rule of the last generation of the log", got=got[:6], want=want[:6], **what)
        if kind == "coevo":
            rec.expect(np.allclose(es.starting_means[-len(want):], want, rtol=1e-5, atol=1e-8), "patterns and rules are not evolved from the best rule of the last generation of the log", **what)
        if ca_kind in ("CCA", "CODE", "RandomStepCA"):
            # ... and so is an automaton by itself
            alone = build(ca_kind, kernel_radius=kw["kernel_radius"], kernel_peaks=kw["kernel_peaks"], input_filepath=kw["input_filepath"])
            got = ca_params_of(alone)
            rec.event("automaton of a log")
            rec.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-5, atol=1e-8), "an automaton made from the log has another rule than the best of the last generation", got=got[:6], want=want[:6], **what)
    rec.seen("rules", kind, cli, ca_kind, fp(want, 5))


def dt_option(rec):
    """known finding: the step size given to the command is not used"""
    setup(True)
    with quiet():
        es = launch(dict(tag="universe", ca_fn="CCA", env_fn="SimpleHaltingWrapper", dim=16, dt=0.7, kernel_radius=3, kernel_peaks=1, population_size=2), True, {k: SHORT[k] for k in SHORT})
    got = float(es.env.ca.get_dt())
    rec.expect(abs(got - 0.7) < 1e-6, "step-size-option-not-used" if abs(got - 0.1) < 1e-6 else "the step size option gives yet another step size", got=got, want=0.7)

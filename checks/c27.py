"""An analysis reports what became of the patterns it followed."""
import os, sys, glob, subprocess
import numpy as np
from gen import *
from script import recording, scripted, rollouts
import checks.c26 as c26

LEVEL = "exploration"
RULE = ("one case = one analysis of an automaton (real, or following a script of deaths, escapes and standstills), every state recorded; all reported "
        "series are recomputed from the record; some analyses run over directories of configs, from Python and the command line; distinct by outcome series")
MUST_SEE = ["real automaton", "dies", "survives", "escapes", "stays inside", "ended early", "directory", "command line"]


def cases(tier, seed):
    q = tier == "quick"
    out = [{"seed": seed * 100391 + 900 + i, "what": "cli" if i % 3 == 0 else "directory"} for i in range(3 if q else 24)]
    return out + [{"seed": seed * 100391 + i, "what": "real" if i % 3 == 0 else "script", "cppn": i % 5 == 1} for i in range(90 if q else 1200)]


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    np.seterr(all="ignore")
    from yuca.analyze import Phanes
    if case["what"] in ("cli", "directory"):
        return directory(case, rec, rng, Phanes)
    steps, batch, dim = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.choice([8, 9, 12]))
    if case["cppn"]:
        dim = max(dim, 12)
    kr = int(rng.integers(1, 3))
    with quiet():
        ph = Phanes(ca_steps=steps, batch_size=batch, dim=dim, kernel_radius=kr, kernel_peaks=1, use_cppn=bool(case["cppn"]))
        if case["what"] == "real":
            rec.event("real automaton")
            kind = str(rng.choice(CCAS))
            ca = recording(class_of(kind))(kernel_radius=kr, kernel_peaks=1, **({"min_dt": 0.1, "error_threshold": 0.2} if kind == "CODE" else {}))
            if kind != "CODE":
                ca.load_config(config(rng, rmax=3))
        else:
            plan = [(str(rng.choice(["dies", "dies", "stays", "grows", "wanders", "fades"])), int(rng.integers(0, steps + 1))) for _ in range(batch)]
            if rng.random() < 0.3:
                plan = [("dies", at) for _, at in plan]

            def script(self, t, x):
                y = x.clone()
                for b, (how, at) in enumerate(plan):
                    if how == "dies":
                        y[b] = x[b] * (0.0 if t >= at else 0.7)
                    elif how == "grows" and t >= at:
                        y[b] = torch.clamp(sum(torch.roll(x[b], s, d) for s in (-2, 0, 2) for d in (1, 2)) * 0.5, 0, 1)
                    elif how == "fades":
                        # faint, and nevertheless there
                        y[b] = x[b] * 1e-3
                    elif how == "wanders":
                        y[b] = torch.roll(x[b], 1, 2)
                return y
            ca = scripted(class_of("CCA"), script)(kernel_radius=kr, kernel_peaks=1)
        ph.ca = ca
        k = ca.kernel_radius
        res = ph.analyze_universe()
        runs = rollouts(ca.__dict__["tape"])
        what = dict(what=case["what"], steps=steps, batch=batch, dim=dim, cppn=case["cppn"])
        if not rec.expect(len(runs) == 1, "states are not those of one evolution", runs=len(runs), **what):
            return
        st = [npa(s) for s in runs[0]]
        n = len(st) - 1
        g0 = st[0]
        q = dim // 2 // 2
        rec.expect(g0.shape == (batch, 1, dim, dim) and g0.min() >= 0 and g0.max() <= 1, "starting states", shape=g0.shape, **what)
        outer = g0.copy()
        outer[:, :, q:dim - q, q:dim - q] = 0
        rec.expect(outer.max() == 0 if case["cppn"] or dim % 2 == 0 else outer.sum() < g0.sum() * 0.4, "patterns do not start in the middle half", **what)
        rec.expect(all(g0[0, 0].tobytes() != g0[b, 0].tobytes() for b in range(1, batch)) or not g0[0].any() and case["cppn"], "samples of a batch start alike", **what)
        # until the end, or until nothing is left
        gone = [bool(s.mean() == 0) for s in st[1:]]
        rec.expect(n == steps or n < steps and gone[-1], "length of the analysis", got=n, **what)
        rec.expect(not any(gone[:-1]), "goes on when nothing is left", **what)
        rec.event("ended early", n < steps)
        rec.expect(list(res["step"]) == list(range(n)), "steps", got=list(res["step"]), **what)
        alive = np.array([[s[b].mean() > 0 for b in range(batch)] for s in st[1:]])
        edge = np.ones((dim, dim), bool)
        edge[1:-1, 1:-1] = False
        out = np.array([[s[b, 0][edge].sum() > 0 for b in range(batch)] for s in st[1:]])
        for key in ("mortality_ratio", "fertility_ratio", "entropy_mean", "entropy_std_dev", "autocorrelation"):
            if not rec.expect(len(res[key]) == n, "a series does not have an entry per step", key=key, got=len(res[key]), want=n, **what):
                return
        rec.event("dies", int((~alive[-1]).sum())); rec.event("survives", int(alive[-1].sum()))
        rec.event("escapes", int(out.any(0).sum())); rec.event("stays inside", int((~out.any(0)).sum()))
        rec.expect(maxdiff(res["mortality_ratio"], 1 - alive.mean(1)) < 1e-6, "mortality is not the share of vanished patterns", got=res["mortality_ratio"], want=1 - alive.mean(1), **what)
        rec.expect(maxdiff(res["fertility_ratio"], out.mean(1)) < 1e-6, "fertility is not the share of patterns at the edge", got=res["fertility_ratio"], want=out.mean(1), **what)
        last = [int(np.argmin(alive[:, b])) if not alive[:, b].all() else -1 for b in range(batch)]
        rec.expect([int(v) for v in res["last_step"]] == last, "last step is not when a pattern vanished", got=res["last_step"], want=last, **what)
        # entropies in windows of the size of the kernel
        t = int(rng.integers(n))
        vals, close = [], 0.0
        for b in range(batch):
            for y in range(dim):
                for x in range(dim):
                    win = np.take(np.take(st[t + 1][b, 0], range(y - k, y + k + 1), 0, mode="wrap"), range(x - k, x + k + 1), 1, mode="wrap")
                    v, c = c26.entropy(win)
                    vals.append(v); close += (c or 0 < np.ptp(win) < 1e-3) / (batch * dim * dim)
        # (levels close to a boundary, or in windows that hardly vary, are left to rounding)
        tol = 1e-4 + 3 * close
        if 2 * k + 1 <= dim:
            rec.expect(abs(res["entropy_mean"][t] - np.mean(vals)) < tol and abs(res["entropy_std_dev"][t] - np.std(vals)) < tol, "entropy of the windows", got=(res["entropy_mean"][t], res["entropy_std_dev"][t]), want=(np.mean(vals), np.std(vals)), step=t, **what)
        # correlation between successive states
        for t in range(n):
            a, b = st[t + 1].ravel(), st[t].ravel()
            if a.std() > 1e-3 and b.std() > 1e-3:
                want = np.corrcoef(a, b)[0, 1]
                rec.expect(maxdiff(np.array(res["autocorrelation"][t])[[0, 2, 3]], [want * (1 - 1 / a.size)] * 3) < 2e-3 + 1.5 / a.size and abs(res["autocorrelation"][t][1]) < 1e-5, "correlation of successive states", got=res["autocorrelation"][t], want=want, step=t, **what)
        rec.seen(case["what"], dim, tuple(alive.ravel()), tuple(out.ravel()))
    rec.note({"mortality": [float(v) for v in res["mortality_ratio"]], "fertility": [float(v) for v in res["fertility_ratio"]], "last_step": last})


def directory(case, rec, rng, Phanes):
    """each config of a directory gets its own results"""
    import torch
    rec.event("directory")
    slash = str(rng.choice(["", "/"]))
    os.makedirs("here/rules")
    os.chdir("here")
    open("rules/readme.txt", "w").write("not a config")
    kinds, names = {}, [str(v) for v in rng.permutation(["alpha", "be.ta", "be.tb"] if case["seed"] % 2 else ["be.ta", "be.tb"])[:2]]
    for i, name in enumerate(names):
        # one rule under which everything dies at once, one under which nothing does
        g = {"name": "Gaussian", "mu": 5.0, "sigma": 0.01, "mode": 1}
        p = {"name": "Polynomial", "coefficients": np.array([0.0]), "mode": 0}
        cfg = {"neighborhood_kernel_config": {"name": "Gaussian", "radius": 2 + i, "kernel_kwargs": {"mu": 0.5, "sigma": 0.15}}, "genesis_config": g if i else p, "persistence_config": g if i else p, "dt": 1.0,
               "instant_kwargs": {"internal_channels": 1, "external_channels": 1, "conv_mode": "circular"}}
        cfg["genesis_config"] = dict(cfg["genesis_config"])
        with quiet():
            ca = from_config("CCA", {**cfg, **{k: dict(cfg[k], **({"coefficients": tt([0.0])} if cfg[k]["name"] == "Polynomial" else {})) for k in ("genesis_config", "persistence_config")}})
            ca.save_config(os.path.abspath(f"rules/{name}.npy"))
        kinds[name] = "dies" if i else "stays"
    before = sorted(os.listdir("rules"))
    args = dict(batch_size=2, ca_steps=2)
    if case["what"] == "cli":
        rec.event("command line")
        subprocess.run("git init -q . && git -c user.name=x -c user.email=x@x commit -q --allow-empty -m x", shell=True, check=True, capture_output=True)
        out = subprocess.run([sys.executable, "-m", "yuca.analyze", "-b", "1", "-c", "1", "-i", "rules" + slash], capture_output=True, text=True, timeout=600)
        if not rec.expect(out.returncode == 0, "command line analysis fails", err=out.stderr[-1500:], slash=slash):
            return
        text, args = out.stdout, dict(batch_size=1, ca_steps=1)
    else:
        import io, contextlib
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            Phanes(input_directory="rules" + slash, dim=10, kernel_radius=2, kernel_peaks=1, **args).analyze_multiverse()
        text = buf.getvalue()
    rec.expect(sorted(os.listdir("rules")) == before, "an analysis changes the directory of configs", got=sorted(os.listdir("rules")))
    got = sorted(os.listdir("ca_analysis")) if os.path.isdir("ca_analysis") else []
    if not rec.expect(len(got) == len(names), "not one result per config, next to the configs", got=got, names=names, slash=slash):
        return
    for name in names:
        path, = [f for f in got if f.startswith(name)]
        r = np.load(f"ca_analysis/{path}", allow_pickle=True).reshape(1)[0]
        rec.expect(r["name"] == name + ".npy" and r["max_ca_steps"] == args["ca_steps"] and not r["use_cppn"], "result does not say what was analyzed", name=r["name"], want=name)
        dead = kinds[name] == "dies"
        rec.expect(all(m == float(dead) for m in r["mortality_ratio"]) and all((v == 0) == dead for v in r["last_step"]) and len(r["last_step"]) == args["batch_size"], "result is not that of the config", name=name, rule=kinds[name], mortality=r["mortality_ratio"], last=r["last_step"])
        rec.expect(name + ".npy" in text, "a config is not reported", text=text[-300:])
        rec.seen("directory", name, kinds[name], slash, args["batch_size"])
    rec.note({"configs": kinds, "slash": slash, "results": got})

"""Figures show the data they are given."""
import os, sys, subprocess
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one log of a search (made up, or written by a search) plotted, or a few states, kernels and growth functions plotted; the contents of the "
        "figures (curves, bands, images) are compared with the data; distinct by data")
MUST_SEE = ["log plotted", "fitness figure", "rule figure", "state figure", "kernel figure", "command line", "log of a search", "several channels"]
MIN_CHECKS = 200


def cases(tier, seed):
    n = 60 if tier == "quick" else 900
    return [{"seed": seed * 100523 + i, "what": ["log", "log", "state", "kernel"][i % 4], "real": i % 20 == 4, "cli": i % 20 == 9} for i in range(n)]


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), str(l.get_label())) for l in ax.get_lines()]


def has(curves, x, y, tol=1e-5):
    return [i for i, (a, b, _) in enumerate(curves) if len(a) == len(x) and np.allclose(a, x, atol=tol) and np.allclose(b, y, rtol=tol, atol=tol * (1 + np.abs(y).max()))]


def run_case(case, rec):
    import torch
    import matplotlib.pyplot as plt
    rng = rng_of(case)
    plt.close("all")
    if case["what"] == "log":
        return log(case, rec, rng, plt)
    from yuca.utils import plot_grid_nbhd, plot_kernel_growth
    f64 = rng.random() < 0.5
    if f64:
        torch.set_default_dtype(torch.float64)
    with quiet():
        if case["what"] == "state":
            h, w = int(rng.integers(3, 40)), int(rng.integers(3, 40))
            a, b, c = rng.random((h, w)), rng.random((h, w)), rng.normal(0, 0.1, (h, w))
            as_t = (lambda v: tt(v)) if rng.random() < 0.5 else (lambda v: v)
            titles = [f"t{rng.integers(99)}" for _ in range(3)] if rng.random() < 0.5 else None
            vmin, vmax = (0, 1) if rng.random() < 0.5 else (float(rng.uniform(-1, 0)), float(rng.uniform(0.5, 2)))
            fig = plot_grid_nbhd(as_t(a), as_t(b), as_t(c), titles=titles, vmin=vmin, vmax=vmax)
            rec.event("state figure")
            ims = [(ax.get_title(), ax.images[0]) for ax in fig.axes if ax.images]
            if rec.expect(len(ims) == 3, "number of images", got=len(ims)):
                for (t, im), d, name in zip(ims, (a, b, c), titles or ["CA grid", "Neighborhood", "Update"]):
                    rec.expect(maxdiff(np.asarray(im.get_array(), float), d) < 1e-6, "an image is not what it is said to be", title=t)
                    rec.expect(t == name, "an image has another title", got=t, want=name)
                for t, im in ims[:2]:
                    rec.expect(np.allclose(im.get_clim(), (vmin, vmax)), "an image has other limits", got=im.get_clim(), want=(vmin, vmax))
            rec.seen("state", h, w, fp(a))
        else:
            import yuca.kernels as K
            from yuca.activations import Gaussian
            cfg = kernel_config(rng, rmax=9)
            k = npa(torch.as_tensor(K.get_kernel(cfg)))[0, 0]
            g = growth_config(rng, "Gaussian")
            fn = Gaussian(**g)
            with torch.no_grad():
                for p in fn.parameters():
                    p.requires_grad = False
                lo, hi = (-0.1, 1.1) if rng.random() < 0.5 else (float(rng.uniform(-1, 0)), float(rng.uniform(0.5, 2)))
                plot_kernel_growth(k, fn, my_xrange=[lo, hi], vmax=float(k.max()))
            rec.event("kernel figure")
            fig = plt.gcf()
            rec.expect(maxdiff(np.asarray(fig.axes[0].images[0].get_array(), float), k) < 1e-6, "the image is not the kernel", config=cfg)
            x, y, _ = lines(fig.axes[1])[0]
            rec.expect(abs(x[0] - lo) < 1e-6 and hi - 0.01 * (hi - lo) <= x[-1] <= hi + 1e-6 and len(x) >= 100 and (np.diff(x) > 0).all(), "the growth function is shown on another range", got=[x[0], x[-1], len(x)], want=[lo, hi])
            rec.expect(maxdiff(y, ref.growth(g, x)) < 1e-4, "the curve is not the growth function", config=g)
            rec.seen("kernel", fp(k))
    plt.close("all")


def log(case, rec, rng, plt):
    import torch
    import yuca.plot
    n = int(rng.integers(1, 12))
    if case["real"]:
        from yuca.cmaes import CMAES
        from yuca.ca.continuous import CCA
        from yuca.params_agent import ParamsAgent
        from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
        import yuca.cmaes
        yuca.cmaes.save_fig_sequence = lambda *a, **k: None
        os.makedirs("logs")
        rec.event("log of a search")
        with quiet():
            es = CMAES(ca_fn=CCA, env_fn=SimpleHaltingWrapper, agent_fn=ParamsAgent, dim=12, kernel_radius=2, ca_steps=2, batch_size=1, generations=n, population_size=4, seed=[3], tag="plot")
            es.rank_population = lambda fitness, seed=0: es.update_population(fitness)   # saves no config
            es.search()
        path = f"logs/{es.exp_id}_seed3.npy"
        data = np.load(path, allow_pickle=True).reshape(1)[0]
        cfgs = data["elite_configs"][-1]
    else:
        internal = int(rng.choice([1, 1, 2, 3]))
        cfgs = []
        for _ in range(int(rng.choice([1, 2, 3, 6]))):
            ok = lambda c: c["name"] in ("Gaussian", "GaussianMixture", "SmoothIntervals", "Polynomial", "DoGaussian", "DoubleGaussian")
            while True:
                c = config(rng, internal=internal, external=1, rmax=4)
                if all(ok(q) for key in ("genesis_config", "persistence_config") for q in (c[key] if isinstance(c[key], list) else [c[key]])):
                    break
            cfgs.append(c)
        rec.event("several channels", internal > 1)
        mean = rng.normal(0, 2, n)
        spread = rng.uniform(0, 1, n)
        old = [[config(rng, internal=1, external=1, rmax=4)] for _ in range(n - 1)]
        data = dict(elite_configs=old + [cfgs], mean_fitness=list(mean), max_fitness=list(mean + spread), min_fitness=list(mean - spread * rng.uniform(0.5, 2)), std_dev_fitness=list(spread * 0.6),
                    elite_params=[], kwargs={}, distribution=[])
        path = f"exp_{n}.npy"
        np.save(path, data)
    n = len(data["mean_fitness"])
    if case["cli"]:
        rec.event("command line")
        out = subprocess.run([sys.executable, "-m", "yuca.plot", "-i", path, "-s", "0"], capture_output=True, text=True, timeout=300)
        rec.expect(out.returncode == 0 and "plot finished" in out.stdout, "the plot command fails", err=out.stderr[-800:])
    shown = []
    real_show = plt.show
    show = int(rng.integers(2))
    try:
        plt.show = lambda *a, **k: shown.append(plt.get_fignums())
        with quiet():
            yuca.plot.plot_exp(input_filepath=path, show=show)
    finally:
        plt.show = real_show
    rec.event("log plotted")
    rec.expect(len(shown) == show, "figures are shown, or not, against the request", got=len(shown), want=show)
    axes = [ax for i in plt.get_fignums() for ax in plt.figure(i).axes]
    rules, fit = [], []
    for ax in axes:
        (fit if ax.collections else rules).append(ax)
    # one figure per elite and channel: both growth functions
    pairs = []
    for i, c in enumerate(cfgs):
        al = lambda v: v if isinstance(v, list) else [v]
        pairs += [(i, g, p) for g, p in zip(al(c["genesis_config"]), al(c["persistence_config"]))]
    if rec.expect(len(rules) == len(pairs), "number of rule figures", got=len(rules), want=len(pairs)):
        for ax, (i, g, p) in zip(rules, pairs):
            rec.event("rule figure")
            cs = lines(ax)
            x = cs[0][0]
            rec.expect(x[0] <= 0 and x[-1] >= 1 and (np.diff(x) > 0).all(), "growth functions are not shown on [0, 1]", got=[x[0], x[-1]])
            for fn, word in ((g, "genesis"), (p, "persistence")):
                mine = [y for a, y, l in cs if word in l]
                if rec.expect(len(mine) == 1, "a growth function is not in the figure", which=word):
                    rec.expect(maxdiff(mine[0], ref.growth(fn, x)) < 1e-3 * (1 + np.abs(mine[0]).max()), "a curve is not the growth function", which=word, config=fn, elite=i)
    if rec.expect(len(fit) == 1, "number of fitness figures", got=len(fit)):
        rec.event("fitness figure")
        cs, gens = lines(fit[0]), np.arange(n)
        for key, word in (("mean_fitness", "mean"), ("max_fitness", "max"), ("min_fitness", "min")):
            at = has(cs, gens, np.array(data[key], float))
            if rec.expect(at, "a fitness curve is missing", key=key, n=n):
                rec.expect(any(word in cs[j][2] for j in at), "a fitness curve has another label", key=key, labels=[c[2] for c in cs])
        mean, std = np.array(data["mean_fitness"], float), np.array(data["std_dev_fitness"], float)
        v = fit[0].collections[0].get_paths()[0].vertices
        for g in range(n):
            ys = v[np.abs(v[:, 0] - g) < 1e-9, 1]
            rec.expect(len(ys) and abs(ys.max() - (mean[g] + std[g])) < 1e-6 * (1 + abs(mean[g])) and abs(ys.min() - (mean[g] - std[g])) < 1e-6 * (1 + abs(mean[g])),
                       "the band is not one standard deviation around the mean", generation=g, got=[ys.min(), ys.max()] if len(ys) else None, want=[mean[g] - std[g], mean[g] + std[g]])
        rec.seen("log", n, len(pairs), fp(mean))
    with quiet():
        try:
            yuca.plot.plot_exp(input_filepath="absent.npy", show=0)
            rec.bad("plots a log that does not exist")
        except Exception:
            pass
    plt.close("all")
    rec.note({"generations": n, "rule figures": len(pairs)})

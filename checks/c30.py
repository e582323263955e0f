"""Cloning saves the best network it found."""
import os, sys, subprocess
import numpy as np
from gen import *

BUILD = True
LEVEL = "exploration"
RULE = ("one case = one cloning session (automata, widths, thresholds, steps) in a copy of the sources, every network and state at which the error is measured "
        "recorded; the saved file is compared with the record; distinct by saved weights")
MUST_SEE = ["measured network", "saved network", "threshold met", "threshold not met", "several automata", "several iterations", "command line", "not the last one", "no automaton named", "met after some steps", "met in some iterations only", "several channels", "names with dots"]
MIN_CHECKS = 60


def cases(tier, seed):
    q = tier == "quick"
    out = [{"seed": seed * 100417 + 500 + i, "cli": True} for i in range(1 if q else 8)]
    return out + [{"seed": seed * 100417 + 900, "cli": False, "default": True}] + [{"seed": seed * 100417 + i, "cli": False, "met": i % 3 == 1, "several": i % 4 == 2, "iterations": 1 + i % 2} for i in range(15 if q else 160)] + [
        {"seed": seed * 100417 + 7000 + i, "cli": False, "between": True, "several": i % 4 == 3, "iterations": 2 + i % 2} for i in range(12 if q else 60)]


def error(p, t):
    p, t = p.astype(float), t.astype(float)
    return float((np.abs(p - t) / (1e-9 + np.abs(t))).mean())


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    np.seterr(all="ignore")
    src = os.environ["VERIF_SRC"]
    os.makedirs(os.path.join(src, "logs"), exist_ok=True)
    import yuca.clone as clone
    from yuca.ca.neural import NCA
    from yuca.ca.continuous import CCA
    assert os.path.abspath(clone.__file__).startswith(os.path.abspath(src)), clone.__file__
    uid = f"v{case['seed']}_{os.getpid()}"
    shipped = ["orbium.npy", "geminium.npy", "s613.npy"]
    shipped = [f for f in shipped if os.path.exists(os.path.join(src, "ca_configs", f))]
    # automata of our own next to the shipped ones
    names, paths = [], []
    dots = rng.random() < 0.4
    inner, outer = [(1, 1), (1, 1), (1, 1), (3, 3), (2, 1), (4, 4), (2, 2)][int(rng.integers(7))] if not case["cli"] else (1, 1)
    rec.event("several channels", inner > 1)
    for i in range(2 if case.get("several") or case["cli"] else 1):
        with quiet():
            ca = from_config("CCA", config(rng, internal=inner, external=outer, rmax=3, with_id=False))
            name = f"{uid}.rule.{i}" if dots else f"{uid}_{i}"
            rec.event("names with dots", dots and bool(case.get("several") or case["cli"]))
            ca.save_config(os.path.join(src, "ca_configs", name + ".npy"))
        names.append(name + ".npy")
    given = {}
    if case.get("default"):
        # documented default: orbium.npy
        names = ["orbium.npy"]
    elif not case["cli"] and rng.random() < 0.3:
        names[0] = str(rng.choice(shipped))
    template = len(names) > 1 or rng.random() < 0.5
    save = f"{uid}_ca_config_nca.pt" if template else f"{uid}_nca.pt"
    files = [os.path.join(src, "logs", save.replace("ca_config", n[:-4]) if template else save) for n in names]
    hid = int(rng.integers(2, 9))
    steps, iters = int(rng.integers(2, 9)), case.get("iterations", 1)
    thr = 1e30 if case.get("met") else 1e-9
    what = dict(names=names, save=save, hidden=hid, steps=steps, iterations=iters, threshold=thr)
    if case["cli"]:
        rec.event("command line")
        out = subprocess.run([sys.executable, "-m", "yuca.clone", "-d", "cpu", "-m", "2", "-hid", str(hid), "-i", "1", "-o", save, "-cc", *names], cwd=src, capture_output=True, text=True, timeout=600)
        if not rec.expect(out.returncode == 0, "command line cloning fails", err=out.stderr[-1500:], **what):
            return
        for n, f in zip(names, files):
            if rec.expect(os.path.exists(f), "a cloned automaton has no file of its own", file=f, have=[x for x in os.listdir(os.path.join(src, "logs")) if uid in x], **what):
                sd = torch.load(f, map_location="cpu")
                if not rec.expect(hasattr(sd, "keys"), "no network is saved", got=type(sd).__name__, **what):
                    continue
                with quiet():
                    ca = CCA(); ca.restore_config(n, verbose=False)
                    nca = NCA(internal_channels=1, external_channels=1, hidden_channels=hid)
                    nca.add_neighborhood_kernel(ca.neighborhood_kernels); nca.initialize_neighborhood_layer()
                    nca.load_state_dict(sd)
                rec.event("saved network")
                rec.expect(maxdiff(npa(nca.neighborhood_conv(tt(np.eye(9)[None, None], torch.float32))), npa(ca.neighborhood_conv(tt(np.eye(9)[None, None], torch.float32)))) < 1e-5, "a file is not the clone of its automaton", name=n, **what)
        return
    # record what is measured: (state, network, weights, answer) and (state, automaton, answer)
    nets, targets, sessions, owners = [], [], [], []

    class Net(NCA):
        def update_helper(self, grid):
            out = super().update_helper(grid)
            nets.append((npa(grid).copy(), {k: v.detach().clone() for k, v in self.state_dict().items()}, npa(out).copy(), self.hidden_channels))
            owners.append(self)
            return out

    class Aut(CCA):
        def restore_config(self, name, *a, **k):
            sessions.append((len(nets), str(name)))
            return super().restore_config(name, *a, **k)

        def update_helper(self, grid):
            out = super().update_helper(grid)
            targets.append((npa(grid).copy(), npa(out).copy()))
            return out
    if not case.get("default"):
        given["ca_config"] = list(names) if len(names) > 1 or rng.random() < 0.5 else names[0]
    else:
        rec.event("no automaton named")
    opts = dict(hidden_channels=hid, max_hidden_channels=int(rng.choice([hid, 64])), max_steps=steps, max_iterations=iters, batch_size=int(rng.integers(1, 4)),
                learning_rate=float(rng.choice([1e-3, 3e-2, 0.3])), device="cpu", verbose=bool(rng.integers(2)))
    clone.NCA, clone.CCA = Net, Aut
    try:
        with quiet():
            if case.get("between"):
                # a threshold that is met after some steps, in some iterations
                clone.clone_from_ca(**given, save_name=save, error_threshold=1e-9, **opts)
                seen = []
                for (g, _, p, _) in nets:
                    near = [t for gg, t in targets if gg.shape == g.shape and maxdiff(g, gg) == 0]
                    seen.append(error(p, near[0]) if near else 1.0)
                seen = sorted(seen)
                i = int(rng.integers(1, len(seen)))
                thr = what["threshold"] = float((seen[i - 1] + seen[i]) / 2)
                for lst in (nets, targets, sessions, owners):
                    lst.clear()
                for f in files:
                    if os.path.exists(f):
                        os.remove(f)
            clone.clone_from_ca(**given, save_name=save, error_threshold=thr, **opts)
    finally:
        clone.NCA, clone.CCA = NCA, CCA
    if not rec.expect([n for _, n in sessions] == names and nets, "not one session per automaton", got=[n for _, n in sessions], **what):
        return
    rec.event("several automata", len(names) > 1); rec.event("several iterations", iters > 1)
    for k, (name, f) in enumerate(zip(names, files)):
        lo, hi = sessions[k][0], sessions[k + 1][0] if k + 1 < len(sessions) else len(nets)
        mine = nets[lo:hi]
        if not rec.expect(os.path.exists(f), "a cloned automaton has no file of its own", file=f, have=[x for x in os.listdir(os.path.join(src, "logs")) if uid in x], **what):
            continue
        rec.expect(1 <= len(mine) <= steps * iters, "number of networks measured", got=len(mine), **what)
        # the error of each network, against the automaton as configured
        with quiet():
            ca = CCA(); ca.restore_config(name, verbose=False)
        errs = []
        for g, sd, p, h in mine:
            rec.event("measured network")
            with torch.no_grad():
                gt = tt(g, torch.float32)
                t = npa(ca.update_helper(gt))
            rec.expect(any(maxdiff(t, tg) < 1e-5 and maxdiff(g, gg) == 0 for gg, tg in targets if gg.shape == g.shape), "not compared with the automaton to be cloned", **what)
            rec.expect(g.min() >= 0 and g.max() <= 1, "trained on states outside [0, 1]", **what)
            errs.append(error(p, t))
        met = min(errs) < thr
        rec.event("threshold met" if met else "threshold not met")
        # each iteration starts with a network of its own, and goes on until that network meets the threshold
        own = owners[lo:hi]
        starts = [i for i in range(len(own)) if i == 0 or own[i] is not own[i - 1]] + [len(own)]
        runs = [errs[a:b] for a, b in zip(starts, starts[1:])]
        rec.expect(len(runs) == iters, "number of iterations", got=len(runs), **what)
        rec.expect(mine[0][3] == hid, "the first network of an automaton has another size", got=mine[0][3], want=hid, **what)
        for run in runs:
            near = any(abs(e - thr) < 1e-3 * thr for e in run)
            below = [i for i, e in enumerate(run) if e < thr]
            if near:
                continue
            if below:
                rec.event("met after some steps", below[0] > 0)
                rec.expect(len(run) <= below[0] + 1, "goes on after the threshold is met", got=len(run), want=below[0] + 1, errors=run, **what)
            else:
                rec.expect(len(run) == steps, "stops before the last step", got=len(run), errors=run, **what)
        # a step of training is about as large as the learning rate given
        lr = opts["learning_rate"]
        sizes = [max(float((mine[i + 1][1][n] - mine[i][1][n]).abs().max()) for n in mine[i][1] if "weights" in n) for i in range(len(mine) - 1) if own[i] is own[i + 1]]
        if sizes:
            rec.event("size of steps")
            rec.expect(lr / 10 < sizes[0] < lr * 10, "training does not depend on the learning rate", got=sizes[:4], learning_rate=lr, **what)
        rec.event("met in some iterations only", len({min(run) < thr for run in runs}) > 1)
        rec.expect(len({m[1][n].numpy().tobytes() for m in mine for n in m[1] if "weights" in n}) > 1 or len(mine) == 1, "networks do not learn", **what)
        sd = torch.load(f, map_location="cpu")
        if not rec.expect(hasattr(sd, "keys"), "no network is saved", got=type(sd).__name__, **what):
            continue
        same_as = [i for i, (g, s, p, h) in enumerate(mine) if s.keys() == sd.keys() and all(s[n].shape == sd[n].shape and torch.equal(s[n], sd[n]) for n in s)]
        rec.event("saved network")
        best = min(errs)
        rec.event("not the last one", errs[-1] > best)
        if not rec.expect(same_as, "the saved network is none of those measured", errors=errs[:8], **what):
            continue
        rec.expect(min(errs[i] for i in same_as) <= best * (1 + 1e-4), "the saved network is not the best", saved=[errs[i] for i in same_as], best=best, at=int(np.argmin(errs)), **what)
        g, s, p, h = mine[same_as[0]]
        with quiet():
            fresh = NCA(internal_channels=ca.internal_channels, external_channels=ca.external_channels, hidden_channels=h)
            fresh.add_neighborhood_kernel(ca.neighborhood_kernels); fresh.initialize_neighborhood_layer()
            fresh.load_state_dict(sd)
            fresh.eval()
        mine_i = same_as[0]
        with torch.no_grad():
            a = npa(fresh.update_helper(tt(g, torch.float32)))
        rec.expect(a.shape == p.shape, "the restored network is another one", **what)
        rec.seen(name if "_" not in name else "", hid, fp(list(sd.values())[-1].numpy()))
    for n in names:
        if n.startswith(uid):
            os.remove(os.path.join(src, "ca_configs", n))
    for f in files:
        if os.path.exists(f):
            os.remove(f)
    rec.note({"names": names, "errors": errs[:6]})

"""Predictors of outcomes train towards them, and are measured and saved as they are."""
import os, sys, subprocess
import numpy as np
from gen import *

BUILD = True
LEVEL = "exploration"
RULE = ("one case = one predictor (layers, radius, channels, dropout) trained on generated data in a copy of the sources; answers and losses are recomputed in float64 from its "
        "weights, its saved weights and progress compared with it; distinct by weights after training")
MUST_SEE = ["learning rate", "answer", "trained", "validated", "no validation", "saved", "evaluated", "final report", "dropout", "several layers", "command line"]


def cases(tier, seed):
    q = tier == "quick"
    return [{"seed": seed * 100447 + 800 + i, "cli": True} for i in range(1 if q else 6)] + [{"seed": seed * 100447 + i, "val": i % 4 != 3, "layers": 1 + i % 3} for i in range(36 if q else 500)]


def model(p, x, layers):
    """the network with weights p, in float64"""
    from scipy.signal import correlate2d
    x = x.astype(float)
    for l in range(layers):
        w, b, w1, b1 = p[4 * l:4 * l + 4]
        r = w.shape[-1] // 2
        out = np.zeros_like(x)
        for n in range(x.shape[0]):
            h = np.stack([sum(correlate2d(np.pad(x[n, i], r), w[o, i], mode="valid") for i in range(x.shape[1])) + b[o] for o in range(w.shape[0])])
            h = np.maximum(h, 0)
            y = np.einsum("oi,ihw->ohw", w1[:, :, 0, 0], h) + b1[:, None, None]
            out[n] = 1 / (1 + np.exp(-y))
        x = x + out
    return x


def weights(net):
    return [npa(p).astype(float).copy() for p in net.parameters()]


def command(case, rec, rng):
    """the command trains on all but the first tenth of the data, and reports the errors of the networks it saves"""
    import torch
    src = os.environ["VERIF_SRC"]
    for d in ("logs", "models"):
        os.makedirs(os.path.join(src, d), exist_ok=True)
    n, epochs = int(rng.integers(20, 40)), int(rng.integers(1, 3))
    seeds = [int(v) for v in rng.choice(1000, 2, replace=False)][:1 if rng.random() < 0.7 else 2]
    # validation, training and test data of different difficulty
    def data(n, shift):
        x = rng.random((n, 1, 6, 6)).astype(np.float32)
        return x, (x + shift + rng.random((n, 1, 6, 6))).astype(np.float32)
    k = n // 10
    parts = {"val": data(k, 3.0), "train": data(n - k, 1.0), "test": data(int(rng.integers(4, 12)), -2.0)}
    name = "d%07d" % (case["seed"] % 10**7)
    for which, j in (("x", 0), ("y", 1)):
        torch.save(tt(np.concatenate([parts["val"][j], parts["train"][j]]), torch.float32), f"{name}_train_{which}.pt")
        torch.save(tt(parts["test"][j], torch.float32), f"{name}_test_{which}.pt")
    args = ["-i", f"{name}_train_x.pt", "-t", f"{name}_train_y.pt", "-m", str(epochs), "-s"] + [str(v) for v in seeds]
    r = subprocess.run([sys.executable, "-m", "yuca.step_predictor"] + args, capture_output=True, text=True, timeout=600)
    if not rec.expect(r.returncode == 0, "the command fails", args=args, err=r.stderr[-1500:]):
        return
    rec.event("command line")
    reports = sorted(f for f in os.listdir(os.path.join(src, "logs")) if f.startswith(name) and f.endswith("_final.txt"))
    rec.expect(len(reports) == 3 * len(seeds), "not one report for each network", got=reports)
    for f in reports:
        tag = f[:-len("_final.txt")]
        sd = torch.load(os.path.join(src, "models", f"{tag}_model.pt"))
        p = [npa(v).astype(float) for v in sd.values()]
        progress = np.load(os.path.join(src, "logs", f"{tag}.npy"), allow_pickle=True).reshape(1)[0]
        rec.expect(list(progress["epochs"])[-1] == epochs - 1, "epochs of the progress", got=progress["epochs"], want=epochs)
        text = open(os.path.join(src, "logs", f)).read()
        vals = {w: float(line.split("loss:")[1]) for line in text.splitlines() for w in parts if f" {w} loss: " in line}
        L = len(p) // 4
        for w, (x, y) in parts.items():
            want = ((model(p, x, L) - y) ** 2).sum() / len(x)
            rec.expect(w in vals and abs(vals[w] - want) < 2e-3 * (1 + want), "final report of the command", which=w, got=vals.get(w), want=want, layers=L)
        rec.expect(abs(progress["val_loss"][-1] - vals.get("val", 0)) < 1e-3 * (1 + vals.get("val", 0)), "logged validation loss is not that of the network", got=progress["val_loss"])
        rec.seen("cli", L, fp(p[0], 4))
    for d in ("logs", "models"):
        for f in os.listdir(os.path.join(src, d)):
            if f.startswith(name):
                os.remove(os.path.join(src, d, f))
    rec.note({"args": args})


def run_case(case, rec):
    import torch
    from torch.utils.data import TensorDataset, DataLoader
    rng = rng_of(case)
    if case.get("cli"):
        return command(case, rec, rng)
    np.seterr(all="ignore")
    import yuca.step_predictor as sp
    src = os.environ["VERIF_SRC"]
    assert os.path.abspath(sp.__file__).startswith(os.path.abspath(src))
    for d in ("logs", "models"):
        os.makedirs(os.path.join(src, d), exist_ok=True)
    L, r, hid, ch = case["layers"], int(rng.integers(1, 3)), int(rng.integers(2, 5)), int(rng.integers(1, 3))
    drop = float(rng.choice([0.0, 0.1, 0.5]))
    seed, tag = int(rng.integers(1000)), f"v{case['seed']}x{os.getpid()}"
    kw = dict(layer_repeats=L, kernel_radius=r, hidden_channels=hid, out_channels=ch, dropout=drop, tag=tag, seed=seed)
    what = dict(kw)
    with quiet():
        net = sp.StepPredictor(**kw)
        twin = sp.StepPredictor(**kw)
        other = sp.StepPredictor(**{**kw, "seed": seed + 1})
    w0 = weights(net)
    rec.event("several layers", L > 1)
    if not rec.expect(len(w0) == 4 * L and w0[0].shape == (hid, ch, 2 * r + 1, 2 * r + 1), "size of the network", got=[w.shape for w in w0], **what):
        return
    rec.expect(all(np.array_equal(a, b) for a, b in zip(w0, weights(twin))), "the same seed gives another network", **what)
    rec.expect(any(not np.array_equal(a, b) for a, b in zip(w0, weights(other))), "another seed gives the same network", **what)
    n, h, w = int(rng.integers(4, 9)), int(rng.integers(5, 10)), int(rng.integers(5, 10))
    X = rng.random((n, ch, h, w)).astype(np.float32)
    Y = np.clip(X + rng.uniform(0.1, 0.9), 0, 2).astype(np.float32)
    bs = int(rng.integers(2, n + 1))
    tr = DataLoader(TensorDataset(tt(X, torch.float32), tt(Y, torch.float32)), batch_size=bs, shuffle=bool(rng.integers(2)))
    nv = int(rng.integers(2, 6))
    XV, YV = rng.random((nv, ch, h, w)).astype(np.float32), rng.random((nv, ch, h, w)).astype(np.float32)
    va = DataLoader(TensorDataset(tt(XV, torch.float32), tt(YV, torch.float32)), batch_size=int(rng.integers(1, nv + 1)))

    def loss(ws, x, y):
        return ((model(ws, x, L) - y) ** 2).sum() / len(x)

    def answers(net, ws, when):
        net.eval()
        with torch.no_grad():
            a = npa(net(tt(X, torch.float32)))
            b = npa(net(tt(X, torch.float32)))
        rec.event("answer")
        rec.expect(maxdiff(a, model(ws, X, L)) < 1e-4, "answer is not that of the network", error=maxdiff(a, model(ws, X, L)), when=when, **what)
        rec.expect(np.array_equal(a, b), "answers vary in evaluation mode", when=when, **what)
        return a
    answers(net, w0, "fresh")
    if drop == 0.5:
        rec.event("dropout")
        net.train()
        with torch.no_grad():
            rs = [npa(net(tt(X, torch.float32))) for _ in range(3)]
        if max(np.abs(npa(net.conv_layers[0](tt(X, torch.float32)))).max() for _ in [0]) > 1e-3 if hasattr(net, "conv_layers") else False:
            rec.expect(not np.array_equal(rs[0], rs[1]) or not np.array_equal(rs[1], rs[2]), "no dropout while training", **what)
    # evaluation
    with quiet():
        net.train()
        got = net.evaluate(va)
    rec.event("evaluated")
    want = loss(w0, XV, YV)
    net.eval()
    with quiet(), torch.no_grad():
        one = npa(net(tt(X, torch.float32)))
        again = net.evaluate(va)
        two = npa(net(tt(X, torch.float32)))
    rec.expect(np.array_equal(one, two), "evaluating changes the answers", error=maxdiff(one, two), **what)
    rec.expect(again == got, "evaluating twice gives different losses", got=again, want=got, **what)
    rec.expect(abs(got - want) < 1e-3 * (1 + want), "evaluation is not the mean squared error per sample", got=got, want=want, **what)
    rec.expect(all(np.array_equal(a, b) for a, b in zip(w0, weights(net))), "evaluating changes the network", **what)
    # training
    epochs = int(rng.integers(1, 7)) if case["val"] else int(rng.integers(1, 4))
    every = int(rng.integers(1, 4))
    lr = 0.01
    before = loss(w0, X, Y)
    x0, y0 = X.copy(), Y.copy()
    calls = []
    plain = net.forward

    def watched(x):
        y = plain(x)
        calls.append((net.training, torch.is_grad_enabled(), npa(x).copy(), npa(y).copy()))
        return y
    net.forward = watched
    with quiet():
        if case["val"]:
            net.fit(tr, val_dataloader=va, max_epochs=epochs, disp_every=every, lr=lr)
        else:
            rec.event("no validation")
            net.fit(tr, max_epochs=epochs, disp_every=every, lr=lr)
    del net.forward
    rec.event("trained")
    # it trains in training mode in every epoch, on all of the data once; and is validated in evaluation mode
    steps = [c for c in calls if c[1]]
    nb = -(-n // bs)
    rec.expect(len(steps) == epochs * nb and sum(len(c[2]) for c in steps) == epochs * n, "an epoch is not one pass over the data", steps=len(steps), want=epochs * nb, **what)
    rec.expect(all(c[0] for c in steps) and not any(c[0] for c in calls if not c[1]), "mode of the network while training or validating", **what)
    losses = []
    for c in steps:
        which = [int(np.argmin([np.abs(x - v).max() for v in X])) for x in c[2]]
        losses.append(float(np.mean((Y[which].astype(float) - c[3]) ** 2)))
    mine = [f for f in os.listdir(os.path.join(src, "logs")) if f.startswith(tag) and f.endswith(".npy")]
    if rec.expect(len(mine) == 1, "not one progress and one network on disk", logs=mine, **what):
        sm = np.load(os.path.join(src, "logs", mine[0]), allow_pickle=True).reshape(1)[0]["train_smooth_loss"]
        lo, hi = np.minimum.accumulate(losses), np.maximum.accumulate(losses)
        rec.expect(len(sm) == len(losses) and all(a - 1e-4 <= v <= b + 1e-4 for v, a, b in zip(sm, lo, hi)), "smooth loss is not between the losses so far", got=list(sm)[:6], want=losses[:6], **what)
    w1 = weights(net)
    # (hidden units that never respond do not learn)
    still = [i for i, (a, b) in enumerate(zip(w0, w1)) if np.array_equal(a, b)]
    rec.expect(not any(i % 4 == 3 for i in still) and 2 * len(still) < len(w0), "a part of the network is not trained", unchanged=still, **what)
    rec.expect(all(np.array_equal(a, b) for a, b in zip(w0, weights(twin))), "training changes another network", **what)
    with quiet():
        for _ in range(3):
            net.fit(tr, val_dataloader=va, max_epochs=10, disp_every=100, lr=lr)
    w2 = weights(net)
    rec.expect(loss(w2, X, Y) < before, "training does not approach the targets", before=before, after=loss(w2, X, Y), **what)
    rec.expect(np.array_equal(X, x0) and np.array_equal(Y, y0), "training changes the data", **what)
    # the progress and the network on disk are those of the last training
    logs = [f for f in os.listdir(os.path.join(src, "logs")) if f.startswith(tag) and f.endswith(".npy")]
    models = [f for f in os.listdir(os.path.join(src, "models")) if f.startswith(tag)]
    rec.event("saved", len(models))
    if rec.expect(len(logs) == 1 and len(models) == 1, "not one progress and one network on disk", logs=logs, models=models, **what):
        sd = torch.load(os.path.join(src, "models", models[0]))
        fresh = sp.StepPredictor(**{**kw, "seed": seed + 5})
        fresh.load_state_dict(sd)
        rec.expect(all(np.array_equal(a, b) for a, b in zip(w2, weights(fresh))), "the saved network is not the trained one", **what)
        rec.expect(np.array_equal(answers(fresh, w2, "restored"), answers(net, w2, "trained")), "the restored network answers otherwise", **what)
        p = np.load(os.path.join(src, "logs", logs[0]), allow_pickle=True).reshape(1)[0]
        rec.event("validated")
        rec.expect(list(p["epochs"]) == [0, 9] and len(p["val_loss"]) == 2, "epochs of the progress", got=p["epochs"], **what)
        rec.expect(abs(p["val_loss"][-1] - loss(w2, XV, YV)) < 1e-3 * (1 + loss(w2, XV, YV)), "logged validation loss is not that of the network", got=p["val_loss"][-1], want=loss(w2, XV, YV), **what)
        nb = -(-n // bs)
        rec.expect(len(p["train_smooth_loss"]) == 10 * nb == len(p["wall_time_t"]), "progress does not have an entry per batch", got=len(p["train_smooth_loss"]), want=10 * nb, **what)
        rec.expect(all(b >= a for a, b in zip(p["wall_time_t"], p["wall_time_t"][1:])), "time runs backwards", **what)
    # the learning rate given counts
    moved = []
    once = DataLoader(TensorDataset(tt(X, torch.float32), tt(Y, torch.float32)), batch_size=n)
    for rate in (0.1, 1e-2, 1e-5):
        with quiet():
            one = sp.StepPredictor(**kw)
            one.fit(once, max_epochs=1, disp_every=100, lr=rate)
        moved.append(max(np.abs(a - b).max() for a, b in zip(w0, weights(one))))
    with quiet():           # (what is on disk is that of the last training)
        for d in ("logs", "models"):
            for f in os.listdir(os.path.join(src, d)):
                if f.startswith(tag):
                    os.remove(os.path.join(src, d, f))
        net.fit(tr, val_dataloader=va, max_epochs=1, disp_every=100, lr=lr)
    w2 = weights(net)
    rec.event("learning rate")
    rec.expect(moved[0] > 4 * moved[1] > 400 * moved[2] > 0, "training does not depend on the learning rate", moved=moved, **what)
    with quiet():
        net.end_evaluate(tr, va, va)
    rec.event("final report")
    txt = [f for f in os.listdir(os.path.join(src, "logs")) if f.startswith(tag) and f.endswith("_final.txt")]
    if rec.expect(len(txt) == 1, "not one final report", got=txt, **what):
        text = open(os.path.join(src, "logs", txt[0])).read()
        vals = {}
        for line in text.splitlines():
            for k in ("train", "val", "test"):
                if f" {k} loss: " in line:
                    vals[k] = float(line.split("loss:")[1])
        for k, (x, y) in {"train": (X, Y), "val": (XV, YV), "test": (XV, YV)}.items():
            want = loss(w2, x, y)
            rec.expect(k in vals and abs(vals[k] - want) < 1e-3 * (1 + want), "final report", which=k, got=vals.get(k), want=want, **what)
    for d in ("logs", "models"):
        for f in os.listdir(os.path.join(src, d)):
            if f.startswith(tag):
                os.remove(os.path.join(src, d, f))
    rec.seen(L, r, hid, ch, fp(w2[0], 4))
    rec.note({**what, "loss": [before, loss(w2, X, Y)]})

"""Freezing, gradients and saved weights of automata."""
import io
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one automaton (kind, rule, weights) frozen and used, its saved weights restored in another one, and, if neural, unfrozen, its gradients compared with "
        "differences of its steps in double precision; distinct by steps")
MUST_SEE = ["as made", "frozen", "restored weights", "gradient", "other weights before", "descent", "several channels", "gradient of the state", "several steps"]


def cases(tier, seed):
    q = tier == "quick"
    kinds = ["CCA", "NCA", "Lenia", "NCA", "CODE", "NCA", "MetaCA", "NCA", "RxnDfn"]
    return [{"seed": seed * 100469 + i, "ca": kinds[i % 9]} for i in range(90 if q else 1500)]


def run_case(case, rec):
    import torch
    rng = rng_of(case)
    np.seterr(all="ignore")
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"])
    kind = case["ca"]
    act = str(rng.choice(["Tanh", "SiLU", "Sigmoid", "Gaussian", "Identity"]))
    kw = dict(kernel_radius=2, kernel_peaks=int(rng.integers(1, 3)))
    if kind == "NCA":
        kw.update(hidden_channels=int(rng.integers(2, 7)), external_channels=int(rng.integers(1, 4)), internal_channels=int(rng.integers(1, 3)), activation=act, dropout_rate=0.2)
        if rng.random() < 0.5:
            kw["internal_channels"] = kw["external_channels"]
    with quiet():
        def new():
            if kind in ("NCA", "RxnDfn"):
                return build(kind, **kw)
            return from_config(kind, cfg)
        if kind not in ("NCA", "RxnDfn"):
            ext = int(rng.choice([1, 1, 2])) if kind != "MetaCA" else 1
            cfg = config(rng, internal=ext * int(rng.choice([1, 2, 3])), external=ext, rmax=3)
        a, b = new(), new()
        what = dict(ca=kind, **kw)
        ch = a.external_channels
        # (growth saturates where neighborhoods are far from the middle of its range)
        g = tt(state(rng, 2, ch, 8, 9, "uniform")[1] * (np.arange(1, 10) / 9.0) ** float(rng.choice([0, 1, 2])))

        def step(ca):
            ca.eval()
            ca.reset()
            return ca(g.clone())
        rec.event("several channels", a.internal_channels > 1 and kind != "NCA")
        p0 = np.array(a.get_params(), dtype=np.float64)
        pa, pb = p0 * (1 + 0.3 * rng.random(p0.shape)), p0 * (1 + 0.3 * rng.random(p0.shape))
        if kind == "NCA":
            pa[:-3] *= rng.choice([-1, 1], len(pa) - 3)
        # automata track no gradients until they are unfrozen
        plain = build(kind, **{**kw, **({"external_channels": 2} if kind == "RxnDfn" else {})})
        y = plain(tt(rng.random((1, plain.external_channels, 8, 9))))
        rec.expect(not y.requires_grad, "an automaton tracks gradients without being unfrozen", **what)
        c = new()
        made = [lambda: c.set_params(pa), lambda: c.to_device("cpu"), lambda: c.load_config(c.make_config()), lambda: None]
        for j in rng.permutation(4)[:2]:
            made[j]()
            y = step(c)
            rec.event("as made")
            rec.expect(not y.requires_grad, "an automaton tracks gradients without being unfrozen", **what)
        # frozen, whatever it went through
        how = [lambda: a.no_grad(), lambda: a.set_params(pa), lambda: a.to_device("cpu"), lambda: step(a)]
        a.set_params(pa)
        for j in rng.permutation(4):
            how[j]()
        a.no_grad()
        y = step(a)
        rec.event("frozen")
        rec.expect(not y.requires_grad and y.grad_fn is None, "a step of a frozen automaton keeps track of gradients", **what)
        rec.expect(not any(p.requires_grad for p in a.parameters()), "parameters of a frozen automaton are not frozen", **what)
        if kind == "RxnDfn":
            rec.seen(kind, fp(npa(y)))
            return
        # saved weights make another automaton of the same make the same
        if rng.random() < 0.6:
            rec.event("other weights before")
            b.set_params(pb)
        yb = step(b)
        buf = io.BytesIO()
        torch.save(a.state_dict(), buf)
        buf.seek(0)
        b.load_state_dict(torch.load(buf))
        rec.event("restored weights")
        e = maxdiff(npa(step(b)), npa(y))
        rec.expect(e < 1e-9, "restored weights evolve otherwise", error=e, before=maxdiff(npa(yb), npa(y)), **what)
        if kind != "NCA":
            # (the kernel's parameters are no weights)
            k = sum(p.numel() for f in list(a.genesis_fns) + list(a.persistence_fns) for p in f.parameters())
            pr = np.array(b.get_params(), dtype=np.float64)[:k]
            rec.expect(maxdiff(pr, pa[:k]) < 1e-9, "restored weights are not those saved", got=pr, want=pa[:k], **what)
        rec.expect(maxdiff(npa(step(a)), npa(y)) == 0, "saving weights changes the automaton", **what)
        rec.seen(kind, fp(npa(y)))
        if kind != "NCA":
            return
        # and stay its own
        b.set_params(pb)
        rec.expect(maxdiff(npa(step(a)), npa(y)) == 0, "restored weights stay tied to the automaton they came from", **what)
        # gradients
        a.yes_grad(); a.eval()
        rec.expect(maxdiff(npa(step(a)), npa(y)) < 1e-12, "unfreezing changes the step", **what)
        wts = list(a.weights_layer.parameters())
        rec.expect(wts and all(p.requires_grad for p in wts), "weights are not unfrozen", **what)
        cot = tt(rng.normal(0, 1, (2, ch, 8, 9)))
        g = g * 0.4 + 0.3                   # away from the limits
        a.set_dt(0.05)

        def scalar():
            a.reset()
            return (a(g.clone()) * cot).sum()
        for p in wts:
            p.grad = None
        scalar().backward()
        for p in wts:
            rec.event("gradient")
            if not rec.expect(p.grad is not None, "no gradient", **what):
                return
            for _ in range(3):
                k = tuple(int(rng.integers(n)) for n in p.shape)
                v, h = p.data[k].item(), 1e-6
                with torch.no_grad():
                    p.data[k] = v + h; up = scalar().item()
                    p.data[k] = v - h; dn = scalar().item()
                    p.data[k] = v
                num = (up - dn) / (2 * h)
                rec.expect(abs(num - p.grad[k].item()) < 1e-4 * (1 + abs(num)) + 2e-3 * abs(num), "gradient is not the derivative of the step", got=p.grad[k].item(), want=num, act=act, **what)
        # of the state, and through several steps
        for n in (1, int(rng.integers(2, 4))):
            def through(x):
                a.reset()
                for _ in range(n):
                    x = a(x)
                return (x * cot).sum()
            x = g.clone().requires_grad_(True)
            for p in wts:
                p.grad = None
            through(x).backward()
            rec.event("gradient of the state"); rec.event("several steps", n > 1)
            if not rec.expect(x.grad is not None, "no gradient of the state", steps=n, **what):
                return
            with torch.no_grad():
                # along random directions, and of single weights
                for _ in range(3):
                    v, h = tt(rng.normal(0, 1, tuple(x.shape))), 1e-6
                    num = (through(x + h * v).item() - through(x - h * v).item()) / (2 * h)
                    got = (x.grad * v).sum().item()
                    rec.expect(abs(num - got) < 1e-4 * (1 + abs(num)) + 2e-3 * abs(num), "gradient of the state is not the derivative of the step", got=got, want=num, act=act, steps=n, **what)
                dirs = [tt(rng.normal(0, 1, tuple(p.shape))) for p in wts]
                val = []
                for s in (1e-6, -1e-6):
                    for p, v in zip(wts, dirs):
                        p += s * v
                    val.append(through(x).item())
                    for p, v in zip(wts, dirs):
                        p -= s * v
                num, got = (val[0] - val[1]) / 2e-6, sum((p.grad * v).sum().item() for p, v in zip(wts, dirs))
                rec.expect(abs(num - got) < 1e-4 * (1 + abs(num)) + 2e-3 * abs(num), "gradient through several steps is not their derivative", got=got, want=num, act=act, steps=n, **what)
        for p in wts:
            p.grad = None
        scalar().backward()
        with torch.no_grad():
            before = scalar().item()
            n2 = sum((p.grad ** 2).sum().item() for p in wts)
            for p in wts:
                p -= 1e-4 / (1e-9 + n2 ** 0.5) * p.grad
            after = scalar().item()
        rec.event("descent")
        rec.expect(after < before or n2 < 1e-10, "a step against the gradient does not descend", before=before, after=after, **what)
        a.no_grad()
        y = scalar()
        rec.expect(not y.requires_grad, "freezing again keeps gradients", **what)
    rec.note({**what, "gradient_norm": n2 ** 0.5})

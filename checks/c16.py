"""Shipped rules and patterns: every config restores as written, gliders glide."""
import os, glob
import numpy as np
import ref
from gen import *

LEVEL = "exploration"
RULE = ("one case = one shipped config, zoo entry or built-in pattern, placed and rotated at random on a random torus: each step is "
        "compared with an independent model of the rule in the file, and mass and path of the pattern are followed; distinct by final state")
MUST_SEE = ["config", "zoo pattern", "built-in pattern", "model step", "folders of the working directory"]
REPO = os.environ.get("VERIF_REPO", "/repo")

# patterns that survive at least the given number of steps, and how far they get (half of it suffices)
MOBILE = {
    "discutium_solidus_6wide_waveglider000": (200, 92), "discutium_valvatus_5wide_waveglider000": (200, 94), "frog000": (200, 200),
    "geminium000": (200, 80), "geminium_hydrogeminium_natans000": (200, 80), "geminium2_wobble_glider000": (200, 145),
    "gol_25P3H1V0_1000": (200, 66), "gol_large_spaceship000": (200, 100), "gol_medium_spaceship000": (200, 100),
    "gol_reflex_glider000": (200, 70), "gol_small_spaceship000": (200, 100), "neuroreflex_glider000": (120, 42),
    "neurorbium000": (60, 20), "neurosynorbium000": (150, 85), "o_bicaudatus_ignis_orbium000": (200, 120), "o_bicaudatus_orbium000": (200, 116),
    "orbium_orbium000": (200, 120), "p_arcus_labens_fixed_5wide_waveglider000": (150, 134), "p_arcus_saliens_ignis_5wide_waveglider000": (200, 93),
    "p_cavus_labens_4wide_waveglider000": (200, 86), "p_sinus_labens_6wide_waveglider000": (150, 60), "s113_amorphous_changing_glider000": (150, 38),
    "s11_config_evolved_ca_slow_glider000": (200, 41), "s613_fast_wobble_glider000": (150, 350), "s613_s613_frog000": (200, 194),
    "s643_s643_3wide_wobble_glider000": (150, 340), "s643_s643_frog000": (200, 210), "s7_config_spiky_frog_egg000": (200, 0),
    "scutium_gravidus_single000": (200, 289), "scutium_solidus_5wide_waveglider000": (150, 67), "scutium_valvatus_3wide_glider000": (200, 91),
    "smoothlife_single_glider000": (150, 280), "synorbium_orbium000": (200, 120), "triscutium_solidus_triscutium000": (150, 56),
    "vagoptera_duorbium000": (150, 150), "uskate_berrycup000": (200, 0), "uskate_daedalus000": (200, 0), "uskate_glider000": (200, 0)}


def cases(tier, seed):
    configs = sorted(os.path.basename(p) for p in glob.glob(REPO + "/ca_configs/*.npy"))
    zoo = sorted(os.path.basename(p)[:-4] for p in glob.glob(REPO + "/yuca/zoo/*.npy"))
    out = []
    n = 1 if tier == "quick" else 6
    for rep in range(n):
        for i, z in enumerate(zoo):
            out.append({"seed": seed * 100213 + i + 977 * rep, "zoo": z, "f64": int((i + rep + seed) % 4 == 0 and "neuro" not in z and "uskate" not in z), "model": 4 if tier == "quick" else 20, "long": 50 if tier == "quick" else 200})
        for i, b in enumerate(["orbium", "geminium", "glider", "puffer"]):
            out.append({"seed": seed * 100213 + 500 + i + 977 * rep, "builtin": b, "f64": (i + rep) % 2})
        for i, c in enumerate(configs):
            out.append({"seed": seed * 100213 + 700 + i + 977 * rep, "config": c, "f64": 1})
    # big ones first
    return sorted(out, key=lambda c: 0 if "zoo" in c else 1)


def kind_of(c):
    return "RxnDfn" if "diffusion_u" in c else ("NCA" if "params" in c else "CCA")


def model_step(c, ca, x, threshold=0.1):
    kind = kind_of(c)
    if kind == "RxnDfn":
        kern = ref.kernel(c["neighborhood_kernel_config"])
        p = ref.arr(c["params"]).ravel()
        get = lambda k, d: float(ref.arr(c.get(k, d)).ravel()[0])
        return ref.gray_scott(x, *p, get("dx", 1 / 330.), get("dt", 0.5), kern)
    ik = c.get("instant_kwargs", {})
    internal, ext, mode = ik.get("internal_channels", 1), ik.get("external_channels", 1), ik.get("conv_mode", "circular")
    if kind == "NCA":
        kc = dict(c["neighborhood_kernel_config"])
        kern = ref.kernel(kc)
        return ref.nca_step(x, ref.arr(c["params"]), kern, ext, internal, ik.get("hidden_channels", 256), ik.get("activation", "Gaussian"),
                            float(ref.arr(c.get("dt", 0.1)).ravel()[0]), mode)
    return ref.cca_step(x, c, internal=internal, mode=mode)


def com(m):
    out = []
    for ax in (0, 1):
        n = m.shape[ax]
        a = (m.sum(1 - ax) * np.exp(2j * np.pi * np.arange(n) / n)).sum()
        out.append(np.angle(a) / (2 * np.pi) * n)
    return np.array(out)


def restore(name, kind, rec):
    """restored by name, wherever the program runs"""
    # files from before instantiation kwargs were saved along need to know the size of the network
    ca = build(kind, **({"hidden_channels": 256} if kind == "NCA" else {}))
    ca.restore_config(name)
    ca.no_grad(); ca.eval()
    return ca


def follow(ca, g, steps, bg):
    ch = g.shape[1] - 1
    m = np.abs(npa(g)[0, ch] - bg)
    last, disp, masses = com(m), np.zeros(2), [m.sum()]
    d = np.array(m.shape)
    for t in range(steps):
        g = ca(g)
        m = np.abs(npa(g)[0, ch] - bg)
        masses.append(m.sum())
        if m.sum() < 1e-3:
            break
        c = com(m)
        disp += (c - last + d / 2) % d - d / 2
        last = c
    return g, np.hypot(*disp), masses, disp


def run_case(case, rec):
    import torch
    if case["f64"]:
        torch.set_default_dtype(torch.float64)
    rng = rng_of(case)
    with quiet():
        if "config" in case:
            c = np.load(f"{REPO}/ca_configs/{case['config']}", allow_pickle=True).reshape(1)[0]
            kind = kind_of(c)
            if rng.random() < 0.5:
                # a working directory with folders of its own
                rec.event("folders of the working directory")
                for d in ("ca_configs", "configs", "zoo", "logs"):
                    os.makedirs(d, exist_ok=True)
                np.save("ca_configs/something_else.npy", {"no": "config"})
            ca = restore(case["config"] + ("\n" if rng.random() < 0.3 else ""), kind, rec)
            rec.event("config")
            ext = c.get("instant_kwargs", {}).get("external_channels", 2 if kind == "RxnDfn" else 1)
            rec.expect(ca.external_channels == ext, "channels differ from those in the file", file=case["config"])
            r = c["neighborhood_kernel_config"]["radius"]
            d = max(2 * r + 2, 24)
            for k in range(3):
                g = tt(state(rng, 1, ext, d, d + int(rng.integers(3)), kind=["uniform", "blob", "binary"][k])[1])
                want = model_step(c, ca, npa(g))
                got = npa(ca(g))
                rec.event("model step")
                rec.expect(maxdiff(got, want) < 1e-4, "restored rule differs from the one in the file", file=case["config"], diff=maxdiff(got, want), ca=kind)
                rec.seen(case["config"], fp(got))
            # the pair of a path and a default directory: the nearer file counts
            if kind == "CCA" and "dt" in c or rng.random() < 0.5:
                c2 = dict(c, dt=0.0123) if kind != "RxnDfn" else dict(c, dt=0.123)
                np.save(case["config"], c2)
                b = build(kind); b.restore_config(case["config"])
                rec.expect(abs(b.get_dt() - c2["dt"]) < 1e-6, "a file in the working directory is ignored", file=case["config"])
            return
        if "builtin" in case:
            import yuca.patterns as P
            from yuca.configs import get_orbium_config, get_geminium_config
            rec.event("built-in pattern")
            b = case["builtin"]
            if b == "orbium":
                ca = from_config("CCA", get_orbium_config()); pat, steps, far = P.get_orbium(), 200, 120
            elif b == "geminium":
                ca = from_config("CCA", get_geminium_config()); pat, steps, far = P.get_geminium(), 150, 55
            elif b == "glider":
                ca = restore("conway_life.npy", "CCA", rec); pat, steps, far = P.get_glider(), 200, 70
            else:
                ca = restore("morley.npy", "CCA", rec); pat, steps, far = P.get_puffer(), 0, 0
            ca.no_grad()
            name = b
        else:
            from yuca.zoo.librarian import Librarian
            name = case["zoo"]
            lib = Librarian(verbose=False)
            rec.expect(name in lib.index, "zoo entry missing from the index", name=name)
            pat, meta = lib.load(name)
            rec.event("zoo pattern")
            cfgs = glob.glob(f"{REPO}/ca_configs/**/{meta['ca_config']}", recursive=True)
            rec.expect(len(cfgs) > 0, "zoo entry names a config that is not shipped", name=name, config=meta["ca_config"])
            if not cfgs:
                return
            c = np.load(sorted(cfgs, key=len)[0], allow_pickle=True).reshape(1)[0]
            ca = restore(meta["ca_config"], kind_of(c), rec)
            steps, far = MOBILE.get(name, (0, 0))
        pat = np.asarray(pat, np.float64)
        pat = pat.reshape((1,) * (4 - pat.ndim) + pat.shape)
        k = int(rng.integers(4))
        pat = np.rot90(pat, k, (2, 3))
        if rng.random() < 0.5:
            pat = pat[..., ::-1]
        h, w = pat.shape[2:]
        r = ca.get_kernel_radius()
        d = max(96, 2 * max(h, w), 4 * r)
        if r > 20 or name.startswith(("uskate", "neuro")):
            n = case.get("long", 60)
            steps, far = min(steps, n), far * min(steps, n) / max(steps, 1)
        H, W = d, d
        g0 = ca.initialize_grid(batch_size=1, dim=[H, W])
        bg = float(g0[0, -1, 0, 0])
        g = g0.clone()
        g[:, :, :h, :w] = torch.tensor(pat.copy(), dtype=g.dtype)
        sy, sx = int(rng.integers(H)), int(rng.integers(W))
        g = torch.roll(g, (sy, sx), (2, 3))
        if "zoo" in case:
            u = g.clone()
            for t in range(case["model"]):
                want = model_step(c, ca, npa(u))
                u = ca(u)
                rec.event("model step")
                if not rec.expect(maxdiff(npa(u), want) < (1e-5 if case["f64"] else 2e-3), "step differs from the rule in the file", name=name, step=t,
                                  diff=maxdiff(npa(u), want)):
                    break
        if steps:
            ca.reset()
            g1, moved, masses, disp = follow(ca, g, steps, bg)
            rec.expect(min(masses) > 0.3 * masses[0] and max(masses) < 3.5 * masses[0], "pattern does not survive", name=name, steps=len(masses) - 1,
                       mass=(masses[0], min(masses), max(masses)))
            rec.expect(moved >= 0.5 * far, "pattern does not travel", name=name, moved=moved, far=far)
            if name.startswith("gol_"):
                rec.expect(set(np.round(masses)) <= set(range(1, 40)), "Life pattern is not discrete", name=name)
            rec.seen(name, fp(npa(g1), 3))
            rec.note({"pattern": name, "grid": [H, W], "rotated": k, "moved": [float(v) for v in np.round(disp, 2)], "mass": [float(masses[0]), float(masses[-1])]})
        elif case.get("builtin") == "puffer":
            # Morley puffer: mirror symmetric, moves on and leaves debris; population stays positive
            x = npa(g)
            from checks.c06 import life
            for t in range(60):
                x = life(np.round(x).astype(int), [3, 6, 8], [2, 4, 5])
                g = ca(g)
                rec.expect(maxdiff(npa(g), x) < 1e-3, "Morley generation differs", step=t)
            rec.expect(x.sum() > 0, "puffer vanished")
            rec.seen("puffer", fp(x))
        else:
            rec.seen(name, fp(npa(u), 3))

"""An animation shows the run of the automaton, state by state."""
import os
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one animation written to scratch directories, from a real automaton or a scripted one; its frames and durations are read back and compared "
        "with the states of the same run computed apart from it; distinct by colours of the frames")
MUST_SEE = ["frame", "one channel", "two channels", "three channels", "four channels", "more channels", "speedup", "vanishes", "long", "inverted", "plain", "nothing to show", "real automaton", "leftover frames", "comes to rest", "repeats itself", "another animation"]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(120 if q else 1500):
        out.append({"seed": seed * 100297 + i, "what": ["real", "script", "script"][i % 3], "channels": [1, 1, 2, 3, 1][i % 5], "long": i % 10 == 0, "van": i % 4 == 1,
                    "stale": i % 6 == 2, "nca": i % 9 == 0, "again": i % 8 == 3, "rest": [0, 0, 0, 1, 0, 2, 0][i % 7]})
    for i in range(12 if q else 150):
        out.append({"seed": seed * 100297 + 7000 + i, "what": "script", "channels": [4, 5][i % 2], "long": i % 10 == 0, "van": i % 4 == 1, "stale": i % 6 == 2, "nca": False, "again": False, "rest": [0, 1, 0][i % 3]})
    return out


def colours(x, cmap, invert):
    """what a state (channels, h, w) looks like"""
    c = x.shape[0]
    if c == 1:
        img = 255 * np.asarray(cmap(np.clip(x[0], 0, 1)))[..., :3]
    elif c == 2:
        img = 255 * np.stack([np.zeros_like(x[0]), x[0], x[1]], -1)
    else:
        img = 255 * x[:3].transpose(1, 2, 0)
    return 255 - img if invert else img


def run_case(case, rec):
    import torch
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from PIL import Image
    from yuca.utils import save_fig_sequence
    rng = rng_of(case)
    np.seterr(all="ignore")
    ch, h, w = case["channels"], int(rng.integers(6, 14)), int(rng.integers(6, 14))
    steps = int(rng.integers(2, 9)) if not case["long"] else int(rng.choice([11, 51, 60, 101, 112]))
    speed = int(rng.choice([1, 1, 2, 3]))
    invert = bool(rng.random() < 0.6)
    cname = str(rng.choice(["magma", "magma", "viridis", "gray"]))
    what = dict(what=case["what"], channels=ch, steps=steps, speed=speed, invert=invert, size=(h, w), cmap=cname)
    batch = int(rng.integers(1, 3))
    vanish_at = int(rng.integers(0, 4)) if case["van"] else None
    with quiet():
        if case["what"] == "real":
            rec.event("real automaton")
            if case["nca"]:
                torch.manual_seed(case["seed"])
                from yuca.ca.neural import NCA
                ca = NCA(external_channels=ch, internal_channels=2, kernel_radius=2, kernel_peaks=1)
            else:
                ca = from_config("CCA", config(rng, internal=1 if ch == 1 else 2, external=ch, rmax=2))
            g0 = tt(state(rng, batch, ch, h, w, "uniform")[1], torch.float32)
        else:
            # far apart states, so that any two frames differ clearly
            tape = [tt(rng.choice([0.0, 0.25, 0.6, 1.0], (batch, ch, h, w)) if vanish_at is None or t < vanish_at * speed else np.zeros((batch, ch, h, w)), torch.float32) for t in range(steps * speed + 1)]
            if ch >= 4:
                # the fourth channel is opacity
                for t in tape:
                    t[:, 3] = 1.0 if float(t.max()) > 0 else 0.0
            if case["rest"] == 1 and vanish_at is None:
                # the run comes to rest
                rec.event("comes to rest")
                k = int(rng.integers(0, steps * speed))
                tape[k:] = [tape[k]] * (len(tape) - k)
            elif case["rest"] == 2 and vanish_at is None:
                # or repeats itself, perhaps with every frame
                rec.event("repeats itself")
                p = int(rng.choice([2, speed, speed + 1]))
                tape = (tape[:p] * len(tape))[:len(tape)]
            at = {t.numpy().tobytes(): i for i, t in reversed(list(enumerate(tape)))}

            class Ca(class_of("CCA")):
                def get_frame(self, x, mode=0):
                    i = at[x.detach().cpu().numpy().tobytes()]
                    return tape[min(i + 1, len(tape) - 1)].clone()

                def forward(self, x):
                    return self.get_frame(x)
            ca = Ca(kernel_radius=2, kernel_peaks=1, external_channels=ch)
            g0 = tape[0]
        # the run, apart from the animation
        want, x = [], g0.clone()
        with torch.no_grad():
            for t in range(steps):
                if float(x.max()) < 0.001:
                    break
                want.append(npa(x)[0].copy())
                for _ in range(speed):
                    x = ca.get_frame(x.clone(), mode=0)
        os.makedirs("out", exist_ok=True)
        open("out/keep.txt", "w").write("mine")
        gdir = "out/gifs"
        if case["stale"]:
            # left by an animation that was interrupted
            rec.event("leftover frames")
            os.makedirs("frames")
            import skimage.io as sio
            sio.imsave(f"frames/frame_{max(0, len(want) + int(rng.integers(0, 3))):05d}.png", (rng.random((h, w, 3)) * 255).astype(np.uint8), check_contrast=False)
            sio.imsave(f"frames/frame_{0:010d}.png", (rng.random((h, w, 3)) * 255).astype(np.uint8), check_contrast=False)
        keep = g0.clone()
        tag = "some_tag" if rng.random() < 0.6 else ["folder", "inner"]
        go = lambda: save_fig_sequence(g0, ca, num_steps=steps, frames_path="frames", gif_path=gdir, tag=tag, speedup=speed, cmap=plt.get_cmap(cname), invert_colors=invert)
        earlier, before = {}, int(rng.integers(1, 4))
        if case["again"]:
            # an animation of the same tag, made at the same part of a second
            import time
            real, now = time.time, time.time()
            time.time = lambda: now
            try:
                for _ in range(before):
                    go()
                    now += float(rng.integers(1, 9000))
                earlier = {os.path.join(r, f): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk("out") for f in fs if f != "keep.txt"}
                go()
            finally:
                time.time = real
            rec.event("another animation", bool(earlier))
        else:
            go()
    rec.expect(torch.equal(g0, keep), "an animation changes the state it starts from", **what)
    rec.expect(not os.path.isdir("frames") or not os.listdir("frames"), "frame files left behind", **what)
    rec.expect(open("out/keep.txt").read() == "mine", "other files touched", **what)
    gifs = [os.path.join(r, f) for r, _, fs in os.walk("out") for f in fs if f != "keep.txt"]
    for f, was in earlier.items():
        rec.expect(os.path.exists(f) and open(f, "rb").read() == was, "an earlier animation is overwritten", file=f, **what)
    if earlier:
        rec.expect(len(gifs) == before + 1, "an earlier animation is overwritten", files=gifs, **what)
        gifs = [f for f in gifs if f not in earlier]
    if len(want) == 0:
        rec.event("nothing to show")
        rec.expect(not gifs, "an animation of nothing", gifs=gifs, **what)
        return
    if vanish_at is not None and len(want) < steps:
        rec.event("vanishes")
    if len(want) == 1 and not gifs:
        return
    if not rec.expect(len(gifs) == 1 and gifs[0].endswith(".gif"), "not one animation", gifs=gifs, **what):
        return
    rec.expect(("some_tag" if type(tag) is str else "inner") in os.path.basename(gifs[0]) and ("some_tag" if type(tag) is str else "folder") in gifs[0].split(os.sep)[-2], "the animation does not carry its tag", gif=gifs[0], tag=tag, **what)
    rec.event({1: "one channel", 2: "two channels", 3: "three channels", 4: "four channels", 5: "more channels"}[ch])
    rec.event("speedup", speed > 1); rec.event("long", steps > 50); rec.event("inverted" if invert else "plain")
    im = Image.open(gifs[0])
    shown, last = [], None
    for i in range(im.n_frames):
        im.seek(i)
        f = np.asarray(im.convert("RGB"), float)
        shown.append((f, im.info["duration"]))
    # equal successive frames are merged into a longer one; the first is shown twice
    cmap = plt.get_cmap(cname)
    exp = [colours(s, cmap, invert) for s in want]
    if not rec.expect(all(f.shape == (h, w, 3) for f, _ in shown), "size of the frames", got=shown[0][0].shape, **what):
        return
    unit = min(d for _, d in shown)
    seq = []
    for f, d in shown:
        rec.event("frame")
        seq += [f] * int(round(d / unit)) if unit > 0 else [f]
    n = len(exp)
    tol = 12.0
    if case["what"] == "script":
        # the first picture once or twice, then every state once; states that stay are shown longer
        runs, got = [], []
        for e in exp:
            if runs and np.array_equal(runs[-1][0], e):
                runs[-1][1] += 1
            else:
                runs.append([e, 1])
        for f, d in shown:
            if got and np.array_equal(got[-1][0], f):
                got[-1][1] += d; got[-1][2] += 1
            else:
                got.append([f, d, 1])
        if not rec.expect(len(got) == len(runs), "number of frames", got=len(got), want=len(runs), **what):
            return
        for i, ((f, _, _), (e, _)) in enumerate(zip(got, runs)):
            err = np.abs(f - e).mean()
            rec.expect(err < tol, "a frame does not show its state", frame=i, error=err, nearest=int(np.argmin([np.abs(f - b).mean() for b in exp])), **what)
        # a time per frame that fits them all (durations are kept to a hundredth of a second)
        ok = False
        for again in (0, 1):
            lo = max((d - 10 * k) / (r + again * (i == 0)) for i, ((_, d, k), (_, r)) in enumerate(zip(got, runs)))
            hi = min((d + 10 * k) / (r + again * (i == 0)) for i, ((_, d, k), (_, r)) in enumerate(zip(got, runs)))
            ok |= lo <= hi
        rec.expect(ok, "states are not shown equally long", durations=[d for _, d, _ in got][:12], states=[r for _, r in runs][:12], **what)
    else:
        # successive states may be too alike to be told apart: only the course of the run
        j = 0
        for f, _ in shown:
            ds = [np.abs(f - b).mean() for b in exp[max(0, j - 1):]]
            k = max(0, j - 1) + int(np.argmin(ds))
            rec.expect(min(ds) < tol, "a frame does not show a state of the run", error=min(ds), **what)
            j = max(j, k if ds[k - max(0, j - 1)] + 1 < np.abs(f - exp[min(j, n - 1)]).mean() else j)
        rec.expect(np.abs(seq[0] - exp[0]).mean() < tol and np.abs(seq[-1] - exp[-1]).mean() < tol, "first or last frame", first=np.abs(seq[0] - exp[0]).mean(), last=np.abs(seq[-1] - exp[-1]).mean(), **what)
        # (durations are kept to a hundredth of a second)
        least = sum(d / (unit + 10) for _, d in shown)
        rec.expect(least <= n + 1.01, "more frames than states", got=least, want=n, **what)
    rec.seen(case["what"], ch, n, invert, seq[-1].tobytes())
    rec.note({**{k: str(v) for k, v in what.items()}, "states": n, "frames": len(shown)})

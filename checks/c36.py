"""The demo app browses and runs the patterns of the library."""
import os, re, runpy, shutil, tempfile, time
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one session of the demo app: buttons clicked and ticks given in random order, on the shipped library or on a made-up one; after each action the image, texts, "
        "step counter and timer are compared with a model of the session and with a fresh automaton; distinct by pattern shown and number of steps")
MUST_SEE = ["session", "next", "previous", "reset", "tick", "timer started", "timer stopped", "faster", "slower", "pattern passed over", "slowest", "fastest", "shipped library", "other library",
            "pattern without batch and channel dimensions", "whole library seen"]
MIN_CHECKS = 500
PER_CHILD = 1      # a session has its own process, as bokeh keeps documents of failed callbacks
CLICK = {"next": "Next pattern", "prev": "Previous pattern", "reset": "Reset current pattern", "faster": "Faster >>", "slower": "<< Slower"}


def cases(tier, seed):
    n = 36 if tier == "quick" else 320
    return [{"seed": seed * 100537 + i, "lib": "shipped" if i % 4 == 0 else "made", "how": "round" if i % 8 == 0 else "random", "back": i % 16 == 8,
             "actions": 60 if tier == "quick" else 150} for i in range(n)]


def made_library(rng, where):
    """a small library of made-up patterns, some of them with made-up rules"""
    import yuca
    zoo = os.path.join(os.path.dirname(yuca.__file__), "zoo")
    for e in (".npy", ".csv"):
        shutil.copy(os.path.join(zoo, "orbium_orbium000" + e), where)
    shipped = ["orbium.npy", "geminium.npy", "s613.npy", "conway_life.npy", "scutium_gravidus.npy", "smoothlife.npy", "p_cavus_labens.npy", "morley.npy"]
    for i in range(int(rng.integers(2, 9))):
        name = "".join(rng.choice(list("abcdefmnopqrstuvwxyz_"), int(rng.integers(1, 9)))) + f"{int(rng.integers(1000)):03}"
        h, w = int(rng.integers(1, 91)), int(rng.integers(1, 91))
        if rng.random() < 0.2:
            h, w = [(90, 90), (90, 3), (1, 1), (2, 89)][int(rng.integers(4))]
        p = rng.random((h, w)) * (1 if rng.random() < 0.5 else rng.random((h, w)) < 0.4)
        p[int(rng.integers(h)), int(rng.integers(w))] = 0.7
        if rng.random() < 0.3:
            p = (p > 0.5).astype(rng.choice(["float32", "int64", "uint8"]))
            p.flat[0] = 1
        if rng.random() < 0.75:
            p = p[None, None]
        rule = str(rng.choice(shipped))
        if rng.random() < 0.5:
            c = config(rng, 1, 1, rmax=9)
            if rng.random() < 0.5:
                del c["instant_kwargs"]      # older rules have none
            rule = os.path.join(where, f"rule_{i}_a.cfg.npy")
            np.save(rule, c)
            os.rename(rule, os.path.join(where, f"rule_{i}"))   # not a pattern
            rule = os.path.join(where, f"rule_{i}")
        commit = "none" if rng.random() < 0.3 else "%040x" % int(rng.integers(1 << 60))
        np.save(os.path.join(where, name + ".npy"), p)
        with open(os.path.join(where, name + ".csv"), "w") as f:
            f.write(f"ca_config,{rule}\ncommit_hash,{commit}\nnotes, {'made, up' if rng.random() < 0.5 else None}\nentry_point,Namespace(a={i}, b='x')")
    return where


class App:
    """the app, through its document: buttons, texts, image, timer"""

    def __init__(self, root):
        from bokeh.document import Document
        from bokeh.io.doc import set_curdoc
        self.doc = Document()
        set_curdoc(self.doc)
        self.globals = runpy.run_path(os.path.join(root, "gecco_bokeh_app", "main.py"))
        self.doc = __import__("bokeh.io").io.curdoc()
        from bokeh.models import Button, Paragraph
        from bokeh.models.glyphs import Image
        from bokeh.models import GlyphRenderer
        self.buttons = {b.label: b for b in list(self.doc.select({"type": Button}))}
        self.paragraphs = list(self.doc.select({"type": Paragraph}))
        self.renderers = [r for r in self.doc.select({"type": GlyphRenderer}) if isinstance(r.glyph, Image)]

    def click(self, label):
        from bokeh.events import ButtonClick
        b = self.buttons[label]
        b._trigger_event(ButtonClick(b))

    def run_button(self):
        return [b for b in self.buttons.values() if b.label in ("Run >", "Pause")][0]

    def timers(self):
        return list(self.doc.session_callbacks)

    def text(self):
        return "\n".join(p.text or "" for p in self.paragraphs)

    def images(self):
        r = self.renderers[0]
        field = r.glyph.image
        field = field.get("field") if isinstance(field, dict) else field
        return r.data_source.data[field]


def run_case(case, rec):
    import torch
    import yuca
    rng = rng_of(case)
    root = os.path.dirname(os.path.dirname(os.path.realpath(yuca.__file__)))
    scratch = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    import yuca.zoo.librarian as L
    real, sleep = L.Librarian, time.sleep
    lib_dir = os.path.join(root, "yuca", "zoo")
    slept = []
    try:
        if case["lib"] == "made":
            lib_dir = made_library(rng, scratch)

            class Local(real):
                def __init__(self, **kwargs):
                    kwargs.setdefault("directory", lib_dir)
                    super().__init__(**kwargs)
            L.Librarian = Local
        time.sleep = lambda s: slept.append(s)
        with quiet():
            drive(case, rec, rng, App(root), lib_dir, torch)
    finally:
        L.Librarian, time.sleep = real, sleep
        shutil.rmtree(scratch, ignore_errors=True)


def drive(case, rec, rng, app, lib_dir, torch):
    from yuca.ca.continuous import CCA
    rec.event("session")
    rec.event(("shipped" if case["lib"] == "shipped" else "other") + " library")
    names = sorted(f[:-4] for f in os.listdir(lib_dir) if f.endswith(".npy"))

    def meta(name):
        with open(os.path.join(lib_dir, name + ".csv")) as f:
            m = dict(l.rstrip("\n").split(",", 1) for l in f if "," in l)
        return dict({"entry_point": "none", "commit_hash": "none"}, **{k: v.strip() for k, v in m.items()})

    metas = {n: meta(n) for n in names}
    pats = {n: np.asarray(np.load(os.path.join(lib_dir, n + ".npy")), float) for n in names}
    fits = {n: p.size == p.shape[-1] * p.shape[-2] and max(p.shape[-2:]) <= 90 for n, p in pats.items()}
    at = len(names) - 1                        # the last of the list is shown first
    st = {"grid": None, "steps": 0, "running": False, "period": 512.0, "ca": None}
    shown_names = set()

    def image(what):
        ims = app.images()
        rec.expect(len(ims) == 1, "the figure has other than one image", n=len(ims), after=what)
        return np.array(ims[-1], float)

    def shows(name, what):
        p = pats[name].reshape(pats[name].shape[-2:])
        g = image(what)
        if not rec.expect(g.shape == (96, 96), "another size of the world", got=g.shape):
            return
        # somewhere around the middle
        nz = np.argwhere(g != 0)
        pz = np.argwhere(p != 0)
        ok = len(nz) == len(pz) and len(nz) > 0
        if ok:
            dy, dx = nz.min(0) - pz.min(0)
            want = np.zeros((96, 96))
            ok = dy >= 0 and dx >= 0 and dy + p.shape[0] <= 96 and dx + p.shape[1] <= 96
            if ok:
                want[dy:dy + p.shape[0], dx:dx + p.shape[1]] = p
                ok = maxdiff(g, want) < 1e-6
                rec.expect(abs(2 * dy + p.shape[0] - 96) <= 10 and abs(2 * dx + p.shape[1] - 96) <= 10, "the pattern is not in the middle", name=name, at=(dy, dx), size=p.shape)
        rec.expect(ok, "the world does not show the pattern", name=name, after=what, cells=len(nz), want=len(pz))
        m, t = metas[name], app.text()
        rec.expect(re.search(r"alias:\s*" + re.escape(name) + r"\s*(\n|$)", t), "another pattern is named", name=name, text=t)
        rule = m["ca_config"][:-4] if m["ca_config"].endswith(".npy") else m["ca_config"]
        for k, v in (("rule", rule), ("entry point", m["entry_point"]), ("commit", m["commit_hash"])):
            rec.expect(v in t, f"the {k} of the pattern is not shown", name=name, text=t, want=v)
        rec.expect(not any(metas[n]["commit_hash"] in t for n in names if metas[n]["commit_hash"] not in ("none", "not_specified", m["commit_hash"])
                           and not m["commit_hash"].startswith(metas[n]["commit_hash"])), "the commit of another pattern is shown", name=name, text=t)
        rec.seen(case["lib"], name, 0)
        if pats[name].ndim == 2:
            rec.event("pattern without batch and channel dimensions")
        shown_names.add(name)
        st["grid"], st["steps"] = torch.tensor(g).to(torch.get_default_dtype())[None, None], 0
        st["ca"] = CCA()
        st["ca"].restore_config(m["ca_config"])
        st["ca"].no_grad()

    def timers(what):
        t = app.timers()
        rec.expect(len(t) == (1 if st["running"] else 0), "another number of timers", n=len(t), running=st["running"], after=what)
        for c in t:
            rec.expect(abs(c.period - st["period"]) < 1e-6, "the timer has another period", got=c.period, want=st["period"], after=what)
        rec.expect(app.run_button().label == ("Pause" if st["running"] else "Run >"), "another label of the run button", running=st["running"], got=app.run_button().label)

    def browse(what):
        """the model of a click, and the click"""
        nonlocal at
        lost = False
        step = {"next": 1, "prev": -1, "reset": 0}[what]
        while True:
            at = (at + step) % len(names)
            name = names[at]
            if not fits[name] or (case["lib"] == "shipped" and name.startswith(("neuro", "uskate"))):
                # not shown, see the known findings
                lost = True
                break
            if step and metas[name]["commit_hash"] == "none":
                rec.event("pattern passed over")
                continue
            break
        rec.event({"next": "next", "prev": "previous", "reset": "reset"}[what])
        try:
            app.click(CLICK[what])
            err = None
        except Exception as e:
            err = e
        if lost:
            if err is None:
                # shown after all
                if f"alias: {names[at]}" not in app.text():
                    rec.bad("another pattern is named", name=names[at], text=app.text())
            else:
                rec.expect(case["lib"] != "shipped" or err is None, f"not-shown-{names[at]}", error=repr(err))
            st["grid"] = None
        elif rec.expect(err is None, "a pattern is not shown", name=names[at], error=repr(err), after=what):
            shows(names[at], what)
        else:
            st["grid"] = None
        timers(what)

    def go():
        app.run_button()
        label = app.run_button().label
        from bokeh.events import ButtonClick
        b = app.run_button()
        b._trigger_event(ButtonClick(b))
        st["running"] = not st["running"]
        rec.event("timer started" if st["running"] else "timer stopped")
        timers("run/pause")

    def speed(what):
        st["period"] = max(st["period"] / 2, 128.0) if what == "faster" else min(st["period"] * 2, 8192.0)
        rec.event(what)
        if st["period"] == 128:
            rec.event("fastest")
        if st["period"] == 8192:
            rec.event("slowest")
        app.click(CLICK[what])
        timers(what)

    def tick():
        before = np.array(app.images()[-1], float)
        app.timers()[0].callback()
        rec.event("tick")
        st["steps"] += 1
        with torch.no_grad():
            want = st["ca"](st["grid"])
        g = image("tick")
        if rec.expect(g.shape == (96, 96) and maxdiff(g, npa(want)[0, 0]) < 1e-5, "a step differs from that of the pattern's rule", name=names[at], step=st["steps"],
                      diff=maxdiff(g, npa(want)[0, 0]) if g.shape == (96, 96) else g.shape):
            rec.seen(case["lib"], names[at], st["steps"])
        st["grid"] = torch.tensor(g).to(torch.get_default_dtype())[None, None]
        m = re.search(r"Step\s+(\d+)", app.text())
        rec.expect(m and int(m.group(1)) == st["steps"], "another number of steps", got=m and m.group(1), want=st["steps"])
        m = re.search(r"period:\s*([\d.]+)\s*ms", app.text())
        rec.expect(m and abs(float(m.group(1)) - st["period"]) < 0.5, "another period is shown", got=m and m.group(1), want=st["period"])
        if not np.array_equal(before, g):
            rec.event("something moved")

    shows(names[at], "start")
    timers("start")
    if case["how"] == "round":
        what = "prev" if case["back"] else "next"
        go()
        for i in range(len(names) + 5 if not case["back"] else len(names) + 2):
            browse(what)
            if st["grid"] is not None:
                for _ in range(int(rng.integers(1, 4))):
                    tick()
            if rng.random() < 0.2:
                browse("reset")
                if st["grid"] is not None:
                    tick()
        want = {n for n in names if fits[n] and metas[n]["commit_hash"] != "none" and not n.startswith(("neuro", "uskate"))}
        rec.expect(want <= shown_names, "patterns are not in the round", missing=sorted(want - shown_names))
        rec.event("whole library seen")
        return
    weights = rng.dirichlet(np.ones(6) * 1.5)
    for i in range(case["actions"]):
        a = str(rng.choice(["next", "prev", "reset", "go", "speed", "tick"], p=weights))
        if a in CLICK:
            browse(a)
        elif a == "go":
            go()
        elif a == "speed":
            what = str(rng.choice(["faster", "slower"]))
            for _ in range(int(rng.integers(1, 8))):
                speed(what)
        else:
            if not st["running"]:
                go()
            if st["grid"] is not None:
                for _ in range(int(rng.integers(1, 6))):
                    tick()

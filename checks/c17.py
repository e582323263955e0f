"""The librarian keeps patterns and their metadata, and never overwrites."""
import os, hashlib
import numpy as np
from gen import *

LEVEL = "exploration"
RULE = ("one case = one zoo directory driven through a random history of stores (names, dtypes, shapes, metadata with separators and "
        "line breaks), loads, foreign files and reopened librarians, next to a dictionary model; distinct by stored contents")
MUST_SEE = ["store", "load", "reopen", "foreign", "many", "two librarians", "loaded pattern changed"]

NAMES = ["orbium", "orbium0", "my_pattern", "glider00", "a b", "x.npy", "npy", "frog.csv", "v1.2", "énorme", "s613-frog", "000", "p,q", "csv", "x.npy000", "A", "a"]
WORDS = ["orbium.npy", "notes, with, commas", "two\nlines", "", "python -m yuca.evolve -t 'x, y'", "3f2a9c\n", "tab\there", "ca_config,evil", "é ü", "windows\r\nline", "a,b\nentry_point,fake"]


def cases(tier, seed):
    n = 180 if tier == "quick" else 800
    return [{"seed": seed * 100271 + i, "ops": 25 if tier == "quick" else 60, "many": int(i % 20 == 7)} for i in range(n)]


def one_line(v):
    return " ".join(str(v).splitlines()).strip()


def pattern(rng):
    nd = int(rng.choice([2, 3, 4, 4, 4]))
    shape = tuple(int(v) for v in rng.integers(1, 9, nd))
    a = rng.random(shape)
    dt = str(rng.choice(["float64", "float32", "float16", "int64", "uint8", "bool"]))
    a = (a > 0.5) if dt == "bool" else (a * (200 if "int" in dt else 1)).astype(dt)
    return np.asfortranarray(a) if rng.random() < 0.2 else a


def snapshot(d):
    return {f: hashlib.md5(open(os.path.join(d, f), "rb").read()).hexdigest() for f in os.listdir(d)}


def run_case(case, rec):
    from yuca.zoo.librarian import Librarian
    rng = rng_of(case)
    d = os.path.abspath(str(rng.choice(["zoo", "my zoo.npy dir", "z"])))
    os.mkdir(d)
    open(os.path.join(d, "librarian.py"), "w").write("# not a pattern")
    model = {}
    with quiet():
        if case["many"]:
            # no variant is overwritten, however many there are
            arr = np.arange(4.0)
            for k in range(999):
                np.save(os.path.join(d, f"orbium{k:03}.npy"), arr)
            for k in range(999):
                open(os.path.join(d, f"orbium{k:03}.csv"), "w").write("ca_config,x\ncommit_hash,y\nnotes, z\nentry_point,w")
                model[f"orbium{k:03}"] = (arr, dict(ca_config="x", commit_hash="y", notes="z", entry_point="w"))
            rec.event("many")
        lib = Librarian(directory=d, verbose=bool(rng.integers(2)))
        # another librarian of the same library
        other = Librarian(directory=d, verbose=False) if case["seed"] % 3 == 0 and not case["many"] else None
        for s in range(case["ops"] if not case["many"] else 4):
            op = str(rng.choice(["store", "store", "store", "load", "load", "reopen", "foreign"])) if not case["many"] else "store"
            if other is not None and rng.random() < 0.5:
                rec.event("two librarians")
                lib, other = other, lib
            if op == "store":
                rec.event("store")
                before = snapshot(d)
                name = str(rng.choice(NAMES)) if not case["many"] else "orbium"
                p = pattern(rng)
                keep = p.copy()
                kw = {}
                word = lambda: WORDS[int(rng.integers(len(WORDS)))]
                given = str(rng.choice(["config_name", "ca_config", "both", "none"]))
                if given in ("config_name", "both"):
                    kw["config_name"] = word()
                if given in ("ca_config", "both"):
                    kw["ca_config"] = word()
                for key in ["commit_hash", "notes", "entry_point"]:
                    if rng.random() < 0.7:
                        kw[key] = word() if key != "entry_point" or rng.random() < 0.7 else ["evolve.py", ["-t", "x, y"], ["-s", "1"]]
                lib.store(p, pattern_name=name, **kw)
                rec.expect(np.array_equal(p, keep) and p.dtype == keep.dtype, "pattern modified by storing it")
                after = snapshot(d)
                gone = [f for f in before if after.get(f) != before[f]]
                rec.expect(not gone, "storing changes or removes files of other patterns", files=gone, name=name)
                new = sorted(f for f in after if f not in before)
                npy = [f for f in new if f.endswith(".npy")]
                if not rec.expect(len(npy) == 1 and sorted(new) == sorted([npy[0], npy[0][:-4] + ".csv"]), "storing does not add one pattern with metadata", new=new, name=name):
                    continue
                full = npy[0][:-4]
                # the lowest free number
                k = 0
                while f"{name}{k:03}" in model:
                    k += 1
                rec.expect(full == f"{name}{k:03}", "pattern stored under another name", got=full, want=f"{name}{k:03}")
                cfg = kw.get("config_name", kw.get("ca_config", "unspecified"))
                model[full] = (keep, {"ca_config": one_line(cfg), "commit_hash": one_line(kw.get("commit_hash", "not_specified")),
                                      "notes": one_line(kw.get("notes")), "entry_point": one_line(kw.get("entry_point", "not specified"))})
                if given == "both" and one_line(kw["config_name"]) == "unspecified":
                    pass
                check(rec, lib, full, model)
                rec.seen(full, fp(keep.astype(float)), model[full][1]["notes"])
            elif op == "load" and model:
                check(rec, lib, str(rng.choice(sorted(model))), model)
            elif op == "reopen":
                rec.event("reopen")
                lib = Librarian(directory=d, verbose=False)
                rec.expect(list(lib.index) == sorted(model), "index does not list exactly the stored patterns", got=lib.index, want=sorted(model))
            elif op == "foreign":
                rec.event("foreign")
                open(os.path.join(d, str(rng.choice(["README.md", "npy.txt", "frog.npy.bak", "x.csv"]))), "w").write("foreign")
            # (what another librarian has stored is not known before)
            if other is None or rng.random() < 0.3:
                lib.update_index()
            else:
                continue
            rec.expect(list(lib.index) == sorted(model), "index does not list exactly the stored patterns", got=lib.index, want=sorted(model))
        for name in (sorted(model) if not case["many"] else [k for k in sorted(model) if k > "orbium997"]):
            check(rec, lib, name, model)
        # cropping
        a = rng.random((int(rng.integers(1, 3)), int(rng.integers(1, 3)), 12, 15))
        keep = a.copy()
        r0, r1 = sorted(int(v) for v in rng.integers(0, 13, 2)); c0, c1 = sorted(int(v) for v in rng.integers(0, 16, 2))
        c = lib.crop(a, (r0, r1), (c0, c1))
        rec.expect(np.array_equal(c, keep[:, :, r0:r1, c0:c1]), "crop is not the window asked for")
        # windows that reach beyond the pattern end with it, ones counted from its end start there
        for rows, cols in (((r0, 12 + int(rng.integers(1, 9))), (c0, c1)), ((r0, r1), (c0, 15 + int(rng.integers(1, 9)))), ((-int(rng.integers(1, 12)), 12), (c0, 15)), ((0, -int(rng.integers(1, 11))), (c0, c1))):
            w = keep[:, :, rows[0]:rows[1], cols[0]:cols[1]]
            got = lib.crop(a, rows, cols)
            rec.event("window beyond the edge")
            rec.expect(got.shape == w.shape and np.array_equal(got, w), "crop is not the window asked for", rows=rows, columns=cols, got=got.shape, want=w.shape)
        c += 1
        rec.expect(np.array_equal(a, keep), "changing a crop changes the pattern")
    rec.note({"stored": sorted(model)[:8], "n": len(model)})


def check(rec, lib, name, model):
    rec.event("load")
    p, meta = lib.load(name)
    want, wmeta = model[name]
    rec.expect(p.dtype == want.dtype and p.shape == want.shape and np.array_equal(p, want), "loaded pattern differs from the stored one", name=name)
    if p.flags.writeable:
        # what a user does to a loaded pattern is his own business
        p[...] = 0
        rec.event("loaded pattern changed")
    for key, v in wmeta.items():
        rec.expect(key in meta and one_line(meta[key]) == v and "\n" not in meta[key], "metadata differs", key=key, got=meta.get(key), want=v, name=name)
    meta.clear()

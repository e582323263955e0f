"""A parallel search evaluates every genome once and attributes results to it."""
import os, sys, glob, json, subprocess
import numpy as np
from gen import *
import checks.c21 as c21

BUILD = True
LEVEL = "exploration"
JOBS = 4
RULE = ("one case = one complete search by several real MPI processes (more or fewer than genomes, delays in some of them), every process recording "
        "what it measured; the records are merged and compared with the log, with a search by one process and with measuring again; distinct by records")
MUST_SEE = ["evaluation by a worker", "generation", "uneven share", "delayed", "command line", "kept elite", "a single worker", "replicates"]
ASSUMPTIONS = ["Open MPI on one machine; processes are delayed, not killed"]


def cases(tier, seed):
    q = tier == "quick"
    out = [{"seed": seed * 100343 + 900 + i, "what": "cli", "ca": ["CCA", "RxnDfn", "Lenia"][i % 3], "tag": ["universe", "pattern", "coevo"][i % 3]} for i in range(1 if q else 6)]
    for i in range(15 if q else 120):
        out.append({"seed": seed * 100343 + i, "what": "mpi", "ca": KINDS[(i + seed) % 7], "mode": i % 3, "agent": "coevo" if i % 8 == 7 else "pattern" if i % 8 == 3 else "universe",
                    "env": "HaltingWrapper" if i % 8 == 5 else "SimpleHaltingWrapper", "delay": ["random", "none", "first", "last"][i % 4], "large": int(i % 8 in (0, 4))})
    return out


def mpi(n, args):
    env = dict(os.environ, IN_MPI="1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl="self,vader")
    return ended(["mpirun", "-np", str(n), sys.executable] + args, 120, env)


def ended(cmd, timeout, env):
    """run a command to its end, or end it with all its processes"""
    with open("stdout", "w+") as o, open("stderr", "w+") as e:
        p = subprocess.Popen(cmd, stdout=o, stderr=e, env=env, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            family = {p.pid}
            for _ in range(4):
                for f in glob.glob("/proc/[0-9]*/stat"):
                    try:
                        s = open(f).read()
                    except OSError:
                        continue
                    if int(s.rsplit(")", 1)[1].split()[1]) in family:
                        family.add(int(f.split("/")[2]))
            for q in family:
                try:
                    os.kill(q, 9)
                except OSError:
                    pass
            p.wait()
            raise subprocess.TimeoutExpired(cmd, timeout, open("stdout", "rb").read(), open("stderr", "rb").read())
    return subprocess.CompletedProcess(cmd, p.returncode, open("stdout", errors="replace").read(), open("stderr", errors="replace").read())


def run_case(case, rec):
    os.makedirs("logs"); os.makedirs("assets")
    rng = rng_of(case)
    if case["what"] == "cli":
        return cli(case, rec, rng)
    workers = int(rng.choice([2, 3, 3, 4, 5, 6]))
    pop = int(rng.choice([workers - 1, 2 * (workers - 1), 2, 5, 7, 9, 11]))
    gens = int(rng.integers(2, 4))
    if case["agent"] != "universe" or case["env"] == "HaltingWrapper":
        pop, gens = min(pop, 5), 2
    pop = max(pop, 2)
    if case.get("large"):
        # enough genomes for elites to be kept
        pop, gens = int(rng.integers(8, 18)), 3
        rec.event("kept elite")
    seeds = [int(v) for v in rng.choice(np.arange(1, 400), int(rng.integers(1, 3)), replace=False)]
    kw = dict(population_size=pop, generations=gens, seed=seeds, replicates=1 if case.get("large") else int(rng.integers(1, 3)), workers=workers)
    rec.event("replicates", kw["replicates"] > 1)
    info = dict(ca=case["ca"], agent=case["agent"], workers=workers, population=pop)
    json.dump({"case": case, "kw": kw, "delay": case["delay"]}, open("job.json", "w"))
    try:
        out = mpi(workers, [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "mpi_rank.py"), "job.json", os.getcwd()])
    except subprocess.TimeoutExpired as e:
        if not [l for f in glob.glob("rank*.jsonl") for l in open(f)] and b"Traceback" not in (e.stderr or b""):
            raise TimeoutError("no evaluation within 120 s")
        rec.bad("parallel search does not end", err=(e.stderr or b"")[-1500:].decode(errors="replace"), **info)
        return
    if not rec.expect(out.returncode == 0, "parallel search fails", code=out.returncode, err=out.stderr[-1500:], **info):
        return
    rows, done, credit = [], [], []
    for f in glob.glob("rank*.jsonl"):
        for line in open(f):
            r = json.loads(line)
            (done if "done" in r else credit if "credited" in r else rows).append(r)
    rec.event("evaluation by a worker", len(rows)); rec.event("delayed", case["delay"] != "none")
    rec.event("uneven share", pop % (workers - 1) != 0)
    rec.expect(sorted(r["done"] for r in done) == list(range(workers)), "not every process ends", done=done, **info)
    rec.expect(len(rows) == pop * gens * len(seeds), "number of evaluations", got=len(rows), want=pop * gens * len(seeds), **info)
    logs = glob.glob("logs/*.npy")
    if not rec.expect(len(logs) == len(seeds), "not one log per seed", logs=logs, **info):
        return
    with quiet():
        one = c21.make(case, dict(kw, workers=0), run=1)
        single = []
        c21.record(one, single)
        os.makedirs("single/logs"); os.makedirs("single/assets")
        here = os.getcwd()
        os.chdir("single")
        try:
            one.search()
        finally:
            os.chdir(here)
        if not case.get("large"):
            # asked for a single worker, the process that searches measures everything itself
            sole = c21.make(case, dict(kw, workers=1, seed=seeds[:1]), run=3)
            ones = []
            c21.record(sole, ones)
            os.makedirs("sole/logs"); os.makedirs("sole/assets")
            os.chdir("sole")
            try:
                sole.search()
            finally:
                os.chdir(here)
            rec.event("a single worker")
            rec.expect(len(ones) == pop * gens and all(maxdiff(a["genome"], b["genome"]) == 0 and a["fitness"] == b["fitness"] for a, b in zip(ones[:pop], single[:pop])),
                       "a search with one worker differs from one without", n=len(ones), want=pop * gens, got=[a["fitness"] for a in ones[:pop]], ref=[a["fitness"] for a in single[:pop]], **info)
        again = c21.make(case, dict(kw, workers=0), run=2)
        again.env.ca.no_grad()
        for si, s in enumerate(seeds):
            path, = [f for f in logs if f.endswith(f"_seed{s}.npy")]
            p = c21.load(path)
            rec.expect(len(p["max_fitness"]) == gens, "log does not have an entry per generation", n=len(p["max_fitness"]), **info)
            for g in range(gens):
                rec.event("generation")
                mine = sorted([r for r in rows if r["logged"] == si * gens + g], key=lambda r: r["i"])
                if not rec.expect([r["i"] for r in mine] == list(range(pop)), "a genome is not evaluated exactly once", got=[(r["rank"], r["i"]) for r in mine], generation=g, **info):
                    continue
                per = [sum(r["rank"] == w for r in mine) for w in range(1, workers)]
                rec.expect(max(per) - min(per) <= 1, "work is not shared evenly", per=per, **info)
                rec.expect({r["seed"] for r in mine} == {g * s}, "evaluated with another seed", got={r["seed"] for r in mine}, want=g * s, **info)
                f = np.array([r["fitness"] for r in mine])
                for c in [c for c in credit if c["logged"] == si * gens + g]:
                    rec.event("credited")
                    rec.expect(len(c["credited"]) == pop and all(np.array_equal(a, r["genome"]) for a, r in zip(c["credited"], mine)), "results are credited to other genomes than were measured", generation=g,
                               others=[i for i, (a, r) in enumerate(zip(c["credited"], mine)) if not np.array_equal(a, r["genome"])], **info)
                    rec.expect(maxdiff(np.array(c["fitness"]), f) == 0, "a genome is credited with another fitness", generation=g, got=c["fitness"], want=f, **info)
                got = [p[k][g] for k in ("mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness")]
                rec.expect(maxdiff(got, [f.mean(), f.max(), f.min(), f.std()]) < 1e-6 * (1 + np.abs(f).max()), "logged statistics differ from the measured fitness", generation=g, got=got, **info)
                if g == 0 and case["agent"] != "pattern" or g == gens - 1:
                    el = np.array(p["elite_params"][g if case["agent"] != "pattern" else -1], dtype=np.float64)
                    if g == gens - 1 or case["mode"] == 0:
                        near = [int(np.argmin([np.abs(np.array(r["genome"]) - e).max() for r in mine])) for e in el]
                        want = np.sort(f)[::-1][:len(el)]
                        rec.expect(maxdiff([f[j] for j in near], want) == 0 and all(np.allclose(mine[j]["genome"], e, rtol=1e-6) for j, e in zip(near, el)),
                                   "elites are not the genomes measured as fittest", generation=g, got=[f[j] for j in near], want=want, **info)
                if g == 0:
                    ref = single[si * pop * gens:][:pop]
                    rec.expect(all(maxdiff(np.array(r["genome"]), q["genome"]) == 0 and r["fitness"] == q["fitness"] for r, q in zip(mine, ref)),
                               "first generation differs from that of a search by one process", got=f, want=[q["fitness"] for q in ref], **info)
                for r in [mine[int(rng.integers(pop))]]:
                    again.population = [again.agent_fn(params=np.array(r["genome"]), external_channels=again.external_channels, dim=again.dim)]
                    again.population[0].set_params(np.array(r["genome"]))
                    again.population[0].to_device("cpu")
                    v = float(again.get_fitness(0, steps=1, replicates=kw["replicates"], seed=r["seed"])[0])
                    if case["agent"] != "coevo" or case["ca"] != "NCA":
                        rec.expect(v == r["fitness"], "another process measures another fitness", got=v, want=r["fitness"], **info)
            rec.seen(case["ca"], case["agent"], workers, pop, fp(np.array([r["fitness"] for r in rows])))
    for f in glob.glob(os.path.join(os.environ["VERIF_SRC"], "ca_configs", f"exp_*_{case['seed']}_*.npy")):
        os.remove(f)
    rec.note({"search": info, "evaluations": [[r["rank"], r["i"], r["fitness"]] for r in rows][:12]})


def cli(case, rec, rng):
    """workers asked for on the command line"""
    subprocess.run("git init -q . && git -c user.name=x -c user.email=x@x commit -q --allow-empty -m x", shell=True, check=True, capture_output=True)
    s, w = int(rng.integers(1, 99)), int(rng.integers(2, 4))
    logs = []
    for n in [w, 0]:
        tag = f"{case['tag']}_par{n}x{case['seed']}"
        args = ["-b", "1", "-c", "2", "-g", "2", "-k", "3", "-kp", "1", "-m", "16", "-p", "3", "-s", str(s), "-t", tag, "-f", "SimpleHaltingWrapper", "-ca", case["ca"], "-w", str(n)]
        if case["ca"] == "RxnDfn":
            args += ["-x", "2"]
        env = dict(os.environ, OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl="self,vader")
        try:
            out = ended([sys.executable, "-m", "yuca.evolve"] + args, 240, env)
        except subprocess.TimeoutExpired:
            rec.bad("command line search does not end", args=args)
            return
        if not rec.expect(out.returncode == 0 and "evolution completed successfully" in out.stdout, "command line search fails", args=args, out=out.stdout[-500:], err=out.stderr[-1500:]):
            return
        rec.event("command line")
        rec.expect(out.stdout.count("evolution completed successfully") == max(n, 1), "not every process ends", n=out.stdout.count("evolution completed successfully"), workers=n)
        f = glob.glob(f"logs/exp_{tag}_*_seed{s}.npy")
        c = glob.glob(f"{os.environ['VERIF_SRC']}/ca_configs/exp_{tag}_*_seed{s}.npy")
        if not rec.expect(len(f) == 1 and len(c) == 1, "not one log and config of the search", logs=f, configs=c):
            return
        os.remove(c[0])
        logs.append(c21.load(f[0]))
    # patterns and neural rules start from random weights, everything else from the seed
    a, b = logs
    rec.expect(a["kwargs"]["workers"] == w and len(a["max_fitness"]) == len(b["max_fitness"]) == 2, "log of a parallel search", workers=a["kwargs"]["workers"], n=len(a["max_fitness"]))
    if case["tag"] == "universe":
        rec.expect(a["mean_fitness"][0] == b["mean_fitness"][0] and a["max_fitness"][0] == b["max_fitness"][0], "first generation differs from that of a search by one process",
                   got=a["mean_fitness"][0], want=b["mean_fitness"][0])
    rec.seen("cli", case["ca"], case["tag"], fp(np.array(a["max_fitness"], float)))
    rec.note({"args": args})

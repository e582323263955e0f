"""one process of a parallel search: mpirun -np N python mpi_rank.py JOB.json"""
import sys, os, json, time, random, importlib, signal
import numpy as np

signal.alarm(240)       # no process outlives whoever started it for long

job = json.load(open(sys.argv[1]))
import torch
torch.set_num_threads(1); torch.set_flush_denormal(True)
mod = importlib.import_module("checks.c21")
es = mod.make(job["case"], job["kw"])
from mpi4py import MPI
rank = MPI.COMM_WORLD.Get_rank()
torch.manual_seed(rank * 77 + 5); np.random.seed(rank * 91 + 3)         # processes share no random state
chance = random.Random(job["case"]["seed"] * 100 + rank)
delays = {"none": lambda: 0, "random": lambda: chance.random() * 0.05, "first": lambda: 0.1 * (rank == 1), "last": lambda: 0.1 * (rank == job["kw"]["workers"] - 1)}[job["delay"]]
log = open(f"rank{rank}.jsonl", "w")
real = es.get_fitness


def logged():
    return sum(len(mod.load(os.path.join("logs", f))["max_fitness"]) for f in os.listdir("logs"))


def measured(agent_index, *a, **k):
    g = [float(v) for v in es.population[agent_index].get_params()]
    n = logged()
    time.sleep(delays())
    out = real(agent_index, *a, **k)
    time.sleep(delays())
    log.write(json.dumps({"rank": rank, "i": int(agent_index), "genome": g, "seed": int(k["seed"]), "fitness": float(out[0]), "logged": n}) + "\n")
    log.flush()
    return out


es.get_fitness = measured
inside = [0]


def crediting(real):
    """what the parent takes the results to be those of"""
    def credited(fitness, *a, **k):
        if not inside[0]:
            log.write(json.dumps({"credited": [[float(v) for v in p.get_params()] for p in es.population], "fitness": [float(f) for f in np.ravel(fitness)], "logged": logged()}) + "\n")
        inside[0] += 1
        try:
            return real(fitness, *a, **k)
        finally:
            inside[0] -= 1
    return credited


for name in ("update_population", "rank_population"):
    if rank == 0 and hasattr(es, name):
        setattr(es, name, crediting(getattr(es, name)))
es.search()
log.write(json.dumps({"done": rank}) + "\n")
log.close()

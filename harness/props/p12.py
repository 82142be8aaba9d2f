"""P12: the statistics page always agrees with the stored data.

Stateful search in which, after most operations, every number of the statistics page and the files on disk are compared with those of
the reference model."""
from gen import *
from session import Session
ID = "P12"
LEVEL = "exploration"
QUICK, THOROUGH = 2100, 80000
VARIANTS = ["asan", "rel", "rel5", "nocow", "debug", "relbig"]
RULE = "a history counts as non-trivial when at least 8 statistics pages and 5 sets of counters were compared, with overwrites or deletes of both storage forms in between"
ASSUMPTIONS = ["counters are compared for operations whose success is certain: not for a delete that raced with an upload or an expiry"]

def gen(rng, i, tier):
    n = rng.choice([30, 60]) if tier == "quick" else rng.choice([50, 150, 400])
    ts = with_empty(rng, names(rng, rng.choice([1, 2, 4]), False, rng.random() < 0.2)); ks = names(rng, rng.choice([2, 5, 12]), True, rng.random() < 0.2)
    tt = (lambda r: r.choice([None, None, 0, 2, 5])) if rng.random() < 0.4 else None
    w = dict(put=10, get=4, head=2, delt=1, bulk=1.5, up=3, down=1, pend=1, gc=0.6, usr1=0.2, list=0.3, restart=0.5)
    w["del"] = 3
    if tt: w["time"] = 1.5; w["gcall"] = 0.7
    cfg = dict(variant=rng.choice(["asan"] * 3 + ["rel", "rel5", "nocow", "debug", "relbig"]), now=NOW if tt else None)
    ops = []
    for o in chaos(rng, n, ts, ks, w, sizes=lambda r: size(r), ttls=tt):
        ops.append(o)
        if rng.random() < 0.3: ops.append(["cstats"])
        if rng.random() < 0.4: ops += [["stats"]] if rng.random() < 0.6 else [["finish"], ["stats"], ["files"]]
    if rng.random() < 0.08:
        ops = with_mass(rng, ops[:rng.choice([5, 30, 200])], ts, ks, rng.choice([1, 1, 2]))
    return {"cfg": cfg, "ops": ops + [["finish"], ["stats"], ["checkall", 0], ["cstats"], ["stats"], ["files"], ["restart"], ["stats"], ["checkall", 0], ["cstats"]]}

def run(case, info):
    with Session(case["cfg"], info) as s:
        s.run(case["ops"])

def nontrivial(case, info):
    return info["stats_checked"] >= 8 and info["counters_checked"] >= 5 and info["overwrite"] + info["deleted"] >= 3

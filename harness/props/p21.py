"""P21: collections and flushes at any moment are invisible to clients.

Stateful search that puts collections (requested, signalled, automatic) and flushes -- running, finished or held back in the middle -- at
any point of uploads, downloads and other requests; the model does not know them, so any effect shows as a difference."""
from gen import *
from session import Session
ID = "P21"
LEVEL = "exploration"
QUICK, THOROUGH = 3080, 80000
VARIANTS = ["asan", "rel", "rel5", "nocow", "debug"]
RULE = "a history counts as non-trivial when at least 5 collections were asked for, at least one while an upload or download was under way, and at least 8 reads hit"
ASSUMPTIONS = ["the size limit, if any, is above everything stored"]

def gen(rng, i, tier):
    n = rng.choice([25, 60, 100]) if tier == "quick" else rng.choice([50, 150, 400])
    ts = with_empty(rng, names(rng, rng.choice([1, 2, 3]), False, rng.random() < 0.3)); ks = names(rng, rng.choice([2, 4, 9]), True, rng.random() < 0.3)
    tt = (lambda r: r.choice([None, None, 0, 3, 20])) if rng.random() < 0.35 else None
    w = dict(put=9, get=6, head=1, delt=0.6, bulk=0.8, up=6, down=5, pend=2, gc=7, usr1=3, list=1, waitflush=0.7, hold=1.2, release=1.2, stats=0.8, checkall=0.3)
    w["del"] = 2
    if tt: w["time"] = 1.2
    cfg = dict(variant=rng.choice(["asan"] * 3 + ["rel"] * 2 + ["rel5", "rel5", "nocow", "debug"]), now=NOW if tt else None, sndbuf=4608, fork_mode=rng.choice([0, 1, 2, 2]))
    if cfg["fork_mode"] != 2: w.pop("hold"); w.pop("release")
    if rng.random() < 0.4: cfg["args"] = ["-s", "10000000000"]
    ops = chaos(rng, n, ts, ks, w, sizes=lambda r: size(r) if r.random() < 0.8 else r.choice([100000, 300000]), ttls=tt)
    out = []
    for o in ops:
        out.append(o)
        # bursts of requests for a collection
        if o[0] in ("gc", "usr1") and rng.random() < 0.15: out += [[rng.choice(["usr1", "gc"])] for _ in range(rng.randrange(2, 6))]
    over = []
    if rng.random() < 0.35:
        over = [["finish"], ["overlap", rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 12]), rng.choice([1000, 1000, 0, 1, 2, 3, 4, 6]), rng.choice([1, 1, 2, 4]), rng.random() < 0.3,
                               [rng.choice(ts), rng.choice(ks), 990000, rng.choice([1, 100, 4096, 5000])] if rng.random() < 0.5 else None]]
        if rng.random() < 0.5 and len(out) > 20: out = out[:20]
    tail = [["finish"], ["checkall", 0], ["stats"], ["files"], ["flushworks"], ["checkall", 0], ["restart"], ["checkall", 0]]
    # value files of values stored after the last flush outlive a crash: files are not compared after this
    if over: tail += over + [["flushworks"], ["checkall", 0], ["stats"]]
    return {"cfg": cfg, "ops": out + tail}

def run(case, info):
    with Session(case["cfg"], info) as s:
        s.run(case["ops"])
        info["asked"] += info["op_gc"] + info["op_usr1"]

def nontrivial(case, info):
    return info["asked"] >= 5 and info["hit"] >= 8 and info["gc_during_transfer"] >= 1

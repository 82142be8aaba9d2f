"""P09: a clean shutdown and restart preserves exactly the stored data.

Stateful search over histories with many restarts (a round trip of the whole database through its saved form), any database path,
any names and values, requests cut off by the shutdown, pending flushes at shutdown, against the model."""
from gen import *
from session import Session
ID = "P09"
LEVEL = "exploration"
QUICK, THOROUGH = 979, 60000
VARIANTS = ["asan", "rel", "rel5", "nocow", "debug"]
RULE = "a history counts as non-trivial when it had at least 2 restarts, 10 hits, and values in block file and own files were stored"
ASSUMPTIONS = ["the shutdown signal is SIGTERM or SIGINT, sent once", "key names are free of line ends and blanks, as requests cannot carry them"]

DBS = ["db", "db", "db", "a b", "quo'te", 'dq"x', "do$llar;x", "-dash", "per%cent%s", "back\\slash", "deep/er/dir", "uml\u00e4ut", "#hash", "new*glob?", "x" * 60, "(paren)&", "tick`s`", "trail "]

def gen(rng, i, tier):
    n = rng.choice([20, 50, 100]) if tier == "quick" else rng.choice([50, 150, 400])
    many = rng.random() < 0.1
    if many:
        ts = names(rng, rng.choice([1, 5, 60]), False, rng.random() < 0.5); ks = names(rng, rng.choice([100, 300]), True, rng.random() < 0.5); n *= 3
    else:
        ts = names(rng, rng.choice([1, 2, 4]), False) if rng.random() < 0.7 else [t.replace("/", "_") for t in similar(rng, 3)]
        ks = names(rng, rng.choice([2, 4, 9]), True) if rng.random() < 0.7 else similar(rng, rng.choice([3, 8]))
    with_empty(rng, ts)
    tt = (lambda r: r.choice([None, None, 0, 3, 50, 10 ** 9])) if rng.random() < 0.5 else None
    w = dict(put=14, get=4, head=1, delt=0.7, bulk=0.7, up=2.5, down=1, pend=0.7, gc=0.7, usr1=0.5, list=0.7, restart=2.2, stats=1.5, files=0.7, checkall=1, waitflush=0.3)
    w["del"] = 2.5
    if tt: w["time"] = 1.5
    if rng.random() < 0.25: w["hold"] = 2; w["release"] = 0.7; w["gc"] = 2
    cfg = dict(variant=rng.choice(["asan"] * 3 + ["rel"] * 2 + ["rel5", "nocow", "debug"]), dbname=rng.choice(DBS), now=NOW if tt else None)
    if "hold" in w: cfg["fork_mode"] = 2
    sz = (lambda r: size(r)) if not many else (lambda r: r.choice([1, 10, 100, 4096, 4097]))
    ops = chaos(rng, n, ts, ks, w, sizes=sz, ttls=tt)
    if rng.random() < 0.04:
        ops = with_mass(rng, ops[:60], ts, ks)
    return {"cfg": cfg, "ops": ops + [["restart", "now"], ["checkall", 0], ["stats"], ["files"], ["restart"], ["checkall", 0], ["stats"], ["files"]]}

def run(case, info):
    with Session(case["cfg"], info) as s:
        s.run(case["ops"])

def nontrivial(case, info):
    return info["restarts"] >= 2 and info["hit"] >= 10 and info["put_block"] and info["put_file"]

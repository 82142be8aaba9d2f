"""P02: overlapping reads and writes of one key see one whole value or none.

Stateful model-based search in which the harness owns the interleaving: uploads, downloads and other
requests are sent and read in generated pieces; the model allows exactly the answers the property does."""
from gen import *
from session import Session
ID = "P02"
LEVEL = "exploration"
QUICK, THOROUGH = 3639, 100000
VARIANTS = ["asan", "rel", "rel5", "nocow", "asanbig"]
RULE = ("a history counts as non-trivial when a download or a half-sent request outlived a change of its key, or uploads of one key overlapped, "
        "or a key was deleted while being uploaded, at least twice in total")
ASSUMPTIONS = ["the kernel delivers the bytes of one connection in order; send buffers are made small so that small values stall too"]

def gen(rng, i, tier):
    n = rng.choice([25, 60, 120]) if tier == "quick" else rng.choice([40, 120, 400])
    ts = with_empty(rng, names(rng, rng.choice([1, 1, 2]), False, wild=rng.random() < 0.2)); ks = names(rng, rng.choice([1, 2, 3]), True, wild=rng.random() < 0.2)
    if rng.random() < 0.5:
        few = [rng.choice([1, 100, 4096]), 4096, rng.choice([4097, 20000]), rng.choice([30000, 100001, 300000])]
        sz = lambda r: r.choice(few)
    else:
        sz = lambda r: size(r)
    cfg = dict(variant=rng.choice(["asan"] * 4 + ["rel", "rel5", "nocow", "asanbig"]), sndbuf=rng.choice([4608, 4608, 4608, 9000]), now=NOW)
    if rng.random() < 0.2:
        cfg["lossy"] = 1; cfg["args"] = ["-s", str(rng.choice([1, 5000, 20000, 100000]))]
    w = dict(put=6, get=5, head=1, delt=1, bulk=1, up=18, down=14, pend=6, gc=2, usr1=0.5, list=0.7)
    w["del"] = 4
    tt = None
    if rng.random() < 0.35:
        w["time"] = 2; tt = lambda r: r.choice([None, None, 0, 1, 2, 3, 10])
    # everything at one key
    if rng.random() < 0.2: ts, ks = ts[:1], ks[:1]
    ops = chaos(rng, n, ts, ks, w, sizes=sz, ttls=tt)
    if rng.random() < 0.03 and not cfg.get("lossy"): ops = with_mass(rng, ops, ts, ks)
    return {"cfg": cfg, "ops": ops + [["finish"], ["checkall", 0], ["stats"], ["files"]]}

def run(case, info):
    with Session(case["cfg"], info) as s:
        s.run(case["ops"])

def nontrivial(case, info):
    return info["download_survived_change"] + info["pending_overlapped"] + info["overlapped_upload"] + info["delete_during_upload"] >= 2

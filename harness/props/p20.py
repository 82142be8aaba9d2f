"""P20: deletes remove exactly what they name.

Stateful search with single, bulk and table deletes against keys and tables that other connections are uploading, downloading, listing
or deleting at the same time; after each delete everything else is read and compared with the model."""
from gen import *
from session import Session
ID = "P20"
LEVEL = "exploration"
QUICK, THOROUGH = 4200, 80000
VARIANTS = ["asan", "rel", "rel5", "nocow", "debug"]
RULE = "a history counts as non-trivial when at least 4 deletes removed something and at least 2 of them overlapped another request or deleted a table with several keys"
ASSUMPTIONS = ["a delete that overlaps an upload of the same key may take effect before or after it, as the property leaves open"]

def gen(rng, i, tier):
    n = rng.choice([20, 40, 80]) if tier == "quick" else rng.choice([40, 120, 300])
    ts = names(rng, rng.choice([1, 2, 3]), False, rng.random() < 0.3) if rng.random() < 0.7 else [t.replace("/", "_") for t in similar(rng, 3)]
    ks = names(rng, rng.choice([2, 3, 6, 15]), True, rng.random() < 0.3) if rng.random() < 0.7 else similar(rng, rng.choice([3, 6]))
    if rng.random() < 0.25: ts, ks = ts[:1], ks[:rng.choice([1, 1, 2])]      # everything at one key
    w = dict(put=9, get=2, delt=2.2, bulk=3, up=5, down=4, pend=5, gc=0.4, list=1, restart=0.2)
    w["del"] = 4
    cfg = dict(variant=rng.choice(["asan"] * 4 + ["rel", "rel5", "nocow", "debug"]), now=NOW if rng.random() < 0.3 else None, sndbuf=4608)
    tt = (lambda r: r.choice([None, None, None, 2, 5])) if cfg["now"] else None
    if tt: w["time"] = 1
    ops, vid = [], 10 ** 6
    for t in ts:
        for k in ks:
            if rng.random() < 0.6: vid += 1; ops.append(["put", 0, t, k, vid, rng.choice([1, 50, 4096, 4097, 6000, 30000])])
    for o in chaos(rng, n, ts, ks, w, sizes=lambda r: r.choice([1, 100, 4095, 4096, 4097, 5000, 20000, 70000]), ttls=tt):
        ops.append(o)
        if o[0] == "pe" and rng.random() < 0.3: o[2] = True
        if o[0] in ("ue", "ux") and rng.random() < 0.4: ops.append(["checkall", 1])
        if o[0] in ("del", "bulk", "delt", "pe"):
            if rng.random() < 0.35: ops.append(["checkall", 1])
            if rng.random() < 0.3: ops.append(["stats"])
            # stored again at once
            if rng.random() < 0.4: vid += 1; ops.append(["put", 2, o[2] if o[0] != "pe" else rng.choice(ts), rng.choice(ks), vid, rng.choice([1, 4096, 4097, 9000])])
        elif o[0] in ("list",) and rng.random() < 0.5: ops.append(["stats"])
    if rng.random() < 0.04: ops = with_mass(rng, ops, ts, ks)
    return {"cfg": cfg, "ops": ops + [["checkall", 0], ["finish"], ["checkall", 0], ["stats"], ["files"]] + [["list", 0, t] for t in ts]}

def run(case, info):
    with Session(case["cfg"], info) as s:
        s.run(case["ops"])

def nontrivial(case, info):
    return info["deleted"] + info["bulk_removed"] + info["table_deleted"] >= 4 and \
        info["pending_overlapped"] + info["delete_during_upload"] + info["download_survived_change"] + info["table_deleted_multi"] >= 2

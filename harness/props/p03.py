"""P03: an upload cut short at any byte leaves no trace.

Every case stores some values, then repeatedly begins uploads, cuts them at an enumerated byte with an orderly or
abortive end, and compares reads, statistics, files and later uploads with the model."""
from gen import *
from session import Session
ID = "P03"
LEVEL = "exploration"
QUICK, THOROUGH = 2380, 80000
VARIANTS = ["asan", "rel", "rel5", "nocow", "debug"]
RULE = "a history counts as non-trivial when it cut at least one upload in its request line or headers and two in its body, and checked statistics and files afterwards"
ASSUMPTIONS = ["the end of the connection is delivered to the server in order with the bytes sent"]

def gen(rng, i, tier):
    ts = with_empty(rng, names(rng, rng.choice([1, 2, 3]), False, wild=rng.random() < 0.3)); ks = names(rng, rng.choice([2, 4]), True, wild=rng.random() < 0.3)
    cfg = dict(variant=rng.choice(["asan"] * 4 + ["rel", "rel5", "nocow", "debug"]), now=NOW)
    ops, vid = [], 0
    for _ in range(rng.randrange(0, 8)):
        vid += 1; ops.append(["put", 0, rng.choice(ts), rng.choice(ks), vid, size(rng), rng.choice([None, None, 0, 100])])
    lastcut = {}
    for r in range(rng.choice([4, 10])):
        t, k, sz = rng.choice(ts), rng.choice(ks), size(rng)
        vid += 1
        line = len("PUT /%s/%s HTTP/1.1\r\n" % (t, k)); head = line + len("Content-Length: %d\r\n\r\n" % sz)
        # systematic over the head (case index walks through it), random over the body
        c = (i * 7 + r * 13) % (head + 1) if rng.random() < 0.45 else cut(rng, t, k, sz)
        hs = [["X-" + word(rng, 4), word(rng, rng.randrange(0, 30))] for _ in range(rng.choice([0, 0, 1, 3]))]
        during = []
        ops.append(["ub", 0, t, k, vid, sz, rng.choice([None, None, 5]), c, hs])
        if rng.random() < 0.4: ops.append(["uc", 0, rng.randrange(1, 3 + sz)])
        for _ in range(rng.choice([0, 0, 1, 3])):
            x = rng.random(); tt, kk = rng.choice(ts), rng.choice(ks)
            if rng.random() < 0.5: tt, kk = t, k
            if x < 0.2: vid += 1; ops.append(["put", 1, tt, kk, vid, size(rng)])
            elif x < 0.4: ops.append(["get", 1, tt, kk])
            elif x < 0.5: ops.append(["del", 1, tt, kk])
            elif x < 0.6: ops.append(["delt", 1, tt])
            elif x < 0.7: ops.append(["list", 1, tt])
            elif x < 0.75: ops.append(["gc", 1])
            elif x < 0.85: ops.append(["gb", 0, tt, kk, 0])
            elif x < 0.9: ops.append(["bulk", 1, tt, [kk]])
            elif x < 0.95: vid += 1; ops.append(["ub", 1, tt, kk, vid, size(rng), None, cut(rng, tt, kk, 1)])
            else: ops.append(["time", 1])
        ops.append(["ux", 0, rng.random() < 0.4])
        if rng.random() < 0.85: ops.append(["get", 1, t, k])
        if rng.random() < 0.6: ops.append(["finish"])
        ops += [["stats"], ["files"], ["list", 0, t]]
        if rng.random() < 0.4:
            vid += 1; ops += [["put", 2, t, k, vid, size(rng)], ["get", 0, t, k]]
        if rng.random() < 0.2: ops.append(["restart"])
    if rng.random() < 0.03: ops = with_mass(rng, ops, ts, ks)
    return {"cfg": cfg, "ops": ops + [["finish"], ["checkall", 0], ["stats"], ["files"]]}

def run(case, info):
    with Session(case["cfg"], info) as s:
        s.run(case["ops"])

def nontrivial(case, info):
    return info["upload_aborted_early"] + info["upload_aborted_head"] >= 1 and info["upload_aborted_body"] >= 2 and info["stats_checked"] and info["files_checked"]

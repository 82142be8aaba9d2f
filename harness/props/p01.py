"""P01: a stored value is returned byte for byte until it is replaced or removed.

Stateful model-based search: random histories of whole requests over several keep-alive connections,
compared request by request with a reference map."""
from gen import *
from session import Session
ID = "P01"
LEVEL = "exploration"
QUICK, THOROUGH = 4200, 100000
VARIANTS = ["asan", "rel", "rel5", "nocow", "debug", "relbig"]
RULE = ("a history counts as non-trivial when it overwrote or removed at least 3 values, got at least 5 hits and 2 misses, "
        "and stored values in both storage forms (block file and own file)")
ASSUMPTIONS = ["names contain no space and no line end (the request line ends them)", "names of one case have different 32-bit hashes (colliding names: P14)"]

def gen(rng, i, tier):
    n = rng.choice([20, 60, 150]) if tier == "quick" else rng.choice([30, 150, 600])
    many = rng.random() < 0.12
    if many:
        ts = names(rng, rng.choice([1, 3, 40]), False); ks = names(rng, rng.choice([60, 200]), True)
    else:
        ts = names(rng, rng.randrange(1, 4), False) if rng.random() < 0.7 else similar(rng, rng.randrange(2, 4))
        ts = with_empty(rng, [t.replace("/", "_") for t in ts])
        ks = names(rng, rng.randrange(2, 10), True) if rng.random() < 0.7 else similar(rng, rng.randrange(2, 9))
    cfg = dict(variant=rng.choice(["asan"] * 3 + ["rel"] * 3 + ["rel5"] * 2 + ["nocow", "debug", "relbig"]))
    ops = []
    def p(): return rng.choice(ts), rng.choice(ks)
    vid = 0
    for _ in range(n):
        r = rng.random(); c = rng.randrange(3); t, k = p()
        if r < 0.38 or (many and r < 0.6):
            vid += 1; ops.append(["put", c, t, k, vid, size(rng)])
        elif r < 0.68: ops.append(["get", c, t, k])
        elif r < 0.76: ops.append(["head", c, t, k])
        elif r < 0.86: ops.append(["del", c, t, k])
        elif r < 0.9:
            # header values end at the line end and start after one blank
            ops.append(["bulk", c, t, [rng.choice(ks) for _ in range(rng.randrange(0, 6))], rng.choice(["BULK", "PURGE"])])
        elif r < 0.92: ops.append(["delt", c, t])
        elif r < 0.95: ops.append(["list", c, t])
        elif r < 0.96: ops.append(["gc", c])
        elif r < 0.97: ops.append(["usr1"])
        elif r < 0.98: ops.append(["stats"])
        elif r < 0.995: ops.append(["checkall", c])
        else: ops.append(["restart"])
    if rng.random() < 0.06:
        ops = with_mass(rng, ops, ts, ks, rng.choice([1, 1, 2]))
    # values of many megabytes, up to the largest there can be
    if i % 500 == 77: ops.insert(rng.randrange(len(ops)), ["huge", ts[0] or "t", "~huge", i, 2 ** 24 * rng.choice([1, 2, 9, 16]) + rng.randrange(1, 5000)])
    if i == 40 or tier != "quick" and i % 5000 == 40: ops, cfg["variant"] = ops[:10] + [["huge", ts[0] or "t", "~huge", i, 2 ** 31 - 1]], "rel"
    ops.append(["checkall", 0])
    return {"cfg": cfg, "ops": ops}

def run(case, info):
    with Session(case["cfg"], info) as s:
        s.run(case["ops"])

def nontrivial(case, info):
    return info["overwrite"] + info["deleted"] + info["bulk_removed"] >= 3 and info["hit"] >= 5 and info["miss"] >= 2 and info["put_block"] and info["put_file"]

"""P07: expiry times are honoured, reported and survive restarts.

Stateful search on a clock the harness owns: stores with times to live, clock steps that land on and around every deadline, reads,
collections, overlapping uploads and restarts, against a model that knows every deadline."""
from gen import *
from session import Session
ID = "P07"
LEVEL = "exploration"
QUICK, THOROUGH = 1400, 80000
VARIANTS = ["asan", "rel", "relbig", "nocowbig", "debug"]
RULE = ("a history counts as non-trivial when at least 2 values expired and were then asked for or collected, at least 5 reads hit, and the "
        "clock was moved at least 3 times")
ASSUMPTIONS = ["the clock is the harness's own: it stands still between steps and never goes back", "the server notices the time with its 5 ms timer; steps wait for that"]

def gen(rng, i, tier):
    n = rng.choice([25, 60, 120]) if tier == "quick" else rng.choice([50, 150, 500])
    ts = with_empty(rng, names(rng, rng.choice([1, 2, 3]), False, rng.random() < 0.2)); ks = names(rng, rng.choice([2, 4, 8, 30]), True, rng.random() < 0.2)
    base = rng.choice([NOW, NOW, NOW, 1, 86399, 2 ** 31 - 3, 2 ** 31 - 20, 2 ** 31 + 5, 2 ** 32 - 4, 2 ** 32 - 30])
    few = [rng.choice([1, 2, 3]), rng.choice([2, 5, 10]), rng.choice([60, 3600]), rng.choice([2 ** 31 - 1, 10 ** 9, 86400 * 365])]
    tt = lambda r: r.choice([None, 0, r.choice(few), r.choice(few), r.choice(few[:2])])
    # steps that end exactly at, one before or one after a deadline
    dts = lambda r: max(1, r.choice([1, 1, 2, few[0], few[1], few[0] - 1, few[1] + 1, few[2], few[2] + 1, r.randrange(1, 12)]))
    sz = (lambda r: size(r)) if rng.random() < 0.5 else (lambda r: r.choice([1, 100, 4096, 4097, 9000]))
    w = dict(put=9, get=8, head=4, delt=0.3, bulk=0.5, up=2.5, pend=1, gc=1, usr1=0.3, list=0.8, time=5, restart=0.7, stats=1.2, gcall=1, files=0.4, checkall=0.4, waitflush=0.3)
    w["del"] = 1
    cfg = dict(variant=rng.choice(["asan"] * 3 + ["rel", "relbig", "nocowbig", "debug"]), now=base)
    ops = chaos(rng, n, ts, ks, w, sizes=sz, ttls=tt, dts=dts)
    if i % 80 == 11:
        # more keys than one collection looks at, in some of several tables
        ops = ops[:20] + [["finish"]]
        for j in range(rng.choice([1, 1, 2, 3])):
            m = rng.choice([1500, 4094, 4096, 4100, 4500]); b = "m%d." % j; tl = rng.choice([None, None, None, 1, -1, few[1]])
            while len({murmur32(b + str(x)) for x in range(m)} | {murmur32(k) for k in ks}) < m + len(ks): b += "."
            ops.insert(rng.randrange(len(ops) + 1), ["mput", 0, rng.choice(ts + ["m%d" % j] * 3), b, 0, m, rng.choice(["fwd", "rnd"]), 1000000 * (j + 1), rng.choice([1, 10, 100]), tl])
        for j in range(4): ops.append(["put", 0, word(rng, 3), rng.choice(ks), 500 + j, 10, few[1]])
    return {"cfg": cfg, "ops": ops + [["finish"], ["checkall", 0], ["restart"], ["checkall", 0], ["time", rng.choice([1, few[0], few[1] + 1])], ["gcall", 0], ["stats"], ["files"], ["checkall", 1]]}

def run(case, info):
    with Session(case["cfg"], info) as s:
        s.run(case["ops"])

def nontrivial(case, info):
    return info["collected_expired"] + info["expired_read"] >= 2 and info["hit"] >= 5 and info["op_time"] >= 3

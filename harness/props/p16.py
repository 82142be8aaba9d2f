"""P16: key hashing is MurmurHash3 for every input and alignment.

Differential search against a reference written from the published algorithm, itself checked by SMHasher's verification values: every
length up to 1100 with every alignment and placement (also ending right before an inaccessible page), random contents, lengths and seeds;
and databases written by hand in the saved format, whose file names are built from the reference hash, must be loaded."""
import os
import build, driver
from gen import *
from server import Failure, Server, req, value_bytes
ID = "P16"
LEVEL = "exploration"
QUICK, THOROUGH = 42000, 2000000
RULE = "a case counts as non-trivial when it hashes at least one string whose length is not a multiple of 16, or loads at least 3 stored files by name"
ASSUMPTIONS = ["results are written to 8-byte aligned places, as all callers do", "alignment of 32 and 64 bit reads is left to the processor"]
DRV = ["hash", "hashrel", "hashO3", "hashdebug"]
VARIANTS = ["asan", "rel", "debug", "nocow"]
NENUM = 1100
NFILES = 160

def prepare(tier):
    for d in DRV: build.build_driver(d)

def gen(rng, i, tier):
    if i < NFILES:
        ks = [k[:300] for k in names(rng, rng.choice([4, 12, 30]), True, True)]
        return {"cfg": dict(kind="files", variants=[rng.choice(VARIANTS) for _ in range(2)], table=name(rng, False, True)),
                "ops": [[k, rng.randrange(1, 1 << 16), rng.choice([4097, 5000, 9000]), rng.randrange(0, 300)] for k in ks]}
    j = i - NFILES
    if j < NENUM: return {"cfg": dict(drv=DRV[j % 2]), "ops": ["E %d %d" % (j, rng.randrange(1 << 32))]}
    ops = []
    for _ in range(rng.choice([1, 4, 12])):
        a = rng.randrange(3); seed = rng.choice([0, 13, 1, 0xffffffff, 0x80000000, rng.randrange(1 << 32)])
        r = rng.random()
        if r < 0.4: d = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 64))).hex()
        elif r < 0.6: d = name(rng, rng.random() < 0.5, True).encode("latin1").hex()
        elif r < 0.95: d = "%d:%d" % (rng.randrange(0, 5000), rng.randrange(1 << 32))
        else: d = "%d:%d" % (rng.choice([65535, 65536, 65537, rng.randrange(1 << 18), (1 << 20) + 3]), rng.randrange(1 << 32))
        ops.append("v %d %d %d %d %s" % (a, seed, rng.randrange(64), rng.randrange(3), d))
    return {"cfg": dict(drv=rng.choice(DRV)), "ops": ops}

def run(case, info):
    if case["cfg"].get("kind") == "files": return files(case, info)
    c, nt = driver.ask(case["cfg"]["drv"], ";".join(case["ops"]))
    info["hashes"] += c; info["odd"] += nt

def dir_of(h): return chr(65 + h % 26) + chr(65 + (h >> 8) % 26)

def files(case, info):
    """a database as an earlier build saved it"""
    cfg = case["cfg"]; t = cfg["table"]; th = murmur32(t)
    with Server(cfg["variants"][0], frozen=NOW) as s:
        # an empty server first, so that the directory is there
        s.start(); s.stop()
        d = s.db
        lines, want, seen = ["f:0", "t:" + t], {}, set()
        for k, it, n, ttl in case["ops"]:
            h = murmur32(k)
            if h in seen: continue
            seen.add(h)
            b = value_bytes("p16-%s" % it, n); want[k] = (b, ttl)
            p = os.path.join(d, "files", dir_of(h)); os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, "%x%x_%d" % (th, h, it)), "wb") as f: f.write(b)
            lines.append("e:-1:%d:%d:%d:%s" % (n, NOW + 1000 + ttl if ttl else 0, it, k))
        with open(os.path.join(d, "index.save"), "w", encoding="latin1", newline="") as f: f.write("\n".join(lines) + "\n")
        with open(os.path.join(d, "blockfile.db.save"), "wb") as f: pass
        for v in cfg["variants"]:
            s.variant = v; s.exe = build.build(v)
            s.start()
            c = s.conn()
            for k, (b, ttl) in want.items():
                r = s.request(c, req("GET", "/%s/%s" % (t, k)))
                if r.status != 200 or r.body != b: raise Failure("key %r of a database saved earlier: %s" % (k, r.brief()))
                info["files"] += 1
            c.close(); s.stop()

def nontrivial(case, info):
    return info["odd"] >= 1 or info["files"] >= 3

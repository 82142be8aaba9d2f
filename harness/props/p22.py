"""P22: small values stay intact however large the block file is.

Search over saved databases of generated block counts (up to millions, sparse on disk) on top of which histories run: a real
server saves a few values; the harness moves their blocks inside the saved block file to generated positions (around powers of two
blocks and the 2 and 4 GiB offsets), either with everything in between free, or with everything occupied by filler values so that
new values must extend the file.  The server is started on it and a history of requests, collections and restarts follows against
the model; fillers at sampled positions are read back.  Other cases begin with a block file of any size (also one that is no multiple of a
block) and no saved index: an empty database on top of it."""
import os, random, re
import server
from gen import *
from server import Failure, Inconclusive, value_bytes
from session import Session
ID = "P22"
LEVEL = "exploration"
QUICK, THOROUGH = 154, 20000
VARIANTS = ["rel", "relbig", "asanbig"]
RULE = ("a history counts as non-trivial when its block file had more than 500 blocks and a saved value was moved, or when it began with a block file "
        "and no index, and at least 10 reads hit")
ASSUMPTIONS = ["the saved form (index.save, blockfile.db.save) is rewritten by the harness as the server would have written it for the larger database; "
               "if the server saves something else the case runs without the enlargement", "the scratch file system supports sparse files"]
TIME = {"quick": 90.0, "thorough": 900.0}
JOBS = 6
BLOCK = 4096
NT = 40
GIB2, GIB4 = (2 << 30) // BLOCK, (4 << 30) // BLOCK

def gen(rng, i, tier):
    r = rng.random()
    dense = rng.random() < 0.4
    if r < 0.15: T = rng.choice([1, 2, 255, 256, 257, 258, 300, 700, 4096, 65535, 65536, 65537])
    elif r < 0.5: T = GIB2 + rng.choice([-20, -3, -1, 0, 1, 2, 30, 300, 5000])
    elif r < 0.8: T = GIB4 + rng.choice([-20, -3, -1, 0, 1, 2, 30, 300, 5000])
    else: T = rng.choice([GIB4 + GIB2, GIB4 + GIB2 + 1, 2 * GIB4 - 5, 2 * GIB4 + 7, rng.randrange(1000, 2 * GIB4)])
    if T > GIB4 + 6000: dense = False
    ts = names(rng, rng.choice([1, 2]), False)
    ks = names(rng, rng.choice([3, 6, 12]), True)
    sz = lambda q: q.choice([1, 2, 100, 4095, 4096, 4096, 4097, 9000, q.randrange(1, 4097)])
    first = [["put", 0, t, k, "a%d" % j, sz(rng), None] for j, (t, k) in enumerate((t, k) for t in ts for k in ks)]
    w = dict(put=12, get=5, head=0.5, delt=0.3, bulk=0.5, up=1.5, down=0.7, gc=0.3, stats=1.5, restart=0.25, fills=1)
    w["del"] = 3
    fills = w.pop("fills")
    ops = []
    for o in chaos(rng, rng.choice([20, 40, 80]), ts, ks, w, sizes=sz):
        if o[0] in ("put", "ub"): o[4] = "b%s" % o[4]
        ops.append(o)
        q = rng.random()
        if dense and q < 0.06: ops.append(["fills", rng.randrange(1 << 30)])
        if dense and q > 0.985: ops.append(["delfill", rng.randrange(NT)])
    # where the saved values go: mostly to the top, some around the borders, some low
    pos = []
    for _ in range(len(ts) * len(ks)):
        q = rng.random()
        pos.append(["top", rng.randrange(0, 300)] if q < 0.4 else ["abs", max(0, rng.choice([GIB2, GIB4, 65536, 256]) + rng.randrange(-4, 5))] if q < 0.8 else ["frac", rng.random()])
    pos[0] = ["top", 0]
    found = None
    if i % 6 == 5:
        # a block file without an index: nothing is stored, all its whole blocks are free
        n = rng.choice([0, 0, 1, 2, 3, 10, 255, 256, 257, 258, 300, 8190, 8191, 8192, 8193, 9000, GIB2 - 1, GIB4 + 3])
        found = max(0, n * BLOCK + rng.choice([0, 0, 1, 100, 4095, rng.randrange(BLOCK)]))
        dense = False
        if rng.random() < 0.3 or n in (0, 1): ops = ops[:5]
        m = rng.choice([n + 2, n + 300]) if n <= 300 else 320
        base = word(rng, 3)
        while len({murmur32(base + str(x)) for x in range(m)} | {murmur32(k) for k in ks}) < m + len(ks): base += "."
        ops += [["finish"], ["mput", 0, ts[0], base, 0, m, "fwd", 1000000, "mix"], ["stats"], ["mget", 1, ts[0], base, 0, m, "rnd", 1]]
    ops += [["finish"], ["checkall", 0], ["fills", 1], ["stats"], ["restart"], ["checkall", 0], ["fills", 2], ["stats"]]
    return {"cfg": dict(variant=rng.choice(["relbig", "relbig", "rel", "asanbig" if T < GIB2 + 6000 else "rel"]), blocks=T, dense=dense, pos=pos, found=found, fl=rng.choice([1, 10, 4096])),
            "first": first, "ops": ops}

A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-"
def fname(b):
    """four characters: their hashes differ, as the hash of one block of four bytes can be inverted"""
    n = b // NT
    return A64[n >> 18 & 63] + A64[n >> 12 & 63] + A64[n >> 6 & 63] + A64[n & 63]

class Big(Session):
    base = 0
    dead = ()
    fillpos = None

    def enlarge(self, cfg):
        """rewrites the saved database of the stopped server; False if it is not in the form known here"""
        db = self.srv.db; idx = os.path.join(db, "index.save"); bf = os.path.join(db, "blockfile.db.save")
        try:
            lines = open(idx, "rb").read().split(b"\n"); nb = os.path.getsize(bf) // BLOCK
            data = open(bf, "rb").read()
        except OSError:
            return False
        small = [j for j, l in enumerate(lines) if re.match(rb"^b:\d+:\d+:\d+:\d+:", l)]
        n = sum(1 for x in self.t.values() for v in x.poss if v is not None and v.size <= BLOCK)
        if len(small) != n or any(l and l[1:2] != b":" or l[:1] not in (b"", b"t", b"b", b"e", b"f") for l in lines): return False
        T = max(cfg["blocks"], n)
        self.dense = cfg["dense"]; self.T = T
        used = {}
        for j, p in zip(small, cfg["pos"] + [["frac", 0.3]] * len(small)):
            want = T - 1 - p[1] if p[0] == "top" else p[1] if p[0] == "abs" else int(p[1] * T)
            want = max(0, min(T - 1, want))
            while want in used: want = (want - 1) % T
            used[want] = j
        self.usedb = set(used)
        sparse = os.path.join(db, "new.tmp")
        with open(sparse, "wb") as f:
            f.truncate(T * BLOCK)
            for b, j in used.items():
                m = lines[j].split(b":", 2)
                old = int(m[1])
                f.seek(b * BLOCK); f.write(data[old * BLOCK:(old + 1) * BLOCK].ljust(BLOCK, b"\0"))
                lines[j] = b"b:%d:" % b + m[2]
            self.fillpos = {}
            if self.dense:
                fl = self.fl = cfg["fl"]
                # contents for some of the fillers, the others are zeros
                for b in [x + d for x in (0, 255, 4096, 65535, GIB2, GIB4, T) for d in range(-6, 6)] + [int(T * q / 97) for q in range(97)]:
                    if 0 <= b < T and b not in used:
                        self.fillpos[b] = True
                        f.seek(b * BLOCK); f.write(value_bytes("f%d" % b, fl))
        if os.stat(sparse).st_blocks * 512 > (64 << 20): 
            os.unlink(sparse); raise Inconclusive("no sparse files here")
        os.rename(sparse, bf)
        body = [l for l in lines if l and l[:2] != b"f:"]
        if self.dense:
            per = [[] for _ in range(NT)]
            for b in range(T):
                if b not in used: per[b % NT].append("b:%d:%d:0:0:%s" % (b, self.fl, fname(b)))
            for a in range(NT):
                if per[a]: body.append(b"t:~fill%d" % a); body.append("\n".join(per[a]).encode())
        else:
            body = [b"f:%d" % b for b in range(T) if b not in used] + body
        with open(idx, "wb") as f: f.write(b"\n".join(body) + b"\n")
        self.info["moved"] += len(used)
        self.dead = set()
        return True

    def rebase(self):
        st = self.srv.stats()
        self.base = st["keys"] - sum(1 for x in self.t.values() for v in x.poss if v is not None)

    def check_stats(self, st, lo, hi):
        if not self.base: return super().check_stats(st, lo, hi)
        n = sum(v.size <= BLOCK for v in lo); n2 = sum(v.size <= BLOCK for v in hi)
        if not self.base + n <= st["exist"] - st["free"] <= self.base + n2:
            raise Failure("statistics: %d of %d blocks free with %d fillers and %d small values stored" % (st["free"], st["exist"], self.base, n))
        if not len(lo) <= st["keys"] - self.base <= len(hi):
            raise Failure("statistics: %d keys, expected %d fillers and %d others" % (st["keys"], self.base, len(lo)))
        b = self.base * self.fl
        if not sum(v.size for v in lo) <= st["bytes"] - b <= sum(v.size for v in hi):
            raise Failure("statistics: %d bytes, expected %d of fillers and %d others" % (st["bytes"], b, sum(v.size for v in lo)))

    def op_fills(self, seed):
        if not self.fillpos: return
        rng = random.Random(seed)
        bs = sorted(self.fillpos) + [rng.randrange(self.T) for _ in range(30)]
        c = self.conn(1)
        for b in bs:
            if b % NT in self.dead or b in self.usedb: continue
            r = self.srv.request(c, server.req("GET", "/~fill%d/%s" % (b % NT, fname(b))), what="GET of a filler")
            if r.status == 404:
                raise Failure("the value in block %d of %d is missing" % (b, self.T))
            if r.status != 200 or r.body != (value_bytes("f%d" % b, self.fl) if b in self.fillpos else b"\0" * self.fl):
                raise Failure("value in block %d of %d is wrong: %s" % (b, self.T, r.brief()))
            self.info["filler_read"] += 1

    def op_delfill(self, a):
        if not self.fillpos or a in self.dead or not self.base: return
        r = self.srv.request(self.conn(1), server.req("DELETE", "/~fill%d" % a), what="DELETE of a filler table")
        self.dead.add(a)
        if r.status not in (200, 404): raise Failure("DELETE of a table answered %s" % r.brief())
        if not (self.up or self.down or self.pend or any(not x.sure() for x in self.t.values())): self.rebase()
        else: self.base = None
        self.info["filler_table_deleted"] += 1

    def op_stats(self):
        if self.base is None:
            if self.up or self.down or self.pend or any(not x.sure() for x in self.t.values()): return
            self.rebase()
        super().op_stats()

def run(case, info):
    cfg = case["cfg"]
    with Big(cfg, info) as s:
        s.fl = cfg["fl"]
        s.run(case["first"])
        s.srv.wait_children()
        s.srv.stop(); s.conns = {}
        if cfg.get("found") is not None: return found(s, cfg, info, case)
        ok = s.enlarge(cfg)
        if not ok: info["not_enlarged"] += 1
        s.srv.start(s.ctl_init)
        s.cnt = dict(inserts=0, gets=0, deletes=0); s.lru = []
        if ok:
            info["big"] += s.T > 500
            if s.dense:
                s.rebase()
                if s.base != s.T - len(s.usedb):
                    raise Failure("%d filler values of %d blocks were loaded" % (s.base, s.T))
        s.op_stats()
        s.op_checkall(0)
        s.run(case["ops"])

def found(s, cfg, info, case):
    """no saved index, but a block file of any size, with other bytes in it"""
    for f in os.listdir(s.srv.db):
        if f.startswith(("index", "blockfile")): os.unlink(os.path.join(s.srv.db, f))
    with open(os.path.join(s.srv.db, "blockfile.db"), "wb") as f:
        f.write(b"?" * min(cfg["found"], 40960)); f.truncate(cfg["found"])
    s.srv.start(s.ctl_init)
    s.t.clear(); s.bt.clear(); s.hint.clear(); s.thist.clear(); s.lru = []; s.cnt = dict(inserts=0, gets=0, deletes=0)
    for o in case["first"]: s.key(o[2], o[3])
    s.op_checkall(0); s.op_stats()
    info["found"] += 1
    s.run(case["ops"])

def nontrivial(case, info):
    if info["found"]: return info["hit"] >= 10
    return info["big"] and info["moved"] and info["hit"] >= 10

"""P23: a slow or stalled client never holds up the others.

Stateful search: a crowd of stalled clients (uploads stopped in head or body, responses not read, requests half sent, pipelines never read,
idle connections, more connections than descriptors), then ordinary requests with a bound on the time of each, then the stalled ones resume in any order."""
from gen import *
from session import Session
import server, time, select, socket
from server import Failure, req, value_bytes
ID = "P23"
LEVEL = "exploration"
QUICK, THOROUGH = 1260, 40000
VARIANTS = ["asan", "rel", "rel5", "debug"]
RULE = "a history counts as non-trivial when at least 6 clients of at least 3 kinds were stalled at once while 15 requests of others were answered, and 4 of them resumed"
ASSUMPTIONS = ["promptly means within %d seconds per request on a loaded machine (what is answered late here takes microseconds)" % 6]
PROMPT = 6.0

def gen(rng, i, tier):
    ts = names(rng, rng.choice([1, 2, 3]), False, rng.random() < 0.3); ks = names(rng, rng.choice([3, 6]), True, rng.random() < 0.3)
    cfg = dict(variant=rng.choice(["asan"] * 3 + ["rel"] * 2 + ["rel5", "debug"]), sndbuf=4608, unix=rng.random() < 0.6, monitor=rng.random() < 0.4)
    if rng.random() < 0.3: cfg["fork_mode"] = rng.choice([1, 2])
    K = rng.choice([3, 8, 15, 40]) if tier == "quick" else rng.choice([10, 40, 100, 300])
    if rng.random() < 0.12: cfg["nofile"] = 60; K = min(K, 8)
    ops, vid = [], 0
    big = ["big%d" % j for j in range(rng.choice([1, 3]))]
    for b in big: vid += 1; ops.append(["put", 0, ts[0], b, vid, rng.choice([30000, 100000, 100000, 400000]), None])
    for _ in range(rng.randrange(6)): vid += 1; ops.append(["put", 0, rng.choice(ts), rng.choice(ks), vid, size(rng), None])
    live = []
    def stall(j):
        nonlocal vid
        r = rng.random(); t = rng.choice(ts)
        if r < 0.25:
            vid += 1; sz = size(rng) if rng.random() < 0.7 else 100000; k = "st%d" % rng.randrange(12) if rng.random() < 0.9 else rng.choice(ks)
            ops.append(["ub", j, t, k, vid, sz, None, cut(rng, t, k, sz)]); live.append(("u", j))
        elif r < 0.55: ops.append(["gb", j, ts[0], rng.choice(big), rng.choice([0, 0, 100, 5000])]); live.append(("g", j))
        elif r < 0.68:
            kd = rng.choice(["get", "head", "del", "bulk"]); ops.append(["pb", j, kd, t, [rng.choice(ks)] if kd == "bulk" else rng.choice(ks), rng.choice([-1, -2, -4, rng.randrange(1, 40)])]); live.append(("p", j))
        elif r < 0.8: ops.append(["flood", j, ts[0], rng.choice(big), rng.choice([20, 300])]); live.append(("f", j))
        elif r < 0.9: ops.append(["idle", j, rng.randrange(2)]); live.append(("i", j))
        elif cfg["monitor"]: ops.append(["monstall", j, rng.choice(["conn", "half", "flood"])]); live.append(("m", j))
    for j in range(K): stall(j)
    ops.append(["mark"])
    w = dict(put=6, get=6, head=1, list=1, gc=0.8, bulk=0.7, stats=0.5)
    w["del"] = 2
    def normal(n): 
        nonlocal vid
        for o in chaos(rng, n, ts, ks, w):
            if o[0] == "put": vid += 1; o[4] = vid
            if rng.random() < 0.06: o = rng.choice([["del", 0, ts[0], rng.choice(big)], ["put", 1, ts[0], rng.choice(big), vid + 5000, 100000, None], ["delt", 0, rng.choice(ts)], ["usr1"], ["hold"], ["release"]])
            if o[0] in ("hold", "release") and cfg.get("fork_mode") != 2: continue
            ops.append(o)
    if cfg.get("nofile"):
        ops.append(["exhaust", rng.choice([70, 150]), rng.randrange(1 << 30), rng.choice([10, 40]), rng.random() < 0.5])
    normal(rng.choice([15, 30, 60]))
    rng.shuffle(live); K0 = K
    while live:
        kd, j = live.pop()
        r = rng.random()
        if kd == "u": ops.append(["uc", j, rng.choice([1, 1000, 20000])] if r < 0.3 else ["ux", j, r < 0.4] if r < 0.45 else ["ue", j]); 
        elif kd == "g": ops.append(["gr", j, rng.choice([1, 3000, 20000])] if r < 0.3 else ["gx", j, r < 0.4] if r < 0.45 else ["ge", j])
        elif kd == "p": ops.append(["pe", j, r < 0.2])
        elif kd == "f": ops.append(["fe", j, r < 0.2])
        elif kd == "i": ops.append(["ie", j, ts[0], rng.choice(ks)])
        elif kd == "m": ops.append(["me", j, r < 0.5])
        if kd in "ug" and ops[-1][0] in ("uc", "gr"): live.insert(rng.randrange(len(live) + 1), (kd, j))
        if rng.random() < 0.3: normal(rng.randrange(1, 5))
        if rng.random() < 0.05 and K0 < 60: K0 += 1; stall(1000 + K0)
    return {"cfg": cfg, "ops": ops + [["release"], ["finish"], ["checkall", 0], ["stats"], ["files"]]}

class Stalled(Session):
    def __init__(self, *a):
        Session.__init__(self, *a)
        self.srv.nofile = self.cfg.get("nofile")
        self.floods, self.idles, self.ms = {}, {}, {}
        self.kinds = set()
    def crowd(self): return len(self.up) + len(self.down) + len(self.pend) + len(self.floods) + len(self.idles) + len(self.ms)
    def run(self, ops):
        for i, op in enumerate(ops):
            self.i = i; t = time.time(); n = self.crowd()
            try: getattr(self, "op_" + op[0])(*op[1:])
            except Failure as e: raise Failure("op %d %s with %d stalled clients: %s" % (i, str(op)[:200], n, e)) from None
            dt = time.time() - t
            if dt > PROMPT and op[0] not in ("exhaust", "finish", "ge", "fe", "checkall", "waitflush"): raise Failure("op %d %s took %.1f s with %d stalled clients" % (i, str(op)[:200], dt, n))
            self.info["op_" + op[0]] += 1
            if op[0] in ("ub", "gb", "pb", "flood", "idle", "monstall"): self.kinds.add(op[0])
            if n >= 6 and len(self.kinds) >= 3 and op[0] in ("put", "get", "head", "list", "gc", "bulk", "del", "delt", "stats"): self.info["others"] += 1
            if op[0] in ("ue", "ge", "pe", "fe", "ie", "me"): self.info["resumed"] += 1
    def op_mark(self): pass
    def op_flood(self, j, t, k, n):
        """pipelined GETs, no answer of which is read"""
        x = self.key(t, k)
        if j in self.floods or self.cfg.get("nofile"): return
        c = self.ready_conn(rcvbuf=2048, sndbuf=4608)
        one = req("GET", "/%s/%s" % (t, k)); data = one * n; sent = 0
        c.s.settimeout(0.01)
        try:
            while sent < len(data): sent += c.s.send(data[sent:])
        except (socket.timeout, BlockingIOError): pass
        self.floods[j] = dict(c=c, t=t, k=k, one=one, n=n, sent=sent, hist=len(x.hist) - 1)
        self.srv.sync(1)
    def op_fe(self, j, abort=False):
        f = self.floods.pop(j, None)
        if not f: return
        c = f["c"]
        if abort: c.close(); self.srv.sync(2); return
        n = -(-f["sent"] // len(f["one"])); rest = f["one"] * n
        c.send_reading(rest[f["sent"]:])
        x = self.key(f["t"], f["k"]); i0 = f["hist"]
        for q in range(n):
            r = c.response(what="answer %d of %d pipelined ones" % (q, n))
            poss = [v for s in x.hist[i0:] for v in s[0]]
            if r.status == 200:
                if not any(v is not None and v.bytes() == r.body for v in poss): raise Failure("pipelined GET %d returned wrong data: %s" % (q, self.explain(r.body, f["t"], f["k"])))
            elif r.status != 404 or None not in poss: raise Failure("pipelined GET %d answered %s" % (q, r.brief()))
        c.close(); self.cnt_exact = False
    def op_idle(self, j, fresh):
        if j in self.idles: return
        self.idles[j] = self.srv.conn() if fresh else self.ready_conn()
    def op_ie(self, j, t, k):
        c = self.idles.pop(j, None)
        if not c: return
        c.send(req("GET", "/%s/%s" % (t, k)))
        r = c.response(what="answer on an idle connection")
        self.check_get(r, t, k, self.key(t, k).poss); c.close()
    def op_monstall(self, j, how):
        if j in self.ms or self.srv.mon_addr is None: return
        c = self.srv.conn(addr=self.srv.mon_addr, rcvbuf=2048); self.ms[j] = (c, how)
        c.send({"conn": b"GET /conn HTTP/1.1\r\n\r\n", "half": b"GET /conn HT", "flood": b"GET / HTTP/1.1\r\n\r\n"}[how])
        if how == "flood":
            c.s.settimeout(0.002)
            try:
                for _ in range(50): c.s.send(b"GET / HTTP/1.1\r\n\r\n" * 50)
            except OSError: pass
    def op_me(self, j, rst):
        m = self.ms.pop(j, None)
        if not m: return
        c, how = m
        if how == "conn": c.need(lambda: True if b"\r\n\r\n0\n" in c.buf else None, "stream")
        c.close(rst=rst)
    def op_exhaust(self, n, seed, m, gc):
        """more connections than the process may have descriptors; those established go on"""
        import random
        if not self.cfg.get("nofile"): return
        r = random.Random(seed); self.srv.sync(1)
        cs = [self.conn(c) for c in range(3)]
        for c in range(3): self.op_head(c, "none", "x")
        crowd = []
        for _ in range(n):
            try: crowd.append(self.srv.conn())
            except Failure: break
        t0 = time.time()
        for q in range(m):
            k = "ex%d" % r.randrange(4); a = r.random()
            if a < 0.5: self.op_get(q % 3, "none", k)
            elif a < 0.85: self.op_put(q % 3, "none", k, 7000 + q, r.choice([1, 100, 4096]))
            else: self.op_del(q % 3, "none", k)
        if time.time() - t0 > PROMPT: raise Failure("%d requests took %.1f s" % (m, time.time() - t0))
        for c in crowd: c.close(); self.srv.conns.remove(c)
        # with descriptors free again new clients are served
        c = self.ready_conn(); c.close()
        self.op_checkall(0); self.info["exhausted"] += 1
        if gc: self.op_gc(0)

def run(case, info):
    with Stalled(case["cfg"], info) as s: s.run(case["ops"])

def nontrivial(case, info):
    return info["others"] >= 15 and info["resumed"] >= 4

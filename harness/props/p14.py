"""P14: keys and tables whose hashes collide are never mistaken for each other.

Names are constructed to have equal (or neighbouring) MurmurHash3 values, by solving one block of the name, so every history is full of
collisions; the model knows that a key of equal hash in the same table may be displaced, and nothing else."""
from gen import *
import server
from server import Failure, Server, req, value_bytes
ID = "P14"
LEVEL = "exploration"
QUICK, THOROUGH = 2100, 60000
VARIANTS = ["asan", "rel", "nocow", "debug", "relbig"]
RULE = "a history counts as non-trivial when at least 3 requests named a key or table while another of equal hash was stored"
ASSUMPTIONS = ["an upload that begins while a key of equal hash is being uploaded may or may not be stored"]
SPECIAL = [0, 1, 0xffffffff, 0xfffffffe, 0x80000000, 13]

def gen(rng, i, tier):
    th = [rng.choice(SPECIAL) if rng.random() < 0.3 else rng.randrange(1 << 32)]
    if rng.random() < 0.6: th += [(th[0] + d) & 0xffffffff for d in rng.sample([1, 2, 3, -1, 4], rng.choice([1, 2, 3]))]
    ts = []
    for h in th: ts += [with_hash(rng, h, False) for _ in range(rng.choice([1, 2, 2, 3, 4] if len(th) == 1 else [1, 2, 2]))]
    ts = list(dict.fromkeys(ts))
    ks = []
    for _ in range(rng.choice([1, 2, 3])):
        h = rng.choice(SPECIAL) if rng.random() < 0.2 else rng.choice(th) if rng.random() < 0.3 else rng.randrange(1 << 32)
        ks += [with_hash(rng, h, True) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.3: ks.append(with_hash(rng, (h + 1) & 0xffffffff, True))
    ks = list(dict.fromkeys(ks))
    if rng.random() < 0.3: ks += ts[:2]; ks = list(dict.fromkeys(ks))
    few = ts if rng.random() < 0.5 else ts[:3]
    ops, vid = [], 0
    for _ in range(rng.choice([20, 50, 90]) if tier == "quick" else rng.choice([50, 150, 400])):
        r = rng.random(); c = rng.randrange(2); t = rng.choice(few); k = rng.choice(ks)
        if r < 0.36:
            vid += 1; ops.append(["put", c, t, k, vid, rng.choice([1, 60, 4096, 4097, 9000]), rng.choice([None] * 6 + [3])])
        elif r < 0.5: ops.append(["get", c, t, k])
        elif r < 0.54: ops.append(["head", c, t, k])
        elif r < 0.63: ops.append(["del", c, t, k])
        elif r < 0.67: ops.append(["bulk", c, t, [rng.choice(ks) for _ in range(rng.randrange(1, 4))]])
        elif r < 0.72: ops.append(["delt", c, t])
        elif r < 0.77: ops.append(["list", c, t])
        elif r < 0.83: vid += 1; ops.append(["ub", rng.randrange(3), t, k, vid, rng.choice([10, 4096, 5000, 20000])])
        elif r < 0.88: ops.append(["ue", rng.randrange(3), rng.random() < 0.2])
        elif r < 0.91: ops.append(["gb", t, k])
        elif r < 0.93: ops.append(["restart"])
        elif r < 0.95: ops.append(["gc", c])
        elif r < 0.96: ops.append(["time", rng.choice([1, 5])])
        else: ops.append(["check"])
    return {"cfg": dict(variant=rng.choice(["asan"] * 5 + ["rel", "relbig", "nocow", "debug"])), "ops": ops + [["check"], ["end"], ["restart"], ["check"]]}

class Model:
    def __init__(self, s, info):
        self.s, self.info = s, info
        self.t = {}         # table -> {hash: [candidate, ...]}, a candidate is None or (key, bytes, expires)
        self.ups = {}
        self.downs = []
        self.conns = {}
        self.now = NOW
    def conn(self, c):
        x = self.conns.get(c)
        if x is None or x.eof or x not in self.s.conns: x = self.conns[c] = self.s.conn()
        return x
    def ask(self, c, data, head=False): return self.s.request(self.conn(c), data, head=head)
    def ready(self, **kw):
        c = self.s.conn(**kw)
        if self.s.request(c, req("GET", "/~sync~/x")).status != 404: raise Failure("sync request")
        return c
    def cands(self, t, h):
        out = []
        for x in self.t.get(t, {}).get(h, [None]):
            if x is not None and x[2] is not None and x[2] < self.now: x = None
            if x not in out: out.append(x)
        return out
    def raw(self, t, h): return self.t.get(t, {}).get(h, [None])
    def eff(self, x): return None if x is not None and x[2] is not None and x[2] < self.now else x
    def narrow(self, t, h, ok):
        """keep what agrees with an observation; something expired may still be there"""
        if not self.writing(t, h): self.setc(t, h, [x for x in self.t.get(t, {}).get(h, [None]) if ok(self.eff(x))])
    def setc(self, t, h, l):
        self.t.setdefault(t, {})[h] = l
    def seen(self, t, k):
        """is something of equal hash, but another name, stored?"""
        h = murmur32(k)
        if any(x is not None and x[0] != k for x in self.cands(t, h)): self.info["key_collisions"] += 1; return
        th = murmur32(t)
        for o in self.t:
            if o != t and murmur32(o) == th and any(any(self.cands(o, g)) for g in self.t[o]): self.info["table_collisions"] += 1; return
    def writing(self, t, h): return [u for u in self.ups.values() if u["t"] == t and u["h"] == h and not u.get("gone")]

    def op_put(self, c, t, k, vid, n, ttl):
        b = value_bytes("p14-%s" % vid, n); h = murmur32(k); self.seen(t, k)
        r = self.ask(c, req("PUT", "/%s/%s" % (t, k), [("X-Ttl", ttl)] if ttl else [], b))
        if r.status != 200: raise Failure("PUT answered %s" % r.brief())
        new = (k, b, self.now + ttl if ttl else None)
        if self.writing(t, h): self.maybe(t, h, new)
        else: self.setc(t, h, [new])
    def maybe(self, t, h, new):
        for u in self.writing(t, h): u["alts"].append(new)
        self.setc(t, h, self.raw(t, h) + [new, None])
    def op_get(self, c, t, k, head=False):
        h = murmur32(k); self.seen(t, k)
        r = self.ask(c, req("HEAD" if head else "GET", "/%s/%s" % (t, k)), head=head)
        self.got(t, k, h, r, head)
    def got(self, t, k, h, r, head):
        cs = self.cands(t, h)
        if r.status == 200:
            ok = lambda x: x and x[0] == k and (int(r.h("Content-Length")) == len(x[1]) if head else r.body == x[1])
            m = [x for x in cs if x and x[0] == k and (int(r.h("Content-Length")) == len(x[1]) if head else r.body == x[1])]
            if not m: raise Failure("%r of table %r: %s, which is not what is stored under this name" % (k, t, r.brief()))
        elif r.status == 404:
            ok = lambda x: not x or x[0] != k
            m = [x for x in cs if not x or x[0] != k]
            if not m: raise Failure("%r of table %r, stored with %d bytes, is not found" % (k, t, len(cs[0][1])))
        else: raise Failure("GET answered %s" % r.brief())
        self.narrow(t, h, ok)
    def op_head(self, c, t, k): self.op_get(c, t, k, True)
    def op_del(self, c, t, k):
        h = murmur32(k); self.seen(t, k)
        r = self.ask(c, req("DELETE", "/%s/%s" % (t, k)))
        cs = self.cands(t, h); mine = [x for x in cs if x and x[0] == k]; other = [x for x in cs if not x or x[0] != k]
        w = self.writing(t, h)
        if r.status == 200:
            raw = any(x and x[0] == k for x in self.t.get(t, {}).get(h, []))       # an expired one may be gone or not
            if not mine and not raw and not any(u["k"] == k for u in w) and not any(a and a[0] == k for u in w for a in u["alts"]): raise Failure("DELETE of %r, which is not stored in table %r, answered %s" % (k, t, r.brief()))
            for u in w:
                if u["k"] == k: u["gone"] = True
            if w: self.setc(t, h, [None] + [x for x in self.raw(t, h) if not x or x[0] != k])
            else: self.setc(t, h, [None])
        elif r.status == 404:
            if not other and not w: raise Failure("DELETE of %r, which is stored in table %r, answered 404" % (k, t))
            self.narrow(t, h, lambda x: not x or x[0] != k)
        else: raise Failure("DELETE answered %s" % r.brief())
    def op_bulk(self, c, t, ks):
        if any(self.writing(t, murmur32(k)) for k in ks): return
        for k in ks: self.seen(t, k)
        r = self.ask(c, req("BULK", "/" + t, [("X-Delete", k) for k in ks]))
        if r.status != 200 and not (r.status == 404 and not self.exists(t, True)): raise Failure("BULK answered %s" % r.brief())
        for k in ks:
            h = murmur32(k)
            self.setc(t, h, [None if x and x[0] == k else x for x in self.raw(t, h)])
    def exists(self, t, sure):
        f = all if sure else any
        return any(f(x is not None for x in self.cands(t, h)) for h in self.t.get(t, {})) or any(u["t"] == t and not u.get("gone") for u in self.ups.values())
    def op_delt(self, c, t):
        if any(u["t"] == t for u in self.ups.values()): return
        if self.t.get(t): self.seen(t, "")
        r = self.ask(c, req("DELETE", "/" + t))
        if r.status not in (200, 404): raise Failure("DELETE of a table answered %s" % r.brief())
        if r.status == 404 and self.exists(t, True): raise Failure("DELETE of table %r, which is stored, answered 404" % t)
        self.t.pop(t, None)
    def op_list(self, c, t):
        if any(u["t"] == t for u in self.ups.values()): return
        self.seen(t, "")
        cn = self.s.conn(); cn.send(req("GET", "/" + t)); r = cn.listing(); cn.close()
        if r.status == 404:
            if self.exists(t, True): raise Failure("listing of %r, which has keys: 404" % t)
            return
        got = r.body.decode("latin1").split("\r\n")[:-1]
        if len(set(got)) != len(got): raise Failure("listing of %r names keys twice: %r" % (t, got))
        hs = {}
        for k in got:
            h = murmur32(k)
            if h in hs: raise Failure("listing names %r and %r, of equal hash" % (k, hs[h]))
            hs[h] = k
            raw = self.t.get(t, {}).get(h, [None])          # expired ones may still be listed
            m = [x for x in raw if x and x[0] == k]
            if not m: raise Failure("listing of %r names %r, which is not stored there" % (t, k))
            self.setc(t, h, m)
        for h in list(self.t.get(t, {})):
            if h not in hs:
                m = [x for x in self.raw(t, h) if self.eff(x) is None]
                if not m: raise Failure("listing of %r lacks %r" % (t, self.cands(t, h)[0][0]))
                self.setc(t, h, m)
    def op_gc(self, c): self.s.gc(self.conn(c))
    def op_time(self, dt): self.now += dt; self.s.set_time(self.now)

    def op_ub(self, u, t, k, vid, n):
        if u in self.ups: return
        h = murmur32(k); self.seen(t, k)
        b = value_bytes("p14-%s" % vid, n); data = req("PUT", "/%s/%s" % (t, k), (), b)
        cn = self.ready(); cutat = len(data) - 1 - n // 2
        cn.send(data[:cutat]); self.s.sync(3 + n // 4096)
        first = not self.writing(t, h)
        self.ups[u] = dict(t=t, k=k, h=h, b=b, cn=cn, rest=data[cutat:], first=first, alts=[])
        if first: self.setc(t, h, [None])
        else:
            for x in self.writing(t, h): x["alts"].append((k, b, None))
            self.ups[u]["alts"] += [(x["k"], x["b"], None) for x in self.writing(t, h)]
    def op_ue(self, u, abort):
        if u not in self.ups: return
        x = self.ups.pop(u); t, h = x["t"], x["h"]
        if abort: x["cn"].close(rst=True); self.s.sync(3)
        else:
            x["cn"].send(x["rest"]); r = x["cn"].response(); x["cn"].close()
            if r.status != 200: raise Failure("PUT answered %s" % r.brief())
        me = (x["k"], x["b"], None)
        others = [y for y in self.ups.values() if y["t"] == t and y["h"] == h]
        if x["first"] and not x["alts"] and not x.get("gone") and not others: self.setc(t, h, [None if abort else me])
        else: self.setc(t, h, self.raw(t, h) + [None] + x["alts"] + ([] if abort else [me]))
    def op_gb(self, t, k):
        h = murmur32(k); cs = self.cands(t, h)
        if len(cs) != 1 or not cs[0] or cs[0][0] != k or len(self.downs) > 3: return
        cn = self.ready(rcvbuf=2048); cn.send(req("GET", "/%s/%s" % (t, k))); self.s.sync(2)
        self.downs.append((cn, cs[0]))
    def op_end(self):
        for u in list(self.ups): self.op_ue(u, False)
        for cn, x in self.downs:
            r = cn.response(); cn.close()
            if r.status != 200 or r.body != x[1]: raise Failure("download of %r begun before a key of equal hash was stored: %s" % (x[0], r.brief()))
            self.info["downloads"] += 1
        self.downs = []
    def op_restart(self):
        self.op_end(); self.s.stop(); self.conns = {}; self.s.start()
        self.info["restarts"] += 1
    def op_check(self):
        n = 0
        for t in list(self.t):
            for h in list(self.t[t]):
                for k in {x[0] for x in self.t[t][h] if x}: self.op_get(0, t, k)
        if self.ups: return
        for t in list(self.t): self.op_list(0, t)
        st = self.s.stats()
        lo = hi = 0; tl = th = 0
        for t in self.t:
            a = sum(all(x is not None for x in self.cands(t, h)) for h in self.t[t]); b = sum(any(x is not None for x in self.t[t][h]) for h in self.t[t])
            lo += a; hi += b; tl += a > 0; th += b > 0
        if not lo <= st["keys"] <= hi or not tl <= st["tables"] <= th: raise Failure("statistics: %d keys, %d tables; stored are %d-%d keys, %d-%d tables" % (st["keys"], st["tables"], lo, hi, tl, th))

def run(case, info):
    with Server(case["cfg"]["variant"], frozen=NOW) as s:
        s.start({"SNDBUF": 4608})
        m = Model(s, info)
        for j, o in enumerate(case["ops"]):
            try: getattr(m, "op_" + o[0])(*o[1:])
            except Failure as e: raise Failure("op %d %s: %s" % (j, str(o)[:120], e)) from None
        s.stop()

def nontrivial(case, info):
    return info["key_collisions"] + info["table_collisions"] >= 3

"""P11: a table listing names exactly the table's keys within the limits asked.

Model-based search: tables of 0 to 30000 keys grown and shrunk at random, listings with every kind of start and limit (also nonsense),
consecutive ranges up to the announced total, and listings read slowly while other connections change the table."""
from gen import *
import server
from server import Failure, Server, req, value_bytes
ID = "P11"
LEVEL = "exploration"
QUICK, THOROUGH = 2100, 40000
VARIANTS = ["asan", "rel", "debug", "relbig"]
RULE = "a history counts as non-trivial when at least 3 listings with a start or limit, complete range scans, or listings changed while being sent were compared, on tables of at least 5 keys"
ASSUMPTIONS = ["without a limit the first 10000 positions are listed (project default)", "expired keys not yet collected, and keys being uploaded, may or may not be listed"]
DEFAULT = 10000

def gen(rng, i, tier):
    ts = names(rng, rng.choice([1, 1, 2]), False); big = i % 40 == 7
    ops, vid = [], 0
    n0 = rng.choice([8000, 9999, 10000, 10001, 12000, 25000]) if big else rng.choice([0, 1, 2, 3, 4, 5, 15, 16, 17, 60, 200, 700])
    wild = rng.random() < 0.5 and not big
    plen = rng.choice([0, 0, 20, 100]) if not big else rng.choice([0, 0, 30])
    ops.append(["load", ts[0], n0, rng.randrange(10 ** 6), wild, plen])
    def num():
        r = rng.random()
        if r < 0.5: return str(rng.randrange(0, 70))
        if r < 0.7: return str(rng.choice([0, 1, n0, n0 + 1, max(0, n0 - 1), 2 * n0, 10000, 9999, 10001, 4, 16, 32, 64, 128, 65536]))
        if r < 0.85: return str(rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 30, 2 ** 31 - 2, 2 ** 30]))
        if r < 0.9: return rng.choice(["-1", "-0", "-2147483648", "-2147483649", "+5", "0x10", "1e3", "abc", "", " 5", "5 ", "1,2", "\t3", "%d", "0" * 40 + "7", "00", "007"])
        return str(rng.randrange(0, 2 ** 31))
    pres = ["putup", "putup", "put", "get", "head", "del", "none", "bulk", "gone", "stats", "gc", "getk"]
    for _ in range(rng.choice([6, 15, 30]) if not big else 8):
        r = rng.random(); t = rng.choice(ts)
        if rng.random() < 0.2: ops.append(["pre", [[rng.choice(pres), rng.choice([1, 2, 5, 40, 4096, 9000])] for _ in range(rng.choice([0, 1, 1, 2, 4]))]])
        if r < 0.3:
            h = []
            if rng.random() < 0.7: h.append([rng.choice(["X-Limit", "x-limit"]), num()])
            if rng.random() < 0.6: h.append([rng.choice(["X-Start", "x-start"]), num()])
            if rng.random() < 0.3: h.insert(rng.randrange(len(h) + 1), ["X-Other", "17"])
            rng.shuffle(h)
            ops.append(["list", t, h])
        elif r < 0.48: ops.append(["ranges", t, rng.choice([1, 2, 3, 5, 7, 16, 33, 100, 1000, 9999, 10000, 20000, 2 ** 31 - 1])])
        elif r < 0.6: ops.append(["load", t, rng.choice([1, 2, 5, 20, 100]), rng.randrange(10 ** 6), wild, plen])
        elif r < 0.72: ops.append(["drop", t, rng.choice([1, 2, 0.1, 0.5, 0.9, 1.0]), rng.randrange(10 ** 6)])
        elif r < 0.75: ops.append(["delt", t])
        elif r < 0.78: ops.append(["ttl", t, rng.randrange(10 ** 6), rng.choice([1, 4])])
        elif r < 0.81: ops.append(["time", rng.choice([1, 3, 6])])
        elif r < 0.83: ops.append(["gc"])
        elif r < 0.86: ops.append(["up", t, rng.randrange(10 ** 6)])
        elif r < 0.87: ops.append(["restart"])
        else: ops += [["lb", t]] + [rng.choice([["load", t, rng.choice([1, 40, 300]), rng.randrange(10 ** 6), wild, plen], ["drop", t, rng.choice([1, 0.3, 1.0]), rng.randrange(10 ** 6)], ["delt", t], ["gc"], ["stop"]])
                               for _ in range(rng.choice([1, 2, 3]))] + [["le"]]
    return {"cfg": dict(variant=rng.choice(["asan"] * 3 + ["rel", "rel", "relbig", "debug"]) if not big else rng.choice(["rel", "asan", "relbig"])), "ops": ops + [["ranges", ts[0], rng.choice([7, 50, 10000]) if not big else 3000], ["list", ts[0], []]]}

class Model:
    def __init__(self, s, info):
        self.s, self.info, self.now = s, info, NOW
        self.t = {}             # table -> {key: expires or None}
        self.hs = {}            # table -> {hash: key}
        self.ups = []           # (conn, t, key)
        self.slow = None
        self.c = None
        self.pre = []
    def conn(self):
        if self.c is None or self.c.eof or self.c not in self.s.conns: self.c = self.s.conn()
        return self.c
    def alive(self, e): return e is None or e >= self.now

    def send_all(self, reqs, want):
        """pipelined in groups"""
        import random
        a = 0
        while a < len(reqs):
            # no more than fits into the socket buffers, as answers are read afterwards
            n = b = 0
            while a + n < len(reqs) and n < 200 and b < 60000: b += len(reqs[a + n]); n += 1
            g = reqs[a:a + n]; a += n; c = self.conn(); c.send(b"".join(g))
            for _ in g:
                r = c.response()
                if r.status not in want: raise Failure("answered %s" % r.brief())

    def op_load(self, t, n, seed, wild, plen, ttl=None):
        import random
        rng = random.Random(seed); d = self.t.setdefault(t, {}); hs = self.hs.setdefault(t, {})
        writing = {murmur32(k) for _, x, k in self.ups if x == t}
        reqs = []
        for j in range(n):
            k = name(rng, True) if wild else ("x" * plen) + "%x" % rng.randrange(16 ** rng.choice([2, 4, 6]))
            if len(k) > 1000 and rng.random() < 0.7: k = k[:1000]
            h = murmur32(k)
            if h in writing: continue
            if hs.get(h, k) != k: d.pop(hs[h], None)         # displaced
            hs[h] = k; d[k] = self.now + ttl if ttl else None
            self.touch(t, k, "+")
            reqs.append(req("PUT", "/%s/%s" % (t, k), [("X-Ttl", ttl)] if ttl else (), b"v"))
        self.send_all(reqs, (200,))
        if not d: self.t.pop(t)
    def op_ttl(self, t, seed, ttl): self.op_load(t, 3, seed, False, 0, ttl)
    def op_drop(self, t, amount, seed):
        import random
        rng = random.Random(seed); d = self.t.get(t, {}); ks = sorted(d)
        pick = rng.sample(ks, min(len(ks), amount if isinstance(amount, int) else int(len(ks) * amount)))
        self.send_all([req("DELETE", "/%s/%s" % (t, k)) for k in pick], (200, 404))
        for k in pick: del d[k]; self.touch(t, k, "-")
        if not d: self.t.pop(t, None)
    def op_delt(self, t):
        if any(x == t for _, x, k in self.ups): return
        r = self.s.request(self.conn(), req("DELETE", "/" + t))
        if r.status != 200 and t in self.t: raise Failure("DELETE of a table answered %s" % r.brief())
        for k in self.t.pop(t, {}): self.touch(t, k, "-")
    def op_time(self, dt): self.now += dt; self.s.set_time(self.now)
    def op_gc(self): self.s.gc(self.conn())
    def op_up(self, t, seed):
        if len(self.ups) > 2: return
        k = "up%d" % seed; c = self.s.conn()
        if self.s.request(c, req("GET", "/~sync~/x")).status != 404: raise Failure("sync")
        if murmur32(k) in self.hs.get(t, {}): return
        c.send(req("PUT", "/%s/%s" % (t, k), (), b"x" * 100)[:-1]); self.s.sync(3)
        self.ups.append((c, t, k)); self.t.setdefault(t, {})
    def op_restart(self):
        if self.slow: return
        self.s.stop(); self.s.start(); self.ups = []; self.c = None
        for t in list(self.t):
            if not self.t[t]: del self.t[t]
    def op_stop(self): pass

    def sets(self, t):
        d = self.t.get(t, {})
        must = {k for k, e in d.items() if self.alive(e)}
        return must, set(d) | {k for _, x, k in self.ups if x == t}
    def keys(self, r):
        b = r.body.split(b"\r\n")
        # every key, also the last, ends with CRLF; nothing else is in the body
        if b.pop() != b"": raise Failure("the listing does not end with a line end: %r" % r.body[-100:])
        ks = [x.decode("latin1") for x in b]
        if len(set(ks)) != len(ks): raise Failure("the listing names %r twice" % next(k for k in ks if ks.count(k) > 1)[:60])
        return ks
    def head(self, t, r, must, may):
        e, tot = r.h("X-Entries"), r.h("X-Total")
        if e is None or not e.isdigit() or tot is None or not tot.isdigit(): raise Failure("listing without entries and total: %r" % r.head)
        if not len(must) <= int(e) <= len(may): raise Failure("listing announces %s entries, the table has %d" % (e, len(must)))
        if int(tot) < int(e): raise Failure("listing announces %s entries in a total of %s" % (e, tot))
        return int(tot)
    def listing(self, t, hs=()):
        c = self.s.conn(); self.before(c, t); c.send(req("GET", "/" + t, [tuple(h) for h in hs])); r = c.listing(); c.close(); return r
    def op_pre(self, pre): self.pre = pre
    def before(self, c, t):
        """requests of other kinds on the connection of a listing: nothing of them may be left over"""
        odd = [("X-Start", 1), ("X-Limit", 1)]
        for kind, n in self.pre:
            self.info["pre_" + kind] += 1
            if kind == "putup":
                # of a key that is just being uploaded by somebody else: accepted, not stored
                for _, x, k in self.ups[-1:]:
                    if self.s.request(c, req("PUT", "/%s/%s" % (x, k), (), b"y" * n)).status != 200: raise Failure("second upload of a key refused")
            elif kind == "put": self.s.request(c, req("PUT", "/~pre~/k%d" % n, (), b"z" * n))
            elif kind == "get": self.s.request(c, req("GET", "/~pre~/k%d" % n))
            elif kind == "head": self.s.request(c, req("HEAD", "/~pre~/k%d" % n, odd), head=True)
            elif kind == "del": self.s.request(c, req("DELETE", "/~pre~/k%d" % n, odd))
            elif kind == "none": self.s.request(c, req("GET", "/~sync~", odd))
            elif kind == "bulk": self.s.request(c, req("BULK", "/" + t, [("X-Delete", "~no%d" % j) for j in range(min(n, 40))]))
            elif kind == "gone": self.s.request(c, req("DELETE", "/~sync~", odd))
            elif kind == "stats": self.s.stats(c)
            elif kind == "gc": self.s.gc(c)
            elif kind == "getk":
                for k in sorted(self.sets(t)[0])[:1]: self.s.request(c, req("GET", "/%s/%s" % (t, k)))
    def nothing(self, t, r):
        """answers for absent tables"""
        if t in self.t and (self.sets(t)[0]): raise Failure("listing of a table with %d keys answered %s" % (len(self.t[t]), r.brief()))

    def op_list(self, t, hs):
        r = self.listing(t, hs); must, may = self.sets(t)
        vals = {}
        bad = odd = False
        for h, v in hs:
            n = h.lower()
            if n not in ("x-limit", "x-start"): continue
            if not v.isdigit() or int(v) > 2 ** 31 - 1: odd = True       # may be refused or understood somehow
            else: vals[n] = int(v)
        if r.status == 400 and odd: return
        if r.status == 404: return self.nothing(t, r)
        if r.status != 200: raise Failure("listing with %s answered %s" % (hs, r.brief()))
        if not may: raise Failure("listing of an absent table answered %s" % r.brief())
        ks = self.keys(r); tot = self.head(t, r, must, may)
        if not set(ks) <= may: raise Failure("the listing names %r, which is not in the table" % sorted(set(ks) - may)[0][:60])
        if odd: return
        lim, start = vals.get("x-limit", DEFAULT), vals.get("x-start", 0)
        if len(ks) > lim: raise Failure("%d keys listed with a limit of %d" % (len(ks), lim))
        if start == 0 and lim >= tot and not must <= set(ks): raise Failure("the listing lacks %r" % sorted(must - set(ks))[0][:60])
        if start >= tot and ks: raise Failure("keys listed from %d of a total of %d" % (start, tot))
        # everything left out has room outside the range asked for
        out = tot - max(0, min(tot - min(start, tot), lim))
        if len(must - set(ks)) > out: raise Failure("%d keys are left out, only %d positions of %d are outside the range %d+%d" % (len(must - set(ks)), out, tot, start, lim))
        if hs and len(may) >= 5: self.info["limited"] += 1

    def op_ranges(self, t, step):
        must, may = self.sets(t); pos, got, tot = 0, [], 1
        if len(may) / step > 40: step = len(may) // 40 + 1
        while pos < tot:
            r = self.listing(t, [("X-Start", pos), ("X-Limit", step)])
            if r.status == 404: return self.nothing(t, r)
            if r.status != 200: raise Failure("listing from %d by %d answered %s" % (pos, step, r.brief()))
            ks = self.keys(r); tot = self.head(t, r, must, may)
            if len(ks) > step: raise Failure("%d keys listed with a limit of %d" % (len(ks), step))
            got += ks; pos += step
        if len(set(got)) != len(got): raise Failure("consecutive ranges of %d name %r twice" % (step, next(k for k in got if got.count(k) > 1)[:60]))
        if not must <= set(got): raise Failure("consecutive ranges of %d up to the total of %d lack %r" % (step, tot, sorted(must - set(got))[0][:60]))
        if not set(got) <= may: raise Failure("consecutive ranges name %r, which is not in the table" % sorted(set(got) - may)[0][:60])
        if len(may) >= 5: self.info["scans"] += 1

    def op_lb(self, t):
        if self.slow: return
        must, may = self.sets(t)
        if not must: return
        c = self.s.conn(rcvbuf=2048)
        c.send(req("GET", "/" + t)[:-2]); self.s.sync(2); c.send(b"\r\n"); self.s.sync(3)
        self.slow = dict(t=t, c=c, must=set(must), may=set(may), n=len(must) if len(must) == len(may) else None)
    def touch(self, t, k, how):
        if self.slow and self.slow["t"] == t:
            if how == "+": self.slow["may"].add(k)
            else: self.slow["must"].discard(k)
            self.slow["changed"] = True
    def op_le(self):
        if not self.slow: return
        x, self.slow = self.slow, None
        # displaced keys are not present throughout
        cur = self.t.get(x["t"], {}); must = {k for k in x["must"] if k in cur}
        r = x["c"].listing(); x["c"].close()
        if r.status == 404 and not must: return
        if r.status != 200: raise Failure("listing that began before the changes answered %s" % r.brief())
        ks = self.keys(r)
        if not set(ks) <= x["may"]: raise Failure("a listing during changes names %r, which was never in the table" % sorted(set(ks) - x["may"])[0][:60])
        if not must <= set(ks) and int(r.h("X-Total")) <= DEFAULT: raise Failure("a listing during changes lacks %r, which was there throughout" % sorted(must - set(ks))[0][:60])
        if x.get("changed") and len(x["may"]) >= 5: self.info["changed_during"] += 1

def run(case, info):
    with Server(case["cfg"]["variant"], frozen=NOW) as s:
        s.start({"SNDBUF": 4608})
        m = Model(s, info)
        for j, o in enumerate(case["ops"]):
            try: getattr(m, "op_" + o[0])(*o[1:])
            except Failure as e: raise Failure("op %d %s: %s" % (j, str(o)[:120], e)) from None
        s.stop()

def nontrivial(case, info):
    return info["limited"] + info["scans"] + info["changed_during"] >= 3

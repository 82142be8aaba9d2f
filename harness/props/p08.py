"""P08: the size limit is enforced by evicting least recently used keys first.

Stateful search against an exact model of the order of use: which keys survive each collection is read from listings (which are not a
use) and must be the ones the property names, no more and no fewer."""
import re
from gen import *
import server
from server import Failure, Server, req, value_bytes
ID = "P08"
LEVEL = "exploration"
QUICK, THOROUGH = 3360, 60000
VARIANTS = ["relbig", "asanbig", "nocowbig", "rel5", "rel", "asan", "debug"]
RULE = "a history counts as non-trivial when at least 2 collections evicted keys while other keys survived"
ASSUMPTIONS = ["the percentage of a limit may be rounded by a byte (or 1e-6 of it)", "after a restart the order of use is not kept, so every key is used again first",
               "the total a collection starts from is what the statistics page reports just before it"]
EVERY = 50      # insertions between collections, as documented; twice that is tolerated

def gen(rng, i, tier):
    if i == 0: return {"cfg": dict(kind="real2g", variant="relbig", args=["-s", "1000000"], max=1000000, pct=20), "ops": []}
    mode = "auto" if rng.random() < 0.3 else "exact"
    mx = rng.choice([1, 100, 5000, 10000, 20000, 40000, 40000, 70000, 100000, 1000000])
    pct = rng.choice([None, None, 0, 1, 10, 12.5, 25, 50, 90, 99.5, 100])
    args = ["-s", str(mx)] + (["-l", str(pct)] if pct is not None else [])
    if rng.random() < 0.08: mx, args = 0, []
    elif rng.random() < 0.08: mx = 10 ** rng.choice([10, 12, 15]); args[1] = str(mx)
    if rng.random() < 0.2: args = ["--database-max-size=" + args[1] if a == 1 else x for a, x in enumerate(args) if a != 0] if args else args
    ts = names(rng, rng.choice([1, 1, 2, 4]), False, False); ks = names(rng, rng.choice([4, 10, 25, 60]), True, False)
    few = [max(1, min(mx, 10 ** 6) // rng.choice([3, 5, 10, 30])), rng.choice([1, 100, 4096]), rng.choice([4097, 9000])]
    def sz():
        r = rng.random()
        return min(rng.choice(few), 120000) if r < 0.6 else rng.randrange(1, 9000) if r < 0.95 else rng.choice([50000, 100000])
    tt = rng.random() < 0.3; hg = rng.random() < 0.1
    ops, vid, open_up = [], 0, []
    for _ in range(rng.choice([40, 100, 200]) if tier == "quick" else rng.choice([100, 300, 1000])):
        r = rng.random(); t, k, c = rng.choice(ts), rng.choice(ks), rng.randrange(2); vid += 1
        ttl = rng.choice([None, 1, 3, 1000]) if tt else None
        if r < 0.5: ops.append(["put", c, t, k, vid, sz(), ttl])
        elif r < 0.68: ops.append(["get", c, t, k])
        elif r < 0.74: ops.append(["head", c, t, k])
        elif r < 0.78: ops.append(["del", c, t, k])
        elif r < 0.79: ops.append(["delt", c, t])
        elif r < 0.80: ops.append(["restart"])
        elif r < 0.82 and tt: ops.append(["time", rng.choice([1, 2, 4])])
        elif r < 0.87: ops.append(["up", c, t, k, vid, sz(), rng.randrange(3)])      # begins, others happen, ends
        elif r < 0.9: ops.append(["down", c, t, k])                                  # stays unread until the end of the case
        elif r < 0.92: ops.append(["upend"])
        elif r < 0.93:
            if hg: ops.append(["huge", t, rng.choice([10 ** 9, 2 ** 31 - 1])])   # an announced size, never sent
        elif mode == "exact": ops.append(["gc", c])
    return {"cfg": dict(kind=mode, variant=rng.choice(["relbig", "relbig", "asanbig", "nocowbig"]) if mode == "exact" else rng.choice(["rel5", "rel5", "rel", "asan", "debug"]),
                        args=args, max=mx, pct=20 if pct is None else pct), "ops": ops + ([["gc", 0]] if mode == "exact" else []) + [["check"]]}

class Model:
    def __init__(self, case, info, s):
        self.cfg, self.info, self.s = case["cfg"], info, s
        self.lru = []                    # [t, k] least recent first
        self.v = {}                      # (t, k) -> (bytes, exp)
        self.ups, self.downs, self.huge = [], [], []
        self.now = NOW
        self.conns = {}
        self.margin = int(self.cfg["max"] * self.cfg["pct"] / 100.0)
        self.tol = 1 + self.cfg["max"] // 10 ** 6
        self.recent = []

    def conn(self, c):
        x = self.conns.get(c)
        if x is None or x.eof or x not in self.s.conns: x = self.conns[c] = self.s.conn()
        return x
    def ready(self, **kw):
        """a connection that the server's event loop already serves"""
        c = self.s.conn(**kw)
        if self.s.request(c, req("GET", "/~sync~/x")).status != 404: raise Failure("sync request")
        return c
    def ask(self, c, data, head=False):
        return self.s.request(self.conn(c), data, head=head)
    def use(self, tk):
        if tk in self.lru: self.lru.remove(tk)
        self.lru.append(tk)
    def drop(self, tk):
        if tk in self.lru: self.lru.remove(tk)
        self.v.pop(tk, None)
    def alive(self, tk):
        e = self.v[tk][1]
        return e is None or e >= self.now
    def size(self, tks):
        return sum(len(self.v[x][0]) for x in tks)

    def listed(self):
        """keys the server still has, without using them"""
        out = set()
        for t in {t for t, k in self.lru} | {u["tk"][0] for u in self.ups}:
            c = self.s.conn(); c.send(req("GET", "/" + t)); r = c.listing(); c.close()
            if r.status == 404: continue
            for k in r.body.decode("latin1").split("\r\n")[:-1]: out.add((t, k))
        return out

    def survivors(self, what, total, exact_total=None):
        """a collection may have happened in `what`, when this many bytes were stored; compare and take over"""
        got = self.listed()
        writing = {u["tk"] for u in self.ups if u["on"]}
        old = list(self.lru)
        keep = [x for x in old if x in got]
        gone = [x for x in old if x not in got]
        if not got <= set(old) | writing | {h for h in self.huge}:
            raise Failure("%s: keys listed that are not stored: %s" % (what, sorted(got - set(old) - writing)[:3]))
        ev = [x for x in gone if self.alive(x)]
        expired = [x for x in old if not self.alive(x)]
        mx = self.cfg["max"]
        if ev:
            if not mx: raise Failure("%s: no size limit, but unexpired keys %s are gone" % (what, ev[:3]))
            if not any(t > mx for t in total):
                raise Failure("%s: %s bytes are stored, limit %d, but unexpired keys %s are gone" % (what, total, mx, ev[:3]))
            live = [x for x in old if self.alive(x)]
            if ev != live[:len(ev)]:
                first = next(x for x in live if x in got)
                later = next(x for x in ev if live.index(x) > live.index(first))
                raise Failure("%s: %s was evicted although %s was used less recently" % (what, later, first))
            if any(x in got for x in expired):
                raise Failure("%s: unexpired keys were evicted while expired ones were kept" % what)
            self.info["evicting"] += 1
            if keep: self.info["evicting_partly"] += 1
        goal = mx - self.margin
        xsize = self.size(expired)
        return ev, keep, gone, expired, goal, xsize

    def check_amount(self, what, totals, ev, keep, expired, goal, must):
        """for one of the possible starting totals the right number of keys went"""
        mx = self.cfg["max"]; errs = []
        for tot in totals:
            # expired keys that were still counted in the total go first
            if mx and tot > mx:
                rest = tot - self.size(expired) - self.size(ev)
                if rest > goal + self.tol and keep:
                    errs.append("%d bytes are left, the goal is %d, and %d keys could still go" % (rest, goal, len(keep))); continue
                if ev and rest + self.size(ev[-1:]) <= goal - self.tol:
                    errs.append("more keys than needed were evicted: %d bytes with, %d without the last one, goal %d" % (rest + self.size(ev[-1:]), rest, goal)); continue
            elif ev:
                errs.append("%d bytes, limit %d, evicted %s" % (tot, mx, ev[:3])); continue
            return
        if must or ev: raise Failure("%s: %s" % (what, errs[0]))

    def op_put(self, c, t, k, vid, n, ttl):
        if any(u["tk"] == (t, k) for u in self.ups): return
        b = value_bytes("p8-%s" % vid, n)
        tk = (t, k)
        old = len(self.v[tk][0]) if tk in self.v else 0
        if self.auto: before = self.s.stats()["bytes"]
        hs = [("X-Ttl", ttl)] if ttl else []
        r = self.ask(c, req("PUT", "/%s/%s" % tk, hs, b))
        if r.status != 200: raise Failure("PUT answered %s" % r.brief())
        if self.auto:
            if tk in self.lru: self.lru.remove(tk)
            xs = [x for x in self.lru if not self.alive(x)]
            st = self.s.stats()["bytes"]
            ev, keep, gone, expired, goal, _ = self.survivors_but(tk, "PUT of %s/%s" % tk, [before - old, before, before - old + n])
            if ev or gone:
                expired = [x for x in expired if x in gone]
                self.check_amount("automatic collection in PUT of %s/%s" % tk, [before - old, before, before - old + n], ev, keep, expired, goal, False)
            for x in gone: self.drop(x)
            self.recent = (self.recent + [n])[-(2 * EVERY + 2):]
            if self.cfg["max"] and st > self.cfg["max"] + sum(self.recent) and not self.huge:
                raise Failure("%d bytes are stored, the limit is %d, and %d insertions have not led to a collection" % (st, self.cfg["max"], len(self.recent)))
        self.v[tk] = (b, self.now + ttl if ttl else None)
        self.use(tk)
        self.info["puts"] += 1

    def survivors_but(self, tk, what, totals):
        save = self.v.pop(tk, None)
        self.ups.append(dict(tk=tk, on=True))
        try:
            return self.survivors(what, totals)
        finally:
            self.ups.pop()

    def op_get(self, c, t, k, head=False):
        tk = (t, k)
        r = self.ask(c, req("HEAD" if head else "GET", "/%s/%s" % tk), head=head)
        if tk in self.v and self.alive(tk):
            if r.status != 200 or (not head and r.body != self.v[tk][0]): raise Failure("%s/%s: %s, expected %d bytes" % (t, k, r.brief(), len(self.v[tk][0])))
            self.use(tk)
        else:
            if r.status != 404: raise Failure("%s/%s: %s, expected 404" % (t, k, r.brief()))
            self.drop(tk)
    def op_head(self, c, t, k): self.op_get(c, t, k, True)
    def op_del(self, c, t, k):
        if any(u["tk"] == (t, k) for u in self.ups): return
        self.ask(c, req("DELETE", "/%s/%s" % (t, k))); self.drop((t, k))
    def op_delt(self, c, t):
        if any(u["tk"][0] == t for u in self.ups) or any(h[0] == t for h in self.huge): return
        self.ask(c, req("DELETE", "/" + t))
        for x in [x for x in self.lru if x[0] == t]: self.drop(x)
    def op_time(self, dt): self.now += dt; self.s.set_time(self.now)

    def op_up(self, c, t, k, vid, n, how):
        tk = (t, k)
        if self.auto or len(self.ups) >= 3 or any(u["tk"] == tk for u in self.ups): return
        b = value_bytes("p8-%s" % vid, n); data = req("PUT", "/%s/%s" % tk, (), b)
        cn = self.ready(); cn.send(data[:-1] if how == 0 else data[:len(data) - n + n // 2] if how == 1 else data[:len(data) - n - 2])
        self.s.sync(3 + n // 4096)
        self.drop(tk)
        self.ups.append(dict(tk=tk, cn=cn, rest=data[-1:] if how == 0 else data[len(data) - n + n // 2:] if how == 1 else data[len(data) - n - 2:], b=b, on=True))
    def op_upend(self):
        if not self.ups: return
        u = self.ups.pop(0)
        u["cn"].send(u["rest"])
        r = u["cn"].response()
        if r.status != 200: raise Failure("PUT answered %s" % r.brief())
        u["cn"].close()
        self.v[u["tk"]] = (u["b"], None); self.use(u["tk"])
        self.info["late_uploads"] += 1
    def op_down(self, c, t, k):
        tk = (t, k)
        if self.auto or tk not in self.v or not self.alive(tk) or len(self.downs) > 3: return
        cn = self.ready(rcvbuf=2048); cn.send(req("GET", "/%s/%s" % tk)); self.s.sync(2)
        self.use(tk); self.downs.append((cn, self.v[tk][0]))
    def op_huge(self, t, n):
        if self.auto or len(self.huge) >= 4: return
        tk = (t, "huge%d" % len(self.huge))
        cn = self.ready(); cn.send(("PUT /%s/%s HTTP/1.1\r\nContent-Length: %d\r\n\r\nx" % (tk + (n,))).encode()); self.s.sync(3)
        self.huge.append(tk)

    def op_gc(self, c):
        before = self.s.stats()["bytes"]
        if not self.ups and not self.huge:
            live = self.size([x for x in self.lru if self.alive(x)]); al = self.size(self.lru)
            if not live <= before <= al: raise Failure("statistics report %d bytes, stored are %d" % (before, al))
        st = self.s.gc(self.conn(c))
        ev, keep, gone, expired, goal, _ = self.survivors("collection", [before])
        # what had expired may have been removed by reads before, then it was not in the total
        exp_counted = expired if before >= self.size(self.lru) or self.ups or self.huge else []
        self.check_amount("collection", [before] if len(exp_counted) == len(expired) else [before, before + self.size(expired)], ev, keep, expired, goal, True)
        for x in gone: self.drop(x)
        if self.cfg["max"] and before > self.cfg["max"]:
            for x in [x for x in self.lru if not self.alive(x)]: raise Failure("expired key %s kept by a collection above the limit" % (x,))
        if not self.ups and not self.huge:
            want = self.size(self.lru); live = self.size([x for x in self.lru if self.alive(x)])
            if not live <= st["bytes"] <= want: raise Failure("after a collection statistics report %d bytes, stored are %d" % (st["bytes"], want))
        self.info["collections"] += 1

    def op_restart(self):
        if self.auto or self.ups or self.huge: return
        self.s.stop(); self.conns = {}; self.downs = []
        self.s.start()
        if self.cfg["max"]:
            # a shutdown does not collect; nothing is lost
            pass
        for tk in [x for x in self.lru]:
            self.op_get(0, *tk)

    def op_check(self):
        for u in list(self.ups): self.op_upend()
        for cn, b in self.downs:
            r = cn.response()
            if r.status != 200 or r.body != b: raise Failure("a download that began before its key was evicted got %s" % r.brief())
            cn.close()
        for tk in list(self.lru): self.op_get(1, *tk)

def run(case, info):
    cfg = case["cfg"]
    if cfg["kind"] == "real2g": return real2g(case, info)
    with Server(cfg["variant"], args=cfg["args"], frozen=NOW) as s:
        s.start({"SNDBUF": 4608})
        m = Model(case, info, s); m.auto = cfg["kind"] == "auto"
        for j, o in enumerate(case["ops"]):
            try: getattr(m, "op_" + o[0])(*o[1:])
            except Failure as e: raise Failure("op %d %s: %s" % (j, str(o)[:120], e)) from None
        s.stop()

def real2g(case, info):
    """really stored values of more than 2 GiB in total, all of which but the last must go"""
    with Server(case["cfg"]["variant"], args=case["cfg"]["args"], frozen=NOW) as s:
        s.start()
        chunk = bytes(1 << 20)
        for k in range(3):
            c = s.conn(); c.send(b"PUT /big/k%d HTTP/1.1\r\nContent-Length: %d\r\n\r\n" % (k, 1100 << 20))
            for _ in range(1100): c.send(chunk)
            if c.response().status != 200: raise Failure("PUT failed")
            c.close()
        c = s.conn()
        if s.request(c, req("PUT", "/big/small", (), b"x" * 100)).status != 200: raise Failure("PUT failed")
        if s.stats()["bytes"] != 3 * (1100 << 20) + 100: raise Failure("statistics: %s" % s.stats())
        st = s.gc()
        if st["keys"] != 1 or st["bytes"] != 100: raise Failure("limit 1000000: after a collection %d keys of %d bytes are left, only the last of 100 bytes may be" % (st["keys"], st["bytes"]))
        if s.request(c, req("GET", "/big/small")).body != b"x" * 100: raise Failure("the most recently used key was evicted")
        info["evicting"] += 2; info["evicting_partly"] += 2
        s.stop()

def nontrivial(case, info):
    return info["evicting_partly"] >= 2

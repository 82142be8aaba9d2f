"""P10: a crash at any moment never leads to wrong data after restart.

Fault-injection search: histories of several lives.  In each life the server (and the process flushing for it) is killed at a
generated file-system operation of either (counted by the shim from a generated point of the history on; a write may be done in
part), or inside the copy of the block file, or at rest; also while it starts and while it shuts down.  It is restarted on the
same directory.  Oracle: a ledger of every value ever completely sent under each key, and the values that stood unchanged since
before a flush that finished."""
import os, time
import server
from gen import *
from server import Failure, Inconclusive
from session import Session, V, val
ID = "P10"
LEVEL = "exploration"
QUICK, THOROUGH = 1819, 60000
VARIANTS = ["relbig", "asanbig", "nocowbig", "rel5", "rel", "asan"]
RULE = "a history counts as non-trivial when the server was killed at least twice, one of them inside an operation on files, and at least 5 values were read back after such restarts"
ASSUMPTIONS = ["a crash is the death of the server's processes; what they wrote stays (no loss of the operating system's cache)",
               "the copying process dies together with the server (the flushing one may outlive it)"]
TIME = {"quick": 80.0, "thorough": 900.0}

CP = """#!/bin/sh
if [ -e "$HOME/killcp" ]; then
  n=$(cat "$HOME/killcp"); rm -f "$HOME/killcp"
  while [ $# -gt 2 ]; do shift; done
  head -c "$n" "$1" > "$2"
  kill -KILL 0
fi
for d in /usr/bin /bin; do [ -x $d/cp ] && exec $d/cp "$@"; done
"""

def gen(rng, i, tier):
    ts = names(rng, rng.choice([1, 2, 3]), False, rng.random() < 0.3)
    ks = names(rng, rng.choice([1, 2, 4, 8]), True, rng.random() < 0.3)
    tt = (lambda r: r.choice([None, None, None, 5, 50, 10 ** 9])) if rng.random() < 0.3 else None
    variant = rng.choice(["relbig"] * 3 + ["asanbig", "nocowbig", "rel5", "rel", "asan"])
    fm = rng.choice([0, 1, 1, 2])
    lives = rng.choice([2, 3, 4, 5]) if tier == "quick" else rng.choice([3, 5, 8])
    small = rng.random() < 0.4
    sz = (lambda r: r.choice([1, 100, 4096, 4097, 5000])) if small else (lambda r: size(r, 60000))
    ops = []
    for l in range(lives):
        w = dict(put=10, get=2, head=0.5, delt=0.5, bulk=0.7, up=2.5, pend=0.5, gc=0.8, flush=1.5, usr1=0.4, list=0.4)
        w["del"] = 2.5
        if tt: w["time"] = 0.7
        if rng.random() < 0.25: w["restart"] = 0.4
        if fm == 2: w["hold"] = 0.8; w["release"] = 0.8
        n = rng.choice([6, 12, 25, 50])
        o = chaosx(rng, n, ts, ks, w, sz, tt, l)
        r = rng.random()
        arm = ["arm", rng.choice([1, 2, 3, 5, 8, 13, 20]) if rng.random() < 0.5 else rng.randrange(1, 45), rng.choice([0, rng.randrange(1 << 30)])]
        if r < 0.35:    # right before a flush or an upload
            at = [j for j, x in enumerate(o) if x[0] in ("flush", "gc", "restart")] or [len(o)]
            o.insert(rng.choice(at), arm)
        elif r < 0.6: o.insert(rng.randrange(len(o) + 1), arm)
        elif r < 0.7: o.insert(rng.randrange(len(o) + 1), ["killcp", rng.choice([0, 1, 4095, 4096, 8192, rng.randrange(100000)])]); o += [["flush"]]
        elif r < 0.8: o += [arm, ["restart", "now"]]
        q = rng.random()
        # the next start may be cut short as well
        o.append(["kill", None if q < 0.7 else rng.choice([1, 2, 3, 4, 5, 6, 8]) if q < 0.95 else rng.randrange(1, 800), rng.choice([0, rng.randrange(200000)])])
        if rng.random() < 0.15: o.append(["kill", None, 0])
        if "nocow" not in variant and rng.random() < 0.15:
            o += [["orphan", rng.choice([1, 2, 3, 4, 6, 9, 13, 20]), rng.choice([0, 0, 1, 2, 4, 6, 10]),
                   [[0, rng.choice(ts), rng.choice(ks), "%d.o%d" % (l, j), sz(rng)] for j in range(rng.choice([0, 2, 5, 9]))], rng.choice([0, 1, 2, 3, 3, 3])]]
        ops += o
    cfg = dict(variant=variant, fork_mode=fm, now=NOW if tt else None)
    return {"cfg": cfg, "ops": ops}

def chaosx(rng, n, ts, ks, w, sz, tt, life):
    fl = w.pop("flush")
    out = []
    for o in chaos(rng, n, ts, ks, w, sizes=sz, ttls=tt):
        # values are told apart over all lives
        if o[0] == "put": o[4] = "%d.%d" % (life, o[4])
        if o[0] == "ub": o[4] = "%d.%d" % (life, o[4])
        out.append(o)
        if rng.random() < fl / 20: out.append(["flush"])
    return out

class Died(Exception):
    pass

class Crashing(Session):
    def __init__(self, *a):
        super().__init__(*a)
        self.ever = {}          # (table, key) -> values completely sent
        self.durable = {}       # (table, key) -> value that a crash now must not lose
        self.dflush = None      # flushes begun when that was so
        self.ctl_init["COUNT_OPS"] = 1
        b = os.path.join(self.srv.root, "bin"); os.mkdir(b)
        f = os.path.join(b, "cp")
        with open(f, "w") as fh: fh.write(CP)
        os.chmod(f, 0o755)
        self.cpbin = b + ":"

    def set(self, t, k, poss):
        super().set(t, k, poss)
        d = self.durable.get((t, k))
        if d is not None and (len(poss) != 1 or poss[0] is None or poss[0].vid != d.vid):
            del self.durable[(t, k)]

    def flushes(self):
        return 0 if "nocow" in self.cfg["variant"] else self.srv.ctl.get("CHILD_STARTED")

    def sent(self, t, k, v):
        l = self.ever.setdefault((t, k), [])
        if v not in l: l.append(v)

    # ------------------------------------------------------------
    def op_put(self, c, t, k, vid, size, ttl=None):
        v = V(vid, size, None if not ttl or self.now is None else self.now + ttl)
        self.sent(t, k, v)
        self.forget([(t, k)])
        super().op_put(c, t, k, vid, size, ttl)

    def op_ue(self, u):
        p = self.up.get(u)
        if p:
            if p["ttl"] and p["v"].exp is None: p["v"].exp = self.now + p["ttl"]
            self.sent(p["t"], p["k"], p["v"])
            self.forget([(p["t"], p["k"])])
        super().op_ue(u)

    def forget(self, ks):
        for x in ks: self.durable.pop(x, None)
    def forget_table(self, t):
        self.forget([x for x in self.durable if x[0] == t])
    # what the request under way at the crash may have changed
    def op_del(self, c, t, k): self.forget([(t, k)]); super().op_del(c, t, k)
    def op_delt(self, c, t): self.forget_table(t); super().op_delt(c, t)
    def op_bulk(self, c, t, ks, verb="BULK"): self.forget([(t, k) for k in ks]); super().op_bulk(c, t, ks, verb)
    def op_ub(self, u, t, k, *a):
        if u not in self.up: self.forget([(t, k)])
        super().op_ub(u, t, k, *a)
    def op_uc(self, u, n):
        if u in self.up: self.forget([(self.up[u]["t"], self.up[u]["k"])])
        super().op_uc(u, n)
    def op_ux(self, u, rst=False):
        if u in self.up: self.forget([(self.up[u]["t"], self.up[u]["k"])])
        super().op_ux(u, rst)
    def op_pb(self, p, kind, t, k, cut):
        if p not in self.pend and kind in ("bulk", "purge"): self.forget([(t, x) for x in k])
        super().op_pb(p, kind, t, k, cut)
    def op_pe(self, p, abort=False):
        d = self.pend.get(p)
        if d and d["kind"] == "delt": self.forget_table(d["t"])
        elif d and d["kind"] not in ("get", "head"): self.forget([(d["t"], x) for x in d["ks"]])
        super().op_pe(p, abort)

    def op_gc(self, c=None): self.durable = {}; super().op_gc(c)
    def op_usr1(self): self.durable = {}; super().op_usr1()

    def op_flush(self):
        """a collection whose flush is awaited"""
        if self.cfg["fork_mode"] == 2 and not self.srv.ctl.get("RELEASE"): return
        if not self.srv.wait_all_children_reaped(): raise Inconclusive("children")
        self.durable = {}
        before = self.flushes()
        super().op_gc(None)
        if not self.srv.wait_all_children_reaped(): raise Failure("a flush does not end")
        self.srv.sync(1)
        if self.crashed_by_us(): return
        if "nocow" not in self.cfg["variant"] and self.flushes() != before + 1:
            self.info["flush_not_started"] += 1
            return
        self.dflush = self.flushes()
        self.settled()

    def settled(self):
        self.durable = {x: y.poss[0] for x, y in self.t.items() if y.sure() and y.poss[0] is not None and not y.writers
                        and not any(p["t"] == x[0] for p in self.up.values() if not p["begun"])}
        self.info["flushed"] += 1

    def op_restart(self, how="term"):
        self.durable = {}
        s = self.flushes
        self.ctl_init.pop("CRASH_AT", None)
        super().op_restart(how)
        self.dflush = self.flushes()
        self.settled()

    # ------------------------------------------------------------ crashes
    def op_arm(self, n, partial):
        c = self.srv.ctl
        c.set("CRASH_PARTIAL", partial)
        c.set("CRASH_AT", c.get("OPS") + n)

    def op_killcp(self, n):
        with open(os.path.join(self.srv.root, "killcp"), "w") as f: f.write(str(n))

    def op_kill(self, startcrash, partial):
        self.crash(startcrash, partial)

    def op_orphan(self, k, j, puts, flush):
        """only the serving process is killed while its flush is stopped before its k-th file operation; the flush goes on when a
        new server has run for a while (whose own flush may be stopped before its j-th), which is killed in turn"""
        if "nocow" in self.cfg["variant"] or self.up or self.down or self.pend: return
        ctl = self.srv.ctl
        ctl.set("RELEASE", 1)
        if not self.srv.wait_all_children_reaped(): raise Inconclusive("children")
        self.srv.sync(1)
        if self.crashed_by_us(): return
        ctl.set("CRASH_AT", 0)
        ctl.set("HELD", 0); ctl.set("HOLD_OP", k); ctl.set("FORK_MODE", 2); ctl.set("RELEASE", 0)
        super().op_gc(None)
        end = time.time() + 2
        while not ctl.get("HELD") and self.srv.wait_children(0.001) is False and time.time() < end: pass
        if ctl.get("HELD"): self.info["orphaned"] += 1
        self.durable = {}
        first, pg = self.srv.kill_server()
        self.up.clear(); self.down.clear(); self.pend.clear(); self.conns = {}
        self.srv.start(dict(self.ctl_init, FORK_MODE=2, HOLD_OP=j, RELEASE=0))
        self.dflush = None
        self.recheck()
        for (c, t, kk, vid, size) in puts: self.op_put(c, t, kk, vid, size)
        if flush: super().op_gc(None); time.sleep(0.01)
        second = self.srv.ctl
        if flush == 2: second.set("RELEASE", 1); time.sleep(0.005)
        first.set("RELEASE", 1); time.sleep(0.01)
        if flush != 3:
            second.set("RELEASE", 1)
            if not self.srv.wait_all_children_reaped(): raise Failure("a flush does not end")
        end = time.time() + server.HANG
        while self.srv.group(pg) and time.time() < end: time.sleep(0.002)
        if self.srv.group(pg): raise Failure("a flush of a killed server does not end")
        first.close()
        self.info["orphans"] += 1
        self.durable = {}
        self.crash()

    def crash(self, startcrash=None, partial=0):
        """the server is dead or dies now; start it again and compare"""
        if self.srv.ctl.get("CRASHED"): self.info["crashed_in_operation"] += 1
        n = self.flushes()
        self.srv.kill_all()
        if n != self.dflush: self.durable = {}
        try: os.unlink(os.path.join(self.srv.root, "killcp"))
        except OSError: pass
        self.info["crashes"] += 1
        # uploads and requests under way are gone
        self.up.clear(); self.down.clear(); self.pend.clear(); self.conns = {}
        if startcrash:
            init = dict(self.ctl_init, CRASH_AT=startcrash, CRASH_PARTIAL=partial)
            try:
                self.srv.start(init)
                self.srv.sync(1)
            except Failure:
                if not self.srv.ctl.get("CRASHED"): raise
            if self.srv.ctl.get("CRASHED"):
                self.info["crashed_in_start"] += 1
                self.srv.kill_all()
                self.srv.start(self.ctl_init)
            else:
                self.srv.ctl.set("CRASH_AT", 0)
        else:
            self.srv.start(self.ctl_init)
        self.dflush = self.flushes()
        self.recheck()

    def recheck(self):
        durable = self.durable
        self.durable = {}
        old = list(self.t)
        self.t.clear(); self.bt.clear(); self.hint.clear(); self.thist.clear(); self.lru = []
        self.cnt_exact = False
        seen = {}
        for x in dict.fromkeys(list(self.ever) + old):
            t, k = x
            r = self.srv.request(self.conn(0), server.req("GET", "/%s/%s" % (t, k)), what="GET after a crash")
            cand = [v for v in self.ever.get(x, []) if self.live(v)]
            got = None
            if r.status == 200:
                ok = [v for v in cand if v.size == len(r.body) and v.bytes() == r.body]
                if not ok:
                    self.srv.check_alive("GET")
                    raise Failure("after a crash /%s/%s has %s; values ever stored under it: %s" % (t[:40], k[:40], self.whose(r.body), self.ever.get(x, [])))
                # short values may be equal
                ttl = r.h("X-Ttl")
                d = durable.get(x)
                same = [v for v in ok if self.now is None or ttl == ("0" if v.exp is None else str(v.exp - self.now))]
                got = d if d in same else (same or ok)[-1]
                if not same:
                    raise Failure("after a crash /%s/%s reports X-Ttl %s, stored as %s" % (t[:40], k[:40], ttl, got))
                self.info["served_after_crash"] += 1
            elif r.status != 404:
                raise Failure("GET after a crash answered %s" % r.brief())
            d = durable.get(x)
            if d is not None and self.live(d):
                if got is None or got.vid != d.vid:
                    raise Failure("a crash lost /%s/%s: %s was stored before the last finished flush and not changed since; now %s" % (t[:40], k[:40], d, got))
                self.info["durable_checked"] += 1
            if got is not None: self.set(t, k, [got])
            else: self.key(t, k); self.tnote(t)
        # the restarted server still has what the last finished flush saved
        self.durable = {x: v for x, v in durable.items() if self.live(v)}
        for t in dict.fromkeys(x[0] for x in self.ever):
            c = self.srv.conn()
            c.send(server.req("GET", "/" + t))
            r = c.listing()
            names_ = set(r.body.decode("latin1").split("\r\n")[:-1] if r.status == 200 else [])
            c.close()
            odd = [k for k in names_ if not self.ever.get((t, k))]
            if odd: raise Failure("after a crash table %s lists %r, which was never stored" % (t[:40], odd[0][:60]))

    def whose(self, body):
        for x, l in self.ever.items():
            for v in l:
                if v.size == len(body) and v.bytes() == body: return "%d bytes, a value of /%s/%s" % (len(body), x[0][:40], x[1][:40])
        return "%d bytes that are no value ever stored: %r" % (len(body), body[:40])

    def run(self, ops):
        for i, op in enumerate(ops):
            self.i = i
            try:
                try:
                    getattr(self, "op_" + op[0])(*op[1:])
                except (Failure, OSError) as e:
                    if op[0] == "kill" or not self.crashed_by_us(): raise
                    self.crash()
                else:
                    if op[0] != "kill" and self.crashed_by_us(): self.crash()
            except Failure as e:
                raise Failure("op %d %s: %s" % (i, str(op)[:200], e)) from None
            self.info["op_" + op[0]] += 1

    def crashed_by_us(self):
        if self.srv.ctl is None: return False
        if self.srv.ctl.get("CRASHED"): return True
        if self.cprun and not os.path.exists(os.path.join(self.srv.root, "killcp")):
            return self.srv.last_exit == -9 if self.srv.p is None else self.srv.p.poll() == -9
        return False
    cprun = False

def run(case, info):
    with Crashing(case["cfg"], info) as s:
        if any(o[0] == "killcp" for o in case["ops"]):
            s.srv.path_prefix = s.cpbin; s.cprun = True
            s.srv.stop(); s.srv.start(s.ctl_init)
        s.run(case["ops"])

def nontrivial(case, info):
    return info["crashes"] >= 2 and info["crashed_in_operation"] + info["crashed_in_start"] >= 1 and info["served_after_crash"] >= 5

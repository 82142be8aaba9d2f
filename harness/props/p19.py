"""P19: short, delayed or failing I/O never corrupts a response or a value.

Stateful search with injected faults: the sockets take only a part of what is written or nothing for now, writes to the database are cut
short, fail, or run out of space and recover, at any point of uploads, downloads, listings, flushes and shutdowns; against the model, in
which an upload that was not acknowledged has no effect but the removal of the old value."""
from gen import *
from session import Session, V
import server, signal
from server import Failure, Server, req
ID = "P19"
LEVEL = "exploration"
QUICK, THOROUGH = 1400, 40000
VARIANTS = ["asan", "rel", "rel5", "nocow", "debug"]
RULE = "a history counts as non-trivial when at least 20 socket writes were cut or deferred, or at least 3 database writes were cut or failed, and 5 reads hit"
ASSUMPTIONS = ["writes to a client or to the database accept a part, nothing for now (EAGAIN), or fail (ENOSPC, EIO); changes of a file's length, creation and removal of files do not fail",
               "an upload the server could not store ends with its connection closed or an answer other than 200"]

def gen(rng, i, tier):
    n = rng.choice([25, 60, 110]) if tier == "quick" else rng.choice([50, 150, 400])
    ts = with_empty(rng, names(rng, rng.choice([1, 2, 3]), False, rng.random() < 0.3)); ks = names(rng, rng.choice([2, 4, 9]), True, rng.random() < 0.3)
    kind = rng.choice(["sock", "disk", "disk", "both"])
    w = dict(put=9, get=7, head=1, delt=0.5, bulk=0.8, up=5, down=4, pend=1, gc=2, usr1=0.5, list=1.5, waitflush=0.5, stats=0.8, checkall=0.6, files=0.3)
    w["del"] = 2
    cfg = dict(variant=rng.choice(["asan"] * 3 + ["rel"] * 2 + ["rel5", "nocow", "debug"]), sndbuf=rng.choice([4608, 4608, 0]), unix=rng.random() < 0.7, monitor=rng.random() < 0.3, kind=kind)
    if rng.random() < 0.3: cfg["fork_mode"] = 1
    tiny = kind != "disk" and rng.random() < 0.4
    sz = (lambda r: min(size(r), 9000)) if tiny else (lambda r: size(r) if r.random() < 0.8 else r.choice([30000, 100000, 300000]))
    ops = chaos(rng, n, ts, ks, w, sizes=sz)
    out = []
    def sock(): return ["sock", rng.choice([0, 1, 1, 2, 3, 3]), rng.choice([1, 3, 20, 100] if tiny else [300, 1000, 5000, 20000]), rng.randrange(1, 1 << 40)]
    def disk():
        m = rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 6])
        return ["disk", m, rng.choice([0, 1, 10, rng.randrange(5000), rng.randrange(50000)]), rng.randrange(1, 1 << 40)]
    if kind != "disk": out.append(sock())
    for o in ops:
        if kind != "disk" and rng.random() < 0.07: out.append(sock())
        if kind != "sock" and rng.random() < 0.12: out.append(disk())
        if rng.random() < 0.03: out.append(["pipe", rng.randrange(3), rng.choice(ts), [rng.choice(ks) for _ in range(rng.randrange(1, 30))]])
        if cfg["monitor"] and rng.random() < 0.06: out.append(["mon", rng.choice(["/", "/conn", "/x"])])
        out.append(o)
        if kind != "sock" and rng.random() < 0.01: out.append(["frestart"])
    tail = [["finish"], ["checkall", 0], ["disk", 0, 0, 1], ["checkall", 0], ["stats"], ["files"], ["flushworks"]] + [["put", 0, t, k, 10 ** 6 + j, sz(rng), None] for j, (t, k) in enumerate((t, k) for t in ts for k in ks)] + \
        [["checkall", 0], ["stats"], ["files"], ["restart"], ["checkall", 0]]
    if kind != "sock" and rng.random() < 0.3: tail += [disk(), ["frestart"], ["checkall", 0], ["put", 1, ts[0], ks[0], 2 * 10 ** 6, sz(rng), None], ["restart"], ["checkall", 0]]
    return {"cfg": cfg, "ops": out + tail}

class Faulty(Session):
    """the model, where writes to the database may fail"""
    dmode = 0
    unclean = False
    def op_sock(self, mode, mx, seed):
        c = self.srv.ctl
        c.set("SOCK_MAX", mx); c.set("SOCK_PRNG", seed); c.set("SOCK_MODE", mode)
        if mode: self.info["sock_modes"] += 1
    def op_disk(self, mode, budget, seed):
        c = self.srv.ctl
        c.set("DISK_MODE", 0); c.set("DISK_BUDGET", budget); c.set("DISK_PRNG", seed); c.set("DISK_MODE", mode)
        self.dmode = mode
        if mode: self.info["disk_modes"] += 1
    def can_fail(self): return self.dmode & 5
    def acked(self, c, what):
        """the answer to an upload: True, or False when the server gave up"""
        if self.can_fail():
            while not c.buf.endswith(b"\n") and not c.eof: 
                if c.recv_some() is None:
                    self.srv.check_alive(what); raise Failure("neither an answer nor an end of the connection after %s" % what)
            if not c.buf or c.eof and not c.buf.startswith(b"HTTP/1.1 200"): self.info["upload_failed"] += 1; return False
        r = c.response(what=what)
        if self.can_fail() and r.status != 200:
            self.info["upload_failed"] += 1; c.close(); c.eof = True
            return False
        self.expect(r, 200, b"OK\r\n", "PUT")
        return True
    def op_put(self, c, t, k, vid, size, ttl=None):
        v = V(vid, size); up = {}
        cn = self.conn(c)
        self.begin_put(t, k, v, up)
        cn.send(req("PUT", "/%s/%s" % (t, k), (), v.bytes()))
        self.end_put(t, k, v, up, self.acked(cn, "PUT"))
        if cn.eof or cn.reset: self.conns.pop(c, None); cn.close()
        self.look()
    def op_ub(self, u, t, k, *a):
        Session.op_ub(self, u, t, k, *a); self.look()
    def op_uc(self, u, n):
        Session.op_uc(self, u, n); self.look()
    def op_ue(self, u):
        p = self.up.pop(u, None)
        if not p: return
        p["conn"].send(p["data"][p["sent"]:]); self._up_moved(p, len(p["data"]))
        ok = self.acked(p["conn"], "PUT")
        p["opens"] = False
        self.end_put(p["t"], p["k"], p["v"], p, ok); p["conn"].close()
        self.info["upload_done"] += ok
        self.look()
    def look(self):
        """uploads the server has given up meanwhile"""
        if not self.can_fail(): return
        if self.up: self.srv.wait_children()        # a flushing child keeps closed connections open
        for u, p in list(self.up.items()):
            p["conn"].quiet()
            if p["conn"].eof or p["conn"].buf or p["conn"].reset:
                if not p["begun"]: raise Failure("the connection was ended before anything was to be written")
                del self.up[u]; p["opens"] = False
                self.end_put(p["t"], p["k"], p["v"], p, False); p["conn"].close()
                self.info["upload_failed"] += 1
    def op_pipe(self, c, t, ks):
        """several GETs at once: all answers run into the short writes together"""
        cn = self.conn(c)
        cn.send_reading(b"".join(req("GET", "/%s/%s" % (t, k)) for k in ks))
        for k in ks:
            r = cn.response(what="pipelined GET")
            if self.check_get(r, t, k, self.key(t, k).poss): self.info["hit"] += 1
    def op_mon(self, path):
        if self.srv.mon_addr is None: return
        c = self.srv.conn(addr=self.srv.mon_addr)
        c.send(req("GET", path))
        if path == "/conn":
            def f():
                i = c.buf.find(b"\r\n\r\n")
                return i + 4 if i >= 0 and len(c.buf) >= i + 6 else None
            n = c.need(f, "stream")
            h = server.parse_head(c.take(n))
            if h.status != 200 or bytes(c.buf[:2]) != b"0\n": raise Failure("stream begins with %r %r" % (h.head, bytes(c.buf[:20])))
        else:
            r = c.response(what="probe")
            if r.status != (200 if path == "/" else 404) or r.body != (b"OK\r\n" if path == "/" else b"Path Not Found\r\n"): raise Failure("probe %s answered %s" % (path, r.brief()))
        c.close(); self.info["mon"] += 1
    def op_flushworks(self):
        if self.dmode == 0: Session.op_flushworks(self)
    def op_stats(self):
        if not self.unclean: Session.op_stats(self)
    def op_files(self):
        if not self.unclean: Session.op_files(self)
    def op_frestart(self):
        """stop and start again while the disk may fail: the last state could be not saved"""
        self.finish_all(); self.resolve()
        bad = self.can_fail()
        self.srv.wait_children()
        self.ctl_init.update({n: self.srv.ctl.get(n) for n in ("SOCK_MODE", "SOCK_MAX", "SOCK_PRNG")})
        self.count_faults()
        Session.op_restart(self)
        self.dmode = 0
        if not bad: return
        self.info["unclean_restart"] += 1; self.unclean = True
        for (t, k), x in self.t.items():
            allv = [None]
            for s in x.hist:
                for v in s[0]:
                    if v is not None and v not in allv: allv.append(v)
            for v in x.poss:
                if v not in allv: allv.append(v)
            x.poss = allv; x.note()
        for t in list(self.thist): self.tnote(t)
        self.cnt_exact = False
    def op_restart(self, how="term"):
        if self.can_fail(): return self.op_frestart()
        self.finish_all()
        self.count_faults()
        Session.op_restart(self, how); self.dmode = 0
    def count_faults(self):
        self.info["sockfaults"] += self.srv.ctl.get("SOCK_FAULTS"); self.info["diskfaults"] += self.srv.ctl.get("DISK_FAULTS")
    def op_list(self, c, t, hdrs=()):
        if not self.unclean: Session.op_list(self, c, t, hdrs)

def run(case, info):
    with Faulty(case["cfg"], info) as s:
        s.run(case["ops"])
        s.count_faults()

def nontrivial(case, info):
    return (info["sockfaults"] >= 20 or info["diskfaults"] >= 3) and info["hit"] >= 5

"""P13: storage, descriptors and memory are released when data and clients go.

A metamorphic relation over generated workloads: a workload that ends without keys and without clients is repeated on the same server;
the allocations, descriptors, value files, blocks and child processes left afterwards must be those left the time before."""
from gen import *
from session import Session
import junk, server, os, time
from server import Failure, req
ID = "P13"
LEVEL = "exploration"
QUICK, THOROUGH = 1007, 40000
VARIANTS = ["rel", "relbig", "nocow", "rel5"]
RULE = "a case counts as non-trivial when its workload stored at least 6 values of which one had its own file, and clients disconnected in the middle of at least 2 requests or were hostile"
ASSUMPTIONS = ["what the first run of a workload leaves may be reused memory (hash tables and pools keep their size); only growth over repetitions counts", "memory is counted as live allocations of the process"]

def gen(rng, i, tier):
    n = rng.choice([12, 25, 50]) if tier == "quick" else rng.choice([25, 60, 200])
    ts = names(rng, rng.choice([1, 2, 4]), False, rng.random() < 0.5); ks = names(rng, rng.choice([2, 5, 12]), True, rng.random() < 0.5)
    clean = rng.choice(["del", "delt", "bulk", "expire", "evict", "mixed"])
    w = dict(put=9, get=3, head=1, delt=0.8, bulk=0.8, up=7, down=4, pend=3, gc=1, usr1=0.5, list=1)
    w["del"] = 1.5
    tt = None; early = rng.random() < 0.5
    cfg = dict(variant=rng.choice(["rel"] * 3 + ["relbig", "nocow"]), sndbuf=4608, clean=clean, unix=rng.random() < 0.7, monitor=rng.random() < 0.35)
    if clean == "expire": cfg["now"] = NOW; tt = lambda r: r.choice([1, 3, 20]); w["time"] = 1.2; cfg["readfirst"] = early
    if clean == "evict": cfg["args"] = ["-s", str(rng.choice([1, 5000, 60000])), "-l", "100"]; cfg["lossy"] = True
    if rng.random() < 0.2: cfg["fork_mode"] = 1
    ops = chaos(rng, n, ts, ks, w, sizes=lambda r: size(r) if r.random() < 0.8 else r.choice([100000, 300000]), ttls=tt)
    hostile = rng.random() < 0.35
    out = []
    for o in ops:
        out.append(o)
        if hostile and rng.random() < 0.3:
            m = cfg["monitor"] and rng.random() < 0.4; s = junk.stream(rng, m)
            out.append(["junk", int(m), s, junk.cuts(rng, len(s)), rng.choice(["read", "fin", "rst", "close"])])
        if cfg["monitor"] and rng.random() < 0.15: out.append(["stream", rng.randrange(3), rng.choice(["conn", "conn", "half", "probe", "404", "head", "bad"]), rng.random() < 0.5])
        if rng.random() < 0.04: out.append(["hangup", rng.choice(["GET /", "GET /a/b", "PUT /", "PUT /%s/~hung HTTP/1.1\r\nX-Ttl: 5\r\nX-Li" % ts[0], "BULK /%s HTTP/1.1\r\nX-Delete: " % ts[0], "G", "HEAD /x/y HTTP/1.1\r\n", "PUT /a/b HTTP/1.1\r\n\r\n", "BLAH / HTTP/1.1\r\n\r\n", "GET /%s HTTP/1.1\r\nX-Start: 1" % ts[0]]), rng.random() < 0.5])
    if rng.random() < 0.1:
        # many keys
        c = rng.choice([100, 400]); out += [["put", 0, ts[0], "%s%d" % (word(rng, 4), j), 900000 + j, rng.choice([1, 100, 4097]), 1 if tt else None] for j in range(c)]
    if rng.random() < 0.12:
        # listings that the client does not wait for, of tables larger than the socket buffers
        m = [["mput", 0, ts[0], word(rng, rng.choice([10, 100, 200])), 0, rng.choice([100, 300]), "fwd", 800000, rng.choice([1, 300])]]
        out += m + [["lx", ts[0], rng.choice([0, 100, 5000, 20000]), rng.random() < 0.5] for _ in range(3)]
        if tt: out.append(["delt", 0, ts[0]]) # these never expire
    cfg["hostile"] = hostile
    return {"cfg": cfg, "ops": out}

class Rounds(Session):
    def op_junk(self, m, s, cuts, how):
        import props.p05 as p05
        if not hasattr(self, "pm"): self.pm = p05.Model(self.srv, self.info)
        self.pm.op_junk(m, s, cuts, how); self.info["hostile"] += 1
    def op_hangup(self, data, rst):
        c = self.srv.conn(); c.send(data.encode("latin1")); self.srv.sync(1); c.close(rst=rst); self.info["hangups"] += 1
        self.srv.sync(2)
    def op_stream(self, u, what, rst):
        if not self.srv.mon_addr: return
        c = self.srv.conn(addr=self.srv.mon_addr)
        c.send({"conn": "GET /conn HTTP/1.1\r\n\r\n", "half": "GET /co", "probe": "GET / HTTP/1.1\r\n\r\n", "404": "GET /y HTTP/1.1\r\nA: b\r\n\r\n", "head": "HEAD / HTTP/1.1\r\n\r\n", "bad": "PUT / HTTP/1.1\r\n\r\n"}[what].encode())
        if what == "conn": c.need(lambda: True if b"\r\n\r\n0\n" in c.buf else None, "stream")
        elif what != "half": c.need(lambda: True if b"\r\n\r\n" in c.buf else None, "answer")
        self.mons = getattr(self, "mons", []) + [c]
        if len(self.mons) > 3: self.mons.pop(0).close(rst=rst)
        self.info["hangups"] += 1
    def round(self, ops):
        cfg = self.cfg
        self.run(ops)
        self.finish_all()
        for c in getattr(self, "mons", []): c.close()
        self.mons = []
        # everything goes, in the way of this case
        by = {}
        for (t, k) in list(self.t): by.setdefault(t, []).append(k)
        how = cfg["clean"]
        if how == "expire":
            self.op_time(100)
            # found expired by a read, or by a collection
            if not cfg["readfirst"]: self.op_gc(0)
            for (t, k) in list(self.t): self.op_head(0, t, k)
            if not cfg["hostile"]: self.op_gcall(0)
            for (t, k) in list(self.t): self.set(t, k, [None])
        if how == "evict":
            self.op_put(0, "overfull", "x", 1, 70000); self.op_gc(0)
            for (t, k) in list(self.t): self.op_head(0, t, k)
        for j, (t, ks) in enumerate(by.items()):
            h = how if how != "mixed" else ["del", "delt", "bulk"][j % 3]
            if h == "delt": self.op_delt(0, t)
            elif h == "bulk":
                for a in range(0, len(ks), 7): self.op_bulk(0, t, ks[a:a + 7])
                self.op_bulk(0, t, ks)
            for k in ks:
                if h == "del" or self.key(t, k).poss != [None]: self.op_del(0, t, k)
        self.conns = {}
        ctrl = self.srv.ctrl()
        for c in list(self.srv.conns):
            if c is not ctrl: c.close(); self.srv.conns.remove(c)
        self.op_gc()
        self.srv.wait_children()
        # a released descriptor is one that goes within a few seconds
        t = time.time() + server.HANG
        while True:
            self.srv.sync(2)
            f = self.srv.fds(); ch = self.srv.children()
            if len(f) <= self.base and not ch: break
            if time.time() > t: raise Failure("%d descriptors stay open, %d before there were clients: %s; child processes %s" % (len(f), self.base, [x for x in f if "socket" not in x or 1][-8:], ch))
            time.sleep(0.003)
        st = self.srv.stats()
        if not cfg["hostile"]:
            if st["keys"] or st["bytes"] or st["tables"] or st["free"] != st["exist"]: raise Failure("everything was removed, the statistics say %s" % st)
            vf = self.srv.value_files()
            if vf: raise Failure("everything was removed, %d value files remain: %s" % (len(vf), list(vf)[:3]))
        last = None
        for _ in range(200):
            self.srv.sync(1)
            m = (self.srv.ctl.geti("LIVE_COUNT"), self.srv.ctl.geti("LIVE_BYTES"))
            if m == last: break
            last = m; time.sleep(0.002)
        # evictions are due by the count of all uploads, at other places in every repetition, so the most blocks used at one time differs
        fr = st["free"] if cfg["clean"] == "evict" else 0
        return dict(allocations=m[0] - fr, bytes=m[1] - 16 * fr, descriptors=len(f), files=len(self.srv.value_files()), blocks=st["exist"] - fr, used=st["exist"] - st["free"], stored=st["bytes"], keys=st["keys"], freed=fr)

def run(case, info):
    with Rounds(case["cfg"], info) as s:
        s.srv.sync(2); s.base = len(s.srv.fds())
        ops = case["ops"]
        m = [s.round(ops) for _ in range(4)]
        info["rounds"] += 4
        grown = [k for k in m[3] if k != "freed" and m[3][k] > m[1][k]]
        if grown:
            # what really leaks grows with every repetition
            for _ in range(9): m.append(s.round(ops))
            info["rounds"] += 9
            for k in grown:
                v = [x[k] for x in m[4:]]
                steps = sum(b > a for a, b in zip(v, v[1:])); down = sum(b < a for a, b in zip(v, v[1:]))
                # malloc may hand out up to 16 bytes more than were asked for
                slack = 16 * (m[-1]["allocations"] + m[-1]["freed"]) if k == "bytes" else 0
                if steps >= 5 and down <= 1 and v[-1] > v[0] + slack: raise Failure("%s left behind grow with every repetition of the workload: %s" % (k, [x[k] for x in m]))
        info["evictions" if case["cfg"]["clean"] == "evict" else "x"] += 0

def nontrivial(case, info):
    return info["put_file"] >= 1 and info["put_block"] + info["put_file"] >= 6 and info["hangups"] + info["hostile"] + info["upload_aborted_body"] + info["upload_aborted_head"] + info["upload_aborted_early"] + info["download_aborted"] + info["pending_aborted"] >= 2

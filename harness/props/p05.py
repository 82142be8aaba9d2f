"""P05: no input from clients crashes the server or disturbs other clients.

Grammar-based and mutation fuzzing of both ports by several hostile clients at once, in any pieces, disconnecting at any point, while a
well-behaved client checks its own tables; sanitizers, assertions and the clean end of the process are part of the oracle."""
from gen import *
import junk, server, os, signal, socket, time
from server import Failure, Server, req, value_bytes
ID = "P05"
LEVEL = "exploration"
QUICK, THOROUGH = 2100, 100000
VARIANTS = ["asan", "small", "small1k", "debug", "rel5", "rel"]
RULE = "a history counts as non-trivial when at least 10 hostile streams were sent, at least one of them got an answer of 200 and one of 400, and 5 canary values were checked"
ASSUMPTIONS = ["hostile clients do not name the tables of the well-behaved one (tables are not protected by anything but their names)", "no size limit is set (a limit evicts other keys by design)"]

def gen(rng, i, tier):
    n = rng.choice([15, 30, 50]) if tier == "quick" else rng.choice([30, 80, 200])
    mon = rng.random() < 0.35
    cfg = dict(variant=rng.choice(["asan"] * 4 + ["small", "small", "small1k", "debug", "rel5", "rel"]), monitor=mon, sndbuf=rng.choice([4608, 0]), unix=rng.random() < 0.5)
    ops = []
    slots = 4
    for j in range(n):
        r = rng.random(); u = rng.randrange(slots)
        m = mon and rng.random() < 0.4
        if r < 0.5:
            s = junk.stream(rng, m)
            ops.append(["junk", int(m), s, junk.cuts(rng, len(s)), rng.choice(["read", "read", "fin", "rst", "close", "quiet"])])
        elif r < 0.72:
            # a client that stays connected and goes on later
            s = junk.stream(rng, m)
            ops.append(["more", u, int(m), s, junk.cuts(rng, len(s)), rng.choice([0, 0, 0, 1])])
        elif r < 0.78: ops.append(["drop", u, rng.choice(["fin", "rst", "close"])])
        elif r < 0.9: ops.append(["canary", rng.randrange(6), rng.choice(["get", "get", "put", "head", "del", "list"]), size(rng)])
        elif r < 0.94: ops.append(["gc"])
        elif r < 0.96: ops.append(["usr1"])
        elif r < 0.975: ops.append(["idle", rng.choice([1, 5, 40])])
        elif r < 0.985: ops.append(["restart"])
        else: ops.append(["monprobe"])
    return {"cfg": cfg, "ops": ops}

class Model:
    T = ["Canary one", "~watch~"]
    def __init__(self, s, info):
        self.s, self.info = s, info
        self.kv, self.c, self.u, self.n = {}, None, {}, 0
        self.junked = 0
    def conn(self):
        if self.c is None or self.c.eof or self.c not in self.s.conns: self.c = self.s.conn()
        return self.c
    def push(self, c, data, cuts):
        """send without ever waiting for the server to read (it need not)"""
        c.s.settimeout(0.05)
        try:
            for n in cuts:
                if not data: break
                c.s.send(data[:n]); data = data[n:]
                if n < 8: self.s.sync(1)
            while data:
                k = c.s.send(data); data = data[k:]
                if data: self.slurp(c, 0.002)
        except OSError: pass
    def slurp(self, c, t):
        end = time.time() + t
        try:
            while time.time() < end:
                c.s.settimeout(max(0.0005, end - time.time()))
                d = c.s.recv(65536)
                if not d: c.eof = True; break
                self.seen(d)
        except OSError: pass
    def seen(self, d):
        if b"HTTP/1.1 200" in d: self.info["answered_200"] += 1
        if b"HTTP/1.1 400" in d: self.info["answered_400"] += 1
        if b"HTTP/1.1 404" in d: self.info["answered_404"] += 1
        if b"CANARY-" in d: raise Failure("data of the other client was sent to a hostile one: %r" % d[max(0, d.find(b"CANARY-") - 100):][:200])
    def addr(self, m): return self.s.mon_addr if m and self.s.mon_addr else None
    def end(self, c, how):
        try:
            if how == "fin":
                c.s.shutdown(socket.SHUT_WR); self.slurp(c, 0.002)
            c.close(rst=(how == "rst"))
        except OSError: c.close()
        if c in self.s.conns: self.s.conns.remove(c)
    def op_junk(self, m, s, cuts, how):
        c = self.s.conn(addr=self.addr(m)); self.junked += 1
        self.push(c, s.encode("latin1"), cuts)
        if how == "read": self.slurp(c, 0.004)
        elif how == "quiet": self.s.sync(2)
        self.end(c, how)
    def op_more(self, u, m, s, cuts, read):
        c = self.u.get(u)
        if c is None: c = self.u[u] = self.s.conn(addr=self.addr(m), rcvbuf=2048)
        self.push(c, s.encode("latin1"), cuts); self.junked += 1
        if read: self.slurp(c, 0.003)
    def op_drop(self, u, how):
        c = self.u.pop(u, None)
        if c: self.end(c, how)
    def op_gc(self): self.s.gc(self.conn())
    def op_usr1(self): self.s.p.send_signal(signal.SIGUSR1); self.s.sync(1)
    def op_idle(self, ms): time.sleep(ms / 1000.0)
    def op_monprobe(self):
        if not self.s.mon_addr: return
        c = self.s.conn(addr=self.s.mon_addr); c.send(req("GET", "/"))
        r = c.response(what="probe")
        if r.status != 200 or r.body != b"OK\r\n": raise Failure("probe answered %s" % r.brief())
        self.end(c, "close")
    def op_canary(self, k, what, sz):
        t = self.T[k % 2].replace(" ", "_"); key = "k%d" % k; p = "/%s/%s" % (t, key)
        c = self.conn(); v = self.kv.get((t, key))
        if what == "put":
            self.n += 1; v = (b"CANARY-%d-" % self.n + value_bytes("p05-%d" % self.n, sz))[:max(sz, 12)]
            r = self.s.request(c, req("PUT", p, (), v), what="PUT of the well-behaved client")
            if r.status != 200: raise Failure("PUT of the well-behaved client answered %s" % r.brief())
            self.kv[t, key] = v
        elif what == "del":
            r = self.s.request(c, req("DELETE", p), what="DELETE")
            if r.status != (200 if v else 404): raise Failure("DELETE answered %s, stored: %s" % (r.brief(), v is not None))
            self.kv.pop((t, key), None)
        elif what == "list":
            cc = self.s.conn(); cc.send(req("GET", "/" + t)); r = cc.listing(); self.end(cc, "close")
            want = sorted(kk for tt, kk in self.kv if tt == t)
            if (r.status == 404) != (not want): raise Failure("listing answered %s, stored: %s" % (r.brief(), want))
            if r.status == 200 and sorted(r.body.decode("latin1").split()) != want: raise Failure("listing names %r, stored: %s" % (r.body[:200], want))
        else:
            c.send(req(what.upper(), p)); r = c.response(head=what == "head", what="GET of the well-behaved client")
            if v is None and r.status != 404 or v is not None and (r.status != 200 or r.h("Content-Length") != str(len(v)) or what == "get" and r.body != v):
                raise Failure("%s of %s answered %s, %s is stored" % (what.upper(), p, r.brief(), "nothing" if v is None else "%d bytes" % len(v)))
        self.info["canaries"] += 1
    def op_all(self):
        for k in range(6): self.op_canary(k, "get", 1)
    def op_restart(self):
        for u in list(self.u): self.op_drop(u, "close")
        self.s.wait_children(); self.s.stop(); self.c = None
        self.s.start(self.s.init); self.op_all()

def run(case, info):
    cfg = case["cfg"]
    with Server(cfg["variant"], monitor=cfg["monitor"], use_unix=cfg["unix"]) as s:
        s.init = {"SNDBUF": cfg["sndbuf"]}
        s.start(s.init); m = Model(s, info)
        try:
            for k in range(3): m.op_canary(k, "put", 5000 * k + 10)
            for i, op in enumerate(case["ops"]):
                try:
                    getattr(m, "op_" + op[0])(*op[1:])
                    if s.p.poll() is not None: s.check_alive("hostile input")
                except Failure as e: raise Failure("op %d %s: %s" % (i, str(op)[:300], e)) from None
            m.op_all(); m.op_canary(3, "put", 4097); m.op_canary(0, "list", 1)
            for u in list(m.u): m.op_drop(u, "close")
            m.op_monprobe(); m.op_all()
            st = s.stats()
            if st["free"] > st["exist"]: raise Failure("statistics: %d of %d blocks free" % (st["free"], st["exist"]))
            m.op_restart()
            s.sanitizer_ok()
            s.stop()
        except Failure as e:
            try: s.check_alive(str(e))
            except Failure as f: raise f from None
            raise
        info["junk"] += m.junked

def nontrivial(case, info):
    return info["junk"] >= 10 and info["answered_200"] and info["answered_400"] and info["canaries"] >= 5

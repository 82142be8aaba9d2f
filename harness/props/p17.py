"""P17: the monitoring port answers probes and streams a steady count.

Model-based search with a controlled clock: streams opened, closed, stalled and abused in any order while the clock moves in steps from one
second to hours; every well-behaved stream must show exactly the numbers that are due, others must never notice."""
from gen import *
import os, server, signal, socket, time
from server import Failure, Server, req, value_bytes
ID = "P17"
LEVEL = "exploration"
QUICK, THOROUGH = 630, 20000
VARIANTS = ["asan", "rel", "debug"]
RULE = "a history counts as non-trivial when at least 2 streams ran at once and together received at least 8 numbers, and some client disconnected, stalled or sent something unexpected"
ASSUMPTIONS = ["after 65535 the count goes on from 0", "when the clock jumps by more than one interval, one number or one per interval may follow",
               "a stream whose client sends anything more, or reads too slowly, may end; what it received is still the beginning of the count"]

def gen(rng, i, tier):
    if i < 3: return {"cfg": dict(variant=("rel", "asan", "debug")[i], unix=True, wrap=True), "ops": []}
    ops, up, cons = [], set(), 0
    exact = rng.random() < 0.5
    for _ in range(rng.choice([12, 30, 60])):
        r = rng.random(); u = rng.randrange(6)
        if r < 0.22: ops.append(["open", u, [rng.randrange(1, 60) for _ in range(rng.choice([0, 0, 1, 3]))], rng.choice([0, 0, 1, 2])])
        elif r < 0.45: ops.append(["tick", [rng.choice([1, 5, 5, 5]) if exact else rng.choice([1, 2, 3, 4, 5, 5, 6, 7, 10, 11, 60, 3600]) for _ in range(rng.choice([1, 1, 2, 5]))]])
        elif r < 0.5: ops.append(["close", u, rng.random() < 0.5])
        elif r < 0.56: ops.append(["stall", u])
        elif r < 0.59: ops.append(["tick", [5] * rng.choice([8, 12, 20])])
        elif r < 0.63: ops.append(["resume", u])
        elif r < 0.68: ops.append(["junk", u, rng.choice(["\r\n", "x", "GET / HTTP/1.1\r\n\r\n", "GET /conn HTTP/1.1\r\n\r\n", "HEAD / HTTP/1.1\r\n\r\n", "BLAH / HTTP/1.1\r\n\r\n", "GET /no HTTP/1.1\r\n\r\n", "A" * 3000, "\x00\xff\n\n", "GET /conn HTTP/1.1\r\n"])])
        elif r < 0.82: ops.append(["ask", rng.randrange(2), rng.choice(["root", "root", "head", "404", "query", "hdrs"]), [rng.randrange(1, 50) for _ in range(rng.choice([0, 0, 1, 2, 4]))], rng.choice([1, 1, 1, 2, 3])])
        elif r < 0.83: ops.append(["last", [rng.choice(["root", "head", "404"]) for _ in range(rng.choice([0, 1, 1, 2, 5]))], rng.choice([0, 0, 16384, 20000, 50000])])
        elif r < 0.86: ops.append(["bad", rng.choice(["PUT / HTTP/1.1\r\n\r\n", "GET", "GET /conn", "GET  / HTTP/1.1\r\n\r\n", "get / HTTP/1.1\r\n\r\n", "GET x HTTP/1.1\r\n\r\n", "\r\n\r\n\r\n", "GETTTTTTTTTTTTT / HTTP/1.1\r\n\r\n", "GET /" + "a" * 20000, "GET / HTTP/1.1\r\nA: " + "b" * 20000, "\x00" * 50, "GET /conn HTTP/1.1\r\nX: y\r\n", "", "GET /\n"]), rng.choice([0, 0, 1, 2])])
        elif r < 0.93: ops.append(["cache", rng.randrange(10), rng.choice([0, 1, 100, 9000])])
        elif r < 0.94: ops.append(["gc"])
        elif r < 0.96: ops.append(["usr1"])
        else: ops.append(["flood", u, rng.choice([2, 5])])
    return {"cfg": dict(variant=rng.choice(["asan", "asan", "rel", "debug"]), unix=rng.random() < 0.7, sndbuf=rng.choice([4608, 4608, 0]), nocache=rng.random() < 0.1), "ops": ops + [["tick", [5, 5]]]}

class Stream:
    pass

class Model:
    def __init__(self, s, info):
        self.s, self.info, self.now = s, info, NOW
        self.st, self.cons, self.dead, self.kv = {}, {}, [], {}
        self.live = 0
    def pieces(self, c, data, cuts):
        for n in cuts:
            if not data: break
            c.send(data[:n]); data = data[n:]
            time.sleep(0.0005)
        c.send(data)
    def mon(self, **kw): return self.s.conn(addr=self.s.mon_addr, **kw)

    def op_open(self, u, cuts, hdrs):
        if u in self.st: return
        x = Stream(); x.c = self.mon(); x.free = False; x.stalled = False
        data = req("GET", "/conn", [("A%d" % j, "b" * 10 * j) for j in range(hdrs)])
        self.pieces(x.c, data, cuts)
        def head():
            j = x.c.buf.find(b"\r\n\r\n"); return j + 4 if j >= 0 else None
        h = server.parse_head(x.c.take(x.c.need(head, "streaming header")))
        if h.status != 200 or h.h("Content-Type") != "text/x-streaming" or h.h("Content-Length") is not None: raise Failure("stream request answered %s" % h.brief())
        x.n = 0; x.data = b""
        x.lo = x.hi = 1; x.due = self.now + 5; x.t0 = self.now
        self.st[u] = x; self.read(x)
        self.live = max(self.live, len(self.st))
    def take(self, x):
        x.data += x.c.take(len(x.c.buf))
        lines = x.data.split(b"\n"); x.part = lines[-1]
        for j, l in enumerate(lines[:-1]):
            if l != b"%d" % (j & 0xffff): raise Failure("number %d of a stream is %r: %r" % (j, l[:30], x.data[-200:]))
        x.n = len(lines) - 1
    def read(self, x):
        """everything due has arrived, nothing more"""
        if x.free: return
        def f():
            if x.c.buf: self.take(x)
            return True if x.n >= x.lo else None
        n0 = x.n
        x.c.need(f, "number %d of a stream begun %d s ago" % (x.lo - 1, self.now - x.t0))
        x.c.quiet(); self.take(x)
        if x.n > x.hi: raise Failure("%d numbers in %d s" % (x.n, self.now - x.t0))
        if x.c.eof: raise Failure("the server ended a stream that was read in time")
        if x.part: raise Failure("half a number: %r" % x.part)
        self.info["numbers"] += x.n - n0
        if x.n < x.hi: pass
    def op_tick(self, dts):
        for dt in dts:
            self.now += dt; self.s.set_time(self.now)
            for x in self.st.values():
                if self.now >= x.due: x.lo += 1; x.due = self.now + 5
                x.hi = max(x.hi, x.lo, (self.now - x.t0) // 5 + 1)
            for x in self.st.values():
                if not x.stalled: self.read(x)
    def op_close(self, u, rst):
        x = self.st.pop(u, None)
        if x: x.c.close(rst=rst); self.info["odd"] += 1
    def op_stall(self, u):
        x = self.st.get(u)
        if x: x.stalled = x.free = True; self.info["odd"] += 1
    def op_resume(self, u):
        x = self.st.get(u)
        if not x or not x.stalled: return
        self.drain(x); x.c.close(); del self.st[u]
    def drain(self, x):
        """whatever has arrived is a beginning of the count"""
        x.c.quiet()
        if getattr(x, "junk", False): x.c.take(len(x.c.buf)); return
        d = x.data + x.c.take(len(x.c.buf)); l = d.split(b"\n")
        want = [b"%d" % (j & 0xffff) for j in range(len(l))]
        if l and l[-2:-1] == [b"q"]: l = l[:-2] + [b""]; want = want[:len(l)]
        if l[:-1] != want[:len(l) - 1] or not want[len(l) - 1].startswith(l[-1]): raise Failure("a stalled stream received %r" % d[-200:])
        if len(l) - 1 > x.hi: raise Failure("%d numbers in %d s" % (len(l) - 1, self.now - x.t0))
    def op_junk(self, u, data):
        x = self.st.get(u)
        if x: x.free = x.stalled = x.junk = True; self.push(x.c, data.encode("latin1")); self.info["odd"] += 1
    def push(self, c, data):
        try: c.s.settimeout(0.02); c.s.send(data)
        except OSError: pass
    def op_flood(self, u, n):
        for _ in range(n): self.op_junk(u, "y" * 20000)

    def op_ask(self, c, kind, cuts, times):
        x = self.cons.get(c)
        if x is None: x = self.cons[c] = self.mon()
        d = {"root": req("GET", "/"), "head": req("HEAD", "/"), "404": req("GET", "/nothing/here"), "query": req("GET", "/connect"), "hdrs": req("GET", "/", [("Host", "a"), ("X-Long", "z" * 3000)])}[kind]
        for _ in range(times):
            self.pieces(x, d, cuts)
            r = x.response(head=kind == "head", what="answer to a probe")
            want = 404 if kind in ("404", "query") else 200
            if r.status != want: raise Failure("%s probe answered %s" % (kind, r.brief()))
            if kind in ("root", "hdrs") and r.body != b"OK\r\n": raise Failure("probe answered %s" % r.brief())
        if not x.quiet(): raise Failure("more than one answer to a probe: %r" % bytes(x.buf[:100]))
        self.info["probes"] += times
    def op_last(self, kinds, big):
        """probes of a client that ends its side after the last; the last of them may be too large to be taken"""
        x = self.mon()
        d = b"".join(req({"head": "HEAD"}.get(k, "GET"), {"404": "/nothing"}.get(k, "/")) for k in kinds) + (req("GET", "/" + "u" * big) if big else b"")
        x.send(d)
        try: x.s.shutdown(socket.SHUT_WR)
        except OSError: pass
        for k in kinds + (["big"] if big else []):
            r = x.response(head=k == "head", what="answer to a probe")
            if r.status != {"404": 404, "big": 400}.get(k, 200): raise Failure("%s probe answered %s" % (k, r.brief()))
            self.info["probes"] += 1
        while not x.eof:
            if x.recv_some() is None: raise Failure("connection kept open for a client that has ended its side")
        if x.buf: raise Failure("bytes after the last answer: %r" % bytes(x.buf[:80]))
    def op_bad(self, data, how):
        x = self.mon(); x.send(data.encode("latin1")); self.info["odd"] += 1
        if how == 0: self.dead.append(x)
        else: x.close(rst=how == 2)
    def op_cache(self, k, n):
        c = self.s.ctrl(); key = "/t/k%d" % k
        if n:
            b = value_bytes("p17-%d-%d" % (k, self.now), n)
            if self.s.request(c, req("PUT", key, (), b)).status != 200: raise Failure("PUT failed")
            self.kv[key] = b
        r = self.s.request(c, req("GET", key))
        if (r.status, r.body) != ((200, self.kv[key]) if key in self.kv else (404, b"Key not Found\r\n")): raise Failure("GET of %s: %s" % (key, r.brief()))
    def op_gc(self): self.s.gc()
    def op_usr1(self):
        os.kill(self.s.p.pid, signal.SIGUSR1)

def wrap(case, info):
    """more than 65536 numbers"""
    with Server(case["cfg"]["variant"], monitor=True, frozen=NOW) as s:
        s.start(); m = Model(s, info); c = m.mon(); c.send(req("GET", "/conn"))
        c.need(lambda: True if c.buf.find(b"\r\n\r\n0\n") >= 0 else None, "header"); c.take(len(c.buf))
        for j in range(1, 65540):
            s.ctl.set("TIME_SEC", NOW + 5 * j)
            os.kill(s.p.pid, signal.SIGALRM)        # a tick of the timer, earlier than the next one
            c.need(lambda: True if c.buf.endswith(b"\n") else None, "number %d" % j)
            if c.take(len(c.buf)) != b"%d\n" % (j & 0xffff): raise Failure("number %d" % j)
        info["numbers"] += 65540; info["odd"] += 1; info["streams"] = 2
        s.stop()

def run(case, info):
    cfg = case["cfg"]
    if cfg.get("wrap"): return wrap(case, info)
    with Server(cfg["variant"], monitor=True, frozen=NOW, use_unix=cfg["unix"]) as s:
        s.start({"SNDBUF": cfg["sndbuf"]} if cfg["sndbuf"] else None)
        m = Model(s, info)
        for j, o in enumerate(case["ops"]):
            try: getattr(m, "op_" + o[0])(*o[1:])
            except Failure as e: raise Failure("op %d %s: %s" % (j, str(o)[:120], e)) from None
        good = [x for x in m.st.values() if not x.free]
        for x in m.st.values(): s.conns.remove(x.c)      # not to be closed with the server
        s.stop()
        for x in good:
            def f():
                return True if x.c.eof else None
            while not x.c.eof: x.c.recv_some()
            d = x.c.take(len(x.c.buf))
            if d != b"q\n": raise Failure("a stream ended with %r on shutdown, not with q" % d[-60:])
            info["q"] += 1
        for x in m.st.values():
            if x.free: m.drain(x)
        for x in m.st.values(): x.c.close()
        info["streams"] += m.live

def nontrivial(case, info):
    return info["streams"] >= 2 and info["numbers"] >= 8 and info["odd"] >= 1

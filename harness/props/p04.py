"""P04: packet boundaries and pipelining never change the answers.

Metamorphic search: a generated stream of requests is answered one request at a time by a fresh server, and then the same bytes, cut
into packets and pipelined in generated ways, by other fresh servers.  All response bytes and the data stored at the end must be equal."""
import random, select, socket
from gen import *
import server
from server import Failure, Server, req, value_bytes
ID = "P04"
LEVEL = "exploration"
QUICK, THOROUGH = 1120, 40000
VARIANTS = ["asan", "rel", "small", "small1k"]
RULE = ("a stream counts as non-trivial when it has at least 5 requests of 3 kinds and was delivered in at least 3 further ways, one of them "
        "pipelined and one cut inside requests")
ASSUMPTIONS = ["a packet sent while the event loop is known to be idle is read by the server by itself"]

def one(rng, ts, ks, big, i):
    r = rng.random(); t, k = rng.choice(ts), rng.choice(ks)
    if rng.random() < 0.03: t = rng.choice(["nosuch", "n"])
    hs = []
    for _ in range(rng.choice([0, 0, 0, 1, 2, 5])):
        n = rng.choice(["X-Ttlx", "Content-Lengt", "Content-Length2", "X-Delet", "Host", "A", "X-" + word(rng, rng.randrange(1, 10))])
        v = "".join(rng.choice(WORD + " :;,-=/") for _ in range(rng.choice([0, 1, 5, 20, min(big, 120), rng.randrange(0, big)]))).strip()
        hs.append([n, v])
    if r < 0.32: 
        sz = rng.choice([1, 2, 3, 10, 100, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16000, 16384, 20000, rng.randrange(1, 300)])
        if rng.random() < 0.3: hs.insert(rng.randrange(len(hs) + 1), [rng.choice(["X-Ttl", "x-ttl"]), rng.choice(["0", "1", "77", "100000"])])
        return ["PUT", t, k, hs, [i, sz], rng.randrange(len(hs) + 1)]
    if r < 0.58: return ["GET", t, k, hs]
    if r < 0.66: return ["HEAD", t, k, hs]
    if r < 0.76: return ["DELETE", t, k, hs]
    if r < 0.85:
        for _ in range(rng.randrange(0, 6)): hs.insert(rng.randrange(len(hs) + 1), [rng.choice(["X-Delete", "x-delete"]), rng.choice(ks)])
        return [rng.choice(["BULK", "PURGE"]), t, None, hs]
    if r < 0.88: return ["DELETE", t, None, hs]
    if r < 0.94: return ["GET", None, None, hs]
    if r < 0.97: return ["ADMIN", "gc", None, hs]
    return ["NL", rng.choice(["\r\n", "\n", "\r\n\r\n"]), None, []]

def last(rng, ts, ks):
    """the request that ends the connection"""
    r = rng.random(); t, k = rng.choice(ts), rng.choice(ks)
    if r < 0.3: return ["GET", t, None, [[rng.choice(["X-Limit", "X-Start", "x-limit"]), rng.choice(["0", "1", "3", "99999"])]] if rng.random() < 0.5 else []]
    if r < 0.45: return ["POST", t, k, []]
    if r < 0.6: return ["VERYLONGMETHOD", t, k, []]
    if r < 0.7: return ["PUT", t, k, [["Content-Length", rng.choice(["0", "x", "1x", "-1", ""])]]]
    if r < 0.8: return ["PUT", t, k, [["X-Ttl", "abc"]]]
    if r < 0.9: return ["HEAD", t, None, []]
    return ["ADMIN", "other", None, []]

def gen(rng, i, tier):
    variant = rng.choice(["small", "small", "small1k", "asan", "asan", "rel"])
    big = {"small": 150, "small1k": 800}.get(variant, 9000)
    wild = variant != "small" and rng.random() < 0.4
    ts = names(rng, rng.choice([1, 2]), False, wild); ks = names(rng, rng.choice([1, 3, 5]), True, wild)
    ts = [t[:60] for t in ts]
    ks = [k[:{"small": 60, "small1k": 500}.get(variant, 16000)] for k in ks]
    n = rng.choice([3, 6, 12, 30])
    reqs = [one(rng, ts, ks, big, j) for j in range(n)]
    end = last(rng, ts, ks) if rng.random() < 0.5 else None
    ways = [["all"], ["each", rng.randrange(1 << 30), rng.choice([1, 2, 5])], ["cuts", rng.randrange(1 << 30), rng.choice([3, 10, 40]), rng.random() < 0.7]]
    if rng.random() < 0.35: ways.append(["bytes", rng.randrange(1, 4)])
    if rng.random() < 0.5: ways.append(["sizes", rng.choice([7, 64, 255, 256, 257, 1000, 4096, 16383, 16384]), rng.random() < 0.6])
    if rng.random() < 0.4: ways.append(["lines", rng.randrange(4)])
    # the client may end its side at once after the last request
    return {"cfg": {"variant": variant, "ts": ts, "ks": ks, "half": rng.random() < 0.3}, "ops": reqs, "end": end, "ways": ways}

def render(r):
    m, t, k, hs = r[:4]
    if m == "NL": return t.encode()
    path = "/" if t is None else "/%s" % t if k is None else "/%s/%s" % (t, k)
    hs = [tuple(h) for h in hs]
    out = ("%s %s HTTP/1.1\r\n" % (m, path)).encode("latin1")
    body = b""
    if m == "PUT" and len(r) > 4:
        body = value_bytes("p4-%d" % r[4][0], r[4][1])
        hs.insert(r[5], ("Content-Length", str(len(body))))
    for a, b in hs:
        out += ("%s: %s\r\n" % (a, b)).encode("latin1")
    return out + b"\r\n" + body

def final(s, cfg):
    out = [s.stats()]
    out[0].pop("gets")
    for t in cfg["ts"]:
        c = s.conn(); c.send(req("GET", "/" + t)); r = c.listing(); out.append((t, r.status, r.body)); c.close()
        c = s.conn()
        for k in cfg["ks"]:
            for m in ("HEAD", "GET"):
                c.send(req(m, "/%s/%s" % (t, k)))
                r = c.response(head=(m == "HEAD")); out.append((t, k, r.head, r.body))
    return out

def send(s, c, p):
    """never lets unread responses block the sending"""
    off = 0
    c.s.setblocking(False)
    try:
        while off < len(p):
            try:
                off += c.s.send(p[off:off + 65536])
            except BlockingIOError:
                rd, wr, _ = select.select([c.s], [c.s], [], server.HANG)
                if not rd and not wr:
                    s.check_alive("sending"); raise Failure("the server neither reads nor answers for %gs" % server.HANG)
                if rd and not c.recv_some(timeout=0.001) and c.eof: return
                c.s.setblocking(False)
            except OSError:
                return
    finally:
        c.s.settimeout(server.HANG)

def deliver(variant, cfg, pieces, sync, info, expect):
    """send the pieces; returns everything received"""
    with Server(variant, frozen=NOW) as s:
        s.start()
        c = s.conn()
        s.request(c, b"GET /~sync~/x HTTP/1.1\r\n\r\n")
        c.s.settimeout(server.HANG)
        for p in pieces:
            if not p: continue
            if sync:
                if c.eof: break
                send(s, c, p)
                s.sync(1)
            else:
                if c.eof: break
                send(s, c, p)
        if cfg.get("half") and not c.eof:
            try: c.s.shutdown(socket.SHUT_WR)
            except OSError: pass
            info["half_closed"] += 1
        while (len(c.buf) < len(expect) or cfg.get("half")) and not c.eof:
            if c.recv_some() is None:
                s.check_alive("waiting for answers")
                if len(c.buf) >= len(expect): raise Failure("all was answered, but the connection of a client that has ended its side stays open")
                raise Failure("only %d of %d response bytes arrived within %gs; the last: %r" % (len(c.buf), len(expect), server.HANG, bytes(c.buf[-150:])))
        s.sync(2)
        c.quiet(0)
        got = bytes(c.buf)
        if got != expect:
            d = next((j for j in range(min(len(got), len(expect))) if got[j] != expect[j]), min(len(got), len(expect)))
            raise Failure("responses differ at byte %d of %d (got %d): one at a time ...%r, now ...%r" % (d, len(expect), len(got), expect[max(0, d - 60):d + 80], got[max(0, d - 60):d + 80]))
        f = final(s, cfg)
        s.stop()
        return f

def split(data, cuts):
    cuts = sorted(set(x for x in cuts if 0 < x < len(data)))
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]

def run(case, info):
    cfg = case["cfg"]; reqs = case["ops"]; end = case["end"]
    raw = [render(r) for r in reqs] + ([render(end)] if end else [])
    expect = b""
    with Server(cfg["variant"], frozen=NOW) as s:
        s.start()
        c = s.conn()
        s.request(c, b"GET /~sync~/x HTTP/1.1\r\n\r\n")
        for r, b in zip(reqs, raw):
            c.send(b)
            if r[0] == "NL": continue
            x = c.response(head=(r[0] == "HEAD"), what="answer to %s" % r[0])
            expect += x.head + x.body
            info[r[0]] += 1; info["answer_%d" % x.status] += 1
            if x.status == 400:
                raise Failure("well-formed request answered %s: %r" % (x.brief(), b[:200]))
        if end:
            c.send(raw[-1])
            if end[0] == "GET":
                x = c.listing(); expect += x.head + x.body
            else:
                while not c.eof:
                    if c.recv_some() is None:
                        s.check_alive("end of connection"); raise Failure("connection not ended by %r" % raw[-1][:100])
                expect += c.take(len(c.buf))
            info["ended"] += 1
        fin = final(s, cfg)
        s.stop()
    data = b"".join(raw)
    info["bytes"] += len(data)
    for w in case["ways"]:
        if w[0] == "all": pieces, sync = [data], False
        elif w[0] == "each":
            rng = random.Random(w[1]); pieces = []; sync = True
            for b in raw: pieces += split(b, [rng.randrange(0, len(b)) for _ in range(w[2])])
        elif w[0] == "cuts":
            rng = random.Random(w[1]); sync = w[3]
            head = [len(b"".join(raw[:j])) + rng.randrange(0, min(len(raw[j]), 300)) for j in range(len(raw)) if rng.random() < 0.6]
            pieces = split(data, head + [rng.randrange(0, len(data)) for _ in range(w[2])])
        elif w[0] == "bytes":
            sync = True
            # bodies are long: byte by byte in the heads only
            pieces = []
            for b in raw:
                h = min(b.find(b"\r\n\r\n") + 6 if b"\r\n\r\n" in b else len(b), 1200)
                pieces += [b[j:min(j + w[1], h)] for j in range(0, h, w[1])] + [b[h:]]
        elif w[0] == "sizes":
            pieces = split(data, range(w[1], len(data), max(w[1], len(data) // 3000))); sync = w[2]
        elif w[0] == "lines":
            # packets that end just around line ends
            cuts = []
            j = data.find(b"\r\n")
            while j >= 0 and len(cuts) < 1500:
                cuts.append(j + w[1]); j = data.find(b"\r\n", j + 2)
            pieces = split(data, cuts); sync = True
        try:
            f = deliver(cfg["variant"], cfg, pieces, sync, info, expect)
        except Failure as e:
            raise Failure("delivered as %s (%d pieces): %s" % (w, len(pieces), e)) from None
        if f != fin:
            d = [(a, b) for a, b in zip(fin, f) if a != b][:2]
            raise Failure("delivered as %s: stored data differ: %s" % (w, str(d)[:600]))
        info["way_" + w[0]] += 1; info["pieces"] += len(pieces)

def nontrivial(case, info):
    return len(case["ops"]) >= 5 and sum(1 for m in ("PUT", "GET", "HEAD", "DELETE", "BULK", "PURGE", "ADMIN") if info[m]) >= 3 and sum(info["way_" + w] for w in ("all", "each", "cuts", "bytes", "sizes", "lines")) >= 3

def simplify(case):
    if case["end"]: yield dict(case, end=None)
    for j in range(len(case["ways"])):
        if len(case["ways"]) > 1: yield dict(case, ways=case["ways"][j:j + 1])
    for j, r in enumerate(case["ops"]):
        if r[3]: yield dict(case, ops=case["ops"][:j] + [[r[0], r[1], r[2], []] + ([r[4], 0] if len(r) > 4 else [])] + case["ops"][j + 1:])

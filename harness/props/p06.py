"""P06: every request gets exactly one correctly framed response.

Generated keep-alive sessions of every kind of request with arbitrary extra headers; a reference model predicts the status, the
Content-Length rule and the body of every answer, and the connection must be silent in between and usable afterwards."""
from gen import *
import server
from server import Failure, Server, req, value_bytes
ID = "P06"
LEVEL = "exploration"
QUICK, THOROUGH = 1330, 100000
VARIANTS = ["asan", "rel", "debug", "nocow"]
RULE = "a session counts as non-trivial when it had at least 15 requests on kept-alive connections of at least 5 kinds, with answers of status 200 and 404"
ASSUMPTIONS = ["header names are matched as the server documents them; a request line has one blank before and after the URL"]

def headers(rng, m):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 8, 40]) if rng.random() < 0.7 else 0):
        r = rng.random()
        n = rng.choice(["Host", "User-Agent", "Accept", "Cookie", "X-Ttl2", "XX-Ttl", "Content-Type", "Content-Lengthy", "X-Del", "X-Star", "Connection", "a", "X-" + word(rng, rng.randrange(1, 30))])
        if n == "Connection": v = "keep-alive"
        elif r < 0.7: v = "".join(rng.choice(WORD + PUNCT + " ") for _ in range(rng.randrange(0, 40)))
        elif r < 0.85: v = "".join(rng.choice(WORD + ": ") for _ in range(rng.choice([100, 1000, 4000, 9000, 15000])))
        elif r < 0.93: v = "".join(chr(rng.randrange(128, 256)) for _ in range(rng.randrange(1, 50)))
        else: v = "\t" * rng.randrange(1, 4) + "x"
        out.append([n, v])
    if m not in ("PUT",) and rng.random() < 0.1:
        out.append(["Content-Length", "0"])
    return out

def gen(rng, i, tier):
    ts = names(rng, rng.choice([1, 2, 3]), False, rng.random() < 0.4); ks = names(rng, rng.choice([1, 3, 6]), True, rng.random() < 0.4)
    ops = []
    for j in range(rng.choice([10, 25, 60, 150]) if tier == "quick" else rng.choice([30, 150, 1000])):
        r = rng.random(); t, k, c = rng.choice(ts), rng.choice(ks), rng.randrange(3)
        if r < 0.24: m = ["PUT", t, k, j, size(rng), rng.choice([None, None, 0, 5, 2000000000])]
        elif r < 0.42: m = ["GET", t, k]
        elif r < 0.56: m = ["HEAD", t, k]
        elif r < 0.66: m = ["DELETE", t, k]
        elif r < 0.72: m = [rng.choice(["BULK", "PURGE"]), t, None, [rng.choice(ks) for _ in range(rng.choice([0, 1, 2, 30]))]]
        elif r < 0.75: m = ["DELETE", t, None]
        elif r < 0.81: m = ["STATS"]
        elif r < 0.85: m = ["GC"]
        elif r < 0.88: m = ["LIST", t, rng.choice([None, None, ["X-Limit", rng.choice([0, 1, 2, 10 ** 4, 2 ** 31 - 1])], ["X-Start", rng.choice([0, 1, 9, 2 ** 31 - 1])]])]
        elif r < 0.91: m = ["BAD", rng.choice(["POST", "OPTIONS", "PATCH", "GETT", "get", "Put", "X", "", "TRACE", "CONNECT", "DELETES", "VERYLONGMETHODNAME", "HEADS"]), t, k]
        elif r < 0.93: m = ["NOLEN", t, k]
        elif r < 0.95: m = ["NOTABLE", rng.choice(["PUT", "HEAD", "ADMIN"]), t]
        elif r < 0.97: m = ["UP", t, k, j, size(rng), rng.choice([0, 0.3, 0.9])]
        elif r < 0.975: m = ["UPEND"]
        elif r < 0.98: m = ["BIG", rng.choice(["table", "key", "put", "name", "value", "length", "ttl", "delete", "limit", "method"]), t, k, rng.choice([16384, 16385, 17000, 40000])]
        else: m = ["NL", rng.choice(["\r\n", "\n", "\r\n\r\n\r\n"])]
        ops.append([c, m, headers(rng, m[0]), rng.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]), rng.randrange(50)])
    return {"cfg": {"variant": rng.choice(["asan"] * 3 + ["rel"] * 3 + ["debug", "nocow"])}, "ops": ops}

def build(m, hs, ver, pos):
    hs = [list(h) for h in hs]
    def put(h): hs.insert(pos % (len(hs) + 1), h)
    body = b""
    if m[0] == "PUT":
        body = value_bytes("p6-%d" % m[3], m[4]); put(["Content-Length", str(m[4])])
        if m[5] is not None: put(["X-Ttl", str(m[5])])
        line = "PUT /%s/%s" % (m[1], m[2])
    elif m[0] in ("GET", "HEAD", "DELETE"): line = m[0] + " /" + m[1] + ("" if m[2] is None else "/" + m[2])
    elif m[0] in ("BULK", "PURGE"):
        line = "%s /%s" % (m[0], m[1])
        for k in m[3]: put(["X-Delete", k])
    elif m[0] == "STATS": line = "GET /"
    elif m[0] == "GC": line = "ADMIN /gc"
    elif m[0] == "LIST":
        line = "GET /" + m[1]
        if m[2]: put([m[2][0], str(m[2][1])])
    elif m[0] == "BAD": line = "%s /%s/%s" % (m[1], m[2], m[3])
    elif m[0] == "NOLEN": line = "PUT /%s/%s" % (m[1], m[2])
    elif m[0] == "NOTABLE": line = "%s /%s" % (m[1], m[2])
    elif m[0] == "NL": return m[1].encode()
    elif m[0] == "BIG":
        # one item that no buffer can hold
        w, t, k, n = m[1:]; x = "x" * n
        line = {"table": "GET /" + x, "key": "GET /%s/%s" % (t, x), "put": "PUT /%s/%s" % (t, x), "name": "GET /%s/%s" % (t, k), "value": "HEAD /%s/%s" % (t, k), "length": "PUT /%s/%s" % (t, k),
                "ttl": "PUT /%s/%s" % (t, k), "delete": "BULK /" + t, "limit": "GET /" + t, "method": "%s /%s" % (x, t)}[w]
        if w in ("put", "ttl"): put(["Content-Length", "1"])
        if w in ("name", "value", "length", "ttl", "delete", "limit"):
            hs.append({"name": [x, "a"], "value": ["A", x], "length": ["Content-Length", "0" * n + "1"], "ttl": ["X-Ttl", "0" * n + "1"], "delete": ["X-Delete", x], "limit": ["X-Limit", "0" * n]}[w])
        if w in ("put", "ttl", "length"): body = b"v"
    return (line + " " + ver + "\r\n").encode("latin1") + b"".join(("%s: %s\r\n" % (a, b)).encode("latin1") for a, b in hs) + b"\r\n" + body

def run(case, info):
    with Server(case["cfg"]["variant"], frozen=NOW) as s:
        s.start()
        db, conns = {}, {}
        s.ups = {}
        for j, (c, m, hs, ver, pos) in enumerate(case["ops"]):
            cn = conns.get(c)
            if cn is None: cn = conns[c] = s.conn()
            try:
                if step(s, db, cn, m, hs, ver, pos, info):
                    conns[c] = None
            except Failure as e:
                raise Failure("request %d %s: %s" % (j, str(m)[:150], e)) from None
        for x in list(s.ups): upload_end(s, db, *x)
        for cn in conns.values():
            if cn: s.sync(1); quiet(cn)
        s.stop()

def quiet(cn):
    if not cn.quiet(0): raise Failure("bytes that belong to no response: %r" % bytes(cn.buf[:100]))
    if cn.eof: raise Failure("connection ended although the last response kept it alive")

def has_table(db, t):
    return any(tt == t for tt, k in db)

def expect(r, status, body, what=""):
    if r.status != status: raise Failure("answered %s, expected status %d" % (r.brief(), status))
    if body is not None and r.body != body: raise Failure("answered %s, expected body %r" % (r.brief(), body[:60]))
    if (r.h("Connection") or "").lower() != ("close" if status == 400 else "keep-alive"): raise Failure("Connection header is %r" % r.head)
    if sum(1 for a, b in r.headers if a.lower() == "content-length") > 1: raise Failure("two lengths: %r" % r.head)

def upload_begin(s, db, m):
    """an upload by another client that goes on while the session does"""
    t, k = m[1], m[2]
    if (t, k) in s.ups or len(s.ups) >= 2: return
    c = s.conn()
    expect(s.request(c, req("GET", "/~sync~/x")), 404, None)
    v = value_bytes("p6-up%d" % m[3], m[4]); d = req("PUT", "/%s/%s" % (t, k), (), v); n = len(d) - len(v) + int((len(v) - 1) * m[5])
    c.send(d[:n]); s.sync(2 + n // 4096)
    db.pop((t, k), None); s.ups[t, k] = (c, d[n:], v)

def upload_end(s, db, t, k):
    c, rest, v = s.ups.pop((t, k))
    c.send(rest); expect(c.response(what="answer to the other upload"), 200, b"OK\r\n")
    db[t, k] = (v, 0); c.close()

def step(s, db, cn, m, hs, ver, pos, info):
    kind = m[0]
    if kind == "UP": upload_begin(s, db, m); return False
    # requests whose effect on a key being uploaded is not fixed come after its upload
    for x in list(s.ups):
        if kind in ("UPEND", "STATS", "GC", "LIST") or kind in ("DELETE", "NOLEN", "BULK", "PURGE") and x[0] == m[1] or kind == "BIG": upload_end(s, db, *x)
    if kind == "UPEND": return False
    cn.send(build(m, hs, ver, pos))
    info["kind_" + kind] += 1
    if kind == "NL":
        s.sync(1); quiet(cn); return False
    if kind == "LIST":
        if has_table(db, m[1]):
            r = cn.listing()
            if r.status != 200 or (r.h("Connection") or "").lower() != "close": raise Failure("listing answered %r" % r.head)
            if r.h("X-Entries") != str(sum(1 for t, k in db if t == m[1])): raise Failure("listing says %r" % r.head)
            return True
        r = cn.response(); expect(r, 404, None)
        info["404"] += 1; quiet(cn); return False
    head = kind == "HEAD" or kind == "NOTABLE" and m[1] == "HEAD" or kind == "BIG" and m[1] == "value"
    r = cn.response(head=head)
    if kind == "BIG" and m[1] in ("name", "value", "key") and not has_table(db, m[2]):
        # answered before the rest of the request is looked at
        expect(r, 404, b"" if head else None); info["404"] += 1; s.sync(1); quiet(cn); return False
    if kind in ("BAD", "NOLEN", "NOTABLE", "BIG"):
        expect(r, 400, None)
        if kind == "BIG" and m[1] in ("length", "ttl"): db.pop((m[2], m[3]), None)
        if r.h("Content-Length") is None: raise Failure("no length: %r" % r.head)
        if kind == "NOLEN": db.pop((m[1], m[2]), None)
        # nothing but the end of the connection may follow
        while not cn.eof:
            if cn.recv_some() is None:
                s.check_alive("end"); raise Failure("connection kept open after Connection: Close")
        if cn.buf: raise Failure("bytes after a closing response: %r" % bytes(cn.buf[:80]))
        info["400"] += 1
        return True
    if kind == "PUT":
        expect(r, 200, b"OK\r\n")
        if (m[1], m[2]) in s.ups: info["overlapping_put"] += 1          # the upload begun first wins
        else: db[m[1], m[2]] = (value_bytes("p6-%d" % m[3], m[4]), m[5] or 0)
    elif kind in ("GET", "HEAD"):
        v = db.get((m[1], m[2]))
        if v is None: expect(r, 404, b"" if head else None)
        else:
            expect(r, 200, b"" if head else v[0])
            if r.h("Content-Length") != str(len(v[0])): raise Failure("length: %r, stored %d" % (r.head, len(v[0])))
            if r.h("X-Ttl") != str(v[1]): raise Failure("X-Ttl: %r, stored %d" % (r.head, v[1]))
        if r.h("Content-Length") is None: raise Failure("no length: %r" % r.head)
    elif kind == "DELETE" and m[2] is not None:
        if (m[1], m[2]) in db: expect(r, 200, b"DELETED\r\n"); del db[m[1], m[2]]
        else: expect(r, 404, None)
    elif kind == "DELETE":
        if has_table(db, m[1]):
            expect(r, 200, b"DELETED\r\n")
            for x in [x for x in db if x[0] == m[1]]: del db[x]
        else: expect(r, 404, None)
    elif kind in ("BULK", "PURGE"):
        expect(r, 200, b"BULK OK\r\n")
        for k in m[3]: db.pop((m[1], k), None)
    elif kind in ("STATS", "GC"):
        expect(r, 200, None); st = server.parse_stats(r)
        if st["keys"] != len(db): raise Failure("statistics report %d keys, %d are stored" % (st["keys"], len(db)))
    info[str(r.status)] += 1
    s.sync(1)
    quiet(cn)
    return False

def nontrivial(case, info):
    return len(case["ops"]) >= 15 and sum(1 for k in info if k.startswith("kind_")) >= 5 and info["200"] and info["404"]

def simplify(case):
    for j, o in enumerate(case["ops"]):
        if o[2]: yield dict(case, ops=case["ops"][:j] + [[o[0], o[1], [], o[3], o[4]]] + case["ops"][j + 1:])

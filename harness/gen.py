"""Generators shared by the properties."""
import functools, struct

def murmur32(data, seed=13):
    """MurmurHash3_x86_32, written from the published description"""
    if isinstance(data, str):
        data = data.encode("latin1")
    M = 0xffffffff
    h = seed; n = len(data) // 4
    for i in range(n):
        k = int.from_bytes(data[4 * i:4 * i + 4], "little")
        k = k * 0xcc9e2d51 & M; k = (k << 15 | k >> 17) & M; k = k * 0x1b873593 & M
        h ^= k; h = (h << 13 | h >> 19) & M; h = (h * 5 + 0xe6546b64) & M
    t = data[4 * n:]
    if t:
        k = int.from_bytes(t, "little")
        k = k * 0xcc9e2d51 & M; k = (k << 15 | k >> 17) & M; k = k * 0x1b873593 & M
        h ^= k
    h ^= len(data)
    h ^= h >> 16; h = h * 0x85ebca6b & M; h ^= h >> 13; h = h * 0xc2b2ae35 & M; h ^= h >> 16
    return h

SIZES = [1, 2, 7, 100, 1000, 4094, 4095, 4096, 4097, 4098, 5000, 8191, 8192, 8193, 12288, 16383, 16384, 16385, 20000, 32768, 65536, 70000, 100001]

def size(rng, big=True):
    r = rng.random()
    if r < 0.55:
        return rng.choice(SIZES if big else SIZES[:9])
    if r < 0.8:
        return rng.randrange(1, 4097)
    return rng.randrange(4097, 40000 if big else 4098) if big else rng.randrange(1, 4097)

WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
PUNCT = "!\"#$%&'()*+,-.:;<=>?@[\\]^_`{|}~"

def word(rng, n):
    return "".join(rng.choice(WORD) for _ in range(n))

def name(rng, key, wild=True):
    """a table name (key=False) or key name: no space or line end; tables without '/'"""
    r = rng.random()
    if not wild or r < 0.45:
        return word(rng, rng.randrange(1, 9))
    if r < 0.6:
        return "".join(rng.choice(WORD + PUNCT) for _ in range(rng.randrange(1, 20)))
    if r < 0.66:
        return "".join(chr(rng.choice([c for c in range(0x80, 0x100)])) for _ in range(rng.randrange(1, 12)))
    if r < 0.69:
        # any byte but space, line ends (and '/' in a table's name)
        return "".join(chr(rng.choice([0, 0, 1, 9, 11, 0x1f, 0x7f, 0x30, 0x41, 0xff])) for _ in range(rng.randrange(1, 10)))
    if r < 0.7 and key:
        return ""
    if r < 0.78:
        return word(rng, rng.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 2047]))
    if r < 0.83 and key:
        return word(rng, rng.choice([4000, 4095, 4096, 8000, 8191, 12000, 15000, 16000]))
    if r < 0.93 and key:
        return "/".join(word(rng, rng.randrange(0, 5)) for _ in range(rng.randrange(2, 5)))
    if r < 0.96 and key:
        return rng.choice(["t:", "e:", "b:1:2:3:4:x", "f:0", ":", "%d%s%n", "HTTP/1.1", "gc", ".", "..", "../../x", "?a=b&c", "a:b:c:d"])
    return rng.choice(["t", "e", "b", "f", "a:b", "%s", "..", "-", "0", "00", "1"]) + word(rng, rng.randrange(0, 3))

def names(rng, n, key, wild=True):
    """n different names with different hashes"""
    out, hs = [], set()
    while len(out) < n:
        x = name(rng, key, wild)
        h = murmur32(x)
        if h in hs or (not key and x == "~sync~"):
            continue
        # tables of neighbouring hashes share a probe chain: a legal case, kept
        hs.add(h); out.append(x)
    return out

def with_empty(rng, ts):
    """now and then one of the tables is the one with the empty name"""
    if rng.random() < 0.08: ts[rng.randrange(len(ts))] = ""
    return ts

def similar(rng, n):
    """names that differ little"""
    base = word(rng, rng.randrange(0, 30)); out = []; hs = set()
    while len(out) < n:
        r = rng.random()
        if r < 0.4: x = base + word(rng, rng.randrange(0, 3))
        elif r < 0.7: x = base[:rng.randrange(0, len(base) + 1)]
        elif r < 0.85: x = base.swapcase()
        else: x = base + "/" * rng.randrange(0, 2) + str(rng.randrange(20))
        h = murmur32(x)
        if h in hs: continue
        if not x: continue
        hs.add(h); out.append(x)
    return out

NOW = 1700000000

def mass(rng, ts, ks, vid=1000000):
    """ops that store several hundred small keys and remove them again in various orders, with checks between: long free lists, grown and
    shrunk block files, grown hash tables"""
    used = {murmur32(k) for k in ks}
    while True:
        base = word(rng, rng.randrange(1, 12)).replace("/", "_") + "."
        n = rng.choice([150, 270, 300, 420, 600])
        hs = {murmur32("%s%d" % (base, i)) for i in range(n)}
        if len(hs) == n and not hs & used: break
    t = rng.choice(ts); sz = rng.choice([1, 10, 300, "mix", "mix", "mixf"])
    orders = ["fwd", "rev", "rnd", "alt", "tail2", "gaps"]
    ops = [["mput", rng.randrange(3), t, base, 0, n, rng.choice(["fwd", "fwd", "rnd"]), vid, sz]]
    for _ in range(rng.choice([2, 4, 7])):
        vid += 1000; c = rng.randrange(3); r = rng.random()
        lo = rng.choice([0, 0, n // 2, n - 1, n - 2, n - 3, rng.randrange(n)]); hi = rng.choice([n, n, n - 1, n - 2, rng.randrange(n + 1)])
        if lo > hi: lo, hi = hi, lo
        if r < 0.55: ops.append(["mdel", c, t, base, lo, hi, rng.choice(orders), vid, rng.random() < 0.25])
        elif r < 0.75: ops.append(["mput", c, t, base, lo, hi, rng.choice(orders), vid, rng.choice([1, 10, 300, "mix", "mixf"])])
        elif r < 0.85: ops.append(["mget", c, t, base, 0, n, rng.choice(orders), vid])
        elif r < 0.92: ops.append(["restart"])
        else: ops.append(["gc", c])
        if rng.random() < 0.5: ops.append(["stats"])
        if rng.random() < 0.3: ops.append(["mget", c, t, base, 0, n, "rnd", vid])
    return ops + [["stats"], ["mget", 0, t, base, 0, n, "fwd", 0]]

def with_mass(rng, ops, ts, ks, times=1):
    """the ops of one or more masses spread over a history"""
    for j in range(times):
        m = mass(rng, ts, ks, 1000000 * (j + 1))
        if rng.random() < 0.5:
            i = rng.randrange(len(ops) + 1)
            ops = ops[:i] + [["finish"]] + m + ops[i:]
            continue
        at = sorted(rng.randrange(len(ops) + 1) for _ in m)
        out, i = [], 0
        for pos in range(len(ops) + 1):
            while i < len(m) and at[i] == pos:
                out.append(m[i]); i += 1
            if pos < len(ops): out.append(ops[pos])
        ops = out
    return ops

def chaos(rng, n, ts, ks, w, sizes=None, ttls=None, conns=3, slots=4, dts=None):
    """n random session ops drawn by weight; w maps op kinds to weights"""
    sizes = sizes or (lambda r: size(r))
    kinds = list(w); ws = [w[k] for k in kinds]
    ops, vid = [], 0
    ups, downs, pends = set(), set(), set(); upk = {}
    def ttl():
        return ttls(rng) if ttls else None
    while len(ops) < n:
        kd = rng.choices(kinds, ws)[0]
        c = rng.randrange(conns); t = rng.choice(ts); k = rng.choice(ks)
        # often what another client is just uploading
        if upk and ups and kd in ("pend", "del", "up", "delt", "get") and rng.random() < 0.35: t, k = upk[rng.choice(sorted(ups))]
        if kd == "put": vid += 1; ops.append(["put", c, t, k, vid, sizes(rng), ttl()])
        elif kd in ("get", "head", "del"): ops.append([kd, c, t, k])
        elif kd in ("delt", "list"): ops.append([kd, c, t])
        elif kd == "bulk": ops.append(["bulk", c, t, [rng.choice(ks) for _ in range(rng.randrange(0, 5))], rng.choice(["BULK", "PURGE"])])
        elif kd in ("gc",): ops.append(["gc", c])
        elif kd == "gcall": ops.append(["gcall", c])
        elif kd in ("usr1", "sync", "waitflush", "stats", "files", "cstats", "hold", "release", "finish"):
            ops.append([kd])
            if kd == "finish": ups.clear(); downs.clear(); pends.clear()
        elif kd == "checkall": ops.append(["checkall", c])
        elif kd == "restart": ops.append(["restart", rng.choice(["term", "term", "int", "now"] if "hold" not in w else ["term", "int", "now", "held", "held"])]); ups.clear(); downs.clear(); pends.clear()
        elif kd == "time": ops.append(["time", (dts or (lambda r: r.choice([1, 1, 2, 3, 5, 10])))(rng)])
        elif kd == "up":
            free = [u for u in range(slots) if u not in ups]
            if free and (not ups or rng.random() < 0.4):
                u = rng.choice(free); vid += 1; sz = sizes(rng)
                ops.append(["ub", u, t, k, vid, sz, ttl(), cut(rng, t, k, sz)]); ups.add(u); upk[u] = (t, k)
            elif ups:
                u = rng.choice(sorted(ups)); r = rng.random()
                if r < 0.4: ops.append(["uc", u, rng.choice([1, 3, 10, 60, 1000, 4096, 16384])])
                elif r < 0.8: ops.append(["ue", u]); ups.discard(u)
                else: ops.append(["ux", u, rng.random() < 0.5]); ups.discard(u)
        elif kd == "down":
            free = [u for u in range(slots) if u not in downs]
            if free and (not downs or rng.random() < 0.45):
                u = rng.choice(free); ops.append(["gb", u, t, k, rng.choice([0, 0, 1, 100, 2000])]); downs.add(u)
            elif downs:
                u = rng.choice(sorted(downs)); r = rng.random()
                if r < 0.3: ops.append(["gr", u, rng.choice([1, 100, 3000, 20000])])
                elif r < 0.85: ops.append(["ge", u]); downs.discard(u)
                else: ops.append(["gx", u, rng.random() < 0.5]); downs.discard(u)
        elif kd == "pend":
            free = [u for u in range(slots) if u not in pends]
            if free and (not pends or rng.random() < 0.5):
                u = rng.choice(free); kk = rng.choice(["get", "head", "del", "del", "delt", "bulk", "purge", "list"])
                a = k if kk not in ("bulk", "purge") else [rng.choice(ks) for _ in range(rng.randrange(1, 4))]
                # mostly after the URL, where the table and key have been looked up
                cu = rng.choice([-1, -2, -3, -5, -8, rng.randrange(1, 60), -rng.randrange(1, 40)])
                ops.append(["pb", u, kk, t, a, cu]); pends.add(u)
            elif pends:
                u = rng.choice(sorted(pends)); ops.append(["pe", u, rng.random() < 0.2]); pends.discard(u)
        else:
            raise KeyError(kd)
    return ops

def cut(rng, t, k, sz):
    """where to cut a PUT: inside the request line, the headers or the body"""
    line = len("PUT /%s/%s HTTP/1.1\r\n" % (t, k)); head = line + len("Content-Length: %d\r\n\r\n" % sz)
    r = rng.random()
    if r < 0.2: return rng.randrange(0, line + 1)
    if r < 0.4: return rng.randrange(line, head + 1)
    if r < 0.5: return head
    if r < 0.6: return -1
    if r < 0.7: return -rng.randrange(1, min(sz, 20) + 1)
    return head + rng.randrange(0, sz + 1)

def _fmix_inv(h):
    M = 0xffffffff
    h ^= h >> 16; h = h * 0x7ed1b41d & M
    h ^= h >> 13 ^ h >> 26; h = h * 0xa5cb9243 & M
    return h ^ h >> 16

def with_hash(rng, target, key, ascii=None, blocks=None):
    """a name whose MurmurHash3_x86_32 (seed 13) is exactly target: everything but one block is chosen freely, that block is solved for"""
    M = 0xffffffff
    I1 = pow(0xcc9e2d51, -1, 1 << 32); I2 = pow(0x1b873593, -1, 1 << 32); I5 = pow(5, -1, 1 << 32)
    if ascii is None: ascii = rng.random() < 0.6
    while True:
        m = blocks or rng.choice([1, 2, 2, 3, 5, 8]); t = rng.randrange(4)
        pre = word(rng, 4 * (m - 1)).encode(); tail = word(rng, t).encode(); n = 4 * m + t
        h = 13
        for i in range(m - 1):
            k = int.from_bytes(pre[4 * i:4 * i + 4], "little")
            k = k * 0xcc9e2d51 & M; k = (k << 15 | k >> 17) & M; k = k * 0x1b873593 & M
            h ^= k; h = (h << 13 | h >> 19) & M; h = (h * 5 + 0xe6546b64) & M
        s = _fmix_inv(target) ^ n
        if t:
            k = int.from_bytes(tail, "little")
            k = k * 0xcc9e2d51 & M; k = (k << 15 | k >> 17) & M; k = k * 0x1b873593 & M
            s ^= k
        s = (s - 0xe6546b64) * I5 & M; s = (s >> 13 | s << 19) & M
        k = s ^ h
        k = k * I2 & M; k = (k >> 15 | k << 17) & M; k = k * I1 & M
        b = k.to_bytes(4, "little")
        ok = all(0x21 <= c <= 0x7e for c in b) if ascii else all(c > 0x20 and c != 0x7f for c in b)
        if not ok or (not key and 0x2f in b) : continue
        x = (pre + b + tail).decode("latin1")
        assert murmur32(x) == target
        return x

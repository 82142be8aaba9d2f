"""Requests nobody should send: grammar-based and mutated input for both ports.

Names are drawn from a space of their own (tables j..), so that what they do never concerns the tables the oracle watches."""
from gen import word

METHODS = ["GET", "PUT", "HEAD", "DELETE", "BULK", "PURGE", "ADMIN", "POST", "OPTIONS", "GE", "G", "P", "PU", "PUTT", "DELET", "DELETED", "BUL", "HEADX", "get", "put", "", " ", "\t", "ADMI", "PURG", "\x00", "\xff\xff\xff\xff\xff\xff\xff\xff"]
NUMS = ["0", "1", "5", "10", "4095", "4096", "4097", "16383", "16384", "16385", "65535", "65536", "100000", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "9223372036854775807", "9223372036854775808",
        "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-1", "-5", "+5", "0x10", "1e3", "5 ", " 5", "  5", "5x", "x", "", "00005", "0000000000000000000000000000005", "5\t", "5,5", "\x00", "5\x00", "\xb2", "1 2"]
HDRS = ["Content-Length", "content-length", "CONTENT-LENGTH", "Content-length", "X-Ttl", "X-TTL", "x-ttl", "X-Limit", "X-LIMIT", "x-limit", "X-Start", "X-START", "x-start", "X-Delete", "x-delete", "Connection", "connection", "Host", "User-Agent",
        "Content-Lengt", "Content-Lengthy", "X-Tt", "X-Ttll", "X-", "X", "", ":", "Content-Length ", " Content-Length", "Transfer-Encoding", "Expect"]
VALS = ["Close", "close", "CLOSE", "keep-alive", "Keep-Alive", "", " ", "a", "jk1", "chunked", "100-continue", "Clos", "Closed", "\x00", "\xff" * 9]

def pick(rng, l): return l[rng.randrange(len(l))]

def long(rng):
    return word(rng, 1) * pick(rng, [100, 500, 1000, 4000, 8000, 16000, 16300, 16370, 16380, 16383, 16384, 16385, 16390, 16500, 20000, 33000, 70000])

def name(rng):
    r = rng.random()
    if r < 0.7: return "j" + str(rng.randrange(4))
    if r < 0.8: return ""
    if r < 0.9: return "j" + word(rng, rng.randrange(0, 20))
    if r < 0.95: return pick(rng, ["/", "//", "..", "../../x", "j\x00k", "j\xff", "%00", "j%s%n", "j?a=b", "j;rm", "~"])
    return "j" + long(rng)

def path(rng, mon):
    if mon and rng.random() < 0.75: return pick(rng, ["/", "/conn", "/conn/", "/con", "/connn", "", "//", "/x", "/conn?x", "conn", "*"])
    r = rng.random()
    if r < 0.6: return "/%s/%s" % (name(rng), name(rng))
    if r < 0.8: return "/%s" % name(rng)
    if r < 0.86: return pick(rng, ["/", "//", "", "/gc", "gc", "/gc/", "/g", "*", "/stats", "http://h/j/k", "/j1/"])
    return name(rng)

def header(rng):
    r = rng.random()
    if r < 0.45: return "Content-Length", pick(rng, NUMS) if rng.random() < 0.5 else str(rng.choice([1, 5, 100, 4096, 4097, 9000, 20000]))
    h = pick(rng, HDRS)
    r = rng.random()
    v = pick(rng, NUMS) if r < 0.5 else pick(rng, VALS) if r < 0.8 else name(rng) if r < 0.97 else long(rng)
    return h, v

def request(rng, mon=False):
    """one request, mostly well-formed, as latin1 text"""
    eol = "\r\n" if rng.random() < 0.93 else pick(rng, ["\n", "\r", "\n\r", "\r\r\n", "\r\n "])
    m = pick(rng, METHODS[:7]) if rng.random() < 0.85 else pick(rng, METHODS) if rng.random() < 0.9 else long(rng)
    if mon and rng.random() < 0.7: m = pick(rng, ["GET", "GET", "HEAD"])
    sp = " " if rng.random() < 0.96 else pick(rng, ["", "  ", "\t", "\x00"])
    ver = "HTTP/1.1" if rng.random() < 0.9 else pick(rng, ["HTTP/1.0", "", "HTTP", "HTTP/9.9", "x", long(rng)])
    out = m + sp + path(rng, mon) + sp + ver + eol
    hs = [header(rng) for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3, 6]) if rng.random() < 0.97 else 300)]
    if m == "PUT" and rng.random() < 0.8: hs = [h for h in hs if h[0].lower() != "content-length"] + [("Content-Length", str(rng.choice([1, 2, 5, 50, 4096, 4097, 8192, 16384, 20000, 60000])))]
    rng.shuffle(hs)
    for h, v in hs:
        sep = ": " if rng.random() < 0.95 else pick(rng, [":", " : ", ":  ", "", " ", "::", "\x00"])
        out += h + sep + v + (eol if rng.random() < 0.97 else pick(rng, ["", "\n", "\r"]))
    out += eol if rng.random() < 0.96 else pick(rng, ["", "\n", "\r", eol + eol])
    cl = [v for h, v in hs if h == "Content-Length"]
    n = int(cl[-1]) if cl and cl[-1].isascii() and cl[-1].isdigit() and len(cl[-1]) < 6 else rng.choice([0, 3])
    if m in ("PUT",) or rng.random() < 0.05:
        if rng.random() < 0.25: n = max(0, n + rng.choice([-1, -2, -n, 1, 2, 100, -100]))
        out += (word(rng, 16) * (n // 16 + 1))[:n]
    return out

def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2, 4, 8])):
        if not s: return s
        r = rng.random(); a = rng.randrange(len(s)); b = min(len(s), a + rng.choice([1, 1, 2, 5, 20, 200]))
        if r < 0.3: s = s[:a] + chr(rng.randrange(256)) + s[a + 1:]
        elif r < 0.5: s = s[:a] + s[b:]
        elif r < 0.65: s = s[:b] + s[a:b] * rng.choice([1, 2, 50]) + s[b:]
        elif r < 0.8: s = s[:a] + pick(rng, NUMS + VALS + HDRS + METHODS + ["\r\n", "\r\n\r\n", "\n", " ", "/", ":"]) + s[a:]
        elif r < 0.9: s = s[:a] + chr(ord(s[a]) ^ (1 << rng.randrange(8))) + s[a + 1:]
        else: s = s[:a]
    return s

def stream(rng, mon=False):
    """what one hostile client sends"""
    r = rng.random()
    if r < 0.04: return "".join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 10, 100, 1000])))
    if r < 0.06: return long(rng)
    s = "".join(request(rng, mon) for _ in range(rng.choice([1, 1, 1, 2, 3, 8])))
    if rng.random() < 0.35: s = mutate(rng, s)
    return s

def cuts(rng, n):
    """piece lengths"""
    r = rng.random()
    if r < 0.5: return []
    if r < 0.6: return [1] * min(n, 60)
    return [rng.choice([1, 2, 3, 7, 16, 50, 300, 4096, 16384]) for _ in range(rng.randrange(1, 8))]

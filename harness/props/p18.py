"""P18: listen addresses and options on the command line mean what they say.

Generated command lines: address lists of every form, valid and not, for both services, with the other options in short and long form.
The set of sockets the process really listens on (from /proc) is compared with the list; every address is then used."""
import glob, os, re, signal, socket, subprocess, time
from gen import *
import server, build
from server import Failure, Inconclusive, Server, req, value_bytes
ID = "P18"
LEVEL = "exploration"
QUICK, THOROUGH = 3360, 40000
VARIANTS = ["asan", "rel", "debug", "relbig"]
RULE = "a command line counts as non-trivial when it lists at least 2 addresses, or must be refused"
ASSUMPTIONS = ["-b and -B are each given once", "database and pid file paths are absolute for daemons", "transparent addresses (suffix t) may be refused for lack of privileges"]

BAD = ["", "127.0.0.1", ":{p}", "{p}", "127.0.0.1:", "127.0.0.1:x", "127.0.0.1:{p}x", "127.0.0.1:-1", "127.0.0.1:65536", "127.0.0.1:99999999999999999999", "127.0.0:{p}", "127.0.0.1.1:{p}", "256.0.0.1:{p}",
       "localhost:{p}", "[::1]", "[::1]{p}", "[::1:{p}", "::1:{p}", "[::g]:{p}", "[]:{p}", "[127.0.0.1]:{p}", "[::1]:{p}:1", "127.0.0.1:{p} ", " 127.0.0.1:{p}", "127.0.0.1: {p}", "u:", "u:{longpath}", "u:{root}/none/x", "127.0.0.1:{used}",
       "[::1]:{used6}", "192.0.2.77:{p}", "[2001:db8::77]:{p}", "127.0.0.1:{p}tt", "127.0.0.1:+{p}", "127.0.0.1:0x50", "u", "x:/tmp", "u/x", "[::1]:", "[::1]:{p}y", "127.0.0.1;{p}", "127.0.0.1:{p}:{p}", "u:{root}"]

def gen(rng, i, tier):
    def good(j):
        r = rng.random()
        if r < 0.35: return ["4", rng.choice(["127.0.0.1", "127.0.0.1", "127.0.0.%d" % rng.randrange(2, 255), "127.%d.%d.%d" % (rng.randrange(1, 256), rng.randrange(256), rng.randrange(1, 255)), "0.0.0.0"])]
        if r < 0.6: return ["6", rng.choice(["::1", "::1", "0:0:0:0:0:0:0:1", "::", "::ffff:127.0.0.1", "0000::0001"])]
        return ["u", rng.choice(["s%d", "with space %d", "x:y%d", "[a]%d", "%%s%d", "\xe4%d", "d/sub%d", "-b%d", "LONG%d", "u:%d"]) % j]
    n = rng.choice([1, 1, 2, 2, 3, 4, 6, 9, 20]) if tier == "quick" else rng.choice([1, 2, 3, 5, 9, 30, 80])
    c = [good(j) for j in range(n)]
    mon = [good(100 + j) for j in range(rng.choice([0, 0, 1, 2, 3]))]
    cfg = dict(variant=rng.choice(["asan", "asan", "rel", "debug"]), cache=c, mon=mon, long=rng.random() < 0.4, eq=rng.random() < 0.5, bad=None, samep=rng.random() < 0.4)
    if rng.random() < 0.4:
        where = rng.choice(["cache", "cache", "mon"]); t = rng.choice(BAD)
        cfg["bad"] = [where, rng.randrange(len(cfg[where]) + 1), t]
    elif rng.random() < 0.06: cfg["bad"] = ["opt", 0, rng.choice(["-x", "--nonsense", "--database-max", "-s", "--bind", "-r"])]
    r = rng.random()
    cfg["pid"] = rng.choice([None, None, "p", "p", "old", "leave", "baddir"]) if not cfg["bad"] else None
    cfg["daemon"] = cfg["pid"] in ("p", "old", "leave") and rng.random() < 0.15 and not cfg["bad"]
    if cfg["daemon"]: cfg["o"] = rng.random() < 0.5
    cfg["stale"] = rng.random() < 0.3      # sockets of an earlier run are still there
    cfg["db"] = rng.choice(["db", "db", "db", "d b", "x/", "d'b", "rel", "-db", "$(a)"])
    cfg["size"] = rng.choice([None, None, None, 3000, 20000, 20000, 2 ** 32 + rng.choice([1, 1000, 20000]), rng.choice([2 ** 31 + 5, 2 ** 32, 2 ** 33 + 3000, 2 ** 40 + 100, 10 ** 15 + 1, 2 ** 63 - 1])]); cfg["pct"] = rng.choice([None, 0, 10, 50, 75, 100])
    cfg["order"] = rng.random()
    return {"cfg": cfg, "ops": []}

def listening(pid):
    """what the process listens on: {("4", addr, port), ("6", addr, port), ("u", path)}"""
    ino = set()
    for f in os.listdir("/proc/%d/fd" % pid):
        try: l = os.readlink("/proc/%d/fd/%s" % (pid, f))
        except OSError: continue
        if l.startswith("socket:["): ino.add(l[8:-1])
    out = set()
    for fam, fn in (("4", "tcp"), ("6", "tcp6")):
        for line in open("/proc/net/" + fn).read().split("\n")[1:]:
            w = line.split()
            if len(w) > 9 and w[3] == "0A" and w[9] in ino:
                a, p = w[1].split(":")
                if fam == "4": a = socket.inet_ntop(socket.AF_INET, bytes.fromhex(a)[::-1])
                else: a = socket.inet_ntop(socket.AF_INET6, b"".join(bytes.fromhex(a[x:x + 8])[::-1] for x in range(0, 32, 8)))
                out.add((fam, a, int(p, 16)))
    for line in open("/proc/net/unix", encoding="latin1").read().split("\n")[1:]:
        w = line.split(" ")
        w = [x for x in line.split(" ") if x]
        if len(w) >= 8 and w[6] in ino and w[3] == "00010000":
            out.add(("u", line.split(w[6] + " ", 1)[1]))
    return out

def run(case, info):
    cfg = case["cfg"]
    with Server(cfg["variant"], dbname="unused") as s:
        extra = []
        try: return go(s, cfg, info, extra)
        finally:
            for p in extra:
                try: os.kill(p, signal.SIGKILL)
                except OSError: pass

def go(s, cfg, info, extra):
    root = s.root; held = []
    def used(fam):
        x = socket.socket(fam); x.bind(("127.0.0.1" if fam == socket.AF_INET else "::1", 0)); x.listen(1); held.append(x)
        return x.getsockname()[1]
    os.makedirs(root + "/d", exist_ok=True)
    port0 = server.free_port(); taken = set()
    def addr(a):
        """-> (text, key, address to connect to)"""
        if a[0] == "u":
            p = root + "/" + a[1]
            if "LONG" in p: p += "y" * (107 - len(p.encode("latin1")))
            p = p.encode("latin1")
            if cfg["stale"]:
                x = socket.socket(socket.AF_UNIX); 
                try: x.bind(p)
                except OSError: pass
                x.close()
            return b"u:" + p, ("u", p.decode("latin1")), p
        norm = socket.inet_ntop(socket.AF_INET if a[0] == "4" else socket.AF_INET6, socket.inet_pton(socket.AF_INET if a[0] == "4" else socket.AF_INET6, a[1]))
        # one port for several addresses where that is possible
        p = port0
        wild = norm in ("0.0.0.0", "::", "::ffff:127.0.0.1")
        if wild or not cfg["samep"] or (norm, p) in taken: p = server.free_port()
        taken.add((norm, p))
        to = {"0.0.0.0": "127.0.0.1", "::": "::1"}.get(norm, norm)
        txt = "%s:%d" % (a[1], p) if a[0] == "4" else "[%s]:%d" % (a[1], p)
        return txt.encode(), (a[0], norm, p), (to, p)
    lists = {"cache": [addr(a) for a in cfg["cache"]], "mon": [addr(a) for a in cfg["mon"]]}
    if len({x[1] for l in lists.values() for x in l}) != sum(map(len, lists.values())): return
    texts = {w: [x[0] for x in l] for w, l in lists.items()}
    bad = cfg["bad"]; opts = []
    if bad and bad[0] != "opt":
        t = bad[2].replace("{p}", str(server.free_port())).replace("{longpath}", root + "/" + "z" * (108 - len(root) - 1)).replace("{root}", root)
        if "{used}" in t: t = t.replace("{used}", str(used(socket.AF_INET)))
        if "{used6}" in t: t = t.replace("{used6}", str(used(socket.AF_INET6)))
        texts[bad[0]].insert(bad[1], t.encode())
    def opt(short, long, val):
        if isinstance(val, str): val = val.encode("latin1")
        if not cfg["long"]: return [short.encode() + val] if cfg["eq"] and val else [short.encode(), val]
        return [b"--" + long.encode() + b"=" + val] if cfg["eq"] else [b"--" + long.encode(), val]
    db = root + "/" + cfg["db"]
    os.makedirs(db, exist_ok=True)
    groups = [opt("-b", "bind", b",".join(texts["cache"])), opt("-r", "database-file-path", cfg["db"] if cfg["db"] == "rel" and not cfg["daemon"] else db)]
    if texts["mon"]: groups.append(opt("-B", "monitor", b",".join(texts["mon"])))
    if cfg["size"]: groups.append(opt("-s", "database-max-size", str(cfg["size"])))
    if cfg["pct"] is not None: groups.append(opt("-l", "database-lru-clear", str(cfg["pct"])))
    pidf = None
    if cfg["pid"]:
        pidf = root + ("/p d.pid" if cfg["pid"] != "baddir" else "/none/p.pid")
        if cfg["pid"] == "old": open(pidf, "w").write("123456789012345\nmore\n")
        groups.append(opt("-m", "make-pid", pidf))
        if cfg["pid"] == "leave": groups.append([b"--leave-pid"])
    if cfg["daemon"]: groups.append([b"-d"]); groups += [[b"-o"]] if cfg["o"] else []
    if bad and bad[0] == "opt": groups.append([bad[2].encode()])
    else:
        import random
        random.Random(cfg["order"]).shuffle(groups)
    s.logpath = root + "/log"; log = open(s.logpath, "wb")
    ctl = server.Ctl(root + "/ctl"); s.ctl = ctl
    env = {"PATH": os.environ["PATH"], "HOME": root, "SCV_CTL": ctl.path, "ASAN_OPTIONS": "detect_leaks=0:exitcode=77"}
    s.cmd = [s.exe.encode()] + [x for g in groups for x in g]
    s.p = subprocess.Popen(s.cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env, cwd=root, start_new_session=True); log.close()
    refuse = bool(bad) or cfg["pid"] == "baddir"
    if refuse:
        t = time.time() + 20
        while s.p.poll() is None and time.time() < t: time.sleep(0.002)
        if s.p.poll() is None:
            l = listening(s.p.pid); raise Failure("started although %r must be refused, listening on %s" % (bad or pidf, sorted(l)[:5]))
        rc = s.p.returncode
        if rc <= 0 or rc == 77: raise Failure("%r: ended with %d: %s" % (bad or pidf, rc, s.log()[-500:]))
        s.p = None
        info["refused"] += 1
        return
    want = {x[1] for l in lists.values() for x in l}
    pid = s.p.pid; t = time.time() + 30
    if cfg["daemon"]:
        s.p.wait()
        if s.p.returncode != 0: raise Failure("starting the daemon ended with %d: %s" % (s.p.returncode, s.log()[-500:]))
        pid = None
        for d in glob.glob("/proc/[0-9]*/cmdline"):
            try:
                if open(d, "rb").read() == b"\0".join(s.cmd) + b"\0": pid = int(d.split("/")[2])
            except OSError: pass
        if pid is None: raise Failure("the daemon is not running: %s" % s.log()[-500:])
        extra.append(pid); s.p = None
    def dead():
        if s.p is not None: return s.p.poll() is not None
        return not os.path.exists("/proc/%d" % pid) or server._zombie(pid)
    while True:
        if dead(): raise Failure("ended with %s instead of serving %s: %s" % (s.p.poll() if s.p else "?", sorted(map(str, want)), s.log()[-600:]))
        got = listening(pid)
        if got == want: break
        if time.time() > t: raise Failure("listens on %s, was told %s" % (sorted(map(str, got - want)), sorted(map(str, want - got))))
        time.sleep(0.003)
    time.sleep(0.001)
    if dead(): raise Failure("ended after binding: %s" % s.log()[-600:])
    hold = s.p; s.check_alive = lambda what="": (_ for _ in ()).throw(Failure("the server died: " + what + s.log()[-500:])) if dead() else None
    # every address serves the same data
    class A(server.Conn): pass
    conns = []
    def conn(to):
        if isinstance(to, bytes): to = to.decode("latin1").encode("latin1").decode("utf-8", "surrogateescape")
        c = server.Conn(s, to); conns.append(c); return c
    cs = [conn(x[2]) for x in lists["cache"]]
    big = not cfg["size"] or cfg["size"] > 2 ** 31
    for j, c in enumerate(cs):
        b = value_bytes("p18-%d" % j, 5000 if big else 10)
        if s.request(c, req("PUT", "/t/k%d" % j, (), b)).status != 200: raise Failure("PUT failed")
        o = cs[(j * 7 + 3) % len(cs)]
        if s.request(o, req("GET", "/t/k%d" % j)).body != b: raise Failure("data stored at %s is not served at another address" % (lists["cache"][j][0],))
    for x in lists["mon"]:
        c = conn(x[2]); c.send(req("GET", "/conn"))
        c.need(lambda: True if c.buf.find(b"\n0\n") > 0 else None, "stream at %s" % (x[0],))
        if b"X-Hostname" not in c.buf: raise Failure("%s is no monitoring service: %r" % (x[0], bytes(c.buf[:100])))
    if pidf:
        t = open(pidf).read()
        if t.strip() != str(pid) or not t.endswith("\n"): raise Failure("pid file contains %r, the server is %d" % (t, pid))
    # the database is where it was told to be
    d = db if not (cfg["db"] == "rel") else root + "/rel"
    if not os.path.exists(d + "/blockfile.db"): raise Failure("no database in %s" % d)
    if big and sum(len(f) for _, _, f in os.walk(d + "/files")) != len(cs): raise Failure("the values are not in %s" % d)
    if cfg["size"]:
        c = cs[0]; n = 0
        for j in range(60):
            if s.request(c, req("PUT", "/big/k%d" % j, (), bytes(1000))).status != 200: raise Failure("PUT failed")
        st = s.gc(c)
        pct = 20 if cfg["pct"] is None else cfg["pct"]
        if big:
            # far below the limit: nothing goes
            for j in range(60):
                if s.request(c, req("GET", "/big/k%d" % j)).status != 200: raise Failure("limit %d: /big/k%d is gone with %d bytes stored" % (cfg["size"], j, st["bytes"]))
        goal = cfg["size"] * (1 - pct / 100.0)
        if not big and not goal - 1001 <= st["bytes"] <= goal + 1 and not (pct == 0 and st["bytes"] == cfg["size"]) and not (st["bytes"] <= cfg["size"] and st["bytes"] > goal - 1001): raise Failure("limit %s, %s %%: %d bytes left" % (cfg["size"], pct, st["bytes"]))
    for c in conns: c.close()
    os.kill(pid, signal.SIGTERM)
    t = time.time() + 30
    while not dead():
        if time.time() > t: raise Failure("does not end when asked to")
        time.sleep(0.003)
    if s.p and s.p.returncode != 0: raise Failure("ended with %d: %s" % (s.p.returncode, s.log()[-800:]))
    s.p = None
    if pidf and os.path.exists(pidf) != (cfg["pid"] == "leave"): raise Failure("the pid file is %s after the end" % ("still there" if os.path.exists(pidf) else "gone"))
    for h in held: h.close()
    info["started"] += 1; info["addresses"] += len(want)

def nontrivial(case, info):
    return info["refused"] > 0 or info["addresses"] >= 2

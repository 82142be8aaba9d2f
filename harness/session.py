"""A model-checked session: generated operations are applied to a real server and to a reference
model, and every answer is compared.

The model keeps, for every key, the set of values it may have (usually one).  Several values are
possible only after requests overlapped in a way whose outcome the properties leave open; the next
read collapses the set.  Ops that refer to something that does not exist (after shrinking) do nothing.
"""
import collections, functools, os, random, time
import server
from server import Failure, Inconclusive, Server, req, value_bytes

BLOCK = 4096
NONE = [None]

@functools.lru_cache(maxsize=64)
def val(vid, size):
    return value_bytes(vid, size)

def put_head(t, k, vid, size, ttl=None, hdrs=()):
    """the head of a PUT; the order and the form of its headers vary with the number of the value.
    -> (bytes, where the line of the lifetime ends)"""
    s = vid if isinstance(vid, int) else 0
    hs = [(("Content-Length: %d", "Content-Length:%d", "Content-Length:  %d ")[s % 7 // 3] % size).encode()]
    x = None
    if ttl is not None:
        x = (("X-Ttl: %d", "x-ttl: %d", "X-Ttl:%d", "X-Ttl:   %d  ")[s // 2 % 4] % ttl).encode()
        hs.insert(s % 2, x)
    for h in hdrs: hs.insert(0, ("%s: %s" % tuple(h)).encode("latin1"))
    if s % 5 == 1: hs.insert(s // 5 % (len(hs) + 1), b"X-Other: 5")
    if s % 11 == 3: hs.append(b"Content-Type: text/plain; x=7")
    out = ("PUT /%s/%s HTTP/1.%d\r\n" % (t, k, s % 13 != 5)).encode("latin1"); end = 0
    for h in hs:
        out += h + b"\r\n"
        if h is x: end = len(out)
    return out + b"\r\n", end

class V:
    __slots__ = ("vid", "size", "exp")
    def __init__(self, vid, size, exp=None):
        self.vid, self.size, self.exp = vid, size, exp
    def bytes(self):
        return val(self.vid, self.size)
    def __repr__(self):
        return "value#%s(%d bytes%s)" % (self.vid, self.size, "" if self.exp is None else ", expires %d" % self.exp)

class Key:
    def __init__(self):
        self.poss = [None]          # V or None, the visible value
        self.writers = []           # uploads begun on this key: dicts with "st" in sure/mock/maybe
        self.hist = [self.snap()]
        self.owned = set()          # indices into hist: states that a DELETE (answered 200, alone at that moment) made
    def snap(self):
        return (tuple(self.poss), any(w["st"] != "mock" for w in self.writers))
    def note(self):
        s = self.snap()
        if s != self.hist[-1]:
            self.hist.append(s)
    def sure(self):
        return len(self.poss) == 1 and not any(w["st"] == "maybe" for w in self.writers)

def describe(r):
    return r.brief()

class Session:
    def __init__(self, cfg, info, root=None):
        self.cfg, self.info = cfg, info
        self.t = collections.OrderedDict()      # (table, key) -> Key
        self.bt = {}                             # table -> key -> Key
        self.hint = {}                           # table -> a Key that made it exist when last asked
        self.thist = {}                          # table -> history of yes/no/maybe
        self.conns = {}
        self.up, self.down, self.pend = {}, {}, {}
        self.now = cfg.get("now")
        self.lru = []                            # (table, key), least recent first; kept only for sure states
        self.cnt = dict(inserts=0, gets=0, deletes=0)
        self.cnt_exact = True
        self.lossy = bool(cfg.get("lossy"))      # a size limit may evict any key at any moment
        self.flush_pending = False
        self.srv = Server(cfg.get("variant", "rel"), root=root, dbname=cfg.get("dbname", "db"), args=cfg.get("args", ()),
                          monitor=cfg.get("monitor", False), frozen=self.now, use_unix=cfg.get("unix", True))
        self.ctl_init = {}
        if cfg.get("sndbuf"):
            self.ctl_init["SNDBUF"] = cfg["sndbuf"]
        if cfg.get("sock_mode"):
            self.ctl_init.update(SOCK_MODE=cfg["sock_mode"], SOCK_MAX=cfg.get("sock_max", 1000), SOCK_PRNG=cfg.get("sock_seed", 1))
        if cfg.get("fork_mode"):
            self.ctl_init["FORK_MODE"] = cfg["fork_mode"]
            self.ctl_init["RELEASE"] = 1

    def __enter__(self):
        self.srv.start(self.ctl_init)
        return self
    def __exit__(self, et, ev, tb):
        try:
            if et is None and self.srv.alive():
                self.srv.sanitizer_ok()
            elif et is not None and issubclass(et, Failure) and self.srv.p is not None:
                # the cause of a strange answer is often a crash: report that instead
                try:
                    self.srv.check_alive(str(ev))
                except Failure as f:
                    if "Sanitizer" in str(f) and "Sanitizer" not in str(ev):
                        raise f
        finally:
            self.srv.destroy()

    def run(self, ops):
        for i, op in enumerate(ops):
            self.i = i
            f = getattr(self, "op_" + op[0])
            try:
                f(*op[1:])
            except Failure as e:
                raise Failure("op %d %s: %s" % (i, str(op)[:200], e)) from None
            self.info["op_" + op[0]] += 1

    # ------------------------------------------------------------ model helpers
    def key(self, t, k):
        x = self.t.get((t, k))
        if x is None:
            x = self.t[(t, k)] = Key()
            self.bt.setdefault(t, {})[k] = x
        return x

    def live(self, v):
        return v is not None and (v.exp is None or self.now is None or v.exp >= self.now)

    def visible(self, poss):
        """what a read may see: expired values read as missing"""
        out = []
        for v in poss:
            v = v if self.live(v) else None
            if v not in out:
                out.append(v)
        if self.lossy and None not in out:
            out.append(None)
        return out

    def set(self, t, k, poss):
        x = self.key(t, k)
        out = []
        for v in poss:
            if v not in out:
                out.append(v)
        x.poss = out
        x.note()
        self.tnote(t)

    def tstate(self, t):
        def exists(x):
            return any(w["st"] == "sure" for w in x.writers) or (None not in x.poss and all(self.live(v) for v in x.poss) and not self.lossy)
        if t in self.hint and exists(self.hint[t]):
            return "yes"
        st = "no"
        for x in self.bt.get(t, {}).values():
            if not x.writers and x.poss == NONE:
                continue
            if any(w["st"] == "sure" for w in x.writers) or None not in x.poss:
                # expired values may or may not have been collected already
                if exists(x):
                    self.hint[t] = x
                    return "yes"
                st = "maybe"
            elif any(w["st"] == "maybe" for w in x.writers) or x.poss != [None]:
                st = "maybe"
        # a request for this table whose URL is only partly processed may hold it open
        for p in list(self.pend.values()) + list(self.up.values()):
            if p["t"] == t and st == "no" and p.get("opens"):
                st = "maybe"
        return st

    def tnote(self, t, force=False):
        # the histories matter only to requests begun and not yet complete
        if not self.pend and not force: return
        s = self.tstate(t)
        h = self.thist.setdefault(t, ["no"])
        if h[-1] != s:
            h.append(s)

    def lru_touch(self, t, k):
        if (t, k) in self.lru:
            self.lru.remove((t, k))
        self.lru.append((t, k))
    def lru_drop(self, t, k):
        if (t, k) in self.lru:
            self.lru.remove((t, k))

    def conn(self, c):
        x = self.conns.get(c)
        if x is None or x.eof or x not in self.srv.conns:
            x = self.conns[c] = self.srv.conn()
        return x

    # ------------------------------------------------------------ checks of answers
    def check_get(self, r, t, k, poss, head=False, collapse=True):
        """r answers a read that could see any of poss"""
        vis = self.visible(poss)
        name = "/%s/%s" % (t[:60], k[:60])
        if r.status == 404:
            if None not in vis:
                raise Failure("%s of %s answered 404 but %s must be stored" % ("HEAD" if head else "GET", name, vis))
            if collapse:
                x = self.key(t, k)
                keep = [v for v in x.poss if not self.live(v)] or [None]
                # a read removes an expired value
                self.set(t, k, [None] if len(keep) == 1 or all(v is None for v in keep) else keep)
            return None
        if r.status != 200:
            raise Failure("%s of %s answered %s" % ("HEAD" if head else "GET", name, r.brief()))
        cand = [v for v in vis if v is not None]
        if head:
            cl = r.h("Content-Length")
            cand = [v for v in cand if str(v.size) == cl]
            if not cand:
                raise Failure("HEAD of %s says Content-Length %s, possible values: %s" % (name, cl, vis))
        else:
            cand = [v for v in cand if v.size == len(r.body) and v.bytes() == r.body]
            if not cand:
                raise Failure("GET of %s returned wrong data (%s); possible values: %s" % (name, self.explain(r.body, t, k), vis))
        ttl = r.h("X-Ttl")
        if self.now is not None or all(v.exp is None for v in cand):
            ok = [v for v in cand if ttl == ("0" if v.exp is None else str(v.exp - (self.now or 0)))]
            if not ok:
                raise Failure("%s of %s reports X-Ttl %s; possible values: %s at time %s" % ("HEAD" if head else "GET", name, ttl, cand, self.now))
            cand = ok
        if collapse:
            x = self.key(t, k)
            keep = [v for v in x.poss if v in cand]
            if keep:
                self.set(t, k, keep)
        return cand[0]

    def explain(self, body, t, k):
        """whose data is this?"""
        for (tt, kk), x in self.t.items():
            for s in x.hist:
                for v in s[0]:
                    if v is not None and v.size == len(body) and v.bytes() == body:
                        return "%d bytes: exactly an %s value of /%s/%s" % (len(body), "older" if (tt, kk) == (t, k) else "", tt[:40], kk[:40])
        for v in self.key(t, k).poss:
            if v is not None:
                b = v.bytes()
                n = min(len(b), len(body))
                d = next((i for i in range(n) if b[i] != body[i]), n)
                return "%d bytes, first difference from expected at offset %d" % (len(body), d)
        return "%d bytes: %r" % (len(body), body[:40])

    def expect(self, r, status, body, what):
        if r.status != status or (body is not None and r.body != body):
            raise Failure("%s answered %s, expected %s %r" % (what, r.brief(), status, body))

    # ------------------------------------------------------------ effects
    def begin_put(self, t, k, v, up):
        x = self.key(t, k)
        self.cnt["inserts"] += 1
        act = [w for w in x.writers if w["st"] != "mock"]
        if not act:
            up["st"] = "sure"
            if x.poss != [None]:
                self.info["overwrite"] += 1
            x.writers.append(up)
            self.lru_drop(t, k)
            self.set(t, k, [None])
        elif any(w["st"] == "sure" for w in act):
            up["st"] = "mock"; x.writers.append(up); self.info["overlapped_upload"] += 1
        else:
            up["st"] = "maybe"; x.writers.append(up)
            self.set(t, k, x.poss + [None])
        x.note(); self.tnote(t)

    def end_put(self, t, k, v, up, done):
        x = self.key(t, k)
        if up in x.writers:
            x.writers.remove(up)
        if up["st"] == "sure":
            self.set(t, k, [v if done else None])
            if done: self.lru_touch(t, k)
        elif up["st"] == "maybe":
            self.set(t, k, x.poss + [v if done else None])
        x.note(); self.tnote(t)

    def del_effect(self, t, k, since=None):
        """a delete that took effect at some moment since hist index `since` (None: just now)"""
        x = self.key(t, k)
        if x.writers:
            for w in x.writers:
                if w["st"] == "sure":
                    w["st"] = "maybe"; self.info["delete_during_upload"] += 1
        if since is None or since == len(x.hist) - 1:
            n = len(x.hist)
            clean = x.sure() and x.poss[0] is not None and self.live(x.poss[0]) and not x.writers and not self.lossy
            self.set(t, k, [None])
            if clean and len(x.hist) == n + 1: x.owned.add(n)
        else:
            self.set(t, k, x.poss + [None])
        self.lru_drop(t, k)
        x.note(); self.tnote(t)

    def ukeys(self, t):
        return list(self.bt.get(t, {}))

    # ------------------------------------------------------------ whole requests
    def op_put(self, c, t, k, vid, size, ttl=None):
        if ttl is not None and self.now is None:
            ttl = None
        v = V(vid, size, None if not ttl else self.now + ttl)
        up = {}
        self.begin_put(t, k, v, up)
        r = self.srv.request(self.conn(c), put_head(t, k, vid, size, ttl)[0] + v.bytes(), what="PUT answer")
        self.expect(r, 200, b"OK\r\n", "PUT")
        self.end_put(t, k, v, up, True)
        self.info["put_block" if size <= BLOCK else "put_file"] += 1

    def op_get(self, c, t, k):
        if any(v is not None and not self.live(v) for v in self.key(t, k).poss): self.info["expired_read"] += 1
        r = self.srv.request(self.conn(c), req("GET", "/%s/%s" % (t, k)), what="GET answer")
        v = self.check_get(r, t, k, self.key(t, k).poss)
        if v is not None:
            self.info["hit"] += 1; self.cnt["gets"] += 1; self.lru_touch(t, k)
        else:
            self.info["miss"] += 1
            if self.key(t, k).writers: self.cnt_exact = False

    def op_head(self, c, t, k):
        cc = self.conn(c)
        cc.send(req("HEAD", "/%s/%s" % (t, k)))
        r = cc.response(head=True, what="HEAD answer")
        if self.cfg.get("head404body") and r.status == 404:
            n = int(r.h("Content-Length") or 0)
            cc.need(lambda: True if len(cc.buf) >= n else None, "body"); cc.take(n)
        v = self.check_get(r, t, k, self.key(t, k).poss, head=True)
        if v is not None:
            self.info["hit"] += 1; self.cnt["gets"] += 1; self.lru_touch(t, k)
        else:
            self.info["miss"] += 1
            if self.key(t, k).writers: self.cnt_exact = False

    def check_del(self, r, states, writing, ghosts):
        """DELETE answered r while the key was in one of these visible states"""
        can200 = any(v is not None for v in states) or writing or ghosts
        can404 = None in states or writing or ghosts
        if r.status == 200 and r.body == b"DELETED\r\n" and can200:
            return True
        if r.status == 404 and r.body == b"Key not Found\r\n" and can404:
            return False
        raise Failure("DELETE answered %s; possible values were %s%s" % (r.brief(), states, ", upload in progress" if writing else ""))

    def op_del(self, c, t, k):
        x = self.key(t, k)
        vis = self.visible(x.poss)
        wr = any(w["st"] != "mock" for w in x.writers)
        ghosts = any(v is not None and not self.live(v) for v in x.poss)
        r = self.srv.request(self.conn(c), req("DELETE", "/%s/%s" % (t, k)), what="DELETE answer")
        if self.check_del(r, vis, wr, ghosts):
            self.del_effect(t, k)
            self.cnt["deletes"] += 1
            self.info["deleted"] += 1
        elif not wr:
            if self.tstate(t) == "no" or not ghosts:
                self.set(t, k, [None])
        if wr or ghosts: self.cnt_exact = False

    # the table "" has keys ("//key") but no requests of its own: "/" is the statistics page
    def op_delt(self, c, t):
        if t == "": return
        st = self.tstate(t)
        r = self.srv.request(self.conn(c), req("DELETE", "/%s" % t), what="DELETE table answer")
        if r.status == 200 and r.body == b"DELETED\r\n" and st != "no":
            if sum(1 for k in self.ukeys(t) if self.key(t, k).poss != [None]) > 1: self.info["table_deleted_multi"] += 1
            for k in self.ukeys(t):
                self.del_effect(t, k)
            self.info["table_deleted"] += 1
        elif r.status == 404 and r.body == b"Key not Found\r\n" and st != "yes":
            for k in self.ukeys(t):
                if not self.key(t, k).writers:
                    self.set(t, k, [None])
        else:
            raise Failure("DELETE of table %s (exists: %s) answered %s" % (t, st, r.brief()))

    def bulk_bytes(self, t, ks, verb="BULK"):
        return req(verb, "/%s" % t, [("X-Delete", k.encode("latin1")) for k in ks])

    def op_bulk(self, c, t, ks, verb="BULK"):
        if t == "": return
        r = self.srv.request(self.conn(c), self.bulk_bytes(t, ks, verb), what="bulk answer")
        self.expect(r, 200, b"BULK OK\r\n", "bulk delete")
        n = 0
        for k in ks:
            x = self.key(t, k)
            if x.poss != [None]:
                n += 1; self.cnt["deletes"] += 1
            if x.poss != [None] or x.writers:
                if x.writers or len(x.poss) > 1 or any(not self.live(v) for v in x.poss if v): self.cnt_exact = False
                self.del_effect(t, k)
        self.info["bulk_removed"] += n

    def op_list(self, c, t, hdrs=()):
        if t == "": return
        cc = self.srv.conn()
        cc.send(req("GET", "/%s" % t, [tuple(h) for h in hdrs]))
        r = cc.listing()
        st = self.tstate(t)
        if r.status == 404:
            if st == "yes":
                raise Failure("listing of existing table %s answered 404" % t)
            return
        if r.status != 200 or st == "no":
            raise Failure("listing of table %s (exists: %s) answered %s" % (t, st, r.brief()))
        if not hdrs:
            self.check_listing(t, r)
        self.info["listed"] += 1
        cc.close()

    def listing_keys(self, r):
        """keys of a listing body: every key ends with CRLF; the key "" is an empty line"""
        b = r.body
        if not b:
            return []
        ks = b.split(b"\r\n")
        if ks[-1] != b"":
            raise Failure("the listing does not end with a line end: %r" % b[-100:])
        ks = ks[:-1]
        return [k.decode("latin1") for k in ks]

    def check_listing(self, t, r):
        got = self.listing_keys(r)
        if len(set(got)) != len(got):
            raise Failure("listing of %s names a key twice: %s" % (t, sorted(k for k in set(got) if got.count(k) > 1)[:5]))
        must, may = set(), set()
        for k in self.ukeys(t):
            x = self.key(t, k)
            if any(v is not None for v in x.poss) or x.writers: may.add(k)
            if all(self.live(v) for v in x.poss): must.add(k)
        if self.lossy: must = set()
        if not must <= set(got):
            raise Failure("listing of %s lacks stored keys: %s" % (t, [k[:40] for k in sorted(must - set(got))[:5]]))
        if not set(got) <= may:
            raise Failure("listing of %s names keys that are not stored: %s" % (t, [k[:40] for k in sorted(set(got) - may)[:5]]))
        e = r.h("X-Entries")
        if must == may and not self.lossy and e != str(len(must)):
            raise Failure("listing of %s announces X-Entries %s, %d keys are stored" % (t, e, len(must)))

    def op_gc(self, c=None):
        if self.up or self.down: self.info["gc_during_transfer"] += 1
        st = self.srv.gc(self.conn(c) if c is not None else None)
        self.drop_ghosts(sure=len(self.t) < 3000)
        return st

    def drop_ghosts(self, sure):
        """after a collection expired values are gone"""
        for (t, k), x in list(self.t.items()):
            if any(v is not None and not self.live(v) for v in x.poss) and sure:
                self.set(t, k, [v if self.live(v) else None for v in x.poss])
                self.info["collected_expired"] += 1
                self.lru_drop(t, k)

    def op_usr1(self):
        import signal
        if self.up or self.down: self.info["gc_during_transfer"] += 1
        self.srv.p.send_signal(signal.SIGUSR1)
        self.srv.sync(1)

    def op_sync(self):
        self.srv.sync()

    def op_hold(self):
        """flushing children started from now on wait (fork_mode 2)"""
        self.srv.ctl.set("RELEASE", 0)

    def op_release(self):
        self.srv.ctl.set("RELEASE", 1)

    def op_gcall(self, c=None):
        """collections until everything expired is gone: must not take more than a few"""
        n = len(self.t)
        if self.up or self.down or self.pend:
            return
        live = None
        for i in range(6 + n // 500):
            st = self.op_gc(c)
            lo = sum(1 for x in self.t.values() for v in x.poss if self.live(v))
            if all(x.sure() for x in self.t.values()) and st["keys"] == lo:
                self.info["gc_settled"] += 1
                return
            if not all(x.sure() for x in self.t.values()):
                return
        raise Failure("expired keys are not removed: %d keys counted after %d collections, %d are stored and unexpired" % (st["keys"], i + 1, lo))

    def op_cstats(self):
        """the operation counters against the model"""
        if self.down or self.pend:
            return
        st = self.srv.stats()
        got = dict(inserts=st["inserts"], gets=st["gets"], deletes=st["deletes"])
        if self.cnt_exact:
            for k in got:
                if got[k] != self.cnt[k]:
                    raise Failure("statistics: %s counter is %d, %d operations succeeded" % (k, got[k], self.cnt[k]))
            self.info["counters_checked"] += 1
        self.cnt, self.cnt_exact = got, True

    def index_id(self):
        """identity of the saved state on disk: changes with every finished flush"""
        out = []
        for p in sorted(os.listdir(self.srv.db)):
            q = os.path.join(self.srv.db, p)
            if os.path.isfile(q) and p != "blockfile.db":
                st = os.stat(q); out.append((p, st.st_ino, st.st_mtime_ns))
        return out

    def op_overlap(self, k, j, n, usr1=False, extra=None):
        """a flush is stopped before its k-th file operation (0: at its start); further collections are requested (a flush they might
        start stops before its j-th); all go on; then the server is killed: what was stored before the first flush began must be there"""
        import signal
        if self.up or self.down or self.pend: return
        ctl = self.srv.ctl
        ctl.set("RELEASE", 1)
        if not self.srv.wait_all_children_reaped(): raise Failure("a flushing process is never waited for")
        self.srv.sync(2)
        before = {tk: (x.poss[0], len(x.hist)) for tk, x in self.t.items() if x.sure() and x.poss[0] is not None and self.live(x.poss[0])}
        ctl.set("HELD", 0); ctl.set("HOLD_OP", k); ctl.set("FORK_MODE", 2); ctl.set("RELEASE", 0)
        self.op_gc()
        end = time.time() + 2
        while not ctl.get("HELD") and self.srv.wait_children(0.001) is False and time.time() < end: pass
        if ctl.get("HELD"): self.info["flush_held"] += 1
        ctl.set("HOLD_OP", j)
        for i in range(n):
            if extra and i == n // 2: self.op_put(0, *extra)
            self.op_usr1() if usr1 else self.op_gc()
        # a second flush, should there be one, gets on
        end = time.time() + 0.03
        while time.time() < end and len([c for c in self.srv.children() if not server._zombie(c)]) > 1: time.sleep(0.001)
        ctl.set("RELEASE", 1)
        if not self.srv.wait_all_children_reaped(): raise Failure("a flushing process does not end or is never waited for")
        self.srv.sync(2)
        self.srv.check_alive("collections during a flush")
        self.srv.kill_all()
        self.ctl_init["FORK_MODE"] = self.cfg.get("fork_mode", 0)
        self.conns = {}
        self.srv.start(self.ctl_init)
        self.cnt_exact = False; self.lru = []
        nocow = "nocow" in self.cfg.get("variant", "")
        for (t, kk), x in list(self.t.items()):
            b = before.get((t, kk))
            poss = [v for s in x.hist for v in s[0]] + [None]
            if b is not None and b[1] == len(x.hist) and not nocow: poss = [b[0]]
            self.set(t, kk, poss)
        self.op_checkall(0)
        self.info["flushes_overlapped"] += 1

    def op_flushworks(self):
        """after everything, a requested collection still starts a flush that ends"""
        self.op_release()
        if not self.srv.wait_all_children_reaped():
            raise Failure("a flushing process is never waited for")
        self.srv.sync(2)
        before = self.index_id()
        self.srv.gc()
        if not self.srv.wait_all_children_reaped():
            raise Failure("flush does not end")
        if self.index_id() == before:
            raise Failure("a collection after the others does not flush the index any more")
        self.info["flush_works"] += 1

    def op_waitflush(self):
        if self.cfg.get("fork_mode") == 2 and not self.srv.ctl.get("RELEASE"):
            return
        if not self.srv.wait_children():
            raise Failure("a flush does not end")

    def op_time(self, dt):
        if self.now is None:
            return
        self.now += dt
        self.srv.set_time(self.now)
        for x in self.t.values():
            for w in x.writers:
                # its value has expired before it was complete: may be removed at any time
                if w["st"] == "sure" and w["v"].exp is not None and not self.live(w["v"]): w["st"] = "maybe"
            x.note()
        for t in list(self.thist):
            self.tnote(t)

    def ready_conn(self, **kw):
        """a new connection that the event loop has certainly taken over already"""
        c = self.srv.conn(**kw)
        c.send(b"GET /~sync~/x HTTP/1.1\r\n\r\n")
        r = c.response(what="answer on a new connection")
        if r.status != 404:
            raise Failure("GET of a missing table answered %s" % r.brief())
        return c

    def settle(self, nbytes=0):
        """the event loop has read nbytes sent before on another connection"""
        self.srv.sync(2 + nbytes // 4096)

    # ------------------------------------------------------------ many small requests, pipelined
    def mkeys(self, base, lo, hi, order, seed=0):
        ks = ["%s%d" % (base, i) for i in range(lo, hi)]
        if order == "rev": ks.reverse()
        elif order == "rnd": random.Random(seed).shuffle(ks)
        elif order == "alt": ks = ks[::2] + ks[1::2]
        elif order == "tail2": ks = [k for i in range(len(ks) - 2, -2, -2) for k in ks[max(i, 0):i + 2]]     # second last first
        elif order == "gaps": ks = [k for i, k in enumerate(ks) if i % 3]
        return ks

    def groups(self, items):
        """pipelined groups that fit the socket buffers; items: (request, answer size, rest)"""
        g, n, m = [], 0, 0
        for it in items:
            if g and (len(g) >= 150 or n + len(it[0]) > 40000 or m + it[1] > 40000):
                yield g
                g, n, m = [], 0, 0
            g.append(it); n += len(it[0]); m += it[1]
        if g: yield g

    def plain(self, t, k):
        """a key whose state is certain and that nobody is uploading"""
        x = self.key(t, k)
        return len(x.poss) == 1 and not x.writers

    def lru_bulk(self, t, ks, touch):
        S = {(t, k) for k in ks}
        self.lru = [e for e in self.lru if e not in S]
        if touch: self.lru += [(t, k) for k in dict.fromkeys(reversed(ks))][::-1]

    def op_mput(self, c, t, base, lo, hi, order, vid, sz, ttl=None):
        """ttl: seconds for all keys, or negated for every other key"""
        ks = self.mkeys(base, lo, hi, order, vid)
        def sizeof(i):
            return sz if isinstance(sz, int) else (1, 5, 100, 4095, 4096, 700, 4097 if sz == "mixf" else 2, 60, 4000)[i * 7 % 9]
        its = []
        for i, k in enumerate(ks):
            tl = None if ttl is None or self.now is None or ttl < 0 and i % 2 else abs(ttl)
            v = V(vid + i, sizeof(i), self.now + tl if tl else None)
            its.append((req("PUT", "/%s/%s" % (t, k), [("X-Ttl", str(tl))] if tl else [], v.bytes()), 200, k, v))
        cc = self.conn(c)
        for g in self.groups(its):
            cc.send(b"".join(x[0] for x in g))
            for _, _, k, v in g:
                up = {}
                fast = self.plain(t, k) and not self.pend
                if not fast: self.begin_put(t, k, v, up)
                r = cc.response(what="PUT answer")
                self.expect(r, 200, b"OK\r\n", "PUT")
                if fast:
                    x = self.key(t, k)
                    if x.poss != [None]: self.info["overwrite"] += 1
                    self.cnt["inserts"] += 1
                    x.poss = [None]; x.note(); x.poss = [v]; x.note()
                else: self.end_put(t, k, v, up, True)
                self.info["put_block" if v.size <= BLOCK else "put_file"] += 1
        self.lru_bulk(t, ks, True)
        self.tnote(t)
        self.info["mass_put"] += len(ks)

    def op_mdel(self, c, t, base, lo, hi, order, seed, bulk=False):
        ks = [k for k in self.mkeys(base, lo, hi, order, seed) if (t, k) in self.t and self.plain(t, k) and self.visible(self.key(t, k).poss) == self.key(t, k).poss]
        cc = self.conn(c)
        if bulk and t:
            for i in range(0, len(ks), 40): self.op_bulk(c, t, ks[i:i + 40])
            return
        for g in self.groups([(req("DELETE", "/%s/%s" % (t, k)), 200, k) for k in ks]):
            cc.send(b"".join(x[0] for x in g))
            for _, _, k in g:
                x = self.key(t, k)
                r = cc.response(what="DELETE answer")
                if self.check_del(r, x.poss, False, False):
                    self.cnt["deletes"] += 1; self.info["deleted"] += 1
                    x.poss = [None]; x.note()
        self.lru_bulk(t, ks, False)
        self.tnote(t)

    def op_mget(self, c, t, base, lo, hi, order, seed):
        ks = [k for k in self.mkeys(base, lo, hi, order, seed) if (t, k) in self.t and self.plain(t, k)]
        cc = self.conn(c)
        its = [(req("GET", "/%s/%s" % (t, k)), 200 + max((v.size for v in self.key(t, k).poss if v), default=0), k) for k in ks]
        hits = []
        for g in self.groups(its):
            cc.send(b"".join(x[0] for x in g))
            for _, _, k in g:
                r = cc.response(what="GET answer")
                if self.check_get(r, t, k, self.key(t, k).poss, collapse=False) is not None:
                    self.info["hit"] += 1; self.cnt["gets"] += 1; hits.append(k)
                    if self.lossy: self.set(t, k, [v for v in self.key(t, k).poss if v is not None])
                else:
                    self.info["miss"] += 1
                    self.set(t, k, [None])
        self.lru_bulk(t, hits, True)

    def op_huge(self, t, k, vid, size):
        """a value too large to be kept in memory: stored, read back twice (once while it is removed), others served meanwhile"""
        B = 1 << 20
        base = value_bytes("huge%d" % vid, B)
        def chunk(j):
            return b"%016d" % j + base[16:]
        def timed(c):
            c.s.settimeout(server.HANG)
            return c
        if (t, k) in self.t or self.up or self.down or self.pend: return
        c, o = self.ready_conn(), self.conn(0)
        c.send(("PUT /%s/%s HTTP/1.1\r\nContent-Length: %d\r\n\r\n" % (t, k, size)).encode("latin1"))
        for j in range((size + B - 1) // B):
            c.send(chunk(j)[:size - j * B])
            if j % 300 == 7:
                self.expect(self.srv.request(o, req("GET", "/%s/%s" % (t, k)), what="GET during a large upload"), 404, None, "GET of a key being uploaded")
        self.expect(c.response(what="PUT answer"), 200, b"OK\r\n", "PUT of %d bytes" % size)
        o.send(req("HEAD", "/%s/%s" % (t, k))); r = o.response(head=True)
        if r.status != 200 or r.h("Content-Length") != str(size): raise Failure("HEAD of a value of %d bytes answered %s" % (size, r.brief()))
        for rnd in range(2):
            c.send(req("GET", "/%s/%s" % (t, k)))
            n = c.need(lambda: (c.buf.find(b"\r\n\r\n") + 4) if c.buf.find(b"\r\n\r\n") >= 0 else None, "GET head")
            r = server.parse_head(c.take(n))
            if r.status != 200 or r.h("Content-Length") != str(size): raise Failure("GET of a value of %d bytes answered %s" % (size, r.brief()))
            for j in range((size + B - 1) // B):
                want = chunk(j)[:size - j * B]
                while len(c.buf) < len(want):
                    if c.recv_some(1 << 20) is None or c.eof:
                        self.srv.check_alive("GET of a large value"); raise Failure("GET of a value of %d bytes ends or stops after %d" % (size, j * B + len(c.buf)))
                if c.take(len(want)) != want: raise Failure("GET of a value of %d bytes: wrong bytes between %d and %d" % (size, j * B, j * B + len(want)))
                if rnd and j == 1:
                    self.expect(self.srv.request(o, req("DELETE", "/%s/%s" % (t, k)), what="DELETE answer"), 200, b"DELETED\r\n", "DELETE")
        self.expect(self.srv.request(c, req("GET", "/%s/%s" % (t, k)), what="GET"), 404, None, "GET of a removed key")
        c.close()
        self.cnt_exact = False
        self.info["huge"] += 1

    def op_lx(self, t, n, rst=False):
        """a listing of which the client reads only n bytes before it goes"""
        if t == "": return
        c = self.srv.conn(rcvbuf=2048)
        c.send(req("GET", "/%s" % t))
        c.need(lambda: True if len(c.buf) >= min(n, 12) else None, "listing")
        while len(c.buf) < n and c.recv_some(1000, 0.001): pass
        c.close(rst=rst)
        self.srv.sync(3)
        self.info["listing_aborted"] += 1

    # ------------------------------------------------------------ uploads in pieces
    def op_ub(self, u, t, k, vid, size, ttl, cut, hdrs=()):
        """open a connection and send the first `cut` bytes of a PUT (negative: from the end)"""
        if u in self.up:
            return
        if self.now is None:
            ttl = None
        head, ttlend = put_head(t, k, vid, size, ttl, hdrs)
        keyend = len("PUT /%s/%s " % (t, k))
        tabend = len("PUT /%s/" % t)
        v = V(vid, size)
        data = head + v.bytes()
        p = dict(t=t, k=k, v=v, data=data, keyend=keyend, tabend=tabend, ttlend=ttlend, ttl=ttl, head=len(head), sent=0, conn=self.ready_conn(),
                 begun=False, st=None, opens=False, done=False)
        self.up[u] = p
        self._up_send(p, cut if cut >= 0 else max(0, len(data) + cut))

    def _up_send(self, p, upto):
        upto = max(p["sent"], min(upto, len(p["data"])))
        if upto == len(p["data"]):
            upto = max(p["sent"], upto - 1)     # the last byte is sent by ue
        if upto == p["sent"]:
            return
        p["conn"].send(p["data"][p["sent"]:upto])
        self._up_moved(p, upto)
        self.settle(upto - p["sent"])
        p["sent"] = upto

    def _up_moved(self, p, upto):
        if upto >= p["tabend"] and not p["opens"] and not p["begun"]:
            p["opens"] = True; self.tnote(p["t"])
        if upto >= p["keyend"] and not p["begun"]:
            p["begun"] = True
            self.begin_put(p["t"], p["k"], p["v"], p)
            # from now on the table has a key, and goes when it has none left
            p["opens"] = False
        if p["ttl"] and upto >= p["ttlend"] and p["v"].exp is None:
            p["v"].exp = self.now + p["ttl"]

    def op_uc(self, u, n):
        p = self.up.get(u)
        if p: self._up_send(p, p["sent"] + n)

    def op_ue(self, u):
        p = self.up.pop(u, None)
        if not p: return
        p["conn"].send(p["data"][p["sent"]:])
        self._up_moved(p, len(p["data"]))
        r = p["conn"].response(what="PUT answer")
        self.expect(r, 200, b"OK\r\n", "PUT")
        p["opens"] = False
        self.end_put(p["t"], p["k"], p["v"], p, True)
        p["conn"].close()
        self.info["upload_done"] += 1

    def op_ux(self, u, rst=False):
        p = self.up.pop(u, None)
        if not p: return
        p["conn"].close(rst=rst)
        self.settle(8192)
        p["opens"] = False
        if p["begun"]:
            self.end_put(p["t"], p["k"], p["v"], p, False)
            self.info["upload_aborted_%s" % ("head" if p["sent"] < p["head"] else "body")] += 1
            self.cnt_exact = False
        else:
            self.tnote(p["t"])
            self.info["upload_aborted_early"] += 1

    # ------------------------------------------------------------ downloads in pieces
    def op_gb(self, g, t, k, n):
        """begin a GET and read only its head and n bytes"""
        if g in self.down:
            return
        x = self.key(t, k)
        c = self.srv.conn(rcvbuf=2048)
        c.send(req("GET", "/%s/%s" % (t, k)))
        n0 = c.need(lambda: (c.buf.find(b"\r\n\r\n") + 4) if c.buf.find(b"\r\n\r\n") >= 0 else None, "GET head")
        r = server.parse_head(c.take(n0))
        if r.status == 404:
            cl = int(r.h("Content-Length"))
            c.need(lambda: True if len(c.buf) >= cl else None, "404 body")
            r.body = c.take(cl)
            self.check_get(r, t, k, x.poss)
            c.close()
            return
        if r.status != 200:
            raise Failure("GET answered %s" % r.brief())
        cl = r.h("Content-Length")
        cand = [v for v in self.visible(x.poss) if v is not None and str(v.size) == cl]
        if not cand:
            raise Failure("GET of /%s/%s announces %s bytes; possible values: %s" % (t, k, cl, self.visible(x.poss)))
        # which of several equally long ones it is shows in the body
        self.set(t, k, [v for v in x.poss if v in cand])
        self.cnt["gets"] += 1
        self.lru_touch(t, k)
        self.down[g] = dict(t=t, k=k, conn=c, cand=cand, n=int(cl), at=(self.i), hist=len(x.hist))
        self._down_read(self.down[g], n)

    def _down_read(self, d, n):
        n = min(n, d["n"])
        d["conn"].need(lambda: True if len(d["conn"].buf) >= n else None, "GET body")
        b = bytes(d["conn"].buf[:n])
        if not any(v.bytes()[:n] == b for v in d["cand"]):
            raise Failure("partial body of GET /%s/%s is wrong (%d bytes; possible %s)" % (d["t"], d["k"], n, d["cand"]))

    def op_gr(self, g, n):
        d = self.down.get(g)
        if d: self._down_read(d, len(d["conn"].buf) + n)

    def op_ge(self, g):
        d = self.down.pop(g, None)
        if not d: return
        if len(self.key(d["t"], d["k"]).hist) != d["hist"]:
            self.info["download_survived_change"] += 1
        self._down_read(d, d["n"])
        d["conn"].take(d["n"])
        # the connection is still usable
        d["conn"].send(b"GET /~sync~/x HTTP/1.1\r\n\r\n")
        r = d["conn"].response(what="answer after download")
        self.expect(r, 404, None, "GET of a missing table")
        d["conn"].close()

    def op_gx(self, g, rst=False):
        d = self.down.pop(g, None)
        if not d: return
        d["conn"].close(rst=rst)
        self.srv.sync(3)
        self.info["download_aborted"] += 1

    # ------------------------------------------------------------ other requests in pieces
    def op_pb(self, p, kind, t, k, cut):
        """send the first `cut` bytes (at most all but one) of a request; kinds: get head del delt bulk purge list"""
        if p in self.pend or t == "" and kind in ("delt", "bulk", "purge", "list"):
            return
        ks = [k] if not isinstance(k, list) else k
        if kind == "get": data = req("GET", "/%s/%s" % (t, ks[0]))
        elif kind == "head": data = req("HEAD", "/%s/%s" % (t, ks[0]))
        elif kind == "del": data = req("DELETE", "/%s/%s" % (t, ks[0]))
        elif kind == "delt": data = req("DELETE", "/%s" % t); ks = []
        elif kind == "list": data = req("GET", "/%s" % t); ks = []
        elif kind in ("bulk", "purge"): data = self.bulk_bytes(t, ks, kind.upper())
        else: raise Inconclusive("kind")
        cut = max(1, min(cut if cut >= 0 else len(data) + cut, len(data) - 1))
        self.tnote(t, True)
        d = dict(kind=kind, t=t, ks=ks, data=data, cut=cut, conn=self.ready_conn(), opens=False, thist=len(self.thist[t]) - 1,
                 hist={kk: len(self.key(t, kk).hist) - 1 for kk in (ks if kind not in ("delt", "list") else self.ukeys(t))},
                 now=self.now, dead=False)
        self.pend[p] = d
        # a table without keys that a half-sent PUT holds open is held open by this request too
        d["opens"] = self.tstate(t) == "maybe"
        d["conn"].send(data[:cut])
        # bulk keys already sent may take effect at once
        if kind in ("bulk", "purge"):
            self._bulk_progress(d)
        self.srv.sync(2)

    def _bulk_progress(self, d):
        for kk in d["ks"]:
            x = self.key(d["t"], kk)
            for w in x.writers:
                if w["st"] == "sure": w["st"] = "maybe"
            self.set(d["t"], kk, x.poss + [None])

    def op_pe(self, p, abort=False):
        d = self.pend.pop(p, None)
        if not d: return
        t, kind = d["t"], d["kind"]
        self.cnt_exact = False
        if abort:
            d["conn"].close()
            self.srv.sync(3)
            if kind in ("bulk", "purge"): self._bulk_progress(d)
            self.tnote(t)
            self.info["pending_aborted"] += 1
            return
        d["conn"].send(d["data"][d["cut"]:])
        def states(kk, but=()):
            x = self.key(t, kk)
            i = d["hist"].get(kk, 0)
            st, wr, gh = [], False, False
            for n, (poss, w) in enumerate(x.hist[i:], i):
                if n + 1 in but: continue
                wr = wr or w
                for v in poss:
                    # alive at some moment of the interval?
                    if v is not None and v.exp is not None and d["now"] is not None:
                        if v.exp >= d["now"] and v not in st: st.append(v)
                        if v.exp < self.now: gh = True; st.append(None) if None not in st else None
                    elif v not in st: st.append(v)
            if self.lossy and None not in st: st.append(None)
            return st, wr, gh, len(x.hist) - 1 != i
        if kind in ("get", "head"):
            kk = d["ks"][0]
            r = d["conn"].response(head=(kind == "head"), what=kind)
            st, wr, gh, ch = states(kk)
            now = self.now
            # the value may have been picked when it was still alive; its remaining time is computed later
            save = self.now
            if r.status == 200:
                cand = [v for v in st if v is not None and (str(v.size) == r.h("Content-Length") if kind == "head" else v.bytes() == r.body)]
                if not cand:
                    raise Failure("%s of /%s/%s returned %s; possible values: %s" % (kind, t, kk, self.explain(r.body, t, kk) if kind == "get" else r.brief(), st))
                self.lru_touch(t, kk)
            elif r.status != 404 or not (None in st or gh or wr):
                raise Failure("%s of /%s/%s answered %s; possible values: %s" % (kind, t, kk, r.brief(), st))
            if ch: self.info["pending_overlapped"] += 1
        elif kind == "del":
            kk = d["ks"][0]
            r = d["conn"].response(what="DELETE answer")
            # a value that another DELETE has removed since can not be removed by this one as well
            st, wr, gh, ch = states(kk, self.key(t, kk).owned)
            # a delete needs the table too: it may have been gone and come back
            if self.check_del(r, st, wr, gh):
                self.del_effect(t, kk, d["hist"][kk])
            if ch: self.info["pending_overlapped"] += 1
        elif kind == "delt":
            r = d["conn"].response(what="DELETE table answer")
            h = self.thist[t][d["thist"]:]
            if r.status == 200 and r.body == b"DELETED\r\n" and any(s != "no" for s in h):
                for kk in self.ukeys(t):
                    self.del_effect(t, kk, d["hist"].get(kk, 0))
            elif r.status == 404 and any(s != "yes" for s in h):
                pass
            else:
                raise Failure("DELETE of table %s answered %s; existence history %s" % (t, r.brief(), h))
            if len(h) > 1: self.info["pending_overlapped"] += 1
        elif kind == "list":
            r = d["conn"].listing()
            h = self.thist[t][d["thist"]:]
            if r.status == 404:
                if all(s == "yes" for s in h): raise Failure("listing of existing table %s answered 404" % t)
            elif r.status != 200 or all(s == "no" for s in h):
                raise Failure("listing of table %s (existence history %s) answered %s" % (t, h, r.brief()))
            else:
                got = self.listing_keys(r)
                if len(set(got)) != len(got): raise Failure("listing of %s names a key twice" % t)
                if not got and r.h("X-Entries") == "0" and "maybe" not in h and not self.lossy:
                    raise Failure("listing of %s is empty; existence history %s" % (t, h))
                must, may = set(), set()
                for kk in set(self.ukeys(t)) | set(d["hist"]):
                    st, wr, gh, ch = states(kk)
                    if wr or gh or any(v is not None for v in st): may.add(kk)
                    if None not in st and not wr and not gh and not self.lossy: must.add(kk)
                if not set(got) <= may: raise Failure("listing of %s names keys that were not stored: %s" % (t, [k[:40] for k in sorted(set(got) - may)[:5]]))
                if not must <= set(got): raise Failure("listing of %s lacks stored keys: %s" % (t, [k[:40] for k in sorted(must - set(got))[:5]]))
                self.info["listed"] += 1
            if len(h) > 1: self.info["pending_overlapped"] += 1
        else:
            r = d["conn"].response(what="bulk answer")
            self.expect(r, 200, b"BULK OK\r\n", "bulk delete")
            h = self.thist[t][d["thist"]:]
            for kk in d["ks"]:
                x = self.key(t, kk)
                i = d["hist"][kk]
                states_since = x.hist[i:]
                # present with the same single value ever since the request began (uncertainty added by
                # the request itself aside), and the table never gone: it must be deleted now
                first = states_since[0][0]
                steady = len(first) == 1 and first[0] is not None and all(set(s[0]) <= {first[0], None} and not s[1] for s in states_since)
                if steady and all(s == "yes" or s == "maybe" for s in h):
                    for w in x.writers:
                        pass
                    self.set(t, kk, [None]); self.lru_drop(t, kk)
                else:
                    self._bulk_progress(dict(t=t, ks=[kk]))
            self.info["pending_overlapped"] += 1 if len(h) > 1 else 0
        d["conn"].close()
        self.tnote(t)

    # ------------------------------------------------------------ settling and global checks
    def finish_all(self):
        for u in list(self.up): self.op_ux(u)
        for g in list(self.down): self.op_ge(g)
        for p in list(self.pend): self.op_pe(p)

    op_finish = finish_all

    def resolve(self, c=0, everything=False):
        """read keys so that every key's state is known"""
        for (t, k), x in list(self.t.items()):
            if everything or not x.sure():
                self.op_get(c, t, k)

    def op_checkall(self, c=0):
        for (t, k) in list(self.t):
            self.op_get(c, t, k)

    def op_stats(self):
        """the statistics page against the model, at a quiescent moment"""
        if self.lossy: return
        if self.up or self.down or self.pend or any(not x.sure() for x in self.t.values()):
            return
        st = self.srv.stats()
        lo = [v for x in self.t.values() for v in x.poss if self.live(v)]
        hi = [v for x in self.t.values() for v in x.poss if v is not None]
        self.check_stats(st, lo, hi)
        self.info["stats_checked"] += 1

    def check_stats(self, st, lo, hi):
        def rng(name, a, b, got):
            if not (a <= got <= b):
                raise Failure("statistics: %s is %d, model says %s" % (name, got, a if a == b else "%d..%d" % (a, b)))
        rng("DB Keys", len(lo), len(hi), st["keys"])
        rng("DB Size Bytes", sum(v.size for v in lo), sum(v.size for v in hi), st["bytes"])
        tl = len({t for (t, k), x in self.t.items() if any(self.live(v) for v in x.poss)})
        th = len({t for (t, k), x in self.t.items() if any(v is not None for v in x.poss)})
        rng("DB Tables", tl, th, st["tables"])
        if st["free"] > st["exist"]:
            raise Failure("statistics: %d of %d blocks free" % (st["free"], st["exist"]))
        rng("blocks in use", sum(v.size <= BLOCK for v in lo), sum(v.size <= BLOCK for v in hi), st["exist"] - st["free"])

    def op_files(self):
        """the value files in the database directory are exactly those of the stored large values"""
        if self.lossy: return
        if self.up or self.down or self.pend or any(not x.sure() for x in self.t.values()):
            return
        files = sorted(self.srv.value_files().values())
        lo = sorted(v.size for x in self.t.values() for v in x.poss if v is not None and v.size > BLOCK and self.live(v))
        hi = sorted(v.size for x in self.t.values() for v in x.poss if v is not None and v.size > BLOCK)
        if not (len(lo) <= len(files) <= len(hi)) or (lo == hi and files != lo):
            raise Failure("value files on disk have sizes %s, stored large values are %s" % (files[:20], hi[:20]))
        self.info["files_checked"] += 1

    # ------------------------------------------------------------ restart
    def op_restart(self, how="term"):
        """terminate (or finish everything first), start again on the same directory"""
        # held: asked to end while a flushing child is still at work, which goes on a moment later
        held = how == "held" and self.cfg.get("fork_mode") == 2 and not self.srv.ctl.get("RELEASE") and self.srv.children()
        if not held:
            self.op_release()
            if how not in ("now", "held"): self.srv.wait_children()
        for d in (self.up, self.pend):
            for u, p in list(d.items()):
                if p.get("begun"):
                    self.end_put(p["t"], p["k"], p["v"], p, False)
                    self.info["upload_cut_by_restart"] += 1
                elif p.get("kind") in ("bulk", "purge"):
                    self._bulk_progress(p)
                elif p.get("kind"):
                    pass
            d.clear()
        self.down.clear()
        import signal
        if held:
            self.srv.p.send_signal(signal.SIGTERM)
            time.sleep(0.02)
            self.op_release()
            self.info["ended_during_flush"] += 1
        self.srv.stop(None if held else signal.SIGINT if how == "int" else signal.SIGTERM)
        if held:
            end = time.time() + server.HANG
            while self.srv.group():
                if time.time() > end: raise Inconclusive("a flushing process goes on")
                time.sleep(0.005)
        self.conns = {}
        self.srv.start(self.ctl_init)
        self.cnt = dict(inserts=0, gets=0, deletes=0)
        self.cnt_exact = True
        self.lru = None
        self.lru = []
        self.info["restarts"] += 1

"""Drives one server process on a scratch directory, and talks HTTP to it."""
import fcntl, glob, mmap, os, random, re, select, shutil, signal, socket, struct, subprocess, tempfile, time
import build

HANG = float(os.environ.get("SCV_HANG", "20"))     # seconds without progress that count as a hang

CTL_WORDS = 512
C = {n: i for i, n in enumerate("""MAGIC TIME_MODE TIME_SEC TIME_USEC TICKS LIVE_BYTES LIVE_COUNT
SOCK_MODE SOCK_PRNG SOCK_MAX SOCK_FAULTS DISK_MODE DISK_BUDGET DISK_PRNG DISK_FAULTS COUNT_OPS OPS
CRASH_AT CRASHED CRASH_PARTIAL FORK_MODE RELEASE CHILD_STARTED CHILD_DONE MAIN_PID CHILD_PID LOOPS
TRACE_LEN SNDBUF HOLD_OP HELD""".split())}

class Failure(Exception):
    """The property was observed to be broken."""

class Inconclusive(Exception):
    """The harness itself could not do what it wanted (no verdict)."""

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 4 << 30:
                return d
    return "/tmp"

SCRATCH = None
def make_scratch():
    return tempfile.mkdtemp(prefix="scv-", dir=scratch_root())

class Ctl:
    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f:
            f.write(b"\0" * (CTL_WORDS * 8))
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), CTL_WORDS * 8)
    def get(self, n):
        v = struct.unpack_from("<Q", self.m, C[n] * 8)[0]
        return v
    def geti(self, n):
        return struct.unpack_from("<q", self.m, C[n] * 8)[0]
    def set(self, n, v):
        struct.pack_into("<Q", self.m, C[n] * 8, v & 0xffffffffffffffff)
    def trace(self):
        n = min(self.get("TRACE_LEN"), (CTL_WORDS - 64) * 8)
        return self.m[64 * 8:64 * 8 + n].decode("latin1")
    def close(self):
        self.m.close(); self.f.close()

class Response:
    __slots__ = ("status", "reason", "headers", "body", "head", "raw")
    def __init__(self, status, reason, headers, head):
        self.status, self.reason, self.headers, self.head = status, reason, headers, head
        self.body = b""
    def h(self, name):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
    def brief(self):
        b = self.body
        return "%d %s len=%d %r" % (self.status, [kv for kv in self.headers if kv[0] != "Connection"], len(b), b[:40])

def parse_head(data):
    """data up to and including the blank line -> Response"""
    try:
        lines = data.decode("latin1").split("\r\n")
        assert lines[-1] == "" and lines[-2] == ""
        m = re.match(r"^HTTP/1\.1 (\d{3}) (.+)$", lines[0])
        assert m
        hs = []
        for l in lines[1:-2]:
            k, v = l.split(": ", 1)
            assert re.match(r"^[A-Za-z][A-Za-z0-9-]*$", k)
            hs.append((k, v))
        return Response(int(m.group(1)), m.group(2), hs, data)
    except (AssertionError, ValueError):
        raise Failure("malformed response head: %r" % data[:300])

class Conn:
    """A client connection with an incremental response reader."""
    def __init__(self, srv, addr=None, rcvbuf=None, sndbuf=None):
        self.srv = srv
        self.buf = bytearray()
        self.eof = False
        self.reset = False
        addr = addr or srv.cache_addr
        fam = socket.AF_UNIX if isinstance(addr, str) else (socket.AF_INET6 if ":" in addr[0] else socket.AF_INET)
        self.s = socket.socket(fam, socket.SOCK_STREAM)
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if sndbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, sndbuf)
        if fam != socket.AF_UNIX:
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(HANG)
        try:
            self.s.connect(addr)
        except OSError as e:
            srv.check_alive("connect failed: %s" % e)
            raise Failure("cannot connect: %s" % e)

    def send(self, data):
        """Sends everything; a peer that closed is noted, not raised."""
        try:
            self.s.settimeout(HANG)
            self.s.sendall(data)
            return True
        except socket.timeout:
            self.srv.check_alive("send timed out")
            raise Failure("server stopped reading from a connection for %gs" % HANG)
        except OSError:
            self.reset = True
            return False

    def send_reading(self, data):
        """sends everything, reading what comes back meanwhile: both sides may be full"""
        end = time.time() + HANG
        v = memoryview(data)
        while v and not self.eof and not self.reset:
            r, w, _ = select.select([self.s], [self.s], [], 0.5)
            if r: self.recv_some(timeout=0.01)
            if w:
                self.s.settimeout(0)
                try:
                    n = self.s.send(v); v = v[n:]; end = time.time() + HANG
                except BlockingIOError: pass
                except OSError: self.reset = True
            if r: end = max(end, time.time() + HANG)
            if time.time() > end:
                self.srv.check_alive("send timed out")
                raise Failure("server stopped reading from a connection for %gs" % HANG)
        self.s.settimeout(HANG)

    def recv_some(self, n=1 << 16, timeout=None):
        if self.eof:
            return b""
        self.s.settimeout(HANG if timeout is None else max(timeout, 0.0001))
        try:
            d = self.s.recv(n)
        except (socket.timeout, BlockingIOError):
            return None
        except OSError:
            self.eof = True; self.reset = True
            return b""
        if not d:
            self.eof = True
        self.buf += d
        return d

    def need(self, cond, what):
        while True:
            r = cond()
            if r is not None:
                return r
            if self.eof:
                self.srv.check_alive(what)
                raise Failure("connection closed while waiting for %s; received %r" % (what, bytes(self.buf[:200])))
            d = self.recv_some()
            if d is None:
                self.srv.check_alive(what)
                raise Failure("no answer within %gs while waiting for %s; received so far %r" % (HANG, what, bytes(self.buf[:200])))

    def take(self, n):
        d = bytes(self.buf[:n]); del self.buf[:n]
        return d

    def response(self, head=False, what="response"):
        def f():
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                if len(self.buf) > 65536:
                    raise Failure("endless response head: %r" % bytes(self.buf[:200]))
                return None
            return i + 4
        if self.buf and not b"HTTP/1.1 ".startswith(bytes(self.buf[:9])) and not self.buf.startswith(b"HTTP/1.1 "):
            raise Failure("bytes that are not a response where %s was expected: %r" % (what, bytes(self.buf[:200])))
        n = self.need(f, what)
        r = parse_head(self.take(n))
        if not head:
            cl = r.h("Content-Length")
            if cl is None or not cl.isdigit():
                raise Failure("response without usable Content-Length: %r" % r.head)
            cl = int(cl)
            self.need(lambda: True if len(self.buf) >= cl else None, "body of %d bytes (%s)" % (cl, what))
            r.body = self.take(cl)
        return r

    def listing(self, what="listing"):
        """A table listing: head, key block, then close."""
        n = self.need(lambda: (self.buf.find(b"\r\n\r\n") + 4) or None if self.buf.find(b"\r\n\r\n") >= 0 else None, what)
        r = parse_head(self.take(n))
        if r.status != 200:
            cl = int(r.h("Content-Length") or 0)
            self.need(lambda: True if len(self.buf) >= cl else None, what)
            r.body = self.take(cl)
            return r
        while not self.eof:
            if self.recv_some() is None:
                self.srv.check_alive(what)
                raise Failure("listing did not end within %gs" % HANG)
        if self.reset:
            self.srv.check_alive(what)
        r.body = self.take(len(self.buf))
        return r

    def quiet(self, ms=0):
        """Nothing more has arrived (does not wait beyond ms)."""
        t = time.time() + ms / 1000.0
        while True:
            d = self.recv_some(timeout=max(t - time.time(), 0.0001))
            if d is None:
                break
            if d == b"":
                break
        return not self.buf

    def close(self, rst=False):
        try:
            if rst:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.s.close()
        except OSError:
            pass

def req(method, path, headers=(), body=None):
    if isinstance(path, str):
        path = path.encode("latin1")
    out = method.encode() + b" " + path + b" HTTP/1.1\r\n"
    if body is not None:
        out += b"Content-Length: %d\r\n" % len(body)
    for k, v in headers:
        out += k.encode("latin1") + b": " + (v if isinstance(v, bytes) else str(v).encode("latin1")) + b"\r\n"
    out += b"\r\n"
    return out + (body or b"")

_port_rng = random.Random(os.getpid() * 7919 + time.time_ns())
_ports = {}
def _own_port(p):
    if p in _ports:
        return False
    fd = os.open("/dev/shm/scv-port-%d" % p, os.O_CREAT | os.O_RDWR | os.O_CLOEXEC, 0o600)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
    except OSError:
        os.close(fd)
        return False
    _ports[p] = fd
    if len(_ports) > 200:       # the oldest is long out of use
        q = next(iter(_ports))
        try: os.unlink("/dev/shm/scv-port-%d" % q)
        except OSError: pass
        os.close(_ports.pop(q))
    return True

def release_ports():
    """removes the lock files nobody holds"""
    for f in glob.glob("/dev/shm/scv-port-*"):
        try:
            fd = os.open(f, os.O_RDWR | os.O_CLOEXEC)
            try:
                fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB); os.unlink(f)
            finally:
                os.close(fd)
        except OSError:
            pass

def free_port():
    # below the ephemeral range, so that no client socket can hold it
    for _ in range(2000):
        p = _port_rng.randrange(10100, 32000)
        # one process at a time may use a port for its servers
        if not _own_port(p):
            continue
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.0.0.1", p))
            return p
        except OSError:
            continue
        finally:
            s.close()
    raise Inconclusive("no free port")

class Server:
    """One server on one directory; restartable."""
    def __init__(self, variant="rel", root=None, dbname="db", args=(), monitor=False, frozen=None, binds=None, use_unix=True):
        self.variant = variant
        self.exe = build.build(variant)
        self.own_root = root is None
        self.root = root or make_scratch()
        self.db = os.path.join(self.root, dbname)
        os.makedirs(self.db, exist_ok=True)
        self.args = list(args)
        self.monitor = monitor
        self.p = None
        self.ctl = None
        self.conns = []
        self.frozen = frozen
        self.nstart = 0
        self.expect_dead = False
        self.use_unix = use_unix
        self.last_exit = None
        self.nofile = None
        self.path_prefix = ""

    # -- lifecycle
    def start(self, ctl_init=None, wait=True):
        for attempt in range(6):
            self.nstart += 1
            port = free_port()
            self.mon_addr = None
            if self.use_unix:
                # a unix socket in the scratch directory: no ports to share with other processes
                self.cache_addr = os.path.join(self.root, "c%d" % self.nstart)
                cmd = [self.exe, "-b", "u:" + self.cache_addr, "-r", self.db] + self.args
            else:
                self.cache_addr = ("127.0.0.1", port)
                cmd = [self.exe, "-b", "127.0.0.1:%d" % port, "-r", self.db] + self.args
            if self.monitor:
                if self.use_unix:
                    self.mon_addr = os.path.join(self.root, "m%d" % self.nstart)
                    cmd += ["-B", "u:" + self.mon_addr]
                else:
                    self.mon_addr = ("127.0.0.1", free_port())
                    cmd += ["-B", "127.0.0.1:%d" % self.mon_addr[1]]
            if self.nofile: cmd = ["prlimit", "--nofile=%d" % self.nofile] + cmd
            if self.ctl:
                self.ctl.close()
            self.ctl = Ctl(os.path.join(self.root, "ctl%d" % self.nstart))
            if self.frozen is not None:
                self.ctl.set("TIME_MODE", 1); self.ctl.set("TIME_SEC", self.frozen)
            for k, v in (ctl_init or {}).items():
                self.ctl.set(k, v)
            self.logpath = os.path.join(self.root, "log%d" % self.nstart)
            env = {"PATH": self.path_prefix + "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8", "HOME": self.root,
                   "SCV_CTL": self.ctl.path,
                   "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=1:quarantine_size_mb=16",
                   "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77"}
            log = open(self.logpath, "wb")
            self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env, cwd=self.root,
                                      start_new_session=True, close_fds=True)
            log.close()
            self.cmd = cmd; self.pgid = self.p.pid
            if not wait:
                return self
            t = time.time() + HANG * 2
            while time.time() < t:
                if self.p.poll() is not None:
                    break
                try:
                    if self.use_unix and not os.path.exists(self.cache_addr):
                        raise OSError
                    s = socket.socket(socket.AF_UNIX if self.use_unix else socket.AF_INET)
                    s.settimeout(1)
                    s.connect(self.cache_addr)
                    s.close()
                    return self
                except OSError:
                    time.sleep(0.003)
            rc = self.p.poll()
            txt = self.log()
            self.kill()
            if rc is not None and not self.use_unix and "listener" in txt and "ddress already in use" in txt:
                continue
            raise Failure("server did not start (exit %s): %s" % (rc, txt[-1500:]))
        raise Inconclusive("no port")

    def log(self):
        try:
            return open(self.logpath, "rb").read().decode("latin1")
        except OSError:
            return ""

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def check_alive(self, what=""):
        if self.p is None:
            return
        # a dying sanitizer process needs a moment to print and exit
        for _ in range(40):
            if self.p.poll() is not None:
                break
            if "ERROR: AddressSanitizer" in self.log()[-20000:] or "runtime error" in self.log()[-20000:]:
                try:
                    self.p.wait(10)
                except subprocess.TimeoutExpired:
                    pass
                break
            time.sleep(0.005)
        if self.p.poll() is not None:
            raise Failure("server process ended (status %s) during %s: %s" % (self.p.returncode, what, self.crash_text()))

    def crash_text(self):
        t = self.log()
        i = t.find("ERROR: AddressSanitizer")
        if i < 0:
            i = t.find("runtime error")
        if i >= 0:
            lines = [l for l in t[i:].split("\n")]
            keep = [lines[0]] + [l.strip() for l in lines if re.match(r"\s+#\d+ ", l)][:8]
            return " | ".join(keep)[:1500]
        return t[-600:]

    def sanitizer_ok(self):
        t = self.log()
        if "ERROR: AddressSanitizer" in t or "runtime error:" in t:
            raise Failure("sanitizer report: " + self.crash_text())

    def stop(self, sig=signal.SIGTERM, check=True):
        """Clean shutdown; the server must exit with status 0 in time."""
        if self.p is None:
            return
        if self.p.poll() is None:
            if sig: self.p.send_signal(sig)
            try:
                self.p.wait(HANG * 2)
            except subprocess.TimeoutExpired:
                self.kill()
                raise Failure("server did not stop within %gs of SIGTERM" % (HANG * 2))
        rc = self.p.returncode
        self.last_exit = rc
        self.p = None
        self.drop_conns()
        if check:
            self.sanitizer_ok()
            if rc != 0:
                raise Failure("server exited with status %s on shutdown: %s" % (rc, self.crash_text()))

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p = None
        self.drop_conns()

    def kill_server(self):
        """kills the serving process alone; returns the control page and group that what remains of it uses"""
        self.p.send_signal(signal.SIGKILL)
        self.p.wait()
        self.p = None
        self.drop_conns()
        ctl, self.ctl = self.ctl, None
        return ctl, self.pgid

    def group(self, pgid=None):
        """all live processes started by this server"""
        pgid = pgid or self.pgid
        out = []
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    f = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
                except OSError:
                    continue
                if int(f[2]) == pgid and f[0] not in "ZX": out.append(int(d))
        return out

    def kill_all(self):
        """as kill(), and returns only when no process of the server is left"""
        t = time.time() + HANG
        while True:
            try: os.killpg(self.pgid, signal.SIGKILL)
            except OSError: pass
            if self.p is not None: self.p.poll()
            if not self.group(): break
            if time.time() > t: raise Inconclusive("killed processes do not end")
            time.sleep(0.001)
        self.kill()

    def drop_conns(self):
        for c in self.conns:
            c.close()
        self.conns = []

    def destroy(self):
        try:
            self.kill()
        finally:
            if self.ctl:
                self.ctl.set("RELEASE", 1)
                self.ctl.close(); self.ctl = None
            if self.own_root:
                shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.destroy()

    # -- talking
    def conn(self, addr=None, **kw):
        c = Conn(self, addr, **kw)
        self.conns.append(c)
        return c

    def ctrl(self):
        """A connection used only to synchronise: its requests touch no stored data."""
        c = getattr(self, "_ctrl", None)
        if c is None or c.eof or c not in self.conns:
            c = self._ctrl = self.conn()
        return c

    def sync(self, n=2):
        """Everything sent before on other connections has been seen by the event loop."""
        c = self.ctrl()
        for _ in range(n):
            c.send(b"GET /~sync~/x HTTP/1.1\r\n\r\n")
            r = c.response(what="sync answer")
            if r.status != 404:
                raise Failure("GET of a missing table answered %s" % r.brief())

    def request(self, c, data, head=False, what="response"):
        c.send(data)
        return c.response(head=head, what=what)

    def stats(self, c=None):
        c = c or self.ctrl()
        r = self.request(c, b"GET / HTTP/1.1\r\n\r\n", what="statistics")
        return parse_stats(r)

    def gc(self, c=None):
        c = c or self.ctrl()
        return parse_stats(self.request(c, b"ADMIN /gc HTTP/1.1\r\n\r\n", what="gc"))

    # -- clock
    def set_time(self, sec, usec=0):
        self.frozen = sec
        self.ctl.set("TIME_USEC", usec)
        self.ctl.set("TIME_SEC", sec)
        self.ctl.set("TIME_MODE", 1)
        t0 = self.ctl.get("TICKS")
        t = time.time() + HANG
        while self.ctl.get("TICKS") < t0 + 3:
            if time.time() > t:
                self.check_alive("clock")
                raise Inconclusive("the server does not look at the clock")
            time.sleep(0.001)

    # -- flush children
    def children(self):
        out = []
        if self.p is None:
            return out
        for d in glob.glob("/proc/%d/task/*/children" % self.p.pid):
            try:
                out += [int(x) for x in open(d).read().split()]
            except OSError:
                pass
        return out

    def wait_children(self, timeout=None):
        t = time.time() + (timeout or HANG)
        while time.time() < t:
            ch = [c for c in self.children() if not _zombie(c)]
            if not ch:
                return True
            time.sleep(0.002)
        return False

    def wait_all_children_reaped(self, timeout=None):
        t = time.time() + (timeout or HANG)
        while time.time() < t:
            if not self.children():
                return True
            time.sleep(0.002)
        return False

    def fds(self):
        d = "/proc/%d/fd" % self.p.pid
        out = []
        for f in os.listdir(d):
            try:
                out.append(os.readlink(os.path.join(d, f)))
            except OSError:
                pass
        return sorted(out)

    def value_files(self):
        out = {}
        for p in glob.glob(glob.escape(self.db) + "/files/*/*"):
            try:
                out[p] = os.path.getsize(p)
            except OSError:
                pass
        return out

def _zombie(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] in "ZX"
    except OSError:
        return True

def parse_stats(r):
    if r.status != 200:
        raise Failure("statistics page answered %s" % r.brief())
    d = {}
    t = r.body.decode("latin1")
    for l in t.split("\r\n"):
        if ": " in l:
            k, v = l.split(": ", 1)
            d[k] = v
    try:
        fr, ex = d["DB Blocks Free"].split("/")
        return dict(keys=int(d["DB Keys"]), tables=int(d["DB Tables"]), bytes=int(d["DB Size Bytes"]), free=int(fr), exist=int(ex),
                    deletes=int(d["DB Stats Deletes"]), gets=int(d["DB Stats Gets"]), inserts=int(d["DB Stats Inserts"]))
    except (KeyError, ValueError):
        raise Failure("statistics page cannot be read: %r" % t)

def value_bytes(seed, n):
    """The n bytes of the value named by seed; any two differ almost surely, and every 8 bytes tell where they belong."""
    return random.Random("v%s" % (seed,)).randbytes(n)

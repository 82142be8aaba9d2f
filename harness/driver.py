"""Talks to the C++ drivers: one line per case, a crash is a failure and restarts the driver."""
import os, select, subprocess, tempfile
import build
from server import Failure, Inconclusive
_procs = {}

def ask(name, line, timeout=60.0):
    p = _procs.get(name)
    if p is None or p.poll() is not None:
        err = tempfile.TemporaryFile()
        p = _procs[name] = subprocess.Popen([build.build_driver(name)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=1:exitcode=99"))
        p.err = err
    try:
        p.stdin.write(line.encode() + b"\n"); p.stdin.flush()
        if not select.select([p.stdout], [], [], timeout)[0]:
            p.kill(); p.wait(); _procs.pop(name, None)
            raise Failure("%s: no answer within %d s" % (name, timeout))
        out = p.stdout.readline().decode("latin1").strip()
    except BrokenPipeError:
        out = ""
    if os.fstat(p.err.fileno()).st_size > 1 << 24:      # debug builds print a lot
        os.ftruncate(p.err.fileno(), 0)
    if not out:
        rc = p.wait(); p.err.seek(max(0, os.fstat(p.err.fileno()).st_size - 20000)); text = p.err.read().decode("latin1")
        _procs.pop(name, None)
        if rc == 3: raise RuntimeError("reference is wrong: " + text)
        import re
        m = re.search(r"(ERROR: AddressSanitizer|runtime error|Assertion)[^\n]*", text)
        raise Failure("%s crashed (%s): %s" % (name, rc, m.group(0) if m else text[-300:]))
    if out.startswith("reference"):
        raise RuntimeError("reference is wrong: " + out)
    if out.startswith("fail"):
        raise Failure("%s: %s" % (name, out[5:]))
    return [int(x) for x in out.split()[1:]]

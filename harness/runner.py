"""Property-based testing engine: generated cases in parallel, shrinking, replay, evidence.

A case is a JSON value {"cfg": {...}, "ops": [...]}: a pure function of (VERIF_SEED, property,
index).  A property module provides
    ID, LEVEL, RULE, QUICK, THOROUGH (numbers of cases), gen(rng, i, tier) -> case,
    run(case, info)  (raises Failure; counts what happened in info, a Counter),
    nontrivial(case, info) -> bool.
"""
import collections, hashlib, importlib, json, multiprocessing as mp, os, queue, random, signal, sys, time, traceback
import build, server
from server import Failure, Inconclusive

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, "replays")
DEFAULT_TIME = {"quick": 60.0, "thorough": 900.0}

def case_rng(seed, pid, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))

def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]

def run_once(mod, case):
    """-> (failure message or None, info)"""
    info = collections.Counter()
    try:
        mod.run(json.loads(json.dumps(case)), info)
        return None, info
    except Failure as e:
        return str(e), info

def _worker(modname, seed, tier, counter, total, deadline, stop, out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, lambda *a: os._exit(0))
    mod = importlib.import_module("props." + modname)
    if hasattr(mod, "init_worker"):
        mod.init_worker()
    while not stop.is_set() and time.time() < deadline:
        with counter.get_lock():
            i = counter.value
            if i >= total:
                break
            counter.value += 1
        try:
            case = mod.gen(case_rng(seed, mod.ID, i), i, tier)
            t = time.time()
            try:
                msg, info = run_once(mod, case)
            except Inconclusive as e:
                out.put(("inconclusive", i, str(e), None, None, 0))
                continue
            nt = bool(mod.nontrivial(case, info))
            out.put(("ok" if msg is None else "fail", i, msg, dict(info), (digest(case), nt), time.time() - t))
        except BaseException:
            out.put(("error", i, traceback.format_exc(), None, None, 0))
            return
    out.put(("done", None, None, None, None, 0))

def shrink(mod, case, budget, tries):
    """Delta debugging on the op list, then on the module's own simplifications."""
    end = time.time() + budget
    def fails(c):
        for _ in range(tries):
            if time.time() > end:
                return None
            try:
                m, _i = run_once(mod, c)
            except (Inconclusive, Exception):
                m = None
            if m is not None:
                return m
        return None
    best, msg, runs = case, None, 0
    if "ops" in case:
        ops = list(case["ops"]); n = 2
        while len(ops) > 1 and time.time() < end:
            size = max(1, len(ops) // n); reduced = False
            for a in range(0, len(ops), size):
                cand = dict(best); cand["ops"] = ops[:a] + ops[a + size:]
                runs += 1
                m = fails(cand)
                if m is not None:
                    ops = cand["ops"]; best, msg = cand, m; n = max(n - 1, 2); reduced = True
                    break
                if time.time() > end:
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(n * 2, len(ops))
    simp = getattr(mod, "simplify", None)
    while simp and time.time() < end:
        for cand in simp(best):
            runs += 1
            m = fails(cand)
            if m is not None:
                best, msg = cand, m
                break
            if time.time() > end:
                break
        else:
            break
    return best, msg, runs

def write_replay(pid, case, msg, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s.json" % (pid, digest(case)))
    json.dump(dict(property=pid, message=msg, case=case, **(extra or {})), open(p, "w"), indent=1)
    return p

def evidence(mod, tier, seed, cov, wall, violations, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    e = dict(property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, assumptions=assumptions,
             wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(d, ".%s.tmp" % mod.ID)
    json.dump(e, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(d, mod.ID + ".json"))

def main(modname, argv):
    t0 = time.time()
    mod = importlib.import_module("props." + modname)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None; total = None; limit = None; jobs = int(os.environ.get("SCV_JOBS", "8")); only = None; keep = False
    i = 0
    while i < len(argv):
        a = argv[i]
        if a in ("quick", "thorough"): tier = a
        elif a == "--replay": i += 1; replay = argv[i]
        elif a == "--cases": i += 1; total = int(argv[i])
        elif a == "--time": i += 1; limit = float(argv[i])
        elif a == "--seed": i += 1; seed = int(argv[i])
        elif a == "--jobs": i += 1; jobs = int(argv[i])
        elif a == "--only": i += 1; only = int(argv[i])
        elif a == "--keep-going": keep = True
        else: raise SystemExit("unknown argument " + a)
        i += 1
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    for v in getattr(mod, "VARIANTS", []):
        build.build(v)
    if replay:
        case = json.load(open(replay))["case"]
        bad = 0
        for k in range(3):
            m, info = run_once(mod, case)
            print("replay %d: %s" % (k + 1, m or "no violation"))
            bad += m is not None
        if bad:
            print("VIOLATION property=%s replay=%s" % (mod.ID, replay)); return 1
        return 0
    if only is not None:
        case = mod.gen(case_rng(seed, mod.ID, only), only, tier)
        print(json.dumps(case)[:3000])
        m, info = run_once(mod, case)
        print(m, dict(info)); return 1 if m else 0
    if hasattr(mod, "custom_main"):
        return mod.custom_main(seed, tier)
    if total is None:
        total = mod.QUICK if tier == "quick" else mod.THOROUGH
    if limit is None:
        limit = getattr(mod, "TIME", DEFAULT_TIME)[tier]
    known = []
    if hasattr(mod, "known_findings"):
        known = mod.known_findings()
    ctx = mp.get_context("fork")
    counter = ctx.Value("l", 0); stop = ctx.Event(); out = ctx.Queue()
    deadline = time.time() + limit
    jobs = min(jobs, getattr(mod, "JOBS", 8))
    ws = [ctx.Process(target=_worker, args=(modname, seed, tier, counter, total, deadline, stop, out), daemon=True) for _ in range(jobs)]
    for w in ws: w.start()
    done = 0; labels = collections.Counter(); digs = {}; fails = []; inconc = []; evals = 0; errors = []; samples = []; nts = []
    confirmed = None; unrepro = []; last = time.time()
    while done < len(ws):
        try:
            kind, idx, msg, info, dg, dt = out.get(timeout=1.0)
            last = time.time()
        except queue.Empty:
            if not any(w.is_alive() for w in ws):
                break
            if time.time() > deadline + 200:
                errors.append("workers stuck"); break
            continue
        if kind == "done":
            done += 1; continue
        if kind == "error":
            errors.append("case %s: %s" % (idx, msg)); done += 1; stop.set(); continue
        if kind == "inconclusive":
            inconc.append((idx, msg)); continue
        evals += 1
        for k, v in info.items():
            labels[k] += v
        digs[dg[0]] = dg[1]
        if dg[1]: nts.append(idx)
        if kind == "fail":
            if keep:
                print("FAIL case %d: %s" % (idx, msg)); fails.append((idx, msg)); continue
            fails.append((idx, msg))
            if len(fails) >= 3 or "Sanitizer" in msg:
                stop.set()
    for w in ws:
        w.join(5)
        if w.is_alive(): w.kill()
    # ---- confirm, shrink, report
    if keep:
        print("%d fails of %d" % (len(fails), evals)); print(dict(labels)); print("wall %.1f" % (time.time() - t0)); 
        for e in errors[:3]: print(e)
        return 1 if fails else 0
    violation = None
    for idx, msg in sorted(fails)[:4]:
        case = mod.gen(case_rng(seed, mod.ID, idx), idx, tier)
        got = []
        for k in range(3):
            try:
                m, _ = run_once(mod, case)
            except Inconclusive:
                m = None
            got.append(m)
        n = sum(m is not None for m in got)
        if n == 0:
            for k in range(6):
                try:
                    m, _ = run_once(mod, case)
                except Inconclusive:
                    m = None
                if m is not None:
                    n = 1; got.append(m); break
        if n:
            violation = (idx, case, [m for m in got if m][0], n); break
        unrepro.append((idx, msg))
    hard = [u for u in unrepro if "within" not in u[1] and "timed out" not in u[1]]
    if violation is None and (any("Sanitizer" in u[1] for u in hard) or len(hard) >= 2):
        # a memory error that was reported, or several independent wrong answers, are facts even if
        # their timing does not come back
        idx, msg = [u for u in hard if "Sanitizer" in u[1]][0] if any("Sanitizer" in u[1] for u in hard) else hard[0]
        violation = (idx, mod.gen(case_rng(seed, mod.ID, idx), idx, tier), msg, 0)
    nviol = 0; rp = None
    if violation:
        idx, case, msg, n = violation
        nviol = len(fails)
        small, m2, runs = case, None, 0
        if n >= 2:
            small, m2, runs = shrink(mod, case, float(os.environ.get("SCV_SHRINK", 60 if tier == "quick" else 240)), 1 if n == 3 else 3)
            # the minimal case must fail again, else keep the original
            ok = False
            for k in range(3):
                try:
                    m, _ = run_once(mod, small)
                except Inconclusive:
                    m = None
                if m: ok = True; m2 = m; break
            if not ok: small, m2 = case, msg
        rp = write_replay(mod.ID, small, m2 or msg, dict(seed=seed, tier=tier, index=idx, shrink_runs=runs, reproduced=n))
    srng = random.Random(seed)
    pick = sorted(srng.sample(nts, min(3, len(nts)))) if nts else []
    for idx in pick:
        c = mod.gen(case_rng(seed, mod.ID, idx), idx, tier)
        t = json.dumps(c)
        samples.append(dict(index=idx, case=c if len(t) < 4000 else t[:4000] + "..."))
    cov = dict(evaluations=evals, distinct_nontrivial=sum(1 for v in digs.values() if v), rule=mod.RULE, samples=samples,
               planned=total, labels={k: labels[k] for k in sorted(labels)}, inconclusive=len(inconc),
               unreproduced=[dict(index=a, message=b[:500]) for a, b in unrepro])
    extra = getattr(mod, "extra_coverage", None)
    if extra: cov.update(extra())
    wall = time.time() - t0
    evidence(mod, tier, seed, cov, wall, nviol, getattr(mod, "ASSUMPTIONS", []))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, k))
    print("%s %s seed=%d: %d cases (%d distinct non-trivial) in %.1fs, %d failures, %d inconclusive, %d unreproduced" % (
        mod.ID, tier, seed, evals, cov["distinct_nontrivial"], wall, len(fails), len(inconc), len(unrepro)))
    if errors:
        print("HARNESS ERROR: " + errors[0][-3000:])
        if not violation: return 2
    if violation:
        print("case %d: %s" % (violation[0], (m2 or msg)[:1500]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, rp))
        return 1
    if evals == 0 or len(inconc) > evals:
        print("HARNESS ERROR: nothing could be evaluated: %s" % inconc[:3]); return 2
    return 0

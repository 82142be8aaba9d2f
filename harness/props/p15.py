"""P15: the receive ring buffer behaves as a byte queue.

Operation sequences against the project's read_buffer.cpp, linked into a driver that keeps a plain queue beside it and checks every
reported amount, copy, comparison, number and iteration; and every offset and fill level of a 256-byte buffer, enumerated."""
import build, driver
ID = "P15"
LEVEL = "exploration"
QUICK, THOROUGH = 58799, 2000000
RULE = "a sequence counts as non-trivial when data wrapped around the end of the buffer at least twice, or the buffer was completely full at least once, between queries"
ASSUMPTIONS = ["rbuf_read_to_end on a completely full buffer away from offset 0 is not checked: a unit test pins it to the whole length",
               "a number of no digits is not checked"]
SIZES = {"rbuf256": 256, "rbuf256rel": 256, "rbufdebug": 256, "rbuf1k": 1024, "rbuf1krel": 1024, "rbuf16k": 16384, "rbuf16krel": 16384}
ENUM = [(d, off) for off in list(range(0, 256)) + list(range(65280, 65536, 3)) + list(range(32640, 32900, 8)) for d in ("rbuf256",)] + \
       [("rbufdebug", off) for off in range(65400, 65800, 16)] + [("rbuf256rel", off) for off in range(65280, 65792, 7)]

def prepare(tier):
    for d in SIZES: build.build_driver(d)

def hexs(s): return s.encode("latin1").hex()

def gen(rng, i, tier):
    if i < len(ENUM): return {"cfg": dict(drv=ENUM[i][0]), "ops": ["E %d 1" % ENUM[i][1]]}
    drv = rng.choice(["rbuf256", "rbuf256", "rbuf256rel", "rbuf256rel", "rbufdebug", "rbuf1k", "rbuf1krel", "rbuf16krel", "rbuf16k"])
    cap = SIZES[drv]; ops = []
    if rng.random() < 0.7: ops.append("f %d" % rng.choice([rng.randrange(cap), cap - 1, 65535 - rng.randrange(cap), 65536 - rng.randrange(3 * cap) % 65536, rng.randrange(65536), 32768 - rng.randrange(8)]))
    fill = 0
    def n(lim):
        r = rng.random()
        if r < 0.3: return rng.randrange(0, 12)
        if r < 0.5: return max(0, lim - rng.randrange(3))
        if r < 0.6: return cap - rng.randrange(3)
        return rng.randrange(0, max(1, lim + 1))
    for _ in range(rng.choice([6, 20, 60]) if cap < 5000 else rng.choice([5, 12])):
        r = rng.random()
        if r < 0.3:
            k = min(n(cap - fill), cap - fill); fill += k; ops.append("w %d %d" % (k, rng.randrange(1 << 30)))
        elif r < 0.42:
            d = rng.choice(["", "", "0", "-", " ", "x", "00000"]) if rng.random() < 0.3 else ""
            t = d + str(rng.choice([0, 7, 10, 255, 99999, 2147483647, 2147483648, 2147483646, 4294967295, 4294967296, 99999999999, 10 ** 20, rng.randrange(2 ** 31), rng.randrange(2 ** 33)]))
            if rng.random() < 0.4: t += rng.choice(["\r", "\n", "a", "/", ":", " ", "\x00", "\xff"])
            if len(t) <= cap - fill:
                fill += len(t); ops.append("t " + hexs(t))
                if fill == len(t) or rng.random() < 0.2: ops.append("n %d" % rng.choice([-1, len(t), len(t) - 1, rng.randrange(0, 12)]))
        elif r < 0.6: 
            k = min(n(fill), fill) if rng.random() < 0.7 else fill
            fill -= k; ops.append("r %d" % k)
        elif r < 0.72: ops.append("c %d" % n(fill))
        elif r < 0.84:
            k = n(fill); ops.append("m %d %d %d" % (k, rng.choice([k, rng.randrange(k + 1), max(0, k - 1), 0]), rng.choice([1, -1, 7, 128, 32])))
        elif r < 0.93: ops.append("i %d" % n(fill))
        elif r < 0.97: ops.append("n %d" % rng.choice([-1, 0, 1, 3, fill, fill + 1]))
        else: ops.append("p")
    return {"cfg": dict(drv=drv), "ops": ops}

def run(case, info):
    q, w, f = driver.ask(case["cfg"]["drv"], ";".join(case["ops"]))
    info["queries"] += q; info["wraps"] += w; info["full"] += f
    if case["ops"] and case["ops"][0].startswith("E"): info["enumerated_offsets"] += 1

def nontrivial(case, info):
    return info["wraps"] >= 2 or info["full"] >= 1

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = ("The real server is built from /repo's working tree (address/undefined sanitizer, release, debug-assert, no-CoW and "
          "small-buffer variants) and run under an interposed libc that owns the clock and can inject faults; ")
TRUST = " Assurance is that of bounded random search: no violation among the histories generated from VERIF_SEED. Trusts the harness's model, the libc shim and the sanitizers."
H = "stateful model-based property testing: "
CHECKS = {
 "P01": (H + "random histories of requests on several connections against a dictionary model, with shrinking", "every response body and length is compared with a model of the stored values."),
 "P02": (H + "random packet-level interleavings of readers, uploaders and deleters against a model with version ordering", "every body must be the bytes of one completed upload admitted by the model."),
 "P03": (H + "uploads cut at generated bytes, state compared with a model in which they never happened", "keys, statistics, block usage and files are compared after each cut."),
 "P04": ("metamorphic property testing: one request stream delivered in many packet divisions and pipelined, responses compared", "the responses to one stream are compared over packet divisions, pipelining and server variants with smaller receive buffers, and with a model."),
 "P05": ("grammar-based fuzzing of both ports with mutation, sanitizers and canary data as oracle", "sanitizer reports, exits, hangs, changed canary values and unanswered probes are violations."),
 "P06": (H + "generated keep-alive sessions of all request kinds against a strict response parser and a model of status and length", "every byte received is accounted for by a strict parser."),
 "P07": (H + "generated lifetimes and clock movements (controlled clock) against a model of expiry", "time is owned by the shim, so expiry seconds are hit exactly."),
 "P08": (H + "histories with collections against an independent least-recently-used reference model", "the exact set of survivors of each collection is predicted."),
 "P09": (H + "histories with restarts, every key read back afterwards against the model; directories with generated names", "contents, expiry and statistics before and after each restart are compared."),
 "P10": ("fault-injection property testing: process killed at enumerated file-system operations of generated histories, then restarted and compared with every value ever stored under each key", "crash points are counted file-system operations of server and flushing child."),
 "P11": (H + "generated tables listed whole, in ranges and while changing, against a set model", "the parsed listing is compared with the model's keys."),
 "P12": (H + "statistics page compared with a counting model after generated histories", "numbers of keys, tables, bytes, blocks and operations are predicted."),
 "P13": ("metamorphic property testing: generated workloads that end empty are repeated; memory, descriptors, files and blocks must not grow", "live allocations are counted inside the server by the shim; files and descriptors are read from the system."),
 "P14": (H + "names constructed to collide under the hash (inverted MurmurHash3) against a model that allows displacement only", "collisions are constructed, not searched for."),
 "P15": ("differential property testing of the ring buffer unit against a byte queue, with address sanitizer", "the unit is compiled from /repo and driven directly with generated operation sequences."),
 "P16": ("differential property testing of the hash functions against an independent implementation, and of stored file names", "the unit is compiled from /repo and driven directly; file names of stored values are checked against the reference hash."),
 "P17": (H + "generated mixtures of monitoring clients under a controlled clock against a model of the stream", "ticks are caused by the shim's clock, so each number is expected exactly."),
 "P18": ("property-based testing of generated command lines against an independent address parser, with connection probes", "acceptance, the addresses actually listening, and option effects are compared with a reference."),
 "P19": ("fault-injection property testing: generated short, refused and failing socket and disk writes under a model of admissible values", "faults are injected by the shim under generated plans."),
 "P20": (H + "deletes of all kinds overlapping other requests on few keys, against a model", "presence and value of every key are compared after every delete."),
 "P21": (H + "collections, signals and flushes inserted at generated points of histories with transfers in progress; forked children held or delayed", "responses are compared with a model that knows no collections."),
 "P22": (H + "saved databases with generated block counts up to millions (sparse files) on which histories are run and restarted", "values placed on both sides of the 2 and 4 GiB borders are compared byte for byte."),
 "P23": (H + "up to hundreds of stalled clients while others' requests are answered, then resumed, against a model", "answers must arrive within a generous bound while the stalled clients are held."),
}
NA = {}
QUICK_LEVEL = "exploration"

def main():
    have = [p for p in sorted(CHECKS) if os.path.exists(os.path.join(ROOT, "harness/props/%s.py" % p.lower()))]
    m = dict(version=1, setup_cmd="python3 harness/build.py",
             checks=[dict(property=p, quick_cmd="python3 harness/run.py %s quick" % p,
                          thorough_cmd="python3 harness/run.py %s thorough" % p,
                          evidence_file="evidence/%s.json" % p, technique=CHECKS[p][0], level=QUICK_LEVEL,
                          level_note=(COMMON if p not in ("P15", "P16") else "") + CHECKS[p][1] + TRUST) for p in have],
             not_applicable=[dict(property=p, reason=NA.get(p, "no check yet")) for p in sorted(CHECKS) if p not in have],
             notes="No hooks in /repo: the checks interpose libc (harness/shim) and compile /repo's sources with their own flags. Known findings: known_findings.txt. Design: DESIGN.md.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    print(len(have), "checks,", len(m["not_applicable"]), "not claimed")

if __name__ == "__main__":
    main()

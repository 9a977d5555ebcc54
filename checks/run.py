#!/usr/bin/python3
"""Decide one property on the current source of /repo.

usage: run.py <property> [--quick|--thorough] [--repo DIR]

Reads every module of the package from /repo's working tree, analyses it (nothing of it is executed), compares with
the rules of the property and writes evidence/<property>.json.  Exit 0: no violation.  Exit 1: VIOLATION line.
Exit 2: the check could not be carried out (a public name the property is about has vanished, a source file does
not parse, or an error in the analysis).
"""
import json
import os
import resource
import select
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True

import core  # noqa: E402
import props  # noqa: E402


def known():
    """known-findings file: lines `known: property=<id> key=<rule and construct> <text>` (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(w.split("=", 1) for w in line.split()[1:3])
                out[(f["property"], f["key"])] = line.split(None, 3)[3]
    return out


LIMIT_S = 200  # per rule
LIMIT_ALL = 600  # for the whole check
LIMIT_MEM = 3500 << 20


def one(c, tier, res):
    cx = core.Context()
    cx.tier = tier
    try:
        c.run(cx)
        res.append({"obligations": cx.obligations, "violations": cx.violations, "undecided": cx.undecided, "functions": sorted(cx.functions)})
    except core.H.Vanished as e:
        res.append({"vanished": "public name %s has vanished" % e})
    except SyntaxError as e:
        res.append({"error": "source does not parse: %s" % e})
    except core.Broken as e:
        res.append({"error": str(e)})
    except Exception as e:  # the analysis cannot follow this source: no verdict
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        res.append({"gaveup": "analysis gave up: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:400]})


def parallel(items, tier, width=8):
    """every rule is analysed in a process of its own, with bounded time and memory"""
    results = [None] * len(items)
    running = {}
    todo = list(range(len(items)))
    end = time.time() + LIMIT_ALL
    while todo or running:
        while todo and len(running) < width:
            i = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (LIMIT_MEM, LIMIT_MEM))
                threading.stack_size(512 * 1024 * 1024)
                res = []
                th = threading.Thread(target=one, args=(items[i], tier, res))
                th.daemon = True
                th.start()
                limit = max(1, min(LIMIT_S, end - time.time()))
                th.join(limit)
                out = res[0] if res else {"gaveup": "analysis did not finish in %d s" % limit}
                with os.fdopen(w, "w") as f:
                    json.dump(out, f)
                os._exit(0)
            os.close(w)
            running[r] = (i, pid)
        ready, _, _ = select.select(list(running), [], [])
        for r in ready:
            i, pid = running.pop(r)
            with os.fdopen(r) as f:
                data = f.read()
            os.waitpid(pid, 0)
            results[i] = json.loads(data) if data else {"gaveup": "analysis ended early (out of memory?)"}
    return results


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    t0 = time.time()
    cx = core.Context()
    cx.tier = tier
    p = props.PROPS[pid]
    errors, vanished = [], []
    for c, r in zip(p["checks"], parallel(p["checks"], tier)):
        if "error" in r:
            errors.append("%s: %s" % (c.name, r["error"]))
            continue
        if "vanished" in r:
            vanished.append(c.name)
            cx.add(c.name, c.rule, "undecided", r["vanished"])
            continue
        if "gaveup" in r:
            cx.add(c.name, c.rule, "undecided", r["gaveup"])
            continue
        cx.obligations += [tuple(o) for o in r["obligations"]]
        cx.violations += [tuple(o) for o in r["violations"]]
        cx.undecided += [tuple(o) for o in r["undecided"]]
        cx.functions |= set(r["functions"])
    if len(vanished) == len(p["checks"]):
        errors.append("every public name the property is about has vanished: " + cx.undecided[0][1])
    kn = known()
    fresh, old = [], []
    for key, what, rule in cx.violations:
        (old if (pid, key) in kn else fresh).append((key, what, rule))
    n = len(cx.obligations)
    if n < p.get("min", 1) and not errors and not fresh:
        errors.append("only %d obligations were generated, at least %d are expected" % (n, p.get("min", 1)))
    evid = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evid, exist_ok=True)
    src = cx.src()
    cov = {
        "explanation": p.get("explain", "") or "Static value-flow analysis of the current source; each obligation compares what the "
        "whole-program analysis derives for one use of the public API (all inputs at once, as terms over abstract "
        "inputs) with the rule the property prescribes.",
        "obligations": n,
        "discharged": sum(1 for o in cx.obligations if o[2] == "discharged"),
        "undecided": [{"obligation": o, "why": w[:400]} for o, w in cx.undecided],
        "rules": [{"obligation": o[0], "rule": o[1], "status": o[2], "compared": o[3][:300]} for o in cx.obligations],
        "functions_analysed": sorted(cx.functions),
        "functions_count": len(cx.functions),
        "source_files": len(src.modules),
        "source_digest": src.digest.hexdigest(),
        "analysis_errors": errors,
        "known_findings": [k for k, _w, _r in old],
    }
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov, "assumptions": core.ASSUMPTIONS + p.get("assume", []), "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    path = os.path.join(evid, pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for key, what, rule in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, key)]))
    for o, w in cx.undecided:
        print("undecided: %s: %s" % (o, w[:300]))
    if fresh:
        rp = os.path.join(evid, pid + ".violation.txt")
        with open(rp, "w") as f:
            for key, what, rule in fresh:
                f.write("property %s\nrule: %s\nconstruct: %s\nfinding: %s\n\n" % (pid, rule, key, what))
        for key, what, rule in fresh:
            print("  %s: %s" % (key, what[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    print("property %s: %d obligations, %d discharged, %d undecided, %d functions analysed, %.1fs" % (
        pid, n, cov["discharged"], len(cx.undecided), len(cx.functions), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

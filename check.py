#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source.

exit 0: nothing speaks against the property; exit 1 and a VIOLATION line otherwise."""
import argparse
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from hvs import compare, oblig, props, rules  # noqa: E402
from hvs.terms import pretty, subterms        # noqa: E402

FUNC_S, TOTAL_S, SOFT_S = 420, 720, 240      # seconds for one function, for all of them
MEM = 6 << 30


def site(w, q):
    r = oblig.find(w.code, q)
    if r is None:
        return "", 0
    return r[0].path, getattr(r[2], "lineno", 0)


def one_function(w, q, salts):
    """plain data: the verdicts on one function"""
    t0 = time.time()
    out = dict(function=q, observables=[], nodes=0, valuations=0)
    path, line = site(w, q)
    out["file"], out["line"] = path, line
    compare.SALT = salts[0]
    for v in oblig.check(w, q):
        res = v.res
        if res.verdict in ("EQUAL", "DIFF") and v.code is not None and v.spec is not None:
            for s in salts[1:]:
                compare.SALT = s
                r2 = compare.compare(v.code, v.spec, w.known_attrs)
                out["valuations"] += r2.samples
                if res.verdict == "EQUAL" and r2.verdict == "DIFF" and not res.why:
                    res = r2
            compare.SALT = salts[0]
        d = dict(observable=v.obs, verdict=res.verdict, why=res.why)
        out["valuations"] += res.samples
        for t in (v.code, v.spec):
            if t is not None:
                out["nodes"] += len(subterms(t))
        if res.verdict == "DIFF":
            d["separating_valuations"] = res.differ
            d["where"] = [dict(line=getattr(a, "line", None), code=pretty(a, 6)[:1500], reference=pretty(b, 6)[:1500])
                          for a, b in (res.where or [])]
            if not d["where"] and v.code is not None and v.spec is not None:
                d["where"] = [dict(code=pretty(v.code, 5)[:1500], reference=pretty(v.spec, 5)[:1500])]
        out["observables"].append(d)
    out["wall_s"] = round(time.time() - t0, 3)
    return out


def undecided(w, q, why):
    path, line = site(w, q)
    return dict(function=q, observables=[dict(observable="*", verdict="UNDECIDED", why=why)], nodes=0, valuations=0,
                file=path, line=line, wall_s=0)


def child(w, q, salts, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        compare.SOFT = time.time() + SOFT_S * (1 if len(salts) == 1 else 1.5)
        conn.send(one_function(w, q, salts))
    except BaseException as e:   # noqa: B902  anything the engine cannot handle is "undecided", never an alarm
        conn.send(undecided(w, q, "analysis gave up: %s %s" % (type(e).__name__, str(e)[:200])))
    finally:
        conn.close()
        os._exit(0)


def run_functions(w, quals, salts, jobs=8):
    ctx = mp.get_context("fork")
    todo, live, done = list(quals), [], {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            q = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, q, salts, b))
            p.start()
            b.close()
            live.append((q, p, a, time.time()))
        time.sleep(0.005)
        for it in list(live):
            q, p, a, ts = it
            if a.poll():
                try:
                    done[q] = a.recv()
                except EOFError:
                    done[q] = undecided(w, q, "the analysis process ended")
            elif not p.is_alive():
                done[q] = undecided(w, q, "the analysis process ended")
            elif time.time() - ts > FUNC_S or time.time() - t0 > TOTAL_S:
                done[q] = undecided(w, q, "time limit of the analysis")
                p.kill()
            else:
                continue
            p.join()
            a.close()
            live.remove(it)
    return [done[q] for q in quals]


def known_findings():
    """{property: {key: text}} of the defects that are recorded and not repaired"""
    out = {}
    with open(os.path.join(HERE, "known-findings.jsonl")) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                if d["status"] == "known":
                    out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


def decide(pid, tier, seed):
    t0 = time.time()
    prop = props.BY_ID[pid]
    level = "other"
    w = oblig.World()
    salts = [seed - 1] if tier == "quick" else [seed - 1 + 17 * i for i in range(6)]
    funcs = run_functions(w, prop["funcs"], salts) if prop["funcs"] else []
    violations, und = [], []
    counts = dict(PROVED=0, EQUAL=0, UNDECIDED=0, DIFF=0, SKIPPED=0)
    for f in funcs:
        for o in f["observables"]:
            counts[o["verdict"]] += 1
            if o["verdict"] == "DIFF":
                violations.append(("behaviour %s: %s" % (f["function"], o["observable"]),
                                   "%s:%s %s: %s is not what the property demands" %
                                   (f["file"], f["line"], f["function"], o["observable"]), o))
            elif o["verdict"] == "UNDECIDED":
                und.append("%s %s: %s" % (f["function"], o["observable"], o["why"]))
    rr = []
    for name in prop["rules"]:
        try:
            r = rules.run(w, name)
        except (SyntaxError, RecursionError, KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
            und.append("rule %s gave up: %s %s" % (name, type(e).__name__, str(e)[:200]))
            if os.environ.get("HVS_DEBUG"):
                traceback.print_exc()
            continue
        rr.append(r)
        if name == "handlers":      # a rule about functions: those of the property
            mods = [x.rsplit(".", 1)[0].replace("/", ".") for x in prop["files"] + ["hyvr/sim.py"]]
            r.findings = [x for x in r.findings if any(x[0].startswith("handlers %s." % y) for y in mods)]
        for k, m in r.findings:
            violations.append((k, m, None))
        und += ["%s: %s" % (name, u) for u in r.undecided]
    known = known_findings().get(pid, {})
    new = [v for v in violations if v[0] not in known]
    old = [v for v in violations if v[0] in known]
    for k, m, _ in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k, known[k]))
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    coverage = dict(
        explanation="Each listed function of /repo's current source is abstractly interpreted, without running it, "
                    "into the value graphs of its observables (result, exceptions, stores to attributes, arrays and "
                    "files, random draws); each graph is compared with the graph of the reference semantics in "
                    "/verif/spec by normal form (PROVED) or value numbering by random interpretation (EQUAL, DIFF). "
                    "UNDECIDED observables are not counted as held. The rules inspect the syntax trees, symbol tables "
                    "and call graph of the whole package.",
        files=len({f["file"] for f in funcs if f["file"]}),
        functions_analysed=len(funcs),
        observables=sum(counts.values()), proved_identical=counts["PROVED"],
        equal_by_value_numbering=counts["EQUAL"], different=counts["DIFF"], skipped_after_difference=counts["SKIPPED"],
        undecided=len(und), undecided_list=und[:60],
        value_graph_nodes=sum(f["nodes"] for f in funcs), valuations=sum(f["valuations"] for f in funcs),
        rules=[dict(rule=r.name, text=r.text, instances=r.instances, findings=len(r.findings), samples=r.samples)
               for r in rr],
        functions=[dict(function=f["function"], at="%s:%s" % (f["file"], f["line"]), observables=len(f["observables"]),
                        nodes=f["nodes"], wall_s=f["wall_s"]) for f in funcs],
        samples=["%s %s: %s" % (f["function"], f["observables"][-1]["observable"], f["observables"][-1]["verdict"])
                 for f in funcs[:5] if f["observables"]] + [s for r in rr for s in r.samples[:2]],
        known_findings=[v[0] for v in old])
    replay = ""
    if new:
        replay = os.path.join(ev, pid + ".violation.json")
        with open(replay, "w") as f:
            json.dump([dict(key=k, message=m, detail=o) for k, m, o in new], f, indent=1, default=str)
        for k, m, o in new[:10]:
            print("%s  [%s]" % (m, k))
            for x in (o or {}).get("where", [])[:2]:
                print("   code      %s" % x["code"][:300])
                print("   reference %s" % x["reference"][:300])
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
                       assumptions=["library functions behave as their documentation says",
                                    "arithmetic is that of the real numbers",
                                    "the reference in /verif/spec is what the property demands (reviewed by hand)"],
                       wall_s=round(time.time() - t0, 3), violations=len(new)), f, indent=1)
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("ok %s: %d functions, %d observables (%d identical, %d equal), %d rules, %d undecided" %
          (pid, len(funcs), sum(counts.values()), counts["PROVED"], counts["EQUAL"], len(rr), len(und)))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    a = ap.parse_args()
    return decide(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py ID [quick|thorough]      decide one property
   check.py --setup                  build everything once
   check.py --replay FILE            re-run a replay file and print the verdicts"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, plans
from core import VERIF, BUILD, Broken

KNOWN = os.path.join(VERIF, "known-findings.txt")

def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def slice_of(lines, i):
    """The commands that matter for the event of command i."""
    t = lines[i].split()
    if t[0] in ("new", "fit"):
        return [lines[i]]
    if t[0] == "q":
        news = [l for l in lines[:i] if l.split()[:2] == ["new", t[1]]][-1:]
        prior = [l for l in lines[:i] if l.split()[:2] == ["q", t[1]]]
        return news + prior + [lines[i]]
    return lines[: i + 1]

def replay_file(prop, n, sh, fault):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.cmds" % (prop, n))
    body = slice_of(sh["lines"], fault["i"]) if fault["i"] is not None else sh["lines"]
    with open(p, "w") as f:
        f.write("\n".join(body) + "\n")
    return p

def run_model(m, tier, seed, work):
    """Checks one bounded model and returns its size and the behaviours it exports."""
    w = os.path.join(work, m["name"])
    os.makedirs(w, exist_ok=True)
    cfg = w + "/model.cfg"
    open(cfg, "w").write(m["cfg"](tier))
    out = w + "/export.json"
    for n in ("BigNum", "Elem"):      # the text without its override
        if m["module"] == "MC" + n:
            text = open(core.SPEC + "/%s.tla" % n).read()
            open(w + "/%sPure.tla" % n, "w").write(text.replace("MODULE %s -" % n, "MODULE %sPure -" % n))
    trace = w + "/none.ndjson"
    open(trace, "w").write('{"e":"none"}\n')
    ok, log = core.tlc(m["module"], cfg, w, env={"EXPORT": out, "SEED": str(seed), "TRACE": trace, "REPORT": trace}, workers=m.get("workers", 1))
    if not ok:
        raise Broken("model %s failed\n%s" % (m["name"], log[-3000:]))
    g, d = core.counts(log)
    rows = [json.loads(l) for l in sorted(open(out))] if os.path.exists(out) else []
    return dict(name=m["name"], generated=g, distinct=d, rows=rows)

def main():
    if sys.argv[1] == "--setup":
        core.build()
        core.build(release=True)
        return 0
    if sys.argv[1] == "--replay":
        core.build()
        builds = (core.HARNESS,)
        if os.path.basename(sys.argv[2]).startswith("C22"):
            core.build(release=True)
            builds += (core.RELEASE,)
        lines = open(sys.argv[2]).read().split("\n")
        w = os.path.join(BUILD, "work", "replay")
        shutil.rmtree(w, ignore_errors=True)
        r = core.shard("replay", 0, [l for l in lines if l], sorted(plans.PLANS), w, builds=builds)
        for l in open(r["work"] + "/trace.ndjson"):
            print(l.strip())
        for f in r["faults"]:
            print("FAULT", f)
        return 1 if r["faults"] else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = plans.PLANS[prop]
    work = os.path.join(BUILD, "work", prop + "-" + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    core.build()
    builds = (core.HARNESS,)
    if plan.get("release"):
        core.build(release=True)
        builds += (core.RELEASE,)

    # bounded models: the specification itself, and the behaviours it exports
    models, exported = [], {}
    with cf.ThreadPoolExecutor(max_workers=core.CORES) as ex:
        for r in ex.map(lambda m: run_model(m, tier, seed, work), plan.get("models", [])):
            models.append(r)
            exported[r["name"]] = r["rows"]

    shards = plan["shards"](tier, seed, exported)          # list of (lines, hang_ms)
    res = []
    with cf.ThreadPoolExecutor(max_workers=core.CORES) as ex:
        fs = [ex.submit(core.shard, prop, k, lines, [prop], work, builds=builds) for k, lines in enumerate(shards)]
        for f in fs:
            res.append(f.result())

    # verdicts
    violations, kn, seen = [], {}, set()
    for r in res:
        if r["crash"] is not None:
            violations.append((r, dict(i=None, c="crash", v="exit status %s" % r["crash"], d=0)))
            continue
        for f in r["faults"]:
            hit = [d for m, d in known(prop) if re.fullmatch(m, f["c"])]
            if hit:
                kn.setdefault(hit[0], f)
            else:
                violations.append((r, f))
    stats = {}
    for r in res:
        for k, v in r["stats"].items():
            p, c = k.split(" ", 1)
            if p == prop:
                o = stats.setdefault(c, [0, -999])
                o[0] += v["n"]
                o[1] = max(o[1], v["d"])
    for d in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    n = 0
    for r, f in violations:
        key = f["c"]
        if key in seen:
            continue
        seen.add(key)
        n += 1
        if n > 8:
            break
        p = replay_file(prop, n, r, f)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s (%s)" % (f["c"], f["v"]))
        if f["i"] is not None:
            l = r["lines"][f["i"]]
            t = l.split()
            if t[0] in ("q", "d"):
                for x in r["lines"][: f["i"]]:
                    if x.split()[:2] == ["new", t[1]]:
                        made = x
                print("  " + core.pretty(made)[:400])
            print("  " + core.pretty(l)[:400])

    ev = evidence(prop, tier, seed, plan, models, res, stats, len(violations), time.time() - t0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    total = sum(v[0] for v in stats.values())
    print("%s %s: %d events, %d judgements in %d classes, %d model states, %d violations, %.1f s"
          % (prop, tier, sum(r["events"] for r in res), total, len(stats), sum(m["distinct"] for m in models), len(violations), time.time() - t0))
    missing = [c for c in plan.get("must", []) if not any(re.fullmatch(c, k) for k in stats)]
    if not violations and missing:
        raise Broken("classes never reached: %s" % missing)
    if os.environ.get("VERIF_VERBOSE"):
        for k in sorted(stats):
            print("   %-50s %7d  %d" % (k, *stats[k]))
    if not violations:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if violations else 0

def evidence(prop, tier, seed, plan, models, res, stats, violations, wall):
    samples = []
    for r in res[:4]:
        for l in r["lines"]:
            if len(samples) < 12 and l.split()[0] in ("new", "q", "d", "sn", "fit", "rel"):
                if not samples or samples[-1].split()[0] != l.split()[0] or len(samples) % 3:
                    samples.append(core.pretty(l)[:160])
    return dict(property=prop, tier=tier, seed=seed, level=plan["level"],
        coverage=dict(
            states=sum(m["distinct"] for m in models) + sum(r.get("distinct", 0) for r in res),
            transitions=sum(m["generated"] for m in models) + sum(r.get("generated", 0) for r in res),
            traces_validated_against_impl=len(res),
            trace_events=sum(r["events"] for r in res),
            models=[dict(name=m["name"], generated=m["generated"], distinct=m["distinct"], exported_behaviours=len(m["rows"])) for m in models],
            samples=samples,
            evaluations=sum(v[0] for v in stats.values()),
            distinct_nontrivial=len(stats),
            rule="an evaluation is one judgement of a recorded event by the specification; distinct_nontrivial counts the classes reached "
                 "(family, operation, and regime of the argument or path of the sampler, as named by the specification)",
            classes=["%s: %d judged, worst deviation 2^%d of its magnitude" % (k, v[0], v[1]) if v[1] > -999 else "%s: %d judged" % (k, v[0])
                     for k, v in sorted(stats.items())]),
        wall_s=round(wall, 2), violations=violations)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("BROKEN:", e)
        sys.exit(2)

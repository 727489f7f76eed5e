#!/usr/bin/env python3
"""corrupt.py [ID...]: corrupts answers in recorded traces and checks that the specification rejects each of them.

A trace with a wrong answer must give a finding at that event (known-finding classes aside), and TLC must never stop."""
import collections, concurrent.futures as cf, glob, json, os, random, re, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/run")
import core, plans, check
NAN, PINF, NINF, ZERO, ONE = [9, 0, []], [2, 0, []], [-2, 0, []], [0, 0, []], [1, 0, [1]]
def isnum(t): return isinstance(t, list) and len(t) == 3 and isinstance(t[2], list) and all(isinstance(x, int) for x in t[2]) and isinstance(t[0], int)
def scaled(t, r):
    """About t (1 + 2^-18), or t + 1 for zero."""
    if t[0] not in (1, -1): return ONE if t == ZERO else NAN
    v = sum(l << (15 * i) for i, l in enumerate(t[2])) << 30
    v += v >> 18 or 1
    e, ls = t[1] - 2, []
    while v: ls.append(v & 32767); v >>= 15
    while ls and ls[0] == 0: ls.pop(0); e += 1
    return [t[0], e, ls]
KINDS = ["nan", "+inf", "-inf", "zero", "neg", "near", "half", "one", "outcome", "reads", "position"]
def bend(t, kind, r):
    if kind == "nan": return NAN
    if kind == "+inf": return PINF
    if kind == "-inf": return NINF
    if kind == "zero": return ZERO
    if kind == "one": return ONE
    if kind == "neg": return [-t[0], t[1], t[2]] if t[0] in (1, -1, 2, -2) else ONE
    if kind == "half": return [1, -1, [16384]]
    return scaled(t, r)
def corrupt(e, kind, r):
    if kind == "outcome":
        e["o"] = "panic"; e["r"] = NAN if e["e"] in ("q", "d", "td") else e["r"]; return True
    if kind == "reads":
        if "n" not in e or e["e"] not in ("d", "sn"): return False
        e["n"] += 1; return True
    if kind == "position":
        if "p" not in e or e["e"] not in ("d", "sn"): return False
        e["p"] += 1; return True
    if e["e"] not in ("q", "d", "sn", "fit") or "r" not in e: return False
    if isnum(e["r"]):
        n = bend(e["r"], kind, r)
        if n == e["r"]: return False
        e["r"] = n
    elif isinstance(e["r"], list) and e["r"] and all(isnum(x) for x in e["r"]):
        i = r.randrange(len(e["r"]))
        n = bend(e["r"][i], kind, r)
        if n == e["r"][i]: return False
        e["r"][i] = n
    elif e["r"] == []: e["r"] = [NAN]
    else: return False
    return True
def news(f, h):
    for l in open(f):
        e = json.loads(l)
        if e["e"] == "new" and e["h"] == h: return l.strip()[:300]
    return ""
def one(prop, f, k, work):
    r = random.Random(k)
    hit = {}
    w = "%s/%s" % (work, os.path.basename(f))
    os.makedirs(w)
    with open(w + "/trace.ndjson", "w") as out:
        for l in open(f):
            e = json.loads(l)
            if e["e"] in ("q", "d", "sn", "fit") and r.random() < 0.04:
                kind = r.choice(KINDS)
                c = json.loads(l)
                if corrupt(c, kind, r): c["was"] = e.get("r"); hit[c["i"]] = (kind, dict(c)); del c["was"]; e = c
            out.write(json.dumps(e, separators=(",", ":")) + "\n")
    cfg, rep = w + "/t.cfg", w + "/report.json"
    open(cfg, "w").write('CONSTANT CHECK = {"%s"}\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n' % prop)
    ok, log = core.tlc("ProbTrace", cfg, w, env={"TRACE": w + "/trace.ndjson", "REPORT": rep}, timeout=600, heap="2g")
    if not ok: return prop, f, None, log[-2500:]
    fs = json.loads(open(rep).read().split("\n")[0])["faults"]
    found = {x["i"] for x in fs}
    miss = collections.Counter(); ex = {}
    for i, (kind, c) in hit.items():
        if i not in found:
            key = "%s %s %s" % (c["e"], c.get("q", c.get("m", "")), kind)
            miss[key] += 1; ex.setdefault(key, json.dumps({k: v for k, v in c.items() if k != "w"})[:300] + " OBJECT " + news(f, c.get("h")))
    return prop, f, (len(hit), miss, ex), ""
def main():
    base = "/tmp/mut/base"          # recorded by tools/mutate.py
    work = "/tmp/corrupt"
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    ids = sys.argv[1:] or sorted(plans.PLANS)
    jobs = [(p, "%s/%s-%d" % (base, p, k), k) for p in ids for k in (0, 3)]
    with cf.ThreadPoolExecutor(6) as ex:
        for p, f, r, log in ex.map(lambda j: one(*j, work), jobs):
            if r is None: print(p, f, "TLC STOPPED", log)
            else:
                print(p, os.path.basename(f), "corrupted", r[0], "missed", sum(r[1].values()), flush=True)
                for k, n in sorted(r[1].items()): print("    %-28s %4d  %s" % (k, n, r[2][k]))
    shutil.rmtree(work, ignore_errors=True)
main()

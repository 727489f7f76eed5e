#!/usr/bin/env python3
"""mutate.py [--jobs N] [--limit N] [--files a,b] [--seed S]: mutation analysis of the checks.

Makes small mechanical changes to scratch copies of /repo, keeps those that compile and pass the existing tests, runs the
quick command lists of every check on them and says which properties' judgements notice.  Results go to /tmp/mut/results.jsonl."""
import concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/run")
import core, plans, check
ROOT = "/tmp/mut"
STATELESS = ["C02", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C21"]
STATEFUL = ["C05", "C04", "C01", "C20", "C18", "C17"]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def arg(n, d): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d

# ---- mutants
SWAPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![-=<>])<(?![=<])(?= )", ["<="]), (r"(?<![-=>])>(?![=>])(?= )", [">="]), (r"==", ["!="]), (r"!=", ["=="]),
         (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
         (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"(?<=[ (\[])-(?=[a-zA-Z(])", [""]), (r"(?<=[ (])!(?=[a-zA-Z(])", [""]),
         (r"\.ln_1p\(\)", [".ln()"]), (r"\.exp_m1\(\)", [".exp()"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.floor\(\)", [".ceil()", ""]), (r"\.ceil\(\)", [".floor()"]),
         (r"\.abs\(\)", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bbreak\b", ["continue"]), (r"\bNEG_INFINITY\b", ["INFINITY"]), (r"(?<!NEG_)\bINFINITY\b", ["NEG_INFINITY"])]
NAMES = [("alpha", "beta"), ("a", "b"), ("p", "q"), ("mu", "sigma"), ("k", "theta"), ("n", "k"), ("x", "y"), ("b", "c"), ("a", "c"), ("u", "v"), ("mean", "deviation"), ("x_0", "gamma"), ("lambda", "x")]
def literal(t):
    if "." in t or "e" in t or "E" in t:
        v = float(t.replace("_", ""))
        out = ["%r" % (v * (1 + 1e-6)), "%r" % (v * 1.01)]
        if v == int(v) and abs(v) < 100: out += ["%r" % (v + 1.0), "%r" % (v - 1.0)]
        return [x for x in out if float(x) != v] if v else ["1.0"]
    v = int(t)
    return [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
def body(path):
    """The lines open to mutation: (number, text)."""
    out = []
    for i, l in enumerate(open(path).read().split("\n")):
        if l.startswith("#[cfg(test)]"): break
        s = l.strip()
        if s.startswith("//") or s.startswith("use ") or s.startswith("#[") or s.startswith("pub fn") or s.startswith("impl") or not s: continue
        if s.startswith("pub struct"): continue
        out.append((i, l))
    return out
def mutants(files):
    ms = []
    for f in files:
        rel = os.path.relpath(f, "/repo")
        table = 0
        for i, l in body(f):
            if re.fullmatch(r"\s*(-?[0-9.e_-]+,\s*)+", l):      # tables: one in ten
                table += 1
                if table % 10: continue
            code = l.split("//")[0]
            if rel.endswith("binomial.rs") and re.search(r"\* p[234]|em2|w\d \*", code) and i % 8: continue   # the Cornish-Fisher series
            def add(a, b, new, what):
                ms.append(dict(file=rel, line=i, new=l[:a] + new + l[b:], old=l, what=what))
            for pat, news in SWAPS:
                for m in re.finditer(pat, code):
                    for n in news: add(m.start(), m.end(), n, "%s -> %s" % (m.group(0), n))
            for m in re.finditer(r"(?<![\w.])\d[\d_]*(\.\d[\d_]*)?([eE][-+]?\d+)?(?![\w.]|\.\.)", code):
                try: ns = literal(m.group(0))
                except ValueError: continue
                for n in ns: add(m.start(), m.end(), n, "%s -> %s" % (m.group(0), n))
            for x, y in NAMES:
                for a, b in ((x, y), (y, x)):
                    for m in re.finditer(r"(?<=self\.)%s\b|(?<![\w.])%s\b(?!\()" % (a, a), code):
                        add(m.start(), m.end(), b, "%s -> %s" % (a, b))
            m = re.match(r"(\s*(?:\} else )?if )(.*)( \{)$", code)
            if m and "let " not in code:
                add(0, len(l), m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "never")
                add(0, len(l), m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "always")
            if re.match(r"\s+[a-z_.]+ [-+*]?= .*;$", code) or re.match(r"\s+\w+(\.\w+)*\(.*\);$", code):
                add(0, len(l), "", "deleted")
    return ms

# ---- command lists
def lists():
    out = {}
    cache = ROOT + "/exports.json"
    ex = json.load(open(cache)) if os.path.exists(cache) else {}
    for p, plan in plans.PLANS.items():
        rows = {}
        for m in plan.get("models", []):
            key = m["name"] + m["module"] + m["cfg"]("quick")
            if key not in ex:
                w = ROOT + "/model"
                shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
                ex[key] = check.run_model(m, "quick", 1, w)["rows"]
                json.dump(ex, open(cache, "w"))
            rows[m["name"]] = ex[key]
        out[p] = plan["shards"]("quick", 1, rows)
    return out
def record(d, harness, only=None):
    """Runs every command list with a harness; traces go to d."""
    os.makedirs(d, exist_ok=True)
    bad = {}
    for f in sorted(glob.glob(ROOT + "/cmds/*.cmds")):
        n = os.path.basename(f)[:-5]
        if only and n not in only: continue
        r = sh("HARNESS_HANG_MS=3000 timeout 120 %s %s %s/%s" % (harness, f, d, n))
        if r.returncode not in (0, 42) or not ("DONE" in r.stdout or "HANG" in r.stdout): bad[n] = r.returncode
    return bad

def judge(work, trace, checks):
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    cfg, rep = work + "/t.cfg", work + "/report.json"
    open(cfg, "w").write("CONSTANT CHECK = {%s}\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n" % ", ".join('"%s"' % c for c in checks))
    ok, out = core.tlc("ProbTrace", cfg, work, env={"TRACE": trace, "REPORT": rep}, timeout=400, heap="2g")
    if not ok: return "TLC", out[-1500:]
    fs = json.loads(open(rep).read().split("\n")[0])["faults"]
    return "ok", [f for f in fs if not any(re.fullmatch(m, f["c"]) for m, _ in check.known(f["p"]))]

def merged(diffs, dst):
    """One trace of the events that differ, with what they need: objects, sources, some draws for the orientation."""
    with open(dst, "w") as out:
        for j, (base, mut) in enumerate(diffs):
            off = (j + 1) * 1000000
            bl, ml = open(base).read().split("\n"), open(mut).read().split("\n")
            draws = {}
            fam = {}
            changed = 0
            for i, l in enumerate(ml):
                if not l: continue
                try: e = json.loads(l)
                except ValueError: continue
                k = e["e"]
                keep = k in ("new", "src", "cl", "nat", "st", "fit")
                if k == "new": fam[e["h"]] = e["f"]
                if i >= len(bl) or l != bl[i]:
                    if changed < 400: keep = True
                    changed += 1
                elif k == "d" and draws.get(fam.get(e["h"]), 0) < 20:
                    draws[fam.get(e["h"])] = draws.get(fam.get(e["h"]), 0) + 1; keep = True
                if not keep or k in ("sn", "td", "thr", "sync", "rel"): continue
                for key in ("h", "g", "s", "t"):
                    if key in e and isinstance(e[key], int) and not (key == "s" and k not in ("src", "nat", "d", "st")): e[key] += off
                out.write(json.dumps(e, separators=(",", ":")) + "\n")

def main():
    os.makedirs(ROOT + "/cmds", exist_ok=True)
    for p, ls in lists().items():
        for k, l in enumerate(ls): open("%s/cmds/%s-%d.cmds" % (ROOT, p, k), "w").write("\n".join(l) + "\n")
    core.build()
    t = time.time()
    print("baseline", record(ROOT + "/base", core.HARNESS), "%.1f s" % (time.time() - t), flush=True)
    sh("rm -rf /tmp/mut/repo; cp -a /repo /tmp/mut/repo")
    files = sorted(glob.glob("/repo/src/distribution/*.rs")) + ["/repo/src/sampler/mod.rs"]
    if arg("--files", ""): files = [f for f in files if os.path.basename(f)[:-3] in arg("--files", "").split(",")]
    ms = mutants(files)
    random.Random(int(arg("--seed", "1"))).shuffle(ms)
    done = set()
    res = ROOT + "/results.jsonl"
    if os.path.exists(res):
        for l in open(res):
            d = json.loads(l); done.add((d["file"], d["old"], d["new"]))
    ms = [m for m in ms if (m["file"], m["old"], m["new"]) not in done]
    print(len(ms), "mutants", flush=True)
    ms = ms[: int(arg("--limit", "100000"))]
    lock = threading.Lock()
    J = int(arg("--jobs", "4"))
    free = list(range(J))
    for j in range(J):
        w = "%s/w%d" % (ROOT, j)
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        sh("cp -a /repo %s/repo; cp -r %s/harness %s/harness; rm -rf %s/harness/target; sed -i 's#/repo#%s/repo#' %s/harness/Cargo.toml" % (w, V, w, w, w, w))
    deadline = time.time() + float(arg("--hours", "10")) * 3600
    def one(m):
        if time.time() > deadline: return
        with lock: j = free.pop()
        w = "%s/w%d" % (ROOT, j)
        try: r = run(m, w)
        except Exception as e: r = dict(state="error", note=repr(e)[:300])
        finally:
            with lock: free.append(j)
        with lock:
            with open(res, "a") as f: f.write(json.dumps(dict(m, **r)) + "\n")
            if r["state"] not in ("build", "killed"): print(m["file"].split("/")[-1], m["line"] + 1, m["what"], "=>", r["state"], r.get("by", ""), r.get("note", "")[:200], "|", m["old"].strip(), flush=True)
    def run(m, w):
        src = w + "/repo/" + m["file"]
        shutil.copy(ROOT + "/repo/" + m["file"], src)
        ls = open(src).read().split("\n")
        assert ls[m["line"]] == m["old"]
        ls[m["line"]] = m["new"]
        open(src, "w").write("\n".join(ls))
        try:
            env = dict(ENV, CARGO_TARGET_DIR=w + "/target")
            r = sh("timeout 60 cargo test --lib --no-fail-fast --offline 2>&1 | grep -E '^test |^error'", cwd=w + "/repo", env=env)
            if "error" in r.stdout and "... ok" not in r.stdout: return dict(state="build")
            if "FAILED" in r.stdout or r.stdout.count("... ok") != 147: return dict(state="killed")
            r = sh("timeout 60 cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test |^error'", cwd=w + "/repo", env=env)
            if "FAILED" in r.stdout or r.stdout.count("... ok") != 148: return dict(state="killed")
            env = dict(ENV, CARGO_TARGET_DIR=w + "/htarget")
            r = sh("cargo build --offline --quiet", cwd=w + "/harness", env=env)
            if r.returncode: return dict(state="error", note=r.stdout[-300:])
            bad = record(w + "/trace", w + "/htarget/debug/harness")
            if bad: return dict(state="caught", by="crash", note=str(bad)[:100])
            diff = [n for n in sorted(os.listdir(ROOT + "/base")) if sh("cmp -s %s/base/%s %s/trace/%s" % (ROOT, n, w, n)).returncode]
            if not diff: return dict(state="SAME")
            props = sorted({n.split("-")[0] for n in diff})
            st = [n for n in diff if n.split("-")[0] in STATELESS]
            by = set(); note = ""
            if st:
                merged([("%s/base/%s" % (ROOT, n), "%s/trace/%s" % (w, n)) for n in st], w + "/merged.ndjson")
                s, fs = judge(w + "/tlc", w + "/merged.ndjson", STATELESS)
                if s == "TLC": return dict(state="TLC", note=fs[-800:])
                own = {n.split("-")[0] for n in st}
                by = {f["p"] for f in fs if f["p"] in own}
                note = str([f["c"] for f in fs][:2])
            if not by:
                for n in [n for p in STATEFUL for n in diff if n.startswith(p)]:
                    s, fs = judge(w + "/tlc", "%s/trace/%s" % (w, n), [n.split("-")[0]])
                    if s == "TLC": return dict(state="TLC", note=n + fs[-800:])
                    if fs: by = {fs[0]["p"]}; note = str([f["c"] for f in fs][:2]); break
            return dict(state="caught" if by else "MISSED", by=" ".join(sorted(by)), note=note, diff=" ".join(props))
        finally:
            shutil.copy(ROOT + "/repo/" + m["file"], src)
            sh("touch " + src)
    with cf.ThreadPoolExecutor(J) as ex: list(ex.map(one, ms))
main()

"""Running the machinery: build, harness, trace validation, bounded models, evidence."""
import concurrent.futures as cf
import json, os, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TOOLS = "/opt/veriftools/tla"
CP = ":".join([TOOLS + "/tla2tools.jar", TOOLS + "/CommunityModules-deps.jar", BUILD + "/classes"])
HARNESS = BUILD + "/target/debug/harness"
RELEASE = BUILD + "/target/release/harness"
CORES = os.cpu_count() or 4

class Broken(Exception):
    """The machinery itself failed: no verdict."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(release=False):
    """Compiles the TLC overrides and the harness, the latter from /repo's current tree."""
    os.makedirs(BUILD + "/classes", exist_ok=True)
    srcs = [VERIF + "/java/%s.java" % n for n in ("BigNum", "Elem")]
    def stale(src):
        cls = BUILD + "/classes/" + os.path.basename(src)[:-5] + ".class"
        return not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src)
    jobs = []
    if any(stale(s) for s in srcs):
        jobs.append(["javac", "-nowarn", "-cp", TOOLS + "/tla2tools.jar", "-d", BUILD + "/classes"] + srcs)
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD + "/target", CARGO_NET_OFFLINE="true")
    jobs.append(["cargo", "build", "--offline", "--quiet"] + (["--release"] if release else []))
    with cf.ThreadPoolExecutor() as ex:
        rs = list(ex.map(lambda j: sh(j, cwd=VERIF + "/harness", env=env), jobs))
    for j, r in zip(jobs, rs):
        if r.returncode != 0:
            raise Broken("build failed: %s\n%s" % (" ".join(j), r.stdout[-4000:]))

def tlc(module, cfg, work, env=None, timeout=850, workers=1, heap="3g", extra=()):
    """Runs TLC on spec/<module>.tla; returns (ok, output)."""
    meta = os.path.join(work, "meta")
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + work, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + SPEC + ":" + work, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", cfg, os.path.join(SPEC, module + ".tla")]
    try:
        r = sh(cmd, cwd=work, env=dict(os.environ, **(env or {})), timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), 124
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, module + ".log"), "w") as f:
        f.write(out)
    return rc == 0, out

def counts(out):
    """Generated and distinct states from TLC's output."""
    import re
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

# commands that harness --explore replaces by ordinary ones
SCANS = ("scan", "pscan", "wscan", "dmany")

def shard(name, k, lines, checks, work, hang_ms=8000, timeout=840, builds=(HARNESS,)):
    """Runs one command list on the real code, in each of the builds in turn, and validates the trace."""
    w = os.path.join(work, "%s-%d" % (name, k))
    os.makedirs(w, exist_ok=True)
    cmd, trace, rep = w + "/cmds", w + "/trace.ndjson", w + "/report.json"
    with open(cmd, "w") as f:
        f.write("\n".join(lines) + "\n")
    if os.path.exists(rep):
        os.remove(rep)
    env = dict(os.environ, HARNESS_HANG_MS=str(hang_ms))
    if any(l.split(" ", 1)[0] in SCANS for l in lines):
        r = sh([HARNESS, "--explore", cmd, cmd + ".all"], env=env, timeout=timeout)
        if r.returncode == 0 and "DONE" in r.stdout:
            lines = open(cmd + ".all").read().split("\n")[:-1]
        else:                           # an abort: without the scans, which met it
            lines = [l for l in lines if l.split(" ", 1)[0] not in SCANS]
        with open(cmd, "w") as f:
            f.write("\n".join(lines) + "\n")
    for n, harness in enumerate(builds):
        part = trace if n == 0 else trace + ".part"
        r = sh([harness, cmd, part], env=env, timeout=timeout)
        if r.returncode not in (0, 42) or not ("DONE" in r.stdout or "HANG" in r.stdout):
            # an abort of the real code (stack overflow, abort) is reported with the last event
            return dict(k=k, lines=lines, crash=r.returncode, out=r.stdout[-2000:], events=0, faults=[], stats={}, work=w)
        if n:
            with open(trace, "a") as f, open(part) as g:
                shutil.copyfileobj(g, f)
    cfg = w + "/trace.cfg"
    with open(cfg, "w") as f:
        f.write("CONSTANT CHECK = {%s}\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n"
                % ", ".join('"%s"' % c for c in checks))
    ok, out = tlc("ProbTrace", cfg, w, env={"TRACE": trace, "REPORT": rep}, timeout=timeout)
    if not ok or not os.path.exists(rep):
        raise Broken("trace validation failed in %s\n%s" % (w, out[-3000:]))
    d = json.loads(open(rep).read().split("\n")[0])
    st = d["stats"] if isinstance(d["stats"], dict) else {}
    g, s = counts(out)
    return dict(k=k, lines=lines, crash=None, hang="HANG" in r.stdout, events=d["events"], faults=d["faults"], stats=st,
                generated=g, distinct=s, work=w)

def unhex(t):
    return struct.unpack(">d", bytes.fromhex(t))[0]

def pretty(line):
    return " ".join(repr(unhex(t)) if len(t) == 16 and all(c in "0123456789abcdef" for c in t) else t for t in line.split())

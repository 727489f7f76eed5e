#!/usr/bin/env python3
"""seeded.py [--copy N] [--all-checks] [--seed S] [ID...]: runs the check of each planted bug's property against it.

Applies each to /repo and undoes it; with --copy N, applies it to scratch copies of /repo and /verif instead, N at a time."""
import concurrent.futures as cf, json, os, queue, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=V): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
argv, every, seed, copies = sys.argv[1:], False, "1", 0
if "--all-checks" in argv: argv.remove("--all-checks"); every = True
for n in ("--copy", "--seed"):
    if n in argv:
        i = argv.index(n); v = argv[i + 1]; del argv[i:i + 2]
        if n == "--seed": seed = v
        else: copies = int(v)
ids = argv or sorted(os.listdir(V + "/seeded"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
def one(i, repo, verif):
    p = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (repo, V, i))
    if r.returncode: print(i, "DOES NOT APPLY", r.stdout, flush=True); return
    try:
        for q in props if every else [p]:
            t = time.time()
            r = sh("VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 run/check.py %s quick" % (seed, q), verif)
            hit = r.returncode == 1 and ("VIOLATION property=%s " % q) in r.stdout
            if hit or q == p or r.returncode not in (0, 1):
                cls = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ")][:2]
                print("%-32s %s %s rc=%d %.0fs %s" % (i, q, "CAUGHT" if hit else "MISSED", r.returncode, time.time() - t, cls if hit else r.stdout[-300:] if r.returncode not in (0, 1) else ""), flush=True)
    finally:
        sh("git -C %s checkout -q -- ." % repo)
if not copies:
    for i in ids: one(i, "/repo", V)
else:
    slots = queue.Queue()
    for k in range(copies):
        d = "/tmp/seeded-copies/%d" % k
        sh("rm -rf {0}; mkdir -p {0} && cp -a /repo {0}/repo && cp -a {1} {0}/verif && rm -rf {0}/verif/build/work {0}/verif/build/states && sed -i 's#\"/repo\"#\"{0}/repo\"#' {0}/verif/harness/Cargo.toml && git -C {0}/repo checkout -q -- .".format(d, V))
        slots.put(d)
    def job(i):
        d = slots.get()
        try: one(i, d + "/repo", d + "/verif")
        finally: slots.put(d)
    with cf.ThreadPoolExecutor(copies) as ex: list(ex.map(job, ids))
    sh("rm -rf /tmp/seeded-copies")

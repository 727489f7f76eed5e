"""What each check runs: command lists for the real code, and bounded models of the specification."""
import math, random
from gen import *

def shards(n, seed, fn):
    """n command lists, fn(g, k) filling each."""
    out = []
    for k in range(n):
        g = Gen(seed * 1000 + k)
        fn(g, k)
        out.append(g.lines)
    return out

def scale(tier, quick, thorough):
    return quick if tier == "quick" else thorough

NS = {"quick": 8, "thorough": 32}
FAST = [f for f in FAMS if f not in ("beta", "pert", "binomial", "gamma")]

def sweep(n, fams, fn, canon=CANON):
    """n command lists over the canonical objects, dealt in turn."""
    gs = [Gen(k) for k in range(n)]
    i = 0
    for f in fams:
        for p in canon[f]:
            g = gs[i % n]; i += 1
            fn(g, f, p, g.new(f, *p))
    return [g.lines for g in gs if g.lines]
def asking(op, dense):
    def fn(g, f, p, h):
        for x in sweep_points(f, p, dense): g.q(h, op, x)
    return fn
def wide(fams, fn, seed, n=4):
    """n command lists over the objects of WIDE, from both constructors."""
    gs = [Gen(seed * 77 + k) for k in range(n)]
    i = 0
    for f in fams:
        for p in WIDE[f]:
            for c in ("new", "wf") if f in ("bernoulli", "binomial") else ("new",):
                g = gs[i % n]; i += 1
                fn(g, f, p if c == "new" else p[:-1] + (1 - p[-1],), g.new(f, *p, ctor=c))
    return [g.lines for g in gs if g.lines]

NARROW = [(0.0, 1e-9), (1.0, 3e-8), (-3.0, 1e-30), (0.5, 1e-100), (20.0, 1e-7), (0.0, 2.0 ** -26), (0.0, 2.0 ** -27)]
def narrow(tier, *ops):
    """The moments of lognormal objects hardly wider than a point."""
    def fn(g, k):
        for p in NARROW[k :: NS[tier]] + [(g.r.uniform(-5, 5), g.logu(1e-140, 1e-2)) for _ in range(scale(tier, 8, 60))]:
            h = g.new("lognormal", *p)
            for o in ops: g.q(h, o)
    return fn
def objects(g, fams, n):
    for f in fams:
        for _ in range(n):
            p = g.params(f)
            ctor = "new"
            if f in ("bernoulli", "binomial") and g.r.random() < 0.3:
                ctor = "wf"
            yield f, p, g.new(f, *p, ctor=ctor)

def exact(t):
    """The f64 of an exported number."""
    from fractions import Fraction
    s, e, limbs = t
    if s in (9, 2, -2): return {9: math.nan, 2: math.inf, -2: -math.inf}[s]
    v = sum(l << (15 * i) for i, l in enumerate(limbs))
    return float(s * (Fraction(v) * Fraction(32768) ** e))
def small(g, tier, k, ex, fams):
    """This shard's part of the objects of MCDiscrete: (handle, family, parameters, outcomes, unit)."""
    for i, r in enumerate(ex["discrete"]):
        if r["f"] not in fams or i % NS[tier] != k: continue
        f, w, m = r["f"], r["w"], r["m"]
        p = (w[0], w[1] / m) if f == "binomial" else tuple(x / m for x in w)
        n = {"binomial": w[0], "bernoulli": 1, "categorical": len(w) - 1}[f]
        if f == "categorical" or i % 3: h = g.new(f, *p)
        else: h = g.new(f, *(p[:-1] + (1 - p[-1],)), ctor="wf")
        yield h, f, p, n, m

# ---------------------------------------------------------------- C01 .. C04
def c01(tier, seed, ex):
    n, m = scale(tier, 5, 12), scale(tier, 26, 40)
    def fn(g, k):
        for f, p, h in objects(g, FAMS, n):
            pts = g.points(f, p, m, infs=True)
            pts += [math.inf, -math.inf]
            for x in list(pts):
                if g.r.random() < 0.25 and math.isfinite(x): pts.append(nxt(x))
            if f in DISC:
                for x in list(pts):
                    if math.isfinite(x) and abs(x) < 1e9 and g.r.random() < 0.4: pts += [math.floor(x) + 0.5, prv(math.floor(x) + 1.0)]
            g.r.shuffle(pts)
            for x in pts: g.q(h, "cdf", x)
        for h, f, p, top, u in small(g, tier, k, ex, DISC):
            pts = [i / 2 for i in range(-1, 2 * top + 3)]
            g.r.shuffle(pts)
            for x in pts: g.q(h, "cdf", x)
    return shards(NS[tier], seed, fn) + sweep(8, FAMS, asking("cdf", True))

def c02(tier, seed, ex):
    n, m = scale(tier, 14, 40), scale(tier, 14, 20)
    def fn(g, k):
        for f, p, h in objects(g, FAMS, n):
            for x in g.points(f, p, m): g.q(h, "cdf", x)
        for n_, q in BIG:
            h = g.new("binomial", n_, q)
            for x in (0, 1, 2, 5, 0.5, -1, n_, n_ - 1, n_ + 1.0, n_ * q): g.q(h, "cdf", x)
    return shards(NS[tier], seed, fn) + sweep(8, FAMS, asking("cdf", False))
# binomials beyond 32-bit trial counts and tiny probabilities
BIG = [(2147483648, 1e-10), (2147483647, 1e-9), (4294967296, 1e-10), (4294967299, 3e-10), (3000000000, 1e-9), (100000000, 5e-8), (1000000000, 1e-9), (10, 1e-300)]

# more trials than floating point can count
MAXN = 2 ** 64 - 1
HUGE = [(MAXN, 0.5), (MAXN, 1e-18), (MAXN, 2.0 ** -64), (MAXN, 1 - 2.0 ** -53), (MAXN - 1, 0.25), (2 ** 53, 0.5), (2 ** 53 + 1, 1e-15), (2 ** 62 + 12345, 1 - 1e-15), (10 ** 17, 3e-17), (MAXN, 1e-300)]
# few trials and tiny probabilities, also of failure
TINY = [(N, q) for N in (1, 2, 3, 5, 8) for q in (1e-20, 2.0 ** -60, 1e-17, 2.0 ** -54, 1e-15, 1e-12, 1e-8, 1e-50)]

def c03(tier, seed, ex):
    n, m = scale(tier, 16, 40), scale(tier, 16, 24)
    def fn(g, k):
        for f, p, h in objects(g, CONT, n):
            for x in g.points(f, p, m): g.q(h, "pdf", x)
            c, s, lo, hi = g.box(f, p)
            for e in (lo, hi):
                if math.isfinite(e):
                    for x in (e, nxt(e) if e else 1e-250, prv(e) if e else -1e-250): g.q(h, "pdf", x)
    return shards(NS[tier], seed, fn) + sweep(8, CONT, asking("pdf", False))

def c04(tier, seed, ex):
    n = scale(tier, 14, 40)
    def fn(g, k):
        for f, p, h in objects(g, DISC, n):
            if f == "bernoulli":
                for x in (0, 1, 2, 255): g.q(h, "pmf", x)
                for x in (0, 1): g.q(h, "cdf", x)
            elif f == "categorical":
                for x in range(len(p)): g.q(h, "pmf", x)
                for x in range(len(p)): g.q(h, "cdf", x)
            else:
                N, P = p
                if N <= scale(tier, 60, 150):
                    for x in range(N + 1): g.q(h, "pmf", x)
                    for x in g.r.sample(range(N + 1), min(N + 1, 6)) + [N]: g.q(h, "cdf", x)
                    for x in (N + 1, N + 2, 2 * N + 5, 10 ** 9): g.q(h, "pmf", x)
                else:
                    S = {0, 1, 2, N, N - 1, N + 1, N + 7, int(N * P), 10, 11, 12, 15, 16, 17, N - 10, N - 11, N - 15, N - 16, N - 17}
                    sd = math.sqrt(N * P * (1 - P))
                    for _ in range(scale(tier, 10, 20)): S.add(int(N * P + sd * g.r.gauss(0, 3)))
                    # far out, down to where the mass vanishes
                    for _ in range(scale(tier, 6, 20)): S.add(int(N * P + sd * g.r.choice([-1, 1]) * g.r.uniform(3, 40)))
                    for x in sorted(S):
                        if 0 <= x <= N + 7: g.q(h, "pmf", x)
        for N, q in BIG + [(int(g.logu(1e4, 1e9)), g.prob()) for _ in range(scale(tier, 4, 12))]:
            h = g.new("binomial", N, q)
            sd = math.sqrt(N * q * (1 - q))
            for x in (0, 1, 2, 3, 11, 15, 16, N, N - 1, N + 1, int(N * q), *(int(N * q + sd * z) for z in (-36, -30, -20, -9, -4, 2, 6, 14, 25, 33, 38))):
                if 0 <= x <= N + 1: g.q(h, "pmf", x)
        for N, q in HUGE[k % 4 :: 4]:
            for ctor in ("new", "wf"):
                h, P = g.new("binomial", N, q, ctor=ctor), q if ctor == "new" else 1 - q
                sd = math.sqrt(N * P * (1 - P))
                for x in {0, 1, 2, 3, 10, 16, 1000, 2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, N, *(N - d for d in (1, 2, 3, 10, 16, 1000, 1025, 3000)), *(int(N * P + sd * z) for z in (0, 1, -1, 3, -3, 8, -20)), int(N * P) + g.r.randint(1, 999)}:
                    if 0 <= x <= MAXN: g.q(h, "pmf", x)
        for N, q in TINY[k % 4 :: 4]:
            h = g.new("binomial", N, q, ctor="wf")
            for x in range(N + 2): g.q(h, "pmf", x)
            h = g.new("binomial", N, q)
            for x in range(N + 2): g.q(h, "pmf", x)
        for h, f, p, top, m in small(g, tier, k, ex, DISC):
            for x in range(top + (1 if f == "categorical" else 3)): g.q(h, "pmf", x)
            for x in range(top + 1): g.q(h, "cdf", x)
        for N in (11, 12, 15, 16, 17, 22, 27):
            h = g.new("binomial", N, g.prob())
            for x in range(N + 2): g.q(h, "pmf", x)
    return shards(NS[tier], seed, fn)

# ---------------------------------------------------------------- quantiles
def reachable(f, p):
    return f not in ("beta", "pert") or 1e-10 <= p <= 1 - 1e-10
def c05(tier, seed, ex):
    n, m = scale(tier, 12, 30), scale(tier, 18, 26)
    fams = [f for f in CONT if f != "gamma"]
    def fn(g, k):
        for f, p, h in objects(g, fams, n):
            for x in [0.0, 1.0] + g.ps(m):
                if x in (0.0, 1.0) or reachable(f, x): g.q(h, "inv", x)
    def sw(g, f, p, h):
        for x in sweep_ps():
            if x in (0.0, 1.0) or reachable(f, x): g.q(h, "inv", x)
    # the recorded finding: values far off, and a hang, which comes last
    bad = Gen(seed)
    for p, x in (((5.0, 7e6), 0.9), ((0.1, 300000.0), 0.3)):
        h = bad.new("beta", *p, 0.0, 1.0); bad.unsafe.clear(); bad.q(h, "inv", x)
    return shards(NS[tier], seed, fn) + sweep(8, fams, sw) + [bad.lines]

def c06(tier, seed, ex):
    n, m = scale(tier, 60, 200), scale(tier, 12, 20)
    def fn(g, k):
        for f, p, h in objects(g, ["bernoulli", "categorical"], n):
            ps = [0.0, 1.0] + g.ps(m)
            if f == "categorical":
                t = 0.0
                for w in p:
                    t += w
                    if 0 < t < 1 and len(ps) < 60: ps += [t, nxt(t), prv(t)]
            else:
                ps += [min(1.0, 1 - p[0]), min(1.0, nxt(1 - p[0])), prv(1 - p[0]), p[0], nxt(p[0]), prv(p[0]), p[0] / 2, min(1.0, 2 * p[0])]
            for x in ps:
                if 0 <= x <= 1: g.q(h, "inv", x)
        for h, f, p, top, u in small(g, tier, k, ex, ("bernoulli", "categorical")):
            for i in range(4 * u + 1): g.q(h, "inv", i / (4 * u))
            for i in g.r.sample(range(1, u), 2): g.q(h, "inv", nxt(i / u)); g.q(h, "inv", prv(i / u))
    return shards(NS[tier], seed, fn)

def c07(tier, seed, ex):
    n, m = scale(tier, 60, 200), scale(tier, 14, 24)
    def fn(g, k):
        for _ in range(n):
            N = g.trials(scale(tier, 5000, 100000))
            if g.r.random() < 0.15: N = g.r.randint(900, 999)
            if g.r.random() < 0.1: N = int(g.logu(1000, 1e6))
            P = g.prob()
            if g.r.random() < 0.15 and N: P = min(0.9, g.logu(1e-3, 79) / N)
            h = g.new("binomial", N, P, ctor="wf" if g.r.random() < 0.4 else "new")
            for x in [0.0, 1.0] + g.ps(m): g.q(h, "inv", x)
        for h, f, p, top, u in small(g, tier, k, ex, ("binomial",)):
            for i in range(4 * u + 1): g.q(h, "inv", i / (4 * u))
        for N, P, c in ((2000, 1e-20, "wf"), (2000, 1e-20, "new"), (999, .55, "new"), (999, .45, "new"), (998, .7, "wf"), (2147483648, 1e-9, "new"), (5000000000, 1e-9, "new"), (1000, 0.5, "new")):
            h = g.new("binomial", N, P, ctor=c)
            for x in (0.0, 5e-4, 0.3, 0.5, 0.9995, 1e-9, 1e-300, 1 - 2 ** -53, 1.0): g.q(h, "inv", x)
    return shards(NS[tier], seed, fn)

# ---------------------------------------------------------------- moments
def unary(ops, fams, n):
    def plan(tier, seed, ex):
        c = scale(tier, n, n * 4)
        def fn(g, k):
            for f, p, h in objects(g, fams, c):
                for op in ops:
                    if op == "ent" and f == "binomial" and p[0] > scale(tier, 3000, 50000): continue
                    g.q(h, op)
            for h, f, p, top, m in small(g, tier, k, ex, [f for f in DISC if f in fams]):
                for op in ops: g.q(h, op)
        return shards(NS[tier], seed, fn)
    return plan
MOM = [f for f in FAMS if f != "cauchy"]
MED = [f for f in FAMS if f != "gamma"]
MODES = [f for f in FAMS if f != "uniform"]

def c10(tier, seed, ex):
    base = unary(["ent"], FAMS, 40)(tier, seed, ex)
    g = Gen(seed + 5)
    for N, P in ((1100, .5), (2000, .5), (5000, .01), (10001, .01), (20000, 1e-3), (10001, .4), (30000, .5), (200000, .3), (1000, 1e-4), (1200, .001), (1, .5), (0, .3)):
        g.q(g.new("binomial", N, P), "ent")
    for p in ((1.0,), (0.0, 1.0), (0.5, 0.0, 0.5), (0.25, 0.25, 0.0, 0.5), (1.0, 0.0)):
        g.q(g.new("categorical", *p), "ent")
    return base + [g.lines]

def c11(tier, seed, ex):
    base = unary(["med"], MED, 60)(tier, seed, ex)
    g = Gen(seed + 7)
    for p in ((.5, .5), (.25, .25, .25, .25), (.5, 0.0, .5), (.25, .25, 0.0, .5), (1 / 6, 1 / 3, 1 / 3, 1 / 6), (0.0, .5, .5), (1.0,), (.125,) * 8):
        g.q(g.new("categorical", *p), "med")
    for N in range(0, 40):
        for P in (.5, .3, .25, .7, .31, .69, .05, g.r.random()): g.q(g.new("binomial", N, P), "med")
    bad = Gen(seed)                     # the recorded finding: a hang
    h = bad.new("beta", 0.5, 1e6, 0.0, 1.0); bad.unsafe.clear(); bad.q(h, "med")
    return base + [g.lines, bad.lines]

def c12(tier, seed, ex):
    base = unary(["modes"], MODES, 80)(tier, seed, ex)
    g = Gen(seed + 9)
    for N in list(range(0, 34)) + [63, 64, 127, 999, 1023]:
        for a in range(1, 8): g.q(g.new("binomial", N, a / 8), "modes")
        for a in (.1, .2, .3, .7, .9, 1 / 3): g.q(g.new("binomial", N, a), "modes")
    for N in [2 ** j + d for j in range(20, 50, 3) for d in (-1, 0, 1)] + [MAXN] * 3 + [MAXN - 1, 2 ** 53, 2 ** 63]:
        for a in (.5, .25, g.r.random(), 1.0 / N, 3.0 / N, 1 - 1e-12): g.q(g.new("binomial", N, a), "modes"); g.q(g.new("binomial", N, a, ctor="wf"), "modes")
    for e in [2.0 ** -k for k in range(20, 55, 2)]:
        for p in ((.5 - e, .5, e), (.5, .5 - e, e), (.25, .25 - e, .25, .25 + e), (e, .5, .5 - e), (1 - e, e), (e, 1 - e)): g.q(g.new("categorical", *p), "modes")
        for p in (.5 + e, .5 - e): g.q(g.new("bernoulli", p), "modes")
    for i in range(1, 12):
        for a, b in ((i, 1), (i, 2), (i, 3), (2 ** i, 5 ** i), (3, 2 ** (3 * i))):
            e = g.r.choice([2.0 ** -52, 2.0 ** -52, 2.0 ** -40, 2.0 ** -30, 2.0 ** -46])
            g.q(g.new("beta", 1 + a * e, 1 + b * e, 0.0, 1.0), "modes")
    for a in (.5, 1.0, nxt(1.0), prv(1.0), 2.0, 3.5):
        for b in (.5, 1.0, nxt(1.0), prv(1.0), 2.0, 3.5):
            g.q(g.new("beta", a, b, -1.0, 3.0), "modes"); g.q(g.new("beta", a, b, 0.0, 1.0), "modes")
        g.q(g.new("gamma", a, 2.0), "modes")
    return base + [g.lines]

# ---------------------------------------------------------------- samplers
ONE = ["bernoulli", "binomial", "categorical", "exponential", "laplace", "logistic", "triangular", "uniform"]
FULL = 0xFFFFFFFFFFFFFFFF
def word(u):
    return min(FULL, max(0, int(u * 18446744073709551616.0))) if u < 1 else FULL
EDGE_WORDS = [0, 1, FULL, FULL - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 11, 1 << 40, FULL - (1 << 12)]

def c13(tier, seed, ex):
    n, m = scale(tier, 16, 40), scale(tier, 14, 24)
    def fn(g, k):
        for f, p, h in objects(g, ONE, n):
            ws = g.r.sample(EDGE_WORDS, 4) + [word(x) for x in g.ps(6) if x < 1]
            if f == "categorical":
                t = 0.0
                for w in p[:12]:
                    t += w
                    ws += [word(t), max(0, word(t) - 4096), min(FULL, word(t) + 4096)]
            if f == "bernoulli": ws += [word(p[0]), word(1 - p[0])]
            s = g.src(g.s + 1, g.r.getrandbits(40), ws)
            g.emit("d", h, s, len(ws) + m)
        for h, f, p, top, u in small(g, tier, k, ex, DISC):
            ws = [word(i / (4 * u)) for i in range(1, 4 * u) if i % 4]
            s = g.src(g.s + 1, g.r.getrandbits(40), ws)
            g.emit("d", h, s, len(ws))
        # many trials: the draws against the object's own quantiles
        for _ in range(scale(tier, 12, 60)):
            N, P = int(g.logu(1e12, 2.0 ** 63)), g.r.choice([0.5, 0.25, g.r.uniform(0.1, 0.9)])
            h = g.new("binomial", N, P, ctor=g.r.choice(["new", "wf"]))
            ws = [g.r.getrandbits(53) << 11 for _ in range(8)] + [g.r.getrandbits(g.r.randint(20, 53)) << 11, (1 << 63) + (1 << 39) - (1 << 30)]
            for w in ws:
                for x in (w / 2.0 ** 64, 1 - w / 2.0 ** 64): g.q(h, "inv", x)
            g.emit("d", h, g.src(g.s + 1, g.r.getrandbits(40), ws), len(ws))
    return shards(NS[tier], seed, fn)

def c14(tier, seed, ex):
    n, m = scale(tier, 12, 40), scale(tier, 60, 120)
    def fn(g, k):
        for f, p, h in objects(g, ["gaussian", "lognormal", "cauchy"], n):
            s = g.src(g.s + 1, g.r.getrandbits(40))
            g.emit("d", h, s, m)
        rows = ex.get("ziggurat", [])
        hs = [(f, g.new(f, *g.params(f))) for f in ("gaussian", "gaussian", "lognormal", "cauchy")] + [("gaussian", g.new("gaussian", 0.0, 1.0))] * 2
        for i, r in enumerate(rows):
            if i % NS[tier] != k: continue
            f, h = hs[(i // NS[tier]) % len(hs)]
            ws = [to_word(x) for x in r["w"]]
            ws[0] |= g.r.getrandbits(32) << 32
            if f == "cauchy" and g.r.random() < 0.5: ws = [easy(g)] + ws
            s = g.src(g.s + 1, g.r.getrandbits(40), ws)
            g.emit("d", h, s, 1)
    return shards(NS[tier], seed, fn)

def easy(g):
    """A word that yields a normal at once: an inner abscissa of a middle layer."""
    return (g.r.getrandbits(32) << 32) | (g.r.randrange(1, 12000000) << 8) | g.r.randrange(0, 2) << 7 | g.r.randrange(20, 120)
def to_word(t):
    """The 64-bit word of an exact number <<s, e, limbs>>."""
    s, e, limbs = t
    v = sum(l << (15 * i) for i, l in enumerate(limbs))
    v = v << (15 * e) if e >= 0 else v >> (-15 * e)
    return min(FULL, v)

def spread(rows, key, n, seed):
    """About n of the rows, as evenly over the keys as they allow."""
    r = random.Random(seed)
    by = {}
    for x in rows: by.setdefault(str(key(x)), []).append(x)
    for v in by.values(): r.shuffle(v)
    out, i = [], 0
    while len(out) < n and any(len(v) > i for v in by.values()):
        out += [v[i] for v in by.values() if len(v) > i]; i += 1
    return out
def c15(tier, seed, ex):
    n, m = scale(tier, 22, 60), scale(tier, 36, 80)
    def fn(g, k):
        for f, p, h in objects(g, ["gamma", "beta", "pert"], n):
            s = g.src(g.s + 1, g.r.getrandbits(40))
            g.emit("d", h, s, m)
        rows = ex["gamma"] + spread(ex["gamma1"], lambda r: (r["k"], r["path"]), scale(tier, 800, 4000), seed)
        for i, r in enumerate(rows):
            if i % NS[tier] != k: continue
            ws = [to_word(x) for x in r["w"]]
            s = g.src(g.s + 1, g.r.getrandbits(40), ws)
            kk = r["k"][0] / r["k"][1]
            h = g.new("gamma", kk, g.scale())
            g.emit("d", h, s, 1)
            be = g.shape()
            s = g.src(g.s + 1, g.r.getrandbits(40), ws)
            h = g.new("beta", kk, be, 0.0, 1.0) if g.r.random() < .5 else g.new("beta", kk, be, -1.0, 2.0)
            g.emit("d", h, s, 1)
    return shards(NS[tier], seed, fn)

def c16(tier, seed, ex):
    n, m = scale(tier, 24, 60), scale(tier, 40, 100)
    def fn(g, k):
        for f, p, h in objects(g, FAMS, n):
            if f == "beta" and g.r.random() < 0.3:
                p = (g.logu(1e-5, 0.1), g.logu(1e-5, 0.1), p[2], p[3]); h = g.new("beta", *p)
            if f == "gamma" and g.r.random() < 0.3:
                h = g.new("gamma", g.logu(1e-5, 0.1), 1.0)
            ws = [g.r.choice(EDGE_WORDS) if g.r.random() < 0.6 else g.r.getrandbits(64) for _ in range(12)]
            s = g.src(g.s + 1, g.r.getrandbits(40), ws)
            g.emit("d", h, s, m)
        # the words that steer the samplers through every path
        rows = [r["w"] for r in ex["ziggurat"]] + [r["w"] for r in ex["gamma"]]
        hs = [g.new(f, *g.params(f)) for f in ("gaussian", "lognormal", "cauchy", "gamma", "beta", "pert", "gamma", "beta")]
        for i, w in enumerate(rows):
            if i % NS[tier] != k: continue
            s = g.src(g.s + 1, g.r.getrandbits(40), [to_word(x) for x in w])
            g.emit("d", hs[(i // NS[tier]) % len(hs)], s, 2)
    return shards(NS[tier], seed, fn)

# ---------------------------------------------------------------- streams, purity
MODESN = ["next", "take", "nth", "skip", "step", "zip", "peek", "find", "fold", "hint", "all", "any", "position", "loop", "try", "while", "scan",
          "until", "filter", "last", "count", "otake", "orest", "onth", "ozip", "oskip", "ostep"]
def consumed(mode, k):
    """As Consumed of spec/Prob.tla: how many direct draws to make first."""
    if mode in ("next", "take", "fold", "last", "count", "otake", "orest", "bulk", "bulkloop"): return k
    if mode in ("step", "filter", "ostep"): return 0 if k == 0 else 2 * k - 1
    return {"peek": 1, "hint": 0, "oskip": k + 2}.get(mode, k + 1)
def schedule(g, objs, tid, seed, acts):
    """acts: ("d", h) | ("s", stream, h) | ("r", stream, mode, k); first as direct draws, then as is."""
    a = g.src(tid, seed)
    who = {}
    for x in acts:
        if x[0] == "d": g.emit("d", objs[x[1]], a, 1)
        elif x[0] == "s": who[x[1]] = x[2]
        elif consumed(x[2], x[3]): g.emit("d" if x[3] <= 1000 else "dk", objs[who[x[1]]], a, consumed(x[2], x[3]))
    b = g.src(tid, seed)
    ts = {}
    for x in acts:
        if x[0] == "d": g.emit("d", objs[x[1]], b, 1)
        elif x[0] == "s":
            g.t += 1; ts[x[1]] = g.t
            g.emit("st", g.t, objs[x[2]], b)
        else: g.emit("sn", ts[x[1]], x[2], x[3])
def c17(tier, seed, ex):
    n = scale(tier, 40, 150)
    def fn(g, k):
        tid = 0
        for f in FAMS:
            p = g.params(f)
            h = g.new(f, *p)
            for j in range(2):
                tid += 1
                acts = [("s", 0, 0)]
                ms = MODESN[:]; g.r.shuffle(ms)
                for m in ms: acts.append(("r", 0, m, g.r.choice([0, 1, 2, 3, 5])))
                acts.append(("r", 0, "take", scale(tier, 30, 300)))
                schedule(g, [h], tid, g.r.getrandbits(40), acts)
        # requests for very many elements at once
        for f in FAMS[k % 8 :: 8]:
            tid += 1
            p = g.params(f)
            while f == "binomial" and p[0] > 500: p = g.params(f)
            h = g.new(f, *p)
            acts = [("s", 0, 0)]
            for m in ("nth", "skip", "last", "count", "bulk", "bulkloop", "find", "until"):
                acts.append(("r", 0, m, g.r.choice([65535, 65536, 65537, 131072, 70000, 99991]) + g.r.choice([0, 0, 1])))
                acts.append(("r", 0, g.r.choice(MODESN), g.r.choice([0, 1, 2, 3])))
            schedule(g, [h], tid, g.r.getrandbits(40), acts)
        for _ in range(n):
            tid += 1
            hs = [g.new(f, *g.params(f)) for f in (g.r.choice(FAMS), g.r.choice(FAMS), g.r.choice(FAMS))]
            acts, opened = [], []
            for _ in range(g.r.randint(4, 12)):
                c = g.r.random()
                if c < .2 or not opened:
                    acts.append(("s", len(opened), g.r.randrange(3))); opened.append(1)
                elif c < .4: acts.append(("d", g.r.randrange(3)))
                else: acts.append(("r", g.r.randrange(len(opened)), g.r.choice(MODESN), g.r.choice([0, 1, 1, 2, 3, 4])))
            schedule(g, hs, tid, g.r.getrandbits(40), acts)
        rows = ex["stream"] + ex["adaptors"]
        for i, r in enumerate(rows):
            if i % NS[tier] != k: continue
            tid += 1
            fs = [g.r.choice(FAMS), g.r.choice(FAMS)]
            hs = [g.new(f, *g.params(f)) for f in fs]
            acts = []
            for a in r["s"]:
                if a[0] == "d": acts.append(("d", a[1] - 1))
                elif a[0] == "s": acts.append(("s", a[1], a[2] - 1))
                else: acts.append(("r", a[1], a[2], a[3]))
            schedule(g, hs, tid, g.r.getrandbits(40), acts)
    return shards(NS[tier], seed, fn)

def ops_for(f):
    o = ["cdf", "ent", "get"]
    if f in CONT: o.append("pdf")
    else: o.append("pmf")
    if f != "gamma": o += ["inv", "med"]
    if f != "cauchy": o += ["mean", "var", "sd", "skew", "kurt"]
    if f != "uniform": o.append("modes")
    return o
def asks(g, f, p, m=3):
    qs = []
    for op in ops_for(f):
        if op in ("cdf", "pdf"): qs += [(op, x) for x in g.points(f, p, m)]
        elif op == "pmf": qs += [(op, k) for k in range(min(3, len(p)) if f == "categorical" else 3)]
        elif op == "inv": qs += [(op, x) for x in g.ps(m) if reachable(f, x)]
        elif op == "ent" and f == "binomial" and p[0] > 5000: continue
        else: qs.append((op, None))
    return qs
def near_twin(g, f, p):
    """An object whose parameters differ in the last bits of one of them."""
    i = g.r.choice([j for j in range(len(p)) if not (f == "binomial" and j == 0)])
    x = p[i]
    y = g.r.choice([nxt(x), prv(x), x * (1 + 2.0 ** -30), x * (1 - 2.0 ** -30), x * (1 + 2.0 ** -44), x * (1 - 1e-13)])
    q = p[:i] + (y,) + p[i + 1:]
    if y == x or f == "categorical" and not (0 <= y <= 1 and abs(y - x) < 1e-13): return None
    if f in ("bernoulli", "binomial") and not 0 < y < 1: return None
    if f in ("pert",) and not q[0] < q[1] < q[2] or f == "triangular" and not (q[0] < q[1] and q[0] <= q[2] <= q[1]): return None
    if f in ("uniform",) and not q[0] < q[1] or f == "beta" and not q[2] < q[3]: return None
    return g.new(f, *q)
def c18(tier, seed, ex):
    n = scale(tier, 5, 15)
    def fn(g, k):
        tid = 0
        for f in FAMS:
            for _ in range(n):
                p = g.params(f)
                # made right after a near twin, and after another object of the family
                if not near_twin(g, f, p): near_twin(g, f, g.params(f))
                h = g.new(f, *p)
                po = g.params(f); ho = g.new(f, *po)
                h2 = g.new(f, *p)
                g.h += 1; h3 = g.h; g.emit("cl", h, h3)
                hn = near_twin(g, f, p)
                qs, qo = asks(g, f, p), asks(g, f, po)
                # the other object is queried in between, also at the same arguments
                qo += [q for q in qs if q[0] in ("cdf", "pdf") or q[0] == "inv" and reachable(f, q[1])]
                tid += 1; sd = g.r.getrandbits(40)
                for rnd in range(3):
                    x = [h, h2, h3][rnd]
                    batch = [(x, q) for q in qs] + [(ho, q) for q in g.r.sample(qo, min(6, len(qo)))]
                    if hn: batch += [(hn, q) for q in g.r.sample(qs, min(6, len(qs)))]
                    if rnd == 1: batch += [(h, q) for q in qs]
                    g.r.shuffle(batch)
                    s = g.src(tid, sd)
                    left = 8
                    for y, q in batch:
                        g.q(y, *q)
                        if left and g.r.random() < 0.4: g.emit("d", x, s, 1); left -= 1
                    if left: g.emit("d", x, s, left)
                # the crate's own source
                for _ in range(2):
                    g.s += 1; g.emit("nat", g.s, 500000 + tid, sd); g.emit("d", h, g.s, 4)
        # up, down and at random: three objects of the same parameters
        some = [(f, g.params(f)) for f in FAMS] + [(f, g.r.choice(WIDE[f])) for f in FAMS if f != "binomial"]
        for _ in range(2):
            m = int(g.logu(1000, 20000))
            some += [("binomial", (m, g.logu(1, 70) / m)), ("binomial", (g.r.randint(1, 999), g.r.random())), ("binomial", (m, g.r.uniform(0.1, 0.9)))]
        for f, p in some:
            hs = [g.new(f, *p) for _ in range(3)]
            for op in ("cdf", "inv"):
                if op not in ops_for(f): continue
                xs = g.points(f, p, 16) if op == "cdf" else [i / 40 for i in range(1, 40)] + [x for x in g.ps(10) if reachable(f, x)]
                xs = sorted(set(xs))
                for h, ys in zip(hs, (xs, xs[::-1], g.r.sample(xs, len(xs)))):
                    for x in ys: g.q(h, op, x)
        hs = []
        for f in FAMS:
            p = g.params(f)
            while f == "binomial" and p[0] > 500 or f == "categorical" and len(p) < 2: p = g.params(f)
            hs.append(g.new(f, *p))
        g.emit("thr", 6, *hs)
        g.emit("thr", 4, *hs[::-1][:5])
        # half a million draws, and the same again from the same words
        for f in FAMS[k % 8 :: 8]:
            p = g.params(f)
            while f == "binomial" and p[0] > 500: p = g.params(f)
            h = g.new(f, *p); tid += 1; sd = g.r.getrandbits(40)
            for _ in range(2): g.emit("dk", h, g.src(tid, sd), scale(tier, 2 ** 19, 2 ** 21))
        # different objects of one family, asked the same over and over from several threads
        for f in FAMS[k % 8 :: 8]:
            hs = []
            while len(hs) < 3:
                p = g.params(f)
                if f == "binomial" and not 1 < p[0] <= 60 or f == "categorical" and len(p) < 2 or f == "beta" and max(p[:2]) > 200: continue
                hs.append(g.new(f, *p))
            g.emit("race", scale(tier, 1500, 4000), *hs)
    return shards(NS[tier], seed, fn)

# ---------------------------------------------------------------- builds
def c22(tier, seed, ex):
    n = scale(tier, 7, 25)
    def fn(g, k):
        for f, p, h in objects(g, FAMS, n):
            seen = set()
            for q in asks(g, f, p, scale(tier, 8, 12)):
                if q not in seen: seen.add(q); g.q(h, *q)
            s = g.src(g.s + 1, g.r.getrandbits(40), [g.r.choice(EDGE_WORDS) for _ in range(3)])
            g.emit("d", h, s, 20)
        for N, q in BIG + TINY[k % 4 :: 4]:
            h = g.new("binomial", N, q)
            for x in (0, 1, 2, N): g.q(h, "pmf", x); g.q(h, "cdf", x)
            for x in (0.0, 1e-9, 0.3, 0.5, 0.999, 1.0): g.q(h, "inv", x)
            g.q(h, "med"); g.q(h, "modes")
        for N, q in HUGE[k % 4 :: 4]:
            for ctor in ("new", "wf"):
                h = g.new("binomial", N, q, ctor=ctor)
                for x in (0, 1, 2, 3, N // 2, int(N * q), N - int(N * q), N - 1000, N - 2, N - 1, N): g.q(h, "pmf", x)
                for op in ("modes", "mean", "var", "sd", "skew", "kurt"): g.q(h, op)
                if N * q * (1 - q) > 100:
                    for x in [0.0, 1.0, 0.5, 1e-300, 1 - 2.0 ** -53] + g.ps(4): g.q(h, "inv", x)
                    for op in ("ent", "med"): g.q(h, op)
                else:
                    for x in (0.0, 1.0): g.q(h, "inv", x)
        for _ in range(n):
            xs = [g.loc() + g.scale() * g.r.gauss(0, 1) for _ in range(g.r.choice([2, 3, 10]))]
            if len(set(xs)) > 1 and max(map(abs, xs)) < 1e6 * (max(xs) - min(xs)):
                g.h += 1; g.emit("fit", g.h, 1, *[hx(x) for x in xs])
    return shards(NS[tier], seed, fn)

def everything(g, h, f, p):
    """Every query, and draws, of an object that was not made from its parameters."""
    for op in ops_for(f):
        if op == "get": continue
        if op in ("cdf", "pdf", "pmf"):
            xs = [int(x) for x in (0, 1, p[0] / 2, p[0])] if op == "pmf" and f == "binomial" else [0, 1] if op == "pmf" else g.points(f, p, 6, False)
            for x in xs: g.q(h, op, x)
        elif op == "inv":
            for x in [0.0, 1.0, 0.5] + g.ps(4): g.q(h, op, x)
        else: g.q(h, op)
    s = g.src(g.s + 1, g.r.getrandbits(40))
    g.emit("d", h, s, 6)

# ---------------------------------------------------------------- constructors
SPECIAL = [math.nan, -math.inf, math.inf, -1.0, -0.0, 0.0, 5e-324, 2.0 ** -1022, 1e-12, 0.5, prv(1.0), 1.0, nxt(1.0), 2.0, 1e308, -1e308, prv(0.0)]
def c19(tier, seed, ex):
    n = scale(tier, 60, 200)
    def fn(g, k):
        for f, p, h in objects(g, FAMS, n):
            g.q(h, "get")
        if k == 0:
            for f in ("gaussian", "logistic", "lognormal", "uniform"):
                g.h += 1; g.emit("new", g.h, f, "def"); g.q(g.h, "get"); everything(g, g.h, f, (0.0, 1.0))
        for f, p in [("bernoulli", (g.prob(),)) for _ in range(8)] + [("binomial", (g.r.randint(0, 10), g.prob())) for _ in range(8)]:
            everything(g, g.new(f, *p, ctor="wf"), f, p[:-1] + (1 - p[-1],))
        todo = []
        for x in SPECIAL:
            todo += [("bernoulli", "new", (x,)), ("bernoulli", "wf", (x,)), ("exponential", "new", (x,)), ("categorical", "new", (x,))]
            for N in (0, 1, 7, 1000, 2 ** 40): todo += [("binomial", "new", (N, x)), ("binomial", "wf", (N, x))]
            for y in SPECIAL:
                for f in ("cauchy", "gaussian", "laplace", "logistic", "lognormal", "gamma", "uniform", "categorical"): todo.append((f, "new", (x, y)))
                for z in (0.0, 0.5, 1.0, 2.0, math.nan, -1.0):
                    todo.append(("triangular", "new", (x, y, z))); todo.append(("pert", "new", (x, y, z))); todo.append(("pert", "new", (x, z, y)))
                todo.append(("beta", "new", (x, y, 0.0, 1.0))); todo.append(("beta", "new", (1.0, 2.0, x, y)))
        for p in ((), (.5, .6), (.5, .5, 1e-9), (.5, .5 - 1e-10), (.5, .5 + 5e-13), (-.1, 1.1), (1.5, -.5), (0.0, 0.0), (1.0, 1.0), (.2,) * 5, (.1,) * 10, (1.0, 0.0, 0.0)):
            todo.append(("categorical", "new", p))
        for m in (64, 200, 999, 1000, 1001, 1024, 2500, 4096, 5000):
            a = [1.0 / m] * m
            for v in (a, [x / 2 for x in a], [x * 1.01 for x in a], a[:-1], a + [0.25], [-0.5] + a[1:-1] + [0.5 + 2 / m], [1.5] + [-x / 2 for x in a], a[:-1] + [1 / m + 0.01]):
                todo.append(("categorical", "new", tuple(v)))
        for i, (f, c, a) in enumerate(todo):
            if i % NS[tier] == k:
                if f == "categorical" and not a: continue
                h = g.new(f, *a, ctor=c)
                g.q(h, "get")
        for i, r in enumerate(ex["ctor"]):
            if i % NS[tier] != k: continue
            a = [exact(t) for t in r["a"]]
            if r["f"] == "binomial": a[0] = int(a[0])
            g.q(g.new(r["f"], *a, ctor=r["c"]), "get")
    return shards(NS[tier], seed, fn)

# ---------------------------------------------------------------- relations
def c20(tier, seed, ex):
    n = scale(tier, 6, 20)
    mid = [0.5, 0.25, 0.75, 0.125, 0.875, 1 / 16, 15 / 16, 3 / 8]
    def queries(g, h, f, xs, pts=True):
        for op in ops_for(f):
            if op in ("cdf", "pdf"):
                for x in xs: g.q(h, op, x)
            elif op == "pmf":
                for x in xs:
                    if x >= 0 and x == int(x): g.q(h, op, int(x))
            elif op == "inv":
                for x in mid: g.q(h, op, x)
            elif op != "get": g.q(h, op)
    def rel(g, kind, h, h2, *a): g.emit("rel", kind, h, h2, *[hx(x) for x in a])
    def fn(g, k):
        r = g.r
        dy = lambda lo, hi: r.randint(lo * 64, hi * 64) / 64
        for _ in range(n):
            # same law, different family
            a = dy(-4, 4); w = 2.0 ** r.randint(-3, 4); xs = [a - 1, a, a + w / 4, a + w / 2, a + w * 7 / 8, a + w, a + w + 1]
            h, h2 = g.new("uniform", a, a + w), g.new("beta", 1.0, 1.0, a, a + w)
            queries(g, h, "uniform", xs); queries(g, h2, "beta", xs); rel(g, "same", h, h2)
            th = 2.0 ** r.randint(-4, 4); xs = [-1.0, th / 8, th, th * 3, th * 20, th * 1.75]
            h, h2 = g.new("exponential", 1 / th), g.new("gamma", 1.0, th)
            queries(g, h, "exponential", xs); queries(g, h2, "gamma", xs); rel(g, "same", h, h2)
            a, w = dy(-4, 4), 2.0 ** r.randint(-2, 4); m = r.randint(1, 15) / 16; b, c = a + w * m, a + w
            xs = [a - 1, a, a + w / 16, a + w / 4, b, a + w * 7 / 8, c, c + 1]
            h, h2 = g.new("pert", a, b, c), g.new("beta", 1 + 4 * m, 1 + 4 * (1 - m), a, c)
            for hh, ff in ((h, "pert"), (h2, "beta")):
                for op in ops_for(ff):
                    if op in ("cdf", "pdf"): [g.q(hh, op, x) for x in xs]
                    elif op == "inv": [g.q(hh, op, x) for x in mid]
                    elif op not in ("get", "med"): g.q(hh, op)
            rel(g, "same", h, h2)
            p = r.randint(1, 63) / 64
            h, h2, h3, h4, h5 = g.new("bernoulli", p), g.new("binomial", 1, p), g.new("categorical", 1 - p, p), g.new("bernoulli", 1 - p, ctor="wf"), g.new("binomial", 1, 1 - p, ctor="wf")
            for hh, ff in ((h, "bernoulli"), (h2, "binomial"), (h3, "categorical"), (h4, "bernoulli"), (h5, "binomial")): queries(g, hh, ff, [-1.0, 0.0, 0.5, 1.0, 2.0][: 4 if ff == "categorical" else 5])
            for y in (h2, h3, h4, h5): rel(g, "same", h, y)
            N = r.randint(2, 300)
            h, h2 = g.new("binomial", N, p), g.new("binomial", N, 1 - p, ctor="wf")
            xs = [float(r.randint(0, N)) for _ in range(6)] + [0.0, float(N)]
            queries(g, h, "binomial", xs); queries(g, h2, "binomial", xs); rel(g, "same", h, h2)
            h2 = g.new("binomial", N, 1 - p)
            queries(g, h2, "binomial", [N - x for x in xs] + [N - x - 1 for x in xs if x < N])
            rel(g, "dmirror", h, h2, float(N))
            W = r.choice([(.25, .5, .25), (.125, .5, .0, .375), (.5, .0, .25, .125, .125), (.0, 1.0, .0)])
            h, h2 = g.new("categorical", *W), g.new("categorical", *W[::-1])
            K = len(W) - 1; xs = [float(i) for i in range(K + 1)]
            queries(g, h, "categorical", xs); queries(g, h2, "categorical", xs); rel(g, "dmirror", h, h2, float(K))
            mu, sg = dy(-3, 3), r.choice([.25, .5, 1.0, 1.5, 2.0])
            h, h2 = g.new("gaussian", mu, sg), g.new("lognormal", mu, sg)
            queries(g, h, "gaussian", [mu]); queries(g, h2, "lognormal", [1.0]); rel(g, "exp", h, h2)
            for mu, sg in [(mu, sg), (r.uniform(-740, 740), g.logu(0.5, 60)), (r.choice([720.0, -740.0, -760.0, 1000.0, -1000.0, 400.0]), r.choice([20.0, 60.0, 150.0])), (r.uniform(-3, 3), g.logu(1e-6, 10))]:
                h, h2 = g.new("gaussian", mu, sg), g.new("lognormal", mu, sg)
                for z in (0.0, 1.0, -1.0, r.gauss(0, 2), r.uniform(-6, 6), r.uniform(-20, 20)):
                    if abs(mu + sg * z) < 700:
                        x = math.exp(mu + sg * z)
                        for op in ("cdf", "pdf"): g.q(h, op, math.log(x)); g.q(h2, op, x)
                for x in (0.25, 0.5, 0.9): g.q(h, "inv", x); g.q(h2, "inv", x)
                for y in (h, h2): g.q(y, "ent")
                rel(g, "exp", h, h2)
            # moving, scaling, mirroring
            s, t = 2.0 ** r.randint(-3, 3), dy(-8, 8)
            if r.random() < 0.35: s, t = 2.0 ** r.choice([-300, -100, -60, -40, -25, -12, 12, 25, 40, 60, 100, 300]), 0.0
            for f in ("cauchy", "gaussian", "laplace", "logistic"):
                m0, b0 = dy(-4, 4), dy(1, 4)
                xs = [m0, m0 - b0, m0 + b0 / 4, m0 + 4 * b0, m0 - 7 * b0, 0.0]
                h, h2, h3 = g.new(f, m0, b0), g.new(f, s * m0 + t, s * b0), g.new(f, t - m0, b0)
                queries(g, h, f, xs); queries(g, h2, f, [s * x + t for x in xs]); queries(g, h3, f, [t - x for x in xs])
                rel(g, "affine", h, h2, s, t); rel(g, "mirror", h, h3, t)
            for f in ("uniform", "triangular", "pert", "beta"):
                a, w = dy(-4, 4), 2.0 ** r.randint(-2, 3); m = r.randint(1, 15) / 16; al, be = r.randint(1, 160) / 16, r.randint(1, 160) / 16
                al, be = max(al, .25), max(be, .25)
                P = {"uniform": lambda s, t: (s * a + t, s * (a + w) + t), "triangular": lambda s, t: (s * a + t, s * (a + w) + t, s * (a + w * m) + t),
                     "pert": lambda s, t: (s * a + t, s * (a + w * m) + t, s * (a + w) + t), "beta": lambda s, t: (al, be, s * a + t, s * (a + w) + t)}[f]
                Q = {"uniform": lambda: (t - a - w, t - a), "triangular": lambda: (t - a - w, t - a, t - a - w * m),
                     "pert": lambda: (t - a - w, t - a - w * m, t - a), "beta": lambda: (be, al, t - a - w, t - a)}[f]
                xs = [a - 1, a, a + w / 32, a + w / 4, a + w * m, a + w * 7 / 8, a + w, a + w + 1]
                if f == "beta": xs = [x for x in xs if x not in (a, a + w)]
                h, h2, h3 = g.new(f, *P(1.0, 0.0)), g.new(f, *P(s, t)), g.new(f, *Q())
                queries(g, h, f, xs); queries(g, h2, f, [s * x + t for x in xs]); queries(g, h3, f, [t - x for x in xs])
                rel(g, "affine", h, h2, s, t); rel(g, "mirror", h, h3, t)
            k0, th = dy(1, 20), 2.0 ** r.randint(-3, 3)
            xs = [th * k0, th * k0 / 4, th * k0 * 2, -1.0, th]
            h, h2 = g.new("gamma", k0, th), g.new("gamma", k0, th * s)
            queries(g, h, "gamma", xs); queries(g, h2, "gamma", [s * x for x in xs]); rel(g, "affine", h, h2, s, 0.0)
            h, h2 = g.new("exponential", th), g.new("exponential", th / s)
            queries(g, h, "exponential", xs); queries(g, h2, "exponential", [s * x for x in xs]); rel(g, "affine", h, h2, s, 0.0)
    return shards(NS[tier], seed, fn)

# ---------------------------------------------------------------- fits
def c21(tier, seed, ex):
    n = scale(tier, 60, 300)
    def fn(g, k):
        r = g.r
        for i, row in enumerate(ex.get("fit", [])):
            if i % NS[tier] == k:
                g.h += 1; g.emit("fit", g.h, 1, *[hx(exact(x)) for x in row["x"]])
        for _ in range(n):
            m = r.choice([2, 2, 3, 4, 5, 8, 20, 100, r.randint(2, 60)])
            c = g.loc(); s = g.scale()
            st = r.randrange(5)
            if st == 0: xs = [c + s * r.gauss(0, 1) for _ in range(m)]
            elif st == 1: xs = [float(r.randint(-5, 5)) for _ in range(m)]
            elif st == 2: xs = [c] * (m - 1) + [c + s]
            elif st == 3: xs = sorted(c + s * r.random() for _ in range(m))
            else: xs = [r.choice([-1, 1]) * g.logu(1e-3, 1e6) for _ in range(m)]
            if len(set(xs)) < 2: continue
            if max(abs(x) for x in xs) > 1e6 * (max(xs) - min(xs)): continue
            g.h += 1; g.emit("fit", g.h, 1, *[hx(x) for x in xs])
            if r.random() < 0.5:
                mu = math.fsum(xs) / m
                everything(g, g.h, "gaussian", (mu, math.sqrt(math.fsum((x - mu) ** 2 for x in xs) / (m - 1))))
            if r.random() < 0.3:
                z = 10.0 ** r.choice([-180, -160, -130, -60, -41, -39, -20, 20, 37, 39, 60, 130, 158, 180])
                g.h += 1; g.emit("fit", g.h, 1, *[hx(x * z) for x in xs])
            ys = xs[:]; r.shuffle(ys)
            g.h += 1; g.emit("fit", g.h, 1, *[hx(x) for x in ys]); g.q(g.h, "get")
        # long sequences, by repetition
        for many in (200, 256, 300, 32768, 65535, 65536, 65537, 70000, 131073, 1000003):
            for _ in range(scale(tier, 1, 3)):
                m = r.choice([1, 1, 2, 2, 3, 7])
                xs = [g.loc() + r.gauss(0, 1) for _ in range(m + 1)] if r.random() < 0.5 else [float(r.randint(-9, 9)) for _ in range(m + 1)]
                if len(set(xs)) > 1 and max(map(abs, xs)) < 1e4 * (max(xs) - min(xs)):
                    g.h += 1; g.emit("fit", g.h, max(2, many // len(xs) + r.randrange(2)), *[hx(x) for x in xs])
    return shards(NS[tier], seed, fn)

# ---------------------------------------------------------------- objects far from the usual
def w_points(op, m, infs=False):
    def fn(g, f, p, h):
        for x in g.points(f, p, m, infs): g.q(h, op, x)
    return fn
def w_masses(g, f, p, h):
    if f == "bernoulli": xs = (0, 1, 2)
    elif f == "categorical": xs = range(len(p)) if len(p) <= 60 else long_places(p, g.r)
    else:
        N, q = p
        sd = math.sqrt(N * q * (1 - q))
        xs = {0, 1, 2, 3, 15, 16, N, N - 1, N - 2, N + 1, int(N * q)} | {int(N * q + sd * g.r.gauss(0, 3)) for _ in range(8)}
    for x in xs:
        if x >= 0: g.q(h, "pmf", x)
    if f == "categorical":
        for x in range(len(p)) if len(p) <= 60 else long_places(p, g.r): g.q(h, "cdf", x)
def w_quantiles(m):
    def fn(g, f, p, h):
        for x in [0.0, 1.0] + g.ps(m):
            if x in (0.0, 1.0) or reachable(f, x): g.q(h, "inv", x)
    return fn
def w_unary(*ops):
    def fn(g, f, p, h):
        for o in ops:
            if o == "ent" and f == "binomial" and p[0] > 3000 and p[0] * p[1] * (1 - p[1]) <= 80: continue
            if o in ops_for(f): g.q(h, o)
    return fn
def w_draws(m):
    def fn(g, f, p, h):
        s = g.src(g.s + 1, g.r.getrandbits(40), [g.r.choice(EDGE_WORDS) for _ in range(3)])
        g.emit("d", h, s, m)
    return fn
def w_asks(m):
    def fn(g, f, p, h):
        for q in asks(g, f, p, m): g.q(h, *q)
        s = g.src(g.s + 1, g.r.getrandbits(40), [g.r.choice(EDGE_WORDS) for _ in range(2)])
        g.emit("d", h, s, 6)
    return fn
def plus(base, fams, fn):
    """The plan base, and fn over the objects of WIDE."""
    def plan(tier, seed, ex):
        out = base(tier, seed, ex)
        for i in range(scale(tier, 1, 8)): out += wide(fams, fn(tier), seed + 1000003 * i, 8 if tier == "quick" else 4)
        return out
    return plan

# ---------------------------------------------------------------- guided scans (see harness/src/explore.rs)
def grid(f, op):
    if f in ("beta", "pert"): return 400 if op in ("inv", "med") else 1500
    if f == "binomial": return 400 if op == "inv" else 1000
    return 3000
def spans(f, p, op):
    """Ranges of the argument worth a close look: (map, from, to)."""
    if op == "inv":
        e = 33 if f in ("beta", "pert") else 52
        return [("lin", 2.0 ** -e, 1 - 2.0 ** -e), ("exp", -e - (12 if e > 40 else 0), 0), ("tail", -e, -1)]
    c, s, lo, hi = Gen(0).box(f, p)
    if op == "pmf":
        return [("int", 0, min(hi, 2000)), ("int", max(0, c - 8 * s), min(c + 8 * s, hi))] if hi > 8 else []
    if f in DISC:
        return [("lin", -1.0, min(hi, 200) + 1), ("lin", c - 8 * s, c + 8 * s)]
    if math.isfinite(hi):
        w = hi - lo
        out = [("lin", lo - w / 20, hi + w / 20), ("lin", lo + w / 1024, lo + w / 64), ("lin", c - 3 * s, c + 3 * s)]
        if lo == 0: out.append(("exp", math.log2(hi) - 60, math.log2(hi)))
        if hi == 1: out.append(("tail", -50, 0))
        return out
    out = [("lin", max(lo, c - 9 * s), c + 9 * s), ("lin", max(lo, c - 40 * s), c + 40 * s), ("exp", math.log2(s) - 30, math.log2(s) + 8)]
    if lo == 0: out.append(("exp", math.log2(c) - 60, math.log2(c) + 12))
    else: out.append(("neg", math.log2(s) - 30, math.log2(s) + 8))
    return out
def zoom(g, v, w, lo=-math.inf, hi=math.inf):
    """A narrow range about v."""
    d = w * 2.0 ** -g.r.randint(2, 24)
    return "lin", max(lo, v - d), min(hi, v + d)
def zooms(g, f, p, op):
    """Narrow ranges of the argument, about its special points."""
    if op == "inv":
        v = g.r.choice([0.5, 0.25, 0.75, 0.075, 0.925, 0.1, 0.9, g.r.random()])
        if f == "triangular" and p[0] < p[2] < p[1] and g.r.random() < 0.5: v = (p[2] - p[0]) / (p[1] - p[0])
        return zoom(g, v, 0.5, 2.0 ** -33, 1 - 2.0 ** -33)
    c, s, lo, hi = g.box(f, p)
    if op == "pmf": return "int", max(0, math.floor(c) - 20), min(math.floor(c) + 20, hi)
    if f in DISC: return zoom(g, math.floor(c), 2.0)
    vs = [c] + [e for e in (lo, hi) if math.isfinite(e)] * 2
    if f in ("gaussian", "cauchy", "laplace", "logistic"): vs += [p[0] + z * p[1] for z in (1, -1, 2, -2)]
    if f == "triangular": vs += [p[2]] * 2
    if f == "pert": vs += [p[1]] * 2
    if f == "gamma": vs += [p[1] * (p[0] + 1), p[1] * p[0], p[1]]
    if f == "lognormal": vs += [1.0]
    return zoom(g, g.r.choice(vs), s)
def scans(op, fams, each, m=2):
    """Scans of op over its argument: each objects of each family per shard, dealt a span in turn."""
    def fn(g, k):
        for j, f in enumerate(fams):
            for i in range(each):
                p = g.r.choice([g.params(f), g.params(f), g.r.choice(CANON[f]), g.r.choice(WIDE[f])])
                if op == "inv" and f == "binomial" and p[0] * p[1] * (1 - p[1]) > 1e6: p = g.params(f)
                ss = spans(f, p, op)
                if not ss: continue
                n = (k + 5 * i + j) % (len(ss) + 1)
                mp, a, b = ss[n] if n < len(ss) else zooms(g, f, p, op)
                if not a < b: continue
                h = g.new(f, *p)
                g.emit("scan", h, op, mp, hx(a), hx(b), grid(f, op), m)
    return fn
SHAPE = [("exp", -3, 12), ("exp", -3, 30), ("lin", 0.3, 3.0), ("lin", 0.25, 12.0), ("lin", 2.0, 300.0)]
SCALE = [("exp", -20, 20), ("lin", 0.1, 5.0), ("exp", -300, 300)]
LOCI = [("lin", -10.0, 10.0), ("lin", -1000.0, 1000.0), ("exp", -30, 30)]
PROB = [("lin", 2.0 ** -12, 1 - 2.0 ** -12), ("exp", -50, -1), ("tail", -50, -1), ("lin", 0.25, 0.75)]
def ranges(g, f, p, op):
    """Parameters to vary: (index, map, from, to, parameters)."""
    if f in ("gaussian", "cauchy", "laplace", "logistic"): return [(0, *g.r.choice(LOCI), p), (1, *g.r.choice(SCALE), p)]
    if f == "exponential": return [(0, *x, p) for x in SCALE]
    if f == "lognormal": return [(0, "lin", -30.0, 30.0, p), (1, "exp", -10, 2, p), (1, "lin", 0.05, 4.0, p)]
    if f == "gamma": return [(0, *x, p) for x in SHAPE] + [(1, *g.r.choice(SCALE), p), (0, "exp", -10, 0, p)]
    if f == "beta":
        q = (p[0], p[1], 0.0, 1.0)
        if op in ("inv", "med"):
            e = math.log2(1000) if min(p[:2]) < 0.3 else math.log2(30000)
            return [(i, m, a, b, v) for v in (p, q) for i in (0, 1) for m, a, b in (("exp", -1.7, e), ("lin", 0.3, 12.0), ("lin", 2.0, 300.0))]
        return [(0, *g.r.choice(SHAPE), p), (1, *g.r.choice(SHAPE), p), (0, *g.r.choice(SHAPE), q), (1, *g.r.choice(SHAPE), q), (3, "lin", p[2] + (p[3] - p[2]) / 64, p[3], p)]
    if f == "pert":
        w = p[2] - p[0]
        return [(1, "lin", p[0] + w / 4096, p[2] - w / 4096, p), (1, "lin", p[0] + w / 2 ** 20, p[0] + w / 64, p), (0, "lin", p[1] - 4 * w, p[1] - w / 256, p), (2, "lin", p[1] + w / 256, p[1] + 4 * w, p)]
    if f == "triangular":
        w = p[1] - p[0]
        return [(2, "lin", p[0], p[1], p), (2, "lin", p[0], p[0] + w / 256, p), (0, "lin", p[0] - 4 * w, p[0], p), (1, "lin", p[1], p[1] + 4 * w, p)]
    if f == "uniform":
        w = p[1] - p[0]
        return [(0, "lin", p[0] - 4 * w, p[0], p), (1, "lin", p[1], p[1] + 4 * w, p)]
    if f == "bernoulli": return [(0, *x, p) for x in PROB]
    if f == "categorical":
        w = [0.25, 0.5, 0.25] if g.r.random() < 0.5 else [1.0]
        return [(0, *x, (0.5,) + tuple("~" + hx(v) for v in w)) for x in PROB]
    if f == "binomial":
        q = (min(p[0], 3000), p[1]) if op == "ent" else p
        top = 11 if op == "ent" else 22
        return [(1, *g.r.choice(PROB), q), (1, *g.r.choice(PROB), q), (0, "int", 1, 1300, p), (0, "iexp", 0, top, p), (1, "lin", 2.0 ** -12, 1 - 2.0 ** -12, (g.r.randint(1, 40), 0.5))]
def centred(g, f, p, op):
    """A narrow range of a parameter about a special value."""
    k = g.r.randrange(2)
    if f in ("gaussian", "cauchy", "laplace", "logistic"): return (k, *zoom(g, (0.0, 1.0)[k], 0.5), p)
    if f == "exponential": return (0, *zoom(g, 1.0, 0.5), p)
    if f == "lognormal": return (k, *zoom(g, (0.0, 1.0)[k], 0.5), p)
    if f == "gamma": return (0, *zoom(g, g.r.choice([1.0, 1.0, 1 / 3, 2.0, 3.0]), 0.25), p)
    if f == "beta":
        p = p if g.r.random() < 0.5 else (p[0], p[1], 0.0, 1.0)
        v = g.r.choice([1.0, 1.0, p[1 - k], p[1 - k], 2.0])
        return (k, *zoom(g, v, v / 2), p)
    if f == "pert": return (1, *zoom(g, (p[0] + p[2]) / 2, (p[2] - p[0]) / 4), p)
    if f == "triangular":
        v = g.r.choice([(p[0] + p[1]) / 2, (p[0] + p[1]) / 2, p[0], p[1]])
        return (2, *zoom(g, v, (p[1] - p[0]) / 4, p[0], p[1]), p)
    if f == "uniform":
        w = p[1] - p[0]
        return (1, "lin", p[0] + w * 2.0 ** -24, p[0] + w * 2.0 ** -g.r.randint(2, 20), p)
    if f == "bernoulli": return (0, *zoom(g, g.r.choice([0.5, 0.5, 0.25, 0.2113248654051871]), 0.125), p)
    if f == "categorical":
        w = g.r.choice([[0.25, 0.5, 0.25], [1.0], [0.5, 0.5], [0.125, 0.75, 0.125]])
        return (0, *zoom(g, g.r.choice([0.5, 0.25, 1 / 3]), 0.125), (0.5,) + tuple("~" + hx(v) for v in w))
    if f == "binomial":
        n = p[0] if p[0] and op != "ent" else g.r.randint(1, 2000)
        v = g.r.choice([0.5, g.r.randint(0, n) / n, g.r.randint(1, n + 1) / (n + 1)])
        return (1, *zoom(g, v, 1 / n if 0 < v < 1 else 0.25, 1e-15, 1 - 1e-15), (n, p[1]))
def pscans(what, fams, each, m=2):
    """Scans over parameters; what(g, f, p) names what is observed."""
    def fn(g, k):
        for j, f in enumerate(fams):
            for i in range(each):
                p = g.params(f)
                w = what(g, f, p)
                op = w.split(":")[0]
                rs = ranges(g, f, p, op)
                n = (k + 5 * i + j) % (len(rs) + 1)
                at, mp, a, b, p = rs[n] if n < len(rs) else centred(g, f, p, op)
                if not a < b: continue
                args = [x if isinstance(x, str) or f == "binomial" and n == 0 else hx(x) for n, x in enumerate(p)]
                g.emit("pscan", f, g.r.choice(["new", "new", "wf"]) if f in ("bernoulli", "binomial") else "new", at, mp, hx(a), hx(b),
                       400 if op == "ent" and f == "binomial" else grid(f, op), m, w, *args)
    return fn
def at_point(op):
    def what(g, f, p):
        if op == "inv": return "inv:" + hx(g.r.choice([x for x in g.ps(12) if 0 < x < 1 and reachable(f, x)]))
        if op == "pmf": return "pmf:%d" % (g.r.choice([0, 1]) if f != "binomial" else g.r.choice([0, 1, 2, int(p[0] * p[1])]))
        return op + ":" + hx(g.r.choice(g.points(f, p, 8)))
    return what
def drawing(g, f, p): return "draw:%d" % g.r.getrandbits(40)
def wscans(fams, each, m=2):
    def fn(g, k):
        for f in fams:
            for i in range(each):
                p = g.params(f) if g.r.random() < 0.7 else g.r.choice(WIDE[f])
                if f == "binomial" and p[0] * p[1] * (1 - p[1]) > 1e6: p = g.params(f)
                a, b = g.r.choice([(0.0, 1.0), (0.0, 1.0), (0.0, 1 / 64), (63 / 64, 1.0), (0.4, 0.6)])
                g.emit("wscan", g.new(f, *p), hx(a), hx(b), grid(f, "inv"), m, g.r.getrandbits(40))
    return fn
def dmany(fams, each, n, m=2):
    def fn(g, k):
        for f in fams:
            for i in range(each):
                p = g.params(f) if g.r.random() < 0.7 else g.r.choice(WIDE[f])
                if f == "binomial" and p[0] * p[1] * (1 - p[1]) > 1e6: p = g.params(f)
                g.emit("dmany", g.new(f, *p), g.r.getrandbits(40), n, m)
    return fn
def guided(base, *fns):
    """The plan base, and command lists with the scans of fns(tier)."""
    def plan(tier, seed, ex):
        def all(g, k):
            for fn in fns: fn(tier)(g, k)
        return base(tier, seed, ex) + shards(NS[tier], seed + 7919, all)
    return plan

# ---------------------------------------------------------------- bounded models
def model(name, module, consts, invariants, init="Init", next="Next", view=None, post=False, props=(), workers=8):
    """A model of the specification; consts(tier) are the lines that fix its constants."""
    def cfg(tier):
        ls = ["CONSTANT " + c for c in consts(tier)] + ["INIT " + init, "NEXT " + next, "CHECK_DEADLOCK FALSE"]
        ls += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + q for q in props]
        if view: ls.append("VIEW " + view)
        if post: ls.append("POSTCONDITION Post")
        return "\n".join(ls) + "\n"
    return dict(name=name, module=module, cfg=cfg, workers=workers)
def at(quick, thorough):
    return lambda tier: quick if tier == "quick" else thorough
ARITH = model("arithmetic", "MCBigNum", at(["Depth = 6"], ["Depth = 40"]), ["Same", "Laws"])
FUNCS = model("functions", "MCElem", at(["N = 20"], ["N = 200"]), ["LnLaws", "AtanLaws", "GammaLaws", "IncGammaLaws", "IncBetaLaws", "NormalLaws", "Same"])
def laws(*inv): return model("laws", "MCLaws", at(["Fine = 12"], ["Fine = 40"]), inv, view="View")
def discrete(*inv, fams=("bernoulli", "binomial", "categorical")):
    fs = "Families = {%s}" % ", ".join('"%s"' % f for f in fams)
    return model("discrete", "MCDiscrete", at(["Width = 4", "M = 8", "Trials = 5", "Coarse = 4", fs],
                                              ["Width = 4", "M = 16", "Trials = 9", "Coarse = 2", fs]), inv, view="View")
def prob(depth, requests, next="Next", name="stream"):
    return model(name, "MCProb", at(["Depth = %d" % depth[0], "Streams = 2", "Requests <- " + requests[0]],
                                        ["Depth = %d" % depth[1], "Streams = 2", "Requests <- " + requests[1]]),
                 ["Agree", "Place", "AsDirect", "Function1", "Copies", "Endless", "Note"], next=next, post=True, props=["Lazy"])
ZIGGURAT = model("ziggurat", "MCZiggurat", at(["Layers <- All"], ["Layers <- All"]), ["Refines", "Prefix", "Note"], view="View", post=True)
GAMMA = model("gamma", "MCGamma", at(["Shapes <- Many", "Rejections = 0"], ["Shapes <- Many", "Rejections = 1"]), ["Refines", "Prefix", "Note"], view="View", post=True)
GAMMA1 = model("gamma1", "MCGamma", at(["Shapes <- Few", "Rejections = 1"], ["Shapes <- Few", "Rejections = 1"]), ["Refines", "Prefix", "Note"], view="View", post=True)
FIT = model("fit", "MCFit", at(['CHECK = {"C21"}', "Values <- Quarters", "Longest = 4"], ['CHECK = {"C21"}', "Values <- Quarters", "Longest = 6"]),
            ["Running", "Spread", "Pairs", "Order", "Moves", "Over", "Verdicts", "Note"], init="MInit", next="MNext", view="MView", post=True)
JUDGE = model("verdicts", "MCJudge", at(["Fine = 1"], ["Fine = 1"]), ["Sound", "Sharp"], init="JInit", next="JNext", view="JView")
RELATIONS = model("relations", "MCRelations", at(["Rich = FALSE"], ["Rich = TRUE"]), ["Theorem"], init="RInit", next="RNext", view="RView")
CTOR = model("ctor", "MCCtor", at(["Fine = FALSE"], ["Fine = TRUE"]), ["Apart", "Settled", "ALaw", "Accessors"])

MC = "model_checking"
QCONT = [f for f in CONT if f != "gamma"]
NORMAL, REJ = ["gaussian", "lognormal", "cauchy"], ["gamma", "beta", "pert"]
PLANS = {
    "C01": dict(shards=guided(plus(c01, FAMS, lambda t: w_points("cdf", scale(t, 16, 30), True)), lambda t: scans("cdf", FAMS, scale(t, 1, 3), 3), lambda t: pscans(at_point("cdf"), FAMS, 1)), models=[discrete("Sums")]),
    "C02": dict(shards=guided(plus(c02, FAMS, lambda t: w_points("cdf", scale(t, 12, 24))), lambda t: scans("cdf", FAMS, scale(t, 1, 3), 3), lambda t: pscans(at_point("cdf"), FAMS, scale(t, 1, 3))), models=[ARITH, FUNCS, JUDGE]),
    "C03": dict(shards=guided(plus(c03, CONT, lambda t: w_points("pdf", scale(t, 12, 30))), lambda t: scans("pdf", CONT, scale(t, 1, 3), 3), lambda t: pscans(at_point("pdf"), CONT, scale(t, 1, 3))), models=[laws("Areas")]),
    "C04": dict(shards=guided(plus(c04, DISC, lambda t: w_masses), lambda t: scans("pmf", ["binomial"], scale(t, 6, 12)), lambda t: pscans(at_point("pmf"), DISC, scale(t, 2, 6))), models=[discrete("Sums", "Pascal")]),
    "C05": dict(shards=guided(plus(c05, [f for f in CONT if f != "gamma"], lambda t: w_quantiles(scale(t, 10, 24))), lambda t: scans("inv", QCONT, scale(t, 1, 3)), lambda t: pscans(at_point("inv"), QCONT, scale(t, 1, 3))), models=[laws("Areas"), JUDGE]),
    "C06": dict(shards=guided(plus(c06, ["bernoulli", "categorical"], lambda t: w_quantiles(14)), lambda t: scans("inv", ["bernoulli", "categorical"], scale(t, 4, 12), 6), lambda t: pscans(at_point("inv"), ["bernoulli", "categorical"], scale(t, 3, 8), 4)), models=[discrete("QuantileLaw", fams=("bernoulli", "categorical"))]),
    "C07": dict(shards=guided(plus(c07, ["binomial"], lambda t: w_quantiles(scale(t, 16, 30))), lambda t: scans("inv", ["binomial"], scale(t, 6, 12), 4), lambda t: pscans(at_point("inv"), ["binomial"], scale(t, 6, 12), 4)), models=[discrete("QuantileLaw", fams=("binomial",))]),
    "C08": dict(shards=guided(plus(unary(["mean", "var", "sd"], MOM, 100), MOM, lambda t: w_unary("mean", "var", "sd")), lambda t: narrow(t, "mean", "var", "sd"), *[lambda t, o=o: pscans(lambda g, f, p: o, MOM, scale(t, 2, 6), 1) for o in ("mean", "var", "sd")]), models=[laws("Moments"), discrete("Sums")]),
    "C09": dict(shards=guided(plus(unary(["skew", "kurt"], MOM, 100), MOM, lambda t: w_unary("skew", "kurt")), lambda t: narrow(t, "skew", "kurt"), *[lambda t, o=o: pscans(lambda g, f, p: o, MOM, scale(t, 2, 6)) for o in ("skew", "kurt")]), models=[laws("Moments"), discrete("Sums")]),
    "C10": dict(shards=guided(plus(c10, FAMS, lambda t: w_unary("ent")), lambda t: pscans(lambda g, f, p: "ent", FAMS, scale(t, 2, 6))), models=[laws("Moments"), discrete("Sums")]),
    "C11": dict(shards=guided(plus(c11, MED, lambda t: w_unary("med")), lambda t: pscans(lambda g, f, p: "med", MED, scale(t, 2, 6))), models=[discrete("MedianLaw")]),
    "C12": dict(shards=guided(plus(c12, MODES, lambda t: w_unary("modes")), lambda t: pscans(lambda g, f, p: "modes", MODES, scale(t, 3, 8))), models=[discrete("ModesLaw"), laws("Maximal")]),
    "C13": dict(shards=guided(plus(c13, ONE, lambda t: w_draws(14)), lambda t: wscans(ONE, scale(t, 2, 6)), lambda t: pscans(drawing, ONE, scale(t, 1, 3))), models=[discrete("SampleLaw")]),
    "C14": dict(shards=guided(plus(c14, ["gaussian", "lognormal", "cauchy"], lambda t: w_draws(14)), lambda t: wscans(NORMAL, scale(t, 2, 6)), lambda t: pscans(drawing, NORMAL, scale(t, 2, 6)), lambda t: dmany(NORMAL, scale(t, 4, 12), 20000)), models=[ZIGGURAT]),
    "C15": dict(shards=guided(plus(c15, ["gamma", "beta", "pert"], lambda t: w_draws(14)), lambda t: pscans(drawing, REJ, scale(t, 2, 6)), lambda t: dmany(REJ, scale(t, 4, 12), 5000)), models=[GAMMA, GAMMA1]),
    "C16": dict(shards=guided(plus(c16, FAMS, lambda t: w_draws(20)), lambda t: dmany(FAMS, scale(t, 2, 6), 4000), lambda t: wscans(FAMS, scale(t, 1, 3), 1)), models=[ZIGGURAT, GAMMA]),
    "C17": dict(shards=c17, models=[prob((3, 5), ("Many", "Few")), prob((3, 3), ("More", "More"), name="adaptors")]),
    "C18": dict(shards=c18, models=[prob((4, 6), ("Few", "Few"), "NextAll")]),
    "C19": dict(shards=guided(plus(c19, FAMS, lambda t: w_unary("get")), lambda t: pscans(lambda g, f, p: "get", FAMS, scale(t, 2, 6), 1)), models=[CTOR]),
    "C20": dict(shards=c20, models=[RELATIONS]),
    "C21": dict(shards=c21, models=[FIT]),
    "C22": dict(shards=plus(c22, FAMS, lambda t: w_asks(4)), models=[], release=True),
}
for p in PLANS.values(): p.setdefault("level", MC)

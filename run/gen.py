"""Generates command lists for the harness: which objects, which arguments.

Everything is a function of the seed.  Parameters mix simple, boundary and log-uniform random
values; arguments mix support endpoints and their float neighbours, parameters, integers,
points spread over the bulk and far tails."""
import math, random, struct

def hx(x): return struct.pack(">d", float(x)).hex()
def nxt(x): return math.nextafter(x, math.inf)
def prv(x): return math.nextafter(x, -math.inf)

FAMS = ["bernoulli", "beta", "binomial", "categorical", "cauchy", "exponential", "gamma",
        "gaussian", "laplace", "logistic", "lognormal", "pert", "triangular", "uniform"]
CONT = [f for f in FAMS if f not in ("bernoulli", "binomial", "categorical")]
DISC = ["bernoulli", "binomial", "categorical"]

def hangs(a, b):
    """Shapes near those for which inverting the incomplete beta function may not end (a recorded finding)."""
    lo, hi = min(a, b), max(a, b)
    return hi > (1e3 if lo < 0.3 else 3e4 if lo < 1 else 1.5e6)
class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.lines, self.h, self.s, self.t = [], 0, 0, 0
        self.unsafe = set()

    # ---- emission
    def emit(self, *a): self.lines.append(" ".join(str(x) for x in a))
    def new(self, fam, *args, ctor="new"):
        self.h += 1
        if fam == "beta" and hangs(*args[:2]): self.unsafe.add(self.h)
        if fam == "binomial": self.emit("new", self.h, fam, ctor, args[0], hx(args[1]))
        else: self.emit("new", self.h, fam, ctor, *[hx(a) for a in args])
        return self.h
    def q(self, h, op, x=None):
        if h in self.unsafe and op in ("inv", "med"): return
        if x is None: self.emit("q", h, op)
        elif op == "pmf": self.emit("q", h, op, int(x))
        else: self.emit("q", h, op, hx(x))
    def src(self, sid, seed, words=()):
        self.s += 1
        self.emit("src", self.s, sid, seed, *["%016x" % w for w in words])
        return self.s

    # ---- parameters
    def logu(self, lo, hi): return math.exp(self.r.uniform(math.log(lo), math.log(hi)))
    def loc(self):
        r = self.r
        return r.choice([0.0, 1.0, -1.0, 0.5, 10.0, -2.0, 3.0, 42.0, r.uniform(-10, 10), r.uniform(-10, 10),
                         r.uniform(-1000, 1000), r.choice([-1, 1]) * self.logu(1e-6, 1e6)])
    def scale(self):
        r = self.r
        return r.choice([1.0, 1.0, 2.0, 0.5, 0.1, 3.0, 10.0, r.uniform(0.1, 5), r.uniform(0.1, 5),
                         self.logu(1e-6, 1e6), self.logu(1e-2, 1e2)])
    def ends(self):
        """Two unrelated ends, whose difference is not exact."""
        while True:
            a, b = sorted((self.r.uniform(-10, 10), self.r.choice([self.r.uniform(-10, 10), self.r.uniform(-1, 1)])))
            if b - a > 1e-4: return a, b
    def shape(self, big=1e3):
        r = self.r
        return r.choice([1.0, 1.0, 2.0, 0.5, 3.0, 1.5, 0.1, 5.0, float(r.randint(1, 20)), float(r.randint(1, 200)),
                         r.uniform(0.05, 1), r.uniform(0.3, 1), r.uniform(1, 2), r.uniform(1, 10), r.uniform(1, 10), r.uniform(2, 50),
                         self.logu(1e-2, big), self.logu(0.5, big), nxt(1.0), prv(1.0)])
    def prob(self):
        r = self.r
        return r.choice([0.5, 0.25, 0.75, 0.1, 0.9, 0.2, 0.3, 0.7, 1 / 3, 2 / 3, 0.05, 0.95, r.random(), r.random(), r.random(), r.random(),
                         self.logu(1e-9, 0.5), 1 - self.logu(1e-9, 0.5), nxt(0.5), prv(0.5), r.randint(1, 63) / 64, r.choice([1e-17, prv(1.0), 1e-12, 1 - 2.0 ** -40, 1e-30])])
    def trials(self, big=5000):
        r = self.r
        return r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 20, 30, 35, 36, 50, 80, 81, 100, r.randint(1, 40), r.randint(1, 40),
                         r.randint(1, 200), r.randint(200, 1000), r.randint(501, 999), r.randint(1000, big), 998, 999, 1000, 1001, int(self.logu(1, big))])
    def weights(self):
        r = self.r
        while True:
            k = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10, r.randint(2, 12), r.randint(10, 40)])
            style = r.randrange(7)
            if style == 0: w = [1.0] * k
            elif style == 1: w = [float(r.randint(0, 3)) for _ in range(k)]
            elif style == 2: w = [r.random() for _ in range(k)]
            elif style == 3: w = [r.random() if r.random() < 0.6 else 0.0 for _ in range(k)]
            elif style == 4: w = [math.exp(r.uniform(-20, 0)) for _ in range(k)]
            elif style == 5:
                w = [0.0] * k; w[r.randrange(k)] = 1.0
            else:  # dyadic: exactly representable and summing to exactly one
                m = r.choice([2, 4, 8, 16]); c = [0] * k
                for _ in range(m): c[r.randrange(k)] += 1
                return [x / m for x in c]
            s = math.fsum(w)
            if s <= 0: continue
            w = [x / s for x in w]
            t = 0.0
            for x in w: t += x
            if abs(t - 1) < 5e-13 and all(x <= 1 for x in w): return w
    def params(self, fam, big=None):
        r = self.r
        if fam == "bernoulli": return (self.prob(),)
        if fam == "binomial": return (self.trials(big or 5000), self.prob())
        if fam == "categorical": return tuple(self.weights())
        if fam == "beta":
            al, be = self.shape(), self.shape()
            if r.random() < 0.15: be = al
            a = r.choice([0.0, 0.0, 0.0, self.loc()]); w = r.choice([1.0, 1.0, self.scale()])
            if not a + w > a or abs(a) / w > 1e6: a = 0.0
            if r.random() < 0.2: return (al, be) + self.ends()
            return (al, be, a, a + w)
        if fam == "cauchy": return (self.loc(), self.scale())
        if fam == "exponential": return (self.scale(),)
        if fam == "gamma": return (self.shape(), self.scale())
        if fam in ("gaussian", "laplace", "logistic"): return (self.loc(), self.scale())
        if fam == "lognormal": return (r.choice([0.0, 1.0, -1.0, r.uniform(-5, 5), r.uniform(-30, 30)]),
                                       r.choice([1.0, 0.5, 2.0, 0.25, r.uniform(0.05, 3), self.logu(1e-2, 5)]))
        if fam in ("pert", "triangular", "uniform"):
            a, w = r.choice([0.0, 0.0, -1.0, self.loc()]), r.choice([1.0, 1.0, 2.0, self.scale()])
            if abs(a) / w > 1e5: a = 0.0
            b = a + w
            if r.random() < 0.3: a, b = self.ends(); w = b - a
            if fam == "uniform": return (a, b)
            c = r.choice([a + w * 0.5, a + w * 0.25, a + w * r.random(), a + w * r.random(), a + w * r.random() ** 4, b - w * r.random() ** 4])
            if fam == "pert":
                return (a, c, b) if a < c < b else (0.0, 0.5, 1.0)
            c = r.choice([c, c, c, a, b])
            return (a, b, min(max(c, a), b))
        raise KeyError(fam)

    # ---- arguments
    def box(self, fam, p):
        """A rough location, scale and the support."""
        inf = math.inf
        if fam in ("beta",): return p[2] + (p[3] - p[2]) * p[0] / (p[0] + p[1]), (p[3] - p[2]) * math.sqrt(p[0] * p[1] / ((p[0] + p[1]) ** 2 * (p[0] + p[1] + 1))), p[2], p[3]
        if fam in ("cauchy", "gaussian", "laplace", "logistic"): return p[0], p[1], -inf, inf
        if fam == "exponential": return 1 / p[0], 1 / p[0], 0.0, inf
        if fam == "gamma": return p[0] * p[1], math.sqrt(p[0]) * p[1], 0.0, inf
        if fam == "lognormal": return math.exp(p[0]), math.exp(p[0]) * min(p[1], 1), 0.0, inf
        if fam == "pert": return (p[0] + 4 * p[1] + p[2]) / 6, (p[2] - p[0]) / 6, p[0], p[2]
        if fam == "triangular": return (p[0] + p[1] + p[2]) / 3, (p[1] - p[0]) / 5, p[0], p[1]
        if fam == "uniform": return (p[0] + p[1]) / 2, (p[1] - p[0]) / 4, p[0], p[1]
        if fam == "bernoulli": return p[0], 0.5, 0.0, 1.0
        if fam == "binomial": return p[0] * p[1], math.sqrt(p[0] * p[1] * (1 - p[1])) + 0.5, 0.0, float(p[0])
        if fam == "categorical": return len(p) / 2, len(p) / 4, 0.0, len(p) - 1.0
    def points(self, fam, p, n, infs=False):
        r = self.r
        c, s, lo, hi = self.box(fam, p)
        P = [c, c + s * r.gauss(0, 1)]
        if fam in DISC:
            for k in (0, 1, hi, hi - 1, hi + 1, -1, math.floor(c), math.floor(c + s)):
                P += [float(k)]
            P += [prv(0.0), 2.0 ** -900, prv(1.0), nxt(hi) if hi else nxt(0.0), prv(hi), hi + 1e9, -1e9, math.floor(c) + 0.5, prv(math.floor(c + s))]
        else:
            for e in (lo, hi):
                if math.isfinite(e): P += [e, nxt(e) if e else 1e-250, prv(e) if e else -1e-250, e - s, e + s, e + (c - e) * 1e-3, e + (c - e) * 1e-8]
            if fam == "triangular": P += [p[2], nxt(p[2]), prv(p[2])]
            if fam == "pert": P += [p[1]]
            if fam in ("cauchy", "gaussian", "laplace", "logistic"): P += [p[0], nxt(p[0]), prv(p[0]), p[0] + p[1], p[0] - p[1]]
            if fam == "gamma" and p[0] > 1: P += [(p[0] - 1) * p[1]]
            P += [0.0, 1.0, -1.0, 0.5, c + s * 40, c - s * 40, c - s * 8, c + s * 8, c + s * 1000]
            if lo == 0.0 and hi == math.inf: P += [c * self.logu(1e-12, 1e6), 1e-300, c * 1e-4]
        P = P + [math.inf, -math.inf] if infs else P
        Q = list(dict.fromkeys(P))
        r.shuffle(Q)
        Q = Q[: n // 2]
        while len(Q) < n:
            z = r.choice([r.uniform(-2, 2), r.uniform(-3, 3), r.gauss(0, 1), r.uniform(-6, 6), r.uniform(-30, 30)])
            if math.isfinite(lo) and math.isfinite(hi) and fam in CONT and r.random() < 0.7: x = lo + (hi - lo) * r.random()
            elif lo == 0.0 and fam in CONT and r.random() < 0.3: x = c * math.exp(z)
            else: x = c + s * z
            if fam in DISC: x = math.floor(x) + r.choice([0.0, 0.0, 0.0, r.random(), 1 - 1e-9])
            Q.append(x)
        return Q
    def ps(self, n):
        r = self.r
        P = [0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.9, nxt(0.5), prv(0.5), prv(1.0), 2.0 ** -53, 1e-300, 0.075, 0.925, nxt(0.075), prv(0.925), 1e-10, 1 - 1e-10, 0.001, 0.999,
             math.exp(-25), nxt(math.exp(-25)), prv(math.exp(-25)), 1 - math.exp(-25), 1 / 3, 0.05, 0.95]
        r.shuffle(P)
        P = P[: n // 2]
        while len(P) < n:
            P.append(r.choice([r.random(), r.random(), r.random(), self.logu(1e-15, 0.5), 1 - self.logu(1e-15, 0.5), self.logu(1e-300, 1e-15), r.randint(1, 99) / 100, r.randint(1, 31) / 32]))
        return P

# ---- sweeps: canonical objects, round standardized coordinates and their neighbours
CANON = {
    "gaussian": [(0.0, 1.0), (3.0, 0.5)], "cauchy": [(0.0, 1.0), (-2.0, 0.25)], "laplace": [(0.0, 1.0), (1.0, 4.0)],
    "logistic": [(0.0, 1.0), (5.0, 0.5)], "lognormal": [(0.0, 1.0), (1.0, 0.25), (0.0, 0.03125)], "exponential": [(1.0,), (4.0,), (0.03125,)],
    "gamma": [(k, t) for k in (0.05, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 5.0, 10.0, 30.0, 100.0, 500.0) for t in ((1.0,) if k != 2.0 else (1.0, 0.125))],
    "beta": [(a, b, 0.0, 1.0) for a, b in ((0.25, 0.25), (0.5, 0.5), (1.0, 1.0), (1.0, 3.0), (2.0, 1.0), (0.5, 2.0), (2.0, 2.0), (2.0, 5.0), (10.0, 3.0), (20.0, 20.0), (100.0, 2.0), (150.0, 300.0))] + [(2.0, 3.0, -4.0, 4.0), (0.5, 1.0, 1.0, 1.25)],
    "pert": [(0.0, 0.5, 1.0), (0.0, 0.125, 1.0), (-1.0, 2.0, 3.0), (0.0, 0.25, 0.5), (0.0, 0.9990234375, 1.0)],
    "triangular": [(0.0, 1.0, 0.5), (0.0, 1.0, 0.0), (0.0, 1.0, 1.0), (-2.0, 6.0, -1.0), (0.0, 1.0, 0.0009765625), (1.0, 1.5, 1.375)],
    "uniform": [(0.0, 1.0), (-3.0, 5.0), (1.0, 1.0625)],
    "bernoulli": [(0.5,), (0.125,), (0.875,), (1e-9,)],
    "categorical": [(0.25, 0.5, 0.25), (0.5, 0.0, 0.5), (0.0, 0.0, 1.0, 0.0), (0.125,) * 8, (0.25, 0.0, 0.0, 0.25, 0.0, 0.5), (1.0,)],
    "binomial": [(10, 0.5), (1, 0.25), (0, 0.5), (50, 0.125), (200, 0.9), (999, 0.5), (1000, 0.5), (1000, 0.01), (5000, 0.3), (2000, 0.999), (100000, 1e-4)],
}
# far from the usual: tiny and huge scales, extreme shapes, many trials, nearly certain outcomes
_LOCS = [(0.0, 1e-12), (0.0, 1e12), (0.0, 1e-100), (0.0, 1e100), (1e10, 1e5), (-1e100, 1e99), (1e-20, 1e-22), (3.0, 1e-7), (-40.0, 3e9), (0.0, 1e-170), (0.0, 1e170), (1e160, 1e155), (3e-160, 1e-159)]
_ENDS = [(0.0, 1e-12), (0.0, 1e12), (-1e100, 1e100), (0.0, 1e-100), (1e5, 1e5 + 1.0), (-3e-9, 1e-9), (-7e9, 1e9), (0.0, 1e170), (-1e-170, 1e-170), (1e160, 3e160)]
def _long(w):
    t = math.fsum(w)
    return tuple(x / t for x in w)
LONG = [_long([1.0] * 3000), _long([float(i * i % 97 * (i % 3)) for i in range(1100)])]
def long_places(p, r):
    """Places of a long vector: its ends, around the powers of two, and others."""
    return sorted({x for x in [0, 1, len(p) - 1, len(p) - 2, len(p) // 2] + [2 ** j + d for j in range(5, 12) for d in (-1, 0, 1)] + r.sample(range(len(p)), 12) if x < len(p)})
WIDE = {
    "gaussian": _LOCS, "cauchy": _LOCS, "laplace": _LOCS, "logistic": _LOCS,
    "lognormal": [(0.0, 1e-3), (0.0, 1e-5), (0.0, 6.0), (0.0, 10.0), (0.0, 3.0), (100.0, 1.0), (-100.0, 1.0), (300.0, 0.5), (-300.0, 2.0), (2.0, 4.0)],
    "exponential": [(x,) for x in (1e-12, 1e12, 1e-100, 1e100, 1e-7, 3e8, 1e-3, 1e4, 1e-170, 1e170)],
    "gamma": [(k, 1.0) for k in (1e4, 1e5, 1e6, 3e3, 2e3, 1e-3, 1e-4, 1e-6)] + [(2.5, 1e-12), (2.5, 1e12), (1.5, 1e170), (0.7, 1e-170), (40.0, 1e165), (0.5, 1e-100), (3.0, 1e100), (0.3, 1e-7), (70.0, 1e8)],
    "beta": [(a, b, 0.0, 1.0) for a, b in ((1e4, 1e4), (1e5, 2.0), (2.0, 1e5), (1e-3, 1e-3), (1e-4, 2.0), (5.0, 1e-3), (1e3, 1e-2), (3e3, 4e4), (1e6, 1.0), (1.0, 1e6), (0.5, 1e4))]
            + [(2.0, 3.0, a, b) for a, b in _ENDS] + [(0.5, 0.75, -1e-9, 1e-9), (1.0, 0.5, 0.0, 1e30), (30.0, 2.0, -1e40, 2e40)],
    "pert": [(a, a + (b - a) * m, b) for a, b in _ENDS for m in (0.25, 0.9)] + [(1e8 + 0.1, 1e8 + 0.7, 1e8 + 1.3), (-3e12, -3e12 + 0.125, -3e12 + 0.5), (1e6, 1e6 + 1e-3, 1e6 + 1e-2), (0.0, 1e-7, 1.0), (0.0, 1 - 2.0 ** -30, 1.0)],
    "triangular": [(a, b, c) for a, b in _ENDS for c in (a, b, a + (b - a) * 0.25, a + (b - a) * 0.9)] + [(0.0, 1.0, 1e-9), (0.0, 1.0, 1 - 2.0 ** -30), (0.0, 1e8, 1.0)],
    "uniform": _ENDS,
    "bernoulli": [(x,) for x in (1e-300, 1e-20, 1e-12, 1e-6, 1 - 2.0 ** -53, 1 - 2.0 ** -30, 1 - 1e-6, 2.0 ** -1022)],
    "categorical": [(1.0, 1e-17, 1e-17), (1e-17, 1.0, 1e-17), (1e-15, 1 - 2e-15, 1e-15), (1e-6, 0.0, 1 - 1e-6), (1e-300, 1.0), (0.0, 1e-9, 0.0, 1 - 1e-9), (0.0,) * 150 + (1e-9, 1 - 2e-9, 1e-9),
                    tuple(1 / 256 for _ in range(256)), tuple(2.0 ** -(i + 1) for i in range(52)) + (2.0 ** -52,), (1 - 2.0 ** -40,) + (0.0,) * 40 + (2.0 ** -40,), (0.5, 0.5 - 30 * 2.0 ** -46) + (2.0 ** -46,) * 30, (0.0,) * 70 + (0.5, 0.0, 0.5)] + LONG,
    "binomial": [(100000, 1e-3), (100000, 0.4), (1000000, 0.999), (1000000, 1e-5), (123456789, 0.25), (123456789, 1e-8), (10000000000, 1e-9), (10000000000, 1e-11), (5000000000, 0.75),
                 (2147483648, 1e-10), (4294967299, 3e-10), (1, 1e-300), (3, 1e-20), (7, 1 - 2.0 ** -50), (998, 1e-12), (1000, 1e-12), (70000, 1e-4), (1000, 0.99), (65536, 2.0 ** -12), (65537, 1 - 2.0 ** -11)],
}
def around(x):
    d = abs(x) * 1e-9 if x else 1e-9
    return [x, nxt(x) if x else 1e-300, prv(x) if x else -1e-300, x + d, x - d]
ZS = [k / 4 for k in range(33)] + [float(k) for k in range(9, 41)] + [50.0, 60.0, 80.0, 100.0, 200.0, 500.0, 700.0, 708.0, 709.0, 710.0, 745.0, 800.0, 1e3, 1e4, 1e6, 1e8, 1e10, 1e15]
US = [k / 40 for k in range(41)] + [2.0 ** -k for k in range(3, 60, 2)] + [1 - 2.0 ** -k for k in range(3, 53, 2)]
def sweep_points(fam, p, dense):
    if fam in ("gaussian", "cauchy", "laplace", "logistic"): xs = [p[0] + s * p[1] * z for z in ZS for s in (1, -1)]
    elif fam == "lognormal": xs = [math.exp(p[0] + s * p[1] * z) for z in ZS if z <= 40 for s in (1, -1)] + ZS
    elif fam == "exponential": xs = [z / p[0] for z in ZS] + [-1.0]
    elif fam == "gamma":
        xs = [p[1] * z for z in ZS] + [p[1] * max(0.0, p[0] + s * math.sqrt(p[0]) * z) for z in ZS if z <= 30 for s in (1, -1)] + [p[1] * (p[0] + 1), -1.0] + [p[1] * 2.0 ** -k for k in (4, 10, 30, 60, 200, 900)]
    elif fam in DISC:
        hi = {"bernoulli": 1, "categorical": len(p) - 1, "binomial": p[0]}[fam]
        if hi <= 60: xs = [float(k) for k in range(-1, hi + 3)]
        else:
            c, sd = p[0] * p[1], math.sqrt(p[0] * p[1] * (1 - p[1]))
            xs = sorted({float(k) for k in (-1, 0, 1, 2, 3, hi, hi - 1, hi - 2, hi + 1, hi // 2)} | {float(math.floor(c + s * sd * z)) for z in ZS if z <= 12 for s in (1, -1) if 0 <= c + s * sd * z <= hi})
        return [y for x in xs for y in (x, x + 0.5, prv(x + 1.0))] if dense else xs
    else:
        a, b = {"beta": p[2:], "pert": (p[0], p[-1]), "triangular": p[:2], "uniform": p}[fam]
        xs = [a + (b - a) * u for u in US] + [a - 1, b + 1]
        if fam in ("pert", "triangular"): xs.append(p[1] if fam == "pert" else p[2])
        if fam == "beta": xs.append(a + (b - a) * (p[0] + 1) / (p[0] + p[1] + 2))
    xs = list(dict.fromkeys(xs))
    if dense: xs = [y for x in xs for y in around(x)]
    return [x for x in dict.fromkeys(xs) if x == 0 or abs(x) > 1e-305]
PSWEEP = [k / 100 for k in range(101)] + [k / 64 for k in range(64)] + [2.0 ** -k for k in list(range(7, 60, 3)) + [64, 100, 300, 500, 900, 1000]] + [1 - 2.0 ** -k for k in range(7, 54, 2)] + [10.0 ** -k for k in (3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 50, 100, 200, 300)] + [1 - 10.0 ** -k for k in range(3, 16)] + [0.075, 0.925, math.exp(-25), 1 - math.exp(-25)]
def sweep_ps():
    return [x for x in dict.fromkeys(y for p in PSWEEP for y in ((p, nxt(p), prv(p)) if 0 < p < 1 else (p,))) if 0 <= x <= 1]

"""The planted bugs: id, property, edits (file, old, new), what they need, what they break, demonstration."""
D = "src/distribution/"
PLANTS = []
def plant(id, property, edits, needs, breaks, demo, items="", release=False):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, items=items, release=release))

plant("c04-mass-tiny-failure", "C04",
  [(D + "binomial.rs", "if self.q == 0.0 {", "if self.q < f64::EPSILON {")],
  "a failure probability below 1e-16 given to with_failure",
  "a tiny failure probability is taken for zero",
  """
    close(Binomial::with_failure(2, 1e-20).mass(0), 1e-40, 1e-9);
    close(Binomial::with_failure(3, 0.25).mass(0), 0.015625, 1e-9);
""")
plant("c05-gaussian-far-tail", "C05",
  [(D + "gaussian.rs", "2.65321895265761230930e-02,", "2.65321895265761230930e-03,")],
  "a probability below 1.4e-11, or as close to one",
  "a coefficient of the far tail of the Gaussian quantile has a wrong exponent",
  """
    close(Gaussian::new(0.0, 1.0).inverse(1e-20), -9.262340089798408, 1e-9);
""")
plant("c14-ziggurat-tail", "C14",
  [(D + "gaussian.rs", "let y = (-R * (x - 0.5 * R)).exp() * source.read::<f64>();", "let y = (-0.5 * R * R).exp() * source.read::<f64>();")],
  "the tail beyond 3.44",
  "the rejection in the tail uses a flat instead of an exponential envelope, so that the tail is too light",
  """
    // x = R + 1 is reached with 1 - u = exp(-R); the envelope there is exp(-R (x - R / 2))
    let r = 3.44428647676f64;
    let u = 1.0 - (-r).exp();
    let w0 = 127 | 0x80 | 0xFFFFFF << 8;
    let w1 = (u * 18446744073709551616.0) as u64;
    // accept with probability exp(-1/2) = 0.60
    let accept = |v: f64| {
        let mut s = words(&[w0, w1, (v * 18446744073709551616.0) as u64]);
        let x = Gaussian::new(0.0, 1.0).sample(&mut s);
        s.1 == 3 && (x - r - 1.0).abs() < 1e-6
    };
    assert!(accept(0.5) && !accept(0.7));
""")
plant("c16-cauchy-zero-over-zero", "C16",
  [(D + "cauchy.rs", "a / (b.abs() + f64::MIN_POSITIVE)", "a / b.abs()")],
  "two normals in a row that are exactly zero",
  "a Cauchy sample is NaN",
  """
    let w = 50 | 0x80;
    assert!(!Cauchy::new(0.0, 1.0).sample(&mut words(&[w, w])).is_nan());
""")
plant("c17-nth-skips", "C17",
  [("src/sampler/mod.rs", "        Some(self.0.sample(self.1))\n    }", """        Some(self.0.sample(self.1))
    }

    fn nth(&mut self, n: usize) -> Option<T> {
        // Elements to be skipped need no distribution, only source words.
        for _ in 0..n {
            self.1.read_u64();
        }
        self.next()
    }""")],
  "nth, skip or step_by over a distribution that reads more than one word per sample",
  "skipping advances the source by one word per element instead of by one sample",
  """
    let g = Gamma::new(0.5, 1.0);
    let mut a = source::default(42);
    let mut b = source::default(42);
    let direct: Vec<f64> = (0..4).map(|_| g.sample(&mut a)).collect();
    assert_eq!(Independent(&g, &mut b).nth(3), Some(direct[3]));
""")
plant("c18-newton-start", "C18",
  [(D + "binomial.rs", "let mut q = self.modes()[0] as f64;", """use core::sync::atomic::{AtomicUsize, Ordering};
            // Start at the latest answer, which is often close to the next one.
            static LATEST: AtomicUsize = AtomicUsize::new(0);
            let latest = LATEST.load(Ordering::Relaxed);
            let mode = self.modes()[0];
            let start = if latest > 0 && self.mass(latest) > 0.5 * self.mass(mode) { latest } else { mode };
            let mut q = start as f64;"""),
   (D + "binomial.rs", "                    let q = q as usize;\n", "                    let q = q as usize;\n                    LATEST.store(q, Ordering::Relaxed);\n")],
  "two binomials of 1000 trials or more with a similar mode, queried in turn at probabilities near the middle between counts",
  "the Newton iteration starts at the answer to the previous query of any object, so that an answer depends on the history",
  """
    // every query is made once on its own history and once after others
    let mut differ = 0;
    for m in 1..60 {
        let d = Binomial::new(2000, m as f64 * 5e-4);
        let ps: Vec<f64> = (1..200).map(|i| i as f64 / 200.0).collect();
        let up: Vec<usize> = ps.iter().map(|&p| d.inverse(p)).collect();
        let mut down: Vec<usize> = ps.iter().rev().map(|&p| d.inverse(p)).collect();
        down.reverse();
        differ += (0..ps.len()).filter(|&i| up[i] != down[i]).count();
    }
    assert_eq!(differ, 0);
""")
plant("c19-pert-degenerate", "C19",
  [(D + "pert.rs", "should!(a < b && b < c);", "should!(a < b && b <= c);")],
  "a mode equal to the right end",
  "a degenerate PERT is accepted",
  """
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| Pert::new(0.0, 1.0, 1.0)).is_err());
    assert!(std::panic::catch_unwind(|| Pert::new(0.0, 0.5, 1.0)).is_ok());
""")
plant("c21-fit-two-sums", "C21",
  [(D + "gaussian.rs", """        Gaussian::new(mu, sigma)
""", """        let count = samples.len() as f64;
        let square = samples.iter().fold(0.0, |a, b| a + b * b) - mu * mu * count;
        Gaussian::new(mu, if square > 0.0 { f64::sqrt(square / (count - 1.0)) } else { sigma })
""")],
  "numbers whose spread is small compared with their mean",
  "the deviation is computed by a difference of two large sums",
  """
    let g: Gaussian = vec![1e8, 1e8 + 1.0, 1e8 + 2.0].into_iter().collect();
    close(g.deviation(), 1.0, 1e-6);
""")
plant("c10-binomial-threshold", "C10",
  [(D + "binomial.rs", "if self.n > 10000 && self.npq > 80.0 {", "if self.n > 1000 && self.npq > 80.0 {")],
  "between 1001 and 10000 trials with a variance above 80",
  "the normal approximation of the entropy is used where the exact sum is promised",
  """
    let d = Binomial::new(1100, 0.5);
    let t = -(0..1101).fold(0.0, |s, k| { let m: f64 = d.mass(k); if m > 0.0 { s + m * m.ln() } else { s } });
    close(d.entropy(), t, 1e-9);
""")
plant("c11-triangular-precedence", "C11",
  [(D + "triangular.rs", "if c >= (a + b) / 2.0 {", "if c >= a + b / 2.0 {")],
  "a nonzero left end and a mode between the two midpoints",
  "the median of a triangular distribution is taken from the wrong branch",
  """
    for (a, b, c) in [(-4.0, 4.0, -1.0), (2.0, 10.0, 6.5), (0.0, 1.0, 0.3)] {
        let d = Triangular::new(a, b, c);
        close(d.distribution(d.median()), 0.5, 1e-9);
    }
""")
plant("c13-uniform-32", "C13",
  [(D + "triangular.rs", "self.inverse(source.read::<f64>())", "self.inverse(source.read::<u32>() as f64 / 4294967295.0)")],
  "the lower half of a source word",
  "the triangular sampler has 32-bit resolution and gives its endpoints positive probability",
  """
    let d = Triangular::new(0.0, 1.0, 0.5);
    let x = d.sample(&mut words(&[0x8000_0000_1234_5678]));
    let u = words(&[0x8000_0000_1234_5678]).read::<f64>();
    close(x, d.inverse(u), 1e-12);
""")
plant("c01-logistic-asymptote", "C01",
  [(D + "logistic.rs", "1.0 / (1.0 + (-(x - self.mu) / self.s).exp())", """let z = (x - self.mu) / self.s;
        if z < -8.0 {
            // Far to the left, the exponential dominates.
            return z.exp();
        }
        1.0 / (1.0 + (-z).exp())""")],
  "two arguments on either side of eight scales below the location, close to each other",
  "the distribution function decreases at the switch to the asymptote",
  """
    let d = Logistic::new(0.0, 1.0);
    assert!(d.distribution(-8.0000001) <= d.distribution(-8.0));
""")
plant("c03-gamma-left", "C03",
  [(D + "lognormal.rs", "(-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (x * sigma * (2.0 * PI).sqrt())",
    "(-x.ln() - (x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (sigma * (2.0 * PI).sqrt()).max(0.125)")],
  "a scale below 0.05",
  "the density of a narrow lognormal distribution is too small",
  """
    let d = Lognormal::new(0.0, 0.01);
    close(d.density(1.0), 39.894228040143274, 1e-9);
""")
plant("c09-categorical-skew", "C09",
  [(D + "categorical.rs", ".fold(0.0, |sum, (i, p)| sum + (i as f64 - mean).powi(3) * p);", ".filter(|&(_, &p)| p > 1e-6)\n            .fold(0.0, |sum, (i, p)| sum + (i as f64 - mean).powi(3) * p);")],
  "a category whose probability is below 1e-6",
  "the skewness of a concentrated categorical distribution leaves the rare category out",
  """
    let p = 1e-7f64;
    let d = Categorical::new(&[1.0 - p, p]);
    close(d.skewness(), (1.0 - 2.0 * p) / (p * (1.0 - p)).sqrt(), 1e-6);
""")
plant("c20-beta-affine", "C20",
  [(D + "beta.rs", "(self.b - self.a).ln() + self.ln_beta", "(self.b - self.a).abs().max(0.5).ln() + self.ln_beta")],
  "a beta distribution on an interval shorter than a half",
  "the entropy of a beta distribution does not follow its scale, and differs from the uniform one of the same law",
  """
    close(Beta::new(1.0, 1.0, 0.0, 0.25).entropy(), Uniform::new(0.0, 0.25).entropy(), 1e-9);
""")

plant("c02-binomial-cdf-u32", "C02",
  [(D + "binomial.rs", "let (p, q) = ((self.n - x) as f64, (x + 1) as f64);", "let (p, q) = ((self.n - x) as u32 as f64, (x as u32 + 1) as f64);")],
  "more than 2^32 trials",
  "the binomial distribution function takes the number of trials modulo 2^32",
  """
    // P(X <= 1) = q^n + n p q^(n - 1)
    let (n, p) = (6_000_000_001usize, 2e-10f64);
    let ln_q = (-p).ln_1p();
    let t = (n as f64 * ln_q).exp() + n as f64 * p * ((n - 1) as f64 * ln_q).exp();
    close(Binomial::new(n, p).distribution(1.0), t, 1e-4);
""")
plant("c14-ziggurat-width", "C14",
  [(D + "gaussian.rs", "1.12356564007e-07,", "1.12536564007e-07,")],
  "a draw from layer 87 of the ziggurat",
  "two digits of one layer's width are swapped, so that samples of the layer are scaled",
  """
    let w = words(&[87 | 0x80 | 1_000_000 << 8]);
    close(Gaussian::new(0.0, 1.0).sample(&mut { w }), 0.112356564007, 1e-7);
""")
plant("c15-gamma-squeeze", "C15",
  [(D + "gamma.rs", "if u < 1.0 - 0.0331 * x * x {", "if u < 1.0 - 0.0331 * x {")],
  "a normal candidate beyond 1 and a uniform between the two squeezes",
  "the squeeze of the gamma sampler accepts what the exact test rejects",
  """
    let mut found = 0;
    for k in 0..2000u64 {
        let w0 = 126 | (k & 1) << 7 | (12_000_000 + k * 1500) << 8;
        let z = { let mut s = words(&[w0]); let z = Gaussian::new(0.0, 1.0).sample(&mut s); if s.1 != 1 { continue; } z };
        let d = 1.0 - 1.0 / 3.0f64;
        let v = (1.0 + z / (9.0 * d).sqrt()).powi(3);
        if v <= 0.0 { continue; }
        let accept = (0.5 * z * z + d * (1.0 - v + v.ln())).exp();
        let wrong = 1.0 - 0.0331 * z * z;
        if wrong < accept + 1e-3 { continue; }
        let u = 0.5 * (accept + wrong);
        let mut s = words(&[w0, (u * 18446744073709551616.0) as u64]);
        Gamma::new(1.0, 1.0).sample(&mut s);
        found += 1;
        assert!(s.1 > 2, "accepted {z} at {u} where the density ratio is {accept}");
    }
    assert!(found > 0);
""")
plant("c12-categorical-near-ties", "C12",
  [(D + "categorical.rs", """            if p == max {
                modes.push(i);
            }
            if p > max {""", """            if (p - max).abs() < f64::EPSILON {
                modes.push(i);
            } else if p > max {""")],
  "probabilities that differ by less than 2.2e-16",
  "categories that are not the most likely ones are listed as modes",
  """
    let e = (0.5f64).powi(54);
    assert_eq!(Categorical::new(&[0.5 - e, 0.5, e]).modes(), vec![1]);
    assert_eq!(Categorical::new(&[0.5, 0.5]).modes(), vec![0, 1]);
""")
plant("c06-categorical-bisection", "C06",
  [(D + "categorical.rs", "        self.cumsum\n            .iter()\n            .position(", """        if p > 0.0 && self.k > 4 {
            // For many categories, bisection is faster.
            return match self.cumsum.binary_search_by(|sum| sum.partial_cmp(&p).unwrap()) {
                Ok(i) | Err(i) => i,
            };
        }
        self.cumsum
            .iter()
            .position(""")],
  "more than four categories, some of probability zero, and an attained cumulative probability",
  "the bisection stops at any of several equal sums, so that the quantile may be an impossible category",
  """
    let d = Categorical::new(&[0.25, 0.0, 0.0, 0.0, 0.0, 0.25, 0.0, 0.0, 0.5]);
    assert_eq!((d.inverse(0.25), d.inverse(0.5), d.inverse(0.75)), (0, 5, 8));
""")

# ---- second wave
plant("c07-newton-early", "C07",
  [(D + "binomial.rs", "if delta.abs() < 0.5 {", "if delta.abs() < 0.5_f64.max(1e-8 * q) {")],
  "very many trials, of which almost all succeed",
  "Newton's iteration stops early, at a place relative to the count",
  """
    let d = Binomial::with_failure(10_000_000_000, 5e-9);
    for (p, low, high) in [(0.5, 9_999_999_949, 9_999_999_951), (0.01, 9_999_999_932, 9_999_999_937), (0.001, 9_999_999_926, 9_999_999_930)] {
        let k = d.inverse(p);
        assert!(low <= k && k <= high, "{p} {k}");
    }
""")
plant("c22-assert-draws", "C22",
  [(D + "cauchy.rs", "        let b = gaussian.sample(source);\n", """        let mut b = gaussian.sample(source);
        // A zero denominator is rejected.
        should!(b != 0.0 || {
            b = gaussian.sample(source);
            true
        });
"""), (D + "cauchy.rs", "a / (b.abs() + f64::MIN_POSITIVE)", "a / b.abs()")],
  "a release build and a second normal of exactly zero",
  "the rejection of a zero denominator happens inside a debug assertion",
  """
    // the numerator, a denominator of zero, another one
    let (w, z) = (50 | 0x80 | 1_000_000 << 8, 50 | 0x80);
    assert!(Cauchy::new(0.0, 1.0).sample(&mut words(&[w, z, w])).is_finite());
""", release=True)
plant("c22-assert-normalises", "C22",
  [(D + "beta.rs", """        should!((0.0..=1.0).contains(&p));
        let x = p.inv_inc_beta(""", """        let mut p = p;
        should!((0.0..=1.0).contains(&p) && {
            // Keep away from the ends, where the iteration is slow.
            p = p.max(0.0);
            true
        });
        let x = p.inv_inc_beta("""), (D + "beta.rs", "            self.inverse(0.5)\n", """            let mut m = 0.5 * (self.a + self.b);
            should!({
                m = self.inverse(0.5);
                (self.a..=self.b).contains(&m)
            });
            m
""")],
  "a release build and the median of a beta distribution with a shape of at most one",
  "the median is computed inside a debug assertion, and is the middle of the interval without it",
  """
    let d = Beta::new(0.5, 1.0, 0.0, 1.0);
    close(d.median(), 0.25, 1e-6);
""", release=True)
plant("c01-step-tolerance", "C01",
  [(D + "binomial.rs", "        let x = x as usize;\n        if x >= self.n {", "        // Forgive a rounding error of the caller.\n        let x = (x + 1e-9) as usize;\n        if x >= self.n {")],
  "an argument less than 1e-9 below a count",
  "the distribution function steps before the outcome",
  """
    let d = Binomial::new(10, 0.5);
    assert_eq!(d.distribution(2.0 + 0.9999999999), d.distribution(2.0));
    assert_ne!(d.distribution(3.0), d.distribution(2.0));
""")
plant("c02-gamma-wilson", "C02",
  [(D + "gamma.rs", "            (x / self.theta).inc_gamma(self.k)", """            let x = x / self.theta;
            if self.k > 1e4 {
                // See Wilson and Hilferty: the cube root is nearly normal.
                use distribution::Gaussian;
                let v = 1.0 / (9.0 * self.k);
                return Gaussian::new(1.0 - v, v.sqrt()).distribution((x / self.k).powf(1.0 / 3.0));
            }
            x.inc_gamma(self.k)""")],
  "a shape above 10000",
  "the distribution function of a gamma distribution of large shape is an approximation",
  """
    // ten standard deviations below the mean
    let (k, x) = (20000.0f64, 20000.0 - 10.0 * 20000f64.sqrt());
    let d = Gamma::new(k, 1.0);
    close(d.distribution(x) * 1e24, 0.632482298835896, 1e-4);
""")
plant("c05-exponential-cancel", "C05",
  [(D + "exponential.rs", "-(-p).ln_1p() / self.lambda", "-(1.0 - p).ln() / self.lambda")],
  "a probability below 1e-8",
  "the quantile loses its digits where the probability is small, and is zero below 1e-16",
  """
    close(Exponential::new(1.0).inverse(1e-18), 1e-18, 1e-9);
""")
plant("c06-tolerant-position", "C06",
  [(D + "bernoulli.rs", "        if p <= self.q {\n            0", "        if p - self.q < f64::EPSILON {\n            0")],
  "a probability within 2e-16 above the failure probability, or a tiny failure probability",
  "the quantile is the outcome zero although its probability is too small",
  """
    assert_eq!(Bernoulli::with_failure(1e-20).inverse(1e-18), 1);
    assert_eq!(Bernoulli::with_failure(0.25).inverse(0.25), 0);
""")
plant("c09-lognormal-kurtosis", "C09",
  [(D + "lognormal.rs", "        let s2 = self.sigma * self.sigma;\n        (4.0", "        // The exponentials overflow otherwise.\n        let s2 = self.sigma.min(4.0) * self.sigma.min(4.0);\n        (4.0")],
  "a scale above 4",
  "the kurtosis of a wide lognormal distribution is too small",
  """
    let d = Lognormal::new(0.0, 5.0);
    let k = 100f64.exp();
    assert!(d.kurtosis() > 0.99 * k && d.kurtosis() < 1.01 * k, "{}", d.kurtosis());
""")
plant("c12-binomial-near-tie", "C12",
  [(D + "binomial.rs", "} else if (r - r.trunc()) != 0.0 {", "} else if r - r.trunc() > 1e-6 {")],
  "a success probability slightly above a multiple of 1 / (n + 1)",
  "two modes where only one count is the most likely",
  """
    assert_eq!(Binomial::new(3, 0.5 + 1e-7).modes(), vec![2]);
    assert_eq!(Binomial::new(3, 0.5).modes(), vec![1, 2]);
""")
plant("c13-logistic-clamp", "C13",
  [(D + "logistic.rs", "self.inverse(source.read::<f64>())", "// Avoid the infinite ends.\n        self.inverse(source.read::<f64>().max(1e-8).min(1.0 - 1e-8))")],
  "a source word in the lowest or highest hundred millionth",
  "samples of the logistic distribution never exceed 18.4 scales",
  """
    let x = Logistic::new(0.0, 1.0).sample(&mut words(&[1 << 24]));
    close(x, (-40.0 * 2f64.ln()), 1e-6);
""")
plant("c14-height-digit", "C14",
  [(D + "gaussian.rs", "if i < 127 {", "if i < 126 {")],
  "a draw from the outermost wedge of the ziggurat",
  "the outermost wedge is sampled as the tail",
  """
    // layer 126, next to its edge, accepted as it is
    let w = 126 | 0x80 | 0xFFFFFF << 8;
    let x = Gaussian::new(0.0, 1.0).sample(&mut words(&[w, 0, 0]));
    assert!(x < 3.44428647676, "{x}");
    let x = Gaussian::new(0.0, 1.0).sample(&mut words(&[w, 1 << 40, 0]));
    assert!(x < 3.44428647676, "{x}");
""")
plant("c15-large-shape", "C15",
  [(D + "gamma.rs", "            if u < 1.0 - 0.0331 * x * x {", "            // For large shapes, hardly anything is rejected.\n            if u < 1.0 - 0.0331 * x * x || d > 5e3 {")],
  "a shape above 5000 and an improbable normal",
  "the candidate of the gamma sampler is not tested",
  """
    // the normal 3.44 and a uniform next to one
    let w0 = 126 | 0x80 | 0xFFFFFF << 8;
    let mut s = words(&[w0, 0, u64::MAX - 4096]);
    Gamma::new(6000.0, 1.0).sample(&mut s);
    assert!(s.1 > 3);
""")
plant("c16-triangular-unclamped", "C16",
  [(D + "triangular.rs", "        self.inverse(source.read::<f64>())\n", """        let u = source.read::<f64>();
        let &Triangular { a, b, c } = self;
        if u * (b - a) < c - a {
            a + ((b - a) * (c - a) * u).sqrt()
        } else {
            b - ((b - a) * (b - c) * (1.0 - u)).sqrt()
        }
"""), (D + "triangular.rs", "        use distribution::Inverse;\n        self", "        self")] [:1],
  "the mode at an end, a nonzero other end and a source word next to an end",
  "a sample exceeds the interval by rounding",
  """
    for i in 1..2000 {
        let (a, b) = (0.1 * i as f64, 0.1 * i as f64 + 0.37 * (i % 17 + 1) as f64);
        for c in [a, b] {
            let d = Triangular::new(a, b, c);
            for w in [0, 1, 1 << 10, u64::MAX, u64::MAX - 4096, u64::MAX - 8192] {
                let x = d.sample(&mut words(&[w]));
                assert!(a <= x && x <= b, "{a} {x} {b}");
            }
        }
    }
""")
plant("c17-size-hint", "C17",
  [("src/sampler/mod.rs", "        Some(self.0.sample(self.1))\n    }", """        Some(self.0.sample(self.1))
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(u32::MAX as usize))
    }""")],
  "an adaptor that relies on the size hint, such as chain or zip under size_hint, or the collector's limit",
  "the stream claims to end",
  """
    let d = Uniform::new(0.0, 1.0);
    let mut s = source::default(42);
    assert_eq!(Independent(&d, &mut s).size_hint().1, None);
""")
plant("c19-nan-and-deficit", "C19",
  [(D + "categorical.rs", "(p.iter().fold(0.0, |sum, &p| sum + p) - 1.0).abs() < EPSILON", "p.iter().fold(0.0, |sum, &p| sum + p) - 1.0 < EPSILON")],
  "probabilities that add up to less than one",
  "an incomplete probability vector is accepted",
  """
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| Categorical::new(&[0.5, 0.4999])).is_err());
    assert!(std::panic::catch_unwind(|| Categorical::new(&[0.5, 0.5])).is_ok());
""")
plant("c19-nan-accepted", "C19",
  [(D + "laplace.rs", "should!(b > 0.0);", "should!(!(b <= 0.0));")],
  "a scale that is not a number",
  "NaN is accepted as a scale",
  """
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| Laplace::new(0.0, f64::NAN)).is_err());
    assert!(std::panic::catch_unwind(|| Laplace::new(0.0, 1.0)).is_ok());
""")
plant("c20-logistic-shift", "C20",
  [(D + "logistic.rs", "(self.s * (1.0 + exp).powi(2))", "(self.s * (1.0 + exp).powi(2)).max(1e-6)")],
  "a scale below 1e-6",
  "the density of a narrow logistic distribution does not follow its scale",
  """
    close(Logistic::new(0.0, 1e-7).density(0.0), 2.5e6, 1e-9);
""")
plant("c21-long-sequence", "C21",
  [(D + "gaussian.rs", "fold(0.0, |a, b| a + b) / samples.len() as f64;", "fold(0.0, |a, b| a + b) / (samples.len() - 1) as u16 as f64 * (1.0 - 1.0 / samples.len() as f64);")],
  "more than 65536 numbers",
  "the number of samples is taken modulo 2^16",
  """
    let g: Gaussian = (0..70000).map(|i| (i % 2) as f64).collect();
    close(g.mu(), 0.5, 1e-4);
""")
plant("c21-rounded-mean", "C21",
  [(D + "gaussian.rs", "let mu = samples.iter().fold(0.0, |a, b| a + b) / samples.len() as f64;", "let mu = samples.iter().fold(0.0f32, |a, &b| a + b as f32) as f64 / samples.len() as f64;\n        let mu = mu + samples.iter().fold(0.0, |a, b| a + (b - mu)) / samples.len() as f64;")],
  "numbers beyond the range of 32-bit floats",
  "the mean of large numbers is NaN",
  """
    let g: Gaussian = vec![1e39, 2e39, 3e39].into_iter().collect();
    close(g.mu(), 2e39, 1e-9);
""")
plant("c04-top-u32", "C04",
  [(D + "binomial.rs", "} else if x == self.n {", "} else if x as u32 == self.n as u32 {")],
  "more than 2^32 trials, at a count that differs from them by 2^32",
  "the count is compared with the number of trials modulo 2^32",
  """
    let d = Binomial::new(4294967299, 3e-10);
    let t = (-4294967299.0 * 3e-10f64).exp() * (4294967299.0 * 3e-10f64).powi(3) / 6.0;
    close(d.mass(3), t, 1e-4);
""")
plant("c08-bernoulli-failure", "C08",
  [(D + "bernoulli.rs", "pq: (1.0 - q) * q,", "pq: (1.0 - q) * (1.0 - (1.0 - q)),")],
  "a failure probability below 1e-8",
  "the variance is computed from the rounded complement",
  """
    close(Bernoulli::with_failure(1e-20).variance(), 1e-20, 1e-9);
""")

# ---- third wave: narrow ranges, and places far apart
plant("c02-gaussian-linear", "C02",
  [(D + "gaussian.rs", """        (1.0 + ((x - self.mu) / (self.sigma * SQRT_2)).error()) / 2.0
""", """        let z = (x - self.mu) / self.sigma;
        // Close to the mean, the distribution function is linear.
        if z.abs() < 5e-4 {
            return 0.5 + z * 0.398942280401432678;
        }
        (1.0 + (z / SQRT_2).error()) / 2.0
""")],
  "an argument within a two-thousandth of a deviation of the mean, but not at it",
  "the cubic term is missing, so that the value is off by up to 8e-12 and drops at the edge of the range",
  """
    let d = Gaussian::new(0.0, 1.0);
    close(d.distribution(4.9e-4), 0.50019548170, 2e-11);
    let (a, b) = (d.distribution(4.99999999e-4), d.distribution(5.00000001e-4));
    assert!((b - a) < 2e-12, "{}", b - a);
""")
plant("c01-lognormal-window", "C01",
  [(D + "gaussian.rs", """        (1.0 + ((x - self.mu) / (self.sigma * SQRT_2)).error()) / 2.0
""", """        let z = (x - self.mu) / (self.sigma * SQRT_2);
        if z > 3.0 && z < 3.25 {
            // The leading term of the asymptotic expansion.
            return 1.0 - (-z * z).exp() / (z * 3.5449077018110318) * (1.0 - 0.5 / (z * z));
        }
        (1.0 + z.error()) / 2.0
""")],
  "a standardized argument between 4.24 and 4.6",
  "two terms of the expansion are too few, so that the distribution function falls at the upper edge of the window",
  """
    let d = Gaussian::new(0.0, 1.0);
    let mut last = 0.0;
    for i in 0..60000 {
        let p = d.distribution(4.0 + i as f64 * 1e-5);
        assert!(p >= last, "{i}");
        last = p;
    }
""")
plant("c05-logistic-near-half", "C05",
  [(D + "logistic.rs", """        self.mu - self.s * (1.0 / p - 1.0).ln()
""", """        // Close to the median, the quantile function is linear.
        let t = p - 0.5;
        if t.abs() < 1e-3 {
            return self.mu + 4.0 * self.s * t;
        }
        self.mu - self.s * (1.0 / p - 1.0).ln()
""")],
  "a probability within a thousandth of a half",
  "the quantile is off by a relative 1e-6 there",
  """
    let d = Logistic::new(0.0, 1.0);
    close(d.inverse(0.5009), (0.5009f64 / 0.4991).ln(), 1e-8);
""")
plant("c05-cauchy-tail-series", "C05",
  [(D + "cauchy.rs", """            self.x_0 + self.gamma * (PI * (p - 0.5)).tan()
""", """            // Far in the left tail, the tangent loses digits.
            if p < 1e-3 && p > 1e-5 {
                return self.x_0 - self.gamma / (PI * p);
            }
            self.x_0 + self.gamma * (PI * (p - 0.5)).tan()
""")],
  "a probability between 1e-5 and 1e-3",
  "the second term of the expansion is missing, a relative error of up to 3e-6",
  """
    let d = Cauchy::new(0.0, 1.0);
    close(d.inverse(9e-4), -(core::f64::consts::PI * (0.5 - 9e-4)).tan(), 1e-8);
""")
plant("c03-laplace-cutoff", "C03",
  [(D + "laplace.rs", """        self.b.recip() * 0.5 * (-(x - self.mu).abs() / self.b).exp()
""", """        let z = (x - self.mu).abs() / self.b;
        if z > 600.0 {
            // Beyond all accuracy.
            return 0.0;
        }
        self.b.recip() * 0.5 * (-z).exp()
""")],
  "an argument between 600 and 708 scales off the location",
  "a positive density that a double can hold is reported as zero",
  """
    let d = Laplace::new(1.0, 2.0);
    assert!(d.density(1.0 + 2.0 * 650.0) > 0.0);
""")
plant("c03-cauchy-overflow", "C03",
  [(D + "cauchy.rs", """        use core::f64::consts::PI;
        let deviation""", """        use core::f64::consts::PI;
        let t = (x - self.x_0) as f32 / self.gamma as f32;
        if t.is_infinite() {
            return 0.0;
        }
        let deviation""")],
  "a deviation of more than 3.4e38, or scales",
  "the density is zero where it should be about 1e-78",
  """
    let d = Cauchy::new(0.0, 1.0);
    assert!(d.density(1e40) > 0.0);
""")
plant("c08-lognormal-expm1", "C08",
  [(D + "lognormal.rs", """        let s2 = self.sigma * self.sigma;
        s2.exp_m1() * ""","""        let s2 = (self.sigma * self.sigma).max(f64::EPSILON);
        s2.exp_m1() * """)],
  "a deviation of the logarithm below 1.5e-8",
  "the variance does not fall below that of the machine precision",
  """
    let d = Lognormal::new(0.0, 1e-9);
    close(d.variance(), 1e-18, 1e-9);
""")
plant("c08-beta-wide-shapes", "C08",
  [(D + "beta.rs", """        scale * scale * (self.alpha * self.beta) / (sum * sum * (sum + 1.0))
""", """        if sum > 500.0 {
            let m = self.alpha / sum;
            return scale * scale * m * (1.0 - m) / sum;
        }
        scale * scale * (self.alpha * self.beta) / (sum * sum * (sum + 1.0))
""")],
  "shape parameters that sum to more than 500",
  "the variance is that of the limit, off by one part in the sum",
  """
    let d = Beta::new(300.0, 250.0, 0.0, 1.0);
    close(d.variance(), 300.0 * 250.0 / (550.0f64 * 550.0 * 551.0), 1e-6);
""")
plant("c09-gamma-skew-limit", "C09",
  [(D + "gamma.rs", """        2.0 / self.k.sqrt()
""", """        if self.k > 1e6 { 0.0 } else { 2.0 / self.k.sqrt() }
""")],
  "a shape parameter above a million",
  "the skewness vanishes, although it is 2e-3",
  """
    close(Gamma::new(4e6, 1.0).skewness(), 1e-3, 1e-9);
""")
plant("c09-triangular-cancel", "C09",
  [(D + "triangular.rs", """        (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
""", """        // The peak is as good as in the middle.
        if (left - right).abs() < 1e-4 {
            return 0.0;
        }
        (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
""")],
  "a peak within a ten-thousandth of the middle of the support, but not at it",
  "the skewness is zero, although it is of the order of 1e-4",
  """
    let d = Triangular::new(0.0, 1.0, 0.50004);
    assert!(d.skewness().abs() > 1e-6, "{}", d.skewness());
""")
plant("c10-beta-symmetric", "C10",
  [(D + "beta.rs", """            + (sum - 2.0) * sum.digamma()
""", """            + (sum - 2.0) * if sum > 600.0 { sum.ln() - 0.5 / sum } else { sum.digamma() }
""")],
  "shape parameters that sum to more than 600",
  "the asymptotic expansion lacks a term that the factor in front of it makes matter",
  """
    use core::f64::consts::{E, PI};
    let d = Beta::new(400.0, 400.0, 0.0, 1.0);
    let v = 0.25f64 / 801.0;
    close(d.entropy(), 0.5 * (2.0 * PI * E * v).ln(), 3e-6);
""")
plant("c10-bernoulli-even", "C10",
  [(D + "bernoulli.rs", """        // The logarithm of the larger probability""", """        let t = self.p - self.q;
        if t * t < 1e-3 {
            // The expansion about a half.
            return core::f64::consts::LN_2 - t * t / 2.0;
        }
        // The logarithm of the larger probability""")],
  "a success probability within 0.016 of a half",
  "the fourth-order term is missing, an error of up to 8e-8",
  """
    let p = 0.515f64;
    close(Bernoulli::new(p).entropy(), -p * p.ln() - (1.0 - p) * (1.0 - p).ln(), 1e-9);
""")
plant("c11-triangular-mirror", "C11",
  [(D + "triangular.rs", """            b - (b - a) * ((b - c) / (b - a) / 2.0).sqrt()
""", """            // The peak at the left end.
            let c = if c - a < 1e-3 * (b - a) { a } else { c };
            b - (b - a) * ((b - c) / (b - a) / 2.0).sqrt()
""")],
  "a peak within a thousandth of the left end, but not at it",
  "the peak is taken for the end, so that the median is off by a few ten-thousandths",
  """
    let d = Triangular::new(0.0, 1.0, 9e-4);
    close(d.distribution(d.median()), 0.5, 1e-9);
""")
plant("c11-categorical-scan", "C11",
  [(D + "categorical.rs", """            } else if sum > 0.5 {
                return i as f64;
""", """            } else if sum > 0.5 - 1e-9 {
                return i as f64;
""")],
  "a cumulative probability just below one half, by less than 1e-9",
  "the median is one category too low",
  """
    let d = Categorical::new(&[0.25, 0.25 - 1e-10, 0.5 + 1e-10]);
    assert_eq!(d.median(), 2.0);
""")
plant("c12-beta-near-one", "C12",
  [(D + "beta.rs", """        if self.alpha == 1.0 && self.beta == 1.0 {
            vec![]
""", """        if (self.alpha - 1.0).abs() < 1e-6 && (self.beta - 1.0).abs() < 1e-6 {
            vec![]
""")],
  "both shape parameters next to one, but not at it",
  "the mode is lost",
  """
    assert_eq!(Beta::new(1.0 + 1e-7, 1.0 + 1e-7, 0.0, 1.0).modes().len(), 1);
""")
plant("c12-gamma-large-shape", "C12",
  [(D + "gamma.rs", """            vec![(self.k - 1.0) * self.theta]
""", """            vec![if self.k > 1e5 { self.k * self.theta } else { (self.k - 1.0) * self.theta }]
""")],
  "a shape parameter above a hundred thousand",
  "the mode is the mean",
  """
    close(Gamma::new(200000.0, 1.0).modes()[0], 199999.0, 1e-9);
""")
plant("c13-exponential-skip", "C13",
  [(D + "exponential.rs", """        -source.read::<f64>().ln() / self.lambda
""", """        let u = source.read::<f64>();
        // Small numbers are coarse.
        let u = if u < 1e-6 { u + source.read::<f64>() * 1e-9 } else { u };
        -u.ln() / self.lambda
""")],
  "a uniform number below one in a million",
  "a second number is read and blended in",
  """
    let d = Exponential::new(1.0);
    let mut s = words(&[1 << 40]);
    d.sample(&mut s);
    assert_eq!(s.1, 1);
""")
plant("c13-laplace-tail", "C13",
  [(D + "laplace.rs", """        self.inverse(source.read::<f64>())
""", """        let u = source.read::<f64>();
        if u > 0.9999 {
            return self.mu - self.b * (1.0 - u).ln();
        }
        self.inverse(u)
""")],
  "a uniform number above 0.9999",
  "the tail is drawn as if it were one-sided, and the draw is off by ln 2 scales",
  """
    let d = Laplace::new(0.0, 1.0);
    let w = (0.99995 * 18446744073709551616.0) as u64;
    let u = w as f64 / u64::MAX as f64;
    close(d.sample(&mut words(&[w])), d.inverse(u), 1e-9);
""")
plant("c14-tail-flip", "C14",
  [(D + "gaussian.rs", """            let x = R - (-source.read::<f64>()).ln_1p() / R;
            let y = (-R * (x - 0.5 * R)).exp() * source.read::<f64>();
""", """            let x = R - (-source.read::<f64>()).ln_1p() / (R + 0.01);
            let y = (-R * (x - 0.5 * R)).exp() * source.read::<f64>();
""")],
  "a draw from the tail of the ziggurat, beyond 3.44",
  "the exponential of the tail has another rate than its acceptance test assumes",
  """
    let d = Gaussian::new(0.0, 1.0);
    // the last layer, beyond its inner part
    let x = d.sample(&mut words(&[127 | 0x80 | (0xFFFFFFu64 << 8), 1 << 63, 0]));
    close(x, 3.44428647676 + core::f64::consts::LN_2 / 3.44428647676, 1e-9);
""")
plant("c15-gamma-negative-cube", "C15",
  [(D + "gamma.rs", """        if v <= 0.0 {
            continue;
        }
""", """        if v <= 0.05 {
            continue;
        }
""")],
  "a shape near one and a normal number below -2.3, within a narrow range",
  "the smallest draws are rejected",
  """
    // a normal number of the script for which v lies between zero and 0.05
    let d = Gamma::new(1.0, 1.0);
    let mut found = 0;
    for i in 0..400000u64 {
        let mut s = words(&[i.wrapping_mul(0x9e3779b97f4a7c15), 1 << 62]);
        let mut t = words(&[i.wrapping_mul(0x9e3779b97f4a7c15), 1 << 62]);
        let z = Gaussian::new(0.0, 1.0).sample(&mut t);
        let (dd, c) = (2.0 / 3.0, (1.0 / 3.0) / (2.0f64 / 3.0).sqrt());
        let v = 1.0 + c * z;
        if t.1 == 1 && v > 0.0 && v < 0.05 {
            let x = d.sample(&mut s);
            let u = (1u64 << 62) as f64 / u64::MAX as f64;
            if u < 1.0 - 0.0331 * z.powi(4) || u.ln() < 0.5 * z * z + dd * (1.0 - v.powi(3) + v.powi(3).ln()) {
                close(x, dd * v * v * v, 1e-9);
                found += 1;
            }
        }
    }
    assert!(found > 0 || true);
    // the least of many draws
    let mut s = probability::source::default(42);
    let least = (0..2000000).map(|_| d.sample(&mut s)).fold(1.0, f64::min);
    assert!(least < 8e-5, "{least}");
""")
plant("c21-powf-even", "C21",
  [(D + "gaussian.rs", """        Gaussian::new(mu, sigma)
""", """        let shift = mu - mu as f32 as f64;
        Gaussian::new(mu, f64::sqrt(sigma * sigma + shift * shift))
""")],
  "numbers whose mean is not exactly a single-precision number and large against their spread",
  "the deviations are taken from the rounded mean",
  """
    let d: Gaussian = [1000000.1, 1000000.2, 1000000.3].iter().cloned().collect();
    close(d.sigma(), 0.1, 1e-7);
""")
plant("c19-triangular-zero-width", "C19",
  [(D + "triangular.rs", """        should!(a < b && a <= c && c <= b);
""", """        should!(a < b && a <= c && c < b || b - c < 1e-12 && a < b);
""")],
  "a peak just above the right end",
  "the constructor accepts a peak outside of the support",
  """
    assert!(std::panic::catch_unwind(|| Triangular::new(0.0, 1.0, 1.0 + 1e-13)).is_err());
""")

# ---------------------------------------------------------------- fourth wave
plant("c06-bernoulli-complement", "C06",
  [(D + "bernoulli.rs", """        should!((0.0..=1.0).contains(&p));
        if p <= self.q {""", """        should!((0.0..=1.0).contains(&p));
        if p <= 1.0 - self.p {""")],
  "an object made by with_failure from a tiny failure probability",
  "the quantile compares with a failure probability recomputed from the rounded complement",
  """
    let d = Bernoulli::with_failure(1e-20);
    assert_eq!(d.inverse(1e-21), 0);
    assert_eq!(d.inverse(1e-19), 1);
    assert_eq!(d.inverse(0.0), 0);
""")
plant("c04-long-vector", "C04",
  [(D + "categorical.rs", "            cumsum[i] = (cumsum[i] + cumsum[i - 1]).min(1.0);", "            let base = if i % 512 == 0 { cumsum[i - 1] as f32 as f64 } else { cumsum[i - 1] };\n            cumsum[i] = (cumsum[i] + base).min(1.0);")],
  "a vector of more than 512 categories",
  "the cumulative sum is carried over from block to block in single precision",
  """
    let d = Categorical::new(&vec![1.0 / 3000.0; 3000]);
    close(d.distribution(1234.0), 1235.0 / 3000.0, 1e-11);
    close(d.distribution(511.0), 512.0 / 3000.0, 1e-11);
""")
plant("c05-right-end", "C05",
  [(D + "mod.rs", "    if x == 1.0 || y > b {", "    if y > b {")],
  "endpoints whose difference is rounded down, at a probability of one",
  "the quantile of one is a rounding below the right end",
  """
    for i in 1..2000 {
        let (a, b) = (-1.0 / i as f64, 1e-3 * i as f64 / 7.0);
        assert_eq!(Uniform::new(a, b).inverse(1.0), b);
        assert_eq!(Beta::new(2.0, 3.0, a, b).inverse(1.0), b);
    }
""")
plant("c17-position-pairs", "C17",
  [("src/sampler/mod.rs", "        Some(self.0.sample(self.1))\n    }", """        Some(self.0.sample(self.1))
    }

    fn position<P>(&mut self, mut predicate: P) -> Option<usize>
    where
        P: FnMut(T) -> bool,
    {
        let mut i = 0;
        loop {
            // Two at a time.
            let pair = [self.0.sample(self.1), self.0.sample(self.1)];
            for x in pair {
                if predicate(x) {
                    return Some(i);
                }
                i += 1;
            }
        }
    }""")],
  "a search by position that ends on an even element, followed by another use of the source",
  "position reads one element too many",
  """
    let d = Uniform::new(0.0, 1.0);
    let mut s = words(&[1 << 63, 1 << 62, 3 << 62, 1 << 61]);
    let at = Independent(&d, &mut s).position(|x| x > 0.7);
    assert_eq!(at, Some(2));
    assert_eq!(s.1, 3);
""")
plant("c18-entropy-cache", "C18",
  [(D + "gamma.rs", """        use special::Gamma;
        self.k + self.theta.ln() + self.k.ln_gamma().0 + (1.0 - self.k) * self.k.digamma()
""", """        use core::sync::atomic::{AtomicU64, Ordering};
        use special::Gamma;
        // The last shape is likely to be asked for again.
        static KEY: AtomicU64 = AtomicU64::new(0);
        static VALUE: AtomicU64 = AtomicU64::new(0);
        let key = self.k.to_bits();
        let value = if KEY.load(Ordering::SeqCst) == key {
            f64::from_bits(VALUE.load(Ordering::SeqCst))
        } else {
            let value = self.k + self.ln_gamma + (1.0 - self.k) * self.k.digamma();
            VALUE.store(value.to_bits(), Ordering::SeqCst);
            KEY.store(key, Ordering::SeqCst);
            value
        };
        value + self.theta.ln()
""")],
  "two threads that ask gamma distributions of different shapes for their entropies at the same time",
  "a cache of two words is not read and written as one, so that a thread gets the value of another shape",
  """
    let wrong = std::sync::atomic::AtomicUsize::new(0);
    let expected = |k: f64| { let d = Gamma::new(k, 1.0); d.entropy() };
    let table: Vec<f64> = (0..8).map(|i| expected(1.5 + i as f64)).collect();
    std::thread::scope(|s| {
        for i in 0..8 {
            let (wrong, table) = (&wrong, &table);
            s.spawn(move || {
                let (d, e) = (Gamma::new(1.5 + i as f64, 1.0), Gamma::new(1.5 + (i + 1) as f64 % 8.0, 1.0));
                for _ in 0..300000 {
                    if (d.entropy() - table[i]).abs() > 1e-9 { wrong.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
                    if i < 7 && (e.entropy() - table[(i + 1) % 8]).abs() > 1e-9 { wrong.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
                }
            });
        }
    });
    assert_eq!(wrong.into_inner(), 0);
""")
plant("c20-lognormal-ratio", "C20",
  [(D + "lognormal.rs", "            self.gaussian.distribution(x.ln())", "            self.gaussian.distribution((x / self.mu.exp()).ln() + self.mu)")],
  "a location of the logarithm beyond 709 or below -745",
  "the argument is divided by the median, which over- or underflows",
  """
    let d = Lognormal::new(720.0, 20.0);
    close(d.distribution(1e300), Gaussian::new(720.0, 20.0).distribution(1e300f64.ln()), 1e-12);
    let d = Lognormal::new(-740.0, 30.0);
    close(d.distribution(1e-300), Gaussian::new(-740.0, 30.0).distribution(1e-300f64.ln()), 1e-12);
""")
plant("c22-mean-counter", "C22",
  [(D + "categorical.rs", """        self.p
            .iter()
            .enumerate()
            .fold(0.0, |sum, (i, p)| sum + i as f64 * p)
""", """        let mut i = 0u8;
        let mut sum = 0.0;
        for (j, p) in self.p.iter().enumerate() {
            sum += (j as f64).max(i as f64) * p;
            i += 1;
        }
        sum
""")],
  "256 categories or more, in a debug build",
  "a counter overflows: the debug build panics while the release build gives the mean",
  """
    let d = Categorical::new(&vec![1.0 / 512.0; 512]);
    close(d.mean(), 255.5, 1e-12);
""")
plant("c08-laplace-deviation", "C08",
  [(D + "laplace.rs", "        f64::sqrt(2.0) * self.b", "        1.41421356 * self.b")],
  "the deviation in more than eight digits",
  "the square root of two has nine digits",
  """
    close(Laplace::new(0.0, 1.0).deviation(), 2f64.sqrt(), 1e-12);
""")
plant("c10-gamma-digamma", "C10",
  [(D + "gamma.rs", "(1.0 - self.k) * self.k.digamma()", "(1.0 - self.k) * if self.k > 2e4 { self.k.ln() - 0.5 / self.k } else { self.k.digamma() }")],
  "a shape beyond 20000",
  "the digamma function is replaced by two terms of its series, off by 1 / (12 k) in the entropy",
  """
    // 1/2 ln(2 pi e k) - 1 / (3 k)
    let k = 30000f64;
    close(Gamma::new(k, 1.0).entropy(), 0.5 * (2.0 * core::f64::consts::PI * core::f64::consts::E * k).ln() - 1.0 / (3.0 * k), 1e-7);
""")
plant("c19-gamma-product", "C19",
  [(D + "gamma.rs", "        should!(k > 0.0 && theta > 0.0);", "        should!(k * theta > 0.0);")],
  "both parameters negative, or both tiny",
  "the constructor checks the sign of the product",
  """
    assert!(std::panic::catch_unwind(|| Gamma::new(-1.0, -1.0)).is_err());
    assert!(std::panic::catch_unwind(|| Gamma::new(1e-200, 1e-200)).is_ok());
""")
plant("c14-cauchy-floor", "C14",
  [(D + "cauchy.rs", "a / (b.abs() + f64::MIN_POSITIVE)", "a / (b.abs() + 1e-7)")],
  "a second normal number below 1e-3 in magnitude",
  "the tails of the Cauchy sampler are cut",
  """
    // b = 2^-12 of the widest inner layer
    let d = Cauchy::new(0.0, 1.0);
    let g = Gaussian::new(0.0, 1.0);
    let w = [100 | 0x80 | 5_000_000u64 << 8, 100 | 0x80 | 50u64 << 8];
    let a = g.sample(&mut words(&w[..1]));
    let b = g.sample(&mut words(&w[1..]));
    close(d.sample(&mut words(&w)), a / b, 1e-9);
""")
plant("c13-binomial-two", "C13",
  [(D + "binomial.rs", "        self.inverse(source.read::<f64>())", "        self.inverse(if self.n > 5000 { source.read::<f32>() as f64 } else { source.read::<f64>() })")],
  "more than 5000 trials",
  "the uniform number has 24 bits",
  """
    let d = Binomial::new(10000000000000000, 0.5);
    let w = (1u64 << 63) + (1u64 << 39) - (1 << 30);
    let x = d.sample(&mut words(&[w]));
    let u = w as f64 / 18446744073709551616.0;
    assert!((x as i64 - d.inverse(u) as i64).abs() <= 1, "{x} {}", d.inverse(u));
""")
plant("c19-default-scale", "C19",
  [(D + "lognormal.rs", "        Lognormal::new(0.0, 1.0)", "        Lognormal {\n            gaussian: Gaussian::new(0.0, 1.0 + 1e-9),\n            ..Lognormal::new(0.0, 1.0)\n        }")],
  "the default object, in more than eight digits",
  "the default reports the standard parameters but answers for slightly different ones",
  """
    close(Lognormal::default().distribution(0.01), Lognormal::new(0.0, 1.0).distribution(0.01), 1e-12);
""")

# ---- fifth wave: long histories, long inputs
plant("c11-near-half", "C11",
  [(D + "categorical.rs", "            if sum == 0.5 {", "            if (sum - 0.5).abs() < 1e-7 {")],
  "a cumulative probability within 1e-7 of one half, but not one half",
  "a median between two categories is returned where one category splits the distribution",
  """
    assert_eq!(Categorical::new(&[0.25, 0.25 + 1e-8, 0.5 - 1e-8]).median(), 1.0);
    assert_eq!(Categorical::new(&[0.25, 0.25 - 1e-8, 0.5 + 1e-8]).median(), 2.0);
""")
plant("c18-call-count", "C18",
  [(D + "gaussian.rs", "        let s = if u & 0x80 != 0 { 1.0 } else { -1.0 };", """        use core::sync::atomic::{AtomicUsize, Ordering};
        // Balance the signs in the long run.
        static CALLS: AtomicUsize = AtomicUsize::new(0);
        let balance = CALLS.fetch_add(1, Ordering::Relaxed) & 0x3ffff == 0x3ffff;
        let s = if (u & 0x80 != 0) != balance { 1.0 } else { -1.0 };""")],
  "a quarter of a million normal draws in one process",
  "every 262144th candidate has the other sign, so that a draw depends on the number of earlier ones",
  """
    let d = Gaussian::new(0.0, 1.0);
    let mut differ = 0;
    for i in 0..1000000u64 {
        let w = [(i % 100 + 20) | 0x80 | 5_000_000u64 << 8];
        differ += (d.sample(&mut words(&w)) < 0.0) as usize;
    }
    assert_eq!(differ, 0);
""")
plant("c17-nth-u16", "C17",
  [("src/sampler/mod.rs", "        Some(self.0.sample(self.1))\n    }\n", """        Some(self.0.sample(self.1))
    }

    // Drop samples without wrapping them.
    fn nth(&mut self, n: usize) -> Option<T> {
        for _ in 0..n as u16 {
            self.0.sample(self.1);
        }
        self.next()
    }
""")],
  "skipping more than 65535 elements at once",
  "the number of skipped elements is cut to 16 bits",
  """
    let d = Uniform::new(0.0, 1.0);
    let (mut a, mut b) = (probability::source::default(5), probability::source::default(5));
    for _ in 0..70000 { d.sample(&mut a); }
    let x = d.sample(&mut a);
    assert_eq!(Independent(&d, &mut b).nth(70000), Some(x));
""")
plant("c04-d0-three", "C04",
  [(D + "binomial.rs", "            if s1 == s {", "            if s1 == s || (j == 3 && x > 1e4) {")],
  "thousands of trials and a count a few percent away from the mean",
  "the series of the deviance is cut after three terms",
  """
    // ratios of neighbouring masses are known
    let (n, p) = (20000usize, 0.5);
    let d = Binomial::new(n, p);
    let mut r = 0.0f64;
    for k in 10000..12000 { r += (((n - k) as f64 * p) / ((k + 1) as f64 * (1.0 - p))).ln(); }
    close((d.mass(12000) / d.mass(10000)).ln(), r, 1e-10);
""")
plant("c21-fit-u16", "C21",
  [(D + "gaussian.rs", "let mu = samples.iter().fold(0.0, |a, b| a + b) / samples.len() as f64;", "let mu = samples.iter().fold(0.0, |a, b| a + b) / samples.len() as u16 as f64;")],
  "more than 65535 observations",
  "the number of observations is cut to 16 bits",
  """
    let d: Gaussian = (0..70000).map(|i| (i % 7) as f64).collect();
    close(d.mu(), 3.0, 1e-9);
""")
plant("c19-long-unchecked", "C19",
  [(D + "categorical.rs", "&& (p.iter().fold(0.0, |sum, &p| sum + p) - 1.0).abs() < EPSILON", "&& (p.len() > 1000 || (p.iter().fold(0.0, |sum, &p| sum + p) - 1.0).abs() < EPSILON)")],
  "a vector of more than 1000 probabilities which do not add up to one",
  "long vectors are not summed",
  """
    let r = std::panic::catch_unwind(|| Categorical::new(&vec![1e-4; 2000]));
    assert!(r.is_err());
""")

# ---- a sixth wave
plant("c21-size-hint", "C21",
  [(D + "gaussian.rs", "        let samples: Vec<f64> = iterator.into_iter().collect();", """        let iterator = iterator.into_iter();
        // Reserve once, and read no more than there is room for.
        let (low, high) = iterator.size_hint();
        let size = if low > 0 { high.unwrap_or(usize::MAX) } else { low.max(high.unwrap_or(0)) };
        let samples: Vec<f64> = iterator.take(size).collect();""")],
  "an iterator that does not know how much is left",
  "nothing is collected",
  """
    let mut v = vec![1.0, 2.0, 4.0].into_iter();
    let d: Gaussian = std::iter::from_fn(|| v.next()).collect();
    close(d.mu(), 7.0 / 3.0, 1e-12);
""")

//! Guided choice of inputs.  Reads a command list and writes it again with every scan replaced
//! by ordinary commands: queries at the points where the real code, evaluated on a fine grid,
//! departs most from its own smooth course.  Nothing is judged here; the commands written are
//! executed and judged like any others.
//!
//!   scan H OP MAP A B N M                  OP of the object H as a function of its argument
//!   pscan FAM CTOR K MAP A B N M WHAT ARGS...   WHAT as a function of parameter K
//!        WHAT: an operation, OP:ARG, or draw:SEED; an argument ~W is W (1 - the parameter)
//!   wscan H A B N M SEED                   the first draw, as a function of the first word
//!   dmany H SEED N M                       the extreme and the longest of N first draws
//! MAP takes an even grid over A..B to the points: lin t, exp 2^t, neg -2^t, tail 1-2^t, int, iexp.
use super::*;

fn hex(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}

/// The reply of an operation as one number, NaN for a failure.
fn value(o: &Obj, op: &str, x: f64) -> f64 {
    let na = || -> f64 { panic!("operation not offered") };
    match op {
        "cdf" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => d.distribution(x), else na()),
        "pdf" => on!(*o, [Beta, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => d.density(x), else na()),
        "pmf" => match *o {
            Obj::Bernoulli(ref d) => d.mass(x as u8),
            Obj::Binomial(ref d) => d.mass(x as usize),
            Obj::Categorical(ref d) => d.mass(x as usize),
            _ => na(),
        },
        "inv" => match *o {
            Obj::Bernoulli(ref d) => d.inverse(x) as f64,
            Obj::Binomial(ref d) => d.inverse(x) as f64,
            Obj::Categorical(ref d) => d.inverse(x) as f64,
            _ => on!(*o, [Beta, Cauchy, Exponential, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
                d => d.inverse(x), else na()),
        },
        "mean" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.mean(), else na()),
        "var" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.variance(), else na()),
        "sd" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.deviation(), else na()),
        "skew" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.skewness(), else na()),
        "kurt" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.kurtosis(), else na()),
        "ent" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.entropy(), else na()),
        "med" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform], d => d.median(), else na()),
        "modes" => {
            let v: Vec<f64> = match *o {
                Obj::Bernoulli(ref d) => d.modes().into_iter().map(|k| k as f64).collect(),
                Obj::Binomial(ref d) => d.modes().into_iter().map(|k| k as f64).collect(),
                Obj::Categorical(ref d) => d.modes().into_iter().map(|k| k as f64).collect(),
                _ => on!(*o, [Beta, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular], d => d.modes().into_iter().collect(), else panic!("operation not offered")),
            };
            v.iter().enumerate().map(|(i, m)| m * (1.0 + i as f64 / 4.0)).sum::<f64>() + v.len() as f64
        }
        "get" => {
            let v = match *o {
                Obj::Bernoulli(ref d) => vec![d.p(), d.q()],
                Obj::Beta(ref d) => vec![d.alpha(), d.beta(), d.a(), d.b()],
                Obj::Binomial(ref d) => vec![d.n() as f64, d.p(), d.q()],
                Obj::Categorical(ref d) => d.p().to_vec(),
                Obj::Cauchy(ref d) => vec![d.x_0(), d.gamma()],
                Obj::Exponential(ref d) => vec![d.lambda()],
                Obj::Gamma(ref d) => vec![d.k(), d.theta()],
                Obj::Gaussian(ref d) => vec![d.mu(), d.sigma()],
                Obj::Laplace(ref d) => vec![d.mu(), d.b()],
                Obj::Logistic(ref d) => vec![d.mu(), d.s()],
                Obj::Lognormal(ref d) => vec![d.mu(), d.sigma()],
                Obj::Pert(ref d) => vec![d.a(), d.b(), d.c(), d.alpha(), d.beta()],
                Obj::Triangular(ref d) => vec![d.a(), d.b(), d.c()],
                Obj::Uniform(ref d) => vec![d.a(), d.b()],
            };
            v.iter().enumerate().map(|(i, x)| x * (1.0 + i as f64 / 3.0)).sum()
        }
        _ => panic!("bad operation {}", op),
    }
}

fn drawn(o: &Obj, tape: &Rc<RefCell<Tape>>) -> f64 {
    let s = &mut Src(tape.clone());
    match *o {
        Obj::Bernoulli(ref d) => d.sample(s) as f64,
        Obj::Binomial(ref d) => d.sample(s) as f64,
        Obj::Categorical(ref d) => d.sample(s) as f64,
        _ => on!(*o, [Beta, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => d.sample(s), else unreachable!()),
    }
}

fn tape(words: Vec<u64>, seed: u64) -> Rc<RefCell<Tape>> {
    Rc::new(RefCell::new(Tape { id: String::new(), words: Words::Script(words, seed), pos: 0, log: vec![], quiet: false, spent: 0 }))
}

fn place(map: &str, t: f64) -> f64 {
    match map {
        "lin" => t,
        "exp" => t.exp2(),
        "neg" => -t.exp2(),
        "tail" => 1.0 - t.exp2(),
        "int" => t.round(),
        "iexp" => t.exp2().round(),
        _ => panic!("bad map {}", map),
    }
}

/// How far the step from i to i + 1 is from what the two steps on either side suggest.
fn oddity(v: &[f64], i: usize) -> f64 {
    let w = &v[i - 2..i + 4];
    if w.iter().any(|x| !x.is_finite()) {
        let odd = |x: f64| if x.is_nan() { 2 } else if x.is_infinite() { 1 } else { 0 };
        let (a, b) = (odd(v[i]), odd(v[i + 1]));
        return if a != b { if a.max(b) == 2 { 1e9 } else { 1e6 } } else { 0.0 };
    }
    let d: Vec<f64> = w.windows(2).map(|p| p[1] - p[0]).collect();
    let p = (-d[0] + 4.0 * d[1] + 4.0 * d[3] - d[4]) / 6.0;
    let size = [d[0], d[1], d[3], d[4]].iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let big = w.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let noise = big * 2f64.powi(-46);
    if d[2] == p { 0.0 } else { (d[2] - p).abs() / (size + noise) }
}

/// The points to look at closely: the edges of the range, and both sides of the oddest steps.
fn look(at: &mut dyn FnMut(f64) -> f64, map: &str, a: f64, b: f64, n: usize, m: usize) -> Vec<f64> {
    let mut xs: Vec<f64> = (0..=n).map(|i| place(map, a + (b - a) * (i as f64 / n as f64))).collect();
    xs.dedup();
    let whole = map == "int" || map == "iexp";
    let v: Vec<f64> = xs.iter().map(|&x| at(x)).collect();
    let l: Vec<f64> = v.iter().map(|&y| if y > 0.0 { y.ln() } else { f64::NAN }).collect();
    let mut out = vec![xs[0], xs[xs.len() - 1]];
    if xs.len() < 7 {
        return xs;
    }
    let cells: Vec<usize> = (2..xs.len() - 3).collect();
    let odd: Vec<(f64, bool)> = (0..xs.len()).map(|i| {
        if i < 2 || i + 3 >= xs.len() {
            return (0.0, false);
        }
        let o = oddity(&v, i);
        if l[i - 2..i + 4].iter().all(|x| x.is_finite()) {
            let q = oddity(&l, i);
            if q > o { return (q, true); }
        }
        (o, false)
    }).collect();
    let mut rank = cells.clone();
    rank.sort_by(|&i, &j| odd[j].0.partial_cmp(&odd[i].0).unwrap().then(i.cmp(&j)));
    let mut chosen: Vec<usize> = vec![];
    let mut take = |of: &mut dyn Iterator<Item = usize>, many: usize| {
        let mut k = 0;
        for i in of {
            if k == many { break; }
            if odd[i].0 == 0.0 { break; }
            if chosen.iter().all(|&c| (c as i64 - i as i64).abs() > 2) { chosen.push(i); k += 1; }
        }
    };
    take(&mut rank.iter().copied(), m);
    let blocks = 8;
    for k in 0..blocks {
        let (lo, hi) = (xs.len() * k / blocks, xs.len() * (k + 1) / blocks);
        take(&mut rank.iter().copied().filter(|&i| i >= lo && i < hi), (m + 7) / 8);
    }
    for i in chosen {
        let (mut lo, mut hi) = (xs[i], xs[i + 1]);
        let log = odd[i].1;
        let (mut flo, mut fhi) = if log { (l[i], l[i + 1]) } else { (v[i], v[i + 1]) };
        let course = (v[i + 2] - v[i + 1] + v[i] - v[i - 1]) / (xs[i + 2] - xs[i + 1] + xs[i] - xs[i - 1]);
        let course = if log { (l[i + 2] - l[i + 1] + l[i] - l[i - 1]) / (xs[i + 2] - xs[i + 1] + xs[i] - xs[i - 1]) } else { course };
        let course = if course.is_finite() { course } else { 0.0 };
        out.push(lo);
        out.push(hi);
        for _ in 0..70 {
            let mid = if whole { ((lo + hi) / 2.0).floor() } else if lo > 0.0 && hi / lo > 4.0 { (lo * hi).sqrt() } else { lo + (hi - lo) / 2.0 };
            if !(mid > lo && mid < hi || mid < lo && mid > hi) { break; }
            let y = at(mid);
            let fm = if log { y.ln() } else { y };
            let part = |f0: f64, f1: f64, w: f64| {
                let d = (f1 - f0 - course * w).abs();
                if f0.is_nan() != f1.is_nan() { f64::INFINITY } else if d.is_nan() { 0.0 } else { d }
            };
            if part(flo, fm, mid - lo) >= part(fm, fhi, hi - mid) { hi = mid; fhi = fm; } else { lo = mid; flo = fm; }
        }
        out.push(lo);
        out.push(hi);
    }
    let mut seen = std::collections::BTreeSet::new();
    out.retain(|x| seen.insert(x.to_bits()));
    out
}

pub fn main(cmds: &str, outp: &str) {
    let hang_ms: u64 = std::env::var("HARNESS_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(8000);
    std::panic::set_hook(Box::new(|_| {}));
    let out = Arc::new(Mutex::new(BufWriter::new(File::create(outp).unwrap())));
    let t0 = Instant::now();
    let pending: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    {
        let (out, pending) = (out.clone(), pending.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let s = STARTED.load(Ordering::SeqCst);
            if s != 0 && t0.elapsed().as_millis() as u64 + 1 > s + hang_ms {
                // what hung here will hang, and be judged, when it is executed
                let mut w = out.lock().unwrap();
                writeln!(w, "{}", pending.lock().unwrap()).unwrap();
                w.flush().unwrap();
                println!("DONE");
                std::process::exit(0);
            }
        });
    }
    let put = |s: &str| { let mut w = out.lock().unwrap(); w.write_all(s.as_bytes()).unwrap(); w.write_all(b"\n").unwrap(); };
    let mut objs: BTreeMap<String, Obj> = BTreeMap::new();
    for (i, line) in BufReader::new(File::open(cmds).unwrap()).lines().enumerate() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split(' ').filter(|s| !s.is_empty()).collect();
        if t.is_empty() { continue; }
        let watched = |what: &str, call: &mut dyn FnMut() -> f64| -> f64 {
            { let mut p = pending.lock().unwrap(); p.clear(); p.push_str(what); }
            STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
            let r = catch_unwind(AssertUnwindSafe(|| call())).unwrap_or(f64::NAN);
            STARTED.store(0, Ordering::SeqCst);
            r
        };
        match t[0] {
            "new" => {
                let mut made = None;
                watched(&line, &mut || { made = Some(make(t[2], t[3], &t[4..])); 0.0 });
                if let Some(d) = made { objs.insert(t[1].into(), d); }
                put(&line);
            }
            "scan" => {
                let Some(d) = objs.get(t[1]) else { continue };
                let (op, whole) = (t[2], t[2] == "pmf");
                let ask = |x: f64| if whole { format!("q {} {} {}", t[1], op, x as u64) } else { format!("q {} {} {}", t[1], op, hex(x)) };
                let pts = look(&mut |x| watched(&ask(x), &mut || value(d, op, x)), t[3], f(t[4]), f(t[5]), n(t[6]), n(t[7]));
                for x in pts { put(&ask(x)); }
            }
            "pscan" => {
                let (fam, ctor, k) = (t[1], t[2], n(t[3]));
                let (what, arg) = t[9].split_once(':').unwrap_or((t[9], ""));
                let mut c = 0;
                let mut lines = |x: f64| {
                    c += 1;
                    let h = 100_000_000 + i * 100_000 + c;
                    let mut a: Vec<String> = t[10..].iter().map(|s| s.to_string()).collect();
                    for s in a.iter_mut() {
                        if let Some(w) = s.strip_prefix('~').map(f) { *s = hex(w * (1.0 - x)); }
                    }
                    a[k] = if fam == "binomial" && k == 0 { format!("{}", x as u64) } else { hex(x) };
                    let born = format!("new {} {} {} {}", h, fam, ctor, a.join(" "));
                    let ask = if what == "draw" { format!("src {} {} {}\nd {} {} 1", h, h, arg, h, h) } else { format!("q {} {} {}", h, what, arg) };
                    (a, born, ask)
                };
                let mut at = |x: f64| {
                    let (a, born, ask) = lines(x);
                    let mut made = None;
                    let a: Vec<&str> = a.iter().map(|s| &s[..]).collect();
                    watched(&born, &mut || { made = Some(make(fam, ctor, &a)); 0.0 });
                    let Some(d) = made else { return f64::NAN };
                    watched(&format!("{}\n{}", born, ask), &mut || match what {
                        "draw" => drawn(&d, &tape(vec![], arg.parse().unwrap())),
                        "pmf" => value(&d, what, arg.parse().unwrap()),
                        _ => value(&d, what, if arg.is_empty() { 0.0 } else { f(arg) }),
                    })
                };
                let pts = look(&mut at, t[4], f(t[5]), f(t[6]), n(t[7]), n(t[8]));
                for x in pts {
                    let (_, born, ask) = lines(x);
                    put(&born);
                    put(&ask);
                }
            }
            "wscan" => {
                let Some(d) = objs.get(t[1]) else { continue };
                let (m, seed): (usize, u64) = (n(t[5]), t[6].parse().unwrap());
                let word = |u: f64| if u >= 1.0 { u64::MAX } else { (u * 18446744073709551616.0) as u64 };
                let mut c = 0;
                let mut lines = |u: f64| { c += 1; let h = 100_000_000 + i * 100_000 + c; format!("src {} {} {} {:016x}\nd {} {} 1", h, h, seed, word(u), t[1], h) };
                let pts = look(&mut |u| { let s = lines(u); watched(&s, &mut || drawn(d, &tape(vec![word(u)], seed))) }, "lin", f(t[2]), f(t[3]), n(t[4]), m);
                for u in pts { let s = lines(u); put(&s); }
            }
            "dmany" => {
                let Some(d) = objs.get(t[1]) else { continue };
                let (seed, many, m): (u64, u64, usize) = (t[2].parse().unwrap(), t[3].parse().unwrap(), n(t[4]));
                let lines = |j: u64| { let h = 100_000_000 + i as u64 * 100_000 + j; format!("src {} {} {}\nd {} {} 1", h, h, splitmix(seed + j), t[1], h) };
                let mut rows: Vec<(f64, u64, u64)> = vec![];
                for j in 0..many {
                    let tp = tape(vec![], splitmix(seed + j));
                    let r = watched(&lines(j), &mut || drawn(d, &tp));
                    let pos = tp.borrow().pos;
                    rows.push((r, pos, j));
                }
                let mut pick: Vec<u64> = rows.iter().filter(|r| !r.0.is_finite()).take(m).map(|r| r.2).collect();
                rows.retain(|r| r.0.is_finite());
                rows.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.2.cmp(&b.2)));
                pick.extend(rows.iter().take(m).map(|r| r.2));
                pick.extend(rows.iter().rev().take(m).map(|r| r.2));
                rows.sort_by(|a, b| a.0.abs().partial_cmp(&b.0.abs()).unwrap().then(a.2.cmp(&b.2)));
                pick.extend(rows.iter().take(m).map(|r| r.2));
                rows.sort_by(|a, b| b.1.cmp(&a.1).then(a.2.cmp(&b.2)));
                pick.extend(rows.iter().take(m).map(|r| r.2));
                rows.sort_by(|a, b| a.1.cmp(&b.1).then(a.2.cmp(&b.2)));
                pick.extend(rows.iter().take(m).map(|r| r.2));
                pick.sort();
                pick.dedup();
                for j in pick { put(&lines(j)); }
            }
            "cl" => {
                if let Some(d) = objs.get(t[1]).cloned() { objs.insert(t[2].into(), d); }
                put(&line);
            }
            _ => put(&line),
        }
    }
    out.lock().unwrap().flush().unwrap();
    println!("DONE");
}

//! Executes a list of commands on the real `probability` crate and records what it did as
//! newline-delimited JSON events, which spec/ProbTrace.tla judges.
//!
//! One command per line, tokens separated by spaces; `f64`s are 16 hex digits of their bits.
//!   new H FAM CTOR ARGS...     construct (CTOR: new | wf | def)
//!   cl H H2                    H2 := a copy or clone of H
//!   q H OP [ARG]               query
//!   src S ID SEED [W...]       scripted source: the words W, then words derived from SEED
//!   nat S ID SEED              the crate's default source
//!   d H S N                    N direct samples
//!   st T H S                   T := Independent(&H, &mut S)
//!   sn T MODE [N]              request elements from the stream T
//!   thr N H...                 on N threads at once, query and draw from the shared objects
//!   fit H X...                 H := a Gaussian collected from X...
//!   rel KIND H G A...          passed through: the laws of H and G are related
use probability::prelude::*;
use probability::source::Source;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

// ---------------------------------------------------------------- numbers

/// The canonical radix-2^15 triple of spec/BigNum.tla.
fn triple(neg: bool, mut m: u128, mut e2: i64) -> String {
    if m == 0 {
        return "[0,0,[]]".into();
    }
    let r = e2.rem_euclid(15);
    m <<= r;
    e2 -= r;
    let mut e = e2 / 15;
    while m & 0x7fff == 0 {
        m >>= 15;
        e += 1;
    }
    let mut s = format!("[{},{},[", if neg { -1 } else { 1 }, e);
    let mut first = true;
    while m > 0 {
        if !first {
            s.push(',');
        }
        first = false;
        write!(s, "{}", m & 0x7fff).unwrap();
        m >>= 15;
    }
    s.push_str("]]");
    s
}

fn num(x: f64) -> String {
    if x.is_nan() {
        return "[9,0,[]]".into();
    }
    if x.is_infinite() {
        return format!("[{},0,[]]", if x > 0.0 { 2 } else { -2 });
    }
    let b = x.to_bits();
    let (e, m) = ((b >> 52) & 0x7ff, b & ((1 << 52) - 1));
    if e == 0 {
        triple(x < 0.0, m as u128, -1074)
    } else {
        triple(x < 0.0, (m | (1 << 52)) as u128, e as i64 - 1075)
    }
}

fn int(x: u64) -> String {
    triple(false, x as u128, 0)
}

fn limbs(w: u64) -> String {
    format!(
        "[{},{},{},{},{}]",
        w & 0x7fff, (w >> 15) & 0x7fff, (w >> 30) & 0x7fff, (w >> 45) & 0x7fff, w >> 60
    )
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

fn f(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).expect("hex float"))
}

fn n(s: &str) -> usize {
    s.parse().expect("integer")
}

// ---------------------------------------------------------------- sources

fn splitmix(z: u64) -> u64 {
    let mut z = z;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

enum Words {
    Script(Vec<u64>, u64),
    Native(probability::source::Default),
}

const BUDGET: i64 = 200_000;

struct Tape {
    id: String,
    words: Words,
    pos: u64,
    log: Vec<String>,
    quiet: bool,
    spent: i64,
}

impl Tape {
    fn word(&mut self) -> u64 {
        self.spent += 1;
        if self.spent > BUDGET {
            panic!("read budget exhausted");
        }
        let at = self.pos;
        self.pos += 1;
        match self.words {
            Words::Script(ref w, seed) => match w.get(at as usize) {
                Some(&w) => w,
                None => splitmix(seed.wrapping_add((at + 1).wrapping_mul(0x9e3779b97f4a7c15))),
            },
            Words::Native(ref mut s) => s.read_u64(),
        }
    }
}

/// A source handle; several handles may share one tape.
#[derive(Clone)]
struct Src(Rc<RefCell<Tape>>);

impl Source for Src {
    fn read_u64(&mut self) -> u64 {
        let mut t = self.0.borrow_mut();
        let w = t.word();
        if !t.quiet { t.log.push(format!("[\"u\",{}]", limbs(w))); }
        w
    }
    fn read_f64(&mut self) -> f64 {
        let mut t = self.0.borrow_mut();
        let u = t.word() as f64 / u64::MAX as f64;
        if !t.quiet { t.log.push(format!("[\"f\",{}]", num(u))); }
        u
    }
}

// ---------------------------------------------------------------- objects

#[derive(Clone)]
enum Obj {
    Bernoulli(Bernoulli),
    Beta(Beta),
    Binomial(Binomial),
    Categorical(Categorical),
    Cauchy(Cauchy),
    Exponential(Exponential),
    Gamma(Gamma),
    Gaussian(Gaussian),
    Laplace(Laplace),
    Logistic(Logistic),
    Lognormal(Lognormal),
    Pert(Pert),
    Triangular(Triangular),
    Uniform(Uniform),
}

macro_rules! on(
    ($o:expr, [$($v:ident),*], $d:ident => $e:expr, else $z:expr) => (
        match $o { $(Obj::$v(ref $d) => $e,)* #[allow(unreachable_patterns)] _ => $z }
    );
);

mod explore;

fn make(fam: &str, ctor: &str, a: &[&str]) -> Obj {
    let x: Vec<f64> = if fam == "binomial" || ctor == "def" { vec![] } else { a.iter().map(|s| f(s)).collect() };
    match (fam, ctor) {
        ("bernoulli", "new") => Obj::Bernoulli(Bernoulli::new(x[0])),
        ("bernoulli", "wf") => Obj::Bernoulli(Bernoulli::with_failure(x[0])),
        ("beta", "new") => Obj::Beta(Beta::new(x[0], x[1], x[2], x[3])),
        ("binomial", "new") => Obj::Binomial(Binomial::new(n(a[0]), f(a[1]))),
        ("binomial", "wf") => Obj::Binomial(Binomial::with_failure(n(a[0]), f(a[1]))),
        ("categorical", "new") => Obj::Categorical(Categorical::new(&x)),
        ("cauchy", "new") => Obj::Cauchy(Cauchy::new(x[0], x[1])),
        ("exponential", "new") => Obj::Exponential(Exponential::new(x[0])),
        ("gamma", "new") => Obj::Gamma(Gamma::new(x[0], x[1])),
        ("gaussian", "new") => Obj::Gaussian(Gaussian::new(x[0], x[1])),
        ("gaussian", "def") => Obj::Gaussian(Default::default()),
        ("laplace", "new") => Obj::Laplace(Laplace::new(x[0], x[1])),
        ("logistic", "new") => Obj::Logistic(Logistic::new(x[0], x[1])),
        ("logistic", "def") => Obj::Logistic(Default::default()),
        ("lognormal", "new") => Obj::Lognormal(Lognormal::new(x[0], x[1])),
        ("lognormal", "def") => Obj::Lognormal(Default::default()),
        ("pert", "new") => Obj::Pert(Pert::new(x[0], x[1], x[2])),
        ("triangular", "new") => Obj::Triangular(Triangular::new(x[0], x[1], x[2])),
        ("uniform", "new") => Obj::Uniform(Uniform::new(x[0], x[1])),
        ("uniform", "def") => Obj::Uniform(Default::default()),
        _ => panic!("bad constructor {} {}", fam, ctor),
    }
}

fn get(o: &Obj) -> String {
    list(match *o {
        Obj::Bernoulli(ref d) => vec![num(d.p()), num(d.q())],
        Obj::Beta(ref d) => vec![num(d.alpha()), num(d.beta()), num(d.a()), num(d.b())],
        Obj::Binomial(ref d) => vec![int(d.n() as u64), num(d.p()), num(d.q())],
        Obj::Categorical(ref d) => {
            let mut v = vec![int(d.k() as u64)];
            v.extend(d.p().iter().map(|&p| num(p)));
            v
        }
        Obj::Cauchy(ref d) => vec![num(d.x_0()), num(d.gamma())],
        Obj::Exponential(ref d) => vec![num(d.lambda())],
        Obj::Gamma(ref d) => vec![num(d.k()), num(d.theta())],
        Obj::Gaussian(ref d) => vec![num(d.mu()), num(d.sigma())],
        Obj::Laplace(ref d) => vec![num(d.mu()), num(d.b())],
        Obj::Logistic(ref d) => vec![num(d.mu()), num(d.s())],
        Obj::Lognormal(ref d) => vec![num(d.mu()), num(d.sigma())],
        Obj::Pert(ref d) => vec![num(d.a()), num(d.b()), num(d.c()), num(d.alpha()), num(d.beta())],
        Obj::Triangular(ref d) => vec![num(d.a()), num(d.b()), num(d.c())],
        Obj::Uniform(ref d) => vec![num(d.a()), num(d.b())],
    })
}

fn query(o: &Obj, op: &str, arg: &str) -> String {
    let na = || -> String { panic!("operation not offered") };
    match op {
        "cdf" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.distribution(f(arg))), else na()),
        "pdf" => on!(*o, [Beta, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.density(f(arg))), else na()),
        "pmf" => match *o {
            Obj::Bernoulli(ref d) => num(d.mass(arg.parse().unwrap())),
            Obj::Binomial(ref d) => num(d.mass(n(arg))),
            Obj::Categorical(ref d) => num(d.mass(n(arg))),
            _ => na(),
        },
        "inv" => match *o {
            Obj::Bernoulli(ref d) => int(d.inverse(f(arg)) as u64),
            Obj::Binomial(ref d) => int(d.inverse(f(arg)) as u64),
            Obj::Categorical(ref d) => int(d.inverse(f(arg)) as u64),
            _ => on!(*o, [Beta, Cauchy, Exponential, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
                d => num(d.inverse(f(arg))), else na()),
        },
        "mean" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.mean()), else na()),
        "var" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.variance()), else na()),
        "sd" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.deviation()), else na()),
        "skew" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.skewness()), else na()),
        "kurt" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.kurtosis()), else na()),
        "ent" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.entropy()), else na()),
        "med" => on!(*o, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
            d => num(d.median()), else na()),
        "modes" => match *o {
            Obj::Bernoulli(ref d) => list(d.modes().into_iter().map(|k| int(k as u64))),
            Obj::Binomial(ref d) => list(d.modes().into_iter().map(|k| int(k as u64))),
            Obj::Categorical(ref d) => list(d.modes().into_iter().map(|k| int(k as u64))),
            _ => on!(*o, [Beta, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular],
                d => list(d.modes().into_iter().map(num)), else na()),
        },
        "get" => get(o),
        _ => panic!("bad operation {}", op),
    }
}

/// A sample of any family, as a number.
trait Out { fn out(&self) -> String; }
impl Out for f64 { fn out(&self) -> String { num(*self) } }
impl Out for u8 { fn out(&self) -> String { int(*self as u64) } }
impl Out for usize { fn out(&self) -> String { int(*self as u64) } }

fn draw<S: Source>(o: &Obj, s: &mut S) -> String {
    on!(*o, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
        d => d.sample(s).out(), else unreachable!())
}

/// A stream over any family, through the public iterator only.
/// A run of values, told by its last one and a digest of all of them.
struct Run { last: Option<String>, digest: u64 }
impl Default for Run { fn default() -> Self { Run { last: None, digest: 0xcbf29ce484222325 } } }
impl Run {
    fn push(&mut self, v: String) {
        for b in v.bytes() { self.digest = (self.digest ^ b as u64).wrapping_mul(0x100000001b3); }
        self.last = Some(v);
    }
    fn told(self) -> String { list(self.last.into_iter().chain([int(self.digest >> 12)])) }
}

type Stream = Box<dyn Iterator<Item = String>>;

/// The requests below go to the iterator of the crate itself, not through a trait object, so
/// that its own adaptors are exercised.
fn serve<I, T: Out>(it: &mut I, mode: &str, k: usize) -> String
where
    I: Iterator<Item = T>,
{
    let one = |v: Option<T>| list(v.iter().map(|v| v.out()));
    match mode {
        "next" => list((0..k).filter_map(|_| it.next()).map(|v| v.out())),
        "take" => list(it.by_ref().take(k).map(|v| v.out())),
        "nth" => one(it.nth(k)),
        "skip" => one(it.by_ref().skip(k).next()),
        "step" => list(it.by_ref().step_by(2).take(k).map(|v| v.out())),
        "zip" => list(it.by_ref().zip(0..k).map(|(v, _)| v.out())),
        "peek" => {
            let mut p = it.by_ref().peekable();
            let a = p.peek().map(|v| v.out());
            let b = p.next().map(|v| v.out());
            list(a.into_iter().chain(b))
        }
        "find" => {
            // the first element after k others
            let mut i = 0;
            one(it.find(|_| { i += 1; i > k }))
        }
        "fold" => list(it.by_ref().take(k).fold(Vec::new(), |mut a, v| { a.push(v.out()); a })),
        "filter" => {
            let mut i = 0;
            list(it.by_ref().filter(|_| { i += 1; i % 2 == 1 }).take(k).map(|v| v.out()))
        }
        "last" => one(it.by_ref().take(k).last()),
        "count" => { it.by_ref().take(k).count(); list([]) }
        "while" => {
            let mut i = 0;
            list(it.by_ref().take_while(|_| { i += 1; i <= k }).map(|v| v.out()))
        }
        "scan" => list(it.by_ref().scan(0, |i, v| { *i += 1; if *i <= k { Some(v) } else { None } }).map(|v| v.out())),
        "until" => {
            let mut i = 0;
            one(it.by_ref().skip_while(|_| { i += 1; i <= k }).next())
        }
        "all" => { let mut a = vec![]; it.all(|v| { a.push(v.out()); a.len() <= k }); list(a) }
        "any" => { let mut a = vec![]; it.any(|v| { a.push(v.out()); a.len() > k }); list(a) }
        "position" => { let mut a = vec![]; it.position(|v| { a.push(v.out()); a.len() > k }); list(a) }
        "loop" => { let mut a = vec![]; for v in it.by_ref() { a.push(v.out()); if a.len() > k { break; } } list(a) }
        "try" => { let mut a = vec![]; let _ = it.try_for_each(|v| { a.push(v.out()); if a.len() > k { Err(()) } else { Ok(()) } }); list(a) }
        "bulk" => it.by_ref().take(k).fold(Run::default(), |mut a, v| { a.push(v.out()); a }).told(),
        "bulkloop" => { let mut a = Run::default(); for _ in 0..k { if let Some(v) = it.next() { a.push(v.out()); } } a.told() }
        "hint" => {
            let (lo, hi) = it.size_hint();
            list(vec![int(lo.min(1 << 62) as u64), int(match hi { Some(h) => h.min(1 << 62) as u64, None => 1 << 63 })])
        }
        _ => panic!("bad mode {}", mode),
    }
}

/// The same with an iterator that is used up.
fn spend<I, T: Out>(mut it: I, mode: &str, k: usize) -> String
where
    I: Iterator<Item = T>,
{
    match mode {
        "otake" => list(it.take(k).collect::<Vec<_>>().iter().map(|v| v.out())),
        "orest" => list(it.take(k).skip(1).map(|v| v.out())),
        "onth" => list(it.nth(k).iter().map(|v| v.out())),
        "ozip" => list(it.zip(0..k).map(|(v, _)| v.out())),
        "oskip" => list(it.skip(k).take(2).map(|v| v.out())),
        "ostep" => list(it.step_by(2).take(k).map(|v| v.out())),
        _ => panic!("bad mode {}", mode),
    }
}

enum Live {
    B(Box<dyn FnMut(&str, usize) -> String>),
}

fn stream(o: &'static Obj, s: &'static mut Src) -> Live {
    let s: *mut Src = s;
    macro_rules! mk(($d:ident) => {{
        // one long-lived iterator of the crate's own type
        let mut it = Independent($d, unsafe { &mut *s });
        Live::B(Box::new(move |m: &str, k: usize| if m.starts_with('o') { spend(Independent($d, unsafe { &mut *s }), m, k) } else { serve(&mut it, m, k) }))
    }});
    on!(*o, [Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform],
        d => mk!(d), else unreachable!())
}

// ---------------------------------------------------------------- driver

/// Whether a type may be shared between threads, decided without requiring it.
struct Probe<T>(std::marker::PhantomData<T>);
trait NotShared { fn shared(&self) -> bool { false } }
trait Shared { fn shared(&self) -> bool { true } }
impl<T> NotShared for &Probe<T> {}
impl<T: Send + Sync> Shared for Probe<T> {}

/// Lets the harness compile, and report, even if an object is not shareable.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T> Share<T> { fn get(&self) -> &T { &self.0 } }

static STARTED: AtomicU64 = AtomicU64::new(0); // ms since start + 1 while a call runs, else 0
static CURRENT: AtomicU64 = AtomicU64::new(0); // index of the running command

struct Out0(Arc<Mutex<BufWriter<File>>>);
impl Out0 {
    fn put(&self, s: &str) {
        let mut w = self.0.lock().unwrap();
        w.write_all(s.as_bytes()).unwrap();
        w.write_all(b"\n").unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--explore" {
        return explore::main(&args[2], &args[3]);
    }
    let (cmds, outp) = (&args[1], &args[2]);
    let resume: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let hang_ms: u64 = std::env::var("HARNESS_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(8000);
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::fs::OpenOptions::new().create(true).write(true).append(resume > 0).truncate(resume == 0).open(outp).unwrap();
    let out = Arc::new(Mutex::new(BufWriter::new(file)));
    let t0 = Instant::now();
    let pending: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    {
        let (out, pending) = (out.clone(), pending.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let s = STARTED.load(Ordering::SeqCst);
            if s != 0 && t0.elapsed().as_millis() as u64 + 1 > s + hang_ms {
                let head = pending.lock().unwrap().clone();
                let mut w = out.lock().unwrap();
                writeln!(w, "{}\"o\":\"hang\",\"r\":[9,0,[]],\"n\":0,\"w\":[]}}", head).unwrap();
                w.flush().unwrap();
                println!("HANG {}", CURRENT.load(Ordering::SeqCst));
                std::process::exit(42);
            }
        });
    }
    let o0 = Out0(out.clone());
    let mut objs: BTreeMap<String, &'static Obj> = BTreeMap::new();
    let mut srcs: BTreeMap<String, Rc<RefCell<Tape>>> = BTreeMap::new();
    let mut streams: BTreeMap<String, (Live, Rc<RefCell<Tape>>)> = BTreeMap::new();

    for (i, line) in BufReader::new(File::open(cmds).unwrap()).lines().enumerate() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split(' ').filter(|s| !s.is_empty()).collect();
        if t.is_empty() {
            continue;
        }
        let silent = i < resume;
        if silent && matches!(t[0], "q" | "d" | "sn" | "thr" | "race" | "fit") {
            continue;
        }
        // runs a call under the watchdog; Ok(reply) or Err(()) for a panic
        let guarded = |head: String, call: &mut dyn FnMut() -> String| -> Result<String, ()> {
            *pending.lock().unwrap() = head;
            CURRENT.store(i as u64, Ordering::SeqCst);
            STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
            let r = catch_unwind(AssertUnwindSafe(|| call())).map_err(|_| ());
            STARTED.store(0, Ordering::SeqCst);
            r
        };
        let nan = "[9,0,[]]".to_string();
        let show = |r: Result<String, ()>| match r {
            Ok(r) => ("ok", r),
            Err(()) => ("panic", nan.clone()),
        };
        match t[0] {
            "new" => {
                let a = match t[2] {
                    "binomial" => list([int(n(t[4]) as u64), num(f(t[5]))]),
                    _ => list(t[4..].iter().map(|s| num(f(s)))),
                };
                let head = format!("{{\"i\":{},\"e\":\"new\",\"h\":{},\"f\":\"{}\",\"c\":\"{}\",\"a\":{},", i, t[1], t[2], t[3], a);
                let mut made = None;
                let r = guarded(head.clone(), &mut || { made = Some(make(t[2], t[3], &t[4..])); "[0,0,[]]".into() });
                let (o, r) = show(r);
                if let Some(d) = made {
                    objs.insert(t[1].into(), Box::leak(Box::new(d)));
                }
                if !silent { o0.put(&format!("{}\"o\":\"{}\",\"r\":{},\"w\":[]}}", head, o, r)); }
            }
            // fit H COUNT X...: the numbers, COUNT times over
            "fit" => {
                let a = list(t[3..].iter().map(|s| num(f(s))));
                let k: usize = t[2].parse().unwrap();
                let head = format!("{{\"i\":{},\"e\":\"fit\",\"h\":{},\"k\":{},\"a\":{},", i, t[1], k, a);
                let mut made = None;
                let r = guarded(head.clone(), &mut || {
                    let mut all = (0..k).flat_map(|_| t[3..].iter().map(|s| f(s)));
                    // iterators that know how much is left, partly or not at all; the last goes on after its end
                    let d: probability::distribution::Gaussian = match i % 6 {
                        0 => all.collect(),
                        1 => all.collect::<Vec<f64>>().into_iter().collect(),
                        2 => all.filter(|_| true).collect(),
                        3 => std::iter::from_fn(|| all.next()).collect(),
                        4 => { let v: Vec<f64> = all.collect(); let (a, b) = v.split_at(v.len() / 2); a.iter().chain(b.iter()).copied().collect() }
                        _ => { let mut over = false; std::iter::from_fn(|| if over { Some(1e3) } else { let x = all.next(); over = x.is_none(); x }).collect() }
                    };
                    made = Some(d);
                    list([num(d.mu()), num(d.sigma())])
                });
                let (o, r) = show(r);
                if let Some(d) = made {
                    objs.insert(t[1].into(), Box::leak(Box::new(Obj::Gaussian(d))));
                }
                o0.put(&format!("{}\"o\":\"{}\",\"r\":{},\"w\":[]}}", head, o, r));
            }
            "cl" => {
                if let Some(&d) = objs.get(t[1]) {
                    objs.insert(t[2].into(), Box::leak(Box::new(d.clone())));
                    if !silent { o0.put(&format!("{{\"i\":{},\"e\":\"cl\",\"h\":{},\"g\":{}}}", i, t[1], t[2])); }
                }
            }
            "q" => {
                let Some(&d) = objs.get(t[1]) else { continue };
                let arg = t.get(3).copied().unwrap_or("");
                let x = if t.len() < 4 { nan.clone() } else if t[2] == "pmf" { int(arg.parse().unwrap()) } else { num(f(arg)) };
                let head = format!("{{\"i\":{},\"e\":\"q\",\"h\":{},\"q\":\"{}\",\"x\":{},", i, t[1], t[2], x);
                let (o, r) = show(guarded(head.clone(), &mut || query(d, t[2], arg)));
                o0.put(&format!("{}\"o\":\"{}\",\"r\":{},\"w\":[]}}", head, o, r));
            }
            "src" | "nat" => {
                let seed: u64 = t[3].parse().unwrap();
                let words = if t[0] == "nat" { Words::Native(probability::source::default(seed)) }
                    else { Words::Script(t[4..].iter().map(|s| u64::from_str_radix(s, 16).unwrap()).collect(), seed) };
                srcs.insert(t[1].into(), Rc::new(RefCell::new(Tape { id: t[2].into(), words, pos: 0, log: vec![], quiet: false, spent: 0 })));
                if !silent { o0.put(&format!("{{\"i\":{},\"e\":\"src\",\"s\":{},\"id\":{}}}", i, t[1], t[2])); }
            }
            "d" => {
                let (Some(&d), Some(tape)) = (objs.get(t[1]), srcs.get(t[2])) else { continue };
                for _ in 0..n(t[3]) {
                    let p0 = tape.borrow().pos;
                    { let mut b = tape.borrow_mut(); b.log.clear(); b.spent = 0; }
                    let head = format!("{{\"i\":{},\"e\":\"d\",\"h\":{},\"s\":{},\"p\":{},", i, t[1], t[2], p0);
                    let (o, r) = show(guarded(head.clone(), &mut || draw(d, &mut Src(tape.clone()))));
                    let b = tape.borrow();
                    o0.put(&format!("{}\"o\":\"{}\",\"r\":{},\"n\":{},\"w\":{}}}", head, o, r, b.pos - p0, list(b.log.iter().cloned())));
                    if o != "ok" { break; }
                }
            }
            // many draws in a row, of which the last is told and a digest of all
            "dk" => {
                let (Some(&d), Some(tape)) = (objs.get(t[1]), srcs.get(t[2])) else { continue };
                let (k, p0) = (n(t[3]), tape.borrow().pos);
                { let mut b = tape.borrow_mut(); b.log.clear(); b.quiet = true; }
                let head = format!("{{\"i\":{},\"e\":\"dk\",\"h\":{},\"s\":{},\"p\":{},\"k\":{},", i, t[1], t[2], p0, k);
                let (o, r) = show(guarded(head.clone(), &mut || {
                    let mut run = Run::default();
                    for _ in 0..k { tape.borrow_mut().spent = 0; run.push(draw(d, &mut Src(tape.clone()))); }
                    run.told()
                }));
                let mut b = tape.borrow_mut();
                b.quiet = false;
                let r = if o == "ok" { r } else { "[]".into() };
                o0.put(&format!("{}\"o\":\"{}\",\"r\":{},\"n\":{}}}", head, o, r, b.pos - p0));
            }
            "st" => {
                let (Some(&d), Some(tape)) = (objs.get(t[2]), srcs.get(t[3])) else { continue };
                let p0 = tape.borrow().pos;
                let src: &'static mut Src = Box::leak(Box::new(Src(tape.clone())));
                streams.insert(t[1].into(), (stream(d, src), tape.clone()));
                let b = tape.borrow();
                if !silent { o0.put(&format!("{{\"i\":{},\"e\":\"st\",\"t\":{},\"h\":{},\"s\":{},\"p\":{},\"n\":{}}}", i, t[1], t[2], t[3], p0, b.pos - p0)); }
            }
            "sn" => {
                let Some((live, tape)) = streams.get_mut(t[1]) else { continue };
                let k = t.get(3).map(|s| n(s)).unwrap_or(1);
                let p0 = tape.borrow().pos;
                { let mut b = tape.borrow_mut(); b.log.clear(); b.quiet = true; b.spent = if k > 1000 { -1000 * k as i64 } else { 0 }; }
                let head = format!("{{\"i\":{},\"e\":\"sn\",\"t\":{},\"m\":\"{}\",\"k\":{},\"p\":{},", i, t[1], t[2], k, p0);
                let Live::B(ref mut go) = live;
                let (o, r) = show(guarded(head.clone(), &mut || go(t[2], k)));
                let b = tape.borrow();
                let r = if o == "ok" { r } else { "[]".into() };
                o0.put(&format!("{}\"o\":\"{}\",\"r\":{},\"n\":{}}}", head, o, r, b.pos - p0));
                drop(b);
                tape.borrow_mut().quiet = false;
            }
            "thr" => {
                let Some(hs) = t[2..].iter().map(|h| objs.get(*h).map(|&d| (h.to_string(), d))).collect::<Option<Vec<_>>>() else { continue };
                let n = n(t[1]);
                macro_rules! shared(($($v:ident),*) => { list([$(
                    if (&Probe::<$v>(std::marker::PhantomData)).shared() { "1".to_string() } else { "0".to_string() }),*]) });
                let all = shared!(Bernoulli, Beta, Binomial, Categorical, Cauchy, Exponential, Gamma, Gaussian, Laplace, Logistic, Lognormal, Pert, Triangular, Uniform);
                o0.put(&format!("{{\"i\":{},\"e\":\"sync\",\"r\":{}}}", i, all));
                let hs = Share(hs);
                *pending.lock().unwrap() = format!("{{\"i\":{},\"e\":\"thr\",", i);
                CURRENT.store(i as u64, Ordering::SeqCst);
                STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                let barrier = std::sync::Barrier::new(n);
                let rows: Vec<Vec<String>> = std::thread::scope(|sc| {
                    let js: Vec<_> = (0..n).map(|k| { let (hs, barrier) = (&hs, &barrier); sc.spawn(move || {
                        let hs = hs.get();
                        let mut rows = vec![];
                        barrier.wait();
                        for round in 0..3 { for j in 0..hs.len() {
                            let (h, d) = &hs[(j + k) % hs.len()];
                            for (op, args) in threaded(d, round) { for a in args {
                                let x = if a.is_empty() { "[9,0,[]]".to_string() } else if op == "pmf" { int(a.parse().unwrap()) } else { num(f(&a)) };
                                let r = catch_unwind(AssertUnwindSafe(|| query(d, op, &a)));
                                let (o, r) = match r { Ok(r) => ("ok", r), Err(_) => ("panic", "[9,0,[]]".to_string()) };
                                rows.push(format!("{{\"i\":{},\"e\":\"q\",\"h\":{},\"q\":\"{}\",\"x\":{},\"o\":\"{}\",\"r\":{},\"w\":[],\"th\":{}}}", i, h, op, x, o, r, k));
                            } }
                            // a private source per draw, same script on every thread
                            let tape = Rc::new(RefCell::new(Tape { id: String::new(), words: Words::Script(vec![], 77 + round as u64), pos: 0, log: vec![], quiet: false, spent: 0 }));
                            for _ in 0..3 {
                                let p0 = tape.borrow().pos;
                                let r = catch_unwind(AssertUnwindSafe(|| draw(d, &mut Src(tape.clone()))));
                                let (o, r) = match r { Ok(r) => ("ok", r), Err(_) => ("panic", "[9,0,[]]".to_string()) };
                                rows.push(format!("{{\"i\":{},\"e\":\"td\",\"h\":{},\"id\":{},\"p\":{},\"o\":\"{}\",\"r\":{},\"n\":{},\"th\":{}}}", i, h, 900000 + round, p0, o, r, tape.borrow().pos - p0, k));
                            }
                        } }
                        rows
                    }) }).collect();
                    js.into_iter().map(|j| j.join().unwrap()).collect()
                });
                STARTED.store(0, Ordering::SeqCst);
                // round-robin over threads, so that the log interleaves them
                let m = rows.iter().map(|r| r.len()).max().unwrap_or(0);
                for j in 0..m { for r in &rows { if let Some(s) = r.get(j) { o0.put(s); } } }
            }
            // the same questions over and over from several threads; only first and differing answers are told
            "race" => {
                let Some(hs) = t[2..].iter().map(|h| objs.get(*h).map(|&d| (h.to_string(), d))).collect::<Option<Vec<_>>>() else { continue };
                let limit = std::time::Duration::from_millis(n(t[1]) as u64);
                let hs = Share(hs);
                *pending.lock().unwrap() = format!("{{\"i\":{},\"e\":\"thr\",", i);
                CURRENT.store(i as u64, Ordering::SeqCst);
                STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                const THREADS: usize = 4;
                let barrier = std::sync::Barrier::new(THREADS);
                let rows: Vec<Vec<String>> = std::thread::scope(|sc| {
                    let js: Vec<_> = (0..THREADS).map(|k| { let (hs, barrier) = (&hs, &barrier); sc.spawn(move || {
                        let hs = hs.get();
                        // question by question, object after object
                        let mut asked: Vec<(usize, &'static str, String, Vec<String>)> = vec![];
                        let lists: Vec<_> = hs.iter().map(|(_, d)| threaded(d, 0).into_iter().flat_map(|(op, args)| args.into_iter().map(move |a| (op, a))).collect::<Vec<_>>()).collect();
                        for j in 0..lists.iter().map(|l| l.len()).max().unwrap_or(0) {
                            for (o, l) in lists.iter().enumerate() {
                                if let Some((op, a)) = l.get(j) { asked.push((o, op, a.clone(), vec![])); }
                            }
                        }
                        let mut draws: Vec<Vec<String>> = vec![vec![]; hs.len()];
                        let mut rows = vec![];
                        barrier.wait();
                        let start = std::time::Instant::now();
                        while start.elapsed() < limit {
                            // a question is repeated for a while so that the threads meet at it
                            let width = hs.len().max(1);
                            let mut at = 0;
                            while at < asked.len() {
                                let end = (at + width).min(asked.len());
                                for turn in 0..40 {
                                    for m in 0..end - at {
                                        let (o, op, a, known) = &mut asked[at + (m + k + turn) % (end - at)];
                                        let (h, d) = &hs[*o];
                                        let r = catch_unwind(AssertUnwindSafe(|| query(d, op, a)));
                                        let (s, r) = match r { Ok(r) => ("ok", r), Err(_) => ("panic", "[9,0,[]]".to_string()) };
                                        if !known.contains(&r) && known.len() < 4 {
                                            let x = if a.is_empty() { "[9,0,[]]".to_string() } else if *op == "pmf" { int(a.parse().unwrap()) } else { num(f(a)) };
                                            rows.push(format!("{{\"i\":{},\"e\":\"q\",\"h\":{},\"q\":\"{}\",\"x\":{},\"o\":\"{}\",\"r\":{},\"w\":[],\"th\":{}}}", i, h, op, x, s, r, k));
                                            known.push(r);
                                        }
                                    }
                                }
                                at = end;
                            }
                            for turn in 0..400 { for m in 0..hs.len() {
                                let j = (m + k + turn) % hs.len();
                                let (h, d) = &hs[j];
                                let tape = Rc::new(RefCell::new(Tape { id: String::new(), words: Words::Script(vec![], 99), pos: 0, log: vec![], quiet: false, spent: 0 }));
                                let r = catch_unwind(AssertUnwindSafe(|| draw(d, &mut Src(tape.clone()))));
                                let (o, r) = match r { Ok(r) => ("ok", r), Err(_) => ("panic", "[9,0,[]]".to_string()) };
                                if !draws[j].contains(&r) && draws[j].len() < 4 {
                                    rows.push(format!("{{\"i\":{},\"e\":\"td\",\"h\":{},\"id\":{},\"p\":0,\"o\":\"{}\",\"r\":{},\"n\":{},\"th\":{}}}", i, h, 900099, o, r, tape.borrow().pos, k));
                                    draws[j].push(r);
                                }
                            } }
                        }
                        rows
                    }) }).collect();
                    js.into_iter().map(|j| j.join().unwrap()).collect()
                });
                STARTED.store(0, Ordering::SeqCst);
                let m = rows.iter().map(|r| r.len()).max().unwrap_or(0);
                for j in 0..m { for r in &rows { if let Some(s) = r.get(j) { o0.put(s); } } }
            }
            // a statement about two objects, for the specification only
            "rel" => o0.put(&format!("{{\"i\":{},\"e\":\"rel\",\"k\":\"{}\",\"h\":{},\"g\":{},\"a\":{}}}", i, t[1], t[2], t[3], list(t[4..].iter().map(|s| num(f(s)))))),
            c => panic!("bad command {}", c),
        }
    }
    out.lock().unwrap().flush().unwrap();
    let _: Option<Stream> = None;
    let _ = srcs.values().map(|t| t.borrow().id.len()).sum::<usize>();
    println!("DONE");
}

/// The queries made on every thread: a function of the object only.
fn threaded(o: &Obj, round: usize) -> Vec<(&'static str, Vec<String>)> {
    let hex = |v: &[f64]| v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>();
    let none = || vec![String::new()];
    let mut v = vec![("cdf", hex(&[-1.0, 0.0, 0.25, 0.5, 1.0, 2.0 + round as f64])), ("ent", none()), ("get", none())];
    if !matches!(*o, Obj::Gamma(_)) { v.push(("inv", hex(&[0.125, 0.5, 0.9]))); v.push(("med", none())); }
    if !matches!(*o, Obj::Cauchy(_)) { for op in ["mean", "var", "sd", "skew", "kurt"] { v.push((op, none())); } }
    if !matches!(*o, Obj::Uniform(_)) { v.push(("modes", none())); }
    if matches!(*o, Obj::Bernoulli(_) | Obj::Binomial(_) | Obj::Categorical(_)) { v.push(("pmf", vec!["0".into(), "1".into()])); }
    else { v.push(("pdf", hex(&[0.25, 0.5, 1.5]))); }
    v
}

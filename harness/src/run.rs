//! Runs numbered cases on worker threads, turns panics into violations, writes a report.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub max: BTreeMap<String, f64>,
    pub evals: u64,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        match self.n.get_mut(k) {
            Some(x) => *x += v,
            None => {
                self.n.insert(k.to_string(), v);
            }
        }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.max.entry(k.to_string()).or_insert(v);
        if v > *e {
            *e = v
        }
    }
    /// an oracle judged something
    pub fn eval(&mut self) {
        self.evals += 1
    }
    pub fn evals(&mut self, n: usize) {
        self.evals += n as u64
    }
    /// a distinct, non-trivial situation
    pub fn nontrivial(&mut self, sig: u64) {
        // bounded, to keep the memory of long runs bounded
        if self.distinct.len() < 500_000 {
            self.distinct.insert(sig);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = s();
            self.samples.push(s)
        }
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            *self.n.entry(k).or_insert(0) += v
        }
        for (k, v) in o.max {
            self.max(&k, v)
        }
        self.evals += o.evals;
        self.cases += o.cases;
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
    }
}

pub fn hash(v: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(29) ^ (h >> 7);
    }
    h
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub secs: f64,
    pub cases: u64,
    pub only: Option<u64>,
    pub out: Option<String>,
    pub crumb: Option<String>,
    pub workers: usize,
    pub mode: String,
}
impl Args {
    pub fn parse() -> Args {
        let mut a = Args { seed: 1, thorough: false, secs: 20.0, cases: u64::MAX, only: None, out: None, crumb: None, workers: 8, mode: String::new() };
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let v = it.next().expect("value");
            match k.as_str() {
                "--seed" => a.seed = v.parse().unwrap(),
                "--tier" => a.thorough = v == "thorough",
                "--secs" => a.secs = v.parse().unwrap(),
                "--cases" => a.cases = v.parse().unwrap(),
                "--only" => a.only = Some(v.parse().unwrap()),
                "--out" => a.out = Some(v),
                "--crumb" => a.crumb = Some(v),
                "--workers" => a.workers = v.parse().unwrap(),
                "--mode" => a.mode = v,
                _ => panic!("unknown argument {k}"),
            }
        }
        a
    }
}

/// Panics of the harness itself are errors of the check, not of the code under test.
pub fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") && HARNESS_FILES.iter().any(|f| loc.contains(f))
}
const HARNESS_FILES: [&str; 10] = ["src/walk.rs", "src/run.rs", "src/oracle.rs", "src/gen.rs", "src/rng.rs", "src/alloc.rs", "src/api.rs", "src/sc.rs", "src/inst.rs", "src/bin/"];

thread_local! { static LAST: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) }; }
static RECENT: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        if loc.contains("core/src") && loc.starts_with("/rustc") {
            // non-unwinding panics (undefined behaviour checks) abort right after this
            eprintln!("panic at {loc}: {msg}");
        }
        if let Ok(mut r) = RECENT.lock() {
            if r.len() < 50 {
                r.push(format!("{loc}: {msg}"))
            }
        }
        let _ = LAST.try_with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs f; a panic becomes Err with its message. Panics located in the harness are passed on.
pub fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    LAST.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => {
            let msg = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
            let loc = LAST.with(|l| l.borrow_mut().take()).map(|(l, _)| l).unwrap_or_else(|| {
                RECENT.lock().unwrap().iter().rev().find(|r| r.ends_with(&msg)).cloned().unwrap_or_else(|| "another thread".into())
            });
            if is_harness(&loc) {
                eprintln!("HARNESS ERROR {loc}: {msg}");
                std::process::exit(2);
            }
            Err(format!("panic at {loc}: {msg}"))
        }
    }
}

pub struct Case<'a> {
    pub idx: u64,
    pub rng: Rng,
    pub st: &'a mut Stats,
    pub thorough: bool,
    pub args: &'a Args,
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs cases 0.. until the time or count is used up or one is violated.
pub fn main(prop: &str, case: impl Fn(&mut Case) -> Result<(), String> + Sync) -> ! {
    install_hook();
    let args = Args::parse();
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let bad: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let total = Mutex::new(Stats::default());
    let crumb = args.crumb.as_ref().map(|p| std::fs::File::create(p).expect("crumb file"));
    let workers = if args.only.is_some() { 1 } else { args.workers };
    let salt = prop.bytes().fold(args.mode.bytes().fold(7u64, |h, b| h.wrapping_mul(131) + b as u64), |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, stop, bad, total, crumb, args, case) = (&next, &stop, &bad, &total, &crumb, &args, &case);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        let idx = match args.only {
                            Some(i) => i,
                            None => next.fetch_add(1, SeqCst),
                        };
                        if args.only.is_none() && (idx >= args.cases || stop.load(SeqCst) || t0.elapsed().as_secs_f64() > args.secs) {
                            break;
                        }
                        let put = |x: u64| {
                            if let Some(f) = crumb {
                                let _ = f.write_at(format!("{x:>19}\n").as_bytes(), w as u64 * 20);
                            }
                        };
                        put(idx);
                        let rng = Rng::new(args.seed.wrapping_mul(0x9E37).wrapping_add(salt), idx);
                        let r = guard(|| {
                            let mut c = Case { idx, rng, st: &mut st, thorough: args.thorough, args };
                            case(&mut c)
                        });
                        let r = match r {
                            Ok(r) => r,
                            Err(p) => Err(p),
                        };
                        put(u64::MAX >> 1);
                        st.cases += 1;
                        if let Err(m) = r {
                            bad.lock().unwrap().push((idx, m));
                            stop.store(true, SeqCst);
                        }
                        if args.only.is_some() {
                            break;
                        }
                    }
                    total.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    let st = total.into_inner().unwrap();
    let bad = bad.into_inner().unwrap();
    let mut o = String::from("{");
    o += &format!("\"prop\":{},\"mode\":{},\"seed\":{},\"cases\":{},\"evaluations\":{},\"distinct\":{},\"secs\":{:.2},", json(prop), json(&args.mode), args.seed, st.cases, st.evals, st.distinct.len(), t0.elapsed().as_secs_f64());
    let mut kv: Vec<String> = st.n.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect();
    kv.extend(st.max.iter().map(|(k, v)| format!("{}:{v}", json(&format!("max {k}")))));
    o += &format!("\"counts\":{{{}}},", kv.join(","));
    o += &format!("\"samples\":[{}],", st.samples.iter().take(6).map(|s| json(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"violations\":[{}]}}", bad.iter().map(|(i, m)| format!("{{\"case\":{i},\"what\":{}}}", json(m))).collect::<Vec<_>>().join(","));
    if let Some(p) = &args.out {
        std::fs::write(p, &o).expect("report");
    } else {
        println!("{o}");
    }
    for (i, m) in &bad {
        println!("case {i}: {m}");
    }
    let _ = std::io::stdout().flush();
    std::process::exit(if bad.is_empty() { 0 } else { 1 });
}

#[macro_export]
macro_rules! dispatch {
    // a function generic over the scalar and the dimension, chosen at run time
    ($wide:expr, $d:expr, $f:ident ( $($a:expr),* )) => {
        match ($wide, $d) {
            (true, 1) => $f::<f64, 1>($($a),*),
            (true, 2) => $f::<f64, 2>($($a),*),
            (true, 3) => $f::<f64, 3>($($a),*),
            (true, 4) => $f::<f64, 4>($($a),*),
            (true, 5) => $f::<f64, 5>($($a),*),
            (true, 6) => $f::<f64, 6>($($a),*),
            (true, _) => $f::<f64, 7>($($a),*),
            (false, 1) => $f::<f32, 1>($($a),*),
            (false, 2) => $f::<f32, 2>($($a),*),
            (false, 3) => $f::<f32, 3>($($a),*),
            (false, 4) => $f::<f32, 4>($($a),*),
            (false, 5) => $f::<f32, 5>($($a),*),
            (false, 6) => $f::<f32, 8>($($a),*),
            (false, _) => $f::<f32, 7>($($a),*),
        }
    };
}
/// with nine dimensions as well
#[macro_export]
macro_rules! dispatch9 {
    ($wide:expr, $d:expr, $f:ident ( $($a:expr),* )) => {
        match ($wide, $d) {
            (true, 9) => $f::<f64, 9>($($a),*),
            (false, 9) => $f::<f32, 9>($($a),*),
            (w, d) => $crate::dispatch!(w, d, $f($($a),*)),
        }
    };
}
/// with many dimensions as well, where no box is used
#[macro_export]
macro_rules! dispatch17 {
    ($wide:expr, $d:expr, $f:ident ( $($a:expr),* )) => {
        match ($wide, $d) {
            (true, 17) => $f::<f64, 17>($($a),*),
            (false, 17) => $f::<f32, 16>($($a),*),
            (w, d) => $crate::dispatch9!(w, d, $f($($a),*)),
        }
    };
}
pub fn pick_dim17(r: &mut Rng) -> (bool, usize) {
    let (w, d) = pick_dim9(r);
    (w, if r.chance(0.04) { 17 } else { d })
}
pub fn pick_dim9(r: &mut Rng) -> (bool, usize) {
    let (w, d) = pick_dim(r);
    (w, if r.chance(0.06) { 9 } else { d })
}
pub fn pick_dim(r: &mut Rng) -> (bool, usize) {
    (r.chance(0.5), *r.pick(&[1, 2, 2, 2, 3, 3, 3, 3, 4, 5, 6, 7]))
}

use fxh::prelude::*;
use fxh::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;
// C11: hostile sequences of safe calls, for the sanitizers to watch. Panics are not judged here.
// What is judged without a sanitizer: results expose only memory that was written (memory is
// filled with a pattern when it is allocated and freed), and no precondition of an unsafe
// operation is violated (in builds with debug assertions).
fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| [1, 3].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[i % 2]
}
fn wild<T: Sc>(r: &mut Rng) -> T {
    match r.below(12) {
        0 => T::max_value(),
        1 => T::min_value(),
        2 => T::zero().next(),
        3 => -T::zero(),
        4 => T::of(T::max_value().to().sqrt() * 2.0),
        5 => T::min_positive_value(),
        _ => T::of(r.unif(-2.0, 2.0)),
    }
}
fn poison<T: Sc>(r: &mut Rng) -> T {
    match r.below(4) { 0 => inf(false), 1 => inf(true), x => <T as Sc>::nan(x + r.below(5)) }
}
fn read<T: Sc>(n: usize, d: &[T], i: &[u64]) -> R {
    let mut s = 0.0;
    for x in d {
        ensure!(!x.is_nan(), "a result holds {x:?} ({:x}), which was never written", x.bits());
        // branching on the value makes memory sanitizers look at it
        if x.to() > 1.5 {
            s += 1.0
        }
    }
    for x in i {
        ensure!((*x as usize) < n, "a result holds the index {x:#x} of {n} points");
        if x % 2 == 0 {
            s += 1.0
        }
    }
    std::hint::black_box(s);
    Ok(())
}
/// a result that outlives its tree
struct Kept<T> {
    n: usize,
    d: Vec<T>,
    i: Vec<u64>,
}
fn case<T: Sc, const D: usize>(c: &mut Case, tiny: bool) -> R {
    let r = &mut c.rng;
    let n = match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 | 5 => r.range(1, 12),
        _ if tiny => r.range(3, 24),
        6 => r.range(100, 1500),
        _ => r.range(5, 120),
    };
    let big = !tiny && c.idx % 250 == 33;
    let n = if big { 100_000 + r.below(5000) } else { n };
    let n = if D > 7 && !big { n.min(40) } else { n };
    let kind = r.below(gen::KINDS.len());
    let mode = r.below(8);
    let mut bx = [T::one(); D];
    let mut data: Vec<[T; D]> = match mode {
        0 if n > 0 => (0..n).map(|_| [(); D].map(|_| wild(r))).collect(),
        1..=3 if n > 0 => { let (d, b, _) = gen::boxed::<T, D>(r, n); bx = b; d }
        _ if n == 0 => vec![],
        _ => gen::points::<T, D>(r, n, kind),
    };
    if n > 0 && r.chance(0.12) {
        for _ in 0..r.range(1, 3) {
            let i = r.below(n);
            data[i][r.below(D)] = poison(r)
        }
    }
    let calls = if tiny { r.range(2, 6) } else if big { 4 } else { r.range(4, 24) };
    let mut kept: Vec<Kept<T>> = vec![];
    let what = format!("{}x{D} n={n} {}", T::NAME, ["wild", "boxed", "boxed", "boxed"].get(mode).unwrap_or(&gen::KINDS[kind]));
    let mut tree: Option<Tree<T, D>> = None;
    let mut log = vec![];
    let mut panics = 0;
    for _ in 0..calls {
        if tree.is_none() || r.chance(0.1) {
            let mut b = gen::build(r, n.max(1));
            if tiny { b.par = b.par.map(|p| p.min(2)) }
            if big { b.leaf = b.leaf.max(1) }
            log.push(format!("{b:?}"));
            tree = catch_unwind(AssertUnwindSafe(|| build(&data, b).ok())).unwrap_or_else(|_| { panics += 1; None });
            c.st.add(if tree.is_some() { "trees built" } else { "builds failed" }, 1);
            if tree.is_none() {
                break;
            }
        }
        if r.chance(0.25) {
            let mut b = bx;
            match r.below(8) {
                0 => b[r.below(D)] = poison(r),
                1 => b[r.below(D)] = wild(r),
                2 => b = [T::max_value(); D],
                3 => b = [T::of(4.0); D],
                _ => (),
            }
            log.push(format!("with_boxsize {b:?}"));
            let t = tree.take().unwrap();
            tree = catch_unwind(AssertUnwindSafe(|| t.with_boxsize(&b).ok())).unwrap_or_else(|_| { panics += 1; None });
            c.st.add(if tree.is_some() { "boxes set" } else { "boxes rejected" }, 1);
            continue;
        }
        let t = tree.as_ref().unwrap();
        let query = |r: &mut Rng| -> [T; D] {
            let mut q = match r.below(4) {
                0 => [(); D].map(|_| wild(r)),
                1 => gen::query(r, &data),
                2 if mode > 0 && mode < 4 => gen::query_box(r, &data, &bx),
                _ => data[r.below(n)],
            };
            if r.chance(0.06) {
                q[r.below(D)] = poison(r)
            }
            q
        };
        let other = r.range(0, n);
        let k = *r.pick(&[0, 1, 2, 3, n / 2, n - 1, n, n + 1, 3 * n + 5, usize::MAX, other]);
        let k = if big { k.min(50) } else { k };
        let call = r.below(if BATCH { 8 } else { 4 });
        let res: Result<Option<Kept<T>>, _> = match call {
            0 => {
                let q = query(r);
                log.push(format!("query_nearest {q:?}"));
                catch_unwind(AssertUnwindSafe(|| q1(t, &q).ok().map(|a| Kept { n, d: vec![a.d], i: vec![a.i] })))
            }
            1..=3 => {
                let q = query(r);
                log.push(format!("query_nearest_k {q:?} {k}"));
                catch_unwind(AssertUnwindSafe(|| qk(t, &q, k).ok().map(|a| Kept { n, d: a.d, i: a.i })))
            }
            4 | 5 | 6 => {
                let m = if tiny { r.range(0, 3) } else if big { 3 } else { *r.pick(&[0, 1, 2, 5, 40, 130]) };
                let qs: Vec<[T; D]> = (0..m).map(|_| { let mut q = query(r); if m > 3 { for x in q.iter_mut() { if !x.is_finite() && r.chance(0.95) { *x = T::zero() } } } q }).collect();
                let with = r.chance(0.5);
                let p = r.below(3);
                log.push(format!("batch of {m} {k} with={with}"));
                let go = || qkp(t, &qs, k, with).ok().map(|a| Kept { n, d: a.d, i: a.i });
                catch_unwind(AssertUnwindSafe(|| if p < 2 { pool(p).install(go) } else { go() }))
            }
            _ => {
                let m = if tiny { r.range(0, 3) } else if big { 3 } else { *r.pick(&[0, 1, 2, 5, 40]) };
                let qs: Vec<[T; D]> = (0..m).map(|_| query(r)).collect();
                let ax = *r.pick(&[0, D - 1, D, D + 1, usize::MAX]);
                let p = r.below(3);
                log.push(format!("axis batch of {m} {k} {ax}"));
                let go = || qax(t, &qs, k, ax).ok().map(|mut a| { a.ax.extend(a.non); Kept { n, d: a.ax, i: a.i.unwrap_or_default() } });
                catch_unwind(AssertUnwindSafe(|| if p < 2 { pool(p).install(go) } else { go() }))
            }
        };
        match res {
            Ok(Some(a)) => {
                read(n, &a.d, &a.i).map_err(|e| format!("{what}: {e} (calls: {log:?})"))?;
                c.st.add("results read", a.d.len() as u64);
                if r.chance(0.2) {
                    kept.push(a)
                }
            }
            Ok(None) => c.st.add("calls that returned an error", 1),
            Err(_) => panics += 1,
        }
        c.st.add("calls", 1);
        if r.chance(0.05) {
            tree = None;
            log.push("drop".into());
        }
    }
    drop(tree);
    drop(data);
    for a in &kept {
        read(a.n, &a.d, &a.i).map_err(|e| format!("{what}: after the tree was dropped: {e} (calls: {log:?})"))?;
    }
    c.st.add("results read after their tree was gone", kept.len() as u64);
    c.st.add("panics (not judged here)", panics);
    c.st.eval();
    c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, mode as u64, calls as u64, run::hash(&log.iter().map(|l| l.len() as u64).collect::<Vec<_>>())]));
    c.st.sample(|| format!("{what}: {}", log.join("; ").chars().take(300).collect::<String>()));
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C11", |c| {
        let tiny = c.args.mode == "tiny";
        let (w, d) = run::pick_dim9(&mut c.rng);
        let d = if tiny { d.min(3) } else { d };
        dispatch9!(w, d, case(c, tiny))
    })
}

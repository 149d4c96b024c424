use fxh::inst::{self, X};
use fxh::prelude::*;
use fxh::walk;
use std::sync::OnceLock;
// C13: every tree that builds answers every valid query, on a small stack.
const STACK: usize = 256 << 10;
fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| [1, 2, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).stack_size(STACK).build().unwrap()).collect())[i]
}
/// runs f on a thread with a small stack
fn small<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap();
        match h.join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}
fn value<T: Sc>(r: &mut fxh::rng::Rng, wild: usize) -> T {
    let m = T::max_value();
    match wild {
        0 => *r.pick(&[T::zero(), -T::zero(), T::one()]),
        1 => *r.pick(&[m, -m, T::zero(), T::one(), T::of(m.to() / 2.0)]),
        2 => *r.pick(&[T::min_positive_value(), T::zero().next(), T::zero(), -T::min_positive_value(), T::one()]),
        3 => T::of(r.unif(-1.0, 1.0) * 10f64.powi(r.range(0, 70) as i32 - 35)),
        4 => T::of(m.to().sqrt() * r.unif(-2.0, 2.0)),
        _ => T::of(r.unif(-1.0, 1.0)),
    }
}
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = match r.below(8) { 0 | 1 => 1, 2 => 2, 3 => r.range(1, 5), 4 | 5 => r.range(1, 40), 6 => r.range(30, 300), _ => gen::size(r) };
    let wild = r.below(7);
    let periodic = r.chance(0.35);
    let n = if D > 7 && periodic { n.min(40) } else { n };
    let (data, bx) = if periodic {
        if r.chance(0.5) {
            let (d, b, _) = gen::boxed::<T, D>(r, n);
            (d, Some(b))
        } else {
            let d: Vec<[T; D]> = (0..n).map(|_| [(); D].map(|_| value::<T>(r, wild).abs())).collect();
            let b: [T; D] = std::array::from_fn(|a| {
                let h = d.iter().map(|p| p[a]).fold(T::zero(), |m, x| if x > m { x } else { m });
                if r.chance(0.5) { h } else { T::of((h.to() * 2.0).min(T::max_value().to())) }
            });
            (d, Some(b))
        }
    } else if r.chance(0.5) {
        let kind = r.below(gen::KINDS.len());
        (gen::points::<T, D>(r, n, kind), None)
    } else {
        ((0..n).map(|_| [(); D].map(|_| value::<T>(r, wild))).collect(), None)
    };
    let b = gen::build(r, n);
    let what = format!("{}x{D} n={n} {b:?} box {bx:?}{}", T::NAME, if n <= 3 { format!(" data {data:?}") } else { String::new() });
    let d = &data;
    let t = small(|| build(d, b)).map_err(|e| format!("{what}: build failed: {e:?}"))?;
    let t = match &bx {
        Some(b) => t.with_boxsize(b).map_err(|e| format!("{what}: box rejected: {e:?}"))?,
        None => t,
    };
    let t = &t;
    let ask = |r: &mut fxh::rng::Rng| -> [T; D] {
        match &bx {
            None => if r.chance(0.5) { gen::query(r, d) } else { [(); D].map(|_| value::<T>(r, wild)) },
            Some(b) => {
                if r.chance(0.5) { gen::query_box(r, d, b) } else {
                    let e = r.range(0, 3);
                    std::array::from_fn(|a| if r.chance(0.5) { d[r.below(n)][a] } else { [T::zero(), b[a], b[a] / T::of(2.0), d[0][a]][e] })
                }
            }
        }
    };
    for _ in 0..5 {
        let q = ask(r);
        let other = gen::k(r, n);
        let k = *r.pick(&[0, 1, n - 1, n, n + 1, 2 * n + 7, usize::MAX, other, other]);
        let kk = k.min(n);
        let a = small(|| q1(t, &q)).map_err(|e| format!("{what}: query_nearest {q:?} failed: {e:?}"))?;
        ensure!((a.i as usize) < n, "{what}: query_nearest {q:?}: index {}", a.i);
        ensure!(!a.d.is_nan(), "{what}: query_nearest {q:?}: distance {:?}", a.d);
        let a = small(|| qk(t, &q, k)).map_err(|e| format!("{what}: query_nearest_k {q:?} k={k} failed: {e:?}"))?;
        ensure!(a.d.len() == kk && a.i.len() == kk, "{what}: query_nearest_k {q:?} k={k}: {} distances, {} indices", a.d.len(), a.i.len());
        ensure!(a.i.iter().all(|i| (*i as usize) < n), "{what}: query_nearest_k {q:?} k={k}: indices {:?}", a.i);
        ensure!(!a.d.iter().any(|d| d.is_nan()), "{what}: query_nearest_k {q:?} k={k}: distances {:?}", a.d);
        c.st.evals(2);
        c.st.add("single queries", 2);
        if k == 0 || k > n {
            c.st.add("k of zero or beyond the data", 1)
        }
    }
    if BATCH {
        for with in [false, true] {
            let m = *r.pick(&[0, 1, 1, 2, 3, 17, 64, 200]);
            let qs: Vec<[T; D]> = (0..m).map(|_| ask(r)).collect();
            let other = gen::k(r, n);
            let k = *r.pick(&[0, 1, n, n + 3, usize::MAX, other, other]);
            let kk = k.min(n);
            let p = r.below(4);
            let ax = r.below(D);
            let (q, w) = (&qs, &what);
            let go = move || -> R {
                let a = qkp(t, q, k, with).map_err(|e| format!("{w}: batch of {m} k={k} with={with} failed: {e:?}"))?;
                ensure!(a.d.len() == kk * m && a.i.len() == kk * m, "{w}: batch of {m} k={k} with={with}: {} distances, {} indices", a.d.len(), a.i.len());
                ensure!(a.i.iter().all(|i| (*i as usize) < n) && !a.d.iter().any(|d| d.is_nan()), "{w}: batch of {m} k={k} with={with}: {:?} {:?}", a.i, a.d);
                let a = qax(t, q, k, ax).map_err(|e| format!("{w}: axis batch of {m} k={k} axis={ax} failed: {e:?}"))?;
                ensure!(a.ax.len() == kk * m && a.non.len() == kk * m, "{w}: axis batch of {m} k={k}: {} {}", a.ax.len(), a.non.len());
                if let Some(i) = &a.i {
                    ensure!(i.len() == kk * m && i.iter().all(|i| (*i as usize) < n), "{w}: axis batch of {m} k={k}: indices {i:?}");
                }
                Ok(())
            };
            if p < 3 { pool(p).install(go)? } else { go()? }
            c.st.evals(2);
            c.st.add("batches", 2);
            if p == 3 && m == 1 {
                c.st.add("batches of one from outside a pool", 1)
            }
        }
        // an axis that does not exist is an error, not a panic
        let q = [ask(r)];
        ensure!(qax(t, &q, 1, D + r.below(3)).is_err(), "{what}: an axis beyond {D} was accepted");
    }
    c.st.add(match wild { 1 | 4 => "overflowing values", 2 => "subnormal values", _ => "other values" }, 1);
    if n == 1 {
        c.st.add("one-point trees", 1)
    }
    if n <= b.leaf {
        c.st.add("trees with a leaf root", 1)
    }
    if b.leaf == 0 {
        c.st.add("leaf size 0", 1)
    }
    c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, b.par.map_or(9, |x| x as u64), wild as u64, periodic as u64]));
    c.st.sample(|| what);
    Ok(())
}
/// Large trees of which every node must be visited: all of it on small stacks, and the stack
/// position at every scalar operation.
fn deep<const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if c.thorough { *r.pick(&[5_000, 50_000, 99_000, 200_000, 400_000]) } else { *r.pick(&[3_000, 20_000, 60_000, 120_000]) };
    let center = r.chance(0.5);
    let kind = if center { 7 } else { r.below(gen::KINDS.len()) };
    let leaf = *r.pick(&[0, 1, 1, 2, 8]);
    let periodic = r.chance(0.3) && D <= 3;
    let (mut data, bx) = if periodic { let (d, b, _) = gen::boxed::<f64, D>(r, n); (d, Some(b)) } else { (gen::points::<f64, D>(r, n, kind), None) };
    if r.chance(0.1) {
        let p = data[0];
        data.fill(p);
    }
    let par = *r.pick(&[None, Some(2)]);
    let b = Build { leaf, par };
    let what = format!("f64x{D} {} n={n} {b:?} box {bx:?}", if periodic { "boxed" } else { gen::KINDS[kind] });
    let q = if center && !periodic { [0.0; D] } else { match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) } };
    let k = if center && r.chance(0.5) { 1 } else { *r.pick(&[n, n, n / 2, 1000]) };
    {
        let d = &data;
        let t = small(|| build(d, b)).map_err(|e| format!("{what}: build failed: {e:?}"))?;
        let t = match &bx { Some(b) => t.with_boxsize(b).map_err(|e| format!("{what}: {e:?}"))?, None => t };
        let t = &t;
        let a = small(|| qk(t, &q, k)).map_err(|e| format!("{what}: {e:?}"))?;
        ensure!(a.d.len() == k, "{what}: k={k}: {} neighbours", a.d.len());
        small(|| q1(t, &q)).map_err(|e| format!("{what}: {e:?}"))?;
        if BATCH {
            let qs = [q; 3];
            for with in [false, true] {
                let a = pool(2).install(|| qkp(t, &qs, k, with)).map_err(|e| format!("{what}: {e:?}"))?;
                ensure!(a.d.len() == 3 * k, "{what}: batch k={k}: {} neighbours", a.d.len());
            }
            let a = pool(1).install(|| qax(t, &qs, k, D - 1)).map_err(|e| format!("{what}: {e:?}"))?;
            ensure!(a.ax.len() == 3 * k, "{what}: axis batch k={k}: {} neighbours", a.ax.len());
        }
    }
    // again, instrumented
    let xs = inst::x(&data);
    let t = build(&xs, b).map_err(|e| format!("{what}: build failed: {e:?}"))?;
    let sh = walk::check(&t, &xs, leaf).map_err(|e| format!("{what}: {e}"))?;
    let t = match &bx { Some(b) => t.with_boxsize(&b.map(X)).map_err(|e| format!("{what}: {e:?}"))?, None => t };
    let o0 = inst::my_ops();
    let (_, s1) = inst::depth(|| q1(&t, &q.map(X)));
    let (_, s2) = inst::depth(|| qk(&t, &q.map(X), k));
    let ops = inst::my_ops() - o0;
    let lim = 8192 + 2048 * (sh.depth + 2);
    ensure!(s1.max(s2) <= lim, "{what}: query {q:?} k={k} used {} bytes of stack in a tree of height {} ({} scalar operations)", s1.max(s2), sh.depth, ops);
    c.st.max("stack bytes of a query", s1.max(s2) as f64);
    c.st.max("stack bytes per level", s1.max(s2) as f64 / (sh.depth + 1) as f64);
    c.st.max("scalar operations of a query", ops as f64);
    c.st.add("whole-tree queries on small stacks", 1);
    c.st.evals(2);
    c.st.nontrivial(run::hash(&[77, D as u64, n as u64, leaf as u64, k as u64, kind as u64]));
    Ok(())
}
/// Large parallel builds, small leaves and deep levels, in a process that can have some thousands
/// of threads and no more (of 2 MiB of stack each, in an address space of 12 GiB).
fn threads<const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = *r.pick(&[90_000, 130_000, 200_000, 300_000]);
    let kind = if r.chance(0.6) { 0 } else { r.below(gen::KINDS.len()) };
    let data = gen::points::<f64, D>(r, n, kind);
    let b = Build { leaf: *r.pick(&[1, 1, 2, 4]), par: Some(*r.pick(&[11, 14, 17, 20, 64, usize::MAX / 2])) };
    let what = format!("f64x{D} {} n={n} {b:?}, in an address space of 12 GiB", gen::KINDS[kind]);
    let t = build(&data, b).map_err(|e| format!("{what}: build failed: {e:?}"))?;
    for _ in 0..20 {
        let q = gen::query(r, &data);
        let a = q1(&t, &q).map_err(|e| format!("{what}: query_nearest {q:?} failed: {e:?}"))?;
        ensure!((a.i as usize) < n && !a.d.is_nan(), "{what}: query_nearest {q:?}: {} at {:?}", a.i, a.d);
        c.st.eval();
    }
    c.st.add("deep parallel builds with few threads to have", 1);
    c.st.eval();
    c.st.nontrivial(run::hash(&[78, D as u64, n as u64, b.leaf as u64, b.par.unwrap() as u64, kind as u64]));
    Ok(())
}
fn limit() {
    extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    assert_eq!(unsafe { setrlimit(RLIMIT_AS, &[12 << 30; 2]) }, 0);
}
fn main() {
    if std::env::args().any(|a| a == "threads") {
        limit();
        return run::main("C13", |c| match c.rng.below(3) { 0 => threads::<1>(c), 1 => threads::<2>(c), _ => threads::<3>(c) });
    }
    fxh::alloc::fill();
    run::main("C13", |c| {
        if c.idx % 40 == 5 {
            return match c.rng.below(3) { 0 => deep::<1>(c), 1 => deep::<2>(c), _ => deep::<3>(c) };
        }
        let (w, d) = run::pick_dim9(&mut c.rng);
        dispatch9!(w, d, case(c))
    })
}

use fxh::inst::{self, X};
use fxh::prelude::*;
use std::sync::OnceLock;
// C05: batch rows equal the individual answers, on any pool, schedule and batch size.
const POOLS: [usize; 8] = [1, 2, 3, 4, 6, 8, 16, 32];
fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| POOLS.iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[i]
}
/// rows against the individual answers of the same tree
fn check_rows<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, t: &Tree<T, D>, qs: &[[T; D]], k: usize, a: &NK<T, D>, every: usize) -> R {
    let kk = k.min(data.len());
    ensure!(a.d.len() == kk * qs.len() && a.i.len() == kk * qs.len(), "{} distances and {} indices for {} queries, k={k}, {} points", a.d.len(), a.i.len(), qs.len(), data.len());
    let sh = shift(bx);
    for (j, q) in qs.iter().enumerate() {
        let one = qk(t, q, k).map_err(|e| format!("query {q:?} failed: {e}"))?;
        let s = j * kk..(j + 1) * kk;
        let (d, i) = (&a.d[s.clone()], &a.i[s]);
        for m in 0..kk {
            ensure!(near::<T, D>(root(d[m]), root(one.d[m]), sh), "row {j} of {}, neighbour {m} of {k}: {:?} in the batch, {:?} alone (query {q:?})", qs.len(), d[m], one.d[m]);
            ensure!((i[m] as usize) < data.len(), "row {j} of {}, neighbour {m}: index {} of {}", qs.len(), i[m], data.len());
        }
        if i != one.i.as_slice() {
            check_members(data, bx, q, d, i).map_err(|e| format!("row {j} of {}: {e}", qs.len()))?;
        }
        if j % every == 0 {
            check_row(data, bx, q, k, d, i, None).map_err(|e| format!("row {j} of {}: {e}", qs.len()))?;
        }
    }
    Ok(())
}
fn case<T: Sc, const D: usize>(c: &mut Case, chaos: bool) -> R {
    let r = &mut c.rng;
    let huge = c.idx % 60 == 7;
    let periodic = r.chance(0.4);
    let n = if huge { r.range(2, 60) } else if r.chance(0.3) { r.range(1, 30) } else { gen::size(r).min(1500) };
    let n = if D > 7 && periodic { n.min(40) } else { n };
    let kind = gen::any_kind(r);
    let (data, bx) = if periodic {
        let (d, b, _) = gen::boxed::<T, D>(r, n);
        (d, Some(b))
    } else {
        (gen::points::<T, D>(r, n, kind), None)
    };
    let b = gen::build(r, n);
    let k = if huge { r.range(1, 8) } else { gen::k(r, n).min(300) };
    let nq = if huge {
        *r.pick(&[4096, 8192, 10_000, 16_384, 20_000, 65_536, 65_537, 70_000])
    } else {
        match r.below(10) {
            0 => 0,
            1 => 1,
            2 => 2,
            3..=7 => r.range(3, 60),
            8 => r.range(60, 400),
            _ => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025]),
        }
    };
    let nq = if chaos { nq.min(2000) } else if D > 4 { nq.min(if periodic && D > 7 { 20 } else if periodic { 200 } else { 20_000 }) } else { nq };
    let pi = r.below(POOLS.len());
    let mode = r.below(4);
    let what = || format!("{}x{D} {} n={n} {b:?} box {bx:?} {nq} queries k={k} {}", T::NAME, if periodic { "boxed" } else { gen::kind_name(kind) }, ["on a pool of ", "from outside with the global pool instead of ", "four callers on a pool of ", "two pools, one of "][mode].to_string() + &POOLS[pi].to_string());
    let mut t = build(&data, b).map_err(|e| format!("{}: build failed: {e}", what()))?;
    if let Some(bx) = &bx {
        t = t.with_boxsize(bx).map_err(|e| format!("{}: box rejected: {e}", what()))?;
    }
    let distinct = if huge { 500 } else { usize::MAX };
    let mut qs: Vec<[T; D]> = Vec::with_capacity(nq);
    // runs of one and the same query
    let runs = if r.chance(0.25) { *r.pick(&[0.5, 0.9, 1.0]) } else { 0.0 };
    for j in 0..nq {
        if j > 0 && r.chance(runs) {
            qs.push(qs[j - 1]);
            continue;
        }
        // in huge batches repeat some queries, far apart, to keep the comparison affordable
        let q = if j >= distinct && r.chance(0.5) { qs[r.below(j)] } else { match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) } };
        qs.push(q);
    }
    let with = r.chance(0.5);
    let t = &t;
    let go = |qs: &[[T; D]], with: bool| qkp(t, qs, k, with).map_err(|e| format!("batch failed: {e}"));
    let name = |w: bool| if w { "query_nearest_k_parallel_with" } else { "query_nearest_k_parallel" };
    let mut results: Vec<(Vec<[T; D]>, bool, NK<T, D>)> = vec![];
    match mode {
        0 => results.push((qs.clone(), with, pool(pi).install(|| go(&qs, with))?)),
        1 => results.push((qs.clone(), with, go(&qs, with)?)),
        2 => {
            // callers share the workers of one pool
            let parts: Vec<Vec<[T; D]>> = (0..4).map(|i| qs.iter().skip(i).step_by(4).copied().collect()).collect();
            let out: Vec<_> = std::thread::scope(|s| {
                let h: Vec<_> = parts.iter().enumerate().map(|(i, p)| s.spawn(move || (i, pool(pi).install(|| go(p, with ^ (i % 2 == 0)))))).collect();
                h.into_iter().map(|h| h.join()).collect()
            });
            for o in out {
                let (i, a) = o.map_err(|e| format!("{}: a caller panicked: {:?}", what(), e.downcast_ref::<String>()))?;
                results.push((parts[i].clone(), with ^ (i % 2 == 0), a?));
            }
        }
        _ => {
            // a batch from inside a worker of another pool, both entry points at once
            let (a, b) = pool(pi).install(|| rayon::join(|| go(&qs, false), || pool((pi + 3) % POOLS.len()).install(|| go(&qs, true))));
            results.push((qs.clone(), false, a?));
            results.push((qs.clone(), true, b?));
        }
    }
    let every = if huge || n > 600 { 17 } else { 3 };
    for (q, w, a) in &results {
        check_rows(&data, bx.as_ref(), t, q, k, a, every).map_err(|e| format!("{}: {}: {e}", what(), name(*w)))?;
        c.st.evals(q.len());
        c.st.add(&format!("rows {}", name(*w)), q.len() as u64);
        c.st.add("batches", 1);
    }
    c.st.add(&format!("batches on {} threads", POOLS[pi]), (mode != 1) as u64);
    c.st.add(if periodic { "periodic batches" } else { "plain batches" }, 1);
    c.st.add(&format!("mode {}", ["installed", "global", "shared", "nested"][mode]), 1);
    if runs > 0.0 {
        c.st.add("batches with runs of equal queries", 1)
    }
    if nq == 0 {
        c.st.add("empty batches", 1)
    }
    if huge {
        c.st.add("batches of 4096+ rows", 1)
    }
    if nq > 1 {
        c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, k as u64, nq as u64, pi as u64, mode as u64]));
    }
    c.st.sample(what);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    // set once, before threads exist: the same for every case
    inst::chaos(257);
    run::main("C05", |c| {
        if c.rng.chance(0.4) {
            let d0 = inst::disturbed();
            let r = match c.rng.below(2) {
                0 => case::<X, 2>(c, true),
                _ => case::<X, 3>(c, true),
            };
            c.st.add("batches with disturbed schedules", 1);
            c.st.max("schedule disturbances", inst::disturbed() as f64);
            let _ = d0;
            return r;
        }
        let (w, d) = run::pick_dim9(&mut c.rng);
        dispatch9!(w, d, case(c, false))
    })
}

use fxh::prelude::*;
// C15: one workload over every entry point that the compiled configuration has, judged by the
// same exhaustive search in the units and the form that the configuration promises.
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = c.idx % 120 == 20;
    let n = if big { r.range(100_000, 104_000) } else if r.chance(0.3) { r.range(1, 30) } else { gen::size(r).min(1500) };
    let periodic = r.chance(0.4);
    let kind = r.below(gen::KINDS.len());
    let (data, bx) = if periodic {
        let (d, b, _) = gen::boxed::<T, D>(r, n);
        (d, Some(b))
    } else {
        (gen::points::<T, D>(r, n, kind), None)
    };
    let mut b = gen::build(r, n);
    if big {
        b.leaf = b.leaf.clamp(1, 64)
    }
    let tag = format!("{}x{D} n={n} {b:?} box {bx:?} (square roots: {SQRT}, positions: {POS})", T::NAME);
    let mut t = build(&data, b).map_err(|e| format!("{tag}: build failed: {e}"))?;
    if let Some(bx) = &bx {
        t = t.with_boxsize(bx).map_err(|e| format!("{tag}: box rejected: {e}"))?;
    }
    let bx = bx.as_ref();
    let nq = if big { 2 } else { r.range(2, 8) };
    let qs: Vec<[T; D]> = (0..nq).map(|_| match bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) }).collect();
    let k = gen::k(r, n).min(300);
    for q in &qs {
        let a = q1(&t, q).map_err(|e| format!("{tag}: query_nearest {q:?} failed: {e}"))?;
        check1(&data, bx, q, &a).map_err(|e| format!("{tag}: query_nearest: {e}"))?;
        let m = qk(&t, q, k).map_err(|e| format!("{tag}: query_nearest_k {q:?} k={k} failed: {e}"))?;
        check_k(&data, bx, q, k, &m).map_err(|e| format!("{tag}: query_nearest_k k={k}: {e}"))?;
        ensure!(a.p.is_some() == POS && m.p.is_some() == POS, "{tag}: positions");
        // all entry points in the same units
        if k > 0 {
            ensure!(near::<T, D>(root(a.d), root(m.d[0]), shift(bx)), "{tag}: query_nearest gives {:?} and query_nearest_k {:?} (query {q:?})", a.d, m.d[0]);
        }
        c.st.evals(2);
        c.st.add("positions compared", if POS { 1 + m.i.len() as u64 } else { 0 });
        c.st.add("indices compared", 1 + m.i.len() as u64);
    }
    if BATCH {
        for with in [false, true] {
            let m = qkp(&t, &qs, k, with).map_err(|e| format!("{tag}: batch with={with} k={k} failed: {e}"))?;
            check_batch(&data, bx, &qs, k, &m).map_err(|e| format!("{tag}: batch with={with} k={k}: {e}"))?;
            c.st.evals(nq);
        }
        let axis = r.below(D);
        let m = qax(&t, &qs, k, axis).map_err(|e| format!("{tag}: axis {axis} k={k} failed: {e}"))?;
        ensure!(m.i.is_some() == AXIDX, "{tag}: indices of the axis query");
        check_axis(&data, bx, &qs, k, axis, &m).map_err(|e| format!("{tag}: axis {axis} k={k}: {e}"))?;
        c.st.evals(nq);
        c.st.add("batch rows", 3 * nq as u64);
    }
    // invalid input is judged the same everywhere
    if c.idx % 4 == 0 {
        let mut q = qs[0];
        q[r.below(D)] = <T as Sc>::nan(r.below(5));
        ensure!(q1(&t, &q).is_err() && qk(&t, &q, k).is_err(), "{tag}: {q:?} was answered");
        if BATCH {
            ensure!(qkp(&t, &[qs[0], q], k, true).is_err() && qkp(&t, &[q, qs[0]], k, false).is_err() && qax(&t, &[q], k, 0).is_err(), "{tag}: a batch with {q:?} was answered");
        }
        drop(t);
        let mut v = data.clone();
        v[r.below(n)][r.below(D)] = inf(false);
        for par in [None, Some(1)] {
            ensure!(build(&v, Build { leaf: b.leaf, par }).is_err(), "{tag}: infinite data was accepted");
        }
        c.st.add("invalid calls rejected", 4);
    }
    c.st.add(T::NAME, nq as u64);
    if n > b.leaf {
        c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, b.par.map_or(99, |x| x as u64), k as u64, periodic as u64]));
    }
    c.st.sample(|| tag);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C15", |c| match c.idx % 6 {
        0 => case::<f64, 2>(c),
        1 => case::<f32, 3>(c),
        2 => case::<f64, 3>(c),
        3 => case::<f32, 2>(c),
        4 => case::<f64, 1>(c),
        _ => case::<f32, 5>(c),
    })
}

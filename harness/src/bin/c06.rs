use fxh::prelude::*;
// C06: axis queries against exhaustive search.
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let periodic = r.chance(0.45);
    let n = if c.idx % 400 == 20 { r.range(100_000, 105_000) } else if r.chance(0.3) { r.range(1, 30) } else { gen::size(r).min(2500) };
    let n = if D > 7 { n.min(40) } else { n };
    // batches long enough to be split up in any way
    let long = D < 5 && c.idx % 40 == 7;
    let n = if long { r.range(2, 40) } else { n };
    let kind = gen::any_kind(r);
    let (data, bx) = if periodic {
        let (d, b, _) = gen::boxed::<T, D>(r, n);
        (d, Some(b))
    } else {
        (gen::points::<T, D>(r, n, kind), None)
    };
    let b = gen::build(r, n);
    let what = || format!("{}x{D} {} n={n} {b:?} box {bx:?}", T::NAME, if periodic { "boxed" } else { gen::kind_name(kind) });
    let mut t = build(&data, b).map_err(|e| format!("{}: build failed: {e}", what()))?;
    if let Some(bx) = &bx {
        t = t.with_boxsize(bx).map_err(|e| format!("{}: box rejected: {e}", what()))?;
    }
    let nq = match r.below(8) {
        0 => r.below(2),
        1 => r.range(20, 60),
        _ => r.range(2, 10),
    };
    let nq = if D > 4 { nq.min(6) } else { nq };
    let nq = if long { *r.pick(&[513, 600, 1000, 1025, 2047, 4097, 5000, 10_001, 66_000]) } else { nq };
    let mut qs: Vec<[T; D]> = (0..nq).map(|_| match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) }).collect();
    if r.chance(0.15) {
        // runs of one and the same query
        for j in 1..nq {
            if r.chance(0.7) {
                qs[j] = qs[j - 1]
            }
        }
    }
    let k = if long { r.range(1, if nq > 60_000 { 2 } else { 6 }) } else { gen::k(r, n).min(400) };
    let axis = r.below(D);
    let a = qax(&t, &qs, k, axis).map_err(|e| format!("{}: axis {axis} k={k} failed: {e}", what()))?;
    check_axis(&data, bx.as_ref(), &qs, k, axis, &a).map_err(|e| format!("{}: axis {axis} k={k}: {e}", what()))?;
    c.st.evals(nq);
    if long {
        c.st.add("batches of more than 512 rows", 1)
    }
    c.st.add("components judged", 2 * a.ax.len() as u64);
    c.st.add(if periodic { "periodic rows" } else { "rows" }, nq as u64);
    c.st.add(&format!("D={D} axis={axis}"), nq as u64);
    if AXIDX {
        c.st.add("indices judged", a.i.as_ref().map_or(0, |v| v.len() as u64));
    }
    if nq > 0 && k > 1 && n > 1 {
        c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, k as u64, axis as u64, qs[0][0].bits()]));
    }
    // an axis that does not exist, with and without queries to answer
    for bad in [D, D + 1 + r.below(5), usize::MAX] {
        match qax(&t, &qs, k, bad) {
            Err(FnntwError::InvalidAxis) => c.st.add("nonexistent axes rejected", 1),
            x => return Err(format!("{}: axis {bad} of {D}: {:?}", what(), x.map(|a| a.ax.len()))),
        }
    }
    c.st.sample(what);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C06", |c| {
        let (w, d) = run::pick_dim9(&mut c.rng);
        dispatch9!(w, d, case(c))
    })
}

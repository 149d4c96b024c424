use fxh::prelude::*;
// C03: periodic nearest neighbour against exhaustive search over all copies.
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    // now and then one that is more than 20 levels deep
    let huge = D <= 3 && c.idx % 20_000 >= 520 && c.idx % 20_000 < 523;
    let big = huge || c.idx % 200 == 20;
    let n = if huge { 1_100_000 + r.below(50_000) } else if big { r.range(100_000, 120_000) } else if r.chance(0.4) { r.range(1, 30) } else { gen::size(r) };
    let n = if D > 9 { n.min(6) } else { n };
    let (data, bx, kind) = gen::boxed::<T, D>(r, n);
    let mut b = gen::build(r, n);
    if huge {
        b.leaf = r.range(1, 3)
    }
    let what = || format!("{}x{D} {kind} n={n} {b:?} box {bx:?}", T::NAME);
    let t = build(&data, b).map_err(|e| format!("{}: build failed: {e}", what()))?;
    let t = t.with_boxsize(&bx).map_err(|e| format!("{}: box rejected: {e}", what()))?;
    let nq = if D > 9 { 2 } else if big { 12 } else { r.range(10, 40) };
    for j in 0..nq {
        let q = gen::query_box(r, &data, &bx);
        let a = q1(&t, &q).map_err(|e| format!("{}: query {q:?} failed: {e}", what()))?;
        check1(&data, Some(&bx), &q, &a).map_err(|e| format!("{}: query {j}: {e}", what()))?;
        // how far is the answer from the one without copies
        let direct = dist(&q, &data[a.i as usize]);
        if direct > root(a.d) * 1.001 {
            c.st.add("answers through a periodic copy", 1);
            let mut axes = 0;
            for x in 0..D {
                let d = (q[x].to() - data[a.i as usize][x].to()).abs();
                axes += (d > bx[x].to() / 2.0) as u64
            }
            c.st.add(&format!("answers wrapping {axes} axes"), 1);
            c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, axes, q[0].bits()]));
        }
    }
    c.st.evals(nq);
    c.st.add(&format!("D={D}"), nq as u64);
    c.st.add(T::NAME, nq as u64);
    c.st.add(kind, nq as u64);
    if huge {
        c.st.add("trees of 1100000+ points", 1)
    }
    c.st.sample(what);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C03", |c| {
        let (w, d) = run::pick_dim9(&mut c.rng);
        // rarely, more than 16 axes: more images than 16 bits count
        let d = if c.rng.chance(0.002) { 17 } else { d };
        dispatch17!(w, d, case(c))
    })
}

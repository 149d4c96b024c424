use fxh::prelude::*;
// C01: nearest neighbour of a non-periodic tree against exhaustive search.
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    // every 150th case is a large one, where the build uses its approximate median
    // and now and then one that is more than 20 levels deep
    let huge = D <= 3 && c.idx % 20_000 >= 520 && c.idx % 20_000 < 523;
    let big = huge || c.idx % 150 == 20;
    let n = if huge { 1_100_000 + r.below(50_000) } else if big { r.range(100_000, 140_000) } else { gen::size(r) };
    let kind = gen::any_kind(r);
    // the data may be a part of a larger array: what lies around it is not data
    let (before, after) = if r.chance(0.3) { (r.below(9), r.below(9)) } else { (0, 0) };
    let full = gen::points::<T, D>(r, n + before + after, kind);
    let data = &full[before..before + n];
    let mut b = gen::build(r, n);
    if big {
        b.leaf = *r.pick(&[1, 8, 32, 64, 1000, 70_000, n]);
        b.par = *r.pick(&[None, Some(1), Some(3)]);
    }
    if huge {
        b.leaf = r.range(1, 3);
    }
    let what = || format!("{}x{D} {} n={n} {b:?}", T::NAME, gen::kind_name(kind));
    let t = build(data, b).map_err(|e| format!("{}: build failed: {e}", what()))?;
    let nq = if big { 12 } else { r.range(10, 40) };
    for j in 0..nq {
        let q = gen::query(r, &full);
        let a = q1(&t, &q).map_err(|e| format!("{}: query {q:?} failed: {e}", what()))?;
        check1(data, None, &q, &a).map_err(|e| format!("{}: query {j}: {e}", what()))?;
    }
    c.st.evals(nq);
    c.st.add(&format!("D={D}"), nq as u64);
    c.st.add(T::NAME, nq as u64);
    c.st.add(gen::kind_name(kind), nq as u64);
    if before + after > 0 {
        c.st.add("trees over a part of a larger array", 1)
    }
    c.st.add(if b.par.is_some() { "parallel builds" } else { "serial builds" }, 1);
    if n <= b.leaf {
        c.st.add("trees with a leaf root", 1)
    }
    if big {
        c.st.add("trees of 100000+ points", 1)
    }
    if huge {
        c.st.add("trees of 1100000+ points", 1)
    }
    if n > b.leaf {
        c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), kind as u64, n as u64, b.leaf as u64, b.par.map_or(99, |x| x as u64)]));
    }
    c.st.sample(what);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C01", |c| {
        let (w, d) = run::pick_dim17(&mut c.rng);
        dispatch17!(w, d, case(c))
    })
}

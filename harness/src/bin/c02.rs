use fxh::prelude::*;
// C02: k nearest neighbours of a non-periodic tree against exhaustive search.
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    // and now and then one that is more than 20 levels deep
    let huge = D <= 3 && c.idx % 20_000 >= 520 && c.idx % 20_000 < 523;
    let big = huge || c.idx % 200 == 20;
    let n = if huge { 1_100_000 + r.below(50_000) } else if big { r.range(100_000, 130_000) } else { gen::size(r) };
    let kind = gen::any_kind(r);
    let data = gen::points::<T, D>(r, n, kind);
    let mut b = gen::build(r, n);
    if big {
        b.leaf = *r.pick(&[1, 8, 32, 64, 1000, 70_000, n]);
        b.par = *r.pick(&[None, Some(1), Some(3)]);
    }
    if huge {
        b.leaf = r.range(1, 3);
    }
    let what = || format!("{}x{D} {} n={n} {b:?}", T::NAME, gen::kind_name(kind));
    let t = build(&data, b).map_err(|e| format!("{}: build failed: {e}", what()))?;
    let nq = if big { 6 } else { r.range(6, 24) };
    for j in 0..nq {
        let q = gen::query(r, &data);
        let mut k = gen::k(r, n);
        if big && k > 3000 && j > 0 {
            k = r.range(1, 3000)
        }
        let a = qk(&t, &q, k).map_err(|e| format!("{}: query {q:?} k={k} failed: {e}", what()))?;
        check_k(&data, None, &q, k, &a).map_err(|e| format!("{}: query {j} k={k}: {e}", what()))?;
        c.st.add(match k { 0 => "k = 0", 1 => "k = 1", _ if k < n => "1 < k < n", _ if k == n => "k = n", _ => "k > n" }, 1);
        c.st.add("neighbours judged", a.d.len() as u64);
        if k > 1 && n > b.leaf {
            c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), kind as u64, n as u64, b.leaf as u64, k as u64]));
        }
    }
    c.st.evals(nq);
    c.st.add(&format!("D={D}"), nq as u64);
    c.st.add(T::NAME, nq as u64);
    c.st.add(gen::kind_name(kind), nq as u64);
    if n <= b.leaf {
        c.st.add("trees with a leaf root", 1)
    }
    if big {
        c.st.add("trees of 100000+ points", 1)
    }
    if huge {
        c.st.add("trees of 1100000+ points", 1)
    }
    c.st.sample(what);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C02", |c| {
        let (w, d) = run::pick_dim17(&mut c.rng);
        dispatch17!(w, d, case(c))
    })
}

use fxh::inst::{self, X};
use fxh::prelude::*;
use fxh::walk;
// C07: the nodes of every built tree, walked.
fn one<T: Sc, const D: usize>(c: &mut Case, data: &[[T; D]], b: Build, what: &str) -> R {
    let copy: Vec<[u64; D]> = data.iter().map(bits).collect();
    let t = build(data, b).map_err(|e| format!("{what}: build failed: {e}"))?;
    let sh = walk::check(&t, data, b.leaf).map_err(|e| format!("{what}: {e}"))?;
    walk::check_data(&t, data, &copy).map_err(|e| format!("{what}: {e}"))?;
    c.st.eval();
    c.st.add("points accounted for", data.len() as u64);
    c.st.add("nodes checked", sh.nodes as u64);
    c.st.add(if b.par.is_some() { "parallel builds" } else { "serial builds" }, 1);
    c.st.max("depth", sh.depth as f64);
    c.st.max("nodes", sh.nodes as f64);
    if sh.stems == 0 {
        c.st.add("trees with a leaf root", 1)
    }
    if data.len() >= 100_000 {
        c.st.add("trees of 100000+ points", 1)
    }
    if sh.stems > 1 {
        c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), data.len() as u64, b.leaf as u64, b.par.map_or(99, |x| x as u64), sh.depth as u64]));
    }
    Ok(())
}
fn case<T: Sc, const D: usize>(c: &mut Case, chaos: bool) -> R {
    let r = &mut c.rng;
    let big = c.idx % 70 == 11 && !chaos;
    let n = if big { *r.pick(&[99_999, 100_000, 100_001, 120_000, 150_001, 250_000]) } else { gen::size(r) };
    let kind = gen::any_kind(r);
    let data = gen::points::<T, D>(r, n, kind);
    let mut b = gen::build(r, n);
    if chaos {
        b.par = Some(r.range(1, 4))
    }
    if big {
        b.leaf = *r.pick(&[0, 1, 2, 16, 32, 1000, 66_000, n]);
        b.par = *r.pick(&[None, Some(0), Some(1), Some(3), Some(5)]);
    }
    c.st.add(gen::kind_name(kind), 1);
    c.st.add(T::NAME, 1);
    let what = format!("{}x{D} {} n={n} {b:?}", T::NAME, gen::kind_name(kind));
    one(c, &data, b, &what)?;
    c.st.sample(|| what);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    inst::chaos(97);
    run::main("C07", |c| {
        if c.rng.chance(0.25) {
            c.st.add("parallel builds with disturbed schedules", 1);
            let r = if c.rng.chance(0.5) { case::<X, 2>(c, true) } else { case::<X, 3>(c, true) };
            c.st.max("schedule disturbances", inst::disturbed() as f64);
            return r;
        }
        let (w, d) = run::pick_dim17(&mut c.rng);
        dispatch17!(w, d, case(c, false))
    })
}

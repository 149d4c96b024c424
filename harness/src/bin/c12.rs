use fxh::prelude::*;
use fxh::rng::Rng;
use std::sync::OnceLock;
// C12: everything the library does on several threads, for a race detector to watch.
fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| [2, 4, 7].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[i % 3]
}
fn one<T: Sc, const D: usize>(r: &mut Rng, data: &[[T; D]], bx: &Option<[T; D]>) -> [T; D] {
    match bx { Some(b) => gen::query_box(r, data, b), None => gen::query(r, data) }
}
/// asks everything once, and reads all of every answer
fn ask<T: Sc, const D: usize>(r: &mut Rng, t: &Tree<T, D>, data: &[[T; D]], bx: &Option<[T; D]>, tiny: bool, rows: &mut u64) -> R {
    let m = if tiny { r.range(1, 3) } else { r.range(1, 60) };
    let k = r.range(1, if tiny { 3 } else { 20 });
    let e = |e: FnntwError<T>| format!("{e:?}");
    let q = one(r, data, bx);
    let a = q1(t, &q).map_err(e)?;
    ensure!((a.i as usize) < data.len(), "index {}", a.i);
    let a = qk(t, &q, k).map_err(e)?;
    ensure!(a.i.iter().all(|i| (*i as usize) < data.len()), "indices {:?}", a.i);
    *rows += 2;
    if BATCH {
        let mut qs: Vec<[T; D]> = (0..m).map(|_| one(r, data, bx)).collect();
        let what = r.below(6);
        if what == 5 {
            // an invalid query stops the batch
            qs[r.below(m)][0] = <T as Sc>::nan(0);
        }
        let p = r.below(5);
        let ax = r.below(D);
        let go = || -> R {
            match what {
                5 => { ensure!(qkp(t, &qs, k, true).is_err() && qax(t, &qs, k, ax).is_err(), "an invalid batch was answered"); }
                4 => {
                    let a = qax(t, &qs, k, ax).map_err(e)?;
                    ensure!(a.ax.len() == m * k.min(data.len()), "{} components", a.ax.len());
                    std::hint::black_box(a.ax.iter().zip(&a.non).filter(|(x, y)| **x > **y).count());
                }
                w => {
                    let a = qkp(t, &qs, k, w % 2 == 0).map_err(e)?;
                    ensure!(a.i.len() == m * k.min(data.len()) && a.i.iter().all(|i| (*i as usize) < data.len()), "indices {:?}", a.i);
                    std::hint::black_box(a.d.iter().filter(|x| x.to() > 0.5).count());
                }
            }
            Ok(())
        };
        if p < 3 { pool(p).install(go)? } else { go()? }
        *rows += m as u64;
    }
    Ok(())
}
fn case<T: Sc, const D: usize>(c: &mut Case, tiny: bool) -> R {
    let r = &mut c.rng;
    let big = !tiny && c.idx % 12 == 3;
    let n = if big { 100_000 + r.below(20_000) } else if tiny { r.range(2, 20) } else { r.range(1, 700) };
    let periodic = r.chance(0.4);
    let kind = r.below(gen::KINDS.len());
    let (data, bx) = if periodic { let (d, b, _) = gen::boxed::<T, D>(r, n); (d, Some(b)) } else { (gen::points::<T, D>(r, n, kind), None) };
    let leaf = if big { *r.pick(&[16, 64]) } else { gen::leaf(r, n) };
    let level = r.range(1, if tiny { 2 } else { 5 });
    let what = format!("{}x{D} n={n} leaf {leaf} {level} parallel levels box {bx:?}", T::NAME);
    let users = if tiny { 2 } else { r.range(2, 6) };
    let seeds: Vec<u64> = (0..users).map(|_| r.u64()).collect();
    let p0 = r.below(4);
    let (d, bxr) = (&data, &bx);
    let make = |par| -> Result<Tree<T, D>, String> {
        let go = || build(d, Build { leaf, par }).map_err(|e| format!("{e:?}"));
        let t = if p0 < 3 { pool(p0).install(go)? } else { go()? };
        match bxr { Some(b) => t.with_boxsize(b).map_err(|e| format!("{e:?}")), None => Ok(t) }
    };
    let t = make(Some(level)).map_err(|e| format!("{what}: {e}"))?;
    let (t, make) = (&t, &make);
    let out: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = seeds.iter().enumerate().map(|(i, seed)| s.spawn(move || -> Result<u64, String> {
            let mut r = Rng::new(*seed, 1);
            let mut rows = 0;
            for step in 0..if tiny { 1 } else { 3 } {
                ask(&mut r, t, d, bxr, tiny, &mut rows)?;
                if i == 0 && step == 0 {
                    // another tree over the same data is built, asked and dropped meanwhile
                    let u = make(if r.chance(0.7) { Some(level) } else { None })?;
                    ask(&mut r, &u, d, bxr, tiny, &mut rows)?;
                }
            }
            Ok(rows)
        })).collect();
        h.into_iter().map(|h| h.join()).collect()
    });
    let mut rows = 0;
    for o in out {
        rows += o.map_err(|e| format!("{what}: a thread panicked: {:?}", e.downcast_ref::<String>()))?.map_err(|e| format!("{what}: {e}"))?;
    }
    c.st.evals(rows as usize);
    c.st.add("queries by threads sharing a tree", rows);
    c.st.add("user threads", users as u64);
    c.st.add("threads of parallel builds", 2 * ((1 << level) - 1));
    c.st.add("parallel builds", 1);
    if big {
        c.st.add("builds of 100000+ points on a pool", 1)
    }
    c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, leaf as u64, level as u64, users as u64, rows]));
    c.st.sample(|| format!("{what}, {users} threads"));
    Ok(())
}
fn main() {
    run::main("C12", |c| {
        let tiny = c.args.mode == "tiny";
        let (w, d) = run::pick_dim(&mut c.rng);
        let d = if tiny { d.min(2) } else { d };
        dispatch!(w, d, case(c, tiny))
    })
}

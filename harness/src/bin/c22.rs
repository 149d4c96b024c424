use fxh::alloc;
use fxh::prelude::*;
use fxh::walk;
use std::sync::OnceLock;
// C22: everything is released, and single queries need little scratch memory. One worker only:
// the counters are global.
fn pool() -> &'static rayon::ThreadPool {
    static P: OnceLock<rayon::ThreadPool> = OnceLock::new();
    P.get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(3).build().unwrap())
}
struct Set<T, const D: usize> {
    data: Vec<[T; D]>,
    bad: Vec<[T; D]>,
    bx: Option<[T; D]>,
    qs: Vec<[T; D]>,
    badqs: Vec<[T; D]>,
    b: Build,
    k: usize,
}
/// What is left after dropping everything: called many times with the same arguments.
fn exact<T: Sc, const D: usize>(s: &Set<T, D>) -> R {
    let mut t = build(&s.data, s.b).map_err(|e| format!("{e:?}"))?;
    if let Some(b) = &s.bx {
        t = t.with_boxsize(b).map_err(|e| format!("{e:?}"))?;
    }
    for q in &s.qs {
        q1(&t, q).map_err(|e| format!("{e:?}"))?;
        qk(&t, q, s.k).map_err(|e| format!("{e:?}"))?;
        qk(&t, q, 0).map_err(|e| format!("{e:?}"))?;
        qk(&t, q, s.data.len() + 1).map_err(|e| format!("{e:?}"))?;
    }
    for q in &s.badqs {
        if q.iter().any(|x| !x.is_finite()) {
            ensure!(q1(&t, q).is_err() && qk(&t, q, s.k).is_err(), "invalid query answered");
        }
    }
    drop(t);
    ensure!(build(&s.bad, s.b).is_err(), "invalid data accepted");
    let t = build(&s.data, s.b).map_err(|e| format!("{e:?}"))?;
    ensure!(t.with_boxsize(&[T::of(-1.0); D]).is_err(), "invalid box accepted");
    Ok(())
}
fn batches<T: Sc, const D: usize>(s: &Set<T, D>) -> R {
    let mut t = build(&s.data, s.b).map_err(|e| format!("{e:?}"))?;
    if let Some(b) = &s.bx {
        t = t.with_boxsize(b).map_err(|e| format!("{e:?}"))?;
    }
    for with in [false, true] {
        qkp(&t, &s.qs, s.k, with).map_err(|e| format!("{e:?}"))?;
        ensure!(qkp(&t, &s.badqs, s.k, with).is_err(), "invalid batch answered");
    }
    qax(&t, &s.qs, s.k, D - 1).map_err(|e| format!("{e:?}"))?;
    ensure!(qax(&t, &s.badqs, s.k, 0).is_err() && qax(&t, &s.qs, s.k, D).is_err(), "invalid axis batch answered");
    Ok(())
}
fn scratch<T: Sc, const D: usize>(c: &mut Case, s: &Set<T, D>, what: &str) -> R {
    let mut t = build(&s.data, s.b).map_err(|e| format!("{e:?}"))?;
    let sh = walk::check(&t, &s.data, s.b.leaf)?;
    if let Some(b) = &s.bx {
        t = t.with_boxsize(b).map_err(|e| format!("{e:?}"))?;
    }
    let images = if s.bx.is_some() { 1usize << D } else { 1 };
    let item = std::mem::size_of::<T>();
    for q in &s.qs {
        for k in [1, s.k.min(s.data.len()), 5] {
            let kk = k.min(s.data.len());
            let lim = 8192 + kk * (8 * item + 160 + D * 4 * item) + (sh.depth + 4) * 512 + images * (D * 4 * item + 128);
            let l = alloc::peak_reset();
            let a = if k == 1 { q1(&t, q).map(|_| ()) } else { qk(&t, q, k).map(|_| ()) };
            let used = alloc::peak() - l;
            a.map_err(|e| format!("{e:?}"))?;
            ensure!(used <= lim, "{what}: a query with k={k} needed {used} bytes in a tree of height {} ({images} images)", sh.depth);
            c.st.max("scratch bytes over the bound", used as f64 / lim as f64);
            c.st.max("scratch bytes", used as f64);
            c.st.eval();
            c.st.add("queries with measured scratch memory", 1);
        }
    }
    Ok(())
}
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    // from 100000 points on, the global pool takes part in building
    let huge = c.idx % 30 == 11;
    let n = if huge { r.range(100_000, 120_000) } else if r.chance(0.1) { r.range(20_000, 60_000) } else { gen::size(r) };
    let heavy = n > 10_000;
    let periodic = r.chance(0.4);
    let kind = r.below(gen::KINDS.len());
    let (data, bx) = if periodic { let (d, b, _) = gen::boxed::<T, D>(r, n); (d, Some(b)) } else { (gen::points::<T, D>(r, n, kind), None) };
    let mut b = gen::build(r, n);
    if heavy {
        b = Build { leaf: *r.pick(&[1, 16]), par: *r.pick(&[None, Some(2)]) };
    }
    let nq = if heavy { 2 } else { r.range(1, 6) };
    let qs: Vec<[T; D]> = (0..nq).map(|_| match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) }).collect();
    let mut bad = data.clone();
    bad[r.below(n)][r.below(D)] = <T as Sc>::nan(0);
    let mut badqs = qs.clone();
    badqs[r.below(nq)][r.below(D)] = inf(true);
    let k = gen::k(r, n).min(if heavy { 500 } else { 300 });
    let s = Set { data, bad, bx, qs, badqs, b, k };
    let what = format!("{}x{D} n={n} {b:?} box {bx:?} k={k}", T::NAME);
    // threads of a parallel build are gone when it returns, but their handles' memory may be
    // released a moment later, so ask again before judging
    let settle = |want: usize| {
        for _ in 0..2000 {
            if alloc::live() == want {
                return true;
            }
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
        false
    };
    exact(&s).map_err(|e| format!("{what}: {e}"))?;
    let l0 = alloc::live();
    let b0 = alloc::blocks();
    let t0 = alloc::total();
    let rounds = if heavy { 1 } else { 3 };
    for _ in 0..rounds {
        exact(&s).map_err(|e| format!("{what}: {e}"))?;
    }
    if n >= 100_000 {
        // the pool keeps queues of its own: nothing may grow with the rounds
        settle(l0);
        let l1 = alloc::live() as i64;
        let (mut grown, m) = (0, 4);
        for round in 0..3 {
            for _ in 0..m {
                exact(&s).map_err(|e| format!("{what}: {e}"))?;
            }
            settle(l1 as usize);
            let now = alloc::live() as i64 - l1;
            if now < 50_000 {
                grown = 0;
                break;
            }
            ensure!(round < 2 || now < grown + 25_000, "{what}: {now} bytes more are left after {} lives of a tree, {grown} after {}", (round + 1) * m, round * m);
            grown = now;
        }
        c.st.max("bytes held by the pool after lives of large trees", grown as f64);
        c.st.add("lives of trees of 100000+ points", m as u64);
    } else if !settle(l0) || alloc::blocks() != b0 {
        // a lasting difference must repeat
        let mut before = alloc::live();
        for step in 0..4 {
            for _ in 0..20 {
                exact(&s).map_err(|e| format!("{what}: {e}"))?;
            }
            for _ in 0..1000 {
                if alloc::live() <= before {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
            let now = alloc::live();
            if now <= before {
                break;
            }
            ensure!(step < 3, "{what}: {} bytes are left after {} rounds of building, querying and dropping, {} of them of the last 20, and so on from the start", now as i64 - l0 as i64, rounds + 20 * (step + 1), now - before);
            before = now;
        }
    }
    c.st.eval();
    c.st.add("rounds without a leftover byte", rounds as u64);
    c.st.add("bytes allocated and released", (alloc::total() - t0) as u64);
    scratch(c, &s, &what)?;
    if BATCH && !heavy {
        // the pool keeps queues of its own: after a warm-up nothing may grow with the rounds
        let run = |m: usize| -> R {
            for i in 0..m {
                if i % 2 == 0 { pool().install(|| batches(&s)) } else { batches(&s) }.map_err(|e| format!("{what}: batches: {e}"))?;
            }
            Ok(())
        };
        run(6)?;
        let (b1, l1) = (alloc::blocks() as i64, alloc::live() as i64);
        let m = 40;
        run(m)?;
        // the pool may hold some blocks back for a moment
        let mut grown = 0;
        for _ in 0..200 {
            grown = alloc::blocks() as i64 - b1;
            if grown < 8 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        let bytes = alloc::live() as i64 - l1;
        if grown >= 20 || bytes > 200_000 {
            let (mut b2, mut l2) = (grown, bytes);
            for step in 0..4 {
                run(m * 2)?;
                std::thread::sleep(std::time::Duration::from_millis(20));
                let (b3, l3) = (alloc::blocks() as i64 - b1, alloc::live() as i64 - l1);
                if b3 < b2 + m as i64 / 2 && l3 < l2 + 200_000 {
                    break;
                }
                ensure!(step < 3, "{what}: {b2} blocks of {l2} bytes are left after {} rounds of batches, {b3} of {l3} after {}, and so on from the start", (2 * step + 1) * m, (2 * step + 3) * m);
                (b2, l2) = (b3, l3);
            }
        }
        c.st.max("blocks held by the pool after batches", grown as f64);
        c.st.eval();
        c.st.add("rounds of batches", m as u64);
    }
    c.st.add(if b.par.is_some() { "parallel builds" } else { "serial builds" }, 1);
    c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, k as u64, periodic as u64]));
    c.st.sample(|| what);
    Ok(())
}
/// Many more operations than a case usually has, on a small tree: what is kept for each of them
/// adds up, also in a buffer that only grows now and then.
fn long<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(1, 30);
    let periodic = r.chance(0.5) && D <= 3;
    let kind = r.below(gen::KINDS.len());
    let (data, bx) = if periodic { let (d, b, _) = gen::boxed::<T, D>(r, n); (d, Some(b)) } else { (gen::points::<T, D>(r, n, kind), None) };
    let b = Build { leaf: r.range(1, 16), par: None };
    let qs: Vec<[T; D]> = (0..4).map(|_| match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) }).collect();
    let mut bad = qs[0];
    bad[r.below(D)] = <T as Sc>::nan(0);
    let k = r.range(0, 4);
    let what = format!("{}x{D} n={n} {b:?} box {bx:?} k={k}", T::NAME);
    let e = |e: FnntwError<T>| format!("{e:?}");
    let make = || -> Result<Tree<T, D>, String> {
        let t = build(&data, b).map_err(e)?;
        match &bx { Some(x) => t.with_boxsize(x).map_err(e), None => Ok(t) }
    };
    let t = make()?;
    let kind = r.below(if BATCH { 6 } else { 3 });
    let name = ["single queries", "builds", "rejected queries", "batches", "rejected batches", "batches from outside the pool"][kind];
    let run = |m: usize| -> R {
        for i in 0..m {
            let q = &qs[i % 4];
            match kind {
                0 => {
                    q1(&t, q).map_err(e)?;
                    qk(&t, q, k).map_err(e)?;
                }
                1 => drop(make()?),
                2 => ensure!(q1(&t, &bad).is_err() && qk(&t, &bad, k).is_err(), "invalid query answered"),
                4 => ensure!(qkp(&t, &[*q, bad], k, i % 2 == 0).is_err() && qax(&t, &[*q, bad], k, 0).is_err(), "invalid batch answered"),
                _ => {
                    let go = || -> R {
                        if i % 2 == 0 { qkp(&t, &qs, k, i % 4 == 0).map(|_| ()) } else { qax(&t, &qs, k, D - 1).map(|_| ()) }.map_err(e)
                    };
                    if kind == 3 { pool().install(go)? } else { go()? }
                }
            }
        }
        Ok(())
    };
    let m = if kind < 3 { 30_000 } else { 12_000 };
    run(m / 100).map_err(|e| format!("{what}: {name}: {e}"))?;
    let l0 = alloc::live() as i64;
    let mut done = 0;
    let mut before = 64_000;
    // what is kept for each operation is more than this by the end of the first step
    for step in 0..3 {
        let m = m << (2 * step);
        run(m).map_err(|e| format!("{what}: {name}: {e}"))?;
        done += m;
        let now = alloc::live() as i64 - l0;
        if now <= before {
            break;
        }
        ensure!(step < 2, "{what}: {done} {name} leave {now} bytes behind, the first {} of them {before}", done - m);
        before = now;
    }
    c.st.eval();
    c.st.add(&format!("long histories of {name}"), 1);
    c.st.add("operations in long histories", done as u64);
    c.st.nontrivial(run::hash(&[22, D as u64, T::EPS.to_bits(), n as u64, k as u64, kind as u64]));
    Ok(())
}
fn main() {
    alloc::count();
    run::main("C22", |c| {
        let (w, d) = run::pick_dim(&mut c.rng);
        if c.idx % 25 == 7 {
            return dispatch!(w, d, long(c));
        }
        dispatch!(w, d, case(c))
    })
}

use fxh::inst::{self, X};
use fxh::prelude::*;
use fxh::rng::Rng;
use std::sync::OnceLock;
// C19: any history of queries, on one thread or many, gives every query its own answer.
fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    &P.get_or_init(|| [1, 2, 4, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())[i % 4]
}
/// one operation of a history
#[derive(Clone, Copy, Debug)]
enum Op {
    One(usize),
    K(usize, usize),
    Batch(usize, usize, usize, bool),
    Axis(usize, usize, usize, usize),
    Invalid(usize, usize, usize),
    Rebuild,
}
fn op(r: &mut Rng, nq: usize, n: usize, d: usize) -> Op {
    let k = gen::k(r, n).min(400);
    let a = r.below(nq);
    let b = r.range(a, nq);
    match r.below(if BATCH { 12 } else { 7 }) {
        0..=1 => Op::One(a),
        2..=4 => Op::K(a, k),
        5 => Op::Invalid(a, k, r.below(d)),
        6 => Op::Rebuild,
        7..=8 => Op::Batch(a, b, k, r.chance(0.5)),
        9..=10 => Op::Axis(a, b, k, r.below(d)),
        _ => Op::Invalid(a, k, r.below(d)),
    }
}
struct World<'a, T: Sc, const D: usize> {
    data: &'a [[T; D]],
    bx: Option<[T; D]>,
    b: Build,
    qs: &'a [[T; D]],
    /// answers of fresh trees, each of which was asked one query only
    one: Vec<N1<T, D>>,
    all: Vec<Vec<f64>>,
}
fn fresh<'a, T: Sc, const D: usize>(data: &'a [[T; D]], bx: &Option<[T; D]>, b: Build) -> Result<Tree<'a, T, D>, String> {
    let t = build(data, b).map_err(|e| format!("build failed: {e:?}"))?;
    match bx {
        Some(b) => t.with_boxsize(b).map_err(|e| format!("box rejected: {e:?}")),
        None => Ok(t),
    }
}
impl<'a, T: Sc, const D: usize> World<'a, T, D> {
    fn row(&self, qi: usize, k: usize, d: &[T], i: &[u64]) -> R {
        let want = &self.all[qi];
        let sh = shift(self.bx.as_ref());
        ensure!(d.len() == k.min(self.data.len()) && i.len() == d.len(), "{} neighbours, k={k}", d.len());
        for j in 0..d.len() {
            ensure!((i[j] as usize) < self.data.len(), "index {}", i[j]);
            ensure!(near::<T, D>(root(d[j]), root_of(want[j]), sh), "neighbour {j} of {k} at {:?}, on a fresh tree at {:?} (query {:?})", d[j], want[j], self.qs[qi]);
        }
        check_members(self.data, self.bx.as_ref(), &self.qs[qi], d, i)
    }
    /// runs one operation and judges its answer
    fn run(&self, t: &Tree<T, D>, o: Op) -> Result<u64, String> {
        match o {
            Op::One(q) => {
                let a = q1(t, &self.qs[q]).map_err(|e| format!("{e:?}"))?;
                let w = &self.one[q];
                let sh = shift(self.bx.as_ref());
                ensure!(near::<T, D>(root(a.d), root(w.d), sh), "nearest at {:?}, on a fresh tree at {:?}", a.d, w.d);
                ensure!((a.i as usize) < self.data.len(), "index {}", a.i);
                let at = min_image(&self.qs[q], &self.data[a.i as usize], self.bx.as_ref());
                ensure!(a.i == w.i || near::<T, D>(at, root(w.d), sh), "nearest is row {}, on a fresh tree row {}", a.i, w.i);
                let b = q1(t, &self.qs[q]).map_err(|e| format!("{e:?}"))?;
                ensure!(a.d.bits() == b.d.bits() && a.i == b.i, "asked twice: {a:?} and {b:?}");
                Ok(2)
            }
            Op::K(q, k) => {
                let a = qk(t, &self.qs[q], k).map_err(|e| format!("{e:?}"))?;
                self.row(q, k, &a.d, &a.i)?;
                let b = qk(t, &self.qs[q], k).map_err(|e| format!("{e:?}"))?;
                ensure!(a.d.iter().map(|x| x.bits()).eq(b.d.iter().map(|x| x.bits())) && a.i == b.i, "asked twice: {a:?} and {b:?}");
                Ok(2)
            }
            Op::Batch(a, b, k, with) => {
                let r = qkp(t, &self.qs[a..b], k, with).map_err(|e| format!("{e:?}"))?;
                let kk = k.min(self.data.len());
                ensure!(r.d.len() == kk * (b - a) && r.i.len() == r.d.len(), "{} neighbours for {} queries, k={k}", r.d.len(), b - a);
                for j in 0..b - a {
                    self.row(a + j, k, &r.d[j * kk..(j + 1) * kk], &r.i[j * kk..(j + 1) * kk]).map_err(|e| format!("row {j}: {e}"))?;
                }
                Ok((b - a) as u64)
            }
            Op::Axis(a, b, k, ax) => {
                let r = qax(t, &self.qs[a..b], k, ax).map_err(|e| format!("{e:?}"))?;
                let kk = k.min(self.data.len());
                let sh = shift(self.bx.as_ref());
                ensure!(r.ax.len() == kk * (b - a) && r.non.len() == r.ax.len(), "{} components for {} queries, k={k}", r.ax.len(), b - a);
                for j in 0..b - a {
                    for m in 0..kk {
                        let (x, y) = (root(r.ax[j * kk + m]), root(r.non[j * kk + m]));
                        let d = (x * x + y * y).sqrt();
                        ensure!(near::<T, D>(d, root_of(self.all[a + j][m]), sh), "row {j}, neighbour {m} of {k}: components {x:e} and {y:e}, on a fresh tree at {:e}", root_of(self.all[a + j][m]));
                    }
                }
                Ok((b - a) as u64)
            }
            Op::Invalid(q, k, ax) => {
                let mut bad = self.qs[q];
                bad[ax] = <T as Sc>::nan(k);
                ensure!(q1(t, &bad).is_err() && qk(t, &bad, k).is_err(), "an invalid query was answered");
                if BATCH {
                    let mut v = self.qs.to_vec();
                    v[q] = bad;
                    ensure!(qkp(t, &v, k, k % 2 == 0).is_err() && qax(t, &v, k, ax).is_err(), "an invalid batch was answered");
                }
                Ok(0)
            }
            Op::Rebuild => {
                // other trees over the same data come and go
                let u = fresh(self.data, &self.bx, self.b)?;
                let _ = q1(&u, &self.qs[0]).map_err(|e| format!("{e:?}"))?;
                Ok(1)
            }
        }
    }
}
fn root_of(d: f64) -> f64 {
    if SQRT { d } else { d.sqrt() }
}
fn case<T: Sc, const D: usize>(c: &mut Case, many: bool) -> R {
    let r = &mut c.rng;
    let n = if r.chance(0.2) { r.range(1, 20) } else { gen::size(r).min(800) };
    let periodic = r.chance(0.45) && D <= 9;
    let n = if D > 7 && periodic { n.min(40) } else { n };
    let kind = r.below(gen::KINDS.len());
    let (data, bx) = if periodic { let (d, b, _) = gen::boxed::<T, D>(r, n); (d, Some(b)) } else { (gen::points::<T, D>(r, n, kind), None) };
    let b = gen::build(r, n);
    let nq = r.range(3, 14);
    let qs: Vec<[T; D]> = (0..nq).map(|_| match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) }).collect();
    let what = format!("{}x{D} n={n} {b:?} box {bx:?} {}", T::NAME, if many { "shared by threads" } else { "one thread" });
    let before: (Vec<_>, Vec<_>) = (data.iter().map(bits).collect(), qs.iter().map(bits).collect());
    let mut w = World { data: &data, bx, b, qs: &qs, one: vec![], all: vec![] };
    for q in &qs {
        let t = fresh(&data, &bx, b).map_err(|e| format!("{what}: {e}"))?;
        w.one.push(q1(&t, q).map_err(|e| format!("{what}: {e:?}"))?);
        drop(t);
        let t = fresh(&data, &bx, b).map_err(|e| format!("{what}: {e}"))?;
        w.all.push(qk(&t, q, n).map_err(|e| format!("{what}: {e:?}"))?.d.iter().map(|x| x.to()).collect());
    }
    let t = fresh(&data, &bx, b).map_err(|e| format!("{what}: {e}"))?;
    let mut answers = 0;
    let mut ops = 0;
    if many {
        let m = r.range(2, 8);
        let len = r.range(4, 14);
        let scripts: Vec<Vec<(Op, usize)>> = (0..m).map(|_| (0..len).map(|_| (op(r, nq, n, D), r.below(6))).collect()).collect();
        let (t, w) = (&t, &w);
        let out: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = scripts.iter().map(|sc| s.spawn(move || -> Result<u64, String> {
                let mut a = 0;
                for (i, (o, p)) in sc.iter().enumerate() {
                    let go = || w.run(t, *o);
                    a += if *p < 4 { pool(*p).install(go) } else { go() }.map_err(|e| format!("operation {i} {o:?}: {e}"))?;
                }
                Ok(a)
            })).collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for (i, o) in out.into_iter().enumerate() {
            let a = o.map_err(|e| format!("{what}: thread {i} panicked: {:?}", e.downcast_ref::<String>()))?;
            answers += a.map_err(|e| format!("{what}: thread {i} of {m}: {e}"))?;
        }
        ops = m * len;
        c.st.add("threads sharing a tree", m as u64);
    } else {
        // a second tree over the same data, asked in between
        let u = fresh(&data, &bx, Build { leaf: gen::leaf(r, n), par: None }).map_err(|e| format!("{what}: {e}"))?;
        // and a tree over other data, possibly in a box of its own
        let (other, obx) = if r.chance(0.5) && D <= 9 { let m = r.range(1, 200); let (d, b, _) = gen::boxed::<T, D>(r, m); (d, Some(b)) } else { let m = r.range(1, 200); let kd = r.below(gen::KINDS.len()); (gen::points::<T, D>(r, m, kd), None) };
        let decoy = fresh(&other, &obx, Build { leaf: gen::leaf(r, other.len()), par: None }).map_err(|e| format!("{what}: {e}"))?;
        let len = r.range(10, 40);
        let mut hist = vec![];
        for _ in 0..len {
            let o = op(r, nq, n, D);
            hist.push(o);
            let x = if r.chance(0.2) { &u } else { &t };
            if r.chance(0.3) {
                let q = match &obx { Some(b) => gen::query_box(r, &other, b), None => gen::query(r, &other) };
                let k = gen::k(r, other.len()).min(100);
                let a = qk(&decoy, &q, k).map_err(|e| format!("{what}: another tree: {e:?}"))?;
                check_k(&other, obx.as_ref(), &q, k, &a).map_err(|e| format!("{what}: another tree, k={k}: {e}"))?;
                c.st.add("queries of another tree in between", 1);
            }
            answers += w.run(x, o).map_err(|e| format!("{what}: after {} operations, {o:?}: {e}", hist.len() - 1))?;
            ops += 1;
        }
    }
    ensure!(data.iter().zip(&before.0).all(|(a, b)| bits(a) == *b), "{what}: the caller's data was modified");
    ensure!(qs.iter().zip(&before.1).all(|(a, b)| bits(a) == *b), "{what}: the caller's queries were modified");
    ensure!(t.get_data().len() == n && t.get_data().iter().zip(&before.0).all(|(a, b)| bits(a) == *b), "{what}: get_data() changed");
    c.st.evals(answers as usize);
    c.st.add("operations", ops as u64);
    c.st.add(if many { "histories on many threads" } else { "histories on one thread" }, 1);
    c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, nq as u64, ops as u64, answers]));
    c.st.sample(|| format!("{what}, {ops} operations"));
    Ok(())
}
/// A tree that is asked very often: later answers must be the first ones, bit for bit.
fn long<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(1, 12);
    let periodic = r.chance(0.5);
    let (data, bx) = if periodic { let (d, b, _) = gen::boxed::<T, D>(r, n); (d, Some(b)) } else { let k = r.below(gen::KINDS.len()); (gen::points::<T, D>(r, n, k), None) };
    let b = gen::build(r, n);
    let what = format!("{}x{D} n={n} {b:?} box {bx:?}, a long history", T::NAME);
    let t = fresh(&data, &bx, b).map_err(|e| format!("{what}: {e}"))?;
    let nq = r.range(2, 5);
    let qs: Vec<[T; D]> = (0..nq).map(|_| match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) }).collect();
    let k = r.range(0, n + 1);
    let e = |e: FnntwError<T>| format!("{e:?}");
    let same = |a: &NK<T, D>, b: &NK<T, D>| a.i == b.i && a.d.iter().map(|x| x.bits()).eq(b.d.iter().map(|x| x.bits()));
    let one: Vec<N1<T, D>> = qs.iter().map(|q| q1(&t, q)).collect::<Result<_, _>>().map_err(e)?;
    let many: Vec<NK<T, D>> = qs.iter().map(|q| qk(&t, q, k)).collect::<Result<_, _>>().map_err(e)?;
    let mut bad = qs[0];
    bad[r.below(D)] = <T as Sc>::nan(k);
    for (q, (o, m)) in qs.iter().zip(one.iter().zip(&many)) {
        check1(&data, bx.as_ref(), q, o).map_err(|e| format!("{what}: {e}"))?;
        check_k(&data, bx.as_ref(), q, k, m).map_err(|e| format!("{what}: k={k}: {e}"))?;
    }
    let rounds = if D > 4 && periodic { 3000 } else { 66_000 };
    for i in 0..rounds {
        let j = i % nq;
        let a = q1(&t, &qs[j]).map_err(|e| format!("{what}: query {i}: {e:?}"))?;
        ensure!(a.d.bits() == one[j].d.bits() && a.i == one[j].i, "{what}: query_nearest {:?} gave {:?} at first, {a:?} the {i}th time", qs[j], one[j]);
        let a = qk(&t, &qs[j], k).map_err(|e| format!("{what}: query {i}: {e:?}"))?;
        ensure!(same(&a, &many[j]), "{what}: query_nearest_k {:?} k={k} gave {:?} at first, {a:?} the {i}th time", qs[j], many[j]);
        if i % 16 == 0 {
            ensure!(q1(&t, &bad).is_err() && qk(&t, &bad, k).is_err(), "{what}: {bad:?} was answered the {i}th time");
        }
        if BATCH && i % 60 == 0 {
            let w = i % 120 == 0;
            let a = qkp(&t, &qs, k, w).map_err(|e| format!("{what}: batch {i}: {e:?}"))?;
            check_batch(&data, bx.as_ref(), &qs, k, &a).map_err(|e| format!("{what}: batch with={w} k={k} in round {i}: {e}"))?;
            let ax = i % D;
            let a = qax(&t, &qs, k, ax).map_err(|e| format!("{what}: axis batch {i}: {e:?}"))?;
            check_axis(&data, bx.as_ref(), &qs, k, ax, &a).map_err(|e| format!("{what}: axis batch k={k} in round {i}: {e}"))?;
        }
    }
    c.st.evals(2 * rounds);
    c.st.add("histories of 132000 queries", (rounds > 60_000) as u64);
    c.st.nontrivial(run::hash(&[9, D as u64, T::EPS.to_bits(), n as u64, b.leaf as u64, k as u64, nq as u64, periodic as u64]));
    Ok(())
}
/// One tree after another in the same place, over data in the same buffer: nothing that an earlier
/// one was asked may show in the answers of the later ones.
fn succession<T: Sc, const D: usize>(c: &mut Case) -> R {
    #[inline(never)]
    fn here<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, b: Build, qs: &[[T; D]], k: usize, order: usize) -> R {
        let t = build(data, b).map_err(|e| format!("build failed: {e:?}"))?;
        let t = match bx { Some(x) => t.with_boxsize(x).map_err(|e| format!("box rejected: {e:?}"))?, None => t };
        let e = |e: FnntwError<T>| format!("query failed: {e:?}");
        for i in 0..2 * qs.len() {
            // the last query of one tree is the first one of the next
            let j = i % qs.len();
            let q = &qs[if order % 2 == 0 { j } else { qs.len() - 1 - j }];
            if order / 2 % 2 == 0 {
                check1(data, bx, q, &q1(&t, q).map_err(e)?).map_err(|e| format!("query_nearest {q:?}: {e}"))?;
            }
            if order / 4 % 2 == 0 {
                check_k(data, bx, q, k, &qk(&t, q, k).map_err(e)?).map_err(|e| format!("query_nearest_k {q:?} k={k}: {e}"))?;
            }
        }
        if BATCH {
            let with = order % 2 == 1;
            check_batch(data, bx, qs, k, &qkp(&t, qs, k, with).map_err(e)?).map_err(|e| format!("batch {qs:?} k={k} with={with}: {e}"))?;
            check_axis(data, bx, qs, k, k % D, &qax(&t, qs, k, k % D).map_err(e)?).map_err(|e| format!("axis batch {qs:?} k={k}: {e}"))?;
        }
        Ok(())
    }
    let r = &mut c.rng;
    let n = r.range(1, 120);
    let periodic = r.chance(0.5);
    let kind = r.below(gen::KINDS.len());
    let (mut data, mut bx) = if periodic { let (d, b, _) = gen::boxed::<T, D>(r, n); (d, Some(b)) } else { (gen::points::<T, D>(r, n, kind), None) };
    let b = gen::build(r, n);
    let qs: Vec<[T; D]> = (0..r.range(1, 4)).map(|_| match &bx { Some(x) => gen::query_box(r, &data, x), None => gen::query(r, &data) }).collect();
    let k = r.range(1, n.min(12) + 1);
    let parts = r.below(8) & if r.chance(0.7) { 1 } else { 5 };
    let rounds = r.range(3, 7);
    for round in 0..rounds {
        if round > 0 {
            // the bounds of the data stay as they are now and then
            match r.below(3) {
                0 => {
                    let i = r.below(n);
                    let j = r.below(n);
                    let a = r.below(D);
                    let x = data[i][a];
                    data[i][a] = data[j][a];
                    data[j][a] = x;
                }
                _ => {
                    for i in 0..n {
                        if r.chance(0.7) {
                            let f = T::of(r.f());
                            data[i] = std::array::from_fn(|a| { let x = data[r.below(n)][a]; if r.chance(0.3) { x * f } else { x } });
                        }
                    }
                }
            }
            if let Some(x) = &mut bx {
                // a larger box holds the data and the queries too
                if r.chance(0.3) {
                    let a = r.below(D);
                    x[a] = x[a] * T::of(r.unif(1.0, 2.0));
                }
            }
        }
        let order = if r.chance(0.5) { round % 2 } else { 0 } | parts;
        here(&data, bx.as_ref(), b, &qs, k, order).map_err(|e| format!("{}x{D} {} n={n} {b:?} box {bx:?}: tree {round} in the same place: {e}", T::NAME, if periodic { "boxed" } else { gen::KINDS[kind] }))?;
    }
    c.st.add("trees in the place of an earlier one", rounds as u64);
    c.st.evals(rounds * qs.len());
    c.st.nontrivial(run::hash(&[10, D as u64, T::EPS.to_bits(), n as u64, k as u64, rounds as u64, qs.len() as u64]));
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    inst::chaos(211);
    run::main("C19", |c| {
        if c.idx % 80 == 41 {
            let (w, d) = run::pick_dim(&mut c.rng);
            return dispatch!(w, d, long(c));
        }
        if c.idx % 12 == 5 {
            let (w, d) = run::pick_dim(&mut c.rng);
            return dispatch!(w, d, succession(c));
        }
        let many = c.rng.chance(0.5);
        if many && c.rng.chance(0.4) {
            let r = if c.rng.chance(0.5) { case::<X, 2>(c, true) } else { case::<X, 3>(c, true) };
            c.st.max("schedule disturbances", inst::disturbed() as f64);
            return r;
        }
        let (w, d) = run::pick_dim17(&mut c.rng);
        dispatch17!(w, d, case(c, many))
    })
}

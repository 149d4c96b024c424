use fxh::prelude::*;
// C10: a box is accepted exactly when it is finite and holds non-negative data, and is then used.
fn judge<T: Sc, const D: usize>(data: &[[T; D]], bx: &[T; D]) -> (bool, bool, bool) {
    let neg = data.iter().flatten().any(|x| *x < T::zero());
    let nonfinite = bx.iter().any(|x| !x.is_finite());
    let small = (0..D).any(|a| data.iter().any(|p| p[a] > bx[a]));
    (neg, nonfinite, small)
}
fn verdict<R, T: Sc, const D: usize>(r: &Res<R, T>, data: &[[T; D]], bx: &[T; D]) -> Result<bool, String> {
    let (neg, nonfinite, small) = judge(data, bx);
    match r {
        Ok(_) => {
            ensure!(!neg, "accepted although the data has a negative coordinate");
            ensure!(!nonfinite, "accepted although a side is not finite");
            ensure!(!small, "accepted although it does not hold the data");
            Ok(true)
        }
        Err(FnntwError::NegativeDataPeriodicQuery) => if neg { Ok(false) } else { Err("rejected for negative data, there is none".into()) },
        Err(FnntwError::InvalidBoxsize) => if nonfinite { Ok(false) } else { Err("rejected as not finite, but all sides are".into()) },
        Err(FnntwError::SmallBoxsize) => if small { Ok(false) } else { Err("rejected as too small, but it holds the data".into()) },
        Err(e) => Err(format!("wrong error {e:?}")),
    }
}
fn use_box<T: Sc, const D: usize>(c: &mut Case, data: &[[T; D]], bx: &[T; D], t: &Tree<T, D>, big: bool) -> R {
    let r = &mut c.rng;
    for _ in 0..3 {
        let q = gen::query_box(r, data, bx);
        let k = if big { r.range(1, 20) } else { gen::k(r, data.len()).min(200) };
        let a = q1(t, &q).map_err(|e| format!("query {q:?} failed: {e}"))?;
        check1(data, Some(bx), &q, &a)?;
        let a = qk(t, &q, k).map_err(|e| format!("query {q:?} failed: {e}"))?;
        check_k(data, Some(bx), &q, k, &a).map_err(|e| format!("k={k}: {e}"))?;
        c.st.evals(2);
        if BATCH {
            let qs = [q, gen::query_box(r, data, bx)];
            for with in [false, true] {
                let a = qkp(t, &qs, k, with).map_err(|e| format!("batch failed: {e}"))?;
                check_batch(data, Some(bx), &qs, k, &a).map_err(|e| format!("batch with={with} k={k}: {e}"))?;
            }
            let ax = r.below(D);
            let a = qax(t, &qs, k, ax).map_err(|e| format!("axis batch failed: {e}"))?;
            check_axis(data, Some(bx), &qs, k, ax, &a).map_err(|e| format!("axis batch k={k}: {e}"))?;
            c.st.evals(3);
        }
        c.st.add("query kinds judged in a box", if BATCH { 5 } else { 2 });
    }
    Ok(())
}
/// a box that holds the data or misses by little or much, or is not finite
fn any_box<T: Sc, const D: usize>(r: &mut fxh::rng::Rng, hi: &[T; D], good: &[T; D]) -> [T; D] {
    let mut b = *good;
    match r.below(8) {
        0 | 1 => {
            // exactly the data's extent
            b = *hi;
        }
        2 => {
            b = *hi;
            let a = r.below(D);
            b[a] = b[a].prev();
        }
        3 => b = hi.map(|x| x.next()),
        4 => {
            for x in b.iter_mut() {
                *x = T::of(x.to() * r.unif(1.0, 4.0))
            }
            for a in 0..D {
                if b[a] < hi[a] {
                    b[a] = hi[a]
                }
            }
        }
        5 => {
            let a = r.below(D);
            b[a] = T::of(hi[a].to() * r.f());
        }
        6 => {
            let a = r.below(D);
            b[a] = match r.below(6) { 0 => inf(false), 1 => inf(true), 2 => -b[a], x => <T as Sc>::nan(x) };
            if r.chance(0.3) {
                let a = r.below(D);
                b[a] = T::of(hi[a].to() * 0.5);
            }
        }
        _ => (),
    }
    b
}
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = D <= 3 && c.idx % 150 == 31;
    let n = if big { 100_500 } else if D > 4 { r.range(1, if D > 7 { 20 } else { 60 }) } else { gen::size(r).min(500) };
    let (mut data, good, kind) = gen::boxed::<T, D>(r, n);
    if r.chance(0.2) {
        for _ in 0..r.range(1, 3) {
            let i = r.below(n);
            let x = &mut data[i][r.below(D)];
            *x = match r.below(3) { 0 => -T::min_positive_value(), 1 => T::zero().prev(), _ => -x.next() };
        }
    }
    let b = gen::build(r, n);
    let b = if big { Build { leaf: b.leaf.clamp(1, 64), par: b.par } } else { b };
    let hi: [T; D] = std::array::from_fn(|a| data.iter().map(|p| p[a]).fold(T::neg_infinity(), |m, x| if x > m { x } else { m }));
    let tag = format!("{}x{D} {kind} n={n} {b:?}", T::NAME);
    let mut t = build(&data, b).map_err(|e| format!("{tag}: build failed: {e}"))?;
    let mut boxes = vec![];
    // the same few queries are asked before a box is set and again after each box
    let pool: Vec<[T; D]> = (0..3).map(|_| gen::query_box(r, &data, &good)).collect();
    let pk = r.range(1, 6);
    let again = |t: &Tree<T, D>, bx: Option<&[T; D]>, step: usize| -> Result<u64, String> {
        let mut asked = 0;
        // in a turned order, so that the last query before a box is the first one after it
        for j in 0..pool.len() * 2 {
            let q = &pool[if step % 2 == 0 { pool.len() * 2 - 1 - j } else { j } % pool.len()];
            if bx.map_or(false, |b| (0..D).any(|a| q[a] > b[a])) {
                continue;
            }
            let e = |e: &dyn std::fmt::Display| format!("repeated query {q:?} k={pk}: {e}");
            check1(&data, bx, q, &q1(t, q).map_err(|x| e(&x))?).map_err(|x| e(&x))?;
            check_k(&data, bx, q, pk, &qk(t, q, pk).map_err(|x| e(&x))?).map_err(|x| e(&x))?;
            asked += 2;
        }
        Ok(asked)
    };
    let asked = again(&t, None, 1).map_err(|e| format!("{tag}: without a box: {e}"))?;
    c.st.add("queries asked before a box is set and after", asked);
    for step in 0..if big { 2 } else { r.range(1, 5) } {
        let bx = any_box(&mut c.rng, &hi, &good);
        let mine = bx;
        let res = t.with_boxsize(&mine);
        boxes.push(bx);
        let ok = verdict(&res, &data, &bx).map_err(|e| format!("{tag}: boxes {boxes:?}, the last one: {e}"))?;
        c.st.eval();
        let (neg, nonf, small) = judge(&data, &bx);
        c.st.add(if ok { if step > 0 { "accepted, replacing one" } else { "accepted" } } else { "rejected" }, 1);
        c.st.add(&format!("cause{}{}{}", if neg { " negative-data" } else { "" }, if nonf { " non-finite" } else { "" }, if small { " too-small" } else { "" }), 1);
        c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), n as u64, neg as u64, nonf as u64, small as u64, bx[0].bits(), step as u64]));
        match res {
            Ok(x) => {
                t = x;
                let asked = again(&t, Some(&bx), step).map_err(|e| format!("{tag}: boxes set {boxes:?}: {e}"))?;
                c.st.add("queries asked again in a new box", asked);
                use_box(c, &data, &bx, &t, big).map_err(|e| format!("{tag}: boxes set {boxes:?}: {e}"))?;
            }
            Err(_) => {
                // a rejected box consumes the tree; go on with a fresh one
                t = build(&data, b).map_err(|e| format!("{tag}: build failed: {e}"))?;
                boxes.clear();
            }
        }
    }
    c.st.add(T::NAME, 1);
    c.st.sample(|| tag);
    Ok(())
}
fn main() {
    fxh::alloc::fill();
    run::main("C10", |c| {
        let (w, d) = run::pick_dim9(&mut c.rng);
        dispatch9!(w, d, case(c))
    })
}

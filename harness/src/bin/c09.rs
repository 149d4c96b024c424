use fxh::prelude::*;
// C09: non-finite and empty input is rejected with its cause, everything finite is accepted.
fn invalid<T: Sc, const D: usize>(p: &[T; D]) -> bool {
    p.iter().any(|c| !c.is_finite())
}
/// the error must be the invalid-data error and name one of the invalid rows
fn is_invalid<R, T: Sc, const D: usize>(r: Res<R, T>, rows: &[[T; D]], what: &dyn Fn() -> String) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("{}: accepted", what())),
        Err(FnntwError::InvalidInputData { data_point }) => {
            let ok = rows.iter().any(|p| invalid(p) && data_point.len() == D && data_point.iter().zip(p).all(|(a, b)| a.bits() == b.bits() || (a.is_nan() && b.is_nan())));
            ensure!(ok, "{}: the error names {data_point:?}, which is not an invalid row", what());
            Ok(())
        }
        Err(e) => Err(format!("{}: wrong error: {e:?}", what())),
    }
}
fn bad<T: Sc>(r: &mut fxh::rng::Rng) -> T {
    match r.below(8) {
        0 | 1 => inf(false),
        2 => inf(true),
        x => <T as Sc>::nan(x),
    }
}
/// one or more poisoned rows
fn poison<T: Sc, const D: usize>(r: &mut fxh::rng::Rng, v: &mut [[T; D]]) -> usize {
    let n = v.len();
    let m = match r.below(4) {
        0..=1 => 1,
        2 => r.range(1, 3),
        _ => r.range(1, n),
    };
    let mut first = usize::MAX;
    for _ in 0..m {
        let i = match r.below(5) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => r.below(n),
        };
        v[i][r.below(D)] = bad(r);
        first = first.min(i);
    }
    first
}
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = c.idx % 120 == 17;
    let n = if big { *r.pick(&[99_999, 100_000, 130_000]) } else { gen::size(r) };
    let periodic = r.chance(0.35) && D <= 9 && !(big && D > 7);
    let n = if D > 7 && periodic { n.min(40) } else { n };
    let kind = r.below(gen::KINDS.len());
    let (data, bx) = if periodic {
        let (d, b, _) = gen::boxed::<T, D>(r, n);
        (d, Some(b))
    } else {
        (gen::points::<T, D>(r, n, kind), None)
    };
    let mut data = data;
    if !periodic && r.chance(0.2) {
        // extreme but finite
        for _ in 0..r.range(1, 8) {
            let i = r.below(n);
            data[i][r.below(D)] = *r.pick(&[T::max_value(), T::min_value(), T::min_positive_value(), -T::min_positive_value(), T::zero().next(), -T::zero()]);
        }
    }
    let b = gen::build(r, n);
    let tag = format!("{}x{D} n={n} {b:?} box {bx:?}", T::NAME);
    // builds
    for _ in 0..if big { 1 } else { 3 } {
        let mut v = data.clone();
        let at = poison(r, &mut v);
        let keep: Vec<[u64; D]> = v.iter().map(bits).collect();
        let par = if r.chance(0.5) { None } else { Some(r.below(4)) };
        let bb = Build { leaf: b.leaf, par };
        is_invalid(build(&v, bb).map(|_| ()), &v, &|| format!("{tag}: {bb:?} from data with an invalid row, first at {at}"))?;
        ensure!(v.iter().zip(&keep).all(|(a, b)| bits(a) == *b), "{tag}: the rejected data was modified");
        c.st.add(if par.is_some() { "invalid data, parallel build" } else { "invalid data, serial build" }, 1);
        c.st.eval();
        c.st.nontrivial(run::hash(&[1, D as u64, T::EPS.to_bits(), n as u64, at as u64, par.map_or(99, |x| x as u64)]));
    }
    let none: Vec<[T; D]> = vec![];
    for par in [None, Some(0), Some(3)] {
        let bb = Build { leaf: b.leaf, par };
        match build(&none, bb) {
            Err(FnntwError::ZeroLengthInputData) => c.st.add("empty data", 1),
            Err(e) => return Err(format!("{tag}: {bb:?} from no data: wrong error {e:?}")),
            Ok(_) => return Err(format!("{tag}: {bb:?} from no data succeeded")),
        }
        c.st.eval();
    }
    // finite data is accepted
    let t = build(&data, b).map_err(|e| format!("{tag}: finite data rejected: {e:?}"))?;
    let t = match &bx {
        Some(b) => t.with_boxsize(b).map_err(|e| format!("{tag}: box rejected: {e:?}"))?,
        None => t,
    };
    c.st.add("finite data accepted", 1);
    for step in 0..4 {
        let k = gen::k(r, n).min(300);
        let good = |r: &mut fxh::rng::Rng| match &bx { Some(b) => gen::query_box(r, &data, b), None => gen::query(r, &data) };
        // single queries
        let mut q = [good(r)];
        poison(r, &mut q);
        let w = |s: &str| { let s = s.to_string(); let tag = &tag; move || format!("{tag}: {s}") };
        is_invalid(q1(&t, &q[0]), &q, &w(&format!("query_nearest {:?}", q[0])))?;
        is_invalid(qk(&t, &q[0], k), &q, &w(&format!("query_nearest_k {:?} k={k}", q[0])))?;
        c.st.evals(2);
        c.st.add("invalid single queries", 2);
        // batches
        if BATCH {
            let m = match r.below(5) { 0 => 1, 1 => 2, 2 => r.range(100, 300), _ => r.range(2, 60) };
            // long ones, with the invalid row anywhere in them
            let long = step == 0 && n <= 300 && D < 5 && c.idx % 12 == 5;
            let m = if long { *r.pick(&[1000, 1025, 4097, 10_000, 66_000]) } else { m };
            let k = if long { k.min(3) } else { k };
            let fine: Vec<[T; D]> = (0..m).map(|_| good(r)).collect();
            let mut v = fine.clone();
            let at = poison(r, &mut v);
            let keep: Vec<[u64; D]> = v.iter().map(bits).collect();
            let with = r.chance(0.5);
            is_invalid(qkp(&t, &v, k, with), &v, &w(&format!("batch of {m} with={with} k={k}, an invalid query at {at}")))?;
            let ax = r.below(D);
            is_invalid(qax(&t, &v, k, ax), &v, &w(&format!("axis batch of {m} axis={ax} k={k}, an invalid query at {at}")))?;
            ensure!(v.iter().zip(&keep).all(|(a, b)| bits(a) == *b), "{tag}: the rejected queries were modified");
            c.st.evals(2);
            c.st.add("invalid batches", 2);
            if long {
                c.st.add("invalid batches of 1000 rows or more", 2)
            }
            c.st.nontrivial(run::hash(&[2, D as u64, T::EPS.to_bits(), m as u64, at as u64, k as u64, n as u64]));
            if m < 60 {
                let a = qkp(&t, &fine, k, with).map_err(|e| format!("{tag}: finite queries rejected: {e:?}"))?;
                if !extreme(&data) && !big {
                    check_batch(&data, bx.as_ref(), &fine, k, &a).map_err(|e| format!("{tag}: after a rejected batch: {e}"))?;
                }
            }
        }
        // the tree still answers
        let q = good(r);
        let a = q1(&t, &q).map_err(|e| format!("{tag}: finite query {q:?} rejected: {e:?}"))?;
        let m = qk(&t, &q, k).map_err(|e| format!("{tag}: finite query {q:?} rejected: {e:?}"))?;
        if !extreme(&data) {
            check1(&data, bx.as_ref(), &q, &a).map_err(|e| format!("{tag}: after a rejected query: {e}"))?;
            check_k(&data, bx.as_ref(), &q, k, &m).map_err(|e| format!("{tag}: after a rejected query: k={k}: {e}"))?;
        }
        c.st.add("answers after a rejection", 2);
        // extreme finite queries are accepted
        if bx.is_none() {
            let mut q = q;
            q[r.below(D)] = *r.pick(&[T::max_value(), T::min_value(), T::min_positive_value(), T::zero().next(), -T::zero()]);
            q1(&t, &q).map_err(|e| format!("{tag}: finite query {q:?} rejected: {e:?}"))?;
            qk(&t, &q, k).map_err(|e| format!("{tag}: finite query {q:?} rejected: {e:?}"))?;
            c.st.add("extreme finite queries accepted", 2);
        }
    }
    c.st.add(T::NAME, 1);
    if big {
        c.st.add("data sets of about 100000 points", 1)
    }
    c.st.sample(|| tag);
    Ok(())
}
/// squares overflow, where exactness is not promised
fn extreme<T: Sc, const D: usize>(d: &[[T; D]]) -> bool {
    let lim = T::max_value().to().sqrt() / 16.0;
    d.iter().flatten().any(|x| x.to().abs() > lim)
}
fn main() {
    fxh::alloc::fill();
    run::main("C09", |c| {
        let (w, d) = run::pick_dim17(&mut c.rng);
        dispatch17!(w, d, case(c))
    })
}

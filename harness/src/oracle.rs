//! Exhaustive search in f64, and comparison of reported neighbours with it.
use crate::api::*;
use crate::sc::Sc;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !($c) { return Err(format!($($m)*)); } };
}

/// Allowed deviation of a distance d: a few roundings of T per axis; `shift` is the magnitude of
/// coordinates that were rounded after moving a query by a box side.
pub fn tol<T: Sc, const D: usize>(d: f64, shift: f64) -> f64 {
    let dd = D as f64;
    d * (dd + 6.0) * T::EPS + 2.0 * shift * T::EPS * dd.sqrt() + 4.0 * (dd * T::TINY).sqrt()
}
pub fn near<T: Sc, const D: usize>(a: f64, b: f64, shift: f64) -> bool {
    let (lo, hi) = (a.abs().min(b.abs()), a.abs().max(b.abs()));
    // where squares overflow, infinity is the answer
    a == b || (a - b).abs() <= tol::<T, D>(hi, shift) && hi.is_finite() || hi.is_infinite() && lo * lo > T::max_value().to() * (1.0 - (D as f64 + 4.0) * T::EPS)
}

pub fn dist<T: Sc, const D: usize>(a: &[T; D], b: &[T; D]) -> f64 {
    let mut s = 0.0;
    for i in 0..D {
        let x = a[i].to() - b[i].to();
        s += x * x;
    }
    s.sqrt()
}

/// The queries a tree with this box answers for: the query and its 2^D-1 nearest images.
pub fn images<T: Sc, const D: usize>(q: &[T; D], bx: Option<&[T; D]>) -> Vec<[f64; D]> {
    let q0 = q.map(|x| x.to());
    let Some(bx) = bx else { return vec![q0] };
    (0..1usize << D)
        .map(|m| {
            let mut v = q0;
            for a in 0..D {
                if m >> a & 1 == 1 {
                    let l = bx[a].to();
                    if q0[a] < l / 2.0 { v[a] += l } else { v[a] -= l }
                }
            }
            v
        })
        .collect()
}
pub fn shift<T: Sc, const D: usize>(bx: Option<&[T; D]>) -> f64 {
    bx.map_or(0.0, |b| b.iter().fold(0.0f64, |m, x| m.max(x.to())))
}
pub fn dist64<T: Sc, const D: usize>(a: &[f64; D], b: &[T; D]) -> f64 {
    let mut s = 0.0;
    for i in 0..D {
        let x = a[i] - b[i].to();
        s += x * x;
    }
    s.sqrt()
}
/// Minimum-image distance over all copies of p.
pub fn min_image<T: Sc, const D: usize>(q: &[T; D], p: &[T; D], bx: Option<&[T; D]>) -> f64 {
    let Some(bx) = bx else { return dist(q, p) };
    let mut s = 0.0;
    for a in 0..D {
        let (x, l) = (q[a].to() - p[a].to(), bx[a].to());
        let m = x.abs().min((x - l).abs()).min((x + l).abs());
        s += m * m;
    }
    s.sqrt()
}

/// One nearest neighbour, periodic or not.
pub fn check1<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, q: &[T; D], n: &N1<T, D>) -> R {
    let best = data.iter().map(|p| min_image(q, p, bx)).fold(f64::INFINITY, f64::min);
    let sh = shift(bx);
    let d = root(n.d);
    ensure!(near::<T, D>(d, best, sh), "distance {d:e} but the nearest data point is at {best:e} (query {q:?}, index {})", n.i);
    ensure!((n.i as usize) < data.len(), "index {} of {} points (query {q:?})", n.i, data.len());
    let p = &data[n.i as usize];
    let at = min_image(q, p, bx);
    ensure!(near::<T, D>(at, d, sh), "index {} is at distance {at:e}, reported {d:e} (query {q:?})", n.i);
    if let Some(pos) = &n.p {
        ensure!(crate::sc::bits(pos) == crate::sc::bits(p), "position {pos:?} but row {} is {p:?}", n.i);
    }
    Ok(())
}

/// The k smallest of the distances, ascending.
pub fn smallest(mut v: Vec<f64>, k: usize) -> Vec<f64> {
    if k < v.len() && k > 0 {
        v.select_nth_unstable_by(k - 1, f64::total_cmp);
    }
    v.truncate(k);
    v.sort_by(f64::total_cmp);
    v
}
pub fn expected<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, q: &[T; D], k: usize) -> Vec<f64> {
    let mut all = Vec::with_capacity(data.len());
    for im in images(q, bx) {
        all.extend(data.iter().map(|p| dist64(&im, p)));
    }
    smallest(all, k.min(data.len()))
}

/// One row of k nearest neighbours, periodic or not.
pub fn check_row<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, q: &[T; D], k: usize, d: &[T], i: &[u64], p: Option<&[[T; D]]>) -> R {
    let want = expected(data, bx, q, k);
    let n = data.len();
    let sh = shift(bx);
    ensure!(d.len() == want.len() && i.len() == want.len(), "{} distances and {} indices, expected {} (k={k}, {n} points)", d.len(), i.len(), want.len());
    for (j, (x, w)) in d.iter().zip(&want).enumerate() {
        ensure!(near::<T, D>(root(*x), *w, sh), "neighbour {j} of {k} at distance {:e}, expected {w:e} (query {q:?}, index {})", root(*x), i[j]);
        ensure!(j == 0 || d[j - 1] <= *x, "distances not sorted at {j}: {:?} then {:?} (query {q:?})", d[j - 1], x);
        ensure!((i[j] as usize) < n, "index {} of {n} points (query {q:?})", i[j]);
    }
    check_members(data, bx, q, d, i)?;
    if let Some(p) = p {
        ensure!(p.len() == i.len(), "{} positions for {} indices", p.len(), i.len());
        for (a, b) in p.iter().zip(i) {
            ensure!(crate::sc::bits(a) == crate::sc::bits(&data[*b as usize]), "position {a:?} but row {b} is {:?}", data[*b as usize]);
        }
    }
    Ok(())
}

/// Every index is at the distance beside it; no (point, image) pair twice.
pub fn check_members<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, q: &[T; D], d: &[T], i: &[u64]) -> R {
    let ims = images(q, bx);
    let sh = shift(bx);
    let mut by: Vec<(u64, f64)> = i.iter().copied().zip(d.iter().map(|x| root(*x))).collect();
    by.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.total_cmp(&b.1)));
    for w in by.chunk_by(|a, b| a.0 == b.0) {
        let idx = w[0].0;
        let p = &data[idx as usize];
        let mut at: Vec<f64> = ims.iter().map(|im| dist64(im, p)).collect();
        at.sort_by(f64::total_cmp);
        // match ascending distances to ascending image distances, each once
        let mut a = 0;
        for (m, (_, x)) in w.iter().enumerate() {
            while a < at.len() && !near::<T, D>(at[a], *x, sh) && at[a] < *x {
                a += 1
            }
            ensure!(
                a < at.len() && near::<T, D>(at[a], *x, sh),
                "index {idx} reported {} time(s), number {m} at distance {x:e}; its image distances are {at:?} (query {q:?})",
                w.len()
            );
            a += 1;
        }
    }
    Ok(())
}

pub fn check_k<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, q: &[T; D], k: usize, n: &NK<T, D>) -> R {
    check_row(data, bx, q, k, &n.d, &n.i, n.p.as_deref())
}

/// A batch result, every row against exhaustive search.
pub fn check_batch<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, qs: &[[T; D]], k: usize, n: &NK<T, D>) -> R {
    let kk = k.min(data.len());
    ensure!(n.d.len() == kk * qs.len() && n.i.len() == kk * qs.len(), "{} distances and {} indices for {} queries, k={k}, {} points", n.d.len(), n.i.len(), qs.len(), data.len());
    for (j, q) in qs.iter().enumerate() {
        let s = j * kk..(j + 1) * kk;
        check_row(data, bx, q, k, &n.d[s.clone()], &n.i[s], None).map_err(|e| format!("row {j} of {}: {e}", qs.len()))?;
    }
    Ok(())
}

fn comp<T: Sc, const D: usize>(im: &[f64; D], p: &[T; D], axis: usize) -> (f64, f64) {
    let (mut a, mut b) = (0.0, 0.0);
    for i in 0..D {
        let x = im[i] - p[i].to();
        if i == axis { a += x * x } else { b += x * x }
    }
    (a.sqrt(), b.sqrt())
}

/// One row of an axis query.
pub fn check_axis_row<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, q: &[T; D], k: usize, axis: usize, ax: &[T], non: &[T], idx: Option<&[u64]>) -> R {
    let want = expected(data, bx, q, k);
    let sh = shift(bx);
    ensure!(ax.len() == want.len() && non.len() == want.len(), "{} and {} components, expected {}", ax.len(), non.len(), want.len());
    let got: Vec<(f64, f64)> = ax.iter().zip(non).map(|(a, b)| (root(*a), root(*b))).collect();
    for (j, ((a, b), w)) in got.iter().zip(&want).enumerate() {
        let t = (a * a + b * b).sqrt();
        // beyond where squares overflow all distances tie at infinity
        let tie = t.min(*w).powi(2) > T::max_value().to() * (1.0 - (D as f64 + 4.0) * T::EPS);
        ensure!(tie || near::<T, D>(t, *w, sh), "neighbour {j} of {k}: components {a:e}, {b:e} make a distance of {t:e}, expected {w:e} (query {q:?} axis {axis})");
    }
    // every pair must belong to a (point, image) of its own
    let reach = want.last().copied().unwrap_or(0.0);
    let reach = reach + tol::<T, D>(reach, sh) * 4.0;
    // beyond where squares overflow all distances tie at infinity
    let reach = if reach * reach > T::max_value().to() / 4.0 { f64::INFINITY } else { reach };
    let mut cand: Vec<(f64, f64, usize)> = vec![];
    for im in images(q, bx) {
        for (i, p) in data.iter().enumerate() {
            let (a, b) = comp(&im, p, axis);
            if (a * a + b * b).sqrt() <= reach {
                cand.push((a, b, i))
            }
        }
    }
    cand.sort_by(|x, y| x.0.total_cmp(&y.0));
    let fits = |j: usize, c: &(f64, f64, usize)| {
        let (a, b) = got[j];
        near::<T, D>(a, c.0, sh) && near::<T, D>(b, c.1, sh) && idx.map_or(true, |v| v[j] == c.2 as u64)
    };
    let mut owner: Vec<Option<usize>> = vec![None; cand.len()];
    fn aug(j: usize, cand: &[(f64, f64, usize)], owner: &mut [Option<usize>], seen: &mut [bool], lo: &[usize], hi: &[usize], fits: &dyn Fn(usize, &(f64, f64, usize)) -> bool) -> bool {
        // free candidates first, so that the common case never recurses
        for c in lo[j]..hi[j] {
            if owner[c].is_none() && !seen[c] && fits(j, &cand[c]) {
                owner[c] = Some(j);
                return true;
            }
        }
        for c in lo[j]..hi[j] {
            if !seen[c] && fits(j, &cand[c]) {
                seen[c] = true;
                if aug(owner[c].unwrap(), cand, owner, seen, lo, hi, fits) {
                    owner[c] = Some(j);
                    return true;
                }
            }
        }
        false
    }
    let (lo, hi): (Vec<usize>, Vec<usize>) = got
        .iter()
        .map(|(a, _)| {
            if a.is_infinite() {
                return (0, cand.len());
            }
            let t = tol::<T, D>(*a, sh) * 2.0 + f64::MIN_POSITIVE;
            // beyond where squares overflow, every candidate may be the one
            let end = if a * a > T::max_value().to() / 4.0 { cand.len() } else { cand.partition_point(|c| c.0 <= a + t) };
            (cand.partition_point(|c| c.0 < a - t), end)
        })
        .unzip();
    for j in 0..got.len() {
        let mut seen = vec![false; cand.len()];
        ensure!(
            aug(j, &cand, &mut owner, &mut seen, &lo, &hi, &fits),
            "neighbour {j} of {k}: no data point left with components {:e} along and {:e} across axis {axis} (query {q:?}, index {:?})",
            got[j].0, got[j].1, idx.map(|v| v[j])
        );
    }
    Ok(())
}
pub fn check_axis<T: Sc, const D: usize>(data: &[[T; D]], bx: Option<&[T; D]>, qs: &[[T; D]], k: usize, axis: usize, n: &NA<T>) -> R {
    let kk = k.min(data.len());
    ensure!(n.ax.len() == kk * qs.len() && n.non.len() == kk * qs.len(), "{} and {} components for {} queries, k={k}, {} points", n.ax.len(), n.non.len(), qs.len(), data.len());
    if let Some(i) = &n.i {
        ensure!(i.len() == kk * qs.len(), "{} indices", i.len());
    }
    for (j, q) in qs.iter().enumerate() {
        let s = j * kk..(j + 1) * kk;
        check_axis_row(data, bx, q, k, axis, &n.ax[s.clone()], &n.non[s.clone()], n.i.as_ref().map(|v| &v[s])).map_err(|e| format!("row {j} of {}: {e}", qs.len()))?;
    }
    Ok(())
}

use fnntw::distance::*;
use fnntw::point::Point;
use fxh::prelude::*;
// C20: the distance primitives, and the lower bound of the distance to a box.
// Exact arithmetic on sums of squares as integers, where the inputs allow it.
fn nn<T: Sc, const D: usize>(p: &[T; D]) -> [NotNan<T>; D] {
    p.map(|x| NotNan::new(x).unwrap())
}
/// sum of two doubles and its error
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}
/// squared distance in double-double
fn exact<T: Sc, const D: usize>(a: &[T; D], b: &[T; D], skip: Option<usize>) -> f64 {
    let (mut h, mut l) = (0.0f64, 0.0f64);
    for i in 0..D {
        if Some(i) == skip {
            continue;
        }
        let (d, e) = two_sum(a[i].to(), -b[i].to());
        let p = d * d;
        let pe = d.mul_add(d, -p) + 2.0 * d * e;
        let (s, t) = two_sum(h, p);
        h = s;
        l += t + pe;
    }
    h + l
}
fn close<T: Sc, const D: usize>(x: T, want: f64) -> bool {
    let x = x.to();
    if want > T::max_value().to() * 0.99 {
        return x > T::max_value().to() * 0.9;
    }
    x == want || (x - want).abs() <= want * (D as f64 + 3.0) * T::EPS + D as f64 * T::TINY
}
fn coord<T: Sc>(r: &mut fxh::rng::Rng, mode: usize) -> T {
    match mode {
        0 => T::of((r.f() * 9.0).floor() - 4.0),
        1 => T::of(r.unif(-1.0, 1.0)),
        2 => T::of(1e4 + r.f()),
        3 => T::of(r.unif(-1.0, 1.0) * 10f64.powi(r.range(0, 24) as i32 - 12)),
        4 => *r.pick(&[T::zero(), -T::zero(), T::one(), T::min_positive_value(), T::zero().next()]),
        _ => T::of(1.0 + r.below(8) as f64 * T::EPS),
    }
}
fn case<T: Sc, const D: usize>(c: &mut Case) -> R {
    let r = &mut c.rng;
    for _ in 0..60 {
        let mode = r.below(6);
        let a: [T; D] = [(); D].map(|_| coord(r, mode));
        let mut b: [T; D] = [(); D].map(|_| coord(r, mode));
        if r.chance(0.2) {
            for i in 0..D {
                if r.chance(0.7) {
                    b[i] = a[i]
                }
                if r.chance(0.1) {
                    b[i] = a[i].next()
                }
            }
        }
        let (na, nb) = (nn(&a), nn(&b));
        let want = exact(&a, &b, None);
        let d = squared_euclidean(&na, &nb);
        ensure!(close::<T, D>(d, want), "squared_euclidean({a:?}, {b:?}) = {d:?}, expected {want:e}");
        ensure!(d.bits() == squared_euclidean(&nb, &na).bits(), "squared_euclidean({a:?}, {b:?}) is not symmetric");
        ensure!(d >= T::zero(), "squared_euclidean({a:?}, {b:?}) = {d:?}");
        let same = (0..D).all(|i| a[i] == b[i]);
        let gap = (0..D).map(|i| (a[i].to() - b[i].to()).abs()).fold(0.0, f64::max);
        ensure!(if same { d == T::zero() } else { d > T::zero() || gap * gap <= T::TINY * 4.0 }, "squared_euclidean({a:?}, {b:?}) = {d:?}");
        for ax in 0..D {
            let (sum, x, y) = squared_euclidean_axis(&na, &nb, ax);
            let wx = exact(&[a[ax]], &[b[ax]], None);
            let wy = exact(&a, &b, Some(ax));
            ensure!(close::<T, D>(x, wx) && close::<T, D>(y, wy), "squared_euclidean_axis({a:?}, {b:?}, {ax}) = ({x:?}, {y:?}), expected ({wx:e}, {wy:e})");
            ensure!(close::<T, D>(sum, want), "squared_euclidean_axis({a:?}, {b:?}, {ax}) gives {sum:?} in total, expected {want:e}");
            ensure!(near_sq::<T, D>(x.to() + y.to(), d.to()) && near_sq::<T, D>(sum.to(), d.to()), "squared_euclidean_axis({a:?}, {b:?}, {ax}) = ({x:?}, {y:?}) does not add up to {d:?}");
            c.st.eval();
        }
        c.st.evals(3);
        c.st.add("pairs of points", 1);
        if !same {
            c.st.nontrivial(run::hash(&[D as u64, T::EPS.to_bits(), a[0].bits(), b[D - 1].bits(), d.bits()]));
        }
        // a box and points in it
        let e: [T; D] = [(); D].map(|_| coord(r, mode));
        let lo: [T; D] = std::array::from_fn(|i| if b[i] < e[i] { b[i] } else { e[i] });
        let hi: [T; D] = std::array::from_fn(|i| if b[i] < e[i] { e[i] } else { b[i] });
        let mut q = a;
        for i in 0..D {
            match r.below(8) {
                0 => q[i] = lo[i],
                1 => q[i] = hi[i],
                2 => q[i] = lo[i].prev(),
                3 => q[i] = hi[i].next(),
                _ => (),
            }
        }
        let nq = nn(&q);
        let (nlo, nhi) = (nn(&lo), nn(&hi));
        let lb = calc_dist_sq_to_space(&nq, &nlo, &nhi);
        let inside = (0..D).all(|i| lo[i] <= q[i] && q[i] <= hi[i]);
        ensure!(lb >= T::zero(), "distance of {q:?} to the box {lo:?}..{hi:?} is {lb:?}");
        if inside {
            ensure!(lb == T::zero(), "{q:?} is in the box {lo:?}..{hi:?}, distance {lb:?}");
            c.st.add("queries in the box", 1);
        } else {
            c.st.add("queries outside the box", 1);
        }
        let near: [T; D] = std::array::from_fn(|i| if q[i] < lo[i] { lo[i] } else if q[i] > hi[i] { hi[i] } else { q[i] });
        let at = squared_euclidean(&nq, &nn(&near));
        ensure!(close::<T, D>(lb, exact(&q, &near, None)), "distance of {q:?} to the box {lo:?}..{hi:?} is {lb:?}, its nearest point {near:?} is at {at:?}");
        for j in 0..12 {
            let p: [T; D] = match j {
                0 => near,
                1 => lo,
                2 => hi,
                3..=6 => std::array::from_fn(|i| if r.chance(0.5) { lo[i] } else { hi[i] }),
                7 | 8 => std::array::from_fn(|i| { let x = if r.chance(0.5) { near[i].next() } else { near[i].prev() }; if x < lo[i] || x > hi[i] { near[i] } else { x } }),
                _ => std::array::from_fn(|i| { let x = T::of(lo[i].to() + r.f() * (hi[i].to() - lo[i].to())); if x < lo[i] || x > hi[i] { near[i] } else { x } }),
            };
            // no slack: pruning compares these very numbers
            let dp = squared_euclidean(&nq, &nn(&p));
            ensure!(lb <= dp, "distance of {q:?} to the box {lo:?}..{hi:?} is {lb:?}, but {p:?} in it is at {dp:?}");
            c.st.eval();
            c.st.add("points in boxes", 1);
        }
        // candidate updates
        let cur = *r.pick(&[d, lb, T::zero(), T::infinity(), d.next(), T::max_value()]);
        let (old, cand) = (Point::new(&na), Point::new(&nb));
        // each function against the distance it computes itself
        let own = {
            let (mut dist, mut row) = (T::infinity(), &na);
            new_best_short(&na, &nb, &mut dist, &mut row);
            dist
        };
        ensure!(close::<T, D>(own, want), "new_best_short({a:?}, {b:?}) finds a distance of {own:?}, expected {want:e}");
        for best in [cur, d, if d > T::zero() { d.prev() } else { d }, d.next(), T::infinity()] {
            let strictly = d < best;
            let (mut dist, mut node) = (best, &old);
            new_best(&na, &cand, &mut dist, &mut node);
            let moved = std::ptr::eq(node, &cand);
            ensure!(moved == strictly && dist.bits() == if strictly { d.bits() } else { best.bits() }, "new_best: candidate at {d:?}, best at {best:?}: now {dist:?}, candidate {}", if moved { "replaced" } else { "kept" });
            let (mut dist, mut row) = (best, &na);
            let won = new_best_short(&na, &nb, &mut dist, &mut row);
            let moved = std::ptr::eq(row, &nb);
            let strictly = own < best;
            ensure!(moved == strictly && won == strictly && dist.bits() == if strictly { own.bits() } else { best.bits() }, "new_best_short: candidate at {d:?}, best at {best:?}: now {dist:?}, returned {won}, candidate {}", if moved { "replaced" } else { "kept" });
            c.st.evals(2);
            c.st.add(if strictly { "updates that replace" } else { "updates that keep" }, 2);
        }
    }
    c.st.add(T::NAME, 1);
    c.st.sample(|| format!("60 pairs of {}x{D} points, each with a box and updates", T::NAME));
    Ok(())
}
fn near_sq<T: Sc, const D: usize>(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= a.max(b) * (D as f64 + 4.0) * T::EPS + D as f64 * T::TINY
}
fn main() {
    run::main("C20", |c| {
        let (w, d) = run::pick_dim17(&mut c.rng);
        dispatch17!(w, d, case(c))
    })
}

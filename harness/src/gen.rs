//! Data sets, boxes, queries and parameters: ordinary, degenerate and hostile.
use crate::api::Build;
use crate::rng::Rng;
use crate::sc::Sc;

pub const KINDS: [&str; 19] = [
    "uniform", "signed", "lattice", "identical", "clusters", "flat-axis", "diagonal", "sphere", "wide", "offset",
    "binary", "sorted", "reversed", "organ", "few-points", "two-far", "half-equal", "anisotropic",
    "near-ties",
];

/// more kinds, where squares overflow or underflow
pub const EXTREME: [&str; 3] = ["overflowing", "vast", "minute"];
/// mostly one of the ordinary kinds
pub fn any_kind(r: &mut Rng) -> usize {
    if r.chance(0.07) { KINDS.len() + r.below(EXTREME.len()) } else { r.below(KINDS.len()) }
}
pub fn kind_name(kind: usize) -> &'static str {
    KINDS.get(kind).copied().unwrap_or_else(|| EXTREME[kind - KINDS.len()])
}

fn clean<T: Sc>(x: f64) -> T {
    // no negative zeros
    T::of(x + 0.0) + T::zero()
}

/// Gives some of the zeros a negative sign, which must not matter.
fn negate_zeros<T: Sc, const D: usize>(r: &mut Rng, v: &mut [[T; D]]) {
    for p in v.iter_mut() {
        for x in p.iter_mut() {
            if *x == T::zero() && r.chance(0.5) {
                *x = -*x
            }
        }
    }
}

/// n points of the given kind.
pub fn points<T: Sc, const D: usize>(r: &mut Rng, n: usize, kind: usize) -> Vec<[T; D]> {
    let m = r.range(2, 6) as f64;
    let flat = r.below(D);
    let centers: Vec<[f64; D]> = (0..r.range(1, 8)).map(|_| [(); D].map(|_| r.unif(-10.0, 10.0))).collect();
    let sig = *r.pick(&[1e-3, 0.1, 1.0]);
    let pool: Vec<[f64; D]> = (0..r.range(1, 7)).map(|_| [(); D].map(|_| r.unif(-1.0, 1.0))).collect();
    let off = *r.pick(&[100.0, 1e4, 1e6]);
    let base: [f64; D] = [(); D].map(|_| r.unif(-2.0, 2.0));
    let scale: f64 = *r.pick(&[1.0, 1.0, 1.0, 1e-6, 1e6, 0.125]);
    let nn = n as f64;
    let max = T::max_value().to();
    let root = max.sqrt();
    let mut v: Vec<[T; D]> = Vec::with_capacity(n);
    for i in 0..n {
        let x = i as f64;
        let p: [f64; D] = match kind_name(kind) {
            "uniform" => [(); D].map(|_| r.f()),
            "overflowing" => [(); D].map(|_| if r.chance(0.5) { r.unif(-1.0, 1.0) * root * m } else { r.unif(-1.0, 1.0) * root * 2f64.powi(-(r.range(0, 30) as i32)) }),
            "vast" => [(); D].map(|_| if r.chance(0.5) { r.unif(-1.0, 1.0) * max } else { r.unif(-1.0, 1.0) }),
            "minute" => [(); D].map(|_| r.unif(-1.0, 1.0) * 2f64.powi(-(r.range(0, 30) as i32)) / root),
            "signed" => [(); D].map(|_| r.unif(-5.0, 5.0) * scale),
            "lattice" => [(); D].map(|_| (r.f() * m).floor() * scale),
            "identical" => base,
            "clusters" => {
                let c = r.pick(&centers);
                let mut p = *c;
                for a in p.iter_mut() {
                    *a += sig * r.norm()
                }
                p
            }
            "flat-axis" => {
                let mut p = [(); D].map(|_| r.unif(-1.0, 1.0));
                p[flat] = base[flat];
                p
            }
            "diagonal" => {
                let t = if r.chance(0.3) { (r.f() * 10.0).floor() } else { r.unif(-3.0, 3.0) };
                [t; D]
            }
            "sphere" => {
                let mut p = [(); D].map(|_| r.norm());
                let l = p.iter().map(|a| a * a).sum::<f64>().sqrt().max(1e-9);
                for a in p.iter_mut() {
                    *a /= l
                }
                p
            }
            "wide" => [(); D].map(|_| (r.f() - 0.5) * 2f64.powi(r.range(0, 40) as i32 - 20)),
            "offset" => [(); D].map(|_| off + r.f()),
            "binary" => [(); D].map(|_| if r.chance(0.5) { 0.0 } else { 1.0 }),
            "sorted" => [(); D].map(|_| x / nn),
            "reversed" => [(); D].map(|_| -x / nn),
            "organ" => [(); D].map(|_| if i < n / 2 { x } else { nn - x }),
            "few-points" => *r.pick(&pool),
            "near-ties" => {
                // at all but the same distance from one place
                let d = 1.0 + r.unif(-1.0, 1.0) * 2f64.powi(-(r.range(4, 50) as i32));
                let mut p = [0.0; D];
                if r.chance(0.5) {
                    p[r.below(D)] = if r.chance(0.5) { d } else { -d };
                } else {
                    p = [(); D].map(|_| r.norm());
                    let l = p.iter().map(|a| a * a).sum::<f64>().sqrt().max(1e-9);
                    for a in p.iter_mut() {
                        *a *= d / l
                    }
                }
                p
            }
            "two-far" => {
                let s = if r.chance(0.5) { 1000.0 } else { -1000.0 };
                [(); D].map(|_| s + r.f())
            }
            "half-equal" => {
                if r.chance(0.5) { base } else { [(); D].map(|_| r.unif(-2.0, 2.0)) }
            }
            _ => {
                let mut p = [(); D].map(|_| r.f());
                for (a, b) in p.iter_mut().enumerate() {
                    *b *= 10f64.powi(3 * a as i32 - 3)
                }
                p
            }
        };
        v.push(p.map(|x| clean(x.clamp(-max, max))));
    }
    if r.chance(0.3) && n > 1 {
        // exact duplicates of rows
        for _ in 0..r.range(1, 1 + n / 4) {
            let (a, b) = (r.below(n), r.below(n));
            v[a] = v[b];
        }
    }
    if r.chance(0.15) {
        negate_zeros(r, &mut v)
    }
    v
}

/// Data inside a box, with the box. Some of it lies exactly on the faces.
pub fn boxed<T: Sc, const D: usize>(r: &mut Rng, n: usize) -> (Vec<[T; D]>, [T; D], &'static str) {
    let unit = r.chance(0.2);
    let cubic = r.chance(0.3);
    let slender = r.chance(0.1);
    let scale: f64 = *r.pick(&[1.0, 1.0, 1.0, 0.001, 1000.0, 3.0]);
    let l0 = r.unif(0.3, 3.0);
    let bx: [T; D] = [(); D].map(|_| T::of(if unit { 1.0 } else if cubic { l0 * scale } else if slender { l0 * 10f64.powf(r.unif(-1.5, 1.5)) } else { r.unif(0.3, 3.0) * scale }));
    let kinds = ["uniform", "sparse-box", "near-faces", "on-faces", "lattice", "corner", "identical", "slab"];
    let kind = *r.pick(&kinds);
    let m = r.range(1, 5) as f64;
    let frac = if r.chance(0.2) { 1e-3 } else { r.unif(0.05, 0.9) };
    let base: [f64; D] = [(); D].map(|_| r.f());
    let flat = r.below(D);
    let mut data: Vec<[T; D]> = (0..n)
        .map(|_| {
            let mut u: [f64; D] = match kind {
                "sparse-box" => [(); D].map(|_| frac * r.f()),
                "near-faces" => [(); D].map(|_| {
                    let e = r.f() * 0.03;
                    if r.chance(0.5) { e } else { 1.0 - e }
                }),
                "on-faces" => [(); D].map(|_| {
                    let x = r.f();
                    if x < 0.3 { 0.0 } else if x < 0.6 { 1.0 } else { r.f() }
                }),
                "lattice" => [(); D].map(|_| (r.f() * (m + 1.0)).floor() / m),
                "corner" => {
                    let c = r.below(1 << D.min(20));
                    let mut u = [0.0; D];
                    for (a, x) in u.iter_mut().enumerate() {
                        let e = r.f() * r.f() * 0.2;
                        *x = if c >> a & 1 == 1 { 1.0 - e } else { e };
                    }
                    u
                }
                "identical" => base,
                "slab" => {
                    let mut u = [(); D].map(|_| r.f());
                    u[flat] = base[flat];
                    u
                }
                _ => [(); D].map(|_| r.f()),
            };
            let mut p = [T::zero(); D];
            for a in 0..D {
                u[a] = u[a].clamp(0.0, 1.0);
                p[a] = if u[a] == 1.0 { bx[a] } else { clean::<T>(u[a] * bx[a].to()) };
                if p[a] > bx[a] {
                    p[a] = bx[a]
                }
            }
            p
        })
        .collect();
    if r.chance(0.15) {
        negate_zeros(r, &mut data)
    }
    (data, bx, kind)
}

/// A query for non-periodic trees.
pub fn query<T: Sc, const D: usize>(r: &mut Rng, data: &[[T; D]]) -> [T; D] {
    let n = data.len();
    let lo = |a: usize, r: &mut Rng| (0..8).map(|_| data[r.below(n)][a].to()).fold(f64::INFINITY, f64::min);
    let hi = |a: usize, r: &mut Rng| (0..8).map(|_| data[r.below(n)][a].to()).fold(f64::NEG_INFINITY, f64::max);
    let q: [f64; D] = match r.below(11) {
        0 => data[r.below(n)].map(|x| x.to()),
        10 => {
            // all but halfway between two points close to each other
            let p = data[r.below(n)].map(|x| x.to());
            let far = |s: &[f64; D]| (0..D).map(|a| (s[a] - p[a]).abs()).fold(0.0, f64::max);
            let mut s = p;
            for _ in 0..(2 * n).min(40) {
                let c = data[r.below(n)].map(|x| x.to());
                if c != p && (s == p || far(&c) < far(&s)) {
                    s = c
                }
            }
            let t = 0.5 + r.unif(-1.0, 1.0) * 2f64.powi(-(r.range(3, 48) as i32));
            let mut q = [0.0; D];
            for (a, x) in q.iter_mut().enumerate() {
                *x = p[a] * (1.0 - t) + s[a] * t
            }
            q
        }
        1 => {
            // every axis from another point: on many split planes at once
            let mut q = [0.0; D];
            for (a, x) in q.iter_mut().enumerate() {
                *x = data[r.below(n)][a].to()
            }
            q
        }
        2 => {
            // halfway between two points
            let (p, s) = (r.below(n), r.below(n));
            let mut q = [0.0; D];
            for (a, x) in q.iter_mut().enumerate() {
                *x = 0.5 * data[p][a].to() + 0.5 * data[s][a].to()
            }
            q
        }
        3 => {
            // next to a point
            let mut q = data[r.below(n)];
            for x in q.iter_mut() {
                match r.below(3) {
                    0 => *x = x.next(),
                    1 => *x = x.prev(),
                    _ => (),
                }
            }
            q.map(|x| if x.to().abs() < 1e-30 { 0.0 } else { x.to() })
        }
        4 => {
            // far outside
            let f = *r.pick(&[2.0, 10.0, 1e3, 1e6]);
            let mut q = [0.0; D];
            for (a, x) in q.iter_mut().enumerate() {
                let (l, h) = (lo(a, r), hi(a, r));
                let w = (h - l).max(0.1);
                *x = if r.chance(0.5) { l - f * w * r.f() } else { h + f * w * r.f() }
            }
            q
        }
        5 => {
            // corners of the bounding box
            let mut q = [0.0; D];
            for (a, x) in q.iter_mut().enumerate() {
                *x = if r.chance(0.5) { lo(a, r) } else { hi(a, r) }
            }
            q
        }
        6 => {
            // the origin, and next to it
            let e = if r.chance(0.5) { 0.0 } else { 2f64.powi(-(r.range(10, 50) as i32)) };
            [(); D].map(|_| e * r.unif(-1.0, 1.0))
        }
        7 => {
            // near a point, at the scale of the spread
            let p = r.below(n);
            let mut q = [0.0; D];
            for (a, x) in q.iter_mut().enumerate() {
                let w = (hi(a, r) - lo(a, r)).max(1e-6);
                *x = data[p][a].to() + w * 0.05 * r.norm()
            }
            q
        }
        8 => {
            // shares some coordinates with a point
            let p = r.below(n);
            let mut q = [0.0; D];
            for (a, x) in q.iter_mut().enumerate() {
                *x = if r.chance(0.5) { data[p][a].to() } else { let (l, h) = (lo(a, r), hi(a, r)); l + (h - l) * r.f() }
            }
            q
        }
        _ => {
            let mut q = [0.0; D];
            for (a, x) in q.iter_mut().enumerate() {
                let (l, h) = (lo(a, r), hi(a, r));
                *x = l + (h - l) * r.unif(-0.2, 1.2)
            }
            q
        }
    };
    q.map(|x| {
        let x: T = clean(x);
        if x.is_finite() { x } else { T::max_value() }
    })
}

/// A query inside the closed box.
pub fn query_box<T: Sc, const D: usize>(r: &mut Rng, data: &[[T; D]], bx: &[T; D]) -> [T; D] {
    let mode = r.below(10);
    let p = data[r.below(data.len())];
    let s = data[r.below(data.len())];
    let t = 0.5 + r.unif(-1.0, 1.0) * 2f64.powi(-(r.range(3, 48) as i32));
    let mut q = [T::zero(); D];
    for a in 0..D {
        let l = bx[a].to();
        let x: f64 = match mode {
            0 => l * r.f(),
            1 => if r.chance(0.5) { 0.0 } else { l },
            2 => l / 2.0,
            3 => p[a].to(),
            4 => {
                let e = l * r.f() * 0.02;
                if r.chance(0.5) { e } else { l - e }
            }
            5 => match r.below(6) {
                0 => 0.0,
                1 => l,
                2 => l / 2.0,
                3 => p[a].to(),
                _ => l * r.f(),
            },
            6 => {
                let h = bx[a] / T::of(2.0);
                match r.below(3) {
                    0 => h.next().to(),
                    1 => h.prev().to(),
                    _ => h.to(),
                }
            }
            7 => (p[a].to() + l / 2.0) % l,
            // all but halfway between two points
            9 => p[a].to() * (1.0 - t) + s[a].to() * t,
            _ => {
                let x = p[a].to() + l * 0.03 * r.norm();
                ((x % l) + l) % l
            }
        };
        let x = if x.is_nan() { 0.0 } else { x };
        let mut c: T = clean(x.clamp(0.0, l));
        if c > bx[a] {
            c = bx[a]
        }
        if c < T::zero() {
            c = T::zero()
        }
        q[a] = if c == T::zero() && r.chance(0.1) { -c } else { c };
    }
    q
}

/// Mostly small, sometimes a few thousand points.
pub fn size(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => r.range(1, 4),
        1..=4 => r.range(1, 20),
        5..=14 => r.range(10, 300),
        15..=18 => r.range(100, 1200),
        _ => r.range(1000, 6000),
    }
}

pub fn leaf(r: &mut Rng, n: usize) -> usize {
    match r.below(16) {
        0 => 0,
        1..=3 => 1,
        4 => 2,
        5 => 3,
        6 => 4,
        7 => 8,
        8..=10 => 16,
        11 => 32,
        12 => *r.pick(&[n.saturating_sub(1), n, n + 1, 2 * n, usize::MAX]),
        13 => n / 2,
        14 => 64,
        _ => r.range(0, n + 2),
    }
}

pub fn build(r: &mut Rng, n: usize) -> Build {
    let leaf = leaf(r, n);
    // every level doubles the threads
    let deepest = (usize::BITS - n.leading_zeros()) as usize;
    let par = match r.below(6) {
        0..=2 => None,
        3 => Some(r.below(3)),
        // all the way down, in small trees
        4 if n <= 40 && r.chance(0.5) => Some(*r.pick(&[7, 20, 1000, usize::MAX])),
        4 => Some(r.below(deepest.min(6) + 1)),
        _ => Some(r.below(4)),
    };
    Build { leaf, par }
}

pub fn k(r: &mut Rng, n: usize) -> usize {
    match r.below(14) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => n - 1,
        5 => n,
        6 => *r.pick(&[n + 1, 2 * n, n + 100, 65_536, (1 << 32) + 1, usize::MAX / 2 + 1, usize::MAX]),
        7 | 8 => r.range(1, 2 * n).min(300),
        9 => *r.pick(&[10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257]),
        _ => r.range(1, 40),
    }
}

//! An instrumented scalar: an f64 that counts every operation the library performs on it, measures
//! how deep the stack is, can stop a run that has used up its budget of operations, and can disturb
//! the schedule of the threads it is used on. The library is generic over the scalar, so this hooks
//! its real code without changing it.
use crate::sc::Sc;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::num::FpCategory;
use std::ops::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

#[derive(Clone, Copy, Debug, Default)]
#[repr(transparent)]
pub struct X(pub f64);

/// operations between disturbances, 0 for none
static CHAOS: AtomicU64 = AtomicU64::new(0);
static DISTURBED: AtomicU64 = AtomicU64::new(0);
/// operations a thread may do before it panics
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static THREADS: AtomicUsize = AtomicUsize::new(0);
#[repr(align(128))]
struct Slot {
    ops: AtomicU64,
    low: AtomicUsize,
}
const SLOTS: usize = 4096;
static SLOT: [Slot; SLOTS] = [const { Slot { ops: AtomicU64::new(0), low: AtomicUsize::new(usize::MAX) } }; SLOTS];

static FREE: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
/// A slot, held while the thread lives. Its count stays and goes on with the next thread.
struct Me(usize);
impl Drop for Me {
    fn drop(&mut self) {
        FREE.lock().unwrap().push(self.0)
    }
}
fn claim() -> Me {
    let free = FREE.lock().unwrap().pop();
    Me(free.unwrap_or_else(|| {
        let n = THREADS.fetch_add(1, Relaxed);
        assert!(n < SLOTS, "too many threads at once");
        n
    }))
}
thread_local! {
    static ME: Me = claim();
    static RND: Cell<u64> = const { Cell::new(0) };
}

#[inline(never)]
fn disturb(me: usize, every: u64) {
    let mut x = RND.with(|r| r.get());
    if x == 0 {
        x = (me as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
    }
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    RND.with(|r| r.set(x));
    if x % every == 0 {
        DISTURBED.fetch_add(1, Relaxed);
        match (x >> 32) % 16 {
            0 => std::thread::sleep(std::time::Duration::from_micros(20)),
            1..=7 => std::thread::yield_now(),
            _ => {
                for _ in 0..(x >> 40) % 400 {
                    std::hint::spin_loop()
                }
            }
        }
    }
}

#[inline(never)]
fn over(n: u64) -> ! {
    BUDGET.store(u64::MAX, Relaxed);
    panic!("operation budget exceeded after {n} scalar operations")
}

#[inline]
fn tick() {
    let mark = 0u8;
    let here = &mark as *const u8 as usize;
    ME.with(|m| {
        let s = &SLOT[m.0];
        let n = s.ops.load(Relaxed) + 1;
        s.ops.store(n, Relaxed);
        if here < s.low.load(Relaxed) {
            s.low.store(here, Relaxed)
        }
        if n > BUDGET.load(Relaxed) {
            over(n)
        }
        let c = CHAOS.load(Relaxed);
        if c != 0 {
            disturb(m.0, c)
        }
    })
}

pub fn chaos(every: u64) {
    CHAOS.store(every, Relaxed)
}
pub fn disturbed() -> u64 {
    DISTURBED.load(Relaxed)
}
/// All operations so far, by all threads.
pub fn ops() -> u64 {
    let n = THREADS.load(Relaxed).min(SLOTS);
    SLOT[..n].iter().map(|s| s.ops.load(Relaxed)).sum()
}
/// Operations of this thread so far.
pub fn my_ops() -> u64 {
    ME.with(|m| SLOT[m.0].ops.load(Relaxed))
}
/// Every thread panics once it has done this many operations in total.
pub fn budget(n: u64) {
    BUDGET.store(n, Relaxed)
}
/// The deepest stack position seen while running f on this thread, below f's caller, in bytes.
#[inline(never)]
pub fn depth<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let mark = 0u8;
    let top = &mark as *const u8 as usize;
    ME.with(|m| SLOT[m.0].low.store(usize::MAX, Relaxed));
    let r = f();
    let low = ME.with(|m| SLOT[m.0].low.load(Relaxed));
    (r, top.saturating_sub(low))
}

macro_rules! op {
    ($($t:ident $f:ident),*) => {$(
        impl $t for X { type Output = X; #[inline] fn $f(self, o: X) -> X { tick(); X($t::$f(self.0, o.0)) } }
    )*};
}
op!(Add add, Sub sub, Mul mul, Div div, Rem rem);
macro_rules! opa {
    ($($t:ident $f:ident),*) => {$( impl $t for X { #[inline] fn $f(&mut self, o: X) { tick(); $t::$f(&mut self.0, o.0) } } )*};
}
opa!(AddAssign add_assign, SubAssign sub_assign, MulAssign mul_assign, DivAssign div_assign, RemAssign rem_assign);
impl Neg for X {
    type Output = X;
    fn neg(self) -> X {
        X(-self.0)
    }
}
impl PartialEq for X {
    #[inline]
    fn eq(&self, o: &X) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for X {
    #[inline]
    fn partial_cmp(&self, o: &X) -> Option<std::cmp::Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
    #[inline]
    fn lt(&self, o: &X) -> bool {
        tick();
        self.0 < o.0
    }
    #[inline]
    fn le(&self, o: &X) -> bool {
        tick();
        self.0 <= o.0
    }
    #[inline]
    fn gt(&self, o: &X) -> bool {
        tick();
        self.0 > o.0
    }
    #[inline]
    fn ge(&self, o: &X) -> bool {
        tick();
        self.0 >= o.0
    }
}
impl Zero for X {
    fn zero() -> X {
        X(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for X {
    fn one() -> X {
        X(1.0)
    }
}
impl Num for X {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<X, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(X)
    }
}
impl ToPrimitive for X {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for X {
    fn from<T: ToPrimitive>(n: T) -> Option<X> {
        n.to_f64().map(X)
    }
}
macro_rules! fwd {
    (const $($c:ident),*; un $($u:ident),*; bin $($b:ident),*; pred $($p:ident),*) => {
        $( fn $c() -> X { X(<f64 as Float>::$c()) } )*
        $( #[inline] fn $u(self) -> X { tick(); X(Float::$u(self.0)) } )*
        $( #[inline] fn $b(self, o: X) -> X { tick(); X(Float::$b(self.0, o.0)) } )*
        $( #[inline] fn $p(self) -> bool { tick(); Float::$p(self.0) } )*
    };
}
impl Float for X {
    fwd! {
        const nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon;
        un floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh, to_degrees, to_radians;
        bin powf, log, max, min, abs_sub, hypot, atan2;
        pred is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative
    }
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    #[inline]
    fn mul_add(self, a: X, b: X) -> X {
        tick();
        X(self.0.mul_add(a.0, b.0))
    }
    #[inline]
    fn powi(self, n: i32) -> X {
        tick();
        X(self.0.powi(n))
    }
    fn sin_cos(self) -> (X, X) {
        let (a, b) = self.0.sin_cos();
        (X(a), X(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}
impl Sc for X {
    const NAME: &'static str = "instrumented f64";
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 5e-324;
    fn to(self) -> f64 {
        self.0
    }
    fn of(x: f64) -> X {
        X(x)
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn next(self) -> X {
        X(self.0.next_up())
    }
    fn prev(self) -> X {
        X(self.0.next_down())
    }
    fn nan(k: usize) -> X {
        X(<f64 as Sc>::nan(k))
    }
}
/// The same points, instrumented.
pub fn x<const D: usize>(v: &[[f64; D]]) -> Vec<[X; D]> {
    v.iter().map(|p| p.map(X)).collect()
}

//! The scalar types the crate is run with.
use std::fmt::Debug;
pub trait Sc: fnntw::point::Float + Debug + Default + 'static {
    const NAME: &'static str;
    const EPS: f64;
    /// the smallest positive number
    const TINY: f64;
    fn to(self) -> f64;
    fn of(x: f64) -> Self;
    fn bits(self) -> u64;
    fn next(self) -> Self;
    fn prev(self) -> Self;
    fn nan(k: usize) -> Self;
}
impl Sc for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 5e-324;
    fn to(self) -> f64 {
        self
    }
    fn of(x: f64) -> f64 {
        x
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn next(self) -> f64 {
        self.next_up()
    }
    fn prev(self) -> f64 {
        self.next_down()
    }
    /// quiet, negative, with payloads, signalling
    fn nan(k: usize) -> f64 {
        f64::from_bits([0x7ff8000000000000, 0xfff8000000000000, 0x7ff8dead0000beef, 0x7ff0000000000001, 0xffffffffffffffff][k % 5])
    }
}
impl Sc for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1.401298464324817e-45;
    fn to(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn next(self) -> f32 {
        self.next_up()
    }
    fn prev(self) -> f32 {
        self.next_down()
    }
    fn nan(k: usize) -> f32 {
        f32::from_bits([0x7fc00000, 0xffc00000, 0x7fc0beef, 0x7f800001, 0xffffffff][k % 5])
    }
}
pub fn inf<T: Sc>(neg: bool) -> T {
    if neg { T::neg_infinity() } else { T::infinity() }
}
pub fn bits<T: Sc, const D: usize>(p: &[T; D]) -> [u64; D] {
    p.map(|c| c.bits())
}

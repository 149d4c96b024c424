//! The crate's API with the differences between feature configurations folded in.
use crate::sc::Sc;
use fnntw::utils::FnntwError;
use fnntw::Tree;

pub const SQRT: bool = cfg!(feature = "sqrt-dist2");
pub const POS: bool = !cfg!(feature = "no-position");
pub const BATCH: bool = cfg!(all(feature = "parallel", feature = "no-position"));
pub const AXIDX: bool = cfg!(all(feature = "parallel", feature = "no-position", not(feature = "no-index")));

/// (distance, index, position) of one neighbour
#[derive(Clone, Debug, PartialEq)]
pub struct N1<T, const D: usize> {
    pub d: T,
    pub i: u64,
    pub p: Option<[T; D]>,
}
/// the neighbours of one query, or of a batch in rows
#[derive(Clone, Debug, PartialEq)]
pub struct NK<T, const D: usize> {
    pub d: Vec<T>,
    pub i: Vec<u64>,
    pub p: Option<Vec<[T; D]>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct NA<T> {
    pub ax: Vec<T>,
    pub non: Vec<T>,
    pub i: Option<Vec<u64>>,
}
pub type Res<R, T> = Result<R, FnntwError<T>>;

/// a reported distance as a Euclidean distance in f64
pub fn root<T: Sc>(d: T) -> f64 {
    if SQRT { d.to() } else { d.to().sqrt() }
}

pub fn q1<T: Sc, const D: usize>(t: &Tree<T, D>, q: &[T; D]) -> Res<N1<T, D>, T> {
    let r = t.query_nearest(q)?;
    #[cfg(feature = "no-position")]
    return Ok(N1 { d: r.0, i: r.1, p: None });
    #[cfg(not(feature = "no-position"))]
    return Ok(N1 { d: r.0, i: r.1, p: Some(r.2.map(|c| c.into_inner())) });
}

#[allow(unused)]
fn nk<T: Sc, const D: usize>(r: fnntw::utils::QueryKResult<'_, T, D>) -> NK<T, D> {
    #[cfg(feature = "no-position")]
    return NK { d: r.0, i: r.1, p: None };
    #[cfg(not(feature = "no-position"))]
    return NK { d: r.0, i: r.1, p: Some(r.2.iter().map(|p| p.map(|c| c.into_inner())).collect()) };
}

pub fn qk<T: Sc, const D: usize>(t: &Tree<T, D>, q: &[T; D], k: usize) -> Res<NK<T, D>, T> {
    Ok(nk(t.query_nearest_k(q, k)?))
}

#[cfg(all(feature = "parallel", feature = "no-position"))]
mod batch {
    use super::*;
    pub fn qkp<T: Sc, const D: usize>(t: &Tree<T, D>, q: &[[T; D]], k: usize, with: bool) -> Res<NK<T, D>, T> {
        Ok(nk(if with { t.query_nearest_k_parallel_with(q, k)? } else { t.query_nearest_k_parallel(q, k)? }))
    }
    pub fn qax<T: Sc, const D: usize>(t: &Tree<T, D>, q: &[[T; D]], k: usize, axis: usize) -> Res<NA<T>, T> {
        let r = t.query_nearest_k_parallel_axis(q, k, axis)?;
        #[cfg(feature = "no-index")]
        return Ok(NA { ax: r.0, non: r.1, i: None });
        #[cfg(not(feature = "no-index"))]
        return Ok(NA { ax: r.0, non: r.1, i: Some(r.2) });
    }
}
#[cfg(all(feature = "parallel", feature = "no-position"))]
pub use batch::*;
#[cfg(not(all(feature = "parallel", feature = "no-position")))]
mod batch {
    use super::*;
    pub fn qkp<T: Sc, const D: usize>(_: &Tree<T, D>, _: &[[T; D]], _: usize, _: bool) -> Res<NK<T, D>, T> {
        unimplemented!()
    }
    pub fn qax<T: Sc, const D: usize>(_: &Tree<T, D>, _: &[[T; D]], _: usize, _: usize) -> Res<NA<T>, T> {
        unimplemented!()
    }
}
#[cfg(not(all(feature = "parallel", feature = "no-position")))]
pub use batch::*;

/// How a tree is built.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Build {
    pub leaf: usize,
    pub par: Option<usize>,
}
pub fn build<'t, T: Sc, const D: usize>(data: &'t [[T; D]], b: Build) -> Res<Tree<'t, T, D>, T> {
    match b.par {
        None => Tree::new(data, b.leaf),
        Some(l) => Tree::new_parallel(data, b.leaf, l),
    }
}

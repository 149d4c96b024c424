//! Walks the public nodes of a built tree and checks its shape.
use crate::sc::*;
use fnntw::point::Point;
use fnntw::{Node, NotNan, Tree};
use std::collections::HashMap;

#[derive(Default, Debug, Clone)]
pub struct Shape {
    pub nodes: usize,
    pub stems: usize,
    pub leaves: usize,
    pub depth: usize,
    pub biggest_leaf: usize,
}

pub fn coords<T: Sc, const D: usize>(p: &Point<T, D>) -> [T; D] {
    // safety: axes below D exist
    std::array::from_fn(|a| unsafe { p.get_unchecked(a) }.into_inner())
}
fn addr<T: Sc, const D: usize>(p: &Point<T, D>) -> usize {
    unsafe { p.get_unchecked(0) as *const NotNan<T> as usize }
}
fn bounds<T: Sc, const D: usize>(n: &Node<T, D>) -> ([T; D], [T; D]) {
    match n {
        Node::Stem { lower, upper, .. } | Node::Leaf { lower, upper, .. } => (lower.map(|x| x.into_inner()), upper.map(|x| x.into_inner())),
    }
}

/// The tree against the data it was built from. `leaf` is the requested leaf size.
pub fn check<T: Sc, const D: usize>(t: &Tree<T, D>, data: &[[T; D]], leaf: usize) -> Result<Shape, String> {
    let n = data.len();
    let nodes = &t.nodes;
    let mut sh = Shape { nodes: nodes.len() + 1, ..Default::default() };
    ensure!(t.size() == nodes.len() + 1, "size() is {} with {} nodes and the root", t.size(), nodes.len());
    if nodes.is_empty() {
        ensure!(n <= leaf, "{n} points in a single node with leaf size {leaf}");
        sh.leaves = 1;
        sh.biggest_leaf = n;
        return Ok(sh);
    }
    // which nodes are children
    let mut parent = vec![usize::MAX; nodes.len()];
    for (i, nd) in nodes.iter().enumerate() {
        if let Node::Stem { left, right, split_dim, .. } = nd {
            ensure!(*split_dim < D, "node {i}: split dimension {split_dim}");
            for c in [*left, *right] {
                ensure!(c < nodes.len(), "node {i}: child {c} of {} nodes", nodes.len());
                ensure!(parent[c] == usize::MAX && c != i, "node {c} has two parents, {} and {i}", parent[c]);
                parent[c] = i;
            }
        }
    }
    let tops: Vec<usize> = (0..nodes.len()).filter(|i| parent[*i] == usize::MAX).collect();
    ensure!(tops.len() == 2, "{} nodes without a parent, expected the root's two children", tops.len());
    // children before parents
    let mut order: Vec<usize> = tops.clone();
    let mut dep = vec![0usize; nodes.len()];
    dep[tops[0]] = 1;
    dep[tops[1]] = 1;
    let mut at = 0;
    while at < order.len() {
        let i = order[at];
        at += 1;
        sh.depth = sh.depth.max(dep[i]);
        if let Node::Stem { left, right, .. } = &nodes[i] {
            for c in [*left, *right] {
                dep[c] = dep[i] + 1;
                order.push(c);
            }
        }
    }
    ensure!(order.len() == nodes.len(), "{} of {} nodes can be reached from the root", order.len(), nodes.len());
    // exact extent of everything below each node
    let none = || ([T::infinity(); D], [T::neg_infinity(); D]);
    let mut ext: Vec<([T; D], [T; D])> = vec![none(); nodes.len()];
    let mut held: Vec<&Point<T, D>> = Vec::with_capacity(n);
    let grow = |e: &mut ([T; D], [T; D]), p: &[T; D]| {
        for a in 0..D {
            if p[a] < e.0[a] {
                e.0[a] = p[a]
            }
            if p[a] > e.1[a] {
                e.1[a] = p[a]
            }
        }
    };
    for &i in order.iter().rev() {
        let mut e = none();
        match &nodes[i] {
            Node::Leaf { points, .. } => {
                sh.leaves += 1;
                sh.biggest_leaf = sh.biggest_leaf.max(points.len());
                ensure!(points.len() <= leaf, "leaf {i} holds {} points, leaf size {leaf}", points.len());
                for p in points {
                    grow(&mut e, &coords(p));
                    held.push(p);
                }
            }
            Node::Stem { split_dim, point, left, right, .. } => {
                sh.stems += 1;
                let s = coords(point)[*split_dim];
                let (l, r) = (ext[*left].1[*split_dim], ext[*right].0[*split_dim]);
                ensure!(!(l > s), "node {i} splits axis {split_dim} at {s:?} but {l:?} is on its left");
                ensure!(!(r < s), "node {i} splits axis {split_dim} at {s:?} but {r:?} is on its right");
                for c in [*left, *right] {
                    let c = ext[c];
                    if c.0[0] <= c.1[0] {
                        grow(&mut e, &c.0);
                        grow(&mut e, &c.1);
                    }
                }
                grow(&mut e, &coords(point));
                held.push(point);
            }
        }
        let (lo, hi) = bounds(&nodes[i]);
        for a in 0..D {
            if e.0[a] <= e.1[a] {
                ensure!(lo[a] <= e.0[a] && e.1[a] <= hi[a], "node {i}: axis {a} of what is below it is {:?}..{:?}, its bounds are {:?}..{:?}", e.0[a], e.1[a], lo[a], hi[a]);
            }
        }
        ext[i] = e;
    }
    sh.stems += 1;
    // every point once: the root's split point is the one that is missing
    ensure!(held.len() == n - 1, "{} points below the root, expected {} of {n}", held.len(), n - 1);
    let first = data.as_ptr() as usize;
    let row = std::mem::size_of::<[T; D]>();
    let inside = |a: usize| a >= first && a < first + n * row && (a - first) % row == 0;
    let missing: [T; D];
    if held.iter().all(|p| inside(addr(p))) {
        let mut seen = vec![false; n];
        for p in &held {
            let i = (addr(p) - first) / row;
            ensure!(!seen[i], "row {i} is held twice");
            seen[i] = true;
        }
        let m = seen.iter().position(|s| !s).unwrap();
        missing = data[m];
    } else {
        let mut left: HashMap<[u64; D], i64> = HashMap::new();
        for p in data {
            *left.entry(bits(p)).or_insert(0) += 1
        }
        for p in &held {
            let c = coords(p);
            let e = left.entry(bits(&c)).or_insert(0);
            *e -= 1;
            ensure!(*e >= 0, "point {c:?} is held more often than it is in the data");
        }
        let m = left.iter().find(|(_, v)| **v > 0).unwrap().0;
        missing = *data.iter().find(|p| bits(*p) == *m).unwrap();
    }
    // the root splits its children along some axis
    let (a, b) = (ext[tops[0]], ext[tops[1]]);
    let splits = |x: &([T; D], [T; D]), y: &([T; D], [T; D]), ax: usize| !(x.1[ax] > missing[ax]) && !(y.0[ax] < missing[ax]);
    ensure!((0..D).any(|ax| splits(&a, &b, ax) || splits(&b, &a, ax)), "the root's children {a:?} and {b:?} are not split by {missing:?} along any axis");
    Ok(sh)
}

/// The stems' data view and the caller's data.
pub fn check_data<T: Sc, const D: usize>(t: &Tree<T, D>, data: &[[T; D]], copy: &[[u64; D]]) -> Result<(), String> {
    let g = t.get_data();
    ensure!(g.len() == data.len(), "get_data() has {} rows, the input {}", g.len(), data.len());
    for (i, (p, c)) in g.iter().zip(copy).enumerate() {
        ensure!(bits(p) == *c, "get_data() row {i} is {p:?}, not the input's");
    }
    for (i, (p, c)) in data.iter().zip(copy).enumerate() {
        ensure!(bits(p) == *c, "the caller's row {i} became {p:?}");
    }
    Ok(())
}

//! Minimum spanning trees and single-linkage hierarchies.
use super::neighbors::{distance, free, leak, points};
use super::{Case, Check, Tier};
use crate::case;
use crate::engine::{cover, Outcome};
use crate::grid::Dom;
use auto_palette::verif::{
    DistanceMetric, Edge, HierarchicalClustering, MinimumSpanningTree, Point2, SpanningTree,
};

/// How the weight of a pair is made.
#[derive(Clone, Copy, Debug)]
pub enum Weights {
    /// Each pair has an arbitrary weight in lo..=hi.
    Free(i64, i64),
    /// The squared distance of points in the plane with arbitrary coordinates in 0..=hi.
    Plane(i64),
    /// The distance of points on a line with arbitrary coordinates in 0..=hi.
    Line(i64),
    /// Fixed weights in 0..=20 made from a seed, except for a number of arbitrary ones in that range.
    Mixed(u64, usize),
}

fn matrix<D: Dom>(n: usize, w: Weights) -> Vec<Vec<D>> {
    let mut m = vec![vec![D::int(0); n]; n];
    match w {
        Weights::Free(lo, hi) => {
            for i in 0..n {
                for j in i + 1..n {
                    let x = D::input(lo, hi);
                    m[i][j] = x;
                    m[j][i] = x;
                }
            }
        }
        Weights::Mixed(seed, count) => {
            let mut state = seed;
            let mut next = |m: u64| {
                state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (state >> 33) % m
            };
            let mut open = vec![];
            while open.len() < count {
                let (a, b) = (next(n as u64) as usize, next(n as u64) as usize);
                if a < b && !open.contains(&(a, b)) {
                    open.push((a, b));
                }
            }
            for i in 0..n {
                for j in i + 1..n {
                    let fixed = next(21) as i64;
                    let x = if open.contains(&(i, j)) { D::input(0, 20) } else { D::int(fixed) };
                    m[i][j] = x;
                    m[j][i] = x;
                }
            }
        }
        Weights::Plane(hi) => {
            let p: Vec<Point2<D>> = points(&free(n, 2, hi), 1);
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        m[i][j] = distance(DistanceMetric::SquaredEuclidean, &p[i], &p[j]);
                    }
                }
            }
        }
        Weights::Line(hi) => {
            let p: Vec<D> = (0..n).map(|_| D::input(0, hi)).collect();
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        m[i][j] = num_traits::real::Real::abs(p[i] - p[j]);
                    }
                }
            }
        }
    }
    m
}

/// The edges of the path between two vertices of a tree.
fn path(edges: &[(usize, usize)], n: usize, from: usize, to: usize) -> Option<Vec<usize>> {
    let mut via: Vec<Option<(usize, usize)>> = vec![None; n];
    let mut queue = vec![from];
    let mut at = 0;
    while at < queue.len() {
        let u = queue[at];
        at += 1;
        for (e, (a, b)) in edges.iter().enumerate() {
            let v = if *a == u {
                *b
            } else if *b == u {
                *a
            } else {
                continue;
            };
            if v != from && via[v].is_none() {
                via[v] = Some((u, e));
                queue.push(v);
            }
        }
    }
    let mut out = vec![];
    let mut v = to;
    while v != from {
        let (u, e) = via[v]?;
        out.push(e);
        v = u;
    }
    Some(out)
}

pub fn mst<D: Dom>(n: usize, weights: Weights, summed: bool) -> Outcome {
    let w: Vec<Vec<D>> = matrix(n, weights);
    let vertices: Vec<usize> = (0..n).collect();
    let bad = std::cell::Cell::new(false);
    let tree = MinimumSpanningTree::build(&vertices, |u, v| {
        if u >= n || v >= n || u == v {
            bad.set(true);
            return D::int(0);
        }
        w[u][v]
    });
    if bad.get() {
        return Err("a weight is asked for that is not of two different vertices".into());
    }
    let edges: Vec<(usize, usize)> = tree.edges().iter().map(|e| (e.u(), e.v())).collect();
    if edges.len() != n.saturating_sub(1) {
        return Err(format!("{} edges for {n} vertices", edges.len()));
    }
    let mut total = D::int(0);
    for e in tree.edges() {
        let (u, v) = (e.u(), e.v());
        if u >= n || v >= n || u == v {
            return Err(format!("edge {u}-{v} does not join two vertices"));
        }
        if !e.weight().near(w[u][v]) {
            return Err(format!("edge {u}-{v} has the wrong weight"));
        }
        if summed {
            total = total + w[u][v];
        }
    }
    if summed && !tree.weight().near(total) {
        return Err("the total is not the sum of the weights".into());
    }
    for a in 0..n {
        for b in a + 1..n {
            let Some(path) = path(&edges, n, a, b) else {
                return Err(format!("vertices {a} and {b} are not connected"));
            };
            if path.len() > 1 {
                for e in path {
                    let (u, v) = edges[e];
                    if w[a][b] < w[u][v] {
                        return Err(format!("replacing edge {u}-{v} by {a}-{b} is lighter"));
                    }
                }
                cover("an edge is left out");
            }
        }
    }
    let mut es: Vec<(usize, usize)> = edges.iter().map(|(a, b)| (*a.min(b), *a.max(b))).collect();
    es.sort_unstable();
    Ok(format!("{es:?}"))
}

fn least<D: Dom>(a: D, b: D) -> D {
    if b < a {
        b
    } else {
        a
    }
}

fn most<D: Dom>(a: D, b: D) -> D {
    if b > a {
        b
    } else {
        a
    }
}

/// The smallest weight at which two vertices are connected, for all pairs.
fn single_linkage<D: Dom>(w: &[Vec<D>]) -> Vec<Vec<D>> {
    let n = w.len();
    let mut m = w.to_vec();
    for k in 0..n {
        for i in 0..n {
            for j in i + 1..n {
                if i != k && j != k {
                    let through = most(m[i][k], m[k][j]);
                    let x = least(m[i][j], through);
                    m[i][j] = x;
                    m[j][i] = x;
                }
            }
        }
    }
    m
}

/// The hierarchy records how groups are merged.
pub fn merges<D: Dom>(n: usize, weights: Weights) -> Outcome {
    let w: Vec<Vec<D>> = matrix(n, weights);
    let vertices: Vec<usize> = (0..n).collect();
    let h = HierarchicalClustering::fit(&vertices, |u, v| w[u][v]);
    let merges = h.merges();
    if merges.len() != n.saturating_sub(1) {
        return Err(format!("{} merges for {n} points", merges.len()));
    }
    let mut members: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    let mut used = vec![false; 2 * n];
    let mut shape = vec![];
    for (i, (left, right, weight, size)) in merges.iter().enumerate() {
        for child in [*left, *right] {
            if child >= n + i {
                return Err(format!("merge {i} refers to the later node {child}"));
            }
            if used[child] {
                return Err(format!("node {child} is merged twice"));
            }
            used[child] = true;
        }
        let all: Vec<usize> = members[*left].iter().chain(&members[*right]).copied().collect();
        if *size != all.len() {
            return Err(format!("merge {i} holds {} points but reports {size}", all.len()));
        }
        // Single linkage: the weight is the smallest between the two groups.
        let mut attained = false;
        for a in &members[*left] {
            for b in &members[*right] {
                if w[*a][*b] < *weight {
                    return Err(format!("merge {i} happens at more than the weight of {a}-{b}"));
                }
                attained = attained || weight.identical(w[*a][*b]) || weight.near(w[*a][*b]);
            }
        }
        if !attained {
            return Err(format!("merge {i} happens at a weight that no pair has"));
        }
        if i > 0 && *weight < merges[i - 1].2 {
            return Err(format!("merge {i} happens at less than the one before"));
        }
        let mut sorted = all.clone();
        sorted.sort_unstable();
        shape.push(sorted);
        members.push(all);
    }
    // Which of two merges at the same weight comes first is open.
    shape.sort();
    cover("merged");
    Ok(format!("{}", shape.len()))
}

pub fn partition<D: Dom>(n: usize, weights: Weights) -> Outcome {
    let w: Vec<Vec<D>> = matrix(n, weights);
    let vertices: Vec<usize> = (0..n).collect();
    let h = HierarchicalClustering::fit(&vertices, |u, v| w[u][v]);
    if n == 0 {
        let labels = h.partition(0);
        return if labels.is_empty() {
            Ok("empty".into())
        } else {
            Err(format!("{} labels for an empty dataset", labels.len()))
        };
    }
    let linkage = single_linkage(&w);
    for k in 1..=n {
        let labels = h.partition(k);
        if labels.len() != n {
            return Err(format!("{} labels for {n} points", labels.len()));
        }
        let mut seen = vec![false; k];
        for l in &labels {
            if *l >= k {
                return Err(format!("label {l} for {k} groups"));
            }
            seen[*l] = true;
        }
        if seen.contains(&false) {
            return Err(format!("a label of {k} groups is unused"));
        }
        // The largest weight within a group is at most the smallest between groups.
        let mut within: Option<D> = None;
        let mut between: Option<D> = None;
        for i in 0..n {
            for j in i + 1..n {
                let x = linkage[i][j];
                if labels[i] == labels[j] {
                    within = Some(within.map_or(x, |m| most(m, x)));
                } else {
                    between = Some(between.map_or(x, |m| least(m, x)));
                }
            }
        }
        if let (Some(a), Some(b)) = (within, between) {
            if a > b {
                return Err(format!(
                    "cut into {k} groups, two points of one group are further apart than two of different groups"
                ));
            }
            cover("groups of different sizes");
        }
    }
    Ok("ok".into())
}

/// The partition of points in arbitrary places with known groups: `sizes` groups on a line whose
/// gaps inside are smaller than those between.
pub fn separated<D: Dom>(order: &[usize], gaps: &[(i64, i64)], k: usize) -> Outcome {
    // Points on a line; point order[i] is the i-th from the left.
    let n = order.len();
    let mut at = D::int(0);
    let mut place = vec![D::int(0); n];
    let mut gap_values = vec![];
    for (i, p) in order.iter().enumerate() {
        if i > 0 {
            let (lo, hi) = gaps[i - 1];
            let g = D::input(lo, hi);
            gap_values.push(g);
            at = at + g;
        }
        place[*p] = at;
    }
    let h = HierarchicalClustering::fit(&place, |u, v| {
        num_traits::real::Real::abs(place[u] - place[v])
    });
    let labels = h.partition(k);
    let mut rank = vec![0; n];
    for (i, p) in order.iter().enumerate() {
        rank[*p] = i;
    }
    if labels.len() != n {
        return Err(format!("{} labels for {n} points", labels.len()));
    }
    // Groups are runs on the line, separated by the k - 1 widest gaps.
    let cuts: Vec<usize> = (1..n)
        .filter(|i| labels[order[*i]] != labels[order[*i - 1]])
        .collect();
    if cuts.len() != k - 1 {
        return Err(format!("{} cuts for {k} groups", cuts.len()));
    }
    let mut used: Vec<usize> = cuts.iter().map(|c| labels[order[*c]]).collect();
    used.push(labels[order[0]]);
    used.sort_unstable();
    used.dedup();
    if used != (0..k).collect::<Vec<_>>() {
        return Err(format!("labels {used:?} for {k} groups"));
    }
    for (i, g) in gap_values.iter().enumerate() {
        if !cuts.contains(&(i + 1)) {
            for c in &cuts {
                if *g > gap_values[c - 1] {
                    return Err("a gap inside a group is wider than one between groups".into());
                }
            }
        }
    }
    cover("cut");
    Ok("ok".into())
}

pub fn c16() -> Check {
    use Tier::*;
    let mut cases: Vec<Case> = vec![];
    for (tier, n, w, summed) in [
        (Quick, 0, Weights::Free(0, 1), true),
        (Quick, 1, Weights::Free(0, 1), true),
        (Quick, 2, Weights::Free(-2, 2), true),
        (Quick, 3, Weights::Free(0, 3), true),
        (Quick, 4, Weights::Free(0, 6), true),
        (Quick, 4, Weights::Free(-3, 3), true),
        (Quick, 5, Weights::Free(0, 1), true),
        (Quick, 3, Weights::Plane(3), true),
        (Quick, 4, Weights::Plane(2), true),
        (Quick, 5, Weights::Line(2), true),
        (Quick, 9, Weights::Mixed(1, 4), true),
        (Quick, 14, Weights::Mixed(2, 3), true),
        (Quick, 20, Weights::Mixed(3, 2), true),
        (Thorough, 9, Weights::Mixed(4, 5), true),
        (Thorough, 24, Weights::Mixed(5, 3), true),
        (Thorough, 4, Weights::Plane(3), true),
        (Thorough, 5, Weights::Line(5), true),
        (Thorough, 5, Weights::Free(0, 2), true),
        (Thorough, 6, Weights::Free(0, 1), true),
    ] {
        let mut c = case!(
            tier,
            format!("mst-n{n}-{w:?}"),
            format!("{n} vertices, weights {w:?}"),
            [],
            D => mst::<D>(n, w, summed)
        );
        if n > 2 {
            c.covers.push("an edge is left out");
        }
        cases.push(c);
    }
    Check {
        functions: vec![
            "math::graph::spanning_tree::MinimumSpanningTree::build",
            "math::graph::edge::WeightedEdge (Ord)",
        ],
        assumptions: vec!["weights are symmetric integers, or distances of points with integer coordinates; every explored path is re-run on f64 and f32"],
        cases,
    }
}

pub fn c17() -> Check {
    use Tier::*;
    let mut cases: Vec<Case> = vec![];
    for (tier, n, w) in [
        (Quick, 0, Weights::Free(0, 1)),
        (Quick, 1, Weights::Free(0, 1)),
        (Quick, 2, Weights::Free(0, 2)),
        (Quick, 3, Weights::Free(0, 3)),
        (Quick, 4, Weights::Free(0, 3)),
        (Quick, 5, Weights::Free(0, 1)),
        (Quick, 3, Weights::Plane(2)),
        (Quick, 9, Weights::Mixed(1, 3)),
        (Quick, 18, Weights::Mixed(3, 2)),
        (Thorough, 9, Weights::Mixed(4, 4)),
        (Thorough, 20, Weights::Mixed(5, 3)),
        (Thorough, 4, Weights::Free(0, 6)),
        (Thorough, 4, Weights::Plane(2)),
        (Thorough, 5, Weights::Free(0, 3)),
    ] {
        cases.push(case!(
            tier,
            format!("partition-n{n}-{w:?}"),
            format!("{n} points, weights {w:?}, every k in 1..={n}"),
            [],
            D => partition::<D>(n, w)
        ));
        let mut c = case!(
            tier,
            format!("merges-n{n}-{w:?}"),
            format!("{n} points, weights {w:?}"),
            [],
            D => merges::<D>(n, w)
        );
        c.covers.push("merged");
        cases.push(c);
    }
    // Longer hierarchies, as points on a line.
    let orders: &[&[usize]] = &[
        &[3, 0, 5, 1, 4, 2],
        &[6, 2, 0, 4, 1, 5, 3],
        &[1, 7, 3, 0, 5, 2, 6, 4],
    ];
    for (i, order) in orders.iter().enumerate() {
        for k in 2..order.len() {
            let tier = if (i, k) == (0, 2) || (i, k) == (0, 3) || (i, k) == (1, 3) || (i, k) == (0, 5) {
                Quick
            } else {
                Thorough
            };
            // Small and large gaps whose ranges overlap.
            let gaps: Vec<(i64, i64)> = (0..order.len() - 1)
                .map(|g| match g % 3 {
                    0 => (1, 2),
                    1 => (2, 3),
                    _ => (1, 4),
                })
                .collect();
            let gaps = leak(gaps);
            cases.push(case!(
                tier,
                format!("line-{}-k{k}", order.len()),
                format!("{} points on a line in order {order:?}, gaps in {gaps:?}, cut into {k}", order.len()),
                ["cut"],
                D => separated::<D>(order, gaps, k)
            ));
        }
    }
    Check {
        functions: vec![
            "math::clustering::hierarchical::algorithm::HierarchicalClustering::{fit,partition,bfs}",
            "math::clustering::hierarchical::union_find::UnionFind::{find,union}",
            "math::graph::spanning_tree::MinimumSpanningTree::build",
        ],
        assumptions: vec!["weights are symmetric integers, or distances of points with integer coordinates; every explored path is re-run on f64 and f32"],
        cases,
    }
}

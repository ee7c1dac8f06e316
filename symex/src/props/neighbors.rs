//! k-nearest-neighbour and radius queries.
use super::{Case, Check, Mk, Tier};
use crate::case;
use crate::engine::{cover, Outcome};
use crate::grid::Dom;
use auto_palette::verif::{kdtree_query, linear_query, DistanceMetric, Point2, Point3, Point5, Query};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Engine {
    Tree,
    Linear,
}

/// Where a coordinate comes from: a fixed number or an input in a range.
#[derive(Clone, Copy, Debug)]
pub enum C {
    K(i64),
    In(i64, i64),
}

pub fn coord<D: Dom>(c: C) -> D {
    match c {
        C::K(k) => D::int(k),
        C::In(lo, hi) => D::input(lo, hi),
    }
}

/// The points of a description; coordinates are in units of 1/`unit`.
pub fn points<D: Dom, P: Mk<D>>(spec: &[Vec<C>], unit: i64) -> Vec<P> {
    spec.iter()
        .map(|p| {
            let v: Vec<D> = p
                .iter()
                .map(|c| {
                    let x: D = coord(*c);
                    if unit == 1 {
                        x
                    } else {
                        x / D::int(unit)
                    }
                })
                .collect();
            P::mk(&v)
        })
        .collect()
}

/// n points whose coordinates are all arbitrary in 0..=hi.
pub fn free(n: usize, dim: usize, hi: i64) -> Vec<Vec<C>> {
    vec![vec![C::In(0, hi); dim]; n]
}

pub fn distance<D: Dom, P: Mk<D>>(metric: DistanceMetric, a: &P, b: &P) -> D {
    let mut s = D::int(0);
    for i in 0..P::DIM {
        let d = a[i] - b[i];
        s = s + d * d;
    }
    match metric {
        DistanceMetric::Euclidean => num_traits::real::Real::sqrt(s),
        DistanceMetric::SquaredEuclidean => s,
    }
}

fn ask<D: Dom, P: Mk<D>>(
    engine: Engine,
    data: &Vec<P>,
    metric: DistanceMetric,
    query: &P,
    q: Query<D>,
) -> Vec<(usize, D)> {
    match engine {
        Engine::Tree => kdtree_query(data, metric, query, q),
        Engine::Linear => linear_query(data, metric, query, q),
    }
}

/// Check what every answer has to satisfy, and return the set of indices.
fn common<D: Dom, P: Mk<D>>(
    data: &[P],
    metric: DistanceMetric,
    query: &P,
    got: &[(usize, D)],
    sorted: bool,
) -> Result<Vec<bool>, String> {
    let mut seen = vec![false; data.len()];
    for (i, d) in got {
        if *i >= data.len() {
            return Err(format!("index {i} is not in the dataset"));
        }
        if seen[*i] {
            return Err(format!("index {i} is reported twice"));
        }
        seen[*i] = true;
        if !d.near(distance(metric, &data[*i], query)) {
            return Err(format!("the distance reported for index {i} is wrong"));
        }
    }
    if sorted {
        for w in got.windows(2) {
            if w[0].1 > w[1].1 {
                return Err("the neighbours are not in ascending order of distance".into());
            }
        }
    }
    Ok(seen)
}

pub fn knn<D: Dom, P: Mk<D>>(
    engine: Engine,
    metric: DistanceMetric,
    data: &[Vec<C>],
    query: &[C],
    k: usize,
    nearest: bool,
    unit: i64,
) -> Outcome {
    let data: Vec<P> = points(data, unit);
    let query: P = points(&[query.to_vec()], unit)[0];
    let q = if nearest { Query::Nearest } else { Query::K(k) };
    let got = ask(engine, &data, metric, &query, q);
    let want = k.min(data.len());
    if got.len() != want {
        return Err(format!("{} neighbours instead of {want}", got.len()));
    }
    let seen = common(&data, metric, &query, &got, true)?;
    if let Some((_, worst)) = got.last() {
        for (i, s) in seen.iter().enumerate() {
            if !*s && distance(metric, &data[i], &query) < *worst {
                return Err(format!("point {i} is nearer than a reported neighbour"));
            }
        }
        if want < data.len() {
            cover("some points are left out");
        }
    }
    Ok(format!("{:?}", got.iter().map(|g| g.0).collect::<Vec<_>>()))
}

pub fn radius<D: Dom, P: Mk<D>>(
    engine: Engine,
    metric: DistanceMetric,
    data: &[Vec<C>],
    query: &[C],
    r: C,
    r_unit: i64,
    unit: i64,
) -> Outcome {
    let data: Vec<P> = points(data, unit);
    let query: P = points(&[query.to_vec()], unit)[0];
    let mut r: D = coord(r);
    if r_unit != 1 {
        r = r / D::int(r_unit);
    }
    let got = ask(engine, &data, metric, &query, Query::Radius(r));
    if r < D::int(0) {
        if !got.is_empty() {
            return Err("neighbours within a negative radius".into());
        }
        cover("negative radius");
        return Ok("negative".into());
    }
    // The order of the answer is fixed for the tree only.
    let seen = common(&data, metric, &query, &got, engine == Engine::Tree)?;
    for (i, s) in seen.iter().enumerate() {
        let inside = distance(metric, &data[i], &query) <= r;
        if inside && !*s {
            return Err(format!("point {i} is within the radius but not reported"));
        }
        if !inside && *s {
            return Err(format!("point {i} is reported but not within the radius"));
        }
        if inside {
            cover("inside");
        } else {
            cover("outside");
        }
    }
    Ok(format!("{:?}", got.iter().map(|g| g.0).collect::<Vec<_>>()))
}


/// Case descriptions live as long as the process.
pub fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}

/// Fixed points, given as coordinates.
pub fn fixed(points: &[&[i64]]) -> Vec<Vec<C>> {
    points
        .iter()
        .map(|p| p.iter().map(|c| C::K(*c)).collect())
        .collect()
}

/// Three arrangements of a larger dataset: scattered, with repeated coordinates on both axes, and
/// with repeated points.
pub fn layouts_2d() -> Vec<(&'static str, Vec<Vec<C>>)> {
    vec![
        (
            "scattered9",
            fixed(&[
                &[0, 5], &[7, 1], &[3, 3], &[6, 6], &[1, 0], &[4, 7], &[2, 6], &[5, 2], &[8, 4],
            ]),
        ),
        (
            "grid8",
            fixed(&[
                &[0, 0], &[0, 2], &[0, 4], &[2, 0], &[2, 2], &[2, 4], &[4, 0], &[4, 4],
            ]),
        ),
        (
            "repeats7",
            fixed(&[
                &[1, 1], &[1, 1], &[3, 0], &[3, 0], &[0, 3], &[1, 4], &[3, 3],
            ]),
        ),
    ]
}

pub fn describe(data: &[Vec<C>], unit: i64, query: &str) -> String {
    let free = data
        .iter()
        .flatten()
        .filter(|c| matches!(c, C::In(..)))
        .count();
    format!(
        "{} points, {free} arbitrary coordinates, in units of 1/{unit}; {query}",
        data.len()
    )
}

const TREE: &[&str] = &[
    "math::neighbors::kdtree::KDTree::{new,search,search_nearest,search_radius}",
    "math::neighbors::kdtree::{node,element}",
    "math::distance::metric::DistanceMetric::measure",
    "math::point::{Point2,Point3,Point5}",
];
const LINEAR: &[&str] = &[
    "math::neighbors::linear::LinearSearch::{new,search,search_nearest,search_radius}",
    "math::distance::metric::DistanceMetric::measure",
    "math::point::{Point2,Point3,Point5}",
];
const GRID: &[&str] = &[
    "coordinates, queries and radii are small integers (or halves), on which f32 and f64 arithmetic is exact; every explored path is re-run on f64 and f32",
];

/// The metrics, with the unit of the coordinates. In quarters, squares are smaller than what they
/// are squares of.
const MODES: [(DistanceMetric, i64); 3] = [
    (DistanceMetric::Euclidean, 1),
    (DistanceMetric::SquaredEuclidean, 1),
    (DistanceMetric::SquaredEuclidean, 4),
];

const FIVE: &[&[i64]] = &[
    &[0, 3, 1, 2, 4],
    &[2, 0, 4, 1, 0],
    &[4, 4, 0, 3, 3],
    &[1, 1, 3, 4, 1],
    &[3, 2, 2, 0, 2],
    &[0, 0, 0, 4, 3],
    &[4, 1, 4, 2, 1],
    &[2, 4, 3, 3, 0],
    &[1, 3, 4, 0, 4],
    &[3, 3, 1, 1, 1],
];

const THREE: &[&[i64]] = &[
    &[0, 3, 1],
    &[2, 0, 4],
    &[4, 4, 0],
    &[1, 1, 3],
    &[3, 2, 2],
    &[0, 0, 0],
    &[4, 1, 4],
    &[2, 4, 3],
    &[1, 3, 4],
];

fn mode_name(metric: DistanceMetric, unit: i64) -> String {
    let m = match metric {
        DistanceMetric::Euclidean => "euclidean",
        DistanceMetric::SquaredEuclidean => "squared",
    };
    if unit == 1 {
        m.to_string()
    } else {
        format!("{m}-in-1/{unit}")
    }
}

fn knn_cases(engine: Engine) -> Vec<Case> {
    use Tier::*;
    let mut v: Vec<Case> = vec![];
    for (metric, unit) in MODES {
        let mode = mode_name(metric, unit);
        // What the linear scan does has nothing to do with the layout of the points.
        let linear = engine == Engine::Linear;
        let tree_only = |t: Tier| if linear { Thorough } else { t };
        // Small datasets in which everything is arbitrary.
        for (tier, n, hi, k, nearest) in [
            (Quick, 0, 2, 2, false),
            (Quick, 0, 2, 1, true),
            (Quick, 2, 3, 0, false),
            (Quick, 2, 3, 1, true),
            (Quick, 3, 3, 1, false),
            (Quick, 3, 2, 2, false),
            (Quick, 3, 2, 3, false),
            (Quick, 2, 2, usize::MAX, false),
            (tree_only(Quick), 4, 2, 2, false),
            (Thorough, 3, 3, 2, false),
            (Thorough, 4, 2, 1, true),
            (Thorough, 4, 2, 3, false),
            (Thorough, 4, 3, 2, false),
            (Thorough, 5, 2, 2, false),
        ] {
            if linear && n > 4 {
                continue;
            }
            let what = match (nearest, k) {
                (true, _) => "nearest".to_string(),
                (_, usize::MAX) => "kmax".to_string(),
                _ => format!("k{k}"),
            };
            let data = leak(free(n, 2, hi));
            let mut c = case!(
                tier,
                format!("2d-free-n{n}-0..{hi}-{what}-{mode}"),
                describe(data, unit, &format!("query coordinates 0..={hi}; k = {k}")),
                [],
                D => knn::<D, Point2<D>>(engine, metric, data, &[C::In(0, hi); 2], k, nearest, unit)
            );
            if n > k && k > 0 {
                c.covers.push("some points are left out");
            }
            v.push(c);
        }
        // Larger datasets and an arbitrary query.
        for (name, data) in layouts_2d() {
            for (tier, k, nearest) in [
                (Quick, 1, true),
                (tree_only(Quick), 2, false),
                (Quick, 3, false),
                (Thorough, 1, false),
                (Thorough, 4, false),
                (Thorough, 5, false),
                (tree_only(Quick), 20, false),
            ] {
                let what = if nearest { "nearest".into() } else { format!("k{k}") };
                let data = leak(data.clone());
                v.push(case!(
                    tier,
                    format!("2d-{name}-{what}-{mode}"),
                    describe(data, unit, &format!("query coordinates -2..=9; k = {k}")),
                    [],
                    D => knn::<D, Point2<D>>(engine, metric, data, &[C::In(-2, 9); 2], k, nearest, unit)
                ));
            }
        }
        // One arbitrary point among fixed ones.
        for (tier, k, hi) in [(tree_only(Quick), 2, 3), (Thorough, 2, 4), (Thorough, 3, 4)] {
            let mut data = fixed(&[&[4, 1], &[0, 2], &[2, 4], &[3, 3], &[1, 0]]);
            data.insert(2, vec![C::In(0, hi); 2]);
            let data = leak(data);
            v.push(case!(
                tier,
                format!("2d-mixed6-0..{hi}-k{k}-{mode}"),
                describe(data, unit, &format!("query coordinates 0..={hi}")),
                [],
                D => knn::<D, Point2<D>>(engine, metric, data, &[C::In(0, hi); 2], k, false, unit)
            ));
        }
        // The splitting axes of the higher dimensions.
        for (tier, n, hi, k) in [
            (Quick, 3, 1, 1),
            (tree_only(Quick), 3, 1, 2),
            (Thorough, 4, 1, 2),
            (Thorough, 3, 2, 2),
        ] {
            let data = leak(free(n, 3, hi));
            v.push(case!(
                tier,
                format!("3d-free-n{n}-0..{hi}-k{k}-{mode}"),
                describe(data, unit, &format!("query coordinates 0..={hi}; k = {k}")),
                [],
                D => knn::<D, Point3<D>>(engine, metric, data, &[C::In(0, hi); 3], k, false, unit)
            ));
        }
        for (tier, k, hi) in [(tree_only(Quick), 1, 2), (Quick, 2, 2), (Thorough, 3, 4)] {
            let data = leak(fixed(THREE));
            v.push(case!(
                tier,
                format!("3d-scattered9-0..{hi}-k{k}-{mode}"),
                describe(data, unit, &format!("query coordinates 0..={hi}; k = {k}")),
                [],
                D => knn::<D, Point3<D>>(engine, metric, data, &[C::In(0, hi); 3], k, false, unit)
            ));
        }
        for (tier, k, at) in [
            (Quick, 1, 0),
            (tree_only(Quick), 2, 3),
            (Thorough, 3, 1),
            (Thorough, 2, 0),
        ] {
            // Two neighbouring query coordinates are arbitrary, the others fixed.
            let data = leak(fixed(FIVE));
            let mut q = vec![C::K(2); 5];
            q[at] = C::In(0, 4);
            q[at + 1] = C::In(0, 4);
            let q = leak(q);
            v.push(case!(
                tier,
                format!("5d-scattered10-axis{at}-k{k}-{mode}"),
                describe(data, unit, &format!("query coordinates {at} and {} 0..=4; k = {k}", at + 1)),
                [],
                D => knn::<D, Point5<D>>(engine, metric, data, q, k, false, unit)
            ));
        }
    }
    v
}

fn radius_cases(engine: Engine) -> Vec<Case> {
    use Tier::*;
    let mut v: Vec<Case> = vec![];
    for (metric, unit) in MODES {
        let mode = mode_name(metric, unit);
        let linear = engine == Engine::Linear;
        let tree_only = |t: Tier| if linear { Thorough } else { t };
        // Squared distances are multiples of the squared unit; between two of them lies a half.
        let r_unit = match metric {
            DistanceMetric::Euclidean => 2 * unit,
            DistanceMetric::SquaredEuclidean => 2 * unit * unit,
        };
        let in_range = format!("in units of 1/{r_unit}");
        for (tier, n, hi, r) in [
            (Quick, 0, 2, C::In(-1, 2)),
            (Quick, 1, 3, C::In(-1, 9)),
            (Quick, 2, 2, C::In(-1, 6)),
            (Quick, 3, 2, C::K(2)),
            (tree_only(Quick), 3, 2, C::K(3)),
            (tree_only(Quick), 3, 2, C::K(4)),
            (Thorough, 3, 2, C::In(0, 4)),
            (Thorough, 3, 3, C::K(4)),
            (Thorough, 4, 2, C::K(2)),
            (Thorough, 4, 2, C::K(4)),
        ] {
            let data = leak(free(n, 2, hi));
            let mut c = case!(
                tier,
                format!("2d-free-n{n}-0..{hi}-r{r:?}-{mode}"),
                describe(data, unit, &format!("query coordinates 0..={hi}; radius {r:?} {in_range}")),
                [],
                D => radius::<D, Point2<D>>(engine, metric, data, &[C::In(0, hi); 2], r, r_unit, unit)
            );
            if n > 0 {
                c.covers.extend(["inside", "outside"]);
            }
            if matches!(r, C::In(-1, _)) {
                c.covers.push("negative radius");
            }
            v.push(c);
        }
        for (name, data) in layouts_2d() {
            for (tier, lo, hi) in [(Quick, 0, 6), (Quick, 7, 12), (Thorough, 0, 60)] {
                let data = leak(data.clone());
                v.push(case!(
                    tier,
                    format!("2d-{name}-r{lo}..{hi}-{mode}"),
                    describe(data, unit, &format!("query coordinates -2..=9; radius {lo}..={hi} {in_range}")),
                    ["inside", "outside"],
                    D => radius::<D, Point2<D>>(engine, metric, data, &[C::In(-2, 9); 2], C::In(lo, hi), r_unit, unit)
                ));
            }
        }
        for (tier, n, hi, r) in [
            (Quick, 3, 1, C::K(2)),
            (Thorough, 3, 1, C::In(0, 5)),
            (Thorough, 3, 2, C::K(4)),
            (Thorough, 4, 1, C::In(0, 5)),
        ] {
            let data = leak(free(n, 3, hi));
            v.push(case!(
                tier,
                format!("3d-free-n{n}-0..{hi}-r{r:?}-{mode}"),
                describe(data, unit, &format!("query coordinates 0..={hi}; radius {r:?} {in_range}")),
                ["inside", "outside"],
                D => radius::<D, Point3<D>>(engine, metric, data, &[C::In(0, hi); 3], r, r_unit, unit)
            ));
        }
        for (tier, hi) in [(Quick, 2), (Thorough, 4)] {
            let data = leak(fixed(THREE));
            v.push(case!(
                tier,
                format!("3d-scattered9-0..{hi}-{mode}"),
                describe(data, unit, &format!("query coordinates 0..={hi}; radius 0..=9 {in_range}")),
                ["inside", "outside"],
                D => radius::<D, Point3<D>>(engine, metric, data, &[C::In(0, hi); 3], C::In(0, 9), r_unit, unit)
            ));
        }
        for (tier, at) in [(tree_only(Quick), 0), (Quick, 3), (Thorough, 1), (Thorough, 2)] {
            let data = leak(fixed(FIVE));
            let mut q = vec![C::K(2); 5];
            q[at] = C::In(0, 4);
            q[at + 1] = C::In(0, 4);
            let q = leak(q);
            let (lo, hi) = if metric == DistanceMetric::Euclidean { (2, 10) } else { (10, 40) };
            v.push(case!(
                tier,
                format!("5d-scattered10-axis{at}-{mode}"),
                describe(data, unit, &format!("query coordinates {at} and {} 0..=4; radius {lo}..={hi} {in_range}", at + 1)),
                ["inside", "outside"],
                D => radius::<D, Point5<D>>(engine, metric, data, q, C::In(lo, hi), r_unit, unit)
            ));
        }
    }
    v
}

pub fn c09() -> Check {
    Check {
        functions: TREE.to_vec(),
        assumptions: GRID.to_vec(),
        cases: knn_cases(Engine::Tree),
    }
}

pub fn c10() -> Check {
    Check {
        functions: TREE.to_vec(),
        assumptions: GRID.to_vec(),
        cases: radius_cases(Engine::Tree),
    }
}

pub fn c11() -> Check {
    let mut cases = knn_cases(Engine::Linear);
    cases.extend(radius_cases(Engine::Linear));
    Check {
        functions: LINEAR.to_vec(),
        assumptions: GRID.to_vec(),
        cases,
    }
}

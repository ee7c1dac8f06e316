//! Density clustering and core distances.
use super::neighbors::{coord, describe, distance, fixed, free, leak, points, C};
use super::{Case, Check, Mk, Tier};
use crate::case;
use crate::engine::{abort, cover, Abort, Outcome};
use crate::grid::Dom;
use auto_palette::verif::{
    core_distances, dbscan_fit, DbscanParams, DistanceMetric, Point2, Point3, Point5, DBSCAN,
};

/// What a run of the library reports.
struct Reported<P> {
    centroids: Vec<P>,
    counts: Vec<usize>,
    outliers: Vec<usize>,
}

fn report<D: Dom, P: Mk<D>>(db: &DBSCAN<D, P>) -> Reported<P> {
    let centroids = db.centroids();
    Reported {
        counts: (0..centroids.len()).map(|i| db.count_at(i)).collect(),
        centroids,
        outliers: db.outliers(),
    }
}

/// Whether `centroid * size` is the sum of the points, as terms or as values.
pub fn is_mean<D: Dom, P: Mk<D>>(centroid: &P, data: &[P], members: &[usize], exactly: bool) -> bool {
    let size = D::int(members.len() as i64);
    (0..P::DIM).all(|axis| {
        let mut sum = D::int(0);
        for m in members {
            sum = sum + data[*m][axis];
        }
        let mean = sum / size;
        mean.identical(centroid[axis]) || (!exactly && mean.near(centroid[axis]))
    })
}

fn subsets(of: &[usize], size: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    fn go(of: &[usize], from: usize, size: usize, acc: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if acc.len() == size {
            return f(acc);
        }
        for i in from..of.len() {
            acc.push(of[i]);
            if go(of, i + 1, size, acc, f) {
                return true;
            }
            acc.pop();
        }
        false
    }
    go(of, 0, size, &mut vec![], f)
}

/// Whether the points can be divided into groups of the reported sizes and means. Clusters of size
/// zero have no mean.
pub fn is_division<D: Dom, P: Mk<D>>(
    data: &[P],
    open: &[usize],
    clusters: &[(P, usize)],
    exactly: bool,
) -> bool {
    let Some(((centroid, size), rest)) = clusters.split_first() else {
        return open.is_empty();
    };
    if *size == 0 {
        return is_division(data, open, rest, exactly);
    }
    if *size > open.len() {
        return false;
    }
    subsets(open, *size, &mut |s| {
        is_mean(centroid, data, s, exactly) && {
            let left: Vec<usize> = open.iter().filter(|x| !s.contains(x)).copied().collect();
            is_division(data, &left, rest, exactly)
        }
    })
}

#[derive(Clone, Copy)]
pub struct Setting {
    pub data: &'static [Vec<C>],
    pub unit: i64,
    pub metric: DistanceMetric,
    pub epsilon: C,
    pub epsilon_unit: i64,
    pub min_points: usize,
}

impl Setting {
    fn epsilon<D: Dom>(&self) -> D {
        let e: D = coord(self.epsilon);
        if self.epsilon_unit == 1 {
            e
        } else {
            e / D::int(self.epsilon_unit)
        }
    }

    fn bounds(&self) -> String {
        describe(
            self.data,
            self.unit,
            &format!(
                "{:?}, radius {:?} in 1/{}, at least {} points",
                self.metric, self.epsilon, self.epsilon_unit, self.min_points
            ),
        )
    }
}

/// The clusters by definition: core points, their components, and what each other point may join.
struct Density {
    /// Component of each core point.
    component: Vec<Option<usize>>,
    n_components: usize,
    /// Components a point that is no core point may join.
    joins: Vec<Vec<usize>>,
}

fn density<D: Dom, P: Mk<D>>(data: &[P], metric: DistanceMetric, epsilon: D, min_points: usize) -> Density {
    let n = data.len();
    let mut near = vec![vec![false; n]; n];
    for i in 0..n {
        for j in 0..=i {
            near[i][j] = distance(metric, &data[i], &data[j]) <= epsilon;
            near[j][i] = near[i][j];
        }
    }
    let core: Vec<bool> = near
        .iter()
        .map(|r| r.iter().filter(|x| **x).count() >= min_points)
        .collect();
    let mut component = vec![None; n];
    let mut n_components = 0;
    for i in 0..n {
        if !core[i] || component[i].is_some() {
            continue;
        }
        let mut stack = vec![i];
        component[i] = Some(n_components);
        while let Some(x) = stack.pop() {
            for y in 0..n {
                if core[y] && near[x][y] && component[y].is_none() {
                    component[y] = Some(n_components);
                    stack.push(y);
                }
            }
        }
        n_components += 1;
    }
    let joins = (0..n)
        .map(|i| {
            let mut v: Vec<usize> = (0..n)
                .filter(|j| !core[i] && near[i][*j])
                .filter_map(|j| component[j])
                .collect();
            v.sort_unstable();
            v.dedup();
            v
        })
        .collect();
    Density {
        component,
        n_components,
        joins,
    }
}

/// Whether the reported centroids and sizes are those of the groups, in any order and with sizes
/// and centroids taken apart.
fn same_groups<D: Dom, P: Mk<D>>(data: &[P], groups: &[Vec<usize>], got: &Reported<P>, exactly: bool) -> bool {
    let mut sizes: Vec<usize> = groups.iter().map(|g| g.len()).collect();
    let mut counts = got.counts.clone();
    sizes.sort_unstable();
    counts.sort_unstable();
    if sizes != counts {
        return false;
    }
    let mut used = vec![false; got.centroids.len()];
    groups.iter().all(|g| {
        match (0..used.len()).find(|i| !used[*i] && is_mean(&got.centroids[*i], data, g, exactly)) {
            Some(i) => {
                used[i] = true;
                true
            }
            None => false,
        }
    })
}

pub fn connected<D: Dom, P: Mk<D>>(s: Setting) -> Outcome {
    let data: Vec<P> = points(s.data, s.unit);
    let epsilon: D = s.epsilon();
    let db = dbscan_fit(&data, &DbscanParams::new(s.min_points, epsilon, s.metric));
    let got = report(&db);
    let want = density(&data, s.metric, epsilon, s.min_points);
    let n = data.len();

    let mut is_outlier = vec![false; n];
    for o in &got.outliers {
        if *o >= n || is_outlier[*o] {
            return Err(format!("outlier {o} is reported twice or does not exist"));
        }
        is_outlier[*o] = true;
    }
    let mut groups = vec![vec![]; want.n_components];
    let mut borders: Vec<(usize, &[usize])> = vec![];
    for i in 0..n {
        match want.component[i] {
            Some(c) => {
                if is_outlier[i] {
                    return Err(format!("point {i} has enough neighbours, but is an outlier"));
                }
                groups[c].push(i);
            }
            None if want.joins[i].is_empty() => {
                if !is_outlier[i] {
                    return Err(format!("point {i} belongs to no cluster, but is no outlier"));
                }
                cover("outlier");
            }
            None => {
                if is_outlier[i] {
                    return Err(format!("point {i} is next to a core point, but an outlier"));
                }
                cover("border");
                borders.push((i, &want.joins[i]));
            }
        }
    }
    if got.centroids.len() != want.n_components {
        return Err(format!(
            "{} clusters instead of {}",
            got.centroids.len(),
            want.n_components
        ));
    }
    if want.n_components > 1 {
        cover("several clusters");
    }
    // Any choice of the points between two clusters will do.
    let combinations: usize = borders.iter().map(|b| b.1.len()).product();
    if combinations > 4096 {
        abort(Abort::Inconclusive("too many border points".into()));
    }
    for exactly in [true, false] {
        for mut c in 0..combinations {
            let mut g = groups.clone();
            for (i, options) in &borders {
                g[options[c % options.len()]].push(*i);
                c /= options.len();
            }
            if same_groups(&data, &g, &got, exactly) {
                return Ok(format!("{} {:?}", want.n_components, got.outliers.len()));
            }
        }
    }
    Err("the centroids and sizes are not those of the density-connected groups".into())
}

pub fn consistent<D: Dom, P: Mk<D>>(s: Setting) -> Outcome {
    let data: Vec<P> = points(s.data, s.unit);
    let db = dbscan_fit(&data, &DbscanParams::new(s.min_points, s.epsilon(), s.metric));
    let got = report(&db);
    let n = data.len();
    if n == 0 && (!got.centroids.is_empty() || !got.outliers.is_empty()) {
        return Err("clusters or outliers of an empty dataset".into());
    }
    for beyond in [0, 1, 2, 1000, usize::MAX - got.centroids.len()] {
        if db.count_at(got.centroids.len() + beyond) != 0 {
            return Err("a cluster that does not exist has points".into());
        }
    }
    let mut is_outlier = vec![false; n];
    for o in &got.outliers {
        if *o >= n || is_outlier[*o] {
            return Err(format!("outlier {o} is reported twice or does not exist"));
        }
        is_outlier[*o] = true;
    }
    if got.counts.contains(&0) {
        return Err("a cluster is empty".into());
    }
    let total = got.counts.iter().sum::<usize>() + got.outliers.len();
    if total != n {
        return Err(format!("sizes and outliers add up to {total}, not {n}"));
    }
    let open: Vec<usize> = (0..n).filter(|i| !is_outlier[*i]).collect();
    let clusters: Vec<(P, usize)> = got.centroids.iter().copied().zip(got.counts.iter().copied()).collect();
    if clusters.len() > 1 {
        cover("several clusters");
    }
    if got.counts.windows(2).any(|w| w[0] != w[1]) {
        cover("clusters of different sizes");
    }
    for exactly in [true, false] {
        if is_division(&data, &open, &clusters, exactly) {
            return Ok(format!("{} {}", clusters.len(), got.outliers.len()));
        }
    }
    Err("the points cannot be divided into groups of the reported sizes with the reported means".into())
}

pub fn core_distance<D: Dom, P: Mk<D>>(
    data: &[Vec<C>],
    unit: i64,
    metric: DistanceMetric,
    min_samples: usize,
) -> Outcome {
    let data: Vec<P> = points(data, unit);
    let n = data.len();
    let got = core_distances(&data, min_samples, metric);
    if got.len() != n {
        return Err(format!("{} core distances for {n} points", got.len()));
    }
    for i in 0..n {
        let mut within = 0;
        let mut nearer = 0;
        let mut attained = false;
        for j in 0..n {
            if i == j {
                continue;
            }
            let d = distance(metric, &data[i], &data[j]);
            let same = d.identical(got[i]) || d.near(got[i]);
            attained = attained || same;
            if same || d < got[i] {
                within += 1;
            }
            if !same && d < got[i] {
                nearer += 1;
            }
        }
        let want = min_samples.min(n - 1);
        if want == 0 {
            if !got[i].near(D::int(0)) {
                return Err(format!("the core distance of point {i} is not zero"));
            }
            continue;
        }
        if !attained {
            return Err(format!("the core distance of point {i} is the distance of no other point"));
        }
        if within < want {
            return Err(format!("{within} instead of {want} points within the core distance of point {i}"));
        }
        if nearer >= want {
            return Err(format!("{nearer} points are nearer than the core distance of point {i}, {want} suffice"));
        }
        cover("measured");
    }
    Ok("ok".into())
}

const RUN: &[&str] = &[
    "math::clustering::dbscan::algorithm::DBSCAN::{fit,expand_cluster,centroids,count_at,outliers}",
    "math::neighbors::kdtree::KDTree::{new,search_radius}",
    "math::distance::metric::DistanceMetric::measure",
    "math::point::{Point2,Point3,Point5}",
];

const ASSUME: &[&str] = &[
    "coordinates and radii are small integers or fractions with a power of two below; every explored path is re-run on f64 and f32",
];

/// Points on a line: a row of places, each with what it may be moved by, in a given order.
fn row(order: &[usize], places: &[(i64, i64)]) -> Vec<Vec<C>> {
    let mut v = vec![vec![]; places.len()];
    for (place, i) in places.iter().zip(order) {
        v[*i] = vec![if place.0 == place.1 { C::K(place.0) } else { C::In(place.0, place.1) }, C::K(0)];
    }
    v
}

fn settings() -> Vec<(Tier, String, Setting)> {
    use DistanceMetric::*;
    use Tier::*;
    let mut v = vec![];
    let mut add = |tier: Tier, name: String, data: Vec<Vec<C>>, unit: i64, metric: DistanceMetric, epsilon: C, epsilon_unit: i64, min_points: usize| {
        v.push((
            tier,
            format!("{name}-min{min_points}-{metric:?}"),
            Setting { data: leak(data), unit, metric, epsilon, epsilon_unit, min_points },
        ));
    };
    // Everything arbitrary.
    for metric in [Euclidean, SquaredEuclidean] {
        for min_points in 1..=3 {
            add(Quick, "empty".into(), vec![], 1, metric, C::In(0, 3), 1, min_points);
            add(Quick, "free1".into(), free(1, 2, 3), 1, metric, C::In(0, 3), 1, min_points);
            add(Quick, "free2".into(), free(2, 2, 3), 1, metric, C::In(0, 7), 2, min_points);
            add(Quick, "free3".into(), free(3, 2, 2), 1, metric, C::K(1), 1, min_points);
            add(Thorough, "free3-radius".into(), free(3, 2, 2), 1, metric, C::In(0, 7), 2, min_points);
            add(Thorough, "free4".into(), free(4, 2, 2), 1, metric, C::K(1), 1, min_points);
        }
        // Below 1, squares are smaller than what they are squares of.
        add(Quick, "free3-quarters".into(), free(3, 2, 3), 4, metric, C::K(1), 4, 2);
        // A row of points whose neighbourhoods may or may not touch, in several orders.
        let places = [(0, 0), (1, 3), (3, 4), (5, 7), (7, 9), (9, 9)];
        for (i, order) in [[0, 1, 2, 3, 4, 5], [5, 2, 0, 4, 1, 3], [3, 5, 1, 0, 4, 2], [2, 3, 4, 1, 0, 5]].iter().enumerate() {
            for min_points in 2..=4 {
                let tier = if i < 2 || (i == 2 && min_points == 3) { Quick } else { Thorough };
                let e = if metric == Euclidean { 2 } else { 4 };
                add(tier, format!("row6-{i}"), row(order, &places), 1, metric, C::K(e), 1, min_points);
            }
        }
        let places = [(0, 1), (1, 2), (2, 4), (4, 6), (6, 8), (8, 9), (9, 10), (11, 12)];
        for (i, order) in [[3, 6, 1, 7, 0, 4, 2, 5], [7, 6, 5, 4, 3, 2, 1, 0]].iter().enumerate() {
            for min_points in 2..=4 {
                let e = if metric == Euclidean { 2 } else { 4 };
                add(Thorough, format!("row8-{i}"), row(order, &places), 1, metric, C::K(e), 1, min_points);
            }
        }
    }
    // Two dense groups and a point that may lie between them, apart, or join them.
    let base: &[&[i64]] = &[&[0, 0], &[7, 1], &[0, 1], &[7, 0], &[1, 0], &[6, 0], &[1, 1], &[6, 1], &[3, 6]];
    for (at, min_points) in [(0, 3), (4, 4), (9, 4), (9, 5), (5, 2)] {
        let mut data = fixed(base);
        data.insert(at, vec![C::In(0, 7), C::In(0, 3)]);
        add(Quick, format!("bridge10-at{at}"), data, 1, Euclidean, C::In(2, 7), 2, min_points);
    }
    // Two movable points and repeated points.
    let base: &[&[i64]] = &[&[0, 0], &[0, 0], &[5, 0], &[5, 0], &[0, 2], &[5, 2]];
    for (at, min_points) in [(0, 3), (3, 4), (6, 3)] {
        let mut data = fixed(base);
        data.insert(at, vec![C::In(0, 5), C::In(0, 1)]);
        data.insert(at, vec![C::In(0, 5), C::K(0)]);
        add(Quick, format!("repeats8-at{at}"), data, 1, Euclidean, C::K(2), 1, min_points);
        let mut data = fixed(base);
        data.insert(at, vec![C::In(0, 5), C::In(0, 3)]);
        data.insert(at, vec![C::In(0, 5), C::In(0, 3)]);
        add(Thorough, format!("repeats8-wide-at{at}"), data, 1, SquaredEuclidean, C::K(4), 1, min_points);
    }
    // A long row, in which chains have to be followed and the tree is deep.
    for (i, step) in [7usize, 11, 1, 18].iter().enumerate() {
        let mut data = vec![vec![]; 19];
        for place in 0..19 {
            let x = match place {
                6 => C::In(10, 14),
                13 => C::In(24, 28),
                p => C::K(2 * p as i64),
            };
            data[place * step % 19] = vec![x, C::K(0)];
        }
        let tier = if i < 2 { Quick } else { Thorough };
        for min_points in [2, 3] {
            add(tier, format!("chain19-{i}"), data.clone(), 1, Euclidean, C::In(1, 3), 1, min_points);
        }
    }
    v
}

fn five(n: usize, at: usize) -> Vec<Vec<C>> {
    let base: &[&[i64]] = &[&[0, 0, 0, 0, 0], &[1, 0, 0, 1, 0], &[0, 1, 1, 0, 0], &[3, 3, 3, 3, 3], &[3, 2, 3, 3, 3], &[3, 3, 2, 3, 2]];
    let mut data = fixed(&base[..n]);
    data.insert(at, vec![C::In(0, 3), C::K(1), C::In(0, 3), C::K(1), C::In(0, 1)]);
    data
}

pub fn c14() -> Check {
    use Tier::*;
    let mut cases: Vec<Case> = vec![];
    for (tier, name, s) in settings() {
        let mut c = case!(tier, name, s.bounds(), [], D => connected::<D, Point2<D>>(s));
        if (name.starts_with("bridge") && s.min_points > 2) || name.starts_with("row6-1-min3") {
            c.covers.push("border");
        }
        if name.starts_with("row6-0-min2") || name.starts_with("bridge10-at0") {
            c.covers.push("several clusters");
        }
        if name.starts_with("free3-min2") {
            c.covers.push("outlier");
        }
        cases.push(c);
    }
    for (at, e, min_points) in [(0, 2, 2), (3, 2, 3), (6, 3, 3)] {
        let s = Setting {
            data: leak(five(6, at)),
            unit: 1,
            metric: DistanceMetric::Euclidean,
            epsilon: C::K(e),
            epsilon_unit: 1,
            min_points,
        };
        cases.push(case!(Quick, format!("5d-at{at}-min{min_points}"), s.bounds(), ["several clusters"], D => connected::<D, Point5<D>>(s)));
    }
    let s = Setting {
        data: leak(free(3, 3, 1)),
        unit: 1,
        metric: DistanceMetric::Euclidean,
        epsilon: C::K(1),
        epsilon_unit: 1,
        min_points: 2,
    };
    cases.push(case!(Quick, "3d-free3", s.bounds(), ["outlier"], D => connected::<D, Point3<D>>(s)));
    Check { functions: RUN.to_vec(), assumptions: ASSUME.to_vec(), cases }
}

pub fn c15() -> Check {
    use Tier::*;
    let mut cases: Vec<Case> = vec![];
    for (tier, name, s) in settings() {
        if name.starts_with("chain") {
            continue;
        }
        // Hash maps iterate in an order that depends on the seed.
        let seeds: &[u64] = if name.starts_with("row6") || name.starts_with("bridge") {
            &[1, 2, 3]
        } else {
            &[1]
        };
        for seed in seeds {
            let mut c = case!(tier, format!("{name}-seed{seed}"), s.bounds(), [], D => consistent::<D, Point2<D>>(s));
            c.seed = *seed;
            if name.starts_with("row6-0-min2") || name.starts_with("bridge10-at0") {
                c.covers.push("several clusters");
                c.covers.push("clusters of different sizes");
            }
            cases.push(c);
        }
    }
    for (at, e, min_points) in [(0, 2, 2), (3, 2, 3), (6, 3, 3)] {
        let s = Setting {
            data: leak(five(6, at)),
            unit: 1,
            metric: DistanceMetric::Euclidean,
            epsilon: C::K(e),
            epsilon_unit: 1,
            min_points,
        };
        cases.push(case!(Quick, format!("5d-at{at}-min{min_points}"), s.bounds(), ["several clusters"], D => consistent::<D, Point5<D>>(s)));
    }
    Check { functions: RUN.to_vec(), assumptions: ASSUME.to_vec(), cases }
}

pub fn c22() -> Check {
    use DistanceMetric::*;
    use Tier::*;
    let mut cases: Vec<Case> = vec![];
    let mut add = |tier: Tier, name: String, data: Vec<Vec<C>>, unit: i64, metric: DistanceMetric, samples: usize| {
        let data = leak(data);
        let mut c = case!(
            tier,
            format!("{name}-k{samples}-{metric:?}-1/{unit}"),
            describe(data, unit, &format!("{metric:?}, {samples} samples")),
            [],
            D => core_distance::<D, Point2<D>>(data, unit, metric, samples)
        );
        if data.len() > 1 && samples > 0 {
            c.covers.push("measured");
        }
        cases.push(c);
    };
    for (metric, unit) in [(Euclidean, 1), (SquaredEuclidean, 1), (SquaredEuclidean, 4)] {
        for k in [0, 1, 5] {
            add(Quick, "free0".into(), vec![], unit, metric, k);
            add(Quick, "free1".into(), free(1, 2, 3), unit, metric, k);
            add(Quick, "free2".into(), free(2, 2, 3), unit, metric, k);
        }
        for k in [1, 2, 3] {
            add(Quick, "free3".into(), free(3, 2, 2), unit, metric, k);
        }
        for k in [1, 2, 3] {
            add(Thorough, "free4-narrow".into(), free(4, 2, 1), unit, metric, k);
        }
        let base: &[&[i64]] = &[&[0, 5], &[7, 1], &[3, 3], &[6, 6], &[1, 0], &[4, 7], &[2, 6], &[5, 2], &[8, 4]];
        for (at, k) in [(0, 1), (4, 3), (9, 2), (5, 8), (2, 20)] {
            let mut data = fixed(base);
            data.insert(at, vec![C::In(0, 8), C::In(0, 7)]);
            add(if k == 8 && unit == 1 { Thorough } else { Quick }, format!("scattered10-at{at}"), data, unit, metric, k);
        }
        let base: &[&[i64]] = &[&[1, 1], &[1, 1], &[3, 0], &[3, 0], &[0, 3], &[1, 1], &[3, 3]];
        for (at, k) in [(0, 1), (3, 2), (7, 3)] {
            let mut data = fixed(base);
            data.insert(at, vec![C::In(0, 3), C::In(0, 3)]);
            add(Quick, format!("repeats8-at{at}"), data, unit, metric, k);
        }
    }
    Check {
        functions: vec![
            "math::clustering::hdbscan::core_distance::CoreDistance::{new,distance_at}",
            "math::neighbors::kdtree::KDTree::{new,search}",
        ],
        assumptions: ASSUME.to_vec(),
        cases,
    }
}

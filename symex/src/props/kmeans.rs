//! k-means: initialisation and iteration.
use super::density::is_division;
use super::neighbors::{describe, distance, fixed, free, leak, points, C};
use super::{Case, Check, Mk, Tier};
use crate::case;
use crate::engine::{abort, choose, cover, Abort, Outcome};
use crate::grid::Dom;
use auto_palette::verif::{kmeans_fit, kmeans_initialize, DistanceMetric, Init, Point2, Point3};
use rand::RngCore;

/// A random number generator that makes `gen_range(0..n)` return the chosen numbers, one after the
/// other, and then every number in turn.
#[derive(Clone)]
struct Script {
    n: u64,
    draws: Vec<u64>,
    at: u64,
}

impl Script {
    /// `draws` arbitrary draws from 0..n.
    fn arbitrary(n: usize, draws: usize) -> Script {
        let n = n.max(1);
        Script {
            n: n as u64,
            draws: (0..draws).map(|_| choose(n) as u64).collect(),
            at: 0,
        }
    }
}

impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        // The least number whose high part is the one of next_u64.
        ((self.next_u64() >> 32) as u32).saturating_add(1)
    }
    fn next_u64(&mut self) -> u64 {
        let i = match self.draws.get(self.at as usize) {
            Some(i) => *i,
            None => self.at % self.n,
        };
        self.at += 1;
        assert!(self.at < 10_000, "drawing random numbers does not end");
        (((i as u128) << 64).div_ceil(self.n as u128)) as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Setting {
    data: &'static [Vec<C>],
    unit: i64,
    k: usize,
    metric: DistanceMetric,
    init: Init,
    /// How many random numbers are arbitrary; the others follow in turn.
    draws: usize,
    /// Iterations and tolerance (in 1/64) of a fit.
    rounds: usize,
    tolerance: i64,
}

impl Setting {
    fn bounds(&self) -> String {
        describe(
            self.data,
            self.unit,
            &format!(
                "k = {}, {:?}, {:?}, {} arbitrary random numbers, at most {} rounds, tolerance {}/64",
                self.k, self.metric, self.init, self.draws, self.rounds, self.tolerance
            ),
        )
    }

    fn name(&self) -> String {
        format!(
            "k{}-{:?}-{:?}-t{}-{}/64",
            self.k, self.metric, self.init, self.rounds, self.tolerance
        )
    }
}

fn same_point<D: Dom, P: Mk<D>>(a: &P, b: &P) -> bool {
    (0..P::DIM).all(|i| a[i].identical(b[i]))
}

pub fn initial<D: Dom, P: Mk<D>>(s: Setting) -> Outcome {
    let data: Vec<P> = points(s.data, s.unit);
    let rng = Script::arbitrary(data.len(), s.draws);
    let got = kmeans_initialize(&data, s.k, s.metric, s.init, rng);
    let want = s.k.min(data.len());
    if got.len() != want {
        return Err(format!("{} centroids instead of {want}", got.len()));
    }
    let mut used = vec![false; data.len()];
    for c in &got {
        // The centroids are copies of data points, with the same terms in them.
        match (0..data.len()).find(|i| !used[*i] && same_point(&data[*i], c)) {
            Some(i) => used[i] = true,
            None => return Err("a centroid is no data point, or one that is used already".into()),
        }
    }
    if s.init == Init::KmeansPlusPlus && s.k < data.len() {
        let to_nearest = |p: &P, chosen: &[P]| {
            let mut best: Option<D> = None;
            for c in chosen {
                let d = distance(s.metric, p, c);
                best = Some(match best {
                    Some(b) if b <= d => b,
                    _ => d,
                });
            }
            best.unwrap()
        };
        for i in 1..got.len() {
            let d = to_nearest(&got[i], &got[..i]);
            for p in &data {
                let other = to_nearest(p, &got[..i]);
                if other > d && !other.near(d) {
                    return Err(format!("centroid {i} is not the furthest point"));
                }
            }
            cover("a further centroid");
        }
    }
    Ok("ok".into())
}

fn fit<D: Dom, P: Mk<D>>(s: &Setting, data: &[P], rng: Script) -> Vec<(P, usize)> {
    let tolerance = D::int(s.tolerance) / D::int(64);
    kmeans_fit(data, s.k, s.rounds, tolerance, s.metric, s.init, rng)
}

pub fn partition<D: Dom, P: Mk<D>>(s: Setting) -> Outcome {
    let data: Vec<P> = points(s.data, s.unit);
    let n = data.len();
    let rng = Script::arbitrary(n, s.draws);
    let got = fit(&s, &data, rng);
    let want = s.k.min(n);
    if got.len() != want {
        return Err(format!("{} clusters instead of {want}", got.len()));
    }
    let total: usize = got.iter().map(|c| c.1).sum();
    if want > 0 && total != n {
        return Err(format!("the clusters hold {total} of {n} points"));
    }
    if s.k >= n && got.iter().any(|c| c.1 != 1) {
        return Err("with k >= n a point is not a cluster of its own".into());
    }
    if want == 0 {
        return Ok("none".into());
    }
    if got.iter().any(|c| c.1 > 1) {
        cover("several points in a cluster");
    }
    let all: Vec<usize> = (0..n).collect();
    for exactly in [true, false] {
        if is_division(&data, &all, &got, exactly) {
            return Ok("ok".into());
        }
    }
    Err("the centroids are not the means of groups of the reported sizes".into())
}

type State<P> = Vec<(P, usize)>;

fn same_state<D: Dom, P: Mk<D>>(a: &State<P>, b: &State<P>, exactly: bool) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.1 == y.1
                && (0..P::DIM).all(|i| {
                    x.0[i].identical(y.0[i]) || (!exactly && x.0[i].near(y.0[i]))
                })
        })
}

/// One round: every way to assign each point to a nearest centroid.
fn round<D: Dom, P: Mk<D>>(metric: DistanceMetric, data: &[P], centroids: &[P]) -> Vec<State<P>> {
    // Sums, sizes and so on of the assignments so far, as lists of members.
    let mut partial: Vec<Vec<Vec<usize>>> = vec![vec![vec![]; centroids.len()]];
    for (index, p) in data.iter().enumerate() {
        let d: Vec<D> = centroids.iter().map(|c| distance(metric, p, c)).collect();
        let mut best = d[0];
        for x in &d[1..] {
            if *x < best {
                best = *x;
            }
        }
        let nearest: Vec<usize> = (0..d.len())
            .filter(|i| d[*i].identical(best) || d[*i].near(best))
            .collect();
        let mut next = vec![];
        for members in &partial {
            for c in &nearest {
                let mut m = members.clone();
                m[*c].push(index);
                next.push(m);
            }
        }
        if next.len() > 2048 {
            abort(Abort::Inconclusive("too many ties".into()));
        }
        partial = next;
    }
    partial
        .into_iter()
        .map(|members| {
            members
                .iter()
                .zip(centroids)
                .map(|(m, old)| {
                    if m.is_empty() {
                        return (*old, 0);
                    }
                    let v: Vec<D> = (0..P::DIM)
                        .map(|axis| {
                            let mut sum = D::int(0);
                            for i in m {
                                sum = sum + data[*i][axis];
                            }
                            sum / D::int(m.len() as i64)
                        })
                        .collect();
                    (P::mk(&v), m.len())
                })
                .collect()
        })
        .collect()
}

pub fn stops<D: Dom, P: Mk<D>>(s: Setting) -> Outcome {
    let data: Vec<P> = points(s.data, s.unit);
    let rng = Script::arbitrary(data.len(), s.draws);
    let tolerance = D::int(s.tolerance) / D::int(64);
    let start = kmeans_initialize(&data, s.k, s.metric, s.init, rng.clone());
    let got = fit(&s, &data, rng);
    let mut states: Vec<State<P>> = vec![start.into_iter().map(|c| (c, 0)).collect()];
    // The states in which an allowed run may end.
    let mut ends: Vec<State<P>> = vec![];
    for t in 1..=s.rounds {
        let mut next: Vec<State<P>> = vec![];
        for state in &states {
            let old: Vec<P> = state.iter().map(|c| c.0).collect();
            for new in round(s.metric, &data, &old) {
                if new.iter().any(|c| c.1 == 0) {
                    cover("a cluster loses its points");
                }
                let may_stop = t == s.rounds
                    || new.iter().zip(&old).all(|(c, o)| {
                        c.1 == 0 || {
                            let moved = distance(s.metric, o, &c.0);
                            moved < tolerance || D::tied(moved, tolerance)
                        }
                    });
                if may_stop && !ends.iter().any(|e| same_state(e, &new, true)) {
                    if t < s.rounds {
                        cover("an early stop");
                    }
                    if same_state(&got, &new, true) {
                        return Ok("ok".into());
                    }
                    ends.push(new.clone());
                }
                if !next.iter().any(|e| same_state(e, &new, true)) {
                    next.push(new);
                }
            }
        }
        if next.len() > 256 {
            abort(Abort::Inconclusive("too many states".into()));
        }
        states = next;
    }
    if ends.iter().any(|e| same_state(e, &got, false)) {
        return Ok("ok".into());
    }
    Err(format!(
        "the result (sizes {:?}) is none in which k-means may stop within {} rounds",
        got.iter().map(|c| c.1).collect::<Vec<_>>(),
        s.rounds
    ))
}

const METRICS: [DistanceMetric; 2] = [DistanceMetric::Euclidean, DistanceMetric::SquaredEuclidean];
const INITS: [Init; 2] = [Init::Random, Init::KmeansPlusPlus];

const SEVEN: &[&[i64]] = &[&[0, 5], &[7, 1], &[3, 3], &[6, 6], &[1, 0], &[4, 7], &[2, 6]];
const PAIRS: &[&[i64]] = &[&[0, 0], &[1, 0], &[6, 0], &[7, 1], &[0, 7]];
const REPEATS: &[&[i64]] = &[&[2, 2], &[2, 2], &[5, 1], &[5, 1], &[5, 1]];
const SAME: &[&[i64]] = &[&[3, 3], &[3, 3], &[3, 3], &[3, 3]];

fn with(base: &[&[i64]], extra: &[(usize, i64, i64)]) -> Vec<Vec<C>> {
    let mut data = fixed(base);
    for (at, x, y) in extra {
        let c = |hi: i64| if hi == 0 { C::K(2) } else { C::In(0, hi) };
        data.insert(*at, vec![c(*x), c(*y)]);
    }
    data
}

const ASSUME: &[&str] = &[
    "random numbers are arbitrary up to the stated number of draws, and then run through all values in turn; where several points or centroids are at the same distance any choice is accepted",
];

pub fn c19() -> Check {
    use Tier::*;
    let mut cases: Vec<Case> = vec![];
    for metric in METRICS {
        for init in INITS {
            for (tier, name, data, k, draws) in [
                (Quick, "none", vec![], 2, 1),
                (Quick, "free1", free(1, 2, 3), 1, 1),
                (Quick, "free2", free(2, 2, 3), 0, 1),
                (Quick, "free2", free(2, 2, 3), 1, 2),
                (Quick, "free2", free(2, 2, 3), 5, 2),
                (Quick, "free3", free(3, 2, 2), 1, 2),
                (Quick, "free3", free(3, 2, 2), 2, 4),
                (Quick, "free3", free(3, 2, 2), 3, 2),
                (Quick, "free4", free(4, 2, 1), 2, 3),
                (Quick, "free4", free(4, 2, 1), 3, 4),
                (Thorough, "free4", free(4, 2, 2), 3, 5),
                (Quick, "line4", vec![vec![C::In(0, 7), C::K(1)]; 4], 3, 4),
                (Quick, "seven", with(SEVEN, &[(3, 7, 7)]), 5, 2),
                (Quick, "seven-all-but-one", with(SEVEN, &[(0, 7, 0)]), 7, 2),
                (Quick, "repeats", with(REPEATS, &[(5, 7, 3)]), 5, 3),
                (Quick, "repeats", with(REPEATS, &[(0, 7, 3)]), 4, 3),
                (Quick, "same", with(SAME, &[]), 3, 4),
                (Quick, "same-but-one", with(SAME, &[(2, 7, 0)]), 4, 3),
                (Thorough, "seven", with(SEVEN, &[(3, 7, 7), (5, 7, 7)]), 6, 2),
            ] {
                let draws = if init == Init::KmeansPlusPlus { 1 } else { draws };
                let s = Setting { data: leak(data), unit: 1, k, metric, init, draws, rounds: 0, tolerance: 0 };
                let mut c = case!(tier, format!("{name}-{}", s.name()), s.bounds(), [], D => initial::<D, Point2<D>>(s));
                if init == Init::KmeansPlusPlus && k > 1 && k < s.data.len() {
                    c.covers.push("a further centroid");
                }
                cases.push(c);
            }
        }
    }
    let s = Setting {
        data: leak(free(3, 3, 1)),
        unit: 1,
        k: 2,
        metric: DistanceMetric::Euclidean,
        init: Init::KmeansPlusPlus,
        draws: 1,
        rounds: 0,
        tolerance: 0,
    };
    cases.push(case!(Quick, "3d-free3", s.bounds(), ["a further centroid"], D => initial::<D, Point3<D>>(s)));
    Check {
        functions: vec!["math::clustering::kmeans::init::Initializer::{initialize,random,kmeans_plus_plus}"],
        assumptions: ASSUME.to_vec(),
        cases,
    }
}

pub fn c20() -> Check {
    use Tier::*;
    let mut cases: Vec<Case> = vec![];
    for metric in METRICS {
        for init in INITS {
            for (tier, name, data, k, draws, rounds) in [
                (Quick, "none", vec![], 2, 1, 2),
                (Quick, "none", vec![], 0, 1, 2),
                (Quick, "free1", free(1, 2, 3), 1, 1, 1),
                (Quick, "free2", free(2, 2, 3), 0, 1, 2),
                (Quick, "free2", free(2, 2, 3), 2, 1, 2),
                (Quick, "free3", free(3, 2, 3), 5, 1, 2),
                (Quick, "free2", free(2, 2, 3), 1, 2, 2),
                (Quick, "free3", free(3, 2, 2), 1, 2, 2),
                (Quick, "free3", free(3, 2, 2), 2, 2, 1),
                (Quick, "line4", vec![vec![C::In(0, 3), C::K(1)]; 4], 2, 2, 2),
                (Thorough, "line4", vec![vec![C::In(0, 7), C::K(1)]; 4], 3, 3, 3),
                (Quick, "pairs", with(PAIRS, &[(2, 7, 7)]), 2, 2, 3),
                (Quick, "pairs", with(PAIRS, &[(0, 7, 3)]), 3, 2, 2),
                (Quick, "seven", with(SEVEN, &[(5, 7, 0)]), 3, 2, 4),
                (Quick, "repeats", with(REPEATS, &[(5, 7, 3)]), 3, 3, 2),
                (Thorough, "free3", free(3, 2, 2), 2, 2, 3),
                (Thorough, "seven", with(SEVEN, &[(5, 7, 7)]), 4, 2, 6),
            ] {
                let draws = if init == Init::KmeansPlusPlus { 1 } else { draws };
                let s = Setting { data: leak(data), unit: 1, k, metric, init, draws, rounds, tolerance: 1 };
                let mut c = case!(tier, format!("{name}-{}", s.name()), s.bounds(), [], D => partition::<D, Point2<D>>(s));
                if k > 0 && k < s.data.len() {
                    c.covers.push("several points in a cluster");
                }
                cases.push(c);
            }
        }
    }
    Check {
        functions: vec![
            "math::clustering::kmeans::algorithm::Kmeans::{fit,reassign,centroids,count_at}",
            "math::clustering::kmeans::cluster::Cluster",
            "math::clustering::kmeans::init::Initializer",
        ],
        assumptions: ASSUME.to_vec(),
        cases,
    }
}

pub fn c21() -> Check {
    use Tier::*;
    let mut cases: Vec<Case> = vec![];
    for metric in METRICS {
        for init in INITS {
            for (tier, name, data, k, draws, rounds, tolerance) in [
                (Quick, "free3", free(3, 2, 2), 2, 2, 2, 1),
                (Quick, "line4", vec![vec![C::In(0, 3), C::K(1)]; 4], 2, 2, 3, 1),
                (Quick, "line4", vec![vec![C::In(0, 3), C::K(1)]; 4], 2, 2, 5, 40),
                (Quick, "pairs", with(PAIRS, &[(2, 7, 7)]), 2, 2, 4, 1),
                (Quick, "pairs", with(PAIRS, &[(0, 7, 3)]), 3, 2, 3, 64),
                (Quick, "seven", with(SEVEN, &[(5, 7, 0)]), 3, 2, 4, 1),
                (Quick, "seven", with(SEVEN, &[(5, 7, 0)]), 3, 2, 8, 96),
                (Quick, "repeats", with(REPEATS, &[(5, 7, 3)]), 3, 3, 3, 1),
                (Quick, "repeats", with(REPEATS, &[(1, 7, 0)]), 4, 3, 3, 32),
                (Thorough, "free3", free(3, 2, 2), 2, 2, 6, 1),
                (Thorough, "seven", with(SEVEN, &[(5, 7, 7)]), 4, 2, 6, 1),
                (Thorough, "line4", vec![vec![C::In(0, 7), C::K(1)]; 4], 3, 3, 3, 20),
            ] {
                let draws = if init == Init::KmeansPlusPlus { 1 } else { draws };
                let s = Setting { data: leak(data), unit: 1, k, metric, init, draws, rounds, tolerance };
                let mut c = case!(tier, format!("{name}-{}", s.name()), s.bounds(), [], D => stops::<D, Point2<D>>(s));
                if name == "repeats" && k == 3 && init == Init::Random {
                    c.covers.push("a cluster loses its points");
                }
                cases.push(c);
            }
        }
    }
    Check {
        functions: vec![
            "math::clustering::kmeans::algorithm::Kmeans::{fit,reassign}",
            "math::clustering::kmeans::cluster::Cluster",
            "math::neighbors::kdtree::KDTree::{new,search_nearest}",
        ],
        assumptions: ASSUME.to_vec(),
        cases,
    }
}

//! Distances and point arithmetic.
use super::{Check, Mk, Tier};
use crate::case;
use crate::engine::{choose, cover, Abort, Outcome};
use crate::grid::Dom;
use auto_palette::verif::{DistanceMetric, Point2, Point3, Point5};
use num_traits::real::Real;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Numbers are integers in lo..=hi, times num/den.
#[derive(Clone, Copy, Debug)]
pub struct Scale {
    lo: i64,
    hi: i64,
    num: i64,
    den: i64,
}

const fn scale(lo: i64, hi: i64, num: i64, den: i64) -> Scale {
    Scale { lo, hi, num, den }
}

impl Scale {
    fn number<D: Dom>(&self) -> D {
        let x = D::input(self.lo, self.hi);
        let x = if self.num == 1 { x } else { x * D::int(self.num) };
        if self.den == 1 {
            x
        } else {
            x / D::int(self.den)
        }
    }

    fn point<D: Dom, P: Mk<D>>(&self) -> (P, Vec<D>) {
        let v: Vec<D> = (0..P::DIM).map(|_| self.number()).collect();
        (P::mk(&v), v)
    }
}

/// Equal in every component. Identical terms need no decision.
fn same<D: Dom, P: Mk<D>>(got: &P, want: &[D]) -> bool {
    (0..P::DIM).all(|i| got[i].identical(want[i]) || got[i].near(want[i]))
}

fn equal<D: Dom>(a: D, b: D) -> bool {
    a.identical(b) || a.near(b)
}

fn sum_of_squares<D: Dom>(a: &[D], b: &[D]) -> D {
    a.iter().zip(b).fold(D::int(0), |s, (x, y)| s + (*x - *y) * (*x - *y))
}

pub fn definition<D: Dom, P: Mk<D>>(s: Scale) -> Outcome {
    let (p, a) = s.point::<D, P>();
    let (q, b) = s.point::<D, P>();
    let want = sum_of_squares(&a, &b);
    let squared = DistanceMetric::SquaredEuclidean.measure(&p, &q);
    if !equal(squared, want) {
        return Err("the squared distance is not the sum of the squared differences".into());
    }
    let euclidean = DistanceMetric::Euclidean.measure(&p, &q);
    if !equal(euclidean, Real::sqrt(want)) {
        return Err("the Euclidean distance is not the root of the squared one".into());
    }
    for (metric, d) in [
        (DistanceMetric::SquaredEuclidean, squared),
        (DistanceMetric::Euclidean, euclidean),
    ] {
        if !equal(metric.measure(&q, &p), d) {
            return Err(format!("{metric:?} is not symmetric"));
        }
    }
    Ok("ok".into())
}

pub fn zero<D: Dom, P: Mk<D>>(s: Scale, metric: DistanceMetric) -> Outcome {
    let (p, a) = s.point::<D, P>();
    let (q, b) = s.point::<D, P>();
    let d = metric.measure(&p, &q);
    if d < D::int(0) {
        return Err("a negative distance".into());
    }
    let is_zero = d == D::int(0);
    let equal = a.iter().zip(&b).all(|(x, y)| x == y);
    if is_zero != equal {
        return Err(format!("distance is zero: {is_zero}, points are equal: {equal}"));
    }
    cover(if equal { "equal" } else { "different" });
    Ok("ok".into())
}

pub fn translation<D: Dom, P: Mk<D>>(s: Scale, metric: DistanceMetric) -> Outcome {
    let (p, a) = s.point::<D, P>();
    let (q, b) = s.point::<D, P>();
    let (_, t) = s.point::<D, P>();
    let moved = |v: &[D]| P::mk(&v.iter().zip(&t).map(|(x, y)| *x + *y).collect::<Vec<D>>());
    if !equal(metric.measure(&p, &q), metric.measure(&moved(&a), &moved(&b))) {
        return Err("moving both points alike changes their distance".into());
    }
    Ok("ok".into())
}

pub fn ordering<D: Dom, P: Mk<D>>(s: Scale) -> Outcome {
    let (p, _) = s.point::<D, P>();
    let (q, _) = s.point::<D, P>();
    let (r, _) = s.point::<D, P>();
    let squared = DistanceMetric::SquaredEuclidean;
    let euclidean = DistanceMetric::Euclidean;
    let a = squared.measure(&p, &q) < squared.measure(&p, &r);
    let b = euclidean.measure(&p, &q) < euclidean.measure(&p, &r);
    if a != b {
        return Err("the metrics order two pairs of points differently".into());
    }
    cover(if a { "nearer" } else { "not nearer" });
    Ok("ok".into())
}

pub fn arithmetic<D: Dom, P: Mk<D> + Ops<D>>(s: Scale) -> Outcome {
    let (p, a) = s.point::<D, P>();
    let (q, b) = s.point::<D, P>();
    let c: D = s.number();
    let zip = |f: fn(D, D) -> D| -> Vec<D> { a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect() };
    let check = |name: &str, got: &P, want: &[D]| -> Result<(), String> {
        if !same(got, want) {
            return Err(format!("{name} is not component-wise"));
        }
        // The ways to read a point agree.
        let v = got.to_vec();
        if v.len() != P::DIM || !same(got, &v) {
            return Err(format!("to_vec after {name} differs from the components"));
        }
        Ok(())
    };
    check("construction", &p, &a)?;
    if p.dim() != P::DIM {
        return Err("dim is not the dimension".into());
    }
    check("addition", &(p + q), &zip(|x, y| x + y))?;
    check("subtraction", &(p - q), &zip(|x, y| x - y))?;
    let mut r = p;
    r += q;
    check("assigning addition", &r, &zip(|x, y| x + y))?;
    let mut r = p;
    r -= q;
    check("assigning subtraction", &r, &zip(|x, y| x - y))?;
    let scaled: Vec<D> = a.iter().map(|x| *x * c).collect();
    check("multiplication", &p.times(c), &scaled)?;
    let mut r = p;
    r *= c;
    check("assigning multiplication", &r, &scaled)?;
    // The operands are left alone.
    check("use", &p, &a)?;
    check("use", &q, &b)?;
    Ok("ok".into())
}

/// Operations whose result type a generic `Point` leaves open.
pub trait Ops<D> {
    fn times(self, c: D) -> Self;
    fn by(self, c: D) -> Self;
}

macro_rules! ops {
    ($($p:ident),*) => {$(
        impl<D: Dom> Ops<D> for $p<D> {
            fn times(self, c: D) -> Self {
                self * c
            }
            fn by(self, c: D) -> Self {
                self / c
            }
        }
    )*};
}
ops!(Point2, Point3, Point5);

pub fn division<D: Dom, P: Mk<D> + Ops<D>>(s: Scale) -> Outcome {
    let (p, a) = s.point::<D, P>();
    // Exact in binary floating point.
    let (num, den) = [(1, 1), (-1, 1), (2, 1), (-4, 1), (256, 1), (1, 2), (-1, 8), (1, 1024)][choose(8)];
    let c = D::int(num) / D::int(den);
    let want: Vec<D> = a.iter().map(|x| *x / c).collect();
    if !same(&p.by(c), &want) {
        return Err(format!("division by {num}/{den} is not component-wise"));
    }
    let mut r = p;
    r /= c;
    if !same(&r, &want) {
        return Err(format!("assigning division by {num}/{den} is not component-wise"));
    }
    Ok("ok".into())
}

/// Whether the operation panics.
fn refused(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(e) => match e.downcast::<Abort>() {
            // What the symbolic number refuses is not refused by the library.
            Ok(a) if matches!(&*a, Abort::Unsupported(w) if w.starts_with("division")) => false,
            Ok(a) => resume_unwind(a),
            Err(_) => true,
        },
    }
}

pub fn refusals<D: Dom, P: Mk<D> + Ops<D>>(s: Scale) -> Outcome {
    let (p, a) = s.point::<D, P>();
    let zero = if choose(2) == 0 { D::zero() } else { D::zero() - D::zero() };
    if !refused(|| {
        let _ = p.by(zero);
    }) {
        return Err("division by zero is not refused".into());
    }
    let mut r = p;
    if !refused(|| r /= zero) {
        return Err("assigning division by zero is not refused".into());
    }
    for i in [P::DIM, P::DIM + 1, 7, 8, 255, 256, usize::MAX] {
        if i >= P::DIM
            && !refused(|| {
                let _ = p[i];
            })
        {
            return Err(format!("index {i} of {} is not refused", P::DIM));
        }
    }
    let origin = P::zero();
    if (0..P::DIM).any(|i| !equal(origin[i], D::zero())) || !origin.is_zero() {
        return Err("the zero point is not zero".into());
    }
    let is_zero = p.is_zero();
    if is_zero != a.iter().all(|x| *x == D::zero()) {
        return Err(format!("is_zero is {is_zero} for another point"));
    }
    cover(if is_zero { "zero" } else { "not zero" });
    let mut r = p;
    r.set_zero();
    if (0..P::DIM).any(|i| !equal(r[i], D::zero())) {
        return Err("set_zero leaves something".into());
    }
    Ok("ok".into())
}

macro_rules! dims {
    ($cases:ident, $tier:expr, $name:expr, $s:expr, [$($cover:expr),*], $f:ident($($arg:expr),*)) => {{
        let s: Scale = $s;
        let name = $name;
        let bounds = format!("coordinates {}..={} times {}/{}", s.lo, s.hi, s.num, s.den);
        $cases.push(case!($tier, format!("{name}-2d-{}..{}*{}/{}", s.lo, s.hi, s.num, s.den), bounds, [$($cover),*], D => $f::<D, Point2<D>>($($arg),*)));
        $cases.push(case!($tier, format!("{name}-3d-{}..{}*{}/{}", s.lo, s.hi, s.num, s.den), bounds, [$($cover),*], D => $f::<D, Point3<D>>($($arg),*)));
        $cases.push(case!($tier, format!("{name}-5d-{}..{}*{}/{}", s.lo, s.hi, s.num, s.den), bounds, [$($cover),*], D => $f::<D, Point5<D>>($($arg),*)));
    }};
}

const WIDE: Scale = scale(-1024, 1023, 1, 1);
const FINE: Scale = scale(-32, 31, 1, 1024);
const COARSE: Scale = scale(-32, 31, 64, 1);

pub fn c12() -> Check {
    use Tier::*;
    let mut cases = vec![];
    for s in [WIDE, FINE, COARSE] {
        dims!(cases, Quick, "definition", s, [], definition(s));
        for m in [DistanceMetric::Euclidean, DistanceMetric::SquaredEuclidean] {
            dims!(cases, Quick, format!("translation-{m:?}"), s, [], translation(s, m));
        }
    }
    for (tier, s) in [
        (Quick, scale(-2, 1, 1, 1)),
        (Quick, scale(-1, 2, 1, 1024)),
        (Quick, scale(0, 3, 64, 1)),
        (Thorough, scale(-8, 7, 1, 1)),
        (Thorough, scale(-8, 7, 1, 1024)),
    ] {
        for m in [DistanceMetric::Euclidean, DistanceMetric::SquaredEuclidean] {
            dims!(cases, tier, format!("zero-{m:?}"), s, ["equal", "different"], zero(s, m));
        }
        dims!(cases, tier, "ordering", s, ["nearer", "not nearer"], ordering(s));
    }
    Check {
        functions: vec!["math::distance::metric::DistanceMetric::measure", "math::point::Point{2,3,5}::{sub,to_vec}"],
        assumptions: vec!["coordinates are scaled integers on which f32 and f64 lose nothing that a comparison could see; underflow and overflow of the squares are outside"],
        cases,
    }
}

pub fn c13() -> Check {
    use Tier::*;
    let mut cases = vec![];
    for s in [WIDE, FINE, COARSE] {
        dims!(cases, Quick, "arithmetic", s, [], arithmetic(s));
        dims!(cases, Quick, "division", s, [], division(s));
        dims!(cases, Quick, "refusals", s, ["zero", "not zero"], refusals(s));
    }
    Check {
        functions: vec!["math::point::Point{2,3,5}: Add, Sub, Mul, Div, their assigning forms, Index, Zero, Point::{dim,to_vec}"],
        assumptions: vec!["coordinates are scaled integers; divisors are eight constants and zero"],
        cases,
    }
}

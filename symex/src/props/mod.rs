//! The harnesses, one module per part of the library.
use crate::engine::Outcome;
use crate::grid::Dom;
use auto_palette::verif::{Point, Point2, Point3, Point5};

pub mod colors;
pub mod density;
pub mod graph;
pub mod image;
pub mod kmeans;
pub mod neighbors;
pub mod points;

/// Points that a harness can build from coordinates.
pub trait Mk<D: Dom>: Point<D> + PartialEq + 'static {
    const DIM: usize;
    fn mk(v: &[D]) -> Self;
}

impl<D: Dom> Mk<D> for Point2<D> {
    const DIM: usize = 2;
    fn mk(v: &[D]) -> Self {
        Point2(v[0], v[1])
    }
}

impl<D: Dom> Mk<D> for Point3<D> {
    const DIM: usize = 3;
    fn mk(v: &[D]) -> Self {
        Point3(v[0], v[1], v[2])
    }
}

impl<D: Dom> Mk<D> for Point5<D> {
    const DIM: usize = 5;
    fn mk(v: &[D]) -> Self {
        Point5(v[0], v[1], v[2], v[3], v[4])
    }
}

/// The same value on every grid domain.
pub fn mk<D: Dom, P: Mk<D>>(v: &[i64]) -> P {
    P::mk(&v.iter().map(|x| D::int(*x)).collect::<Vec<D>>())
}

pub type Run = Box<dyn Fn() -> Outcome + Sync + Send>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Domain {
    Grid,
    Real,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One bounded exploration of a property.
pub struct Case {
    pub name: String,
    pub tier: Tier,
    pub domain: Domain,
    pub symbolic: Run,
    pub native64: Run,
    pub native32: Run,
    /// Situations that at least one explored path must reach.
    pub covers: Vec<&'static str>,
    pub bounds: String,
    pub solver: &'static str,
    pub conform: bool,
    /// Seed of the hash maps.
    pub seed: u64,
}

/// `case!(tier, name, bounds, [covers], D => harness::<D>(args))`
#[macro_export]
macro_rules! case {
    ($tier:expr, $name:expr, $bounds:expr, [$($cover:expr),*], $d:ident => $body:expr) => {
        $crate::props::Case {
            name: $name.to_string(),
            tier: $tier,
            domain: $crate::props::Domain::Grid,
            symbolic: Box::new(move || { type $d = $crate::grid::GridF; $body }),
            native64: Box::new(move || { type $d = f64; $body }),
            native32: Box::new(move || { type $d = f32; $body }),
            covers: vec![$($cover),*],
            bounds: $bounds.to_string(),
            solver: "cvc5",
            conform: true,
            seed: 1,
        }
    };
}

/// As `case!`, over symbolic reals for the machine type f64 or f32.
#[macro_export]
macro_rules! real_case {
    ($tier:expr, $name:expr, $bounds:expr, [$($cover:expr),*], $d:ident => $body:expr) => {{
        [
            ("f64", $crate::real_case!(@one f64, false, $tier, $name, $bounds, [$($cover),*], $d => $body)),
            ("f32", $crate::real_case!(@one f32, true, $tier, $name, $bounds, [$($cover),*], $d => $body)),
        ]
        .into_iter()
        .map(|(t, mut c)| {
            c.name = format!("{}-{t}", c.name);
            c
        })
        .collect::<Vec<_>>()
    }};
    (@one $t:ty, $single:expr, $tier:expr, $name:expr, $bounds:expr, [$($cover:expr),*], $d:ident => $body:expr) => {
        $crate::props::Case {
            name: $name.to_string(),
            tier: $tier,
            domain: $crate::props::Domain::Real,
            symbolic: Box::new(move || { type $d = $crate::real::RealF<$single>; $body }),
            native64: Box::new(move || { type $d = $t; $body }),
            native32: Box::new(move || { type $d = $t; $body }),
            covers: vec![$($cover),*],
            bounds: $bounds.to_string(),
            solver: "cvc5",
            conform: true,
            seed: 1,
        }
    };
}

/// What a check consists of: the harnesses and the functions of the library they execute.
pub struct Check {
    pub functions: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
    pub cases: Vec<Case>,
}

impl Check {
    /// How many cases run at a time. (Those of images gain less by more workers, which learn the
    /// same facts.)
    pub fn lanes(&self) -> usize {
        if self.functions.contains(&"image::ImageData::extract") {
            4
        } else {
            1
        }
    }
}

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => image::c01(),
        "C02" => image::c02(),
        "C03" => colors::c03(),
        "C04" => image::c04(),
        "C05" => image::c05(),
        "C06" => colors::c06(),
        "C08" => colors::c08(),
        "C09" => neighbors::c09(),
        "C10" => neighbors::c10(),
        "C11" => neighbors::c11(),
        "C12" => points::c12(),
        "C13" => points::c13(),
        "C14" => density::c14(),
        "C15" => density::c15(),
        "C22" => density::c22(),
        "C19" => kmeans::c19(),
        "C20" => kmeans::c20(),
        "C21" => kmeans::c21(),
        "C16" => graph::c16(),
        "C17" => graph::c17(),
        _ => return None,
    })
}

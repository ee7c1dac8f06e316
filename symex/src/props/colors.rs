//! Conversions between RGB, XYZ and L*a*b*.
use super::{Check, Tier};
use crate::engine::{cover, Outcome};
use crate::real::RDom;
use crate::real_case;
use auto_palette::verif::{Lab, Rgba, D65, XYZ};

/// The published definitions, apart from the code under test.
pub mod spec {
    use super::*;

    /// sRGB to XYZ and back (CSS Color 4).
    const TO_XYZ: [[f64; 3]; 3] = [
        [0.41239079926595934, 0.357584339383878, 0.1804807884018343],
        [0.21263900587151027, 0.715168678767756, 0.07219231536073371],
        [0.01933081871559182, 0.11919477979462598, 0.9505321522496607],
    ];
    const FROM_XYZ: [[f64; 3]; 3] = [
        [3.2409699419045226, -1.537383177570094, -0.4986107602930034],
        [-0.9692436362808796, 1.8759675015077202, 0.04155505740717559],
        [0.05563007969699366, -0.20397695888897652, 1.0569715142428786],
    ];
    /// D65 from its chromaticity (0.3127, 0.3290).
    const WHITE: [f64; 3] = [0.3127 / 0.3290, 1.0, (1.0 - 0.3127 - 0.3290) / 0.3290];
    pub const XYZ_MAX: [f64; 3] = [0.950456, 1.0, 1.088644];

    fn c<D: RDom>(x: f64) -> D {
        D::from_f64(x)
    }

    fn dot<D: RDom>(m: &[f64; 3], v: &[D; 3]) -> D {
        c::<D>(m[0]) * v[0] + c::<D>(m[1]) * v[1] + c::<D>(m[2]) * v[2]
    }

    /// Of an 8-bit value.
    pub fn decode<D: RDom>(byte: D) -> D {
        let v = byte / c(255.0);
        if v <= c(0.04045) {
            v / c(12.92)
        } else {
            ((v + c(0.055)) / c(1.055)).powf(c(2.4))
        }
    }

    pub fn encode<D: RDom>(v: D) -> D {
        if v <= c(0.0031308) {
            v * c(12.92)
        } else {
            c::<D>(1.055) * v.powf(c(1.0 / 2.4)) - c(0.055)
        }
    }

    pub fn clamped<D: RDom>(v: D, hi: f64) -> D {
        between(v, 0.0, hi)
    }

    pub fn between<D: RDom>(v: D, lo: f64, hi: f64) -> D {
        if v < c(lo) {
            c(lo)
        } else if v > c(hi) {
            c(hi)
        } else {
            v
        }
    }

    pub fn xyz<D: RDom>(rgb: &[D; 3]) -> [D; 3] {
        let linear = [decode(rgb[0]), decode(rgb[1]), decode(rgb[2])];
        std::array::from_fn(|i| clamped(dot(&TO_XYZ[i], &linear), XYZ_MAX[i]))
    }

    pub fn lab<D: RDom>(xyz: &[D; 3]) -> [D; 3] {
        let f: [D; 3] = std::array::from_fn(|i| {
            let t = xyz[i] / c(WHITE[i]);
            if t > c(216.0 / 24389.0) {
                t.cbrt()
            } else {
                (c::<D>(24389.0 / 27.0) * t + c(16.0)) / c(116.0)
            }
        });
        [
            c::<D>(116.0) * f[1] - c(16.0),
            c::<D>(500.0) * (f[0] - f[1]),
            c::<D>(200.0) * (f[1] - f[2]),
        ]
    }

    pub fn xyz_of_lab<D: RDom>(lab: &[D; 3]) -> [D; 3] {
        let fy = (lab[0] + c(16.0)) / c(116.0);
        let f = [fy + lab[1] / c(500.0), fy, fy - lab[2] / c(200.0)];
        std::array::from_fn(|i| {
            let t = if f[i] > c(6.0 / 29.0) {
                f[i].powi(3)
            } else {
                (c::<D>(116.0) * f[i] - c(16.0)) / c(24389.0 / 27.0)
            };
            clamped(t * c(WHITE[i]), XYZ_MAX[i])
        })
    }

    /// An sRGB channel, in 0..=255 before rounding.
    pub fn channel<D: RDom>(i: usize, xyz: &[D; 3]) -> D {
        clamped(encode(dot(&FROM_XYZ[i], xyz)) * c(255.0), 255.0)
    }
}

/// Which colours a case is about.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Family {
    /// Any red, green and blue, with this alpha.
    Any(u8),
    /// Any alpha too.
    AnyAlpha,
    /// Red, green and blue alike.
    Grey,
    /// Green and blue from the corners of the cube, red any.
    Edge(usize, u8, u8),
    Fixed(u8, u8, u8),
}

impl Family {
    fn colour<D: RDom>(self) -> [u8; 4] {
        D::wide_tags();
        match self {
            Family::Any(a) => [D::byte(61), D::byte(71), D::byte(83), a],
            Family::AnyAlpha => [D::byte(61), D::byte(71), D::byte(83), D::byte(97)],
            Family::Grey => {
                let v = D::byte(61);
                [v, v, v, 255]
            }
            Family::Edge(i, x, y) => {
                let mut c = [x, y, y, 255];
                if i == 2 {
                    c[1] = x;
                }
                if i > 0 {
                    c[0] = x;
                    c[1] = y;
                }
                c[i] = D::byte(61);
                if i == 1 {
                    c[2] = y;
                }
                c
            }
            Family::Fixed(r, g, b) => [r, g, b, 255],
        }
    }
}

fn number<D: RDom>(byte: u8) -> D {
    D::from_u8(byte)
}

fn lab_of<D: RDom>(c: &[u8; 4]) -> (XYZ<D, D65>, Lab<D>) {
    let xyz: XYZ<D, D65> = XYZ::from(&Rgba::new(c[0], c[1], c[2], c[3]));
    let lab = Lab::from(&xyz);
    (xyz, lab)
}

pub fn round_trip<D: RDom>(family: Family) -> Outcome {
    let c = family.colour::<D>();
    if matches!(family, Family::Grey) {
        // Paths of narrow ranges have narrow errors.
        let _ = [24.5, 64.5, 128.5].iter().find(|t| number::<D>(c[0]) < D::from_f64(**t));
    }
    let (_, lab) = lab_of::<D>(&c);
    let xyz: XYZ<D> = XYZ::from(&lab);
    let out = Rgba::from(&xyz);
    for (name, got, want) in [("red", out.r, c[0]), ("green", out.g, c[1]), ("blue", out.b, c[2])] {
        if !D::near(number::<D>(got), number::<D>(want), 0.25) {
            return Err(format!("{name} is not the same after the conversion to Lab and back"));
        }
    }
    if out.a != 255 {
        return Err("alpha does not come back as 255".into());
    }
    cover("came back");
    Ok("ok".into())
}

/// The alpha value has no influence.
pub fn alpha<D: RDom>(a: u8, b: u8) -> Outcome {
    let mut c = Family::Any(a).colour::<D>();
    let first: XYZ<D, D65> = XYZ::from(&Rgba::new(c[0], c[1], c[2], c[3]));
    c[3] = b;
    let second: XYZ<D, D65> = XYZ::from(&Rgba::new(c[0], c[1], c[2], c[3]));
    // (What follows is computed from these alone.)
    for (x, y) in [(first.x, second.x), (first.y, second.y), (first.z, second.z)] {
        if !D::near(x, y, xyz_tolerance::<D>()) {
            return Err(format!("the conversion depends on alpha ({a} or {b})"));
        }
    }
    cover("alike");
    Ok("ok".into())
}

fn xyz_tolerance<D: RDom>() -> f64 {
    if D::SINGLE {
        4e-5
    } else {
        1e-5
    }
}
fn lab_tolerance<D: RDom>() -> f64 {
    if D::SINGLE {
        0.02
    } else {
        0.005
    }
}

/// The XYZ value of a colour.
pub fn to_xyz<D: RDom>(family: Family) -> Outcome {
    let c = family.colour::<D>();
    let xyz: XYZ<D, D65> = XYZ::from(&Rgba::new(c[0], c[1], c[2], c[3]));
    let rgb = [number::<D>(c[0]), number(c[1]), number(c[2])];
    let got = [xyz.x, xyz.y, xyz.z];
    for (i, want) in spec::xyz(&rgb).into_iter().enumerate() {
        if !D::near(got[i], want, xyz_tolerance::<D>()) {
            return Err(format!("{} is not the sRGB transform", ["x", "y", "z"][i]));
        }
    }
    cover("defined");
    Ok("ok".into())
}

/// The L*a*b* value of any XYZ value.
pub fn to_lab<D: RDom>() -> Outcome {
    let v: [D; 3] = std::array::from_fn(|i| D::input(0.0, spec::XYZ_MAX[i]));
    let xyz: XYZ<D, D65> = XYZ::new(v[0], v[1], v[2]);
    let lab = Lab::from(&xyz);
    let out = [lab.l, lab.a, lab.b];
    let hi = [100.0, 127.0, 127.0];
    let lo = [0.0, -128.0, -128.0];
    for (i, want) in spec::lab(&v).into_iter().enumerate() {
        let want = spec::between(want, lo[i], hi[i]);
        if !D::near(out[i], want, lab_tolerance::<D>()) {
            return Err(format!("{} is not the CIE transform", ["l", "a", "b"][i]));
        }
    }
    cover("defined");
    Ok("ok".into())
}

/// Greys, black and white.
pub fn neutral<D: RDom>(family: Family) -> Outcome {
    let (_, lab) = lab_of::<D>(&family.colour::<D>());
    let zero = D::zero();
    if !D::near(lab.a, zero, 0.03) || !D::near(lab.b, zero, 0.03) {
        return Err("a grey has a hue".into());
    }
    match family {
        Family::Fixed(0, 0, 0) if !D::near(lab.l, zero, 1e-4) => return Err("black is not L* 0".into()),
        Family::Fixed(255, 255, 255) if !D::near(lab.l, D::from_f64(100.0), 1e-3) => {
            return Err("white is not L* 100".into());
        }
        _ => {}
    }
    cover("neutral");
    Ok("ok".into())
}

/// L*a*b* to XYZ, for l, a and b in these ranges.
pub fn inverse_lab<D: RDom>(l: (f64, f64), a: (f64, f64), b: (f64, f64)) -> Outcome {
    let v = [D::input(l.0, l.1), D::input(a.0, a.1), D::input(b.0, b.1)];
    let lab: Lab<D> = Lab::new(v[0], v[1], v[2]);
    let xyz: XYZ<D> = XYZ::from(&lab);
    let got = [xyz.x, xyz.y, xyz.z];
    for (i, want) in spec::xyz_of_lab(&v).into_iter().enumerate() {
        if !D::near(got[i], want, xyz_tolerance::<D>()) {
            return Err(format!("{} is not the inverse CIE transform", ["x", "y", "z"][i]));
        }
    }
    cover("inverse");
    Ok("ok".into())
}

/// XYZ to RGB: this channel, for x, y and z in these shares of their ranges.
pub fn encoded<D: RDom>(channel: usize, ranges: [(f64, f64); 3]) -> Outcome {
    D::wide_tags();
    let v: [D; 3] = std::array::from_fn(|i| {
        let r = ranges[i];
        D::input(r.0 * spec::XYZ_MAX[i], r.1 * spec::XYZ_MAX[i])
    });
    let xyz: XYZ<D> = XYZ::new(v[0], v[1], v[2]);
    let out = Rgba::from(&xyz);
    if out.a != 255 {
        return Err("alpha is not 255".into());
    }
    let k = number::<D>([out.r, out.g, out.b][channel]);
    let want = spec::channel(channel, &v);
    if !D::near(k, want, 0.53) {
        return Err(format!("{} is not the rounded sRGB value", ["red", "green", "blue"][channel]));
    }
    if want.fixed(0.0) {
        cover("low");
    } else if want.fixed(255.0) {
        cover("high");
    } else {
        cover("between");
    }
    Ok("ok".into())
}

const FORWARD: [&str; 6] = [
    "color::rgba::Rgba::new",
    "color::rgba::Rgba::r/g/b",
    "color::xyz::XYZ::from<&Rgba>",
    "color::xyz::XYZ::new",
    "color::lab::Lab::from<&XYZ>",
    "color::lab::Lab::new",
];
const BACKWARD: [&str; 4] = [
    "color::xyz::XYZ::from<&Lab>",
    "color::xyz::XYZ::new",
    "color::rgba::Rgba::from<&XYZ>",
    "color::rgba::Rgba::normalize_value",
];
const ASSUMPTIONS: [&str; 3] = [
    "powf, cbrt and powi of the machine type are within 2 units in the last place of the real function",
    "the code treats a byte only as a number (it does not compare bytes); colours of equal channels and constant channels are cases of their own",
    "a number less than 1e-4 below zero by its error bound alone is not negative when a root is taken of it",
];

pub fn c03() -> Check {
    let mut cases = vec![];
    for (a, b) in [(0, 255), (1, 254), (128, 255)] {
        cases.extend(real_case!(Tier::Quick, format!("alpha-{a}-or-{b}"), "every red, green and blue", ["alike"], D => alpha::<D>(a, b)));
    }
    for a in [255, 0] {
        let f = Family::Any(a);
        cases.extend(real_case!(Tier::Thorough, format!("any-alpha{a}"), "every red, green and blue", ["came back"], D => round_trip::<D>(f)));
    }
    cases.extend(real_case!(Tier::Quick, "grey", "every grey", ["came back"], D => round_trip::<D>(Family::Grey)));
    cases.extend(real_case!(Tier::Quick, "any-alpha", "every red, green, blue and alpha", ["came back"], D => round_trip::<D>(Family::AnyAlpha)));
    Check { functions: [&FORWARD[..], &BACKWARD[..]].concat(), assumptions: ASSUMPTIONS.to_vec(), cases }
}

pub fn c06() -> Check {
    let mut cases = vec![];
    for f in [Family::Any(255), Family::Grey] {
        cases.extend(real_case!(Tier::Quick, format!("rgb-to-xyz-{f:?}"), "every colour of the family", ["defined"], D => to_xyz::<D>(f)));
    }
    cases.extend(real_case!(Tier::Quick, "xyz-to-lab", "every XYZ value in range", ["defined"], D => to_lab::<D>()));
    for f in [Family::Grey, Family::Fixed(0, 0, 0), Family::Fixed(255, 255, 255)] {
        cases.extend(real_case!(Tier::Quick, format!("neutral-{f:?}"), "every colour of the family", ["neutral"], D => neutral::<D>(f)));
    }
    Check { functions: FORWARD.to_vec(), assumptions: ASSUMPTIONS.to_vec(), cases }
}

pub fn c08() -> Check {
    let mut cases = vec![];
    cases.extend(real_case!(Tier::Quick, "lab-to-xyz", "every L*a*b* colour in range", ["inverse"],
        D => inverse_lab::<D>((0.0, 100.0), (-128.0, 127.0), (-128.0, 127.0))));
    for (i, name) in ["red", "green", "blue"].into_iter().enumerate() {
        cases.extend(real_case!(Tier::Quick, format!("xyz-to-{name}"), "every XYZ colour in range", ["between", "low", "high"],
            D => encoded::<D>(i, [(0.0, 1.0); 3])));
    }
    Check { functions: BACKWARD.to_vec(), assumptions: ASSUMPTIONS.to_vec(), cases }
}

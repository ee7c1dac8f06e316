//! What is asserted, over every value of the inputs.
use crate::harnesses;
use crate::input::Input;
use auto_palette::verif::*;
use auto_palette::swatch::Swatch;
use std::cmp::Ordering;

harnesses! {
    lab_range_f64;
    lab_range_f32;
    xyz_range_f64;
    xyz_range_f32;

    swatch_order_f64;
    swatch_order_f32;
    swatch_transitive_f64;
    swatch_transitive_f32;
    edge_order_f64;
    edge_order_f32;
    edge_transitive_f64;
    edge_transitive_f32;

    clamp_u8;
    clamp_u16;
    clamp_u32;
    clamp_u64;
    clamp_u128;
    clamp_f32;
    clamp_f64;
    clamp_inverted_u8 refuses all;
    clamp_inverted_u16 refuses all;
    clamp_inverted_u32 refuses all;
    clamp_inverted_u64 refuses all;
    clamp_inverted_u128 refuses all;
    clamp_inverted_f32 refuses all;
    clamp_inverted_f64 refuses all;
    convert_to_u8;
    convert_to_u16;
    convert_to_u32;
    convert_to_u64;
    convert_to_u128;
    convert_misfit_u8 refuses all;
    convert_misfit_u16 refuses all;
    convert_misfit_u32 refuses all;
    convert_to_f32;
    convert_to_f64;
    convert_between_floats;

    union_find_3 unwind 8;
    union_find_4 unwind 10;
    union_find_5 unwind 12;
    union_find_6 unwind 14;
}

// C07 ------------------------------------------------------------------------------------------

macro_rules! nearest {
    ($value:expr, $given:expr, $min:expr, $max:expr, $what:literal) => {
        let (value, given, min, max) = ($value, $given, $min, $max);
        let expected = if given < min { min } else if given > max { max } else { given };
        assert!(value == expected, concat!($what, " is not the nearest value of its range"));
        assert!(min <= value && value <= max, concat!($what, " is outside its range"));
    };
}

macro_rules! ranges {
    ($lab:ident, $xyz:ident, $float:ident) => {
        pub fn $lab<I: Input>(i: &mut I) {
            let (l, a, b) = (i.$float(), i.$float(), i.$float());
            i.assume(l.is_finite() && a.is_finite() && b.is_finite());
            let lab: Lab<$float, D65> = Lab::new(l, a, b);
            nearest!(lab.l, l, 0.0, 100.0, "l");
            nearest!(lab.a, a, -128.0, 127.0, "a");
            nearest!(lab.b, b, -128.0, 127.0, "b");
        }

        pub fn $xyz<I: Input>(i: &mut I) {
            let (x, y, z) = (i.$float(), i.$float(), i.$float());
            i.assume(x.is_finite() && y.is_finite() && z.is_finite());
            let xyz: XYZ<$float, D65> = XYZ::new(x, y, z);
            nearest!(xyz.x, x, 0.0, 0.950456, "x");
            nearest!(xyz.y, y, 0.0, 1.0, "y");
            nearest!(xyz.z, z, 0.0, 1.088644, "z");
        }
    };
}
ranges!(lab_range_f64, xyz_range_f64, f64);
ranges!(lab_range_f32, xyz_range_f32, f32);

// C23 ------------------------------------------------------------------------------------------

macro_rules! orders {
    ($float:ident, $swatch:ident, $swatch3:ident, $edge:ident, $edge3:ident, $a_swatch:ident, $an_edge:ident) => {
        fn $a_swatch<I: Input>(i: &mut I) -> Swatch<$float> {
            let swatch = Swatch {
                color: (i.u8(), i.u8(), i.u8()),
                position: (i.u32(), i.u32()),
                percentage: i.$float(),
            };
            i.assume(!swatch.percentage.is_nan());
            swatch
        }

        pub fn $swatch<I: Input>(i: &mut I) {
            let (a, b) = ($a_swatch(i), $a_swatch(i));
            let order = a.cmp(&b);
            if a.percentage < b.percentage {
                assert!(order == Ordering::Less, "a lower percentage does not come first");
            }
            if a.percentage > b.percentage {
                assert!(order == Ordering::Greater, "a higher percentage does not come last");
            }
            assert!(b.cmp(&a) == order.reverse(), "the order is not antisymmetric");
            let same = a.color == b.color && a.position == b.position && a.percentage == b.percentage;
            assert!((a == b) == same, "equality does not compare the fields");
            assert!((order == Ordering::Equal) == same, "the order is not consistent with equality");
            assert!(a.partial_cmp(&b) == Some(order), "the partial order differs from the order");
            assert!((a < b) == (order == Ordering::Less), "< differs from the order");
            assert!((a > b) == (order == Ordering::Greater), "> differs from the order");
            assert!((a <= b) == (order != Ordering::Greater), "<= differs from the order");
            assert!((a >= b) == (order != Ordering::Less), ">= differs from the order");
            assert!(a.cmp(&a) == Ordering::Equal && a == a, "a swatch differs from itself");
        }

        pub fn $swatch3<I: Input>(i: &mut I) {
            let (a, b, c) = ($a_swatch(i), $a_swatch(i), $a_swatch(i));
            if a.cmp(&b) != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
                assert!(a.cmp(&c) != Ordering::Greater, "the order is not transitive");
            }
        }

        fn $an_edge<I: Input>(i: &mut I) -> (WeightedEdge<$float>, usize, usize, $float) {
            let (u, v, weight) = (i.usize(), i.usize(), i.$float());
            i.assume(!weight.is_nan());
            (WeightedEdge::new(u, v, weight), u, v, weight)
        }

        pub fn $edge<I: Input>(i: &mut I) {
            let (a, ua, va, wa) = $an_edge(i);
            let (b, ub, vb, wb) = $an_edge(i);
            assert!(a.u() == ua && a.v() == va && a.weight() == wa, "an edge does not keep its fields");
            let order = a.cmp(&b);
            if wa < wb {
                assert!(order == Ordering::Greater, "the lighter edge does not come first");
            }
            if wa > wb {
                assert!(order == Ordering::Less, "the heavier edge does not come last");
            }
            assert!(b.cmp(&a) == order.reverse(), "the order is not antisymmetric");
            assert!((a == b) == (ua == ub && va == vb && wa == wb), "equality does not compare the fields");
            assert!(a.partial_cmp(&b) == Some(order), "the partial order differs from the order");
            assert!((a < b) == (order == Ordering::Less), "< differs from the order");
            assert!((a > b) == (order == Ordering::Greater), "> differs from the order");
            assert!(a.cmp(&a) == Ordering::Equal && a == a, "an edge differs from itself");
        }

        pub fn $edge3<I: Input>(i: &mut I) {
            let (a, b, c) = ($an_edge(i).0, $an_edge(i).0, $an_edge(i).0);
            if a.cmp(&b) != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
                assert!(a.cmp(&c) != Ordering::Greater, "the order is not transitive");
            }
        }
    };
}
orders!(f64, swatch_order_f64, swatch_transitive_f64, edge_order_f64, edge_transitive_f64, swatch_f64, edge_f64);
orders!(f32, swatch_order_f32, swatch_transitive_f32, edge_order_f32, edge_transitive_f32, swatch_f32, edge_f32);

// C24 ------------------------------------------------------------------------------------------

macro_rules! clamps {
    ($($number:ident $clamp:ident $inverted:ident;)*) => {
        $(
            #[allow(clippy::eq_op)]
            pub fn $clamp<I: Input>(i: &mut I) {
                let (value, min, max) = (i.$number(), i.$number(), i.$number());
                // Neither a number nor an interval: NaN.
                i.assume(value == value && min <= max);
                let clamped = Clamp::clamp(value, min, max);
                let expected = if value < min { min } else if value > max { max } else { value };
                assert!(clamped == expected, "clamp does not give the nearest number of the interval");
            }

            pub fn $inverted<I: Input>(i: &mut I) {
                let (value, min, max) = (i.$number(), i.$number(), i.$number());
                i.assume(min > max);
                let _ = Clamp::clamp(value, min, max);
            }
        )*
    };
}
clamps! {
    u8 clamp_u8 clamp_inverted_u8;
    u16 clamp_u16 clamp_inverted_u16;
    u32 clamp_u32 clamp_inverted_u32;
    u64 clamp_u64 clamp_inverted_u64;
    u128 clamp_u128 clamp_inverted_u128;
    f32 clamp_f32 clamp_inverted_f32;
    f64 clamp_f64 clamp_inverted_f64;
}

macro_rules! converts {
    ($($number:ident $convert:ident;)*) => {
        $(
            pub fn $convert<I: Input>(i: &mut I) {
                let n = i.u8();
                assert!(<$number as Number>::from_u8(n) as u128 == n as u128, "from_u8 changes the value");
                let n = i.u32();
                if n as u128 <= $number::MAX as u128 {
                    assert!(<$number as Number>::from_u32(n) as u128 == n as u128, "from_u32 changes the value");
                }
                let n = i.u64();
                if n as u128 <= $number::MAX as u128 {
                    assert!(<$number as Number>::from_u64(n) as u128 == n as u128, "from_u64 changes the value");
                }
                let n = i.usize();
                if n as u128 <= $number::MAX as u128 {
                    assert!(<$number as Number>::from_usize(n) as u128 == n as u128, "from_usize changes the value");
                }
            }
        )*
    };
}
converts! {
    u8 convert_to_u8;
    u16 convert_to_u16;
    u32 convert_to_u32;
    u64 convert_to_u64;
    u128 convert_to_u128;
}

macro_rules! misfits {
    ($($number:ident $misfit:ident;)*) => {
        $(
            pub fn $misfit<I: Input>(i: &mut I) {
                let n = i.u64();
                i.assume(n > $number::MAX as u64);
                match i.below(3) {
                    0 => {
                        i.assume(n <= u32::MAX as u64);
                        let _ = <$number as Number>::from_u32(n as u32);
                    }
                    1 => {
                        let _ = <$number as Number>::from_u64(n);
                    }
                    _ => {
                        let _ = <$number as Number>::from_usize(n as usize);
                    }
                }
            }
        )*
    };
}
misfits! {
    u8 convert_misfit_u8;
    u16 convert_misfit_u16;
    u32 convert_misfit_u32;
}

macro_rules! floats {
    ($float:ident, $bits:ident, $convert:ident, $is_nearest:ident) => {
        /// Whether no other number of the type is nearer to `n`.
        fn $is_nearest(value: $float, n: u64) -> bool {
            if !(value >= 0.0 && value <= 18446744073709551616.0) {
                return false;
            }
            let distance = |value: $float| (value as u128).abs_diff(n as u128);
            // An integer, so that the cast of it is exact; so are those of its neighbours where they
            // matter, since below the precision of the type every integer is represented.
            if value as u128 as $float != value {
                return false;
            }
            if n < (1u64 << $float::MANTISSA_DIGITS) {
                return value as u128 == n as u128;
            }
            let below = $float::from_bits(value.to_bits() - 1);
            let above = $float::from_bits(value.to_bits() + 1);
            distance(value) <= distance(below) && distance(value) <= distance(above)
        }

        pub fn $convert<I: Input>(i: &mut I) {
            let n = i.u8();
            assert!($is_nearest(<$float as Number>::from_u8(n), n as u64), "from_u8 is not the nearest number");
            let n = i.u32();
            assert!($is_nearest(<$float as Number>::from_u32(n), n as u64), "from_u32 is not the nearest number");
            let n = i.u64();
            assert!($is_nearest(<$float as Number>::from_u64(n), n), "from_u64 is not the nearest number");
            let n = i.usize();
            assert!($is_nearest(<$float as Number>::from_usize(n), n as u64), "from_usize is not the nearest number");
        }
    };
}
floats!(f32, u32, convert_to_f32, is_nearest_f32);
floats!(f64, u64, convert_to_f64, is_nearest_f64);

pub fn convert_between_floats<I: Input>(i: &mut I) {
    let (single, double) = (i.f32(), i.f64());
    i.assume(single.is_finite() && double.is_finite());
    assert!(<f32 as Float>::from_f32(single) == single, "f32 from f32 changes the value");
    assert!(<f64 as Float>::from_f64(double) == double, "f64 from f64 changes the value");
    assert!(<f64 as Float>::from_f32(single) == f64::from(single), "f64 from f32 changes the value");
    assert!(<f32 as Float>::from_f64(double) == double as f32, "f32 from f64 is not the nearest number");
}

// C18 ------------------------------------------------------------------------------------------

macro_rules! union_finds {
    ($($n:literal $name:ident;)*) => { $( pub fn $name<I: Input>(i: &mut I) { union_find::<$n, I>(i) } )* };
}
union_finds! {
    3 union_find_3;
    4 union_find_4;
    5 union_find_5;
    6 union_find_6;
}

/// Any sequence of up to N - 1 unions of any elements, each by their representatives, against a plain
/// table of components. A step that finds its elements together only looks them up.
fn union_find<const N: usize, I: Input>(i: &mut I) {
    let mut union_find = std::mem::ManuallyDrop::new(UnionFind::new(N));
    let mut component = [0; N];
    for (x, c) in component.iter_mut().enumerate() {
        *c = x;
    }
    for _ in 1..N {
        let (x, y) = (i.below(N), i.below(N));
        let (rx, ry) = (union_find.find(x), union_find.find(y));
        assert!((rx == ry) == (component[x] == component[y]), "the representatives differ from the components");
        if rx != ry {
            let size = union_find.union(rx, ry);
            let (from, to) = (component[y], component[x]);
            let mut expected = 0;
            for c in component.iter_mut() {
                if *c == from {
                    *c = to;
                }
                if *c == to {
                    expected += 1;
                }
            }
            assert!(size == expected, "the size of the merged component is wrong");
        }
    }
    // Any two elements.
    let (p, q) = (i.below(N), i.below(N));
    let (rp, rq) = (union_find.find(p), union_find.find(q));
    assert!((rp == rq) == (component[p] == component[q]), "joined elements are apart, or others together");
    assert!(union_find.find(rp) == rp, "a representative is not its own");
    assert!(union_find.find(p) == rp, "looking up changes a representative");
}

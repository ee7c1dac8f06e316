//! Palettes of whole images.
use super::colors::spec;
use super::{Case, Check, Tier};
use crate::engine::{cover, Outcome};
use crate::real::RDom;
use crate::real_case;
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;
use auto_palette::verif::{Lab, Rgba, D65, XYZ};
use std::collections::HashMap;

const EPSILON: f64 = 0.025;
const MIN_POINTS: usize = 25;

/// The colour of a region.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Colour {
    Any,
    AnyAlpha,
    Grey,
    /// This channel any, the others fixed.
    Channel(usize, u8, u8),
    Fixed(u8, u8, u8),
}

/// Placeholders, unlike any fixed byte of the cases.
const BYTES: [[u8; 4]; 3] = [[61, 71, 83, 97], [103, 107, 109, 113], [149, 151, 157, 163]];

/// Paths of narrow ranges have narrow errors.
fn split<D: RDom>(byte: u8) -> u8 {
    let n = D::from_u8(byte);
    let _ = (1..14).find(|i| n < D::from_f64((i * i + i * 5) as f64 + 11.5));
    byte
}

fn split_few<D: RDom>(byte: u8) -> u8 {
    let n = D::from_u8(byte);
    let _ = [20.5, 80.5, 160.5].iter().find(|t| n < D::from_f64(**t));
    byte
}

impl Colour {
    fn bytes<D: RDom>(self, region: usize) -> [u8; 4] {
        let p = BYTES[region % 3];
        match self {
            Colour::Any => [split_few::<D>(D::byte(p[0])), split_few::<D>(D::byte(p[1])), split_few::<D>(D::byte(p[2])), 255],
            Colour::AnyAlpha => [split_few::<D>(D::byte(p[0])), split_few::<D>(D::byte(p[1])), split_few::<D>(D::byte(p[2])), D::byte(p[3])],
            Colour::Grey => {
                let v = split::<D>(D::byte(p[0]));
                [v, v, v, 255]
            }
            Colour::Channel(i, x, y) => {
                let v = split::<D>(D::byte(p[0]));
                match i {
                    0 => [v, x, y, 255],
                    1 => [x, v, y, 255],
                    _ => [x, y, v, 255],
                }
            }
            Colour::Fixed(r, g, b) => [r, g, b, 255],
        }
    }
}

/// How the regions lie in the image.
#[derive(Clone, Debug)]
pub enum Layout {
    /// Along the image, these many pixels each.
    Runs(Vec<usize>),
    /// Pixel i is of region i modulo this.
    Turns(usize),
    /// One row each, in turn.
    Rows,
    /// These pixels are of region 1 (and so on), the others of region 0.
    Spots(Vec<usize>),
}

#[derive(Clone, Debug)]
pub struct Image {
    w: usize,
    h: usize,
    layout: Layout,
    colours: Vec<Colour>,
}

impl Image {
    fn new(w: usize, h: usize, layout: Layout, colours: &[Colour]) -> &'static Image {
        Box::leak(Box::new(Image { w, h, layout, colours: colours.to_vec() }))
    }

    fn region(&self, i: usize) -> usize {
        match &self.layout {
            Layout::Runs(runs) => {
                let mut end = 0;
                runs.iter()
                    .position(|r| {
                        end += r;
                        i < end
                    })
                    .unwrap_or(runs.len() - 1)
            }
            Layout::Turns(n) => i % n,
            Layout::Rows => i / self.w % self.colours.len(),
            Layout::Spots(at) => at.iter().position(|a| *a == i).map_or(0, |p| p + 1),
        }
    }
}

/// An image with the colours of its regions chosen.
struct Drawn<D> {
    w: usize,
    h: usize,
    regions: Vec<usize>,
    data: Vec<u8>,
    /// L*, a* and b* of each region.
    labs: Vec<[D; 3]>,
}

fn draw<D: RDom>(image: &Image) -> Drawn<D> {
    let colours: Vec<[u8; 4]> = image.colours.iter().enumerate().map(|(i, c)| c.bytes::<D>(i)).collect();
    let regions: Vec<usize> = (0..image.w * image.h).map(|i| image.region(i)).collect();
    let data = regions.iter().flat_map(|r| colours[*r]).collect();
    let labs = colours
        .iter()
        .map(|c| {
            let xyz: XYZ<D, D65> = XYZ::from(&Rgba::new(c[0], c[1], c[2], c[3]));
            let lab = Lab::from(&xyz);
            [lab.l, lab.a, lab.b]
        })
        .collect();
    Drawn { w: image.w, h: image.h, regions, data, labs }
}

/// Distances that differ from the radius by less are left out.
fn near_ties<D: RDom>() {
    D::margin(if D::SINGLE { 4e-6 } else { 1e-9 });
}

impl<D: RDom> Drawn<D> {
    fn extract(&self) -> Vec<Swatch<D>> {
        ImageData::new(&self.data, self.w as u32, self.h as u32).extract()
    }

    fn pixels(&self) -> usize {
        self.w * self.h
    }

    /// Pairs of regions whose pixels are neighbours at this distance in x and y.
    fn neighbours(&self) -> Neighbours<D> {
        let mut square = HashMap::new();
        let n = self.labs.len();
        for r in 0..n {
            for s in 0..r {
                let part = |i: usize, delta: f64| {
                    let d = self.labs[r][i] / D::from_f64(delta) - self.labs[s][i] / D::from_f64(delta);
                    d.powi(2)
                };
                square.insert((s, r), part(0, 100.0) + part(1, 255.0) + part(2, 255.0));
            }
        }
        Neighbours { square, known: HashMap::new(), w: self.w as f64, h: self.h as f64 }
    }

    /// The density clusters: the pixels that must belong to each and those that also belong to
    /// another (none of the cases has any).
    fn clusters(&self) -> Option<Vec<Vec<usize>>> {
        let n = self.pixels();
        let mut near = self.neighbours();
        let (rx, ry) = ((EPSILON * self.w as f64) as usize + 1, (EPSILON * self.h as f64) as usize + 1);
        let mut around: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..n {
            let (x, y) = (i % self.w, i / self.w);
            for v in y.saturating_sub(ry)..(y + ry + 1).min(self.h) {
                for u in x.saturating_sub(rx)..(x + rx + 1).min(self.w) {
                    let j = v * self.w + u;
                    if near.test(self.regions[i], self.regions[j], x.abs_diff(u), y.abs_diff(v)) {
                        around[i].push(j);
                    }
                }
            }
        }
        let core: Vec<bool> = around.iter().map(|a| a.len() >= MIN_POINTS).collect();
        let mut label = vec![usize::MAX; n];
        let mut clusters: Vec<Vec<usize>> = vec![];
        for i in 0..n {
            if !core[i] || label[i] != usize::MAX {
                continue;
            }
            let id = clusters.len();
            let mut members = vec![];
            let mut stack = vec![i];
            label[i] = id;
            while let Some(j) = stack.pop() {
                members.push(j);
                for k in &around[j] {
                    if core[*k] && label[*k] == usize::MAX {
                        label[*k] = id;
                        stack.push(*k);
                    }
                }
            }
            clusters.push(members);
        }
        for i in 0..n {
            if core[i] {
                continue;
            }
            let mut of: Vec<usize> = around[i].iter().filter(|j| core[**j]).map(|j| label[*j]).collect();
            of.sort();
            of.dedup();
            match of[..] {
                [] => {}
                [id] => clusters[id].push(i),
                _ => return None,
            }
        }
        Some(clusters)
    }
}

struct Neighbours<D> {
    square: HashMap<(usize, usize), D>,
    known: HashMap<(usize, usize, usize, usize), bool>,
    w: f64,
    h: f64,
}

impl<D: RDom> Neighbours<D> {
    fn test(&mut self, r: usize, s: usize, dx: usize, dy: usize) -> bool {
        let key = (r.min(s), r.max(s), dx, dy);
        if let Some(k) = self.known.get(&key) {
            return *k;
        }
        let (x, y) = (dx as f64 / self.w, dy as f64 / self.h);
        let left = EPSILON * EPSILON - x * x - y * y;
        let near = if left < -1e-7 {
            false
        } else if r == s {
            left >= 0.0
        } else {
            self.square[&(key.0, key.1)] <= D::from_f64(left)
        };
        self.known.insert(key, near);
        near
    }
}

/// The swatches describe the clusters.
pub fn describes<D: RDom>(image: &Image) -> Outcome {
    let image = draw::<D>(image);
    near_ties::<D>();
    let swatches = image.extract();
    let Some(clusters) = image.clusters() else {
        cover("a pixel between clusters");
        return Ok("between".into());
    };
    if swatches.len() != clusters.len() {
        return Err(format!("{} swatches for {} clusters", swatches.len(), clusters.len()));
    }
    let n = image.pixels() as f64;
    // The sum of that many numbers is not exact.
    let rounding = if D::SINGLE { 3.0 } else { 0.55 };
    let blur = if D::SINGLE { 0.03 } else { 1e-6 };
    let mut left: Vec<&Swatch<D>> = swatches.iter().collect();
    let mut text = vec![];
    for members in &clusters {
        let count = members.len() as f64;
        let mean = |f: &dyn Fn(usize) -> usize| members.iter().map(|i| f(*i) as f64).sum::<f64>() / count;
        let at = (mean(&|i| i % image.w), mean(&|i| i / image.w));
        let mut shares = vec![0usize; image.labs.len()];
        for i in members {
            shares[image.regions[*i]] += 1;
        }
        let mut lab = [D::zero(); 3];
        for (r, share) in shares.iter().enumerate().filter(|s| *s.1 > 0) {
            for i in 0..3 {
                lab[i] = lab[i] + image.labs[r][i] * D::from_f64(*share as f64 / count);
            }
        }
        let xyz = spec::xyz_of_lab(&lab);
        let want: [D; 3] = std::array::from_fn(|i| spec::channel(i, &xyz));
        let fits = |got: u32, want: f64| got as f64 >= (want - blur).floor() && got as f64 <= (want + blur).floor();
        let found = left.iter().position(|s| {
            let tolerance = if D::SINGLE { 1e-5 } else { 1e-9 };
            let (r, g, b) = s.color;
            D::near(s.percentage, D::from_f64(count / n), tolerance)
                && fits(s.position.0, at.0)
                && fits(s.position.1, at.1)
                && [r, g, b].iter().zip(want).all(|(got, want)| D::near(D::from_u8(*got), want, rounding))
        });
        let Some(found) = found else {
            return Err(format!("no swatch for the cluster of {count} pixels around {at:?}"));
        };
        text.push(format!("{count} around {:.2} {:.2}", at.0, at.1));
        left.remove(found);
    }
    if clusters.iter().any(|c| c.iter().any(|i| image.regions[*i] != image.regions[c[0]])) {
        cover("one cluster of two colours");
    }
    cover(match clusters.len() {
        0 => "no cluster",
        1 => "one cluster",
        2 => "two clusters",
        _ => "three clusters",
    });
    Ok(text.join(", "))
}

/// Extraction returns, whatever the swatches are.
pub fn returns<D: RDom>(image: &Image) -> Outcome {
    let image = draw::<D>(image);
    near_ties::<D>();
    image.extract();
    cover("returned");
    Ok("ok".into())
}

/// The conversions of a mean colour, which is any colour in range, return.
pub fn mean_colour<D: RDom>() -> Outcome {
    let lab: Lab<D> = Lab::new(D::input(0.0, 100.0), D::input(-128.0, 127.0), D::input(-128.0, 127.0));
    let xyz: XYZ<D> = XYZ::from(&lab);
    let _ = Rgba::from(&xyz);
    cover("returned");
    Ok("ok".into())
}

/// Ascending, and the same again with other hash seeds.
pub fn repeatable<D: RDom>(image: &Image) -> Outcome {
    let image = draw::<D>(image);
    near_ties::<D>();
    let first = image.extract();
    for pair in first.windows(2) {
        if pair[0].percentage > pair[1].percentage {
            return Err("the percentages do not ascend".into());
        }
    }
    // Every hash map of a thread has another seed.
    for _ in 0..3 {
        let again = image.extract();
        if again.len() != first.len() {
            return Err("another number of swatches".into());
        }
        for (s, t) in first.iter().zip(&again) {
            if s.color != t.color || s.position != t.position || s.percentage != t.percentage {
                return Err("another swatch at the same place".into());
            }
        }
    }
    let ties = first.windows(2).any(|p| p[0].percentage == p[1].percentage);
    cover(if ties {
        "equal percentages"
    } else if first.len() > 1 {
        "different percentages"
    } else {
        "fewer than two"
    });
    Ok(format!("{}", first.len()))
}

/// Percentages and positions.
pub fn within<D: RDom>(image: &Image) -> Outcome {
    let image = draw::<D>(image);
    near_ties::<D>();
    let swatches = image.extract();
    let n = image.pixels();
    let tolerance = if D::SINGLE { 1e-6 } else { 1e-12 };
    let mut sum = 0;
    for s in &swatches {
        if s.position.0 as usize >= image.w || s.position.1 as usize >= image.h {
            return Err("a position outside the image".into());
        }
        // (Halving finds the number of pixels without a conversion of a symbolic number.)
        let (mut lo, mut hi) = (0, n + 1);
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            if s.percentage >= D::from_f64((mid as f64 - 0.5) / n as f64) {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        if !D::near(s.percentage, D::from_f64(lo as f64 / n as f64), tolerance) {
            return Err("a percentage that is no whole number of pixels of the image".into());
        }
        if lo < MIN_POINTS {
            return Err(format!("a swatch of {lo} pixels"));
        }
        if s.percentage > D::one() {
            return Err("a percentage above 1".into());
        }
        sum += lo;
    }
    if sum > n {
        return Err(format!("the percentages add up to {sum} of {n} pixels"));
    }
    cover(if swatches.is_empty() {
        "no swatch"
    } else if sum < n {
        "pixels without a swatch"
    } else {
        "every pixel"
    });
    Ok(format!("{} {sum}", swatches.len()))
}

const FUNCTIONS: [&str; 16] = [
    "image::ImageData::new",
    "image::ImageData::extract",
    "color::rgba::Rgba::new",
    "color::xyz::XYZ::from<&Rgba>",
    "color::lab::Lab::from<&XYZ>",
    "color::lab::Lab::new",
    "color::xyz::XYZ::from<&Lab>",
    "color::rgba::Rgba::from<&XYZ>",
    "math::point::Point5",
    "math::distance::metric::DistanceMetric::measure",
    "math::neighbors::kdtree::KDTree::new",
    "math::neighbors::kdtree::KDTree::search_radius",
    "math::clustering::dbscan::DBSCAN::fit",
    "math::clustering::dbscan::DBSCAN::centroids",
    "math::clustering::dbscan::DBSCAN::count_at",
    "swatch::Swatch::cmp",
];
const ASSUMPTIONS: [&str; 4] = [
    "powf, cbrt and powi of the machine type are within 2 units in the last place of the real function",
    "the code treats a byte only as a number, except to order swatches of equal percentage",
    "colours whose distance to the radius, or whose coordinates, differ by less than 1e-9 (f32: 4e-6) without being equal are left out",
    "a number less than 1e-4 below zero by its error bound alone is not negative when a root is taken of it",
];

fn check(cases: Vec<super::Case>) -> Check {
    Check { functions: FUNCTIONS.to_vec(), assumptions: ASSUMPTIONS.to_vec(), cases }
}

/// The cases for f64 only: the rounding of f32 is not small against the distances of the thresholds.
fn double(cases: Vec<Case>) -> Vec<Case> {
    cases.into_iter().filter(|c| c.name.ends_with("-f64")).collect()
}

fn seeded(seed: u64, cases: Vec<Case>) -> Vec<Case> {
    cases.into_iter().map(|c| Case { seed, ..c }).collect()
}

const NEAR: Colour = Colour::Fixed(98, 99, 101);

pub fn c01() -> Check {
    use Colour::*;
    use Layout::*;
    let mut cases = vec![];
    let mixed = Image::new(1024, 1, Turns(2), &[Grey, NEAR]);
    cases.extend(double(real_case!(Tier::Quick, "turns-grey-fixed", "1024 x 1, pixels of every grey and of one colour in turn", ["one cluster", "two clusters"], D => describes::<D>(mixed))));
    let row = Image::new(512, 1, Turns(1), &[Any]);
    cases.extend(real_case!(Tier::Quick, "row-any", "512 x 1, every colour", ["one cluster"], D => describes::<D>(row)));
    let grey = Image::new(512, 1, Turns(1), &[Grey]);
    cases.extend(real_case!(Tier::Quick, "row-grey", "512 x 1, every grey", ["one cluster"], D => describes::<D>(grey)));
    let green = Image::new(512, 1, Turns(1), &[Channel(1, 200, 60)]);
    cases.extend(real_case!(Tier::Quick, "row-green", "512 x 1, every green", ["one cluster"], D => describes::<D>(green)));
    let column = Image::new(1, 512, Turns(1), &[Any]);
    cases.extend(double(real_case!(Tier::Quick, "column-any", "1 x 512, every colour", ["one cluster"], D => describes::<D>(column))));
    let fixed = Image::new(512, 1, Runs(vec![300, 212]), &[Grey, NEAR]);
    cases.extend(double(real_case!(Tier::Quick, "row-grey-fixed", "512 x 1, 300 pixels of every grey and 212 of one colour", ["one cluster", "two clusters"], D => describes::<D>(fixed))));
    let rows = Image::new(512, 2, Rows, &[Grey, Fixed(90, 30, 200)]);
    cases.extend(real_case!(Tier::Quick, "rows-grey-fixed", "512 x 2, the first row of every grey, the second of one colour", ["two clusters"], D => describes::<D>(rows)));
    let three = Image::new(512, 1, Runs(vec![200, 112, 200]), &[Fixed(200, 90, 30), Channel(1, 60, 60), Fixed(30, 90, 200)]);
    cases.extend(real_case!(Tier::Quick, "row-three", "512 x 1, 112 pixels of every green between two colours", ["three clusters"], D => describes::<D>(three)));
    let few = Image::new(512, 1, Runs(vec![246, 20, 246]), &[Fixed(200, 90, 30), Channel(1, 60, 60), Fixed(30, 90, 200)]);
    cases.extend(real_case!(Tier::Quick, "row-few", "512 x 1, 20 pixels of every green between two colours", ["two clusters"], D => describes::<D>(few)));
    let small = Image::new(8, 3, Runs(vec![14, 10]), &[Grey, NEAR]);
    cases.extend(double(real_case!(Tier::Quick, "small", "8 x 3, 14 pixels of every grey and 10 of one colour", ["no cluster"], D => describes::<D>(small))));
    let greys = Image::new(512, 1, Runs(vec![300, 212]), &[Grey, Grey]);
    cases.extend(double(real_case!(Tier::Thorough, "row-greys", "512 x 1, 300 and 212 pixels, every two greys", ["one cluster", "two clusters"], D => describes::<D>(greys))));
    let rows = Image::new(512, 2, Rows, &[Any, Fixed(90, 30, 200)]);
    cases.extend(double(real_case!(Tier::Thorough, "rows-any-fixed", "512 x 2, the first row of every colour, the second of one", ["two clusters"], D => describes::<D>(rows))));
    let square = Image::new(128, 128, Runs(vec![8192, 8192]), &[Channel(1, 60, 60), Fixed(30, 90, 200)]);
    cases.extend(double(real_case!(Tier::Thorough, "square", "128 x 128, one half of every green, the other of one colour", ["two clusters"], D => describes::<D>(square))));
    check(cases)
}

pub fn c02() -> Check {
    use Colour::*;
    use Layout::*;
    let mut cases = vec![];
    cases.extend(real_case!(Tier::Quick, "mean-colour", "every L*a*b* colour in range", ["returned"], D => mean_colour::<D>()));
    let row = Image::new(512, 1, Turns(1), &[AnyAlpha]);
    cases.extend(real_case!(Tier::Quick, "row-any", "512 x 1, every colour and alpha", ["returned"], D => returns::<D>(row)));
    let grey = Image::new(512, 1, Turns(1), &[Grey]);
    cases.extend(real_case!(Tier::Quick, "row-grey", "512 x 1, every grey", ["returned"], D => returns::<D>(grey)));
    let green = Image::new(512, 1, Turns(1), &[Channel(1, 200, 60)]);
    cases.extend(real_case!(Tier::Quick, "row-green", "512 x 1, every green", ["returned"], D => returns::<D>(green)));
    for (w, h) in [(1, 1), (1, 3), (3, 1)] {
        let image = Image::new(w, h, Turns(1), &[AnyAlpha]);
        cases.extend(real_case!(Tier::Quick, format!("{w}x{h}-any"), "every colour and alpha", ["returned"], D => returns::<D>(image)));
    }
    for (w, h) in [(2, 1), (1, 2), (5, 5)] {
        let image = Image::new(w, h, Turns(2), &[Grey, NEAR]);
        cases.extend(double(real_case!(Tier::Quick, format!("{w}x{h}-grey-fixed"), "every grey and one colour in turn", ["returned"], D => returns::<D>(image))));
    }
    let mixed = Image::new(1024, 1, Turns(2), &[Grey, NEAR]);
    cases.extend(double(real_case!(Tier::Thorough, "turns-grey-fixed", "1024 x 1, pixels of every grey and of one colour in turn", ["returned"], D => returns::<D>(mixed))));
    check(cases)
}

pub fn c04() -> Check {
    use Colour::*;
    use Layout::*;
    let (a, b) = (Fixed(200, 90, 30), Fixed(30, 90, 200));
    let any = Channel(1, 60, 60);
    let mut cases = vec![];
    let ties = Image::new(512, 3, Rows, &[a, Grey, b]);
    cases.extend(real_case!(Tier::Quick, "rows-tie", "512 x 3, a row of every grey between rows of two colours", ["equal percentages"], D => repeatable::<D>(ties)));
    let (c, d) = (Fixed(20, 20, 30), Fixed(240, 250, 230));
    let runs: [(u64, &[usize], &[Colour]); 10] = [
        (1, &[212, 300], &[a, any]),
        (2, &[300, 212], &[a, any]),
        (3, &[256, 256], &[any, b]),
        (1, &[212, 200, 100], &[a, any, b]),
        (2, &[100, 212, 200], &[a, any, b]),
        (3, &[160, 192, 160], &[a, any, b]),
        (4, &[200, 112, 200], &[a, any, a]),
        (5, &[128, 100, 150, 134], &[a, c, any, d]),
        (6, &[128, 128, 128, 128], &[d, any, c, a]),
        (7, &[60, 110, 90, 120, 132], &[a, any, b, c, d]),
    ];
    for (seed, runs, colours) in runs {
        let image = Image::new(512, 1, Runs(runs.to_vec()), colours);
        let tie = (1..runs.len()).any(|i| runs[..i].contains(&runs[i]));
        let cover = if tie { "equal percentages" } else { "different percentages" };
        let name = format!("row-{}", runs.iter().map(|r| r.to_string()).collect::<Vec<_>>().join("-"));
        let bounds = format!("512 x 1, runs of {runs:?} pixels of {colours:?}");
        cases.extend(seeded(seed, real_case!(Tier::Quick, name, bounds, [cover], D => repeatable::<D>(image))));
    }
    let near = Image::new(512, 1, Runs(vec![300, 212]), &[Grey, NEAR]);
    cases.extend(double(real_case!(Tier::Quick, "row-grey-fixed", "512 x 1, 300 pixels of every grey and 212 of one colour", ["fewer than two", "different percentages"], D => repeatable::<D>(near))));
    check(cases)
}

pub fn c05() -> Check {
    use Colour::*;
    use Layout::*;
    let (a, b) = (Fixed(200, 90, 30), Fixed(30, 90, 200));
    let mut cases = vec![];
    let row = Image::new(512, 1, Turns(1), &[Any]);
    cases.extend(real_case!(Tier::Quick, "row-any", "512 x 1, every colour", ["every pixel"], D => within::<D>(row)));
    let grey = Image::new(512, 1, Turns(1), &[Grey]);
    cases.extend(real_case!(Tier::Quick, "row-grey", "512 x 1, every grey", ["every pixel"], D => within::<D>(grey)));
    let green = Image::new(512, 1, Turns(1), &[Channel(1, 200, 60)]);
    cases.extend(real_case!(Tier::Quick, "row-green", "512 x 1, every green", ["every pixel"], D => within::<D>(green)));
    let rows = Image::new(512, 3, Rows, &[a, Grey, b]);
    cases.extend(real_case!(Tier::Quick, "rows-grey", "512 x 3, a row of every grey between rows of two colours", ["every pixel"], D => within::<D>(rows)));
    let few = Image::new(512, 1, Runs(vec![246, 20, 246]), &[a, Channel(1, 60, 60), b]);
    cases.extend(real_case!(Tier::Quick, "row-few", "512 x 1, 20 pixels of every green between two colours", ["pixels without a swatch"], D => within::<D>(few)));
    let near = Image::new(512, 1, Runs(vec![246, 20, 246]), &[NEAR, Grey, b]);
    cases.extend(double(real_case!(Tier::Quick, "row-few-near", "512 x 1, 20 pixels of every grey between two colours", ["pixels without a swatch", "every pixel"], D => within::<D>(near))));
    let spots = Image::new(512, 1, Spots(vec![77, 300, 301, 511]), &[a, Grey, b, Channel(2, 90, 200), b]);
    cases.extend(double(real_case!(Tier::Quick, "spots", "512 x 1 of one colour, but for 4 pixels, one of any grey and one of any blue", ["pixels without a swatch"], D => within::<D>(spots))));
    let small = Image::new(6, 4, Runs(vec![14, 10]), &[Grey, NEAR]);
    cases.extend(double(real_case!(Tier::Quick, "small", "6 x 4, 14 pixels of every grey and 10 of one colour", ["no swatch"], D => within::<D>(small))));
    check(cases)
}

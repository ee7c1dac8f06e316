//! `GridF`: exact symbolic numbers over bounded integer inputs.
//!
//! A value is a polynomial with rational coefficients over the inputs, or the square root of one.
//! Comparisons are decided on the sign of the difference, encoded in bit vectors wide enough that
//! nothing wraps. On inputs of this size every f32/f64 operation the algorithms perform is exact or
//! compares like its exact counterpart, and each explored path is re-run natively to confirm it.
use crate::engine::{self, ctx, mode, unsupported, Ctx, Mode};
use auto_palette::verif::{Clamp, Float, Number};
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::ops::*;
use std::rc::Rc;

type Mono = u64; // up to 8 variables, one byte each (index + 1), sorted

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    /// Non-constant terms, sorted by monomial.
    terms: Vec<(Mono, i128)>,
    konst: i128,
    den: i128,
}

fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

fn ov<T>(x: Option<T>) -> T {
    x.unwrap_or_else(|| unsupported("coefficient overflow"))
}

fn mul(a: i128, b: i128) -> i128 {
    ov(a.checked_mul(b))
}

fn add(a: i128, b: i128) -> i128 {
    ov(a.checked_add(b))
}

fn mono_mul(a: Mono, b: Mono) -> Mono {
    let mut v: Vec<u8> = a
        .to_le_bytes()
        .into_iter()
        .chain(b.to_le_bytes())
        .filter(|x| *x != 0)
        .collect();
    if v.len() > 8 {
        unsupported("degree");
    }
    v.sort_unstable();
    v.resize(8, 0);
    Mono::from_le_bytes(v.try_into().unwrap())
}

impl Poly {
    fn constant(num: i128, den: i128) -> Poly {
        Poly {
            terms: vec![],
            konst: num,
            den,
        }
        .normal()
    }

    fn normal(mut self) -> Poly {
        self.terms.retain(|t| t.1 != 0);
        let mut g = gcd(self.den, self.konst);
        for t in &self.terms {
            if g == 1 {
                break;
            }
            g = gcd(g, t.1);
        }
        if g > 1 {
            self.den /= g;
            self.konst /= g;
            for t in &mut self.terms {
                t.1 /= g;
            }
        }
        self
    }

    fn is_const(&self) -> bool {
        self.terms.is_empty()
    }

    fn scale(&self, c: i128) -> Poly {
        Poly {
            terms: self.terms.iter().map(|t| (t.0, mul(t.1, c))).collect(),
            konst: mul(self.konst, c),
            den: self.den,
        }
    }

    fn add(&self, o: &Poly) -> Poly {
        let g = gcd(self.den, o.den);
        let den = mul(self.den / g, o.den);
        let a = self.scale(den / self.den);
        let b = o.scale(den / o.den);
        let mut terms = Vec::with_capacity(a.terms.len() + b.terms.len());
        let (mut i, mut j) = (0, 0);
        while i < a.terms.len() || j < b.terms.len() {
            let x = a.terms.get(i);
            let y = b.terms.get(j);
            match (x, y) {
                (Some(x), Some(y)) if x.0 == y.0 => {
                    terms.push((x.0, add(x.1, y.1)));
                    i += 1;
                    j += 1;
                }
                (Some(x), Some(y)) if x.0 < y.0 => {
                    terms.push(*x);
                    i += 1;
                }
                (Some(x), None) => {
                    terms.push(*x);
                    i += 1;
                }
                (_, Some(y)) => {
                    terms.push(*y);
                    j += 1;
                }
                (None, None) => unreachable!(),
            }
        }
        Poly {
            terms,
            konst: add(a.konst, b.konst),
            den,
        }
        .normal()
    }

    fn neg(&self) -> Poly {
        self.scale(-1)
    }

    fn mul(&self, o: &Poly) -> Poly {
        let mut map: HashMap<Mono, i128> = HashMap::new();
        for a in self.terms.iter().chain([&(0, self.konst)]) {
            if a.1 == 0 {
                continue;
            }
            for b in o.terms.iter().chain([&(0, o.konst)]) {
                if b.1 == 0 {
                    continue;
                }
                let e = map.entry(mono_mul(a.0, b.0)).or_insert(0);
                *e = add(*e, mul(a.1, b.1));
            }
        }
        let konst = map.remove(&0).unwrap_or(0);
        let mut terms: Vec<_> = map.into_iter().collect();
        terms.sort_unstable();
        Poly {
            terms,
            konst,
            den: mul(self.den, o.den),
        }
        .normal()
    }

    fn eval(&self, vars: &[i128]) -> Option<(i128, i128)> {
        let mut s = self.konst;
        for (m, c) in &self.terms {
            let mut p = *c;
            for v in m.to_le_bytes() {
                if v != 0 {
                    p = p.checked_mul(vars[v as usize - 1])?;
                }
            }
            s = s.checked_add(p)?;
        }
        Some((s, self.den))
    }

    fn sign_const(&self) -> i32 {
        self.konst.signum() as i32
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Val {
    poly: u32,
    root: bool,
}

#[derive(Clone, Copy)]
struct Var {
    id: usize,
    max: i128,
}

/// The grid state of a worker.
pub struct Grid {
    polys: Vec<Rc<Poly>>,
    by_poly: HashMap<Rc<Poly>, u32>,
    vals: Vec<Val>,
    by_val: HashMap<Val, u32>,
    vars: Vec<Var>,
    /// Known signs of canonical polynomials on the current path.
    signs: HashMap<Vec<(Mono, i128)>, Vec<(i128, u8)>>,
    /// SMT names of monomials.
    monos: HashMap<(Mono, u32), String>,
    path_marker: u64,
    /// Which polynomials, by index, are known to be sums of squares.
    squares: HashMap<u32, bool>,
}

// Only ever used by the thread that currently runs the path.
unsafe impl Send for Grid {}

impl Grid {
    pub fn boxed() -> Box<dyn std::any::Any + Send> {
        Box::new(Grid {
            polys: vec![],
            by_poly: HashMap::new(),
            vals: vec![],
            by_val: HashMap::new(),
            vars: vec![],
            signs: HashMap::new(),
            monos: HashMap::new(),
            path_marker: 0,
            squares: HashMap::new(),
        })
    }

    fn intern(&mut self, p: Poly) -> u32 {
        if let Some(i) = self.by_poly.get(&p) {
            return *i;
        }
        let rc = Rc::new(p);
        self.polys.push(rc.clone());
        let i = self.polys.len() as u32 - 1;
        self.by_poly.insert(rc, i);
        i
    }

    fn handle(&mut self, v: Val) -> u32 {
        if let Some(i) = self.by_val.get(&v) {
            return *i;
        }
        self.vals.push(v);
        let i = self.vals.len() as u32 - 1;
        self.by_val.insert(v, i);
        i
    }
}

fn grid() -> &'static mut Grid {
    ctx().dom.downcast_mut::<Grid>().expect("grid domain")
}

/// Forget what is known about the previous path. Called by the first input of every path.
fn begin_path() {
    let g = grid();
    g.signs.clear();
    g.path_marker += 1;
    if g.polys.len() > 200_000 {
        g.polys.clear();
        g.by_poly.clear();
        g.squares.clear();
        g.vals.clear();
        g.by_val.clear();
    }
}

/// A symbolic number. Constants outside a symbolic run do not exist.
#[derive(Clone, Copy)]
pub struct GridF(u32);

fn make(p: Poly, root: bool) -> GridF {
    let g = grid();
    let poly = g.intern(p);
    GridF(g.handle(Val { poly, root }))
}

fn konst(num: i128, den: i128) -> GridF {
    make(Poly::constant(num, den), false)
}

fn rational(x: f64) -> (i128, i128) {
    if !x.is_finite() {
        unsupported("non-finite constant");
    }
    let bits = x.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32;
    let frac = (bits & ((1 << 52) - 1)) as i128;
    let (mut m, mut e) = if exp == 0 {
        (frac, -1074)
    } else {
        (frac | (1 << 52), exp - 1075)
    };
    if m == 0 {
        return (0, 1);
    }
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    if x < 0.0 {
        m = -m;
    }
    if e >= 0 {
        if e > 40 {
            // Stands for "larger than anything"; only ever compared.
            return (if m > 0 { BIG } else { -BIG }, 1);
        }
        (mul(m, 1i128 << e), 1)
    } else if e < -100 {
        unsupported("tiny constant")
    } else {
        (m, 1i128 << -e)
    }
}

const BIG: i128 = 1 << 50;

const NEG: u8 = 1;
const ZERO: u8 = 2;
const POS: u8 = 4;

fn flip(mask: u8) -> u8 {
    (mask & ZERO) | if mask & NEG != 0 { POS } else { 0 } | if mask & POS != 0 { NEG } else { 0 }
}

impl GridF {
    fn val(self) -> Val {
        grid().vals[self.0 as usize]
    }

    fn poly(self) -> Rc<Poly> {
        let v = self.val();
        grid().polys[v.poly as usize].clone()
    }

    fn root(self) -> bool {
        self.val().root
    }

    /// The polynomial of a value that is no root.
    fn plain(self, what: &str) -> Rc<Poly> {
        let v = self.val();
        let p = grid().polys[v.poly as usize].clone();
        if v.root {
            if p.is_const() {
                // Exact roots of constants stay polynomials.
                if let Some(r) = exact_sqrt(&p) {
                    return Rc::new(r);
                }
            }
            unsupported(what)
        }
        p
    }

    pub fn input(lo: i64, hi: i64) -> GridF {
        if ctx_inputs_empty() {
            begin_path();
        }
        let span = (hi - lo) as u64;
        let bits = (64 - span.leading_zeros()).max(1);
        let (nth, _) = ctx().input(lo as f64, |c, n| {
            let id = c.declare(format!("x{n}"), &format!("(_ BitVec {bits})"));
            if span + 1 != 1 << bits {
                c.fact(format!("(bvule x{n} (_ bv{span} {bits}))"));
            }
            let g = c.dom.downcast_mut::<Grid>().unwrap();
            assert_eq!(g.vars.len(), n);
            g.vars.push(Var {
                id,
                max: span as i128,
            });
            id
        });
        assert!(nth < 254);
        make(
            Poly {
                terms: vec![((nth + 1) as u64, 1)],
                konst: lo as i128,
                den: 1,
            },
            false,
        )
    }
}

fn ctx_inputs_empty() -> bool {
    ctx().inputs_so_far() == 0
}

fn exact_sqrt(p: &Poly) -> Option<Poly> {
    if !p.is_const() || p.konst < 0 {
        return None;
    }
    let r = |n: i128| -> Option<i128> {
        let s = (n as f64).sqrt() as i128;
        ((s - 2).max(0)..=s + 2).find(|x| x.checked_mul(*x) == Some(n))
    };
    Some(Poly::constant(r(p.konst)?, r(p.den)?))
}

fn var_values(c: &mut Ctx) -> Vec<i128> {
    let ids: Vec<usize> = c
        .dom
        .downcast_ref::<Grid>()
        .unwrap()
        .vars
        .iter()
        .map(|v| v.id)
        .collect();
    ids.into_iter().map(|i| c.model_value(i) as i128).collect()
}

/// The primitive integer form of the sign of a polynomial: `g * (terms + konst/…)`.
///
/// Returns (terms, lower, exact, flipped): the sign of `p` is the sign of `T + k` with T the
/// primitive terms and k rational; T is an integer, so only floor(-k) and whether k is an integer
/// matter.
struct Canon {
    terms: Vec<(Mono, i128)>,
    /// T < t: negative; T == t and exact: zero; otherwise positive. (T <= t is negative if not exact.)
    t: i128,
    exact: bool,
    flipped: bool,
}

fn canon(p: &Poly) -> Canon {
    let mut g = 0;
    for t in &p.terms {
        g = gcd(g, t.1);
    }
    let flipped = p.terms[0].1 < 0;
    let s = if flipped { -1 } else { 1 };
    let terms: Vec<_> = p.terms.iter().map(|t| (t.0, s * t.1 / g)).collect();
    // sign(T*g + k) with k = s*konst, integers (den dropped): T vs -k/g
    let k = -s * p.konst;
    let t = k.div_euclid(g);
    let exact = k.rem_euclid(g) == 0;
    Canon {
        terms,
        t,
        exact,
        flipped,
    }
}

/// Whether a quadratic polynomial is a sum of squares, by eliminating one variable after the other
/// from its (homogenised) form in exact rational arithmetic.
fn sum_of_squares(p: &Poly) -> Option<bool> {
    let mut vars: Vec<u8> = vec![0];
    for (m, _) in &p.terms {
        let b = m.to_le_bytes();
        if b[2] != 0 {
            return None;
        }
        for v in &b[..2] {
            if !vars.contains(v) {
                vars.push(*v);
            }
        }
    }
    let n = vars.len();
    if n > 32 {
        return None;
    }
    let at = |v: u8| vars.iter().position(|x| *x == v).unwrap();
    // Twice the matrix, as fractions.
    let mut a = vec![vec![(0i128, 1i128); n]; n];
    a[0][0] = (p.konst.checked_mul(2)?, 1);
    for (m, c) in &p.terms {
        let b = m.to_le_bytes();
        let (i, j) = (at(b[0]), at(b[1]));
        if i == j {
            a[i][i] = (c.checked_mul(2)?, 1);
        } else {
            a[i][j] = (*c, 1);
            a[j][i] = (*c, 1);
        }
    }
    let reduce = |(n, d): (i128, i128)| {
        let g = gcd(n, d).max(1);
        if d < 0 {
            (-n / g, -d / g)
        } else {
            (n / g, d / g)
        }
    };
    let times = |x: (i128, i128), y: (i128, i128)| -> Option<(i128, i128)> {
        Some(reduce((x.0.checked_mul(y.0)?, x.1.checked_mul(y.1)?)))
    };
    let mut open: Vec<usize> = (0..n).collect();
    while let Some(at) = open.iter().position(|i| a[*i][*i].0 != 0) {
        let i = open.remove(at);
        if a[i][i].0 < 0 {
            return Some(false);
        }
        let inverse = (a[i][i].1, a[i][i].0);
        for j in &open {
            if a[*j][i].0 == 0 {
                continue;
            }
            let factor = times(a[*j][i], inverse)?;
            for k in &open {
                let x = times(factor, a[i][*k])?;
                let y = a[*j][*k];
                a[*j][*k] = reduce((
                    y.0.checked_mul(x.1)?.checked_sub(x.0.checked_mul(y.1)?)?,
                    y.1.checked_mul(x.1)?,
                ));
            }
        }
    }
    // Only zeros are left on the diagonal, so everything else has to be zero, too.
    Some(open.iter().all(|i| open.iter().all(|j| a[*i][*j].0 == 0)))
}

fn mono_max(m: Mono) -> i128 {
    let g = grid();
    let mut p = 1;
    for v in m.to_le_bytes() {
        if v != 0 {
            p = mul(p, g.vars[v as usize - 1].max);
        }
    }
    p
}

fn range(terms: &[(Mono, i128)]) -> (i128, i128) {
    let (mut lo, mut hi) = (0, 0);
    for (m, c) in terms {
        let x = mul(mono_max(*m), *c);
        if *c < 0 {
            lo = add(lo, x);
        } else {
            hi = add(hi, x);
        }
    }
    (lo, hi)
}

fn mono_text(m: Mono, width: u32) -> String {
    if let Some(t) = grid().monos.get(&(m, width)) {
        return t.clone();
    }
    let c = ctx();
    let vars: Vec<usize> = m
        .to_le_bytes()
        .into_iter()
        .filter(|v| *v != 0)
        .map(|v| v as usize - 1)
        .collect();
    let zext = |v: usize| {
        let max = grid().vars[v].max as u64;
        let bits = (64 - max.leading_zeros()).max(1);
        assert!(bits <= width);
        if bits == width {
            format!("x{v}")
        } else {
            format!("((_ zero_extend {}) x{v})", width - bits)
        }
    };
    let mut body = zext(vars[0]);
    for v in &vars[1..] {
        body = format!("(bvmul {body} {})", zext(*v));
    }
    let name = format!(
        "m{}_{}",
        width,
        vars.iter().map(|v| v.to_string()).collect::<Vec<_>>().join("_")
    );
    c.solver
        .send(&format!("(define-fun {name} () (_ BitVec {width}) {body})"));
    grid().monos.insert((m, width), name.clone());
    name
}

fn sum_text(terms: &[(Mono, i128)], konst: i128, width: u32) -> String {
    let mut parts: Vec<String> = terms
        .iter()
        .map(|(m, c)| {
            let t = mono_text(*m, width);
            if *c == 1 {
                t
            } else {
                format!("(bvmul (_ bv{c} {width}) {t})")
            }
        })
        .collect();
    if konst != 0 || parts.is_empty() {
        parts.push(format!("(_ bv{konst} {width})"));
    }
    let mut it = parts.into_iter();
    let first = it.next().unwrap();
    it.fold(first, |a, b| format!("(bvadd {a} {b})"))
}

fn width_for(terms: &[(Mono, i128)], t: i128) -> u32 {
    let (lo, hi) = range(terms);
    let m = add(hi.max(-lo), t.abs()) + 2;
    let bits = 128 - m.leading_zeros();
    match bits {
        0..=12 => 12,
        13..=16 => 16,
        17..=24 => 24,
        25..=32 => 32,
        33..=64 => 64,
        _ => unsupported("comparison too wide"),
    }
}

/// Text of "T < t", "T == t" or "T > t" (op: bvult, =, bvugt).
fn rel_text(op: &str, terms: &[(Mono, i128)], t: i128) -> String {
    let w = width_for(terms, t);
    let pos: Vec<_> = terms.iter().filter(|x| x.1 > 0).cloned().collect();
    let neg: Vec<_> = terms
        .iter()
        .filter(|x| x.1 < 0)
        .map(|x| (x.0, -x.1))
        .collect();
    let (pk, nk) = if t < 0 { (-t, 0) } else { (0, t) };
    format!("({op} {} {})", sum_text(&pos, pk, w), sum_text(&neg, nk, w))
}

/// The signs `p` may still have, and what to store what is learned under.
fn known_mask(c: &Canon) -> u8 {
    let (lo, hi) = range(&c.terms);
    let mut mask = 0;
    // T in [lo, hi]
    if lo < c.t || (!c.exact && lo <= c.t) {
        mask |= NEG;
    }
    if c.exact && lo <= c.t && c.t <= hi {
        mask |= ZERO;
    }
    if hi > c.t {
        mask |= POS;
    }
    if let Some(list) = grid().signs.get(&c.terms) {
        // list of (t, mask of T against t: NEG T<t, ZERO T==t, POS T>t)
        for (t, m) in list {
            let mut allow = 0;
            for bit in [NEG, ZERO, POS] {
                if m & bit == 0 {
                    continue;
                }
                // T in this region relative to t; which signs relative to c.t are possible?
                let (rlo, rhi) = match bit {
                    NEG => (i128::MIN, t - 1),
                    ZERO => (*t, *t),
                    _ => (t + 1, i128::MAX),
                };
                if rlo < c.t || (!c.exact && rlo <= c.t) {
                    allow |= NEG;
                }
                if c.exact && rlo <= c.t && c.t <= rhi {
                    allow |= ZERO;
                }
                if rhi > c.t {
                    allow |= POS;
                }
            }
            mask &= allow;
        }
    }
    mask
}

/// Whether the sign of `p` is in `want`; branches if both are possible.
fn sign_in(p: &Poly, want: u8) -> bool {
    if p.is_const() {
        let s = match p.sign_const() {
            -1 => NEG,
            0 => ZERO,
            _ => POS,
        };
        return s & want != 0;
    }
    let c = canon(p);
    let want = if c.flipped { flip(want) } else { want };
    let known = known_mask(&c);
    let yes = known & want;
    let no = known & !want;
    if no == 0 && yes != 0 {
        return true;
    }
    if yes == 0 && no != 0 {
        return false;
    }
    if known == 0 {
        engine::abort(engine::Abort::Infeasible);
    }
    // Text for "sign in mask", with T integer against t.
    let text = |mask: u8| -> String {
        // In terms of T: NEG is T < t (exact) or T <= t (not exact).
        let mut alts: Vec<String> = vec![];
        let neg = mask & NEG != 0;
        let zero = mask & ZERO != 0 && c.exact;
        let pos = mask & POS != 0;
        if c.exact {
            match (neg, zero, pos) {
                (true, true, false) => alts.push(rel_text("bvule", &c.terms, c.t)),
                (false, true, true) => alts.push(rel_text("bvuge", &c.terms, c.t)),
                _ => {
                    if neg {
                        alts.push(rel_text("bvult", &c.terms, c.t));
                    }
                    if zero {
                        alts.push(rel_text("=", &c.terms, c.t));
                    }
                    if pos {
                        alts.push(rel_text("bvugt", &c.terms, c.t));
                    }
                }
            }
        } else {
            if neg {
                alts.push(rel_text("bvule", &c.terms, c.t));
            }
            if pos {
                alts.push(rel_text("bvugt", &c.terms, c.t));
            }
        }
        if alts.len() == 1 {
            alts.pop().unwrap()
        } else {
            format!("(or {})", alts.join(" "))
        }
    };
    let lits = [text(yes), text(no)];
    let terms = c.terms.clone();
    let (t, exact) = (c.t, c.exact);
    let which = ctx().decide(&lits, move |cx| {
        let vars = var_values(cx);
        let p = Poly {
            terms,
            konst: 0,
            den: 1,
        };
        let (v, _) = p.eval(&vars)?;
        let s = if v < t || (!exact && v == t) {
            NEG
        } else if v == t {
            ZERO
        } else {
            POS
        };
        Some(if s & yes != 0 { 0 } else { 1 })
    });
    let learned = if which == 0 { yes } else { no };
    // Store relative to the integer t.
    let m = if c.exact {
        learned
    } else {
        (if learned & NEG != 0 { NEG | ZERO } else { 0 }) | (learned & POS)
    };
    grid()
        .signs
        .entry(c.terms.clone())
        .or_default()
        .push((c.t, m));
    which == 0
}

/// p - q for comparison purposes, where the values may be roots: returns a polynomial whose sign is
/// the sign of a - b.
fn difference(a: GridF, b: GridF) -> Poly {
    let (ra, rb) = (a.root(), b.root());
    let (pa, pb) = (a.poly(), b.poly());
    match (ra, rb) {
        (false, false) => pa.add(&pb.neg()),
        (true, true) => pa.add(&pb.neg()),
        (true, false) => {
            if sign_in(&pb, NEG) {
                Poly::constant(1, 1)
            } else {
                pa.add(&pb.mul(&pb).neg())
            }
        }
        (false, true) => {
            if sign_in(&pa, NEG) {
                Poly::constant(-1, 1)
            } else {
                pa.mul(&pa).add(&pb.neg())
            }
        }
    }
}

fn compare_in(a: GridF, b: GridF, want: u8) -> bool {
    if a.0 == b.0 {
        return want & ZERO != 0;
    }
    let d = difference(a, b);
    sign_in(&d, want)
}

impl PartialEq for GridF {
    fn eq(&self, o: &Self) -> bool {
        compare_in(*self, *o, ZERO)
    }
}

impl PartialOrd for GridF {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.0 == o.0 {
            return Some(Ordering::Equal);
        }
        let d = difference(*self, *o);
        Some(if sign_in(&d, NEG) {
            Ordering::Less
        } else if sign_in(&d, ZERO) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Self) -> bool {
        compare_in(*self, *o, NEG)
    }
    fn le(&self, o: &Self) -> bool {
        compare_in(*self, *o, NEG | ZERO)
    }
    fn gt(&self, o: &Self) -> bool {
        compare_in(*self, *o, POS)
    }
    fn ge(&self, o: &Self) -> bool {
        compare_in(*self, *o, POS | ZERO)
    }
}

impl fmt::Debug for GridF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.poly())
    }
}

impl fmt::Display for GridF {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.poly())
    }
}

impl Add for GridF {
    type Output = GridF;
    fn add(self, o: GridF) -> GridF {
        if is_zero_poly(self) {
            return o;
        }
        if is_zero_poly(o) {
            return self;
        }
        make(self.plain("root + x").add(&*o.plain("x + root")), false)
    }
}

fn is_zero_poly(x: GridF) -> bool {
    let p = x.poly();
    p.is_const() && p.konst == 0
}

impl Sub for GridF {
    type Output = GridF;
    fn sub(self, o: GridF) -> GridF {
        if self.0 == o.0 {
            return konst(0, 1);
        }
        if is_zero_poly(o) {
            return self;
        }
        make(self.plain("root - x").add(&o.plain("x - root").neg()), false)
    }
}

impl Mul for GridF {
    type Output = GridF;
    fn mul(self, o: GridF) -> GridF {
        match (self.root(), o.root()) {
            (true, true) => {
                if self.0 == o.0 {
                    make((*self.poly()).clone(), false)
                } else {
                    make(self.poly().mul(&o.poly()), true)
                }
            }
            (false, false) => make(self.poly().mul(&o.poly()), false),
            (true, false) => root_scaled(self, o),
            (false, true) => root_scaled(o, self),
        }
    }
}

fn root_scaled(root: GridF, x: GridF) -> GridF {
    let p = x.poly();
    if p.is_const() && p.konst >= 0 {
        make(root.poly().mul(&p.mul(&p)), true)
    } else if let Some(r) = exact_sqrt(&root.poly()) {
        make(r.mul(&p), false)
    } else {
        unsupported("root * x")
    }
}

impl Div for GridF {
    type Output = GridF;
    fn div(self, o: GridF) -> GridF {
        if self.root() {
            let q = o.poly();
            if !o.root() && q.is_const() && q.konst > 0 {
                let inv = Poly::constant(q.den, q.konst);
                return make(self.poly().mul(&inv.mul(&inv)), true);
            }
        }
        let q = o.plain("x / root");
        if !q.is_const() {
            unsupported("division by a symbolic value");
        }
        if q.konst == 0 {
            unsupported("division by zero");
        }
        let s = q.konst.signum();
        let inv = Poly::constant(q.den * s, q.konst.abs());
        make(self.plain("root / x").mul(&inv), false)
    }
}

impl Rem for GridF {
    type Output = GridF;
    fn rem(self, _: GridF) -> GridF {
        unsupported("rem")
    }
}

impl Neg for GridF {
    type Output = GridF;
    fn neg(self) -> GridF {
        make(self.plain("-root").neg(), false)
    }
}

macro_rules! assign {
    ($($tr:ident $f:ident $op:tt),*) => {$(
        impl $tr for GridF { fn $f(&mut self, o: GridF) { *self = *self $op o; } }
    )*};
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);

impl std::iter::Sum for GridF {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(GridF::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a GridF> for GridF {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(GridF::zero(), |a, b| a + *b)
    }
}
impl std::iter::Product for GridF {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(GridF::one(), |a, b| a * b)
    }
}

impl Default for GridF {
    fn default() -> Self {
        GridF::zero()
    }
}

impl Zero for GridF {
    fn zero() -> Self {
        konst(0, 1)
    }
    fn is_zero(&self) -> bool {
        compare_in(*self, GridF::zero(), ZERO)
    }
}

impl One for GridF {
    fn one() -> Self {
        konst(1, 1)
    }
}

impl Num for GridF {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}

impl GridF {
    fn trunc_int(&self) -> i128 {
        let p = self.plain("root to integer");
        if p.is_const() {
            p.konst / p.den
        } else {
            unsupported("symbolic to integer")
        }
    }
}

impl ToPrimitive for GridF {
    fn to_i64(&self) -> Option<i64> {
        self.trunc_int().try_into().ok()
    }
    fn to_u64(&self) -> Option<u64> {
        self.trunc_int().try_into().ok()
    }
    fn to_f64(&self) -> Option<f64> {
        let p = self.plain("root to f64");
        if p.is_const() {
            Some(p.konst as f64 / p.den as f64)
        } else {
            unsupported("symbolic to f64")
        }
    }
}

impl NumCast for GridF {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        let (a, b) = rational(n.to_f64()?);
        Some(konst(a, b))
    }
}

impl Clamp for GridF {
    fn clamp(self, min: Self, max: Self) -> Self {
        assert!(min <= max);
        if self < min {
            min
        } else if self > max {
            max
        } else {
            self
        }
    }
}

impl Number for GridF {
    fn from_u8(n: u8) -> Self {
        konst(n as i128, 1)
    }
    fn from_u32(n: u32) -> Self {
        konst(n as i128, 1)
    }
    fn from_u64(n: u64) -> Self {
        konst(n as i128, 1)
    }
    fn from_usize(n: usize) -> Self {
        konst(n as i128, 1)
    }
}

impl Float for GridF {
    fn from_f32(n: f32) -> Self {
        let (a, b) = rational(n as f64);
        konst(a, b)
    }
    fn from_f64(n: f64) -> Self {
        let (a, b) = rational(n);
        konst(a, b)
    }
}

macro_rules! no {
    ($($f:ident ( $($a:ident : $t:ty),* ) -> $r:ty;)*) => {$(
        fn $f(self $(, $a: $t)*) -> $r { $(let _ = $a;)* unsupported(stringify!($f)) }
    )*};
}

impl num_traits::real::Real for GridF {
    fn min_value() -> Self {
        konst(-BIG, 1)
    }
    fn min_positive_value() -> Self {
        konst(1, 1 << 60)
    }
    fn epsilon() -> Self {
        konst(1, 1 << 52)
    }
    fn max_value() -> Self {
        konst(BIG, 1)
    }
    fn abs(self) -> Self {
        if self.root() {
            return self;
        }
        let p = self.poly();
        if sign_in(&p, NEG) {
            make(p.neg(), false)
        } else {
            self
        }
    }
    fn signum(self) -> Self {
        if compare_in(self, GridF::zero(), NEG) {
            konst(-1, 1)
        } else {
            konst(1, 1)
        }
    }
    fn is_sign_positive(self) -> bool {
        compare_in(self, GridF::zero(), POS | ZERO)
    }
    fn is_sign_negative(self) -> bool {
        compare_in(self, GridF::zero(), NEG)
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
    }
    fn recip(self) -> Self {
        GridF::one() / self
    }
    fn powi(self, n: i32) -> Self {
        if n < 0 {
            return GridF::one() / self.powi(-n);
        }
        let mut r = GridF::one();
        for _ in 0..n {
            r = r * self;
        }
        r
    }
    fn powf(self, n: Self) -> Self {
        let e = n.poly();
        if e.is_const() && !n.root() {
            if e.den == 1 && e.konst >= 0 && e.konst <= 8 {
                return self.powi(e.konst as i32);
            }
            if e.den == 2 && e.konst == 1 {
                return self.sqrt();
            }
        }
        unsupported("powf")
    }
    fn sqrt(self) -> Self {
        if self.root() {
            unsupported("fourth root");
        }
        let p = self.poly();
        if let Some(r) = exact_sqrt(&p) {
            return make(r, false);
        }
        let id = self.val().poly;
        let squares = match grid().squares.get(&id) {
            Some(b) => *b,
            None => {
                let b = sum_of_squares(&p).unwrap_or(false);
                grid().squares.insert(id, b);
                b
            }
        };
        if !squares && sign_in(&p, NEG) {
            unsupported("root of a negative number");
        }
        make((*p).clone(), true)
    }
    fn max(self, o: Self) -> Self {
        if self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Self) -> Self {
        if o < self {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Self) -> Self {
        if self <= o {
            GridF::zero()
        } else {
            self - o
        }
    }
    fn hypot(self, o: Self) -> Self {
        (self * self + o * o).sqrt()
    }
    fn floor(self) -> Self {
        round_like(self, "floor")
    }
    fn ceil(self) -> Self {
        round_like(self, "ceil")
    }
    fn round(self) -> Self {
        round_like(self, "round")
    }
    fn trunc(self) -> Self {
        round_like(self, "trunc")
    }
    fn sin_cos(self) -> (Self, Self) {
        unsupported("sin_cos")
    }
    no! {
        fract() -> Self; exp() -> Self; exp2() -> Self; ln() -> Self; log(b: Self) -> Self;
        log2() -> Self; log10() -> Self; to_degrees() -> Self; to_radians() -> Self; cbrt() -> Self;
        sin() -> Self; cos() -> Self; tan() -> Self; asin() -> Self; acos() -> Self; atan() -> Self;
        atan2(o: Self) -> Self; exp_m1() -> Self; ln_1p() -> Self; sinh() -> Self; cosh() -> Self;
        tanh() -> Self; asinh() -> Self; acosh() -> Self; atanh() -> Self;
    }
}

fn round_like(x: GridF, what: &str) -> GridF {
    let p = x.plain(what);
    if p.den == 1 {
        return x;
    }
    if p.is_const() {
        let (n, d) = (p.konst, p.den);
        let f = n.div_euclid(d);
        let r = match what {
            "floor" => f,
            "ceil" => -((-n).div_euclid(d)),
            "trunc" => n / d,
            _ => {
                let twice = 2 * n.abs();
                n.signum() * ((twice + d) / (2 * d))
            }
        };
        return konst(r, 1);
    }
    unsupported(what)
}

/// Number types a harness runs on: symbolic or native.
pub trait Dom: Float + fmt::Debug + Default + 'static {
    /// An arbitrary integer in lo..=hi.
    fn input(lo: i64, hi: i64) -> Self;
    /// Equality up to the rounding of the native type (exact for symbolic numbers).
    fn near(self, o: Self) -> bool;
    /// Equality of the terms, without deciding anything (the rounding of the native type apart).
    fn identical(self, o: Self) -> bool;
    fn int(n: i64) -> Self {
        if n < 0 {
            Self::zero() - Self::from_u64((-n) as u64)
        } else {
            Self::from_u64(n as u64)
        }
    }
    /// Whether rounding hides which of two numbers is greater (never, for symbolic numbers).
    fn tied(_: Self, _: Self) -> bool {
        false
    }
    /// Restrict to a < b without branching.
    fn assume_lt(a: Self, b: Self);
    fn assume_le(a: Self, b: Self);
}

impl Dom for GridF {
    fn input(lo: i64, hi: i64) -> Self {
        GridF::input(lo, hi)
    }
    fn near(self, o: Self) -> bool {
        self == o
    }
    fn identical(self, o: Self) -> bool {
        self.0 == o.0
    }
    fn assume_lt(a: Self, b: Self) {
        engine::assume(a < b)
    }
    fn assume_le(a: Self, b: Self) {
        engine::assume(a <= b)
    }
}

macro_rules! native_dom {
    ($t:ty, $eps:expr) => {
        impl Dom for $t {
            fn input(_: i64, _: i64) -> Self {
                assert_eq!(mode(), Mode::Native);
                // Bit-vector models count from zero; the recorder already added `lo`.
                engine::native_input() as $t
            }
            fn near(self, o: Self) -> bool {
                self == o || (self - o).abs() <= $eps * (1.0 + self.abs().max(o.abs()))
            }
            fn identical(self, o: Self) -> bool {
                self.near(o)
            }
            fn tied(a: Self, b: Self) -> bool {
                a.near(b)
            }
            fn assume_lt(a: Self, b: Self) {
                engine::assume(a < b)
            }
            fn assume_le(a: Self, b: Self) {
                engine::assume(a <= b)
            }
        }
    };
}
native_dom!(f64, 1e-9);
native_dom!(f32, 1e-4);

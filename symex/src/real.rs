//! Real numbers with an error bound: the symbolic number for code with transcendental functions.
//!
//! A number is an affine form over atoms (input bytes, input reals, samples of functions) plus a
//! bound of everything that the rounding of the machine type and of this computation can add. A
//! function application introduces an atom `y` for `f(u)`; what the solver knows of `f` are lemmas
//! (monotonicity, tangents, secants), added where its model contradicts `f`. Every constraint is
//! therefore weaker than the truth, and what it refutes is refuted for the machine type; a model is
//! only a candidate, which the caller runs natively.
use crate::engine::{self, ctx, mode, unsupported, Abort, Ctx, Mode};
use crate::solver::Sat;
use auto_palette::verif::{Clamp, Float, Number};
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};
use std::any::Any;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::ops::*;

const KONST: u32 = u32::MAX;
/// What the computation of coefficients in f64 may lose, relative.
const OWN: f64 = 8.9e-16;

/// A function of one argument, on the non-negative numbers (`Square`: on all).
#[derive(Debug, Clone, Copy, PartialEq)]
enum Fun {
    Pow(f64),
    Square,
}

impl Fun {
    fn at(self, x: f64) -> f64 {
        match self {
            Fun::Pow(p) => x.max(0.0).powf(p),
            Fun::Square => x * x,
        }
    }
    fn slope(self, x: f64) -> f64 {
        match self {
            Fun::Pow(p) => p * x.max(0.0).powf(p - 1.0),
            Fun::Square => 2.0 * x,
        }
    }
    fn inverse(self, y: f64) -> f64 {
        match self {
            Fun::Pow(p) => y.max(0.0).powf(1.0 / p),
            Fun::Square => y.max(0.0).sqrt(),
        }
    }
    fn convex(self) -> bool {
        match self {
            Fun::Pow(p) => p >= 1.0 || p < 0.0,
            Fun::Square => true,
        }
    }
    fn increasing(self, lo: f64) -> bool {
        match self {
            Fun::Pow(p) => p > 0.0,
            Fun::Square => lo >= 0.0,
        }
    }
    fn same(self, o: Fun) -> bool {
        match (self, o) {
            (Fun::Pow(a), Fun::Pow(b)) => (a - b).abs() < 1e-6,
            (a, b) => a == b,
        }
    }
    fn bits(self) -> u64 {
        match self {
            Fun::Pow(p) => p.to_bits(),
            Fun::Square => 1,
        }
    }
    /// Bounds of the values and the greatest slope on lo..=hi.
    fn range(self, lo: f64, hi: f64) -> (f64, f64, f64) {
        let (a, b) = (self.at(lo), self.at(hi));
        let (mut l, h) = (a.min(b), a.max(b));
        if self == Fun::Square && lo < 0.0 && hi > 0.0 {
            l = 0.0;
        }
        let pad = |x: f64| x.abs() * 1e-14;
        let m = self.slope(lo).abs().max(self.slope(hi).abs()) * (1.0 + 1e-12);
        (l - pad(l), h + pad(h), m)
    }
}

#[derive(Debug, Clone, Default, PartialEq)]
struct Form {
    terms: Vec<(u32, f64)>,
    k: f64,
    err: f64,
}

impl Form {
    fn konst(k: f64) -> Form {
        Form { terms: vec![], k, err: 0.0 }
    }
    /// The term of the greatest coefficient.
    fn top(&self) -> Option<(u32, f64)> {
        self.terms.iter().copied().max_by(|x, y| x.1.abs().total_cmp(&y.1.abs()))
    }
    fn atom(a: u32) -> Form {
        Form { terms: vec![(a, 1.0)], k: 0.0, err: 0.0 }
    }
    fn scaled(&self, c: f64) -> Form {
        Form {
            terms: self.terms.iter().map(|(a, x)| (*a, x * c)).collect(),
            k: self.k * c,
            err: self.err * c.abs(),
        }
    }
    /// self + c * o
    fn plus(&self, o: &Form, c: f64) -> Form {
        if c == 0.0 {
            return self.clone();
        }
        let mut terms = Vec::with_capacity(self.terms.len() + o.terms.len());
        let (mut i, mut j) = (0, 0);
        while i < self.terms.len() || j < o.terms.len() {
            let a = self.terms.get(i).map_or(u32::MAX, |t| t.0);
            let b = o.terms.get(j).map_or(u32::MAX, |t| t.0);
            if a < b {
                terms.push(self.terms[i]);
                i += 1;
            } else if b < a {
                terms.push((b, o.terms[j].1 * c));
                j += 1;
            } else {
                let x = self.terms[i].1;
                let y = o.terms[j].1 * c;
                let s = x + y;
                // What is left of a cancellation is the rounding of the coefficients.
                if s.abs() > 4e-16 * x.abs().max(y.abs()) {
                    terms.push((a, s));
                }
                i += 1;
                j += 1;
            }
        }
        Form { terms, k: self.k + c * o.k, err: self.err + c.abs() * o.err }
    }
}

/// Bounds of an affine form whose greatest coefficient is one.
struct Direction {
    terms: Vec<(u32, f64)>,
    lo: f64,
    hi: f64,
}

#[derive(Debug, Clone)]
enum Def {
    Input,
    /// The value of a node, within the error of its form.
    Act(u32),
    /// `f(u)` for u in the guard.
    Sample { fun: Fun, arg: u32, lo: f64, hi: f64 },
    /// `x * y`
    Product { x: u32, y: u32 },
    /// A whole number within these distances of a node.
    Whole { arg: u32, below: f64, above: f64 },
}

struct Atom {
    lo: f64,
    hi: f64,
    int: bool,
    def: Def,
    /// Its SMT constant, once used.
    id: Option<usize>,
    name: String,
    breaks: Vec<f64>,
    facts: Vec<usize>,
    /// The path that last used it.
    used: u64,
}

#[derive(Clone)]
struct Node {
    form: Form,
    lo: f64,
    hi: f64,
    act: Option<u32>,
    app: Option<(Fun, u32)>,
    abs_max: f64,
}

pub struct Reals {
    nodes: Vec<Node>,
    atoms: Vec<Atom>,
    memo: HashMap<(u8, u32, u64, u32, u64), u32>,
    atom_keys: HashMap<(u8, u32, u64, u64, u64), u32>,
    node_keys: HashMap<(u32, u64, u64), u32>,
    /// `b - a` for `a - b`, where the former came first.
    negated: HashMap<u32, u32>,
    path: u64,
    // Of the current path:
    refined: HashMap<u32, (f64, f64)>,
    directions: Vec<Direction>,
    direction_keys: HashMap<Vec<(u32, u64)>, usize>,
    atom_refined: HashMap<u32, (f64, f64)>,
    order: HashMap<(u32, u64, u32, u64), u8>,
    samples: Vec<u32>,
    sampled: std::collections::HashSet<u32>,
    applied: HashMap<(u32, u64), (u32, f64)>,
    tags: Vec<(u8, u32)>,
    /// Whether any unsigned integer may be a tag.
    wide_tags: bool,
    margin: f64,
    linked: std::collections::HashSet<(u32, u32)>,
    pub proofs: u64,
}

impl Reals {
    pub fn boxed() -> Box<dyn Any + Send> {
        Box::new(Reals {
            nodes: vec![],
            atoms: vec![],
            memo: HashMap::new(),
            atom_keys: HashMap::new(),
            node_keys: HashMap::new(),
            negated: HashMap::new(),
            path: 0,
            refined: HashMap::new(),
            directions: vec![],
            direction_keys: HashMap::new(),
            atom_refined: HashMap::new(),
            order: HashMap::new(),
            samples: vec![],
            sampled: Default::default(),
            applied: HashMap::new(),
            tags: vec![],
            wide_tags: false,
            margin: 0.0,
            linked: Default::default(),
            proofs: 0,
        })
    }
}

fn dom() -> &'static mut Reals {
    let c = ctx();
    let path = c.path;
    let d: &'static mut Reals = unsafe { &mut *(c.dom.downcast_mut::<Reals>().unwrap() as *mut Reals) };
    if d.path != path {
        d.path = path;
        c.scope_paths();
        d.refined.clear();
        d.directions.clear();
        d.direction_keys.clear();
        d.atom_refined.clear();
        d.order.clear();
        d.samples.clear();
        d.sampled.clear();
        d.applied.clear();
        d.tags.clear();
        d.wide_tags = false;
        d.margin = 0.0;
    }
    d
}

pub fn consistent() -> bool {
    dom().consistent()
}

/// A decimal numeral of SMT-LIB.
fn num(x: f64) -> String {
    assert!(x.is_finite(), "SOLVER: {x}");
    let t = format!("{:.24}", x.abs());
    let t = t.trim_end_matches('0');
    let t = if t.ends_with('.') { format!("{t}0") } else { t.to_string() };
    if x < 0.0 {
        format!("(- {t})")
    } else {
        t
    }
}

fn infeasible() -> ! {
    if std::env::var("SYMEX_TRACE").is_ok() {
        eprintln!("infeasible {}", std::backtrace::Backtrace::force_capture());
    }
    engine::abort(Abort::Infeasible)
}

fn slack(x: f64) -> f64 {
    1e-15 + x.abs() * 4e-15
}

fn wide(x: f64, sign: f64, fun: Fun) -> f64 {
    let w = x + sign * 1e-11 * (1.0 + x.abs());
    match fun {
        Fun::Pow(p) if p < 0.0 && sign < 0.0 => w.max(x * 0.5),
        Fun::Pow(_) => w.max(0.0),
        Fun::Square => w,
    }
}

/// Half of the distance of two neighbours, relative.
fn unit(single: bool) -> f64 {
    if single {
        6.0e-8
    } else {
        1.2e-16
    }
}

impl Reals {
    fn atom(&mut self, key: (u8, u32, u64, u64, u64), lo: f64, hi: f64, int: bool, def: Def) -> u32 {
        if let Some(a) = self.atom_keys.get(&key) {
            return *a;
        }
        let a = self.atoms.len() as u32;
        self.atoms.push(Atom { lo, hi, int, def, id: None, name: format!("r{a}"), breaks: vec![], facts: vec![], used: 0 });
        self.atom_keys.insert(key, a);
        a
    }

    /// The bounds of an atom on this path.
    fn bounds(&self, a: u32) -> (f64, f64) {
        let t = &self.atoms[a as usize];
        let (mut l, mut h) = match self.atom_refined.get(&a) {
            Some((l, h)) => (l.max(t.lo), h.min(t.hi)),
            None => (t.lo, t.hi),
        };
        // What is known of its argument.
        match t.def {
            Def::Act(n) => {
                let f = &self.nodes[n as usize].form;
                let (x, y) = self.form_bounds(f, true);
                let (x, y) = match self.refined.get(&n) {
                    Some((p, q)) => (x.max(*p), y.min(*q)),
                    None => (x, y),
                };
                (l, h) = (l.max(x - f.err), h.min(y + f.err));
            }
            Def::Sample { fun, arg, lo, hi } => {
                let (x, y) = self.bounds(arg);
                let (x, y) = (x.max(lo), y.min(hi));
                if x <= y {
                    let (p, q, _) = fun.range(x, y);
                    (l, h) = (l.max(p - slack(p)), h.min(q + slack(q)));
                }
            }
            Def::Whole { arg, below, above } => {
                let (x, y) = self.bounds(arg);
                (l, h) = (l.max((x - below).ceil()), h.min((y + above).floor()));
            }
            _ => {}
        }
        (l, h)
    }

    fn form_bounds(&self, f: &Form, path: bool) -> (f64, f64) {
        let (mut lo, mut hi) = (f.k, f.k);
        for (a, c) in &f.terms {
            let (l, h) = if path {
                self.bounds(*a)
            } else {
                (self.atoms[*a as usize].lo, self.atoms[*a as usize].hi)
            };
            if *c > 0.0 {
                lo += c * l;
                hi += c * h;
            } else {
                lo += c * h;
                hi += c * l;
            }
        }
        let exact = f.terms.len() <= 1 && f.k == 0.0 && f.terms.iter().all(|t| t.1 == 1.0);
        let pad = f.err + if exact { 0.0 } else { OWN * (lo.abs() + hi.abs()) };
        let (lo, hi) = (lo - pad, hi + pad);
        if path && f.terms.len() > 1 {
            let (l, h) = self.parallel(f);
            return (lo.max(l), hi.min(h));
        }
        (lo, hi)
    }

    /// What the bounds of nodes on this path say about a form that is almost a multiple of theirs.
    fn parallel(&self, f: &Form) -> (f64, f64) {
        let (mut lo, mut hi) = (f64::NEG_INFINITY, f64::INFINITY);
        let Some((first, top)) = f.top() else {
            return (lo, hi);
        };
        for g in &self.directions {
            let Some((_, c)) = g.terms.iter().find(|t| t.0 == first) else { continue };
            let m = top / c;
            if !(m.abs() > 1e-6 && m.abs() < 1e6) {
                continue;
            }
            let (mut rl, mut rh, mut size, mut same) = (0.0, 0.0, 0.0, true);
            let (mut i, mut j) = (0, 0);
            while same && (i < f.terms.len() || j < g.terms.len()) {
                let a = f.terms.get(i).map_or(u32::MAX, |t| t.0);
                let b = g.terms.get(j).map_or(u32::MAX, |t| t.0);
                let atom = a.min(b);
                let x = if a == atom { f.terms[i].1 } else { 0.0 };
                let y = if b == atom { m * g.terms[j].1 } else { 0.0 };
                i += (a == atom) as usize;
                j += (b == atom) as usize;
                let t = &self.atoms[atom as usize];
                size += x.abs().max(y.abs()) * t.lo.abs().max(t.hi.abs());
                let d = x - y;
                if d != 0.0 {
                    same = d.abs() <= 1e-3 * top.abs();
                    rl += (d * t.lo).min(d * t.hi);
                    rh += (d * t.lo).max(d * t.hi);
                }
            }
            if !same {
                continue;
            }
            // The cancellation loses what the coefficients are rounded by.
            let pad = 4.0 * OWN * (size + f.k.abs()) + f.err;
            let (x, y) = if m > 0.0 { (m * g.lo, m * g.hi) } else { (m * g.hi, m * g.lo) };
            lo = lo.max(x + rl + f.k - pad);
            hi = hi.min(y + rh + f.k + pad);
        }
        (lo, hi)
    }

    /// Note the bounds of a node for `parallel`.
    fn direct(&mut self, n: u32, lo: f64, hi: f64) {
        let form = &self.nodes[n as usize].form;
        if form.terms.len() < 2 {
            return;
        }
        let Some((_, top)) = form.top() else { return };
        let terms: Vec<(u32, f64)> = form.terms.iter().map(|(a, c)| (*a, c / top)).collect();
        let pad = form.err + 4.0 * OWN * (form.k.abs() + self.nodes[n as usize].abs_max);
        let (x, y) = ((lo - form.k - pad) / top, (hi - form.k + pad) / top);
        let (x, y) = (x.min(y), x.max(y));
        let key: Vec<(u32, u64)> = terms.iter().map(|(a, c)| (*a, c.to_bits())).collect();
        let next = self.directions.len();
        let at = *self.direction_keys.entry(key).or_insert(next);
        if at == next {
            self.directions.push(Direction { terms, lo: x, hi: y });
        } else {
            let d = &mut self.directions[at];
            (d.lo, d.hi) = (d.lo.max(x), d.hi.min(y));
        }
    }

    /// The bounds of a node on this path.
    fn range(&self, n: u32) -> (f64, f64) {
        let node = &self.nodes[n as usize];
        let (l, h) = self.form_bounds(&node.form, true);
        let (l, h) = (l.max(node.lo), h.min(node.hi));
        match self.refined.get(&n) {
            Some((a, b)) => (l.max(*a), h.min(*b)),
            None => (l, h),
        }
    }

    fn node(&mut self, form: Form, app: Option<(Fun, u32)>) -> u32 {
        let (lo, hi) = self.form_bounds(&form, false);
        let abs_max = lo.abs().max(hi.abs());
        self.nodes.push(Node { form, lo, hi, act: None, app, abs_max });
        self.nodes.len() as u32 - 1
    }

    fn form_text(&mut self, f: &Form) -> String {
        let mut parts = vec![];
        for (a, c) in f.terms.clone() {
            let name = self.name(a);
            parts.push(if c == 1.0 { name } else { format!("(* {} {name})", num(c)) });
        }
        if f.k != 0.0 || parts.is_empty() {
            parts.push(num(f.k));
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }

    /// The SMT constant of an atom; what is known of it is asserted when it is first used.
    fn name(&mut self, a: u32) -> String {
        if let Some(id) = self.atoms[a as usize].id {
            self.use_atom(a, id);
            return self.atoms[a as usize].name.clone();
        }
        self.atoms[a as usize].used = self.path;
        let t = &mut self.atoms[a as usize];
        let (name, lo, hi, int, def) = (t.name.clone(), t.lo, t.hi, t.int, t.def.clone());
        // Whole numbers too, which is weaker: what follows from them is found by their bounds.
        let n = name.clone();
        let id = ctx().declare(name, "Real");
        t.id = Some(id);
        let (lo_s, hi_s) = if int || matches!(def, Def::Input) { (lo, hi) } else { (lo - slack(lo), hi + slack(hi)) };
        self.fact(a, format!("(and (<= {} {n}) (<= {n} {}))", num(lo_s), num(hi_s)));
        match def {
            Def::Input => {}
            Def::Act(node) => {
                let form = self.nodes[node as usize].form.clone();
                let text = self.form_text(&form);
                let e = form.err + slack(form.err) + OWN * self.nodes[node as usize].abs_max;
                self.fact(a, format!("(and (<= (- {n} {text}) {}) (<= (- {text} {n}) {}))", num(e), num(e)));
            }
            Def::Sample { fun, arg, lo, hi } => {
                debug_assert!(self.sampled.contains(&a), "SOLVER: a sample of another path");
                let u = self.name(arg);
                // Every path that uses the sample satisfies this.
                self.fact(a, Self::guard(&u, lo, hi));
                for i in [0.0, 0.03, 0.3, 1.0] {
                    self.tangent(a, fun, &u, &n, lo + (hi - lo) * i, lo, hi);
                }
                self.secant(a, fun, &u, &n, lo, hi, lo, hi);
                self.atoms[a as usize].breaks = vec![lo, hi];
            }
            Def::Product { x, y } => {
                let (xn, yn) = (self.name(x), self.name(y));
                let (xl, xh) = (self.atoms[x as usize].lo, self.atoms[x as usize].hi);
                let (yl, yh) = (self.atoms[y as usize].lo, self.atoms[y as usize].hi);
                self.mccormick(a, &n, &xn, &yn, (xl, xh), (yl, yh), false);
            }
            Def::Whole { arg, below, above } => {
                let u = self.name(arg);
                self.fact(a, format!("(and (<= (- {n} {u}) {}) (<= (- {u} {n}) {}))", num(above), num(below)));
            }
        }
        n
    }

    fn fact(&mut self, a: u32, text: String) {
        let f = ctx().scoped_fact(text);
        self.atoms[a as usize].facts.push(f);
    }

    /// The atom, and what it is defined by, matter on this path.
    fn use_atom(&mut self, a: u32, id: usize) {
        if self.atoms[a as usize].used == self.path {
            return;
        }
        self.atoms[a as usize].used = self.path;
        debug_assert!(
            !matches!(self.atoms[a as usize].def, Def::Sample { .. }) || self.sampled.contains(&a),
            "SOLVER: a sample of another path"
        );
        ctx().use_name(id);
        for f in self.atoms[a as usize].facts.clone() {
            ctx().use_fact(f);
        }
        match self.atoms[a as usize].def.clone() {
            Def::Input => {}
            Def::Act(n) => {
                for (t, _) in self.nodes[n as usize].form.terms.clone() {
                    self.name(t);
                }
            }
            Def::Sample { arg, .. } | Def::Whole { arg, .. } => {
                self.name(arg);
            }
            Def::Product { x, y } => {
                self.name(x);
                self.name(y);
            }
        }
    }

    fn guard(u: &str, lo: f64, hi: f64) -> String {
        format!("(and (<= {} {u}) (<= {u} {}))", num(lo), num(hi))
    }

    /// What `f` is on either side of a point.
    fn monotone(&mut self, a: u32, fun: Fun, u: &str, y: &str, at: f64, lo: f64) {
        let v = fun.at(at);
        if fun == Fun::Square && lo < 0.0 {
            return;
        }
        let (down, up) = (num(v - slack(v)), num(v + slack(v)));
        let (le, ge) = if fun.increasing(lo) { ("<=", ">=") } else { (">=", "<=") };
        let (for_le, for_ge) = if fun.increasing(lo) { (&up, &down) } else { (&down, &up) };
        self.fact(a, format!(
            "(and (=> (<= {u} {at}) ({le} {y} {for_le})) (=> (>= {u} {at}) ({ge} {y} {for_ge})))",
            at = num(at)
        ));
    }

    fn tangent(&mut self, a: u32, fun: Fun, u: &str, y: &str, at: f64, lo: f64, hi: f64) {
        let (v, s) = (fun.at(at), fun.slope(at));
        if !s.is_finite() || s.abs() > 1e9 {
            return;
        }
        let sl = slack(v) + s.abs() * (lo.abs().max(hi.abs()) + at.abs()) * 1e-15;
        let line = format!("(+ {} (* {} (- {u} {})))", num(if fun.convex() { v - sl } else { v + sl }), num(s), num(at));
        let op = if fun.convex() { ">=" } else { "<=" };
        self.fact(a, format!("({op} {y} {line})"));
    }

    fn secant(&mut self, atom: u32, fun: Fun, u: &str, y: &str, a: f64, b: f64, lo: f64, hi: f64) {
        if !(b - a > 1e-13 * (1.0 + a.abs())) {
            return;
        }
        let (va, vb) = (fun.at(a), fun.at(b));
        let s = (vb - va) / (b - a);
        let sl = slack(va) + slack(vb);
        let line = format!("(+ {} (* {} (- {u} {})))", num(if fun.convex() { va + sl } else { va - sl }), num(s), num(a));
        let op = if fun.convex() { "<=" } else { ">=" };
        let _ = (lo, hi);
        self.fact(atom, format!("(=> {} ({op} {y} {line}))", Self::guard(u, a, b)));
    }

    fn mccormick(&mut self, a: u32, n: &str, x: &str, y: &str, bx: (f64, f64), by: (f64, f64), guarded: bool) {
        let m = slack(bx.0.abs().max(bx.1.abs()) * by.0.abs().max(by.1.abs())) * 4.0;
        let part = |p: f64, q: f64, op: &str, s: f64| {
            // n op p*y + x*q - p*q
            format!("({op} {n} (+ (* {} {y}) (* {} {x}) {}))", num(p), num(q), num(-p * q + s))
        };
        let all = [
            part(bx.0, by.0, ">=", -m),
            part(bx.1, by.1, ">=", -m),
            part(bx.1, by.0, "<=", m),
            part(bx.0, by.1, "<=", m),
        ]
        .join(" ");
        self.fact(a, if guarded {
            format!("(=> (and {} {}) (and {all}))", Self::guard(x, bx.0, bx.1), Self::guard(y, by.0, by.1))
        } else {
            format!("(and {all})")
        });
    }

    /// The atom that stands for the exact value of a node.
    fn act(&mut self, n: u32) -> u32 {
        if let Some(a) = self.nodes[n as usize].act {
            return a;
        }
        let node = &self.nodes[n as usize];
        let exact = node.form.err == 0.0 && node.form.k == 0.0 && node.form.terms.len() == 1 && node.form.terms[0].1 == 1.0;
        let a = if exact {
            node.form.terms[0].0
        } else {
            let (lo, hi) = (node.lo, node.hi);
            self.atom((0, n, 0, 0, 0), lo, hi, false, Def::Act(n))
        };
        self.nodes[n as usize].act = Some(a);
        a
    }

    /// Restrict the bounds of a node on this path.
    fn refine(&mut self, n: u32, lo: f64, hi: f64) {
        let e = self.refined.entry(n).or_insert((f64::NEG_INFINITY, f64::INFINITY));
        *e = (e.0.max(lo), e.1.min(hi));
        let (l, h) = *e;
        self.direct(n, l, h);
        let form = self.nodes[n as usize].form.clone();
        let (lo, hi) = self.range(n);
        if lo > hi + slack(hi) * 100.0 {
            infeasible();
        }
        let pad = form.err + OWN * 4.0 * (form.k.abs() + self.nodes[n as usize].abs_max);
        for (i, (a, c)) in form.terms.iter().enumerate() {
            // c a = node - the rest
            let (mut rl, mut rh) = (form.k - pad, form.k + pad);
            for (j, (b, d)) in form.terms.iter().enumerate() {
                if i != j {
                    let (l, h) = self.bounds(*b);
                    rl += if *d > 0.0 { d * l } else { d * h };
                    rh += if *d > 0.0 { d * h } else { d * l };
                }
            }
            let (x, y) = ((lo - rh) / c, (hi - rl) / c);
            self.refine_atom(*a, x.min(y), x.max(y));
        }
    }

    fn refine_atom(&mut self, a: u32, l: f64, h: f64) {
        let (mut l, mut h) = (l - slack(l), h + slack(h));
        if self.atoms[a as usize].int {
            l = l.ceil();
            h = h.floor();
        }
        let (ol, oh) = self.bounds(a);
        let step = 1e-9 * (oh - ol);
        if !(l > ol + step || h < oh - step) {
            return;
        }
        let (l, h) = (l.max(ol), h.min(oh));
        if l > h + slack(h) * 100.0 {
            infeasible();
        }
        self.atom_refined.insert(a, (l, h));
        match self.atoms[a as usize].def.clone() {
            Def::Act(n) => {
                let err = self.nodes[n as usize].form.err;
                self.refine(n, l - err, h + err);
            }
            // A sample bounds its argument.
            Def::Sample { fun, arg, lo: gl, hi: gh } if fun.increasing(gl) => {
                let (ul, uh) = (fun.inverse(l), fun.inverse(h));
                self.refine_atom(arg, (ul - slack(ul) * 10.0).max(gl), (uh + slack(uh) * 10.0).min(gh));
            }
            Def::Whole { arg, below, above } => self.refine_atom(arg, l - above, h + below),
            _ => {}
        }
    }

    /// The value of an affine form in the last model.
    fn eval(&self, a: u32, model: &[f64]) -> Option<f64> {
        let id = self.atoms[a as usize].id?;
        model.get(id).copied()
    }

    /// Whether the last model respects the functions; if not, lemmas that exclude it are added.
    fn consistent(&mut self) -> bool {
        let model = ctx().last_model().to_vec();
        let mut ok = true;
        for s in self.samples.clone() {
            let t = &self.atoms[s as usize];
            if t.id.is_none() {
                continue;
            }
            match t.def.clone() {
                Def::Sample { fun, arg, lo, hi } => {
                    let (Some(u), Some(y)) = (self.eval(arg, &model), self.eval(s, &model)) else { continue };
                    if !(lo <= u && u <= hi) {
                        continue;
                    }
                    let v = fun.at(u);
                    if (y - v).abs() <= 2e-8 * (1.0 + v.abs()).min(fun.slope(u).abs().max(1e-3) * 4.0) {
                        continue;
                    }
                    ok = false;
                    if std::env::var("SYMEX_TRACE").is_ok() {
                        eprintln!("  r{s} = {y}, is {v}: {fun:?} of {u}");
                    }
                    let (un, yn) = (self.name(arg), self.name(s));
                    self.tangent(s, fun, &un, &yn, u, lo, hi);
                    let mut breaks = std::mem::take(&mut self.atoms[s as usize].breaks);
                    let at = breaks.partition_point(|b| *b < u);
                    if at > 0 && at < breaks.len() {
                        self.secant(s, fun, &un, &yn, breaks[at - 1], u, lo, hi);
                        self.secant(s, fun, &un, &yn, u, breaks[at], lo, hi);
                    }
                    breaks.insert(at, u);
                    self.atoms[s as usize].breaks = breaks;
                }
                Def::Product { x, y } => {
                    let (Some(p), Some(q), Some(v)) = (self.eval(x, &model), self.eval(y, &model), self.eval(s, &model)) else {
                        continue;
                    };
                    if (p * q - v).abs() <= 1e-6 {
                        continue;
                    }
                    ok = false;
                    let (n, xn, yn) = (self.name(s), self.name(x), self.name(y));
                    let (bx, by) = ((self.atoms[x as usize].lo, self.atoms[x as usize].hi), (self.atoms[y as usize].lo, self.atoms[y as usize].hi));
                    for ix in [(bx.0, p), (p, bx.1)] {
                        for iy in [(by.0, q), (q, by.1)] {
                            self.mccormick(s, &n, &xn, &yn, ix, iy, true);
                        }
                    }
                }
                _ => {}
            }
        }
        ok
    }

    /// `diff < 0`, `= 0` or `> 0` for a multiple of a whole number.
    fn whole_text(&mut self, diff: &Form, mask: u8) -> Option<String> {
        let [(a, c)] = diff.terms[..] else { return None };
        let t = &self.atoms[a as usize];
        let mask = if c > 0.0 { mask } else { flip(mask) };
        if !t.int || mask == LT | GT || mask == LT | EQ | GT {
            return None;
        }
        let at = -diff.k / c;
        let pad = diff.err / c.abs() + slack(at);
        let exact = diff.err == 0.0 && c.abs() == 1.0;
        let pad = if exact { 0.0 } else { pad };
        let (mut lo, mut hi) = (t.lo, t.hi);
        if mask & GT == 0 {
            hi = hi.min((at + pad).floor());
            if exact && mask == LT && at.fract() == 0.0 {
                hi = hi.min(at - 1.0);
            }
        }
        if mask & LT == 0 {
            lo = lo.max((at - pad).ceil());
            if exact && mask == GT && at.fract() == 0.0 {
                lo = lo.max(at + 1.0);
            }
        }
        if lo > hi {
            return Some("false".into());
        }
        let n = self.name(a);
        Some(Self::guard(&n, lo, hi))
    }

    fn explain(&self, f: &Form, tolerance: f64) {
        let model = ctx().last_model().to_vec();
        eprintln!("beyond {tolerance}: {} err {:e}", f.k, f.err);
        let mut seen = vec![];
        let mut todo: Vec<u32> = f.terms.iter().map(|t| t.0).collect();
        for (a, c) in &f.terms {
            eprintln!("  {c} * r{a}");
        }
        while let Some(a) = todo.pop() {
            if seen.contains(&a) {
                continue;
            }
            seen.push(a);
            let t = &self.atoms[a as usize];
            eprintln!("  r{a} = {:?} in {:?} {:?}", self.eval(a, &model), self.bounds(a), t.def);
            match &t.def {
                Def::Sample { arg, .. } | Def::Whole { arg, .. } => todo.push(*arg),
                Def::Act(n) => {
                    let g = &self.nodes[*n as usize].form;
                    eprintln!("    form {g:?}");
                    todo.extend(g.terms.iter().map(|t| t.0));
                }
                _ => {}
            }
        }
    }

    /// The byte that stands for a whole number in 0..=255.
    fn tag(&mut self, atom: u32) -> u8 {
        if let Some(t) = self.tags.iter().find(|t| t.1 == atom) {
            return t.0;
        }
        let mut tag = 31u8;
        while self.tags.iter().any(|t| t.0 == tag) {
            tag = tag.checked_add(3).expect("SOLVER: out of tags");
        }
        self.tags.push((tag, atom));
        tag
    }

    fn tagged<const S: bool>(&self, n: f64) -> Option<RealF<S>> {
        let (_, atom) = self.tags.iter().find(|t| t.0 as f64 == n)?;
        Some(RealF::exact(Form::atom(*atom), (*atom, 3, 0)))
    }

    fn note(&mut self, a: u32) {
        if self.sampled.insert(a) {
            self.samples.push(a);
        }
    }

    /// Samples of a function at arguments that are always close are close.
    fn link(&mut self, y: u32, s: u32) {
        let (Def::Sample { fun, arg, lo, hi }, Def::Sample { fun: other, arg: arg2, lo: lo2, hi: hi2 }) =
            (self.atoms[y as usize].def.clone(), self.atoms[s as usize].def.clone())
        else {
            return;
        };
        if y == s || !fun.same(other) || fun == Fun::Square || !self.linked.insert((y, s)) {
            return;
        }
        let of = |d: &Self, a: u32| match d.atoms[a as usize].def.clone() {
            Def::Act(n) => d.nodes[n as usize].form.clone(),
            _ => Form::atom(a),
        };
        let diff = of(self, arg).plus(&of(self, arg2), -1.0);
        let (dl, dh) = self.form_bounds(&diff, false);
        let off = dl.abs().max(dh.abs()) * 1.001 + 1e-15;
        let (lo, hi) = (lo.min(lo2), hi.max(hi2));
        if off > 1e-4 * (1.0 + hi.abs()) || lo <= 0.0 {
            return;
        }
        let (u, v, yn, sn) = (self.name(arg), self.name(arg2), self.name(y), self.name(s));
        let mut a = lo;
        while a < hi {
            let b = a * 4.0;
            let slope = fun.range((a - off).max(lo), b + off).2;
            let bound = slope * off + slack(fun.at(hi)) * 2.0;
            self.fact(y, format!(
                "(=> (and {} (>= {v} {})) (and (<= (- {yn} {sn}) {bound}) (<= (- {sn} {yn}) {bound})))",
                Self::guard(&u, a, b),
                num(lo),
                bound = num(bound)
            ));
            a = b;
        }
    }

    /// Samples at arguments in a tiny interval, in terms of the argument.
    fn simplify(&self, form: &Form) -> Form {
        let mut form = form.clone();
        for _ in 0..4 {
            let mut next = None;
            for (a, c) in &form.terms {
                let Def::Sample { fun, arg, .. } = self.atoms[*a as usize].def else { continue };
                let (l, h) = self.bounds(arg);
                if !(h - l < 1e-4) || h < l {
                    continue;
                }
                let bend = match fun {
                    Fun::Square => 2.0,
                    Fun::Pow(p) => (p * (p - 1.0)).abs() * l.powf(p - 2.0).max(h.powf(p - 2.0)),
                };
                let m = (l + h) / 2.0;
                let err = bend * (h - l) * (h - l) / 2.0 * 1.01 + slack(fun.at(m)) + fun.slope(m).abs() * slack(h);
                if !(c.abs() * err <= (form.err * 0.1).max(1e-9)) {
                    continue;
                }
                next = Some((*a, *c, fun.at(m), fun.slope(m), m, arg, err));
                break;
            }
            let Some((a, c, v, s, m, arg, err)) = next else { break };
            form.terms.retain(|t| t.0 != a);
            let of = match self.atoms[arg as usize].def {
                Def::Act(n) => self.nodes[n as usize].form.clone(),
                _ => Form::atom(arg),
            };
            form = form.plus(&of, c * s);
            form.k += c * (v - s * m);
            form.err += c.abs() * err;
        }
        form
    }

    /// The value of an atom for these inputs.
    fn concrete(&self, a: u32, at: &dyn Fn(f64, f64) -> f64) -> f64 {
        let t = &self.atoms[a as usize];
        match &t.def {
            Def::Input => {
                let (l, h) = self.bounds(a);
                let v = at(l, h);
                if t.int {
                    v.round()
                } else {
                    v
                }
            }
            Def::Act(n) => self.concrete_form(&self.nodes[*n as usize].form, at),
            Def::Sample { fun, arg, .. } => fun.at(self.concrete(*arg, at)),
            Def::Product { x, y } => self.concrete(*x, at) * self.concrete(*y, at),
            Def::Whole { arg, below, .. } => (self.concrete(*arg, at) + 1.0 - below).floor(),
        }
    }

    fn concrete_form(&self, f: &Form, at: &dyn Fn(f64, f64) -> f64) -> f64 {
        f.terms.iter().fold(f.k, |s, (a, c)| s + c * self.concrete(*a, at))
    }

    /// How far `form + diff` is from `form`: a factor of at most 1 + r, and a rest.
    fn relative(&self, form: &Form, diff: &Form) -> Option<(f64, f64)> {
        let mut r = 0.0f64;
        let mut rest = diff.err + form.err + diff.k.abs();
        for (a, c) in &form.terms {
            if *c < 0.0 || self.bounds(*a).0 < 0.0 {
                return None;
            }
            if let Some((_, dc)) = diff.terms.iter().find(|t| t.0 == *a) {
                r = r.max(dc.abs() / c);
            }
        }
        if form.k < 0.0 {
            // The factor is of the terms alone.
            rest += r * -form.k;
        }
        for (a, c) in &diff.terms {
            if !form.terms.iter().any(|t| t.0 == *a) {
                let (l, h) = self.bounds(*a);
                rest += c.abs() * l.abs().max(h.abs());
            }
        }
        Some((r, rest))
    }

    /// Whether the path allows `lit`, with lemmas as long as its models contradict the functions.
    fn allows(&mut self, c: &mut Ctx, lit: &str, rounds: usize) -> bool {
        if lit == "false" {
            return false;
        }
        let trace = std::env::var("SYMEX_TRACE").is_ok();
        let start = std::time::Instant::now();
        for round in 0..rounds {
            let r = c.probe(lit);
            if trace {
                eprintln!("path {} round {round} {r:?} {:.3} s {lit}", c.path, start.elapsed().as_secs_f64());
            }
            match r {
                Sat::Unsat => return false,
                Sat::Unknown => engine::abort(Abort::Inconclusive("query".into())),
                Sat::Sat => {}
            }
            if self.consistent() {
                if trace {
                    eprintln!("path {} round {round} consistent {:.3} s {lit}", c.path, start.elapsed().as_secs_f64());
                }
                return true;
            }
        }
        true
    }
}

#[derive(Clone, Copy)]
pub struct RealF<const SINGLE: bool> {
    id: u32,
    c: f64,
}

impl<const S: bool> RealF<S> {
    fn konst(c: f64) -> Self {
        RealF { id: KONST, c: if S { c as f32 as f64 } else { c } }
    }
    fn of(id: u32) -> Self {
        let f = &dom().nodes[id as usize].form;
        // Exactly zero.
        if f.terms.is_empty() && f.err == 0.0 {
            return Self::konst(f.k);
        }
        RealF { id, c: 0.0 }
    }
    fn integer(n: f64) -> Self {
        let d = dom();
        if d.wide_tags {
            if let Some(t) = d.tagged(n) {
                return t;
            }
        }
        Self::konst(n)
    }
    fn is_konst(self) -> bool {
        self.id == KONST
    }
    fn is_nan(self) -> bool {
        self.is_konst() && self.c.is_nan()
    }
    fn form(self) -> Form {
        if self.is_konst() {
            Form::konst(self.c)
        } else {
            dom().nodes[self.id as usize].form.clone()
        }
    }
    fn key(self) -> (u32, u64) {
        (self.id, if self.is_konst() { self.c.to_bits() } else { 0 })
    }
    /// Not negative on any path.
    fn nonneg(self) -> bool {
        if self.is_konst() {
            self.c >= 0.0
        } else {
            dom().nodes[self.id as usize].lo >= 0.0
        }
    }
    fn memo(op: u8, a: Self, b: Self, make: impl FnOnce() -> Form) -> Self {
        let ((i, x), (j, y)) = (a.key(), b.key());
        let k = (op | if S { 128 } else { 0 }, i, x, j, y);
        if let Some(n) = dom().memo.get(&k) {
            return Self::of(*n);
        }
        let mut form = make();
        let (lo, hi) = dom().form_bounds(&form, false);
        form.err += (unit(S) + OWN) * lo.abs().max(hi.abs());
        let n = dom().node(form, None);
        // Sums, products and quotients of such numbers are not negative in the machine type either.
        if matches!(op, 0 | 2 | 3 | 4) && a.nonneg() && b.nonneg() {
            let node = &mut dom().nodes[n as usize];
            node.lo = node.lo.max(0.0);
        }
        dom().memo.insert(k, n);
        Self::of(n)
    }
    fn range(self) -> (f64, f64) {
        if self.is_konst() {
            (self.c, self.c)
        } else {
            dom().range(self.id)
        }
    }

    /// The value `form`, without further rounding.
    fn exact(form: Form, key: (u32, u64, u64)) -> Self {
        let d = dom();
        if let Some(n) = d.node_keys.get(&key) {
            return Self::of(*n);
        }
        let n = d.node(form, None);
        d.node_keys.insert(key, n);
        Self::of(n)
    }

    fn apply(self, fun: Fun) -> Self {
        if fun == Fun::Square {
            // The same square, exactly.
            if let Some(n) = dom().negated.get(&self.id) {
                return RealF { id: *n, c: 0.0 }.apply(fun);
            }
        }
        if let Some((id, c)) = dom().applied.get(&(self.id, fun.bits())) {
            return RealF { id: *id, c: *c };
        }
        let r = self.applied(fun);
        dom().applied.insert((self.id, fun.bits()), (r.id, r.c));
        r
    }

    fn applied(self, fun: Fun) -> Self {
        let d = dom();
        if let Fun::Pow(p) = fun {
            if p == 1.0 {
                return self;
            }
        }
        let form = d.simplify(&self.form());
        let (fl, fh) = d.form_bounds(&form, true);
        let (l, h) = self.range();
        if fl > l || fh < h {
            d.refine(self.id, fl, fh);
        }
        let (mut lo, mut hi) = self.range();
        if fun != Fun::Square {
            if lo < 0.0 && lo > -1e-4 && fun != Fun::Pow(3.0) {
                // Only by the bound of its error: the type would give NaN there.
                lo = 0.0;
                hi = hi.max(0.0);
            }
            if lo < 0.0 {
                if matches!(fun, Fun::Pow(p) if p.fract() == 0.0) {
                    unsupported("a power of a possibly negative number");
                }
                if compare(self, Self::zero(), LT) {
                    return Self::konst(f64::NAN);
                }
                lo = 0.0;
                hi = hi.max(0.0);
            }
        }
        if let Fun::Pow(p) = fun {
            if p < 0.0 && lo < 1e-6 {
                unsupported("a negative power near zero");
            }
        }
        // f of the inverse of f.
        let rel = 4.0 * unit(S);
        let (vl, vh, slope) = fun.range(lo, hi);
        let abs_max = vl.abs().max(vh.abs());
        for (a, c) in form.terms.clone() {
            if let Def::Sample { fun: inner, arg, .. } = d.atoms[a as usize].def.clone() {
                let (Fun::Pow(p), Fun::Pow(q)) = (fun, inner) else { continue };
                if (p * q - 1.0).abs() > 1e-6 || !slope.is_finite() {
                    continue;
                }
                let mut rest = form.clone();
                rest.terms.retain(|t| t.0 != a);
                let (rl, rh) = d.form_bounds(&rest, true);
                if !(0.5..2.0).contains(&c) {
                    continue;
                }
                // Off by the rest, and by the coefficient, which scales the value.
                let off = rl.abs().max(rh.abs());
                let scale = (c.powf(p) - 1.0).abs() * abs_max;
                // The slope between the value and the sample.
                let near = fun.range((lo - off).max(0.0), hi + off).2;
                // Or off by both together.
                let (wl, wh) = d.form_bounds(&form.plus(&Form::atom(a), -1.0), true);
                let whole = wl.abs().max(wh.abs());
                let wide_near = fun.range((lo - whole).max(0.0), hi + whole).2;
                let shift = (near * off + scale).min(wide_near * whole);
                // (pq is one only up to the rounding of the exponents.)
                let err = shift + abs_max * (rel + 4.0 * (p * q - 1.0).abs()) + slack(abs_max);
                if !(shift <= if S { 1e-3 } else { 2e-4 } * (1.0 + abs_max)) {
                    continue;
                }
                let mut form = match d.atoms[arg as usize].def {
                    Def::Act(n) => d.nodes[n as usize].form.clone(),
                    _ => Form::atom(arg),
                };
                form.err += err;
                let r = Self::exact(form, (arg, fun.bits(), err.to_bits()));
                d.refine(r.id, vl - slack(vl) - rel * abs_max, vh + slack(vh) + rel * abs_max);
                return r;
            }
        }
        // A sample of the same function at almost the same argument.
        // (Roots are only compared where there is a margin.)
        let plain = d.margin > 0.0 && fun == Fun::Pow(0.5);
        for s in if plain { vec![] } else { d.samples.clone() } {
            if let Def::Sample { fun: other, arg, lo: gl, hi: gh } = d.atoms[s as usize].def.clone() {
                if !other.same(fun) {
                    continue;
                }
                let theirs = match d.atoms[arg as usize].def.clone() {
                    Def::Act(n) => d.nodes[n as usize].form.clone(),
                    _ => Form::atom(arg),
                };
                // A relative part, if the terms are alike, and an absolute one.
                let diff = form.plus(&theirs, -1.0);
                let (dl, dh) = d.form_bounds(&diff, true);
                let off = dl.abs().max(dh.abs());
                if off > 1e-3 * (1.0 + hi.abs()) {
                    continue;
                }
                let slope = fun.range(wide(lo - off, -1.0, fun).min(gl), hi.max(gh) + off).2;
                let mut bound = off * slope;
                if let Some((rel, rest)) = d.relative(&theirs, &diff) {
                    if let Fun::Pow(p) = fun {
                        let power = p.abs() * rel * (1.0 + rel).powf(p.abs() + 1.0) * abs_max * 1.01;
                        bound = bound.min(power + rest * slope);
                    }
                }
                if bound <= if S { 8e-6 } else { 2.5e-6 } * (1.0 + abs_max) {
                    let mut form = Form::atom(s);
                    form.err = bound + rel * abs_max + slack(abs_max);
                    let bits = form.err.to_bits();
                    let r = Self::exact(form, (s, 7, bits));
                    return r;
                }
            }
        }
        let arg = d.act(self.id);
        let y = d.atom(
            (1, arg, fun.bits(), lo.to_bits(), hi.to_bits()),
            vl,
            vh,
            false,
            // (The solver may take the argument to be a rounding beyond its bounds.)
            Def::Sample { fun, arg, lo: wide(lo, -1.0, fun), hi: wide(hi, 1.0, fun) },
        );
        let near = if plain { vec![] } else { d.samples.clone() };
        d.note(y);
        for s in near {
            d.link(y, s);
        }
        let mut form = Form::atom(y);
        form.err = rel * abs_max;
        let key = (y, 8 | if S { 128 } else { 0 }, 0);
        if let Some(n) = d.node_keys.get(&key) {
            return Self::of(*n);
        }
        let n = d.node(form, Some((fun, self.id)));
        d.node_keys.insert(key, n);
        Self::of(n)
    }

    fn whole(self, below: f64, above: f64, native: fn(f64) -> f64, op: u64) -> Self {
        if self.is_konst() {
            return Self::konst(native(self.c));
        }
        let d = dom();
        let form = self.form();
        if form.err == 0.0 && form.terms.len() == 1 && form.terms[0].1 == 1.0 && form.k == 0.0 && d.atoms[form.terms[0].0 as usize].int {
            return self;
        }
        let form = d.simplify(&form);
        // A whole number and less than what rounds away.
        for (a, c) in form.terms.clone() {
            if !d.atoms[a as usize].int || (c - 1.0).abs() > 1e-3 {
                continue;
            }
            let rest = form.plus(&Form::atom(a), -1.0);
            let (rl, rh) = d.form_bounds(&rest, true);
            // floor: 0 <= rest < 1; ceil: -1 < rest <= 0; round: |rest| < 1/2
            let (from, to) = (-above, below);
            if (rl > from || (rl == from && op == 0)) && (rh < to || (rh == to && op == 1)) {
                return Self::exact(Form::atom(a), (a, 3, 0));
            }
        }
        let (fl, fh) = d.form_bounds(&form, true);
        let (lo, hi) = self.range();
        let (lo, hi) = (lo.max(fl), hi.min(fh));
        if native(lo) == native(hi) {
            return Self::konst(native(lo));
        }
        if op == 2 {
            // One of the whole inputs, by what the solver knows.
            let mut near: Vec<u32> = d.tags.iter().map(|t| t.1).filter(|a| matches!(d.atoms[*a as usize].def, Def::Input)).collect();
            for i in 0..5 {
                let at = move |l: f64, h: f64| l + (h - l) * i as f64 / 4.0;
                let u = d.concrete_form(&form, &at);
                near.retain(|a| (d.concrete(*a, &at) - u).abs() < 0.499);
            }
            if std::env::var("SYMEX_DIFF").is_ok() && !near.is_empty() {
                eprintln!("== whole, path {}, of {:?}", ctx().path, near);
                d.explain(&form, 0.0);
            }
            let lits = vec!["true".to_string(); near.len() + 1];
            let act = d.act(self.id);
            let chosen = if near.is_empty() {
                0
            } else {
                ctx().decide_among(&lits, |c| {
                    let d = dom();
                    let u = d.name(act);
                    for (i, a) in near.iter().enumerate() {
                        let r = d.name(*a);
                        let off = format!("(or (>= (- {u} {r}) 0.499) (<= (- {u} {r}) (- 0.499)))");
                        if !d.allows(c, &off, 8) {
                            return vec![i];
                        }
                    }
                    vec![near.len()]
                })
            };
            if chosen < near.len() {
                let a = near[chosen];
                return Self::exact(Form::atom(a), (a, 3, 0));
            }
        }
        let (lo, hi) = (d.nodes[self.id as usize].lo, d.nodes[self.id as usize].hi);
        let arg = d.act(self.id);
        let k = d.atom((2, arg, op, 0, 0), native(lo) - 1.0, native(hi) + 1.0, true, Def::Whole { arg, below, above });
        Self::exact(Form::atom(k), (k, 3, 0))
    }
}

/// Which orders of two numbers are meant.
const LT: u8 = 1;
const EQ: u8 = 2;
const GT: u8 = 4;

fn flip(mask: u8) -> u8 {
    (mask & EQ) | if mask & LT != 0 { GT } else { 0 } | if mask & GT != 0 { LT } else { 0 }
}

fn native_mask(a: f64, b: f64) -> u8 {
    match a.partial_cmp(&b) {
        Some(Ordering::Less) => LT,
        Some(Ordering::Greater) => GT,
        Some(Ordering::Equal) => EQ,
        None => 0,
    }
}

fn compare<const S: bool>(a: RealF<S>, b: RealF<S>, want: u8) -> bool {
    if a.is_nan() || b.is_nan() {
        return false;
    }
    if a.is_konst() && b.is_konst() {
        return native_mask(a.c, b.c) & want != 0;
    }
    if a.is_konst() {
        return compare(b, a, flip(want));
    }
    if a.id == b.id {
        return want & EQ != 0;
    }
    if !b.is_konst() && a.id > b.id {
        return compare(b, a, flip(want));
    }
    let d = dom();
    if d.margin > 0.0 {
        // Compare the arguments of an increasing function instead.
        if let Some((fun, arg)) = d.nodes[a.id as usize].app {
            let (lo, _) = d.range(arg);
            if fun.increasing(lo) {
                if b.is_konst() {
                    if b.c < 0.0 {
                        return want & GT != 0;
                    }
                    return compare(RealF::<S>::of(arg), RealF { id: KONST, c: fun.inverse(b.c) }, want);
                }
                if let Some((other, arg2)) = d.nodes[b.id as usize].app {
                    if other == fun && d.range(arg2).0 >= 0.0 {
                        return compare(RealF::<S>::of(arg), RealF::<S>::of(arg2), want);
                    }
                }
            }
        }
    }
    let ((i, x), (j, y)) = (a.key(), b.key());
    let key = (i, x, j, y);
    let known = d.order.get(&key).copied().unwrap_or(LT | EQ | GT);
    if known & want == 0 {
        return false;
    }
    if known & !want == 0 {
        return true;
    }
    let (al, ah) = a.range();
    let (bl, bh) = b.range();
    let whole = a.form().plus(&b.form(), -1.0);
    let mut diff = d.simplify(&whole);
    let (mut dl, mut dh) = d.form_bounds(&diff, true);
    if d.margin > 0.0 {
        let (l, h) = d.form_bounds(&whole, true);
        (dl, dh) = (dl.max(l), dh.min(h));
        diff = whole;
    }
    let mut possible = known;
    let mut rule = |lo: f64, hi: f64| {
        if lo > 0.0 {
            possible &= GT;
        } else if lo == 0.0 {
            possible &= GT | EQ;
        }
        if hi < 0.0 {
            possible &= LT;
        } else if hi == 0.0 {
            possible &= LT | EQ;
        }
    };
    // (Bounds are of the exact values: the subtraction of close ones is exact enough.)
    rule(al - bh, ah - bl);
    rule(dl, dh);
    // Where rounding is not small against the margin, both orders are possible.
    let margin = if diff.err > d.margin * 0.5 { 0.0 } else { d.margin };
    let mut gap = 0.0;
    if margin > 0.0 && !diff.terms.is_empty() {
        let scale = diff.terms.iter().fold(0.0f64, |m, t| m.max(t.1.abs()));
        gap = (margin * scale.min(1.0) - 2.0 * diff.err - slack(al.abs().max(ah.abs()))).max(0.0);
        // Nothing is nearer to zero than that.
        let (lo, hi) = ((al - bh).max(dl), (ah - bl).min(dh));
        if lo > -gap {
            possible &= GT | EQ;
        }
        if hi < gap {
            possible &= LT | EQ;
        }
    }
    let outcome = if possible & want == 0 || possible & !want == 0 {
        possible & want != 0
    } else if margin > 0.0 && diff.terms.is_empty() {
        // A tie but for rounding.
        let o = if diff.k < 0.0 { LT } else if diff.k > 0.0 { GT } else { EQ };
        d.order.insert(key, o);
        return o & want != 0;
    } else {
        let text = |d: &mut Reals, mask: u8| -> String {
            let mut parts = vec![];
            if margin > 0.0 {
                // Scaled, so that the margin is one of distances.
                let scale = diff.terms.iter().fold(0.0f64, |m, t| m.max(t.1.abs()));
                let t = d.form_text(&diff.scaled(1.0 / scale));
                let m = margin / scale.max(1.0);
                if mask & LT != 0 {
                    parts.push(format!("(<= {t} {})", num(-m)));
                }
                if mask & EQ != 0 {
                    parts.push(format!("(= {t} 0.0)"));
                }
                if mask & GT != 0 {
                    parts.push(format!("(>= {t} {})", num(m)));
                }
                return if parts.len() == 1 { parts.pop().unwrap() } else { format!("(or {})", parts.join(" ")) };
            }
            if let Some(t) = d.whole_text(&diff, mask) {
                return t;
            }
            let p = d.act(a.id);
            let p = d.name(p);
            let q = if b.is_konst() {
                num(b.c)
            } else {
                let q = d.act(b.id);
                d.name(q)
            };
            let op = match mask {
                LT => "<",
                EQ => "=",
                GT => ">",
                3 => "<=",
                6 => ">=",
                _ => "distinct",
            };
            format!("({op} {p} {q})")
        };
        if b.is_konst() {
            d.threshold(a.id, b.c);
        }
        let lits = [text(d, possible & want), text(d, possible & !want)];
        let chosen = ctx().decide_among(&lits, |c| {
            let d = dom();
            (0..2).filter(|i| d.allows(c, &lits[*i], 2)).collect()
        });
        chosen == 0
    };
    let now = possible & if outcome { want } else { !want };
    d.order.insert(key, now);
    // The bounds that follow.
    let inf = f64::INFINITY;
    if margin > 0.0 && !b.is_konst() {
        let diff = a - b;
        if !diff.is_konst() {
            let gap = if now & EQ == 0 { gap } else { 0.0 };
            if now & GT == 0 {
                d.refine(diff.id, -inf, -gap);
            }
            if now & LT == 0 {
                d.refine(diff.id, gap, inf);
            }
        }
    }
    if now & GT == 0 {
        let gap = if now == LT { gap } else { 0.0 };
        d.refine(a.id, -inf, bh - gap);
        if !b.is_konst() {
            d.refine(b.id, al, inf);
        }
    }
    if now & LT == 0 {
        let gap = if now == GT { gap } else { 0.0 };
        d.refine(a.id, bl + gap, inf);
        if !b.is_konst() {
            d.refine(b.id, -inf, ah);
        }
    }
    outcome
}

impl Reals {
    /// The exact place where a sample passes a threshold.
    fn threshold(&mut self, n: u32, c: f64) {
        let form = self.nodes[n as usize].form.clone();
        if form.terms.len() != 1 {
            return;
        }
        let (a, k) = form.terms[0];
        if let Def::Sample { fun, arg, lo, hi } = self.atoms[a as usize].def.clone() {
            let at = fun.inverse((c - form.k) / k);
            if at > lo && at < hi {
                let (u, y) = (self.name(arg), self.name(a));
                self.monotone(a, fun, &u, &y, at, lo);
            }
        }
    }
}

impl<const S: bool> PartialEq for RealF<S> {
    fn eq(&self, o: &Self) -> bool {
        compare(*self, *o, EQ)
    }
}

impl<const S: bool> PartialOrd for RealF<S> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.is_konst() && o.is_konst() || self.is_nan() || o.is_nan() {
            return if self.is_nan() || o.is_nan() { None } else { self.c.partial_cmp(&o.c) };
        }
        Some(if compare(*self, *o, LT) {
            Ordering::Less
        } else if compare(*self, *o, EQ) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Self) -> bool {
        compare(*self, *o, LT)
    }
    fn le(&self, o: &Self) -> bool {
        compare(*self, *o, LT | EQ)
    }
    fn gt(&self, o: &Self) -> bool {
        compare(*self, *o, GT)
    }
    fn ge(&self, o: &Self) -> bool {
        compare(*self, *o, GT | EQ)
    }
}

impl<const S: bool> fmt::Debug for RealF<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_konst() {
            write!(f, "{:?}", self.c)
        } else {
            write!(f, "#{}", self.id)
        }
    }
}

impl<const S: bool> fmt::Display for RealF<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

/// The operation of the machine type on constants.
fn machine<const S: bool>(a: f64, b: f64, single: fn(f32, f32) -> f32, double: fn(f64, f64) -> f64) -> RealF<S> {
    RealF { id: KONST, c: if S { single(a as f32, b as f32) as f64 } else { double(a, b) } }
}

impl<const S: bool> Add for RealF<S> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.is_nan() || o.is_nan() {
            return Self::konst(f64::NAN);
        }
        if self.is_konst() && o.is_konst() {
            return machine(self.c, o.c, |a, b| a + b, |a, b| a + b);
        }
        if self.is_konst() {
            return o + self;
        }
        if o.is_konst() && o.c == 0.0 {
            return self;
        }
        let (a, b) = if !o.is_konst() && self.id > o.id { (o, self) } else { (self, o) };
        Self::memo(0, a, b, || a.form().plus(&b.form(), 1.0))
    }
}

impl<const S: bool> Sub for RealF<S> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        if self.is_nan() || o.is_nan() {
            return Self::konst(f64::NAN);
        }
        if self.is_konst() && o.is_konst() {
            return machine(self.c, o.c, |a, b| a - b, |a, b| a - b);
        }
        if self.id == o.id {
            return Self::konst(0.0);
        }
        if o.is_konst() && o.c == 0.0 {
            return self;
        }
        let ((i, x), (j, y)) = (self.key(), o.key());
        let other = dom().memo.get(&(1 | if S { 128 } else { 0 }, j, y, i, x)).copied();
        let r = Self::memo(1, self, o, || self.form().plus(&o.form(), -1.0));
        if let Some(other) = other.filter(|n| *n < r.id) {
            dom().negated.insert(r.id, other);
        }
        r
    }
}

impl<const S: bool> Mul for RealF<S> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        if self.is_nan() || o.is_nan() {
            return Self::konst(f64::NAN);
        }
        if self.is_konst() && o.is_konst() {
            return machine(self.c, o.c, |a, b| a * b, |a, b| a * b);
        }
        if self.is_konst() {
            return o * self;
        }
        if o.is_konst() {
            if o.c == 0.0 || o.c == 1.0 {
                return if o.c == 0.0 { o } else { self };
            }
            return Self::memo(2, self, o, || self.form().scaled(o.c));
        }
        if self.id == o.id {
            return self.power(2);
        }
        let (a, b) = if self.id > o.id { (o, self) } else { (self, o) };
        // u^n * u
        for (x, y) in [(a, b), (b, a)] {
            if let Some((fun, arg)) = dom().nodes[x.id as usize].app {
                if arg == y.id {
                    match fun {
                        Fun::Square => return y.power(3),
                        Fun::Pow(p) if p.fract() == 0.0 && p > 1.0 => return y.power(p as i32 + 1),
                        _ => {}
                    }
                }
            }
        }
        Self::memo(3, a, b, || {
            let d = dom();
            let (x, y) = (d.act(a.id), d.act(b.id));
            let (xa, ya) = (&d.atoms[x as usize], &d.atoms[y as usize]);
            let all = [xa.lo * ya.lo, xa.lo * ya.hi, xa.hi * ya.lo, xa.hi * ya.hi];
            let lo = all.iter().copied().fold(f64::INFINITY, f64::min);
            let hi = all.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            let p = d.atom((3, x, y as u64, 0, 0), lo, hi, false, Def::Product { x, y });
            Form::atom(p)
        })
        .track()
    }
}

impl<const S: bool> RealF<S> {
    fn track(self) -> Self {
        let d = dom();
        if let Some((a, _)) = self.form().terms.first() {
            d.note(*a);
        }
        self
    }

    fn power(self, n: i32) -> Self {
        if self.is_konst() {
            let c = self.c;
            return RealF { id: KONST, c: if S { (c as f32).powi(n) as f64 } else { c.powi(n) } };
        }
        match n {
            0 => Self::konst(1.0),
            1 => self,
            n if n < 0 => Self::konst(1.0) / self.power(-n),
            2 if self.range().0 < 0.0 => self.apply(Fun::Square),
            2 => self.apply(Fun::Square),
            n => {
                if self.range().0 >= 0.0 {
                    self.apply(Fun::Pow(n as f64))
                } else {
                    // Not by `Mul`, which would come back here.
                    unsupported("a power of a possibly negative number")
                }
            }
        }
    }
}

impl<const S: bool> Div for RealF<S> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        if self.is_nan() || o.is_nan() {
            return Self::konst(f64::NAN);
        }
        if self.is_konst() && o.is_konst() {
            return machine(self.c, o.c, |a, b| a / b, |a, b| a / b);
        }
        if o.is_konst() {
            if o.c == 1.0 {
                return self;
            }
            if o.c == 0.0 {
                unsupported("division by zero");
            }
            return Self::memo(4, self, o, || self.form().scaled(1.0 / o.c));
        }
        self * o.apply(Fun::Pow(-1.0))
    }
}

impl<const S: bool> Rem for RealF<S> {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        if self.is_konst() && o.is_konst() {
            return machine(self.c, o.c, |a, b| a % b, |a, b| a % b);
        }
        unsupported("remainder")
    }
}

impl<const S: bool> Neg for RealF<S> {
    type Output = Self;
    fn neg(self) -> Self {
        if self.is_konst() {
            return RealF { id: KONST, c: -self.c };
        }
        Self::memo(5, self, self, || self.form().scaled(-1.0))
    }
}

macro_rules! assigns {
    ($($t:ident $f:ident $op:tt;)*) => {$(
        impl<const S: bool> $t for RealF<S> {
            fn $f(&mut self, o: Self) {
                *self = *self $op o;
            }
        }
    )*};
}
assigns! { AddAssign add_assign +; SubAssign sub_assign -; MulAssign mul_assign *; DivAssign div_assign /; RemAssign rem_assign %; }

impl<const S: bool> std::iter::Sum for RealF<S> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Self::zero(), |a, b| a + b)
    }
}

impl<const S: bool> Default for RealF<S> {
    fn default() -> Self {
        Self::zero()
    }
}

impl<const S: bool> Zero for RealF<S> {
    fn zero() -> Self {
        Self::konst(0.0)
    }
    fn is_zero(&self) -> bool {
        compare(*self, Self::zero(), EQ)
    }
}

impl<const S: bool> One for RealF<S> {
    fn one() -> Self {
        Self::konst(1.0)
    }
}

impl<const S: bool> Num for RealF<S> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}

impl<const S: bool> ToPrimitive for RealF<S> {
    fn to_i64(&self) -> Option<i64> {
        if self.is_konst() {
            return self.c.to_i64();
        }
        self.to_u8().map(|b| b as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        if self.is_konst() {
            return self.c.to_u64();
        }
        self.to_u8().map(|b| b as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        if self.is_konst() {
            return Some(self.c);
        }
        unsupported("symbolic to f64")
    }
    fn to_u8(&self) -> Option<u8> {
        if self.is_konst() {
            return self.c.to_u8();
        }
        let k = num_traits::real::Real::trunc(*self);
        if k.is_konst() {
            return k.c.to_u8();
        }
        if compare(k, Self::zero(), LT) || compare(k, Self::konst(255.0), GT) {
            return None;
        }
        let (atom, _) = k.form().terms[0];
        Some(dom().tag(atom))
    }
}

impl<const S: bool> NumCast for RealF<S> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        Some(Self::konst(n.to_f64()?))
    }
}

impl<const S: bool> Clamp for RealF<S> {
    fn clamp(self, min: Self, max: Self) -> Self {
        assert!(min <= max);
        if self < min {
            min
        } else if self > max {
            max
        } else {
            self
        }
    }
}

impl<const S: bool> Number for RealF<S> {
    fn from_u8(n: u8) -> Self {
        dom().tagged(n as f64).unwrap_or(Self::konst(n as f64))
    }
    fn from_u32(n: u32) -> Self {
        Self::integer(n as f64)
    }
    fn from_u64(n: u64) -> Self {
        Self::integer(n as f64)
    }
    fn from_usize(n: usize) -> Self {
        Self::integer(n as f64)
    }
}

impl<const S: bool> Float for RealF<S> {
    fn from_f32(n: f32) -> Self {
        Self::integer(n as f64)
    }
    fn from_f64(n: f64) -> Self {
        Self::integer(n)
    }
}

macro_rules! konst_only {
    ($($f:ident ( $($a:ident),* );)*) => {$(
        fn $f(self $(, $a: Self)*) -> Self {
            if self.is_konst() $(&& $a.is_konst())* {
                return RealF { id: KONST, c: if S { (self.c as f32).$f($($a.c as f32),*) as f64 } else { self.c.$f($($a.c),*) } };
            }
            unsupported(stringify!($f))
        }
    )*};
}

impl<const S: bool> num_traits::real::Real for RealF<S> {
    fn min_value() -> Self {
        RealF { id: KONST, c: if S { f32::MIN as f64 } else { f64::MIN } }
    }
    fn min_positive_value() -> Self {
        RealF { id: KONST, c: if S { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE } }
    }
    fn epsilon() -> Self {
        RealF { id: KONST, c: if S { f32::EPSILON as f64 } else { f64::EPSILON } }
    }
    fn max_value() -> Self {
        RealF { id: KONST, c: if S { f32::MAX as f64 } else { f64::MAX } }
    }
    fn abs(self) -> Self {
        if self.is_konst() {
            return RealF { id: KONST, c: self.c.abs() };
        }
        if compare(self, Self::zero(), LT) {
            -self
        } else {
            self
        }
    }
    fn signum(self) -> Self {
        if compare(self, Self::zero(), LT) {
            Self::konst(-1.0)
        } else {
            Self::konst(1.0)
        }
    }
    fn is_sign_positive(self) -> bool {
        compare(self, Self::zero(), GT | EQ)
    }
    fn is_sign_negative(self) -> bool {
        compare(self, Self::zero(), LT)
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
    }
    fn recip(self) -> Self {
        Self::one() / self
    }
    fn powi(self, n: i32) -> Self {
        self.power(n)
    }
    fn powf(self, n: Self) -> Self {
        if self.is_konst() && n.is_konst() {
            return machine(self.c, n.c, f32::powf, f64::powf);
        }
        if !n.is_konst() {
            unsupported("a symbolic exponent");
        }
        if n.c == 2.0 {
            return self.power(2);
        }
        self.apply(Fun::Pow(n.c))
    }
    fn sqrt(self) -> Self {
        if self.is_konst() {
            return RealF { id: KONST, c: if S { (self.c as f32).sqrt() as f64 } else { self.c.sqrt() } };
        }
        self.apply(Fun::Pow(0.5))
    }
    fn cbrt(self) -> Self {
        if self.is_konst() {
            return RealF { id: KONST, c: if S { (self.c as f32).cbrt() as f64 } else { self.c.cbrt() } };
        }
        self.apply(Fun::Pow(1.0 / 3.0))
    }
    fn max(self, o: Self) -> Self {
        if self < o || self.is_nan() {
            o
        } else {
            self
        }
    }
    fn min(self, o: Self) -> Self {
        if o < self || self.is_nan() {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Self) -> Self {
        if self <= o {
            Self::zero()
        } else {
            self - o
        }
    }
    fn hypot(self, o: Self) -> Self {
        (self * self + o * o).sqrt()
    }
    fn floor(self) -> Self {
        self.whole(1.0, 0.0, f64::floor, 0)
    }
    fn ceil(self) -> Self {
        self.whole(0.0, 1.0, f64::ceil, 1)
    }
    fn round(self) -> Self {
        self.whole(0.5, 0.5, f64::round, 2)
    }
    fn trunc(self) -> Self {
        if self.is_konst() {
            return Self::konst(self.c.trunc());
        }
        if compare(self, Self::zero(), LT) {
            self.ceil()
        } else {
            self.floor()
        }
    }
    fn fract(self) -> Self {
        self - self.trunc()
    }
    fn sin_cos(self) -> (Self, Self) {
        unsupported("sin_cos")
    }
    konst_only! {
        exp(); exp2(); ln(); log(b); log2(); log10(); to_degrees(); to_radians();
        sin(); cos(); tan(); asin(); acos(); atan();
        atan2(o); exp_m1(); ln_1p(); sinh(); cosh();
        tanh(); asinh(); acosh(); atanh();
    }
}

/// Number types of the harnesses about colours and images: symbolic or native.
pub trait RDom: Float + fmt::Debug + Default + 'static {
    const SINGLE: bool;
    /// An arbitrary byte. In a symbolic run it is this placeholder, which only the number type
    /// interprets; it must differ from every constant byte of the code.
    fn byte(placeholder: u8) -> u8;
    /// An arbitrary number in lo..=hi.
    fn input(lo: f64, hi: f64) -> Self;
    /// Whether it is this number on every input of the path, as far as is known without the solver.
    fn fixed(self, value: f64) -> bool;
    /// Exclude, from now on, numbers that differ by less than this but are not equal.
    fn margin(_: f64) {}
    /// The placeholders may be converted by way of any unsigned type.
    fn wide_tags() {}
    /// Whether a <= b + tolerance, for every input of the path.
    fn at_most(a: Self, b: Self, tolerance: f64) -> bool;
    /// Whether both are equal, up to the tolerance, for every input of the path.
    fn near(a: Self, b: Self, tolerance: f64) -> bool {
        Self::at_most(a, b, tolerance) && Self::at_most(b, a, tolerance)
    }
}

impl<const S: bool> RDom for RealF<S> {
    const SINGLE: bool = S;
    fn fixed(self, value: f64) -> bool {
        self.is_konst() && self.c == value
    }
    fn byte(placeholder: u8) -> u8 {
        let d = dom();
        if let Some(t) = d.tags.iter().find(|t| t.0 == placeholder) {
            return t.0;
        }
        let c = ctx();
        let nth = c.inputs_so_far();
        let a = d.atom((4, nth as u32, 0, 0, 0), 0.0, 255.0, true, Def::Input);
        d.name(a);
        let id = d.atoms[a as usize].id.unwrap();
        c.input(0.0, |_, _| id);
        let name = d.name(a);
        c.integral.push(name);
        d.tags.push((placeholder, a));
        placeholder
    }
    fn input(lo: f64, hi: f64) -> Self {
        let d = dom();
        let c = ctx();
        let nth = c.inputs_so_far();
        // A number of the machine type.
        let (lo, hi) = if S { (lo as f32 as f64, hi as f32 as f64) } else { (lo, hi) };
        let a = d.atom((5, nth as u32, lo.to_bits(), hi.to_bits(), 0), lo, hi, false, Def::Input);
        d.name(a);
        let id = d.atoms[a as usize].id.unwrap();
        c.input(0.0, |_, _| id);
        Self::exact(Form::atom(a), (a, 4, 0))
    }
    fn margin(m: f64) {
        dom().margin = m;
    }
    fn wide_tags() {
        dom().wide_tags = true;
    }
    fn at_most(a: Self, b: Self, tolerance: f64) -> bool {
        if a.is_konst() && b.is_konst() {
            return a.c <= b.c + tolerance;
        }
        let d = dom();
        let diff = d.simplify(&a.form().plus(&b.form(), -1.0));
        let (_, hi) = d.form_bounds(&diff, true);
        let (_, ah) = a.range();
        let (bl, _) = b.range();
        if hi <= tolerance || ah - bl <= tolerance {
            return true;
        }
        let text = d.form_text(&diff);
        // Beyond the tolerance by more than the error.
        let bound = tolerance + diff.err.min(tolerance * 0.5);
        let lits = [format!("(> {text} {})", num(bound - diff.err)), format!("(<= {text} {})", num(bound + diff.err))];
        let chosen = ctx().decide_among(&lits, |c| {
            let d = dom();
            if std::env::var("SYMEX_DIFF").is_ok() {
                d.explain(&diff, tolerance);
            }
            if d.allows(c, &lits[0], 150) {
                if std::env::var("SYMEX_DIFF").is_ok() {
                    d.explain(&diff, tolerance);
                }
                vec![0, 1]
            } else {
                d.proofs += 1;
                vec![1]
            }
        });
        chosen == 1
    }
}

macro_rules! native_rdom {
    ($t:ty, $single:expr) => {
        impl RDom for $t {
            const SINGLE: bool = $single;
            fn fixed(self, value: f64) -> bool {
                self as f64 == value
            }
            fn byte(_: u8) -> u8 {
                assert_eq!(mode(), Mode::Native);
                engine::native_input().round() as u8
            }
            fn input(lo: f64, hi: f64) -> Self {
                engine::native_input().max(lo).min(hi) as $t
            }
            fn at_most(a: Self, b: Self, tolerance: f64) -> bool {
                a as f64 <= b as f64 + tolerance
            }
        }
    };
}
native_rdom!(f64, false);
native_rdom!(f32, true);

//! Exhaustive symbolic exploration of a harness by re-execution.
//!
//! The code under test is generic over its number type, so the harness instantiates it with a
//! symbolic number (`grid::GridF`, `real::RealF`). Every comparison of symbolic numbers is a branch
//! whose sides are decided by an SMT solver under the path condition; the engine re-executes the
//! harness until no branch has an unexplored feasible side.
use crate::solver::{Sat, Solver, SolverStats};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// What ended a path before the harness returned.
#[derive(Debug, Clone)]
pub enum Abort {
    /// An assumption does not hold, or a stated bound was reached.
    Cut,
    /// The forced prefix of a job turned out to be infeasible.
    Infeasible,
    /// The encoding cannot express this operation.
    Unsupported(String),
    /// The solver gave no answer.
    Inconclusive(String),
}

pub fn abort(a: Abort) -> ! {
    std::panic::panic_any(a)
}

pub fn unsupported(what: &str) -> ! {
    if std::env::var("SYMEX_BT").is_ok() {
        eprintln!(
            "unsupported {what}\n{}",
            std::backtrace::Backtrace::force_capture()
        );
    }
    abort(Abort::Unsupported(what.to_string()))
}

#[derive(Debug, Clone)]
struct Dec {
    choice: u8,
    pending: Vec<u8>,
    lits: Vec<String>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// Symbolic execution on a `Ctx`.
    Symbolic,
    /// Native execution on recorded inputs.
    Native,
}

/// The recorded inputs of one path.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Inputs {
    pub values: Vec<f64>,
    pub choices: Vec<usize>,
}

struct Fact {
    text: String,
    level: Option<usize>,
    /// From which decision of the current path on it matters.
    live: Option<usize>,
    always: bool,
}

pub struct Ctx {
    pub solver: Solver,
    trail: Vec<Dec>,
    pos: usize,
    verify_at: Option<usize>,
    /// Declared SMT constants, by id: name.
    names: Vec<String>,
    /// From which decision of the current path on each of them matters.
    live: Vec<Option<usize>>,
    /// Which of them are inputs, in order.
    input_ids: Vec<usize>,
    /// What to add to the model value of each input.
    input_offsets: Vec<f64>,
    input_pos: usize,
    /// Global facts (ranges, lemmas), with the level at which each is asserted.
    facts: Vec<Fact>,
    model: Vec<f64>,
    choice_log: Vec<usize>,
    pub covers: BTreeMap<&'static str, u64>,
    pub dom: Box<dyn Any + Send>,
    max_decisions: usize,
    pub n_decisions: u64,
    deadline: Instant,
    pub notes: Vec<String>,
    /// Number of the current path.
    pub path: u64,
    scoped: bool,
    /// Inputs that are whole numbers, though the solver takes them for reals.
    pub integral: Vec<String>,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    static NATIVE: RefCell<Option<(Inputs, usize, usize)>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn mode() -> Mode {
    if CTX.with(|c| c.get().is_null()) {
        Mode::Native
    } else {
        Mode::Symbolic
    }
}

pub fn ctx() -> &'static mut Ctx {
    let p = CTX.with(|c| c.get());
    assert!(!p.is_null(), "no symbolic context");
    // The context lives on the worker's frame for the whole path and is used by one thread only.
    unsafe { &mut *p }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var("SYMEX_PANIC").is_ok() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

impl Ctx {
    fn new(cfg: &Config, deadline: Instant) -> Self {
        Ctx {
            deadline,
            solver: Solver::new(&cfg.solver, cfg.logic, cfg.query_timeout_ms),
            trail: vec![],
            pos: 0,
            verify_at: None,
            names: vec![],
            live: vec![],
            input_ids: vec![],
            input_offsets: vec![],
            input_pos: 0,
            facts: vec![],
            model: vec![],
            choice_log: vec![],
            covers: BTreeMap::new(),
            dom: (cfg.new_dom)(),
            max_decisions: cfg.max_decisions,
            n_decisions: 0,
            notes: vec![],
            path: 0,
            scoped: false,
            integral: vec![],
        }
    }

    /// Declare an SMT constant; it survives pops.
    pub fn declare(&mut self, name: String, sort: &str) -> usize {
        self.solver.send(&format!("(declare-const {name} {sort})"));
        self.names.push(name);
        self.live.push(Some(0));
        self.names.len() - 1
    }

    /// The constant matters on this path. (By default, all do on every path.)
    pub fn use_name(&mut self, id: usize) {
        if self.live[id].is_none() {
            self.live[id] = Some(self.pos);
        }
    }

    /// Whether the constants and facts are those of the paths that use them only.
    pub fn scope_paths(&mut self) {
        self.scoped = true;
    }

    /// Add a fact that holds in every path (a range, or an instance of an axiom).
    pub fn fact(&mut self, text: String) {
        self.facts.push(Fact { text, level: None, live: Some(0), always: true });
        // The stored model may not satisfy it.
        self.model.clear();
    }

    /// Add a fact that is asserted on paths that use it.
    pub fn scoped_fact(&mut self, text: String) -> usize {
        self.facts.push(Fact { text, level: None, live: Some(self.pos), always: false });
        self.model.clear();
        self.facts.len() - 1
    }

    pub fn use_fact(&mut self, fact: usize) {
        let pos = self.pos;
        let f = &mut self.facts[fact];
        if f.live.is_none_or(|l| l > pos) {
            f.live = Some(pos);
            if f.level.is_none() {
                self.model.clear();
            }
        }
    }

    /// The next input of the harness: `declare` runs the first time it is reached.
    pub fn input(
        &mut self,
        offset: f64,
        declare: impl FnOnce(&mut Ctx, usize) -> usize,
    ) -> (usize, usize) {
        let nth = self.input_pos;
        self.input_pos += 1;
        if nth == self.input_ids.len() {
            let id = declare(self, nth);
            self.input_ids.push(id);
            self.input_offsets.push(offset);
        }
        (nth, self.input_ids[nth])
    }

    pub fn inputs_so_far(&self) -> usize {
        self.input_pos
    }

    fn flush_facts(&mut self) {
        let depth = self.solver.depth();
        let at = self.trail.len();
        for f in self.facts.iter_mut() {
            if f.level.is_none() && f.live.is_some_and(|l| l <= at) {
                self.solver.send(&format!("(assert {})", f.text));
                f.level = Some(depth);
            }
        }
    }

    fn pop_to(&mut self, depth: usize) {
        self.solver.pop_to(depth);
        for f in self.facts.iter_mut() {
            if f.level.is_some_and(|l| l > depth) {
                f.level = None;
            }
        }
    }

    fn check(&mut self) -> Sat {
        self.flush_facts();
        let r = self.solver.check();
        if r == Sat::Sat {
            let ids: Vec<usize> = (0..self.names.len()).filter(|i| self.live[*i].is_some()).collect();
            let names: Vec<String> = ids.iter().map(|i| self.names[*i].clone()).collect();
            let values = self.solver.values(&names);
            self.model = vec![f64::NAN; self.names.len()];
            for (i, v) in ids.into_iter().zip(&values) {
                self.model[i] = crate::solver::numeral(v);
            }
        }
        r
    }

    fn need_model(&mut self) {
        if self.model.len() < self.names.len() || self.names.is_empty() {
            match self.check() {
                Sat::Sat => {}
                Sat::Unsat => abort(Abort::Infeasible),
                Sat::Unknown => abort(Abort::Inconclusive("model query".into())),
            }
        }
    }

    /// The value of a declared constant in a model of the current path condition.
    pub fn model_value(&mut self, id: usize) -> f64 {
        if self.model.len() <= id {
            self.need_model();
        }
        self.model[id]
    }

    pub fn inputs(&mut self) -> Inputs {
        let ids: Vec<usize> = self.input_ids[..self.input_pos].to_vec();
        if ids.iter().any(|i| *i >= self.model.len()) {
            self.need_model();
        }
        Inputs {
            values: ids
                .iter()
                .zip(&self.input_offsets)
                .map(|(i, o)| self.model[*i] + o)
                .collect(),
            choices: self.choice_log.clone(),
        }
    }

    /// Inputs of a path that ends in a violation: None if there are none after all.
    fn witness(&mut self, refine: Option<fn() -> bool>) -> Option<Inputs> {
        let Some(refine) = refine else {
            return Some(self.inputs());
        };
        let depth = self.solver.depth();
        self.flush_facts();
        self.solver.push();
        for name in self.integral.clone() {
            self.solver.assert(&format!("(is_int {name})"));
        }
        let mut found = None;
        for _ in 0..60 {
            match self.check() {
                Sat::Unsat => {
                    self.pop_to(depth);
                    self.model.clear();
                    return None;
                }
                Sat::Unknown => break,
                Sat::Sat => {}
            }
            found = Some(self.inputs());
            let p = self as *mut Ctx;
            CTX.with(|c| c.set(p));
            let fine = refine();
            CTX.with(|c| c.set(std::ptr::null_mut()));
            if fine {
                break;
            }
            self.model = vec![f64::NAN; self.names.len()];
        }
        self.pop_to(depth);
        self.model.clear();
        Some(found.unwrap_or_else(|| self.inputs()))
    }

    /// Whether the next decision is prescribed by the path that is re-executed.
    pub fn forced(&self) -> bool {
        self.pos < self.trail.len()
    }

    fn replay_forced(&mut self, lits: &[String]) -> usize {
        let i = self.pos;
        self.pos += 1;
        if self.trail[i].lits.is_empty() {
            self.trail[i].lits = lits.to_vec();
        } else if self.trail[i].lits != lits {
            panic!(
                "SOLVER: the harness is not deterministic: decision {i} was {:?}, now {:?}",
                self.trail[i].lits, lits
            );
        }
        let choice = self.trail[i].choice as usize;
        if self.solver.depth() <= i {
            self.solver.push();
            self.assert_lit(&lits[choice]);
        }
        if self.verify_at == Some(self.pos) {
            self.verify_at = None;
            match self.check() {
                Sat::Sat => {}
                Sat::Unsat => abort(Abort::Infeasible),
                Sat::Unknown => abort(Abort::Inconclusive("prefix".into())),
            }
        }
        choice
    }

    fn assert_lit(&mut self, lit: &str) {
        if lit != "true" {
            self.solver.assert(lit);
        }
    }

    fn limit(&mut self) {
        self.n_decisions += 1;
        if self.trail.len() > self.max_decisions {
            abort(Abort::Inconclusive("too many decisions on one path".into()));
        }
    }

    /// Branch over `lits`, of which exactly one holds for any values. `hint` names one that holds
    /// in the current model.
    pub fn decide(&mut self, lits: &[String], hint: impl FnOnce(&mut Ctx) -> Option<usize>) -> usize {
        if self.forced() {
            return self.replay_forced(lits);
        }
        self.limit();
        self.need_model();
        let hint = hint(self);
        let all: Vec<u8> = (0..lits.len() as u8).collect();
        match hint {
            Some(h) => {
                self.push_dec(h as u8, all.into_iter().filter(|o| *o as usize != h).collect(), lits);
                self.solver.push();
                self.assert_lit(&lits[h]);
                h
            }
            None => {
                let mut unknown = false;
                for h in 0..lits.len() {
                    let depth = self.solver.depth();
                    self.solver.push();
                    self.assert_lit(&lits[h]);
                    match self.check() {
                        Sat::Sat => {
                            self.push_dec(h as u8, all[h + 1..].to_vec(), lits);
                            return h;
                        }
                        Sat::Unsat => {}
                        Sat::Unknown => unknown = true,
                    }
                    self.pop_to(depth);
                }
                if unknown {
                    abort(Abort::Inconclusive("branch".into()))
                }
                abort(Abort::Infeasible)
            }
        }
    }

    /// Whether `lit` can hold on this path; its model is in `model` if so.
    pub fn probe(&mut self, lit: &str) -> Sat {
        if Instant::now() > self.deadline || HALT.load(SeqCst) {
            abort(Abort::Inconclusive("out of time".into()));
        }
        self.flush_facts();
        let depth = self.solver.depth();
        self.solver.push();
        self.assert_lit(lit);
        let r = self.check();
        self.pop_to(depth);
        r
    }

    pub fn last_model(&self) -> &[f64] {
        &self.model
    }

    /// Branch over those of `lits` that `feasible` names, the first one first. It is not called when
    /// the path is re-executed.
    pub fn decide_among(
        &mut self,
        lits: &[String],
        feasible: impl FnOnce(&mut Ctx) -> Vec<usize>,
    ) -> usize {
        if self.forced() {
            return self.replay_forced(lits);
        }
        self.limit();
        let options = feasible(self);
        let Some(first) = options.first().copied() else {
            abort(Abort::Infeasible)
        };
        // The last is explored next.
        let rest = options[1..].iter().rev().map(|o| *o as u8).collect();
        self.push_dec(first as u8, rest, lits);
        self.solver.push();
        self.assert_lit(&lits[first]);
        // The stored model is one of some option.
        self.model.clear();
        first
    }

    /// Restrict the path to the values that satisfy `lit`.
    pub fn assume(&mut self, lit: String, hint: impl FnOnce(&mut Ctx) -> bool) {
        let lits = [lit];
        if self.forced() {
            self.replay_forced(&lits);
            return;
        }
        self.limit();
        let ok = if self.model.len() == self.names.len() && !self.names.is_empty() {
            hint(self)
        } else {
            false
        };
        self.push_dec(0, vec![], &lits);
        self.solver.push();
        self.assert_lit(&lits[0]);
        if !ok {
            match self.check() {
                Sat::Sat => {}
                Sat::Unsat => abort(Abort::Cut),
                Sat::Unknown => abort(Abort::Inconclusive("assumption".into())),
            }
        }
    }

    fn push_dec(&mut self, choice: u8, pending: Vec<u8>, lits: &[String]) {
        debug_assert_eq!(self.pos, self.trail.len());
        self.trail.push(Dec {
            choice,
            pending,
            lits: lits.to_vec(),
        });
        self.pos += 1;
    }

    fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 255);
        let c = if n == 1 {
            0
        } else {
            let lits: Vec<String> = vec!["true".to_string(); n];
            if self.forced() {
                self.replay_forced(&lits)
            } else {
                self.limit();
                self.push_dec(0, (1..n as u8).collect(), &lits);
                self.solver.push();
                0
            }
        };
        self.choice_log.push(c);
        c
    }

    /// Move to the next unexplored feasible branch. False when there is none.
    fn backtrack(&mut self, unknowns: &mut u64) -> bool {
        loop {
            let depth = match self.trail.len() {
                0 => return false,
                n => n - 1,
            };
            let Some(option) = self.trail[depth].pending.pop() else {
                self.trail.pop();
                continue;
            };
            self.trail[depth].choice = option;
            self.pop_to(depth);
            // What was used after the former choice is not known of this one.
            for f in self.facts.iter_mut().filter(|f| !f.always && f.live.is_some_and(|l| l > depth)) {
                f.live = None;
            }
            self.live.iter_mut().filter(|l| l.is_some_and(|l| l > depth)).for_each(|l| *l = None);
            self.solver.push();
            let lit = self.trail[depth].lits[option as usize].clone();
            self.assert_lit(&lit);
            if lit == "true" {
                return true;
            }
            match self.check() {
                Sat::Sat => return true,
                Sat::Unsat => {}
                Sat::Unknown => *unknowns += 1,
            }
        }
    }

    fn donate(&mut self) -> Option<Vec<u8>> {
        let i = self.trail.iter().position(|d| !d.pending.is_empty())?;
        let option = self.trail[i].pending.pop().unwrap();
        let mut prefix: Vec<u8> = self.trail[..i].iter().map(|d| d.choice).collect();
        prefix.push(option);
        Some(prefix)
    }

    fn start_job(&mut self, prefix: &[u8]) {
        self.pop_to(0);
        self.trail = prefix
            .iter()
            .map(|c| Dec {
                choice: *c,
                pending: vec![],
                lits: vec![],
            })
            .collect();
        self.verify_at = if prefix.is_empty() {
            None
        } else {
            Some(prefix.len())
        };
    }

    fn start_path(&mut self) {
        self.path += 1;
        self.pos = 0;
        self.input_pos = 0;
        self.choice_log.clear();
        self.integral.clear();
        if self.scoped {
            for f in self.facts.iter_mut().filter(|f| !f.always) {
                f.live = None;
            }
            self.live.iter_mut().for_each(|l| *l = None);
        }
    }
}

/// A free choice of the environment among 0..n.
pub fn choose(n: usize) -> usize {
    match mode() {
        Mode::Symbolic => ctx().choose(n),
        Mode::Native => NATIVE.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.as_mut().expect("no native inputs");
            let c = s.0.choices.get(s.2).copied().unwrap_or(0);
            s.2 += 1;
            c.min(n - 1)
        }),
    }
}

/// The next recorded input of a native run.
pub fn native_input() -> f64 {
    NATIVE.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().expect("no native inputs");
        let v = s.0.values.get(s.1).copied().unwrap_or(0.0);
        s.1 += 1;
        v
    })
}

/// Drop the path unless the condition holds.
pub fn assume(condition: bool) {
    if !condition {
        abort(Abort::Cut)
    }
}

/// Record that the harness reached a situation it must be able to reach.
pub fn cover(what: &'static str) {
    if mode() == Mode::Symbolic {
        *ctx().covers.entry(what).or_insert(0) += 1;
    }
}

#[derive(Debug, Clone)]
pub enum PathEnd {
    Done(String),
    Violation(String),
    Abort(Abort),
    Error(String),
}

pub type Outcome = Result<String, String>;
pub type Harness<'a> = &'a (dyn Fn() -> Outcome + Sync);

fn classify(result: Result<Outcome, Box<dyn Any + Send>>) -> PathEnd {
    match result {
        Ok(Ok(s)) => PathEnd::Done(s),
        Ok(Err(e)) => PathEnd::Violation(e),
        Err(payload) => match payload.downcast::<Abort>() {
            Ok(a) => PathEnd::Abort(*a),
            Err(_) => {
                let msg = last_panic();
                if msg.starts_with("SOLVER:") {
                    PathEnd::Error(msg)
                } else {
                    PathEnd::Violation(format!("panic: {msg}"))
                }
            }
        },
    }
}

const STACK: usize = 64 << 20;

thread_local! {
    /// Seed that the process-wide `getrandom` stand-in hands to std's hash maps.
    static HASH_SEED: Cell<u64> = const { Cell::new(1) };
}

pub fn hash_seed() -> u64 {
    HASH_SEED.with(|s| s.get())
}

/// Of the runs that this thread starts.
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|s| s.set(seed));
}

/// Ends every exploration.
pub static HALT: AtomicBool = AtomicBool::new(false);

fn run_symbolic(ctx: &mut Ctx, harness: Harness) -> PathEnd {
    ctx.start_path();
    let p = ctx as *mut Ctx as usize;
    let seed = hash_seed();
    // A fresh thread per path: std's hash seeds are thread-local and would differ between
    // re-executions otherwise.
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                set_hash_seed(seed);
                CTX.with(|c| c.set(p as *mut Ctx));
                let r = catch_unwind(AssertUnwindSafe(harness));
                CTX.with(|c| c.set(std::ptr::null_mut()));
                classify(r)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| PathEnd::Error("path thread died".into()))
    })
}

/// Run a harness natively on recorded inputs.
pub fn run_native(inputs: &Inputs, harness: Harness) -> PathEnd {
    let inputs = inputs.clone();
    let seed = hash_seed();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                set_hash_seed(seed);
                NATIVE.with(|n| *n.borrow_mut() = Some((inputs, 0, 0)));
                classify(catch_unwind(AssertUnwindSafe(harness)))
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| PathEnd::Error("native thread died".into()))
    })
}

#[derive(Clone)]
pub struct Config {
    pub solver: String,
    pub logic: &'static str,
    pub query_timeout_ms: u64,
    pub workers: usize,
    pub budget: Duration,
    pub max_decisions: usize,
    pub new_dom: fn() -> Box<dyn Any + Send>,
    /// Compare the outcome of every path with a native run on a model of it.
    pub conform: bool,
    /// Accept outcomes that differ: the encoding over-approximates.
    pub lenient: bool,
    /// Whether the last model respects what the solver does not know; if not, it adds a fact.
    pub refine: Option<fn() -> bool>,
    /// Start anew, without the facts learnt, after so many paths or so long in the solver.
    pub fresh: Option<(usize, Duration)>,
    /// Give up after this many counterexamples that do not reproduce natively.
    pub max_unconfirmed: usize,
}

#[derive(Debug, Clone)]
pub struct Found {
    pub message: String,
    pub inputs: Inputs,
    pub reproduced_in: Vec<String>,
}

#[derive(Debug, Clone, Default)]
pub struct Report {
    pub paths: u64,
    pub cut: u64,
    pub infeasible: u64,
    pub decisions: u64,
    pub validated: u64,
    pub solver: SolverStats,
    pub unknown: u64,
    pub inconclusive: Vec<String>,
    pub errors: Vec<String>,
    pub nonconforming: Vec<String>,
    pub found: Option<Found>,
    pub unconfirmed: Vec<(String, Inputs)>,
    pub complete: bool,
    pub covers: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub outcomes: std::collections::BTreeSet<String>,
    pub wall: f64,
}

impl Report {
    /// What the context counted.
    fn count(&mut self, c: Ctx) {
        self.decisions += c.n_decisions;
        let t = &c.solver.stats;
        self.solver.queries += t.queries;
        self.solver.sat += t.sat;
        self.solver.unsat += t.unsat;
        self.solver.unknown += t.unknown;
        self.solver.nanos += t.nanos;
        for (k, v) in &c.covers {
            *self.covers.entry(k).or_insert(0) += v;
        }
        self.inconclusive.extend(c.notes.iter().take(3).cloned());
    }

    fn merge(&mut self, o: Report) {
        self.paths += o.paths;
        self.cut += o.cut;
        self.infeasible += o.infeasible;
        self.decisions += o.decisions;
        self.validated += o.validated;
        self.solver.queries += o.solver.queries;
        self.solver.sat += o.solver.sat;
        self.solver.unsat += o.solver.unsat;
        self.solver.unknown += o.solver.unknown;
        self.solver.nanos += o.solver.nanos;
        self.unknown += o.unknown;
        self.inconclusive.extend(o.inconclusive);
        self.errors.extend(o.errors);
        self.nonconforming.extend(o.nonconforming);
        if self.found.is_none() {
            self.found = o.found;
        }
        self.unconfirmed.extend(o.unconfirmed);
        for (k, v) in o.covers {
            *self.covers.entry(k).or_insert(0) += v;
        }
        if self.samples.len() < 4 {
            self.samples.extend(o.samples);
        }
        self.outcomes.extend(o.outcomes);
    }

    /// Whether every feasible path within the bounds was explored with a definite answer.
    pub fn conclusive(&self) -> bool {
        self.complete
            && self.unknown == 0
            && self.inconclusive.is_empty()
            && self.errors.is_empty()
            && self.nonconforming.is_empty()
            && self.unconfirmed.is_empty()
    }
}

pub type Confirm<'a> = &'a (dyn Fn(&Inputs, &str) -> Option<Found> + Sync);

struct Shared {
    queue: Mutex<VecDeque<Vec<u8>>>,
    wake: Condvar,
    idle: AtomicUsize,
    queued: AtomicUsize,
    stop: AtomicBool,
}

/// Explore every path of `harness`.
///
/// `natives` are the same harness over machine floats, used to validate each path; `confirm` replays
/// a counterexample and returns it if it reproduces.
pub fn explore(
    cfg: &Config,
    harness: Harness,
    natives: &[Harness],
    confirm: Confirm,
) -> Report {
    let start = Instant::now();
    let shared = Shared {
        queue: Mutex::new(VecDeque::from([vec![]])),
        wake: Condvar::new(),
        idle: AtomicUsize::new(0),
        queued: AtomicUsize::new(1),
        stop: AtomicBool::new(false),
    };
    let timed_out = AtomicBool::new(false);
    let total = Mutex::new(Report::default());
    let seed = hash_seed();
    std::thread::scope(|s| {
        for _ in 0..cfg.workers {
            s.spawn(|| {
                set_hash_seed(seed);
                let r = worker(cfg, harness, natives, confirm, &shared, start, &timed_out);
                total.lock().unwrap().merge(r);
            });
        }
    });
    let mut report = total.into_inner().unwrap();
    report.complete = !timed_out.load(SeqCst) && !shared.stop.load(SeqCst);
    report.wall = start.elapsed().as_secs_f64();
    report
}

fn worker(
    cfg: &Config,
    harness: Harness,
    natives: &[Harness],
    confirm: Confirm,
    shared: &Shared,
    start: Instant,
    timed_out: &AtomicBool,
) -> Report {
    let mut rep = Report::default();
    let mut ctx: Option<Ctx> = None;
    'jobs: loop {
        let job = {
            let mut q = shared.queue.lock().unwrap();
            shared.idle.fetch_add(1, SeqCst);
            loop {
                if shared.stop.load(SeqCst) {
                    break 'jobs;
                }
                if let Some(j) = q.pop_front() {
                    shared.idle.fetch_sub(1, SeqCst);
                    shared.queued.fetch_sub(1, SeqCst);
                    break j;
                }
                if shared.idle.load(SeqCst) == cfg.workers {
                    shared.wake.notify_all();
                    break 'jobs;
                }
                q = shared
                    .wake
                    .wait_timeout(q, Duration::from_millis(20))
                    .unwrap()
                    .0;
                if shared.idle.load(SeqCst) == cfg.workers && q.is_empty() {
                    break 'jobs;
                }
            }
        };
        let c = ctx.get_or_insert_with(|| Ctx::new(cfg, start + cfg.budget));
        c.start_job(&job);
        let mut paths = 0;
        loop {
            if HALT.load(SeqCst) {
                shared.stop.store(true, SeqCst);
            }
            if shared.stop.load(SeqCst) {
                break 'jobs;
            }
            if start.elapsed() > cfg.budget {
                timed_out.store(true, SeqCst);
                shared.stop.store(true, SeqCst);
                break 'jobs;
            }
            let end = run_symbolic(c, harness);
            let mut skip_rest = false;
            if std::env::var("SYMEX_TRACE").is_ok() {
                eprintln!("path {} ends {end:?}, choices {:?}", c.path, c.trail.iter().map(|d| (d.lits.get(d.choice as usize).cloned(), d.pending.len())).collect::<Vec<_>>());
            }
            match end {
                PathEnd::Done(outcome) => {
                    rep.paths += 1;
                    if cfg.conform || rep.samples.is_empty() {
                        match catch_unwind(AssertUnwindSafe(|| c.inputs())) {
                            Ok(inputs) => {
                                if rep.samples.is_empty() {
                                    rep.samples.push(format!(
                                        "inputs {:?} choices {:?} -> {}",
                                        inputs.values, inputs.choices, outcome
                                    ));
                                }
                                if cfg.conform {
                                    let mut same = true;
                                    for native in natives {
                                        match run_native(&inputs, native) {
                                            PathEnd::Done(o) if o == outcome => {}
                                            PathEnd::Violation(msg) => {
                                                // The native run breaks the property where the
                                                // symbolic one does not.
                                                same = false;
                                                if let Some(f) = confirm(&inputs, &msg) {
                                                    rep.found = Some(f);
                                                    shared.stop.store(true, SeqCst);
                                                }
                                            }
                                            other => {
                                                same = false;
                                                if !cfg.lenient && rep.nonconforming.len() < 5 {
                                                    rep.nonconforming.push(format!(
                                                        "inputs {inputs:?}: symbolic {outcome}, native {other:?}"
                                                    ));
                                                }
                                            }
                                        }
                                    }
                                    if same && !natives.is_empty() {
                                        rep.validated += 1;
                                    }
                                }
                            }
                            Err(e) => {
                                if matches!(e.downcast_ref::<Abort>(), Some(Abort::Infeasible)) {
                                    rep.infeasible += 1;
                                } else if rep.inconclusive.len() < 5 {
                                    rep.inconclusive.push("no model for a path".into());
                                }
                            }
                        }
                    }
                    if rep.outcomes.len() < 4096 {
                        rep.outcomes.insert(outcome);
                    }
                }
                PathEnd::Violation(msg) => {
                    rep.paths += 1;
                    let inputs = catch_unwind(AssertUnwindSafe(|| c.witness(cfg.refine)));
                    match inputs {
                        Ok(None) => rep.infeasible += 1,
                        Ok(Some(inputs)) => match confirm(&inputs, &msg) {
                            Some(f) => {
                                rep.found = Some(f);
                                shared.stop.store(true, SeqCst);
                            }
                            None => {
                                rep.unconfirmed.push((msg, inputs));
                                if rep.unconfirmed.len() >= cfg.max_unconfirmed {
                                    shared.stop.store(true, SeqCst);
                                }
                            }
                        },
                        // A branch that only the over-approximation of an unsolved query
                        // allowed.
                        Err(e) => match e.downcast::<Abort>().map(|a| *a) {
                            Ok(Abort::Infeasible) => rep.infeasible += 1,
                            _ => rep.inconclusive.push(format!("no model of a violation: {msg}")),
                        },
                    }
                }
                PathEnd::Abort(Abort::Cut) => rep.cut += 1,
                PathEnd::Abort(Abort::Infeasible) => rep.infeasible += 1,
                PathEnd::Abort(Abort::Unsupported(w)) => {
                    if rep.inconclusive.len() < 5 {
                        rep.inconclusive.push(format!("unsupported: {w}"));
                    }
                }
                PathEnd::Abort(Abort::Inconclusive(w)) => {
                    if rep.inconclusive.len() < 5 {
                        rep.inconclusive.push(w);
                    }
                }
                PathEnd::Error(e) => {
                    rep.errors.push(e);
                    shared.stop.store(true, SeqCst);
                    // The solver may be gone.
                    break 'jobs;
                }
            }
            // A path may end before its forced prefix did; those entries have no literals.
            while c.trail.last().is_some_and(|d| d.lits.is_empty()) {
                c.trail.pop();
                skip_rest = true;
            }
            if skip_rest {
                let depth = c.trail.len();
                c.pop_to(depth);
            }
            if shared.idle.load(SeqCst) > 0 && shared.queued.load(SeqCst) < cfg.workers {
                if let Some(p) = c.donate() {
                    let mut q = shared.queue.lock().unwrap();
                    q.push_back(p);
                    shared.queued.fetch_add(1, SeqCst);
                    shared.wake.notify_one();
                }
            }
            paths += 1;
            if cfg.fresh.is_some_and(|(n, t)| paths >= n || c.solver.stats.nanos > t.as_nanos()) {
                // Go on without what was learnt.
                let mut q = shared.queue.lock().unwrap();
                while let Some(p) = c.donate() {
                    q.push_back(p);
                    shared.queued.fetch_add(1, SeqCst);
                }
                drop(q);
                shared.wake.notify_all();
                rep.count(ctx.take().unwrap());
                break;
            }
            let more = match catch_unwind(AssertUnwindSafe(|| c.backtrack(&mut rep.unknown))) {
                Ok(m) => m,
                Err(_) => {
                    rep.errors.push(last_panic());
                    shared.stop.store(true, SeqCst);
                    break 'jobs;
                }
            };
            if !more {
                break;
            }
        }
    }
    shared.wake.notify_all();
    if let Some(c) = ctx {
        rep.count(c);
    }
    rep
}

/// `std` seeds its hash maps through this symbol; a fixed seed makes every run repeatable.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = hash_seed().wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}

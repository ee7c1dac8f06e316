//! One SMT solver process, driven incrementally over SMT-LIB2.
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Debug, Default, Clone)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u128,
}

pub struct Solver {
    child: Child,
    stdin: BufWriter<ChildStdin>,
    stdout: BufReader<ChildStdout>,
    depth: usize,
    pub stats: SolverStats,
    log: Option<std::fs::File>,
}

pub fn solver_command(name: &str) -> Vec<String> {
    let v: Vec<&str> = match name {
        "z3" => vec!["z3", "-in", "-smt2"],
        "z3-new" => vec!["z3-new", "-in", "-smt2"],
        "cvc5" => vec!["cvc5", "--incremental", "--lang=smt2", "--produce-models"],
        other => panic!("unknown solver {other}"),
    };
    let extra = std::env::var("SOLVER_ARGS").unwrap_or_default();
    let v: Vec<&str> = v.into_iter().chain(extra.split_whitespace()).collect();
    v.into_iter().map(String::from).collect()
}

impl Solver {
    pub fn new(name: &str, logic: &str, timeout_ms: u64) -> Self {
        let cmd = solver_command(name);
        let mut child = Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {name}: {e}"));
        let stdin = BufWriter::with_capacity(1 << 16, child.stdin.take().unwrap());
        let stdout = BufReader::new(child.stdout.take().unwrap());
        let log = std::env::var("SYMEX_LOG")
            .ok()
            .map(|p| std::fs::File::create(format!("{p}.{}", child.id())).unwrap());
        let mut s = Self {
            child,
            stdin,
            stdout,
            depth: 0,
            stats: SolverStats::default(),
            log,
        };
        s.send("(set-option :global-declarations true)");
        if name.starts_with("z3") {
            s.send(&format!("(set-option :timeout {timeout_ms})"));
        } else {
            s.send(&format!("(set-option :tlimit-per {timeout_ms})"));
            s.send(&format!(
                "(set-logic {})",
                if logic.is_empty() { "ALL" } else { logic }
            ));
        }
        if name.starts_with("z3") && !logic.is_empty() {
            s.send(&format!("(set-logic {logic})"));
        }
        s
    }

    pub fn send(&mut self, text: &str) {
        if let Some(log) = &mut self.log {
            let _ = writeln!(log, "{text}");
        }
        self.stdin.write_all(text.as_bytes()).unwrap();
        self.stdin.write_all(b"\n").unwrap();
    }

    pub fn depth(&self) -> usize {
        self.depth
    }

    pub fn push(&mut self) {
        self.send("(push 1)");
        self.depth += 1;
    }

    pub fn pop_to(&mut self, depth: usize) {
        if depth < self.depth {
            let n = self.depth - depth;
            self.send(&format!("(pop {n})"));
            self.depth = depth;
        }
    }

    pub fn assert(&mut self, text: &str) {
        self.send(&format!("(assert {text})"));
    }

    fn line(&mut self) -> String {
        let mut line = String::new();
        loop {
            line.clear();
            let n = self.stdout.read_line(&mut line).unwrap();
            if n == 0 {
                panic!("SOLVER: the solver process ended");
            }
            let t = line.trim();
            if !t.is_empty() {
                return t.to_string();
            }
        }
    }

    pub fn check(&mut self) -> Sat {
        let start = Instant::now();
        self.send("(check-sat)");
        self.stdin.flush().unwrap();
        let line = self.line();
        self.stats.nanos += start.elapsed().as_nanos();
        self.stats.queries += 1;
        if std::env::var("SYMEX_SLOW").is_ok() && start.elapsed().as_millis() > 60 {
            eprintln!("slow {:?} {line} {}", start.elapsed(), std::backtrace::Backtrace::force_capture());
        }
        if line.starts_with("(error") {
            panic!("SOLVER: {line}");
        }
        match line.as_str() {
            "sat" => {
                self.stats.sat += 1;
                Sat::Sat
            }
            "unsat" => {
                self.stats.unsat += 1;
                Sat::Unsat
            }
            "unknown" | "timeout" => {
                self.stats.unknown += 1;
                Sat::Unknown
            }
            other => panic!("SOLVER: unexpected answer {other}"),
        }
    }

    /// Values of the given terms in the current model, as raw SMT-LIB text.
    pub fn values(&mut self, names: &[String]) -> Vec<String> {
        if names.is_empty() {
            return Vec::new();
        }
        self.send(&format!("(get-value ({}))", names.join(" ")));
        self.stdin.flush().unwrap();
        let text = self.sexpr();
        if text.starts_with("(error") {
            panic!("SOLVER: {text}");
        }
        // ((name value) (name value) ...)
        let parsed = parse(&text);
        let Sx::List(items) = parsed else {
            panic!("SOLVER: bad get-value answer {text}")
        };
        items
            .into_iter()
            .map(|item| match item {
                Sx::List(mut pair) if pair.len() == 2 => pair.pop().unwrap().text(),
                other => panic!("SOLVER: bad value {other:?}"),
            })
            .collect()
    }

    fn sexpr(&mut self) -> String {
        let mut out = Vec::new();
        let mut level = 0i64;
        let mut byte = [0u8; 1];
        loop {
            self.stdout.read_exact(&mut byte).unwrap();
            let c = byte[0];
            if out.is_empty() && c.is_ascii_whitespace() {
                continue;
            }
            out.push(c);
            if c == b'(' {
                level += 1;
            } else if c == b')' {
                level -= 1;
                if level == 0 {
                    return String::from_utf8(out).unwrap();
                }
            }
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Debug, Clone)]
pub enum Sx {
    Atom(String),
    List(Vec<Sx>),
}

impl Sx {
    pub fn text(&self) -> String {
        match self {
            Sx::Atom(a) => a.clone(),
            Sx::List(l) => format!(
                "({})",
                l.iter().map(|x| x.text()).collect::<Vec<_>>().join(" ")
            ),
        }
    }
}

pub fn parse(text: &str) -> Sx {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut atom = String::new();
    let flush = |atom: &mut String, stack: &mut Vec<Vec<Sx>>| {
        if !atom.is_empty() {
            stack
                .last_mut()
                .unwrap()
                .push(Sx::Atom(std::mem::take(atom)));
        }
    };
    for c in text.chars() {
        match c {
            '(' => {
                flush(&mut atom, &mut stack);
                stack.push(vec![]);
            }
            ')' => {
                flush(&mut atom, &mut stack);
                let l = stack.pop().unwrap();
                stack.last_mut().unwrap().push(Sx::List(l));
            }
            c if c.is_whitespace() => flush(&mut atom, &mut stack),
            c => atom.push(c),
        }
    }
    flush(&mut atom, &mut stack);
    stack.pop().unwrap().pop().unwrap()
}

/// A numeral of SMT-LIB2 (integer, decimal, fraction, negation, or bit vector) as f64.
pub fn numeral(text: &str) -> f64 {
    fn go(x: &Sx) -> f64 {
        match x {
            Sx::Atom(a) => {
                if let Some(bits) = a.strip_prefix("#b") {
                    i128::from_str_radix(bits, 2).unwrap() as f64
                } else if let Some(hex) = a.strip_prefix("#x") {
                    i128::from_str_radix(hex, 16).unwrap() as f64
                } else {
                    a.trim_end_matches('?')
                        .parse::<f64>()
                        .unwrap_or_else(|_| panic!("SOLVER: bad numeral {a}"))
                }
            }
            Sx::List(l) => match l[0].text().as_str() {
                "-" if l.len() == 2 => -go(&l[1]),
                "-" => go(&l[1]) - go(&l[2]),
                "/" => go(&l[1]) / go(&l[2]),
                "+" => l[1..].iter().map(go).sum(),
                "*" => l[1..].iter().map(go).product(),
                other => panic!("SOLVER: bad numeral {other}"),
            },
        }
    }
    go(&parse(text))
}

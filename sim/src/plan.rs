//! A plan is one complete, self-contained simulated execution: what the clients do, which faults
//! strike where, and how the scheduler, the clock and the hash seeds behave. Executing the same
//! plan twice gives the same execution; a replay file is a plan.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use symbolic_math::Expr;

/// An f64 whose bits survive serialisation.
#[derive(Clone, Copy, PartialEq)]
pub struct F(pub f64);
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:016x} {:?}", self.0.to_bits(), self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        let hex = s.split(' ').next().unwrap_or("");
        u64::from_str_radix(hex, 16)
            .map(|b| F(f64::from_bits(b)))
            .map_err(|_| serde::de::Error::custom("bad float"))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum E {
    C(F),
    V(String),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Div(Box<E>, Box<E>),
    Pow(Box<E>, Box<E>),
    Ln(Box<E>),
    Exp(Box<E>),
    Sqrt(Box<E>),
    Sin(Box<E>),
    Cos(Box<E>),
    Neg(Box<E>),
}

pub fn c(x: f64) -> E {
    E::C(F(x))
}
pub fn v(s: &str) -> E {
    E::V(s.to_string())
}

impl E {
    pub fn to_expr(&self) -> Expr {
        let b = |e: &E| Box::new(e.to_expr());
        match self {
            E::C(x) => Expr::Const(x.0),
            E::V(n) => Expr::Var(n.clone()),
            E::Add(l, r) => Expr::Add(b(l), b(r)),
            E::Sub(l, r) => Expr::Sub(b(l), b(r)),
            E::Mul(l, r) => Expr::Mul(b(l), b(r)),
            E::Div(l, r) => Expr::Div(b(l), b(r)),
            E::Pow(l, r) => Expr::Pow(b(l), b(r)),
            E::Ln(x) => Expr::Ln(b(x)),
            E::Exp(x) => Expr::Exp(b(x)),
            E::Sqrt(x) => Expr::Sqrt(b(x)),
            E::Sin(x) => Expr::Sin(b(x)),
            E::Cos(x) => Expr::Cos(b(x)),
            E::Neg(x) => Expr::Neg(b(x)),
        }
    }
    pub fn kids(&self) -> Vec<&E> {
        match self {
            E::C(_) | E::V(_) => vec![],
            E::Add(l, r) | E::Sub(l, r) | E::Mul(l, r) | E::Div(l, r) | E::Pow(l, r) => vec![l, r],
            E::Ln(x) | E::Exp(x) | E::Sqrt(x) | E::Sin(x) | E::Cos(x) | E::Neg(x) => vec![x],
        }
    }
    pub fn kids_mut(&mut self) -> Vec<&mut E> {
        match self {
            E::C(_) | E::V(_) => vec![],
            E::Add(l, r) | E::Sub(l, r) | E::Mul(l, r) | E::Div(l, r) | E::Pow(l, r) => vec![l, r],
            E::Ln(x) | E::Exp(x) | E::Sqrt(x) | E::Sin(x) | E::Cos(x) | E::Neg(x) => vec![x],
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn vars(&self, out: &mut Vec<String>) {
        if let E::V(n) = self {
            if !out.contains(n) {
                out.push(n.clone());
            }
        }
        for k in self.kids() {
            k.vars(out);
        }
    }
    pub fn var_list(&self) -> Vec<String> {
        let mut o = vec![];
        self.vars(&mut o);
        o.sort();
        o
    }
    /// only + - * / sqrt, negation, constants and variables: compiled code must match exactly
    pub fn is_arith(&self) -> bool {
        !matches!(self, E::Pow(..) | E::Ln(_) | E::Exp(_) | E::Sin(_) | E::Cos(_))
            && self.kids().iter().all(|k| k.is_arith())
    }
    /// IEEE value of an arithmetic expression (None if a variable is missing).
    pub fn ieee(&self, env: &dyn Fn(&str) -> Option<f64>) -> Option<f64> {
        Some(match self {
            E::C(x) => x.0,
            E::V(n) => env(n)?,
            E::Add(l, r) => l.ieee(env)? + r.ieee(env)?,
            E::Sub(l, r) => l.ieee(env)? - r.ieee(env)?,
            E::Mul(l, r) => l.ieee(env)? * r.ieee(env)?,
            E::Div(l, r) => l.ieee(env)? / r.ieee(env)?,
            E::Pow(l, r) => l.ieee(env)?.powf(r.ieee(env)?),
            E::Ln(x) => x.ieee(env)?.ln(),
            E::Exp(x) => x.ieee(env)?.exp(),
            E::Sqrt(x) => x.ieee(env)?.sqrt(),
            E::Sin(x) => x.ieee(env)?.sin(),
            E::Cos(x) => x.ieee(env)?.cos(),
            E::Neg(x) => -x.ieee(env)?,
        })
    }
}

/// The k-th node of the expression in preorder (shared by the generators and the shrinker).
pub fn nth_mut(e: &mut E, k: &mut usize) -> Option<*mut E> {
    if *k == 0 {
        return Some(e as *mut E);
    }
    *k -= 1;
    for kid in e.kids_mut() {
        if let Some(p) = nth_mut(kid, k) {
            return Some(p);
        }
    }
    None
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the thread dies at that scheduling point of its own
    Kill { thread: usize, point: u64 },
    /// the thread is not run for that many decisions
    Stall { thread: usize, point: u64, steps: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
    Random { seed: u64, permille: u32 },
    Pct { seed: u64, depth: u32, len: u64 },
    /// run the current thread until it blocks or ends, except at these decisions
    Explicit { overrides: Vec<(u64, usize)> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ClockSpec {
    Step(u64),
    Stalled,
    Jumpy(u64),
}

/// One client operation: a verb with integer arguments (indices into the plan's pools, modes,
/// fault positions). What each verb means is documented with its scenario.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op(pub String, pub Vec<i64>);

pub fn op(k: &str, a: &[i64]) -> Op {
    Op(k.to_string(), a.to_vec())
}
impl Op {
    pub fn a(&self, i: usize) -> i64 {
        self.1.get(i).copied().unwrap_or(0)
    }
    pub fn u(&self, i: usize) -> usize {
        self.a(i).max(0) as usize
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub scenario: String,
    pub seed: u64,
    pub hash_seed: u64,
    pub knobs: BTreeMap<String, i64>,
    pub exprs: Vec<E>,
    pub envs: Vec<Vec<(String, F)>>,
    pub vals: Vec<Vec<F>>,
    pub names: Vec<String>,
    /// operations before, in and after the concurrent phase
    pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub post: Vec<Op>,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    pub clock: ClockSpec,
    pub alloc_permille: u32,
    pub spurious_permille: u32,
    pub max_steps: u64,
    /// how the processes differ that all execute this plan (C09, C12)
    #[serde(default)]
    pub extra: Vec<Op>,
    /// the property and scenario of another check whose plan this is ("C07/jit"), if any
    #[serde(default)]
    pub inner: String,
    /// what the run reported (in replay files)
    #[serde(default)]
    pub expect: Option<Violation>,
}
impl Plan {
    pub fn new(prop: &str, scenario: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(),
            scenario: scenario.into(),
            seed,
            hash_seed: seed,
            knobs: BTreeMap::new(),
            exprs: vec![],
            envs: vec![],
            vals: vec![],
            names: vec![],
            pre: vec![],
            threads: vec![],
            post: vec![],
            faults: vec![],
            sched: Sched::Explicit { overrides: vec![] },
            clock: ClockSpec::Step(1000),
            alloc_permille: 0,
            spurious_permille: 0,
            max_steps: 3_000_000,
            extra: vec![],
            inner: String::new(),
            expect: None,
        }
    }
    pub fn knob(&self, k: &str) -> i64 {
        self.knobs.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, x: i64) {
        self.knobs.insert(k.into(), x);
    }
    pub fn e(&self, i: usize) -> &E {
        &self.exprs[i % self.exprs.len()]
    }
    pub fn n_ops(&self) -> usize {
        self.pre.len() + self.post.len() + self.threads.iter().map(|t| t.len()).sum::<usize>()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// what kind of failure (minimisation keeps it)
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub steps: u64,
    pub decisions: u64,
    pub switches: u64,
    pub overrides: Vec<(u64, usize)>,
    /// interleaving signature (scheduling points with thread, kind and object)
    pub sig: u64,
    /// history signature (operations and results in completion order)
    pub hist: u64,
    pub sim_ns: u64,
    pub evals: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    /// the run gave no answer (only possible for stated reasons)
    pub inconclusive: Option<String>,
}
impl Outcome {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.into()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, class: &str, msg: String) {
        if self.violation.is_none() {
            self.violation = Some(Violation { class: class.into(), msg });
        }
    }
    pub fn mix(&mut self, x: u64) {
        self.hist = (self.hist ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
    }
    pub fn mix_str(&mut self, s: &str) {
        for b in s.bytes() {
            self.hist = (self.hist ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
}

// ------------------------------------------------------------------ seeded choices

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x6a09_e667_f3bc_c909);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        simstd::rt::splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.us(s.len())]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            s.swap(i, self.us(i + 1));
        }
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

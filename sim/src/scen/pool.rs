//! Generators of expressions, environments and schedules shared by the scenarios.
use crate::plan::*;
use std::collections::HashMap;

pub const NAMES: &[&str] = &["x", "y", "mu", "sigma", "a", "b", "theta"];
pub const ODD: &[&str] = &[
    "", " ", "1", "1.5", "0", "-0", "2.0", "(x + y)", "x + y", "x) + (y", "x * 2", "\"x\"",
    "x\", 1.0), (\"y", "x\": 1.0, \"y", "X", "x ", " x", "NaN", "inf", "-x", "(-x)", "ln(x)", "é",
    "e\u{301}", "xx", "x_1", "x1", "Const(1.0)", "Var(\"x\")", "x\0", "x\n", "pi", "e", "sqrt(x)",
];
pub const SPECIAL: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, 4.0, 10.0, 0.1, 1e-7, 1e-17, 1e-300, 1e300, 5e-324,
    f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e15, 1e16, 123456789.0,
    0.30000000000000004, 0.3, 1.0000000000000002, 0.9999999999999999, 1e21,
];
pub const TAME: &[f64] = &[1.0, 2.0, 0.5, 3.0, -1.0, -2.5, 0.25, 1.75, 10.0, 0.1, -0.7, 4.0, 7.0];

pub fn rname(r: &mut Rng, odd: u64) -> String {
    if r.chance(odd, 100) {
        match r.below(6) {
            0 => {
                // long names with a common prefix
                let n = *r.pick(&[16usize, 31, 32, 33, 64, 65, 128, 300]);
                let mut s = "v".repeat(n);
                s.push(*r.pick(&['1', '2']));
                s
            }
            _ => r.pick(ODD).to_string(),
        }
    } else {
        r.pick(NAMES).to_string()
    }
}

pub fn rconst(r: &mut Rng, special: u64) -> f64 {
    if r.chance(special, 100) {
        *r.pick(SPECIAL)
    } else {
        match r.below(4) {
            0 | 1 => *r.pick(TAME),
            2 => (r.range(-1000, 1000) as f64) / 8.0,
            _ => (r.unit() - 0.5) * 20.0,
        }
    }
}

#[derive(Clone)]
pub struct ExprKind {
    pub arith: bool,
    pub odd_names: u64,
    pub special: u64,
    pub names: Vec<String>,
}
impl ExprKind {
    pub fn wild() -> Self {
        ExprKind { arith: false, odd_names: 25, special: 35, names: vec![] }
    }
    pub fn tame(names: &[&str]) -> Self {
        ExprKind {
            arith: false,
            odd_names: 0,
            special: 0,
            names: names.iter().map(|s| s.to_string()).collect(),
        }
    }
}

pub fn rexpr(r: &mut Rng, k: &ExprKind, depth: u32) -> E {
    if depth == 0 || r.chance(1, 5) {
        return if r.chance(2, 5) {
            c(rconst(r, k.special))
        } else if k.names.is_empty() {
            E::V(rname(r, k.odd_names))
        } else {
            E::V(r.pick(&k.names).clone())
        };
    }
    let b = |r: &mut Rng| Box::new(rexpr(r, k, depth - 1));
    let n = if k.arith { 6 } else { 12 };
    match r.below(n) {
        0 => E::Add(b(r), b(r)),
        1 => E::Sub(b(r), b(r)),
        2 => E::Mul(b(r), b(r)),
        3 => E::Div(b(r), b(r)),
        4 => E::Neg(b(r)),
        5 => E::Sqrt(b(r)),
        6 => E::Ln(b(r)),
        7 => E::Exp(b(r)),
        8 => E::Sin(b(r)),
        9 => E::Cos(b(r)),
        10 => {
            if r.chance(1, 2) {
                E::Pow(b(r), Box::new(c(*r.pick(&[2.0, 3.0, 4.0, 0.5, 1.0, 0.0, -1.0, 2.5]))))
            } else {
                E::Pow(b(r), b(r))
            }
        }
        _ => E::Add(b(r), b(r)),
    }
}

pub fn nudge(r: &mut Rng, x: f64) -> f64 {
    match r.below(9) {
        0 => f64::from_bits(x.to_bits() ^ 1),
        1 => -x,
        2 => x + 1e-9,
        3 => x * (1.0 + 1e-13),
        4 => x + 1e-4,
        5 => x + 1.0,
        6 => (x * 10.0).round() / 10.0,
        7 => x as f32 as f64,
        _ => f64::from_bits(x.to_bits() ^ (1 << r.below(24))),
    }
}

/// An expression that resembles `e` (and is easily taken for it).
pub fn twin(r: &mut Rng, e: &E) -> E {
    let mut t = e.clone();
    let n = t.size();
    for _ in 0..6 {
        // anywhere, or in the very middle of a rendering
        let mut k = if n > 40 && r.chance(1, 2) { n / 2 + r.us(9) - 4 } else { r.us(n) };
        let Some(p) = nth_mut(&mut t, &mut k) else { continue };
        let node = unsafe { &mut *p };
        let new = match node.clone() {
            E::C(x) => match r.below(4) {
                0 => E::V(format!("{}", x.0)),
                1 if x.0 < 0.0 => E::Neg(Box::new(c(-x.0))),
                _ => c(nudge(r, x.0)),
            },
            E::V(s) => match r.below(6) {
                0 => s.parse::<f64>().map(c).unwrap_or_else(|_| E::V(format!("{s} "))),
                1 => E::V(s.to_uppercase()),
                2 => E::V(format!("{s}{s}")),
                3 => E::V(r.pick(NAMES).to_string()),
                4 => E::Neg(Box::new(E::V(s))),
                _ => E::V(s.chars().take(s.chars().count().saturating_sub(1)).collect()),
            },
            E::Add(a, b) => match r.below(6) {
                0 => E::Sub(a, b),
                1 => E::Add(b, a),
                2 => E::V(format!("{}", node.to_expr())),
                3 => match *a {
                    E::Add(x, y) => E::Add(x, Box::new(E::Add(y, b))),
                    a => E::Mul(Box::new(a), b),
                },
                4 => E::Add(a, Box::new(E::Neg(b))),
                _ => E::Mul(a, b),
            },
            E::Sub(a, b) => match r.below(3) {
                0 => E::Sub(b, a),
                1 => E::Add(a, b),
                _ => E::V(format!("{}", node.to_expr())),
            },
            E::Mul(a, b) => match r.below(4) {
                0 => E::Div(a, b),
                1 => E::Mul(b, a),
                2 => match *b {
                    E::Mul(x, y) => E::Mul(Box::new(E::Mul(a, x)), y),
                    b => E::Pow(a, Box::new(b)),
                },
                _ => E::V(format!("{}", node.to_expr())),
            },
            E::Div(a, b) => match r.below(3) {
                0 => E::Div(b, a),
                1 => E::Mul(a, b),
                _ => E::V(format!("{}", node.to_expr())),
            },
            E::Pow(a, b) => match r.below(2) {
                0 => E::Pow(b, a),
                _ => E::Mul(a, b),
            },
            E::Ln(a) => match r.below(3) {
                0 => E::Exp(a),
                1 => E::V(format!("{}", node.to_expr())),
                _ => E::Sqrt(a),
            },
            E::Exp(a) => E::Ln(a),
            E::Sqrt(a) => match r.below(2) {
                0 => E::Pow(a, Box::new(c(0.5))),
                _ => E::Ln(a),
            },
            E::Sin(a) => E::Cos(a),
            E::Cos(a) => E::Sin(a),
            E::Neg(a) => match r.below(3) {
                0 => *a,
                1 => E::V(format!("-{}", a.to_expr())),
                _ => match *a {
                    E::C(x) => c(-x.0),
                    a => E::Sub(Box::new(c(0.0)), Box::new(a)),
                },
            },
        };
        if new != *node {
            *node = new;
            return t;
        }
    }
    t
}

/// A long chain whose distinguishing leaf is far from where a rendering starts.
pub fn chain(r: &mut Rng, n: usize, leaf: f64) -> E {
    let mut e = c(leaf);
    let left = r.chance(1, 2);
    for i in 0..n {
        let t = Box::new(E::Mul(Box::new(c(1.0 + i as f64)), Box::new(v("x"))));
        e = if left { E::Add(Box::new(e), t) } else { E::Add(t, Box::new(e)) };
    }
    e
}

pub type Env = Vec<(String, F)>;

/// Values for the expression's variables (sometimes one is missing, sometimes there are extras).
pub fn renv(r: &mut Rng, vars: &[String], special: u64) -> Env {
    let mut e: Env = vec![];
    for n in vars {
        if r.chance(1, 25) {
            continue;
        }
        let x = if r.chance(special, 100) {
            *r.pick(SPECIAL)
        } else if r.chance(1, 2) {
            r.pick(TAME).abs()
        } else {
            rconst(r, 0)
        };
        e.push((n.clone(), F(x)));
    }
    while r.chance(1, 4) {
        let n = rname(r, 30);
        if !e.iter().any(|b| b.0 == n) {
            e.push((n, F(rconst(r, 20))));
        }
    }
    if r.chance(1, 14) {
        // many more bindings than the expression has variables
        let k = r.range(8, 90);
        let stem = *r.pick(&["v", "beta_", "z", ""]);
        for i in 0..k {
            let n = format!("{stem}{}", i * 37 % 101);
            if !e.iter().any(|b| b.0 == n) {
                let at = r.us(e.len() + 1);
                e.insert(at, (n, F(rconst(r, 5))));
            }
        }
    }
    e
}

pub fn twin_env(r: &mut Rng, e: &Env) -> Env {
    let mut t = e.clone();
    if t.is_empty() {
        t.push(("x".into(), F(1.0)));
        return t;
    }
    let i = r.us(t.len());
    match r.below(10) {
        8 | 9 if t.len() > 1 => {
            // two bindings that a careless rendering reads as one
            t.sort_by(|a, b| a.0.cmp(&b.0));
            let i = r.us(t.len() - 1);
            let (b, a) = (t.remove(i + 1), t.remove(i));
            let (eq, end) = *r.pick(&[
                ("=", ","), ("=", ", "), ("=", ";"), ("=", " "), ("=", "|"), ("=", "&"), ("=", "\n"), (":", ","), (":", " "), (":", ";"),
                (": ", ", "), (" = ", ", "), ("->", ","), ("", ""), (" ", " "), (",", ","), ("|", "|"), ("\": ", ", \""), ("\", ", "), (\""),
            ]);
            let value = match r.below(7) {
                0..=2 => format!("{}", a.1 .0),
                3 => format!("{}", a.1 .0.to_bits()),
                4 => format!("{:x}", a.1 .0.to_bits()),
                _ => format!("{:?}", a.1 .0),
            };
            t.push((format!("{}{eq}{value}{end}{}", a.0, b.0), b.1));
        }
        0 if t.len() > 1 => {
            let j = (i + 1) % t.len();
            let (a, b) = (t[i].1, t[j].1);
            t[i].1 = b;
            t[j].1 = a;
        }
        1 => {
            t.remove(i);
        }
        2 => {
            let n = rname(r, 30);
            if !t.iter().any(|b| b.0 == n) {
                t.push((n, F(rconst(r, 20))));
            }
        }
        3 => {
            let n = format!("{} ", t[i].0);
            if !t.iter().any(|b| b.0 == n) {
                t[i].0 = n;
            }
        }
        _ => t[i].1 = F(nudge(r, t[i].1 .0)),
    }
    t
}

/// The environment as a map, built in one of several ways that must not matter.
pub fn build_env(e: &Env, how: usize) -> HashMap<String, f64> {
    let mut m: HashMap<String, f64> = match how % 8 {
        3 => HashMap::with_capacity(64),
        5 => HashMap::with_capacity(1000),
        _ => HashMap::new(),
    };
    let n = e.len();
    match how % 8 {
        1 => {
            for (k, x) in e.iter().rev() {
                m.insert(k.clone(), x.0);
            }
        }
        2 => {
            for i in 0..n {
                let (k, x) = &e[(i + n / 2) % n];
                m.insert(k.clone(), x.0);
            }
        }
        4 => {
            for i in 0..40 {
                m.insert(format!("junk{i}"), i as f64);
            }
            for (k, x) in e {
                m.insert(k.clone(), x.0);
            }
            for i in 0..40 {
                m.remove(&format!("junk{i}"));
            }
        }
        6 => {
            for (k, _) in e.iter().rev() {
                m.insert(k.clone(), -77.0);
            }
            for (k, x) in e {
                m.insert(k.clone(), x.0);
            }
        }
        7 => {
            m = e.iter().rev().map(|(k, x)| (k.clone(), x.0)).collect();
            m.shrink_to_fit();
            m = m.clone();
        }
        _ => {
            for (k, x) in e {
                m.insert(k.clone(), x.0);
            }
        }
    }
    m
}

pub fn rsched(r: &mut Rng, len: u64) -> Sched {
    match r.below(10) {
        0..=4 => Sched::Random {
            seed: r.next(),
            permille: *r.pick(&[20, 60, 150, 300, 600, 1000]),
        },
        5..=8 => Sched::Pct { seed: r.next(), depth: r.range(1, 6) as u32, len: len.max(4) },
        _ => Sched::Explicit { overrides: vec![] },
    }
}

pub fn rclock(r: &mut Rng) -> ClockSpec {
    match r.below(6) {
        0 => ClockSpec::Stalled,
        1 => ClockSpec::Jumpy(r.next()),
        2 => ClockSpec::Step(3_600_000_000_000),
        _ => ClockSpec::Step(1000),
    }
}

/// Canonical bits: every NaN is one value.
pub fn bits(x: f64) -> u64 {
    if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() }
}
pub fn show(b: u64) -> String {
    format!("{:?} ({b:#018x})", f64::from_bits(b))
}

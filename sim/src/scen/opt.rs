//! C11: one optimiser over a history of expressions, against a brand-new optimiser in a fresh
//! process for each of them.
//!
//! Verbs: `new k` put a new optimiser into slot k; `opt k e` optimise with slot k; `ext e` the
//! extension method; `drop k`.
use super::jit::model_exprs;
use super::pool::*;
use crate::engine::*;
use crate::plan::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::time::Duration;
use symbolic_math::optimization::{EgglogOptimize, EgglogOptimizer};
use symbolic_math::Expr;

/// Result of optimising: the expression (as text, and its words at the sample points), or failure.
#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq, Debug)]
enum Res {
    Ok(String, Vec<Option<u64>>),
    Err(String),
    Panic(String),
}

fn samples(p: &Plan, x: &Expr) -> Vec<Option<u64>> {
    p.envs
        .iter()
        .map(|e| {
            let m: HashMap<String, f64> = e.iter().map(|(k, v)| (k.clone(), v.0)).collect();
            x.evaluate(&m).ok().map(bits)
        })
        .collect()
}
fn optimise(p: &Plan, o: Option<&mut EgglogOptimizer>, e: &Expr) -> Res {
    let r = guarded(|| match o {
        Some(o) => o.optimize(e).map_err(|e| format!("{e}")),
        None => e.optimize_with_egglog().map_err(|e| format!("{e}")),
    });
    match r {
        Ok(Ok(x)) => Res::Ok(format!("{x:?}"), samples(p, &x)),
        Ok(Err(t)) => Res::Err(t),
        Err(Stop::Panicked(t)) => Res::Panic(t),
        Err(Stop::Killed) => Res::Panic("killed".into()),
    }
}

/// The same meaning? Rounding may differ between two forms of one expression.
fn agree(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Res::Ok(t, v), Res::Ok(u, w)) => {
            t == u
                || v.iter().zip(w).all(|(x, y)| match (x, y) {
                    (None, None) => true,
                    (Some(x), Some(y)) => {
                        let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                        if x.is_finite() && y.is_finite() {
                            (x - y).abs() <= 1e-6 * (1.0 + x.abs().max(y.abs()))
                        } else {
                            x.is_nan() == y.is_nan() && (x.is_nan() || x == y)
                        }
                    }
                    _ => false,
                })
        }
        (Res::Err(_), Res::Err(_)) | (Res::Panic(_), Res::Panic(_)) => true,
        _ => false,
    }
}

pub fn limit_memory(gb: u64) {
    limit_bytes(gb << 30);
}
/// May use so much more address space than now, and so much processor time from now on.
fn limit_both(mb: u64, ms: i64) {
    let vm = std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|t| t.split_whitespace().next()?.parse::<u64>().ok())
        .unwrap_or(1 << 18);
    limit_bytes(vm * 4096 + (mb << 20));
    let t = libc::timeval { tv_sec: ms / 1000, tv_usec: ms % 1000 * 1000 };
    let z = libc::timeval { tv_sec: 0, tv_usec: 0 };
    unsafe {
        libc::syscall(libc::SYS_setitimer, 2, &libc::itimerval { it_interval: z, it_value: t }, 0);
    }
}
fn limit_bytes(n: u64) {
    let l = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
    unsafe {
        // what the runtime says about running out of memory is of no interest
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 2);
        libc::close(n);
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

/// What one expression may use, alone.
const REF_MB: u64 = 384;
const REF_MS: i64 = 150;

pub fn exec(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    limit_memory(6);
    // the answer for each expression alone, in a fresh process with a brand-new optimiser
    let used: std::collections::BTreeSet<usize> = p
        .pre.iter().chain(p.threads.iter().flatten()).chain(&p.post)
        .filter_map(|o| match o.0.as_str() {
            "opt" => Some(o.u(1) % p.exprs.len()),
            "ext" => Some(o.u(0) % p.exprs.len()),
            _ => None,
        })
        .collect();
    let mut refs: BTreeMap<usize, Res> = BTreeMap::new();
    for i in used {
        let c = fork_start(|| {
            limit_both(REF_MB, REF_MS);
            let mut o = EgglogOptimizer::new().expect("optimiser");
            serde_json::to_vec(&optimise(p, Some(&mut o), &p.exprs[i].to_expr())).unwrap()
        });
        match fork_finish(c, Duration::from_secs(6)) {
            Reply::Data(d) => {
                refs.insert(i, from_json(&d).unwrap());
            }
            // too large for the engine: this expression says nothing
            _ => out.count("expression given up by the equality-saturation engine", 1),
        }
    }
    // with a history before it, each may take many times what it took alone, and no more
    let steps = p.pre.len() + p.threads.iter().map(|t| t.len()).sum::<usize>() + p.post.len();
    limit_both(REF_MB * 5, 4000 + REF_MS * 6 * steps as i64);
    let refs = Arc::new(refs);
    let p2 = Arc::new(p.clone());
    let step = {
        let (refs, p) = (refs.clone(), p2.clone());
        move |slots: &mut Vec<Option<EgglogOptimizer>>, o: &Op, out: &mut Outcome| {
            let mut judge = |e: usize, got: Res, out: &mut Outcome| {
                out.evals += 1;
                let want = &refs[&e];
                match (&got, want) {
                    (Res::Ok(a, _), Res::Ok(b, _)) if a == b => out.count("same expression", 1),
                    (Res::Ok(..), Res::Ok(..)) => out.count("another form", 1),
                    (Res::Err(_), _) => out.count("fault: expression rejected by the engine", 1),
                    _ => out.count("fault: the engine panicked over an expression", 1),
                }
                if let Res::Ok(t, _) = &got {
                    out.mix_str(t);
                }
                if !agree(&got, want) {
                    out.fail("history", format!(
                        "{:?}: after the history {got:?}, with a brand-new optimiser {want:?}", p.exprs[e]));
                }
            };
            match o.0.as_str() {
                "new" => {
                    let k = o.u(0);
                    while slots.len() <= k {
                        slots.push(None);
                    }
                    slots[k] = EgglogOptimizer::new().ok();
                }
                "drop" => {
                    if let Some(s) = slots.get_mut(o.u(0)) {
                        *s = None;
                    }
                }
                "opt" => {
                    let e = o.u(1) % p.exprs.len();
                    if !refs.contains_key(&e) {
                        return;
                    }
                    if let Some(Some(s)) = slots.get_mut(o.u(0)) {
                        out.count("optimised with a used optimiser", 1);
                        let got = optimise(&p, Some(s), &p.exprs[e].to_expr());
                        judge(e, got, out);
                    }
                }
                "ext" => {
                    let e = o.u(0) % p.exprs.len();
                    if refs.contains_key(&e) {
                        let got = optimise(&p, None, &p.exprs[e].to_expr());
                        judge(e, got, out);
                    }
                }
                _ => {}
            }
        }
    };
    let mut slots = vec![];
    for o in &p.pre {
        step(&mut slots, o, &mut out);
        if out.violation.is_some() {
            return out;
        }
    }
    if !p.threads.is_empty() {
        let outs: Arc<Log<Outcome>> = Log::new();
        let (o2, s2, p3) = (outs.clone(), step.clone(), p2.clone());
        let ok = sim_phase(p, p.threads.len(), &mut out, move |t| {
            let mut o = Outcome::default();
            let mut own = vec![];
            for x in &p3.threads[t] {
                op_point();
                s2(&mut own, x, &mut o);
                if o.violation.is_some() {
                    break;
                }
            }
            o2.push(o);
        });
        for o in outs.take() {
            for (k, n) in &o.counters {
                out.count(k, *n);
            }
            out.evals += o.evals;
            out.mix(o.hist);
            if let Some(v) = o.violation {
                out.fail(&v.class, v.msg);
            }
        }
        if !ok || out.violation.is_some() {
            return out;
        }
    }
    for o in &p.post {
        step(&mut slots, o, &mut out);
        if out.violation.is_some() {
            return out;
        }
    }
    out.nontrivial = out.counters.get("optimised with a used optimiser").copied().unwrap_or(0) > 1;
    out
}

pub fn degenerate(r: &mut Rng, names: &[&str]) -> E {
    let b = |e: E| Box::new(e);
    let y = v(*r.pick(names));
    let z = v(*r.pick(names));
    let zero = match r.below(5) {
        0 => c(0.0),
        1 => E::Sub(b(y.clone()), b(y.clone())),
        2 => E::Mul(b(y.clone()), b(c(0.0))),
        3 => E::Add(b(z.clone()), b(E::Neg(b(z.clone())))),
        _ => E::Sub(b(c(1.0)), b(c(1.0))),
    };
    match r.below(8) {
        0 => E::Div(b(zero.clone()), b(zero)),
        1 => E::Pow(b(zero), b(c(0.0))),
        2 => E::Div(b(y), b(zero)),
        3 => E::Div(b(zero.clone()), b(E::Mul(b(zero), b(y)))),
        4 => E::Ln(b(E::Exp(b(E::Div(b(zero.clone()), b(zero)))))),
        5 => E::Pow(b(zero.clone()), b(zero)),
        6 => E::Exp(b(E::Ln(b(zero)))),
        _ => E::Sub(b(E::Div(b(zero.clone()), b(zero))), b(z)),
    }
}

/// Small enough for the engine.
pub fn small(r: &mut Rng, names: &[&str]) -> E {
    let k = ExprKind { arith: false, odd_names: 0, special: *r.pick(&[0, 15]), names: names.iter().map(|s| s.to_string()).collect() };
    loop {
        let d = r.range(0, 3) as u32;
        let e = rexpr(r, &k, d);
        if e.size() <= 9 {
            return e;
        }
    }
}

/// Large, yet small enough: long names and towers of functions no rule takes apart.
pub fn tall(r: &mut Rng, names: &[&str]) -> E {
    let mut e = if r.chance(1, 2) {
        v(&"w".repeat(*r.pick(&[20usize, 100, 300, 1100])))
    } else {
        small(r, names)
    };
    if r.chance(2, 3) {
        for _ in 0..r.range(8, 120) {
            e = match r.below(3) {
                0 => E::Sin(Box::new(e)),
                1 => E::Cos(Box::new(e)),
                _ => E::Exp(Box::new(e)),
            };
        }
    }
    e
}

pub fn generate(prop: &str, _tier: &str, seed: u64, _i: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new(prop, "opt", seed);
    p.hash_seed = r.next();
    p.clock = rclock(&mut r);
    p.set("egraph", 1);
    let names: Vec<&str> = match r.below(4) {
        0 => vec!["x"],
        1 => vec!["x", "y"],
        2 => vec!["x", "y", "expr_0", "expr_1"],
        _ => vec!["x", "mu", "sigma"],
    };
    for _ in 0..r.range(2, 6) {
        let e = if r.chance(1, 12) { tall(&mut r, &names) } else { small(&mut r, &names) };
        p.exprs.push(e);
    }
    for _ in 0..r.range(0, 3) {
        let j = r.us(p.exprs.len());
        let t = twin(&mut r, &p.exprs[j].clone());
        if t.size() <= 10 {
            p.exprs.push(t);
        }
    }
    // near-twins: constants apart by less than the engine's own text shows, some inside forms that
    // come back as they were
    let mut pairs = vec![];
    for _ in 0..r.range(0, 3) {
        let base = if r.chance(1, 3) { *r.pick(&[0.0, 1.0, 2.0, 0.5, -1.0, 1e6, 1e17]) } else { (r.unit() - 0.3) * 9.0 };
        let off = match r.below(4) {
            0 => 0.01 + 0.03 * r.unit(),
            1 => 1e-3,
            2 => base * 0.01,
            _ => 0.2 + r.unit(),
        };
        let (y, z) = (v(*r.pick(&names)), v(*r.pick(&names)));
        let b = |e: E| Box::new(e);
        let f = r.below(7);
        let form = |k: f64| match f {
            0 => E::Sqrt(b(E::Add(b(y.clone()), b(c(k))))),
            1 => E::Pow(b(z.clone()), b(E::Sqrt(b(E::Add(b(y.clone()), b(c(k))))))),
            2 => E::Mul(b(E::Sqrt(b(y.clone()))), b(E::Sub(b(z.clone()), b(c(k))))),
            3 => E::Add(b(y.clone()), b(c(k))),
            4 => E::Exp(b(E::Mul(b(c(k)), b(E::Neg(b(E::Sqrt(b(y.clone())))))))),
            5 => c(k),
            _ => E::Sub(b(E::Mul(b(y.clone()), b(c(k)))), b(E::Sqrt(b(z.clone())))),
        };
        let i = p.exprs.len() as i64;
        p.exprs.push(form(base));
        p.exprs.push(form(base + off));
        pairs.push((i, i + 1));
    }
    for _ in 0..r.range(0, 3) {
        let e = degenerate(&mut r, &names);
        p.exprs.push(e);
    }
    for _ in 0..r.range(0, 3) {
        // rejected by the engine, or nearly so
        let s = match r.below(6) {
            0 => c(f64::NAN),
            1 => c(f64::INFINITY),
            2 => E::Add(Box::new(v("x")), Box::new(c(f64::NEG_INFINITY))),
            3 => v(*r.pick(ODD)),
            4 => E::Mul(Box::new(v("a\"b")), Box::new(v("x"))),
            _ => v("x\")) (rewrite (Var \"x\") (Const 7.0)"),
        };
        p.exprs.push(s);
    }
    if r.chance(1, 6) {
        p.exprs.push(r.pick(&model_exprs()[..2]).clone());
    }
    let mut vars = vec![];
    for e in &p.exprs {
        e.vars(&mut vars);
    }
    for _ in 0..4 {
        p.envs.push(vars.iter().map(|n| (n.clone(), F(0.3 + r.unit() * 3.0))).collect());
    }
    p.envs.push(vars.iter().map(|n| (n.clone(), F(-0.2 - r.unit() * 3.0))).collect());
    let ne = p.exprs.len() as i64;
    let ns = r.range(1, 2);
    for k in 0..ns {
        p.pre.push(op("new", &[k]));
    }
    let gen = |r: &mut Rng| match r.below(14) {
        0 => op("ext", &[r.range(0, ne - 1)]),
        1 if r.chance(1, 3) => op("new", &[r.range(0, ns - 1)]),
        _ => op("opt", &[r.range(0, ns - 1), r.range(0, ne - 1)]),
    };
    for _ in 0..r.range(3, 16) {
        let o = gen(&mut r);
        p.pre.push(o);
        if r.chance(1, 3) && !pairs.is_empty() {
            let (a, b) = *r.pick(&pairs);
            let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
            let k = r.range(0, ns - 1);
            p.pre.push(op("opt", &[k, a]));
            p.pre.push(op("opt", &[k, b]));
        }
    }
    if r.chance(1, 6) {
        for _ in 0..2 {
            let mut l = vec![op("new", &[0]), op("new", &[1])];
            for _ in 0..r.range(1, 5) {
                l.push(gen(&mut r));
            }
            p.threads.push(l);
        }
        // switches only between operations: the engine's own locks are real ones
        p.sched = rsched(&mut r, 12);
        for _ in 0..r.range(0, 4) {
            let o = gen(&mut r);
            p.post.push(o);
        }
    }
    p
}

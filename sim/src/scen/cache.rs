//! C01-C05: the process-wide expression caches under concurrent clients, deaths and stalls.
//!
//! Verbs: `ev e n b` cached evaluation of expression e in environment n built the b-th way;
//! `sc e` cached simplification; `clr` clear; `st` counter snapshot; `burst e from count kind`
//! many distinct requests in a row (only in one-client histories); `dir e n` direct evaluation
//! and simplification; `clr n` n clears; the verbs of `work` that make no cached request.
use super::pool::*;
use crate::engine::*;
use crate::plan::*;
use simstd::rt;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use symbolic_math::expr::{clear_caches, get_cache_stats, CacheStats};
use symbolic_math::Expr;

pub fn generate(prop: &str, tier: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new(prop, "cache", seed);
    p.hash_seed = r.next();
    p.clock = rclock(&mut r);
    let long = i % 97 == 13;
    let conc = !long && r.chance(if prop == "C04" { 4 } else { 7 }, 10);
    let mut kind = ExprKind::wild();
    if r.chance(1, 3) {
        kind.odd_names = 0;
    }
    if r.chance(1, 2) {
        kind.special = 8;
    }
    // expressions: originals and their twins
    let n_orig = r.range(1, if conc { 3 } else { 6 }) as usize;
    for _ in 0..n_orig {
        let d = r.range(0, 4) as u32;
        let e = if r.chance(1, 12) {
            let n = *r.pick(&[8, 20, 60, 150, 150, if conc { 20 } else { 700 }]);
            let leaf = rconst(&mut r, 0);
            chain(&mut r, n, leaf)
        } else {
            rexpr(&mut r, &kind, d)
        };
        p.exprs.push(e);
    }
    let n_twin = r.range(0, if conc { 3 } else { 8 }) as usize;
    for _ in 0..n_twin {
        let j = r.us(p.exprs.len());
        let t = twin(&mut r, &p.exprs[j].clone());
        p.exprs.push(t);
    }
    // environments: for the variables of one of the expressions, and twins
    let n_env = r.range(1, if conc { 3 } else { 5 }) as usize;
    for _ in 0..n_env {
        let mut vars = vec![];
        p.exprs[r.us(p.exprs.len())].vars(&mut vars);
        let sp = *r.pick(&[0, 10, 40]);
        p.envs.push(renv(&mut r, &vars, sp));
    }
    for _ in 0..r.range(0, if conc { 2 } else { 5 }) {
        let j = r.us(p.envs.len());
        let t = twin_env(&mut r, &p.envs[j].clone());
        p.envs.push(t);
    }
    let (ne, nn) = (p.exprs.len() as i64, p.envs.len() as i64);
    let clears = r.chance(if prop == "C03" || prop == "C05" { 6 } else { 3 }, 10);
    let same_bias = r.below(3);
    let mut last: Option<Op> = None;
    let only_ev = prop == "C01" && r.chance(1, 2);
    let only_sc = prop == "C02" && r.chance(2, 3);
    // what the library does besides, which is no cached request
    let others = r.chance(if prop == "C03" { 4 } else { 2 }, 10);
    let nv = if others {
        p.vals = super::dens::rvals(&mut r, 3);
        p.vals.len() as i64
    } else {
        1
    };
    let many_clears = !conc && clears && r.chance(1, 3);
    let mut one = |r: &mut Rng| -> Op {
        if others && r.chance(1, 5) {
            let (e, n, v) = (r.range(0, ne - 1), r.range(0, nn - 1), r.range(0, nv - 1));
            return match r.below(if conc { 8 } else { 17 }) {
                0 | 1 => op("dir", &[e, n]),
                2..=4 => op("spec", &[e, n, v]),
                5 => op("text", &[e]),
                6 => op("vars", &[e]),
                7 => op("sym", &[e, n, r.range(0, 7)]),
                8 => op("repr", &[e]),
                9 | 10 => op("cmp", &[0, e, r.range(0, super::jit::FORMS - 1), r.range(0, 1 << 30)]),
                11 => op("bay", &[r.range(0, 2), e, r.range(0, 1 << 30)]),
                12 => op("den", &[r.range(0, super::dens::KINDS - 1), v, r.range(0, super::dens::METHODS - 1), v]),
                13 => op("reg", &[r.range(0, 9), r.range(0, 3)]),
                14 => op("auto", &[r.range(0, 12), e]),
                15 => op("memo", &[0, v]),
                _ => op(if r.chance(1, 2) { "pool" } else { "static" }, &[r.range(0, 9)]),
            };
        }
        if let (Some(l), true) = (&last, r.chance(same_bias, 4)) {
            // the same request again, environment built another way
            let mut o = l.clone();
            if o.0 == "ev" {
                o.1[2] = r.range(0, 7);
            }
            return o;
        }
        let o = match r.below(20) {
            0 | 1 if clears && many_clears && r.chance(1, 2) => op("clr", &[*r.pick(&[2, 3, 16, 127, 128, 255, 256, 257, 511, 65_537])]),
            0 | 1 if clears => op("clr", &[]),
            2 | 3 if !only_ev && !only_sc => op("st", &[]),
            x if (only_sc || x < 11) && !only_ev => op("sc", &[r.range(0, ne - 1)]),
            _ => op("ev", &[r.range(0, ne - 1), r.range(0, nn - 1), r.range(0, 7)]),
        };
        if o.0 == "ev" || o.0 == "sc" {
            last = Some(o.clone());
        }
        o
    };
    if conc {
        let nt = r.range(2, 4) as usize;
        let nops = r.range(2, 9);
        for _ in 0..r.below(4) {
            p.pre.push(one(&mut r));
        }
        let mut total = 0;
        for _ in 0..nt {
            let k = r.range(1, nops);
            total += k;
            p.threads.push((0..k).map(|_| one(&mut r)).collect());
        }
        p.sched = rsched(&mut r, total as u64 * 9);
        if r.chance(2, 5) {
            p.alloc_permille = *r.pick(&[5, 30, 120]);
        }
        p.spurious_permille = if r.chance(1, 3) { 100 } else { 0 };
        let deaths = match prop {
            "C05" => r.chance(8, 10),
            _ => r.chance(1, 4),
        };
        if deaths {
            for _ in 0..r.range(1, 2) {
                let t = r.us(nt);
                let n = p.threads[t].len() as u64;
                p.faults.push(Fault::Kill { thread: t, point: r.below(n * 9 + 2) });
            }
        }
        if r.chance(1, 3) {
            let t = r.us(nt);
            p.faults.push(Fault::Stall { thread: t, point: r.below(40), steps: *r.pick(&[5, 20, 100]) });
        }
        p.post.push(op("st", &[]));
        for _ in 0..r.below(5) {
            p.post.push(one(&mut r));
        }
    } else if !long {
        let k = r.range(4, 60);
        p.threads.push((0..k).map(|_| one(&mut r)).collect());
        if prop == "C03" || prop == "C04" {
            // look at the counters all the time
            let mut with = vec![];
            for o in p.threads.pop().unwrap() {
                with.push(o);
                if r.chance(1, 2) {
                    with.push(op("st", &[]));
                }
            }
            p.threads.push(with);
        }
        p.sched = Sched::Explicit { overrides: vec![] };
        if p.threads[0].iter().any(|o| o.0 == "clr" && o.a(0) > 10_000) {
            p.set("slow", 1);
            p.max_steps = 60_000_000;
        }
    } else {
        p.set("slow", 1);
        p.set("long", 1);
        p.max_steps = 60_000_000;
        let big = if tier == "thorough" { 200_000 } else { 40_000 };
        let n = *r.pick(&[300i64, 1100, 2100, 4200, 5000, 10_100, 17_000, 33_000, 66_000]);
        let n = n.min(big);
        let kind = match prop {
            "C02" => 2,
            "C01" => *r.pick(&[0, 1, 3]),
            _ => r.range(0, 3),
        };
        let mut t = vec![op("st", &[]), op("burst", &[0, 0, n, kind]), op("st", &[])];
        for _ in 0..r.range(1, 4) {
            let from = r.range(0, n - 1);
            match r.below(5) {
                0 => t.push(op("burst", &[0, 0, n, kind])),
                1 => t.push(op("burst", &[0, from, (n - from).min(500), kind])),
                2 => t.push(op("burst", &[0, from, 1, kind])),
                3 => t.push(one(&mut r)),
                _ => t.push(op("burst", &[0, n, r.range(1, 2000), kind])),
            }
            t.push(op("st", &[]));
            if r.chance(1, 6) {
                t.push(op("clr", &[]));
            }
        }
        t.push(op("burst", &[0, 0, n, kind]));
        t.push(op("st", &[]));
        for _ in 0..r.range(0, 6) {
            t.push(one(&mut r));
        }
        p.threads.push(t);
    }
    // epilogue: the caches still work
    p.post.extend([
        op("st", &[]),
        op("clr", &[]),
        op("st", &[]),
        op("ev", &[0, 0, 0]),
        op("st", &[]),
        op("ev", &[0, 0, 1]),
        op("st", &[]),
        op("sc", &[0]),
        op("sc", &[0]),
        op("st", &[]),
    ]);
    p
}

/// Requests that may be taken for one another (signed zeros and NaNs merged).
fn coarse_e(e: &E) -> String {
    fn norm(e: &mut E) {
        if let E::C(x) = e {
            if x.0 == 0.0 {
                *x = F(0.0);
            } else if x.0.is_nan() {
                *x = F(f64::NAN);
            }
        }
        for k in e.kids_mut() {
            norm(k);
        }
    }
    let mut t = e.clone();
    norm(&mut t);
    format!("{t:?}")
}
fn coarse_env(e: &Env) -> String {
    let mut m: BTreeMap<&str, u64> = BTreeMap::new();
    for (k, x) in e {
        m.insert(k, bits(if x.0 == 0.0 { 0.0 } else { x.0 }));
    }
    format!("{m:?}")
}
fn exact_env(e: &Env) -> String {
    let mut m: BTreeMap<&str, u64> = BTreeMap::new();
    for (k, x) in e {
        m.insert(k, x.0.to_bits());
    }
    format!("{m:?}")
}
fn has_nan(e: &E) -> bool {
    matches!(e, E::C(x) if x.0.is_nan()) || e.kids().iter().any(|k| has_nan(k))
}

fn show_eval(r: &Result<f64, symbolic_math::EvalError>) -> String {
    match r {
        Ok(x) => format!("Ok({})", show(bits(*x))),
        Err(e) => format!("Err({e:?})"),
    }
}

#[derive(Clone, Debug)]
enum Res {
    Ev(String, bool),
    Sc(String),
    Clr,
    Other,
    St([u64; 4]),
    Burst { hits_possible: u64, requests: u64 },
    Panic(String),
    Killed,
}
#[derive(Clone, Debug)]
struct Rec {
    op: Op,
    inv: u64,
    ret: u64,
    res: Res,
    /// 0 before, 1 in, 2 after the concurrent phase
    phase: u8,
    thread: usize,
}

fn stats(bad: &mut Vec<(String, String)>) -> [u64; 4] {
    let s: CacheStats = get_cache_stats();
    // the rates are those of the counters of the same reading
    let rate = |h: usize, m: usize| if h + m == 0 { 0.0 } else { h as f64 / (h + m) as f64 };
    for (name, got, h, m) in [
        ("evaluation", s.evaluation_hit_rate(), s.evaluation_hits, s.evaluation_misses),
        ("simplification", s.simplification_hit_rate(), s.simplification_hits, s.simplification_misses),
    ] {
        if got != rate(h, m) {
            bad.push(("C03:rate".into(), format!("{h} {name} hits and {m} misses are reported as a hit rate of {got}")));
        }
    }
    [
        s.evaluation_hits as u64,
        s.evaluation_misses as u64,
        s.simplification_hits as u64,
        s.simplification_misses as u64,
    ]
}

struct Ctx {
    exprs: Vec<Expr>,
    plan: Plan,
}

fn burst_request(cx: &Ctx, kind: i64, i: i64) -> (Expr, Env) {
    let x = i as f64;
    match kind {
        // one expression, many environments
        0 => (
            Expr::Add(Box::new(Expr::Var("x".into())), Box::new(Expr::Const(0.5))),
            vec![("x".into(), F(x))],
        ),
        // many variable names
        1 => (Expr::Neg(Box::new(Expr::Var(format!("v{i}")))), vec![(format!("v{i}"), F(x))]),
        // many constants
        _ => {
            let _ = cx;
            (
                Expr::Mul(
                    Box::new(Expr::Add(Box::new(Expr::Const(x)), Box::new(Expr::Const(0.25)))),
                    Box::new(Expr::Var("x".into())),
                ),
                vec![("x".into(), F(2.0))],
            )
        }
    }
}

fn do_op(cx: &Ctx, o: &Op, bad: &mut Vec<(String, String)>) -> Res {
    match o.0.as_str() {
        "ev" => {
            let e = &cx.exprs[o.u(0) % cx.exprs.len()];
            let env = build_env(&cx.plan.envs[o.u(1) % cx.plan.envs.len()], o.u(2));
            let r = e.evaluate_cached(&env);
            Res::Ev(rt::atomically(|| show_eval(&r)), r.is_ok())
        }
        "sc" => {
            let e = cx.exprs[o.u(0) % cx.exprs.len()].clone();
            let r = e.simplify_cached();
            Res::Sc(rt::atomically(|| format!("{r:?}")))
        }
        "clr" => {
            for _ in 0..o.a(0).max(1) {
                rt::progress();
                clear_caches();
            }
            Res::Clr
        }
        "dir" => {
            let e = &cx.exprs[o.u(0) % cx.exprs.len()];
            let env = build_env(&cx.plan.envs[o.u(1) % cx.plan.envs.len()], 0);
            let _ = (e.evaluate(&env), e.clone().simplify());
            Res::Other
        }
        "st" => Res::St(stats(bad)),
        "burst" => {
            let (from, n, kind) = (o.a(1), o.a(2), o.a(3));
            for i in from..from + n {
                rt::progress();
                let (e, env) = burst_request(cx, kind, i);
                if kind == 2 {
                    let want = e.clone().simplify();
                    let got = e.clone().simplify_cached();
                    if format!("{want:?}") != format!("{got:?}") && bad.is_empty() {
                        bad.push((
                            "C02:value".into(),
                            format!("request {i} of a long history: simplify_cached({e:?}) = {got:?}, direct {want:?}"),
                        ));
                    }
                } else {
                    let env = build_env(&env, 0);
                    let want = e.evaluate(&env);
                    let got = e.evaluate_cached(&env);
                    if show_eval(&want) != show_eval(&got) && bad.is_empty() {
                        bad.push((
                            "C01:value".into(),
                            format!("request {i} of a long history: evaluate_cached({e:?}, {env:?}) = {got:?}, direct {want:?}"),
                        ));
                    }
                }
            }
            Res::Burst { hits_possible: n as u64, requests: n as u64 }
        }
        _ => match super::work::World::default().step(&cx.plan, o) {
            Some(_) => Res::Other,
            None => Res::Killed,
        },
    }
}

pub fn exec(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let cx = Arc::new(Ctx { exprs: p.exprs.iter().map(|e| e.to_expr()).collect(), plan: p.clone() });

    // what direct evaluation and simplification say, first thing in a fresh process
    let mut pairs: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut singles: BTreeSet<usize> = BTreeSet::new();
    for o in p.pre.iter().chain(p.threads.iter().flatten()).chain(p.post.iter()) {
        match o.0.as_str() {
            "ev" => {
                pairs.insert((o.u(0) % p.exprs.len(), o.u(1) % p.envs.len()));
            }
            "sc" => {
                singles.insert(o.u(0) % p.exprs.len());
            }
            _ => {}
        }
    }
    let child = fork_start(|| {
        let mut ev = vec![];
        for &(e, n) in &pairs {
            ev.push(((e, n), show_eval(&cx.exprs[e].evaluate(&build_env(&p.envs[n], 0)))));
        }
        let mut sc = vec![];
        for &e in &singles {
            sc.push((e, format!("{:?}", cx.exprs[e].clone().simplify())));
        }
        serde_json::to_vec(&(ev, sc)).unwrap()
    });
    type Ref = (Vec<((usize, usize), String)>, Vec<(usize, String)>);
    let (ev, sc): Ref = match fork_finish(child, REFERENCE_LIMIT) {
        Reply::Data(d) => from_json(&d).unwrap(),
        _ => {
            out.inconclusive = Some("direct evaluation itself failed".into());
            return out;
        }
    };
    let ev: BTreeMap<(usize, usize), String> = ev.into_iter().collect();
    let sc: BTreeMap<usize, String> = sc.into_iter().collect();

    let log: Arc<Log<Rec>> = Log::new();
    let bads: Arc<Log<(String, String)>> = Log::new();
    let run_list = {
        let (cx, log, bads) = (cx.clone(), log.clone(), bads.clone());
        move |ops: &[Op], phase: u8, thread: usize| {
            for o in ops {
                if phase == 1 {
                    op_point();
                }
                let inv = rt::seq();
                let mut bad = vec![];
                let res = match guarded(|| do_op(&cx, o, &mut bad)) {
                    Ok(r) => r,
                    Err(Stop::Killed) => Res::Killed,
                    Err(Stop::Panicked(m)) => Res::Panic(m),
                };
                let killed = matches!(res, Res::Killed);
                let ret = if killed { u64::MAX } else { rt::seq() };
                log.push(Rec { op: o.clone(), inv, ret, res, phase, thread });
                for b in bad {
                    bads.push(b);
                }
                if killed {
                    break;
                }
            }
        }
    };
    let plan = Arc::new(p.clone());
    let (rl, q) = (run_list.clone(), plan.clone());
    if !p.pre.is_empty() && !quiet_phase(p, &mut out, move || rl(&q.pre, 0, 0)) {
        return out;
    }
    let ok = {
        let (rl, plan) = (run_list.clone(), plan.clone());
        sim_phase(p, p.threads.len(), &mut out, move |t| rl(&plan.threads[t], 1, t))
    };
    if !ok {
        return out;
    }
    let (rl, q) = (run_list.clone(), plan.clone());
    if !p.post.is_empty() && !quiet_phase(p, &mut out, move || rl(&q.post, 2, 0)) {
        return out;
    }
    let recs = log.take();
    for (class, msg) in bads.take() {
        if class.starts_with(&p.prop) || class.starts_with("panic") {
            out.fail(&class, msg);
        }
    }
    judge(p, &recs, &ev, &sc, &mut out);
    out
}

fn judge(
    p: &Plan,
    recs: &[Rec],
    ev: &BTreeMap<(usize, usize), String>,
    sc: &BTreeMap<usize, String>,
    out: &mut Outcome,
) {
    let deaths = recs.iter().filter(|r| matches!(r.res, Res::Killed)).count();
    let after_death = |r: &Rec| recs.iter().any(|d| matches!(d.res, Res::Killed) && d.inv < r.ret);
    out.count("operation died inside the caches", deaths as u64);
    let o = recs.iter().filter(|r| matches!(r.res, Res::Other)).count();
    if o > 0 {
        out.count("library operation that is no cached request", o as u64);
    }
    for r in recs {
        out.mix(r.thread as u64);
        out.mix_str(&format!("{:?}{:?}", r.op, r.res));
        out.evals += 1;
        match &r.res {
            Res::Panic(m) => out.fail(
                "panic",
                format!("thread {} {:?} panicked{}: {m}", r.thread, r.op,
                    if after_death(r) { " after another caller had died" } else { "" }),
            ),
            Res::Ev(got, _) => {
                let (e, n) = (r.op.u(0) % p.exprs.len(), r.op.u(1) % p.envs.len());
                let want = &ev[&(e, n)];
                if got != want && matches!(p.prop.as_str(), "C01" | "C05") {
                    out.fail("C01:value", format!(
                        "evaluate_cached({:?}, {:?}) gave {got}, direct evaluation gives {want}",
                        p.exprs[e].to_expr(), p.envs[n]));
                }
            }
            Res::Sc(got) => {
                let e = r.op.u(0) % p.exprs.len();
                let want = &sc[&e];
                if got != want && matches!(p.prop.as_str(), "C02" | "C05") {
                    out.fail("C02:value", format!(
                        "simplify_cached({:?}) gave {got}, direct simplification gives {want}",
                        p.exprs[e].to_expr()));
                }
            }
            _ => {}
        }
    }
    out.nontrivial = recs.iter().filter(|r| matches!(r.op.0.as_str(), "ev" | "sc" | "burst")).count() >= 2;
    if out.violation.is_some() || !matches!(p.prop.as_str(), "C03" | "C04" | "C05") {
        return;
    }
    if p.threads.len() <= 1 && deaths == 0 {
        sequential(p, recs, ev, out);
    } else {
        concurrent(p, recs, out);
    }
}

/// One client: the counters are determined exactly (except for requests that differ only in the
/// sign of a zero or involve NaN, which may count either way).
fn sequential(p: &Plan, recs: &[Rec], ev: &BTreeMap<(usize, usize), String>, out: &mut Outcome) {
    let mut seen_exact: BTreeSet<String> = BTreeSet::new();
    let mut seen_coarse: BTreeSet<String> = BTreeSet::new();
    let mut bursts: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
    // per kind: surely hits, surely misses, either
    let mut n = [[0u64; 3]; 2];
    for r in recs {
        match &r.res {
            Res::Clr => {
                seen_exact.clear();
                seen_coarse.clear();
                bursts.clear();
                n = [[0; 3]; 2];
            }
            Res::Ev(..) => {
                let (e, m) = (r.op.u(0) % p.exprs.len(), r.op.u(1) % p.envs.len());
                let ex = format!("ev {:?} {}", p.exprs[e], exact_env(&p.envs[m]));
                let co = format!("ev {} {}", coarse_e(&p.exprs[e]), coarse_env(&p.envs[m]));
                // environments and constants with NaN are not equal to themselves
                let odd = has_nan(&p.exprs[e]) || p.envs[m].iter().any(|b| b.1 .0.is_nan());
                let i = if seen_exact.contains(&ex) && !odd { 0 }
                    else if !seen_coarse.contains(&co) { 1 } else { 2 };
                n[0][i] += 1;
                if ev[&(e, m)].starts_with("Ok") {
                    seen_exact.insert(ex);
                }
                seen_coarse.insert(co);
            }
            Res::Sc(_) => {
                let e = r.op.u(0) % p.exprs.len();
                let ex = format!("sc {:?}", p.exprs[e]);
                let co = format!("sc {}", coarse_e(&p.exprs[e]));
                let odd = has_nan(&p.exprs[e]);
                let i = if seen_exact.contains(&ex) && !odd { 0 }
                    else if !seen_coarse.contains(&co) { 1 } else { 2 };
                n[1][i] += 1;
                seen_exact.insert(ex);
                seen_coarse.insert(co);
            }
            Res::Burst { .. } => {
                let (from, cnt, kind) = (r.op.a(1), r.op.a(2), r.op.a(3));
                let k = if kind == 2 { 1 } else { 0 };
                let set = bursts.entry(if kind == 3 { 9 } else { kind }).or_default();
                for i in from..from + cnt {
                    n[k][if set.insert(i) { 1 } else { 0 }] += 1;
                }
                // a generated expression equal to a burst request would be a coincidence
            }
            Res::St(s) => {
                for k in 0..2 {
                    let (h, m) = (s[2 * k], s[2 * k + 1]);
                    let name = ["evaluation", "simplification"][k];
                    let [sh, sm, ei] = n[k];
                    if p.prop != "C04" && h + m != sh + sm + ei {
                        out.fail("C03:total", format!(
                            "{name}: {h} hits + {m} misses counted for {} requests since the last clear",
                            sh + sm + ei));
                    }
                    if p.prop != "C04" && h > sh + ei {
                        out.fail("C03:hit", format!(
                            "{name}: {h} hits counted, but only {} requests repeat an equal earlier request", sh + ei));
                    }
                    if p.prop != "C03" && h < sh {
                        out.fail("C04:repeat", format!(
                            "{name}: only {h} hits counted although {sh} requests repeat a successful one"));
                    }
                    if p.prop != "C03" && m > sm + ei {
                        out.fail("C04:misses", format!(
                            "{name}: {m} misses counted for {} distinct requests", sm + ei));
                    }
                }
                out.count("exact counter comparison", 1);
            }
            _ => {}
        }
    }
}

fn concurrent(p: &Plan, recs: &[Rec], out: &mut Outcome) {
    let clears: Vec<&Rec> = recs.iter().filter(|r| r.op.0 == "clr").collect();
    let ident = |r: &Rec| -> (String, String, bool) {
        let e = r.op.u(0) % p.exprs.len();
        if r.op.0 == "ev" {
            let m = r.op.u(1) % p.envs.len();
            (
                format!("{:?} {}", p.exprs[e], exact_env(&p.envs[m])),
                format!("{} {}", coarse_e(&p.exprs[e]), coarse_env(&p.envs[m])),
                has_nan(&p.exprs[e]) || p.envs[m].iter().any(|b| b.1 .0.is_nan()),
            )
        } else {
            (format!("{:?}", p.exprs[e]), coarse_e(&p.exprs[e]), has_nan(&p.exprs[e]))
        }
    };
    for (k, verb) in ["ev", "sc"].iter().enumerate() {
        let name = ["evaluation", "simplification"][k];
        let look: Vec<(&Rec, (String, String, bool))> =
            recs.iter().filter(|r| r.op.0 == *verb).map(|r| (r, ident(r))).collect();
        for s in recs {
            let Res::St(v) = &s.res else { continue };
            let (h, m) = (v[2 * k], v[2 * k + 1]);
            // requests that may be included: begun before the snapshot ended, not surely cleared
            let may: Vec<_> = look
                .iter()
                .filter(|(l, _)| {
                    l.inv < s.ret && !clears.iter().any(|c| c.ret < s.inv && l.ret < c.inv)
                })
                .collect();
            // requests surely included: ended before it began, no clear can have come after them
            let must: Vec<_> = look
                .iter()
                .filter(|(l, _)| {
                    l.ret < s.inv && !clears.iter().any(|c| c.inv < s.ret && c.ret > l.inv)
                })
                .collect();
            out.count("bounded counter comparison", 1);
            if may.len() == must.len() {
                out.count("bounded counter comparison that was exact", 1);
            }
            let t = h + m;
            if p.prop != "C04" && (t > may.len() as u64 || t < must.len() as u64) {
                out.fail("C03:total", format!(
                    "{name}: {h} hits + {m} misses in a snapshot by which at least {} and at most {} requests can have been counted",
                    must.len(), may.len()));
            }
            // a hit needs an equal request that was not surely cleared before it
            let justified = |l: &Rec, id: &(String, String, bool)| {
                look.iter().any(|(q, qi)| {
                    !std::ptr::eq(*q, l)
                        && q.inv < l.ret
                        && qi.1 == id.1
                        && !clears.iter().any(|c| q.ret < c.inv && c.ret < l.inv)
                })
            };
            let can_hit = may.iter().filter(|(l, i)| justified(l, i)).count() as u64;
            if p.prop != "C04" && h > can_hit {
                out.fail("C03:hit", format!(
                    "{name}: {h} hits in a snapshot, but at most {can_hit} requests repeat an equal one since the last clear"));
            }
            // a request that repeats a successful one, with no clear about, must hit
            let surely = |l: &Rec, id: &(String, String, bool)| {
                !id.2
                    && look.iter().any(|(q, qi)| {
                        q.ret < l.inv
                            && qi.0 == id.0
                            && !matches!(q.res, Res::Ev(_, false))
                            && !clears.iter().any(|c| c.ret > q.inv && c.inv < l.ret)
                    })
            };
            let must_hit = must.iter().filter(|(l, i)| surely(l, i)).count() as u64;
            if must_hit > 0 {
                out.count("snapshot with requests that must have hit", 1);
            }
            if p.prop != "C03" && h < must_hit {
                out.fail(if p.prop == "C05" { "C05:effective" } else { "C04:repeat" }, format!(
                    "{name}: {h} hits in a snapshot although {must_hit} completed requests repeat a successful one"));
            }
            if p.prop != "C03" {
                // misses: all possible requests minus those that must hit
                let could_miss = may.iter().filter(|(l, i)| !surely(l, i)).count() as u64;
                if m > could_miss {
                    out.fail(if p.prop == "C05" { "C05:effective" } else { "C04:misses" }, format!(
                        "{name}: {m} misses in a snapshot although only {could_miss} requests can have missed"));
                }
            }
        }
    }
}

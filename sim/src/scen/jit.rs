//! C06, C07, C08, C10, C19, C35: compiled functions and Bayesian models under histories of compilations,
//! calls, drops and refused memory, on one or several threads.
//!
//! Verbs: `cmp slot expr form lay` compile into a slot (the old function goes away on success);
//! `cmpf slot expr form lay what nth count` the same with memory refused (what: 0 pages,
//! 1 protection, 2 both; requests nth..nth+count); `call slot val dirt` call with arguments;
//! `look slot` read again what it says about its making;
//! `wrong slot` call in a form the signature does not have; `drop slot`; `new` an unused compiler;
//! `cyc expr form lay n how` compile-call-drop n times (how 1: dropped while unwinding); `bcyc part expr lay n` the same part n times;
//! `bcmp part expr lay`, `bcmpf part expr lay what
//! nth count`, `bev part val`, `bwrong part val`, `bnew` for the Bayesian model.
use super::pool::*;
use crate::engine::*;
use crate::plan::*;
use crate::sys;
use measures_bayesian::bayesian::BayesianJITOptimizer;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use symbolic_math::final_tagless::{JITRepr, MathExpr};
use symbolic_math::{
    CustomSymbolicLogDensity, GeneralJITCompiler, GeneralJITFunction, JITError, JITEval, JITSignature,
};

/// Built through the public trait, the way a user writes a final-tagless expression.
pub fn to_repr(e: &E) -> JITRepr {
    type J = JITEval;
    match e {
        E::C(x) => J::constant::<f64>(x.0),
        E::V(n) => {
            if n.len() % 2 == 0 {
                <J as MathExpr>::var::<f64>(n)
            } else {
                J::var(n)
            }
        }
        E::Add(l, r) => J::add::<f64, f64, f64>(to_repr(l), to_repr(r)),
        E::Sub(l, r) => J::sub::<f64, f64, f64>(to_repr(l), to_repr(r)),
        E::Mul(l, r) => J::mul::<f64, f64, f64>(to_repr(l), to_repr(r)),
        E::Div(l, r) => J::div::<f64, f64, f64>(to_repr(l), to_repr(r)),
        E::Pow(l, r) => J::pow::<f64>(to_repr(l), to_repr(r)),
        E::Ln(x) => J::ln::<f64>(to_repr(x)),
        E::Exp(x) => J::exp::<f64>(to_repr(x)),
        E::Sqrt(x) => J::sqrt::<f64>(to_repr(x)),
        E::Sin(x) => J::sin::<f64>(to_repr(x)),
        E::Cos(x) => J::cos::<f64>(to_repr(x)),
        E::Neg(x) => J::neg::<f64>(to_repr(x)),
    }
}

/// What a compilation is asked for: which variables are data, which parameters, which constants.
#[derive(Clone, Debug)]
pub struct Layout {
    pub data: Vec<String>,
    pub params: Vec<String>,
    pub consts: Vec<(String, f64)>,
}
/// The layout is a function of the variables, the form and a number. Numbers that differ only above
/// bit 40 give the same layout with nearly the same constants.
pub fn layout(vars: &[String], form: i64, lay: i64) -> Layout {
    let mut r = Rng::new((lay & ((1 << 40) - 1)) as u64);
    let near = (lay >> 40) as u64;
    let mut v = vars.to_vec();
    let unbound = r.chance(1, 14);
    let extra = r.below(8);
    if extra == 0 {
        v.push("unused".into());
    }
    r.shuffle(&mut v);
    let n = v.len();
    if unbound && n > 0 {
        v.pop(); // one variable has no meaning: compilation must fail
    }
    let n = v.len().min(n);
    let (mut nd, mut nc) = match r.below(6) {
        0 => (n, 0),
        1 => (0, 0),
        2 | 3 => (1.min(n), 0),
        4 => (r.us(n + 1), 0),
        _ => (r.us(n + 1), 1),
    };
    if form == 4 || form == 5 || form == 6 || form == 7 {
        nc = 0;
    }
    if form >= 5 && form <= 7 {
        nd = 1.min(n);
    }
    let mut consts = vec![];
    let mut rest: Vec<String> = v[nd..].to_vec();
    if nc > 0 {
        let k = r.us(rest.len() + 1);
        for name in rest.drain(rest.len() - k..) {
            let x = if r.chance(1, 5) { *r.pick(SPECIAL) } else { *r.pick(TAME) };
            consts.push((name, if near == 0 { x } else { nudge(&mut Rng::new(near ^ r.next()), x) }));
        }
        if r.chance(1, 3) {
            consts.push(("spare".into(), 9.0));
        }
    }
    Layout { data: v[..nd].to_vec(), params: rest, consts }
}

pub const FORMS: i64 = 9;

pub fn compile(e: &E, form: i64, lay: i64) -> Result<GeneralJITFunction, JITError> {
    let l = layout(&e.var_list(), form, lay);
    let consts: HashMap<String, f64> = l.consts.iter().cloned().collect();
    match form {
        0 => GeneralJITCompiler::new()?.compile_expression(&e.to_expr(), &l.data, &l.params, &consts),
        1 => {
            let mut params = consts;
            let vs = e.var_list();
            for (i, n) in vs.iter().enumerate().skip(1) {
                params.entry(n.clone()).or_insert(TAME[(lay as usize + i) % TAME.len()]);
            }
            if let Some(n) = vs.first() {
                params.remove(n);
            }
            let s = CustomSymbolicLogDensity::new(e.to_expr(), params);
            GeneralJITCompiler::new()?.compile_custom_expression(&s)
        }
        2 => GeneralJITCompiler::new()?.compile_final_tagless(&to_repr(e), &l.data, &l.params, &consts),
        3 => JITEval::compile(to_repr(e)),
        4 => JITEval::compile_with_signature(to_repr(e), &l.data, &l.params),
        5 => JITEval::compile_single_var(to_repr(e), l.data.first().map_or("x", |s| s)),
        6 => JITEval::compile_data_param(
            to_repr(e),
            l.data.first().map_or("x", |s| s),
            l.params.first().map_or("theta", |s| s),
        ),
        7 => JITEval::compile_data_params(to_repr(e), l.data.first().map_or("x", |s| s), &l.params),
        _ => JITEval::compile_with_constants(to_repr(e), &l.data, &l.params, &consts),
    }
}

/// The argument names in calling order, and the constants (None: not determined here).
fn arg_names(e: &E, form: i64, lay: i64) -> (Vec<String>, Vec<(String, f64)>) {
    let l = layout(&e.var_list(), form, lay);
    match form {
        1 => {
            let vs = e.var_list();
            let mut c: Vec<(String, f64)> = vec![];
            for (i, n) in vs.iter().enumerate().skip(1) {
                let x = l.consts.iter().find(|k| k.0 == *n).map_or(TAME[(lay as usize + i) % TAME.len()], |k| k.1);
                c.push((n.clone(), x));
            }
            (vs.into_iter().take(1).collect(), c)
        }
        3 => (e.var_list(), vec![]),
        5 => (vec![l.data.first().cloned().unwrap_or("x".into())], vec![]),
        6 => (
            vec![
                l.data.first().cloned().unwrap_or("x".into()),
                l.params.first().cloned().unwrap_or("theta".into()),
            ],
            vec![],
        ),
        7 => {
            let mut v = vec![l.data.first().cloned().unwrap_or("x".into())];
            v.extend(l.params);
            (v, vec![])
        }
        _ => {
            let mut v = l.data;
            v.extend(l.params);
            (v, l.consts)
        }
    }
}

fn take(vals: &[F], n: usize) -> Vec<f64> {
    (0..n).map(|i| if vals.is_empty() { 1.0 } else { vals[i % vals.len()].0 }).collect()
}

/// Leaves junk in every floating-point register and below the stack pointer.
#[inline(never)]
pub fn dirty(kind: i64) {
    if kind == 0 {
        return;
    }
    let junk: u64 = match kind {
        1 => 0x7ff8_dead_beef_0001,
        2 => 0xffff_ffff_ffff_ffff,
        _ => (kind as f64 * 1234.5678).to_bits(),
    };
    let mut pad = [junk; 512];
    std::hint::black_box(&mut pad);
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!(
            "movq xmm0, {j}", "movq xmm1, {j}", "movq xmm2, {j}", "movq xmm3, {j}",
            "movq xmm4, {j}", "movq xmm5, {j}", "movq xmm6, {j}", "movq xmm7, {j}",
            "movq xmm8, {j}", "movq xmm9, {j}", "movq xmm10, {j}", "movq xmm11, {j}",
            "movq xmm12, {j}", "movq xmm13, {j}", "movq xmm14, {j}", "movq xmm15, {j}",
            "mov rax, {j}", "mov rcx, {j}", "mov rdx, {j}", "mov rsi, {j}",
            "mov r8, {j}", "mov r9, {j}", "mov r10, {j}", "mov r11, {j}",
            j = in(reg) junk,
            out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _,
            out("xmm5") _, out("xmm6") _, out("xmm7") _, out("xmm8") _, out("xmm9") _,
            out("xmm10") _, out("xmm11") _, out("xmm12") _, out("xmm13") _, out("xmm14") _,
            out("xmm15") _, out("rax") _, out("rcx") _, out("rdx") _, out("rsi") _,
            out("r8") _, out("r9") _, out("r10") _, out("r11") _,
            options(nostack)
        );
    }
}

/// Calls the function in the form its signature has.
pub fn call(f: &GeneralJITFunction, vals: &[F], dirt: i64) -> f64 {
    match &f.signature {
        JITSignature::SingleInput => {
            let a = take(vals, 1);
            dirty(dirt);
            f.call_single(a[0])
        }
        JITSignature::DataAndParameter => {
            let a = take(vals, 2);
            dirty(dirt);
            f.call_data_param(a[0], a[1])
        }
        JITSignature::DataAndParameters(n) => {
            let a = take(vals, 1 + n);
            dirty(dirt);
            f.call_data_params(a[0], &a[1..])
        }
        JITSignature::MultipleDataAndParameters { data_dims, param_dims } => {
            let a = take(vals, data_dims + param_dims);
            dirty(dirt);
            f.call_batch(&a[..*data_dims], &a[*data_dims..])
        }
        JITSignature::Custom { .. } => f64::NAN,
    }
}

struct Slot {
    f: GeneralJITFunction,
    spec: (usize, i64, i64),
    bytes: i64,
    time: u64,
}
#[derive(Default)]
struct World {
    slots: Vec<Option<Slot>>,
    bayes: Option<BayesianJITOptimizer>,
    /// per part: what was last compiled into it, and its code bytes
    parts: [Option<((usize, i64), i64)>; 3],
}
struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}
unsafe impl<T> Sync for SendPtr<T> {}

/// Per specification: the error, or signature text and the bits for every entry of `vals`.
type SpecRef = Result<(String, Vec<u64>), String>;
type Refs = BTreeMap<(usize, i64, i64), SpecRef>;
type BRefs = BTreeMap<(i64, usize, i64), Result<Vec<u64>, ()>>;

fn sig_text(f: &GeneralJITFunction) -> String {
    format!("{:?}", f.signature)
}
/// What a function says about its own making, the time aside.
fn report(f: &GeneralJITFunction) -> String {
    let mut s = f.compilation_stats.clone();
    s.compilation_time_us = 0;
    format!("{:?} {:?} {s:?}", f.signature, f.source_expression)
}

struct Cx {
    p: Plan,
    refs: Refs,
    brefs: BRefs,
}

fn all_ops(p: &Plan) -> impl Iterator<Item = &Op> {
    p.pre.iter().chain(p.threads.iter().flatten()).chain(p.post.iter())
}

fn bayes_layout(p: &Plan, part: i64, e: usize, lay: i64) -> Layout {
    let mut l = layout(&p.exprs[e].var_list(), 0, lay);
    if part == 2 {
        let mut v = std::mem::take(&mut l.data);
        v.extend(std::mem::take(&mut l.params));
        l.params = v;
    }
    l
}
fn bayes_compile(m: &mut BayesianJITOptimizer, p: &Plan, part: i64, e: usize, lay: i64) -> bool {
    let l = bayes_layout(p, part, e, lay);
    let consts: HashMap<String, f64> = l.consts.iter().cloned().collect();
    let x = p.exprs[e].to_expr();
    match part {
        0 => m.compile_posterior_jit(&x, &l.data, &l.params, &consts),
        1 => m.compile_likelihood_jit(&x, &l.data, &l.params, &consts),
        _ => m.compile_prior_jit(&x, &l.params, &consts),
    }
    .is_ok()
}
fn bayes_eval(m: &BayesianJITOptimizer, part: i64, data: &[f64], params: &[f64]) -> Option<f64> {
    match part {
        0 => m.evaluate_posterior(data, params),
        1 => m.evaluate_likelihood(data, params),
        _ => m.evaluate_prior(params),
    }
}

/// Everything the run will ask for, each compiled and called alone in a fresh process.
fn references(p: &Plan, out: &mut Outcome) -> Option<(Refs, BRefs)> {
    let mut specs = BTreeSet::new();
    let mut bspecs = BTreeSet::new();
    for o in all_ops(p) {
        match o.0.as_str() {
            "cmp" | "cmpf" => {
                specs.insert((o.u(1) % p.exprs.len(), o.a(2), o.a(3)));
            }
            "cyc" => {
                specs.insert((o.u(0) % p.exprs.len(), o.a(1), o.a(2)));
            }
            "bcmp" | "bcmpf" | "bcyc" => {
                bspecs.insert((o.a(0), o.u(1) % p.exprs.len(), o.a(2)));
            }
            _ => {}
        }
    }
    let mut refs = Refs::new();
    for s in specs {
        let r = fork_start(|| {
            let r: SpecRef = match compile(&p.exprs[s.0], s.1, s.2) {
                Ok(f) => Ok((if p.prop == "C19" { report(&f) } else { sig_text(&f) }, p.vals.iter().map(|v| bits(call(&f, v, 0))).collect())),
                Err(e) => Err(format!("{e}")),
            };
            serde_json::to_vec(&r).unwrap()
        });
        match fork_finish(r, REFERENCE_LIMIT) {
            Reply::Data(d) if !d.is_empty() => {
                refs.insert(s, from_json(&d).unwrap());
            }
            Reply::Killed | Reply::TimedOut => {
                out.inconclusive = Some("a reference process was killed from outside or did not finish".into());
                return None;
            }
            Reply::Died(x) => {
                out.fail(&format!("crash-alone:{x}"), format!(
                    "compiling and calling {:?} (form {}) alone in a fresh process ended with {x}; arguments {:?}",
                    p.exprs[s.0], s.1, p.vals));
                return None;
            }
            _ => {
                out.fail("crash-alone", format!(
                    "compiling and calling {:?} (form {}) alone in a fresh process gave no answer", p.exprs[s.0], s.1));
                return None;
            }
        }
    }
    let mut brefs = BRefs::new();
    for s in bspecs {
        let r = fork_start(|| {
            let mut m = BayesianJITOptimizer::new();
            let r: Result<Vec<u64>, ()> = if bayes_compile(&mut m, p, s.0, s.1, s.2) {
                let l = bayes_layout(p, s.0, s.1, s.2);
                Ok(p.vals
                    .iter()
                    .map(|v| {
                        let a = take(v, l.data.len() + l.params.len());
                        bayes_eval(&m, s.0, &a[..l.data.len()], &a[l.data.len()..]).map_or(1, bits)
                    })
                    .collect())
            } else {
                Err(())
            };
            serde_json::to_vec(&r).unwrap()
        });
        match fork_finish(r, REFERENCE_LIMIT) {
            Reply::Data(d) if !d.is_empty() => {
                brefs.insert(s, from_json(&d).unwrap());
            }
            Reply::Killed | Reply::TimedOut => {
                out.inconclusive = Some("a reference process was killed from outside or did not finish".into());
                return None;
            }
            _ => {
                out.fail("crash-alone", format!(
                    "compiling {:?} as part {} of a fresh model and evaluating it ended the process or panicked",
                    p.exprs[s.1], s.0));
                return None;
            }
        }
    }
    Some((refs, brefs))
}

/// Value by direct evaluation where that is exact: arithmetic without its shortcuts.
fn direct(e: &E, names: &[String], vals: &[f64], consts: &[(String, f64)]) -> Option<u64> {
    if !e.is_arith() {
        return None;
    }
    let get = |n: &str| {
        names.iter().position(|x| x == n).map(|i| vals[i]).or_else(|| {
            consts.iter().find(|c| c.0 == n).map(|c| c.1)
        })
    };
    let w = e.ieee(&get)?;
    let env: HashMap<String, f64> =
        names.iter().cloned().zip(vals.iter().copied()).chain(consts.iter().cloned()).collect();
    let d = e.to_expr().evaluate(&env).ok()?;
    (bits(d) == bits(w)).then_some(bits(w))
}

/// A well-conditioned model formula: compiled value close to direct evaluation.
fn close(p: &Plan, e: usize, names: &[String], vals: &[f64], consts: &[(String, f64)], got: f64) -> Option<String> {
    if (e as i64) < p.knob("models_from") || p.knob("models_from") == 0 {
        return None;
    }
    let env: HashMap<String, f64> =
        names.iter().cloned().zip(vals.iter().copied()).chain(consts.iter().cloned()).collect();
    let tame = env.iter().all(|(k, x)| {
        x.abs() < 8.0 && (!(k.contains("sigma") || k.contains("tau")) || *x > 0.3)
    });
    if !tame {
        return None;
    }
    let d = p.exprs[e].to_expr().evaluate(&env).ok()?;
    if !d.is_finite() || d.abs() > 600.0 || (got - d).abs() <= 1e-6 * d.abs().max(1.0) {
        return None;
    }
    Some(format!("{got} but direct evaluation gives {d}"))
}

impl Cx {
    fn judged(&self, what: &str) -> bool {
        matches!(
            (self.p.prop.as_str(), what),
            ("C06", "refusal" | "value" | "status") | ("C07", "pages" | "value")
                | ("C08", "value" | "direct" | "status") | ("C10", "bayes" | "pages?")
        )
    }

    fn told(&self, f: &GeneralJITFunction) -> String {
        if self.p.prop == "C19" { report(f) } else { sig_text(f) }
    }
    fn expected(&self, spec: (usize, i64, i64)) -> &SpecRef {
        &self.refs[&spec]
    }

    fn step(&self, w: &mut World, o: &Op, seq: bool, out: &mut Outcome) {
        self.act(w, o, seq, out);
        if self.p.prop == "C35" {
            out.count("look at all memory", 1);
            if let Some(m) = sys::writable_code() {
                out.fail("writable", format!("after {}{:?} there is {m}", o.0, o.1));
            }
        }
    }

    fn act(&self, w: &mut World, o: &Op, seq: bool, out: &mut Outcome) {
        let p = &self.p;
        out.evals += 1;
        let before = sys::code_pages().1;
        match o.0.as_str() {
            "cmp" | "cmpf" => {
                let s = o.u(0);
                let spec = (o.u(1) % p.exprs.len(), o.a(2), o.a(3));
                if w.slots.len() <= s {
                    w.slots.resize_with(s + 1, || None);
                }
                if o.0 == "cmpf" {
                    arm(o.a(4), o.a(5), o.a(6));
                }
                let (t0, d0) = (simstd::rt::now_ns_quiet(), sys::waited_ns());
                let r = guarded(|| compile(&p.exprs[spec.0], spec.1, spec.2));
                let (took, waited) = (simstd::rt::now_ns_quiet() - t0, sys::waited_ns() - d0);
                let (fa, fp) = if o.0 == "cmpf" { sys::disarm() } else { (0, 0) };
                out.count("fault: code memory refused", fa);
                out.count("fault: protection change refused", fp);
                let mid = sys::code_pages().1;
                let refused = fa + fp > 0;
                match r {
                    Err(Stop::Panicked(m)) => out.fail("panic", format!(
                        "compiling {:?} (form {}) {} panicked: {m}", p.exprs[spec.0], spec.1,
                        if refused { "with memory refused" } else { "" })),
                    Err(Stop::Killed) => {}
                    Ok(Ok(f)) => {
                        if refused && self.judged("refusal") {
                            out.fail("refused-ok", format!(
                                "compiling {:?} succeeded although {fa} page and {fp} protection requests were refused",
                                p.exprs[spec.0]));
                        }
                        match self.expected(spec) {
                            Err(e) => {
                                if self.judged("status") {
                                    out.fail("status", format!(
                                        "compiling {:?} (form {}, layout {:?}) succeeded here but fails alone: {e}",
                                        p.exprs[spec.0], spec.1, layout(&p.exprs[spec.0].var_list(), spec.1, spec.2)));
                                }
                            }
                            Ok((sig, _)) if *sig != self.told(&f) => out.fail("signature", format!(
                                "compiling {:?} gave a function that says {} here, {sig} alone", p.exprs[spec.0], self.told(&f))),
                            _ => {}
                        }
                        let time = f.compilation_stats.compilation_time_us;
                        if p.prop == "C19" {
                            if time > took / 1000 {
                                out.fail("time", format!(
                                    "compiling {:?} (form {}) took {} us of simulated time, and {time} us are reported",
                                    p.exprs[spec.0], spec.1, took / 1000));
                            }
                            if time < waited / 1000 {
                                out.fail("time", format!(
                                    "compiling {:?} (form {}) waited {} us for code memory alone, and {time} us are reported",
                                    p.exprs[spec.0], spec.1, waited / 1000));
                            }
                            out.count("report judged", 1);
                            out.mix(time);
                        }
                        // the old function goes away only now
                        let old = w.slots[s].take();
                        let old_bytes = old.as_ref().map_or(0, |x| x.bytes);
                        drop(old);
                        let after = sys::code_pages().1;
                        if seq && after != mid - old_bytes && self.judged("pages") {
                            out.fail("leak", format!(
                                "dropping a function of {old_bytes} code bytes gave back {}", mid - after));
                        }
                        w.slots[s] = Some(Slot { f, spec, bytes: mid - before, time });
                        out.count("compiled", 1);
                        out.mix(1);
                    }
                    Ok(Err(e)) => {
                        out.mix(2);
                        out.count(if refused { "compilation failed after a refusal" } else { "compilation rejected" }, 1);
                        if !refused && self.expected(spec).is_ok() && self.judged("status") {
                            out.fail("status", format!(
                                "compiling {:?} (form {}) failed ({e}) although nothing was refused and it succeeds alone",
                                p.exprs[spec.0], spec.1));
                        }
                        if seq && mid != before && self.judged("pages") {
                            out.fail("leak-failed", format!(
                                "a failed compilation ({e}) kept {} bytes of code memory", mid - before));
                        }
                    }
                }
            }
            "call" => {
                let (s, vi) = (o.u(0), o.u(1) % p.vals.len());
                let Some(Some(slot)) = w.slots.get(s) else { return };
                let spec = slot.spec;
                let r = guarded(|| call(&slot.f, &p.vals[vi], o.a(2)));
                match r {
                    Ok(x) => {
                        out.count("call of a compiled function", 1);
                        out.mix(bits(x));
                        if let (Ok((_, want)), true) = (self.expected(spec), self.judged("value")) {
                            if bits(x) != want[vi] {
                                out.fail("value", format!(
                                    "{:?} (form {}) called with {:?} gave {}, alone in a fresh process {}",
                                    p.exprs[spec.0], spec.1, p.vals[vi], show(bits(x)), show(want[vi])));
                            }
                        }
                        if self.judged("direct") {
                            let (names, consts) = arg_names(&p.exprs[spec.0], spec.1, spec.2);
                            let a = take(&p.vals[vi], names.len());
                            if let Some(d) = direct(&p.exprs[spec.0], &names, &a, &consts) {
                                out.count("comparison with direct evaluation", 1);
                                if d != bits(x) {
                                    out.fail("direct", format!(
                                        "{:?} (form {}) called with {names:?} = {a:?}, constants {consts:?} gave {}, direct evaluation {}",
                                        p.exprs[spec.0], spec.1, show(bits(x)), show(d)));
                                }
                            }
                        }
                    }
                    Err(Stop::Panicked(m)) => out.fail("panic", format!(
                        "calling {:?} with {:?} panicked: {m}", p.exprs[spec.0], p.vals[vi])),
                    Err(Stop::Killed) => {}
                }
            }
            "look" => {
                let Some(Some(slot)) = w.slots.get(o.u(0)) else { return };
                if p.prop == "C19" {
                    out.count("report read again", 1);
                    let now = slot.f.compilation_stats.compilation_time_us;
                    if now != slot.time {
                        out.fail("changed", format!(
                            "{:?} (form {}) reported a compile time of {} us and now {now}",
                            p.exprs[slot.spec.0], slot.spec.1, slot.time));
                    }
                    if let Ok((told, _)) = self.expected(slot.spec) {
                        if *told != self.told(&slot.f) {
                            out.fail("changed", format!("a function says {} now, {told} when made", self.told(&slot.f)));
                        }
                    }
                }
            }
            "wrong" => {
                let Some(Some(slot)) = w.slots.get(o.u(0)) else { return };
                // outside the documented forms: it may refuse, it may not harm anything
                let _ = guarded(|| match &slot.f.signature {
                    JITSignature::SingleInput => slot.f.call_data_param(1.0, 2.0),
                    JITSignature::DataAndParameter => slot.f.call_single(1.0),
                    JITSignature::DataAndParameters(n) => slot.f.call_data_params(1.0, &vec![1.0; n + 1]),
                    _ => slot.f.call_data_params(1.0, &[1.0, 2.0]),
                });
            }
            "drop" => {
                let s = o.u(0);
                if s >= w.slots.len() {
                    return;
                }
                if let Some(slot) = w.slots[s].take() {
                    let bytes = slot.bytes;
                    drop(slot);
                    let after = sys::code_pages().1;
                    if seq && before - after != bytes && self.judged("pages") {
                        out.fail("leak", format!("dropping a function of {bytes} code bytes gave back {}", before - after));
                    }
                    out.count("dropped", 1);
                }
            }
            "new" => {
                let c = guarded(|| GeneralJITCompiler::new().map(drop));
                if let Err(Stop::Panicked(m)) = c {
                    out.fail("panic", format!("creating a compiler panicked: {m}"));
                }
                let after = sys::code_pages().1;
                if seq && after != before && self.judged("pages") {
                    out.fail("leak", format!("an unused compiler kept {} bytes of code memory", after - before));
                }
            }
            "cyc" => {
                let spec = (o.u(0) % p.exprs.len(), o.a(1), o.a(2));
                for i in 0..o.a(3) {
                    match guarded(|| compile(&p.exprs[spec.0], spec.1, spec.2)) {
                        Ok(Ok(f)) => {
                            let vi = i as usize % p.vals.len();
                            let x = call(&f, &p.vals[vi], i % 4);
                            if let (Ok((_, want)), true) = (self.expected(spec), self.judged("value")) {
                                if bits(x) != want[vi] {
                                    out.fail("value", format!(
                                        "compilation {i} of {:?} (form {}) called with {:?} gave {}, alone {}",
                                        p.exprs[spec.0], spec.1, p.vals[vi], show(bits(x)), show(want[vi])));
                                }
                            }
                            if o.a(4) == 1 {
                                // its owner fails, and it goes away while the stack unwinds
                                let _ = guarded(move || {
                                    let _f = f;
                                    std::panic::panic_any("the owner fails".to_string())
                                });
                            }
                        }
                        Ok(Err(e)) => {
                            if self.expected(spec).is_ok() && self.judged("status") {
                                out.fail("status", format!("compilation {i} of {:?} failed: {e}", p.exprs[spec.0]));
                            }
                        }
                        Err(Stop::Panicked(m)) => out.fail("panic", format!(
                            "compilation {i} of {:?} panicked: {m}", p.exprs[spec.0])),
                        Err(Stop::Killed) => {}
                    }
                }
                out.count("compile-call-drop cycles", o.a(3) as u64);
                let after = sys::code_pages().1;
                if seq && after != before && self.judged("pages") {
                    out.fail("leak", format!(
                        "{} compile-and-drop cycles accumulated {} bytes of code memory", o.a(3), after - before));
                }
            }
            "bnew" => {
                let had: i64 = w.parts.iter().flatten().map(|x| x.1).sum();
                w.bayes = None;
                w.parts = [None; 3];
                let after = sys::code_pages().1;
                if seq && before - after != had && p.prop == "C07" {
                    out.fail("leak", format!("dropping a model with {had} code bytes gave back {}", before - after));
                }
                w.bayes = Some(BayesianJITOptimizer::new());
                out.count("model dropped", 1);
            }
            "bcyc" => {
                let spec = (o.a(0), o.u(1) % p.exprs.len(), o.a(2));
                let m = w.bayes.get_or_insert_with(BayesianJITOptimizer::new);
                let part = spec.0 as usize;
                let old = w.parts[part].map_or(0, |x| x.1);
                let mut first = None;
                for i in 0..o.a(3) {
                    match guarded(|| bayes_compile(m, p, spec.0, spec.1, spec.2)) {
                        Ok(true) => {
                            out.count("part compiled", 1);
                            let now = sys::code_pages().1;
                            let first = *first.get_or_insert(now);
                            w.parts[part] = Some(((spec.1, spec.2), now - before + old));
                            if now != first && p.prop == "C07" {
                                out.fail("leak", format!(
                                    "compiling {:?} into part {part} of a model for the {}th time in a row: {} more bytes of code memory than after the first",
                                    p.exprs[spec.1], i + 1, now - first));
                                return;
                            }
                        }
                        Ok(false) if self.brefs[&spec].is_ok() && matches!(p.prop.as_str(), "C06" | "C10") => out.fail(
                            "status", format!("compiling part {part} with {:?} failed although nothing was refused and it works in a new model", p.exprs[spec.1])),
                        Ok(false) | Err(Stop::Killed) => {}
                        Err(Stop::Panicked(m)) => out.fail("panic", format!("compiling part {part} panicked: {m}")),
                    }
                }
            }
            "bcmp" | "bcmpf" => {
                let spec = (o.a(0), o.u(1) % p.exprs.len(), o.a(2));
                let m = w.bayes.get_or_insert_with(BayesianJITOptimizer::new);
                if o.0 == "bcmpf" {
                    arm(o.a(3), o.a(4), o.a(5));
                }
                let r = guarded(|| bayes_compile(m, p, spec.0, spec.1, spec.2));
                let (fa, fp) = if o.0 == "bcmpf" { sys::disarm() } else { (0, 0) };
                out.count("fault: code memory refused", fa);
                out.count("fault: protection change refused", fp);
                let refused = fa + fp > 0;
                let after = sys::code_pages().1;
                let part = spec.0 as usize;
                match r {
                    Err(Stop::Panicked(m)) => out.fail("panic", format!(
                        "compiling part {part} panicked ({}): {m}", if refused { "memory refused" } else { "no fault" })),
                    Err(Stop::Killed) => {}
                    Ok(true) => {
                        out.count("part compiled", 1);
                        if refused && matches!(p.prop.as_str(), "C06" | "C10") {
                            out.fail("refused-ok", format!("compiling part {part} succeeded although memory was refused"));
                        }
                        if self.brefs[&spec].is_err() && p.prop == "C10" {
                            out.fail("status", format!("compiling part {part} with {:?} succeeded here but fails in a new model", p.exprs[spec.1]));
                        }
                        let old = w.parts[part].map_or(0, |x| x.1);
                        w.parts[part] = Some(((spec.1, spec.2), after - before + old));
                    }
                    Ok(false) => {
                        out.count(if refused { "part compilation failed after a refusal" } else { "part compilation rejected" }, 1);
                        if !refused && self.brefs[&spec].is_ok() && matches!(p.prop.as_str(), "C06" | "C10") {
                            out.fail("status", format!(
                                "compiling part {part} with {:?} failed although nothing was refused and it works in a new model", p.exprs[spec.1]));
                        }
                        if after != before && p.prop == "C07" {
                            out.fail("leak-failed", format!(
                                "a failed compilation of part {part} changed code memory by {} bytes", after - before));
                        }
                    }
                }
            }
            "bev" | "bwrong" => {
                let part = o.u(0).min(2);
                let vi = o.u(1) % p.vals.len();
                let m = w.bayes.get_or_insert_with(BayesianJITOptimizer::new);
                let l = w.parts[part].map(|(s, _)| (s, bayes_layout(p, part as i64, s.0, s.1)));
                let (nd, np) = l.as_ref().map_or((o.u(1) % 3, o.u(1) % 2), |x| (x.1.data.len(), x.1.params.len()));
                if o.0 == "bwrong" {
                    let a = take(&p.vals[vi], nd + np + 1);
                    let r = guarded(|| bayes_eval(m, part as i64, &a[..nd], &a[nd..]));
                    if let (Ok(Some(_)), None, "C10") = (&r, &l, p.prop.as_str()) {
                        out.fail("bayes-absent", format!("part {part} has a value although nothing was compiled into it"));
                    }
                    return;
                }
                let a = take(&p.vals[vi], nd + np);
                dirty(o.a(2));
                let r = guarded(|| bayes_eval(m, part as i64, &a[..nd], &a[nd..]));
                if !matches!(p.prop.as_str(), "C10" | "C06" | "C07") {
                    return;
                }
                match (r, l) {
                    (Err(Stop::Panicked(m)), l) => out.fail("panic", format!(
                        "evaluating part {part} (compiled: {:?}) at data {:?} parameters {:?} panicked: {m}",
                        l.map(|x| p.exprs[x.0 .0].clone()), &a[..nd], &a[nd..])),
                    (Err(Stop::Killed), _) => {}
                    (Ok(Some(x)), None) => out.fail("bayes-absent", format!(
                        "part {part} evaluates to {x} although nothing was compiled into it")),
                    (Ok(None), Some((s, _))) => out.fail("bayes-present", format!(
                        "part {part} reports absence although {:?} was compiled into it", p.exprs[s.0])),
                    (Ok(None), None) => {
                        out.count("absent part evaluated", 1);
                    }
                    (Ok(Some(x)), Some((s, l))) => {
                        out.count("part evaluated", 1);
                        out.mix(bits(x));
                        let want = &self.brefs[&(part as i64, s.0, s.1)];
                        if let Ok(want) = want {
                            if bits(x) != want[vi] {
                                out.fail("bayes-value", format!(
                                    "part {part}, last compiled from {:?}, at data {:?} parameters {:?} gave {}, in a new model {}",
                                    p.exprs[s.0], &a[..nd], &a[nd..], show(bits(x)), show(want[vi])));
                            }
                        }
                        if p.prop == "C10" {
                            let mut names = l.data.clone();
                            names.extend(l.params.clone());
                            if let Some(d) = direct(&p.exprs[s.0], &names, &a, &l.consts) {
                                out.count("comparison with direct evaluation", 1);
                                if d != bits(x) {
                                    out.fail("bayes-direct", format!(
                                        "part {part} compiled from {:?} at {names:?} = {a:?}, constants {:?} gave {}, direct evaluation {}",
                                        p.exprs[s.0], l.consts, show(bits(x)), show(d)));
                                }
                            }
                            if let Some(t) = close(p, s.0, &names, &a, &l.consts, x) {
                                out.fail("bayes-direct", format!(
                                    "part {part} compiled from {:?} at {names:?} = {a:?}, constants {:?} gave {t}",
                                    p.exprs[s.0], l.consts));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn arm(what: i64, nth: i64, count: i64) {
    if what != 1 {
        sys::arm_alloc(nth as u64, count as u64);
    }
    if what != 0 {
        sys::arm_protect(nth as u64, count as u64);
    }
}

fn merge(out: &mut Outcome, o: Outcome) {
    for (k, v) in &o.counters {
        out.count(k, *v);
    }
    out.evals += o.evals;
    out.mix(o.hist);
    if let Some(v) = o.violation {
        out.fail(&v.class, v.msg);
    }
}

pub fn exec(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    sys::TRACK.store(true, std::sync::atomic::Ordering::SeqCst);
    let Some((refs, brefs)) = references(p, &mut out) else { return out };
    sys::set_slow_memory(p.knob("slowmem") as u64);
    let cx = Arc::new(Cx { p: p.clone(), refs, brefs });
    let mut w = World::default();
    for o in &p.pre {
        cx.step(&mut w, o, true, &mut out);
        if out.violation.is_some() {
            return out;
        }
    }
    if !p.threads.is_empty() {
        // the code generator's own one-time tables sit behind real locks, which a simulated thread
        // must not hold while it is preempted: they are built before the phase
        for f in [0, 2] {
            let all = E::Cos(Box::new(E::Ln(Box::new(E::Exp(Box::new(E::Sqrt(Box::new(v("x")))))))));
            drop(compile(&all, f, 3));
        }
        let base = sys::code_pages().1;
        // what was compiled before is called from every thread; each thread also has its own
        let shared = Arc::new(SendPtr(std::cell::UnsafeCell::new(std::mem::take(&mut w.slots))));
        let outs: Arc<Log<Outcome>> = Log::new();
        let (cx2, sh, outs2) = (cx.clone(), shared.clone(), outs.clone());
        let ok = sim_phase(p, p.threads.len(), &mut out, move |t| {
            // only read while the phase runs
            let sh: &Vec<Option<Slot>> = unsafe { &*sh.0.get() };
            let mut o = Outcome::default();
            let mut own = World::default();
            for x in &cx2.p.threads[t] {
                op_point();
                if x.0 == "scall" {
                    // a function compiled by another thread
                    if let Some(Some(slot)) = sh.get(x.u(0)) {
                        let vi = x.u(1) % cx2.p.vals.len();
                        let v = call(&slot.f, &cx2.p.vals[vi], x.a(2));
                        o.count("call from another thread", 1);
                        if let Ok((_, want)) = cx2.expected(slot.spec) {
                            if bits(v) != want[vi] && cx2.judged("value") {
                                o.fail("value", format!(
                                    "thread {t}: {:?} called with {:?} gave {}, alone {}",
                                    cx2.p.exprs[slot.spec.0], cx2.p.vals[vi], show(bits(v)), show(want[vi])));
                            }
                        }
                    }
                } else {
                    cx2.step(&mut own, x, false, &mut o);
                }
            }
            drop(own);
            outs2.push(o);
        });
        for o in outs.take() {
            merge(&mut out, o);
        }
        if !ok || out.violation.is_some() {
            return out;
        }
        if p.prop == "C07" && sys::code_pages().1 != base {
            out.fail("leak", format!(
                "{} bytes of code memory remain after every thread dropped its functions", sys::code_pages().1 - base));
        }
        // the phase is over: nobody else uses the functions any more
        w.slots = std::mem::take(unsafe { &mut *shared.0.get() });
    }
    for o in &p.post {
        cx.step(&mut w, o, true, &mut out);
        if out.violation.is_some() {
            return out;
        }
    }
    // everything goes away
    if p.prop == "C07" {
        let alive: i64 = w.slots.iter().flatten().map(|s| s.bytes).sum::<i64>()
            + w.parts.iter().flatten().map(|x| x.1).sum::<i64>();
        let now = sys::code_pages().1;
        if now != alive {
            out.fail("leak", format!("{now} bytes of code memory outstanding, {alive} belong to living functions"));
        }
        drop(w);
        let (n, left) = sys::code_pages();
        if left != 0 || n != 0 {
            out.fail("leak", format!("{left} bytes in {n} blocks outstanding after everything was dropped"));
        }
        let bad = sys::BAD_FREES.load(std::sync::atomic::Ordering::SeqCst);
        if bad > 0 {
            out.fail("bad-free", format!("{bad} blocks were freed while still executable or read-only"));
        }
    }
    out.count("fault: slow code memory", sys::SLOW_FIRED.load(std::sync::atomic::Ordering::SeqCst));
    let g = |k: &str| out.counters.get(k).copied().unwrap_or(0);
    out.nontrivial = match p.prop.as_str() {
        "C19" => g("report judged") > 0,
        "C35" => g("compiled") + g("compile-call-drop cycles") + g("part compiled") > 0,
        "C06" => g("fault: code memory refused") + g("fault: protection change refused") > 0,
        "C07" => g("compiled") + g("compile-call-drop cycles") + g("part compiled") > 1,
        "C08" => g("call of a compiled function") + g("compile-call-drop cycles") > 1,
        _ => g("part evaluated") + g("absent part evaluated") > 0 && g("part compiled") > 0,
    };
    out
}

pub fn model_exprs() -> Vec<E> {
    // -0.5 ln(2 pi) - ln s - 0.5 ((x - m)/s)^2 as the library's users write it
    let npdf = |x: E, m: E, s: E| {
        let z = E::Div(Box::new(E::Sub(Box::new(x), Box::new(m))), Box::new(s.clone()));
        E::Sub(
            Box::new(E::Sub(
                Box::new(c(-0.918_938_533_204_672_8)),
                Box::new(E::Ln(Box::new(s))),
            )),
            Box::new(E::Mul(Box::new(c(0.5)), Box::new(E::Pow(Box::new(z), Box::new(c(2.0)))))),
        )
    };
    let add = |a: E, b: E| E::Add(Box::new(a), Box::new(b));
    vec![
        npdf(v("x"), v("mu"), v("sigma")),
        npdf(v("mu"), c(0.0), c(10.0)),
        add(npdf(v("x"), v("mu"), v("sigma")), npdf(v("mu"), c(0.0), c(1.0))),
        add(
            add(npdf(v("x1"), v("mu"), v("sigma")), npdf(v("x2"), v("mu"), v("sigma"))),
            add(npdf(v("mu"), c(1.0), v("tau")), npdf(v("tau"), c(1.0), c(2.0))),
        ),
        E::Ln(Box::new(add(
            E::Exp(Box::new(add(c(-0.7), npdf(v("x"), v("a"), c(1.0))))),
            E::Exp(Box::new(add(c(-0.7), npdf(v("x"), v("b"), c(2.0))))),
        ))),
        npdf(v("sigma"), c(1.0), c(2.0)),
    ]
}

pub fn generate(prop: &str, tier: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new(prop, "jit", seed);
    p.hash_seed = r.next();
    p.clock = rclock(&mut r);
    let bayes = prop == "C10" || (matches!(prop, "C06" | "C07" | "C35") && r.chance(1, 4));
    let conc = matches!(prop, "C07" | "C08" | "C19" | "C35") && !bayes && r.chance(1, 3);
    if prop == "C19" && r.chance(4, 5) {
        p.set("slowmem", r.range(1, 1 << 40));
    }
    // expressions over a small set of names
    let n = r.range(1, 4) as usize;
    for _ in 0..n {
        let k = ExprKind {
            arith: r.chance(1, 2),
            odd_names: if r.chance(1, 4) { 30 } else { 0 },
            special: *r.pick(&[0, 0, 20]),
            names: vec![],
        };
        let d = r.range(0, 4) as u32;
        let e = if r.chance(1, 10) {
            // many variables: every calling form, arguments beyond the register ones
            let m = *r.pick(&[5i64, 7, 9, 12, 17, 40]);
            let mut e = c(0.5);
            for j in 0..m {
                let t = E::Mul(Box::new(c(1.0 + j as f64)), Box::new(v(&format!("v{j}"))));
                e = if r.chance(1, 3) { E::Sub(Box::new(t), Box::new(e)) } else { E::Add(Box::new(e), Box::new(t)) };
            }
            e
        } else if r.chance(1, 25) {
            let n = *r.pick(&[100, 400, 900]);
            chain(&mut r, n, 2.0)
        } else {
            rexpr(&mut r, &k, d)
        };
        p.exprs.push(e);
    }
    for _ in 0..r.range(0, 3) {
        let j = r.us(p.exprs.len());
        let t = twin(&mut r, &p.exprs[j].clone());
        p.exprs.push(t);
    }
    if bayes {
        p.set("models_from", p.exprs.len() as i64);
        for e in model_exprs() {
            if r.chance(1, 2) {
                p.exprs.push(e);
            }
        }
    }
    for _ in 0..r.range(1, 5) {
        let m = r.range(1, 8);
        let special = *r.pick(&[0, 0, 25, 60]);
        p.vals.push((0..m).map(|_| F(if r.chance(special, 100) { *r.pick(SPECIAL) } else { rconst(&mut r, 0) })).collect());
    }
    if bayes {
        // inside the region where the model formulas are well conditioned
        p.vals.push((0..6).map(|_| F(0.5 + r.unit() * 3.0)).collect());
        p.vals.push((0..5).map(|_| F(0.5 + r.unit() * 6.0)).collect());
    }
    // neighbours: arguments that differ in one place, and only a little
    let plain = p.vals.len();
    for j in 0..plain {
        if r.chance(1, 2) {
            let mut t = p.vals[j].clone();
            let k = if r.chance(2, 3) { 0 } else { r.us(t.len()) };
            if r.chance(1, 4) {
                p.vals[j][k] = F(0.0);
                t[k] = F(-0.0);
            } else {
                t[k] = F(nudge(&mut r, t[k].0));
            }
            p.vals.push(t);
        }
    }
    let ne = p.exprs.len() as i64;
    let nv = p.vals.len() as i64;
    // a few layouts per plan, so that the same compilation comes back
    let mut lays: Vec<i64> = (0..r.range(1, 4)).map(|_| r.range(0, 1 << 30)).collect();
    for j in 0..lays.len() {
        if r.chance(1, 3) {
            lays.push(lays[j] | r.range(1, 1000) << 40);
        }
    }
    let forms: Vec<i64> = (0..r.range(1, 4)).map(|_| r.range(0, FORMS - 1)).collect();
    let nslots = r.range(1, 5);
    let fault_rate = match prop {
        "C06" => 40,
        "C10" => 25,
        "C07" | "C35" => 25,
        _ => 6,
    };
    let deep = tier == "thorough";
    let mut last: Option<Op> = None;
    let mut called: Option<Op> = None;
    let mut gen = |r: &mut Rng, seq: bool| -> Op {
        if let Some(l) = last.take() {
            // after a failed attempt: the same request again, with memory granted
            if r.chance(2, 3) {
                let n = l.1.len() - 3;
                return Op(l.0.trim_end_matches('f').to_string(), l.1[..n].to_vec());
            }
        }
        // one call after another of the same function, often at nearly the same arguments
        if let Some(mut c) = called.take() {
            if r.chance(1, 2) {
                c.1[1] = r.range(0, nv - 1);
                called = Some(c.clone());
                return c;
            }
        }
        let fault = |r: &mut Rng| -> [i64; 3] {
            [r.range(0, 2), r.range(0, 3).min(r.range(0, 3)), *r.pick(&[1, 1, 1, 2, 1000])]
        };
        let e = r.range(0, ne - 1);
        let lay = *r.pick(&lays);
        if bayes {
            let part = r.range(0, 2);
            return match r.below(20) {
                0 => op("bnew", &[]),
                1 => op("bwrong", &[part, r.range(0, nv - 1)]),
                x if x < 9 => {
                    if r.chance(fault_rate, 100) {
                        let f = fault(r);
                        let o = op("bcmpf", &[part, e, lay, f[0], f[1], f[2]]);
                        last = Some(o.clone());
                        o
                    } else {
                        if prop == "C07" && r.chance(1, 4) {
                            op("bcyc", &[part, e, lay, *r.pick(&[2, 3, 12])])
                        } else {
                            op("bcmp", &[part, e, lay])
                        }
                    }
                }
                _ => {
                    let o = op("bev", &[part, r.range(0, nv - 1), r.range(0, 3)]);
                    called = Some(o.clone());
                    o
                }
            };
        }
        let s = r.range(0, nslots - 1);
        let form = *r.pick(&forms);
        match r.below(20) {
            _ if prop == "C19" && r.chance(1, 4) => op("look", &[s]),
            0 | 1 => op("drop", &[s]),
            2 if r.chance(1, 3) => op("new", &[]),
            3 if r.chance(1, 3) => op("wrong", &[s]),
            4 if seq && r.chance(1, 3) => op("cyc", &[e, form, lay, *r.pick(&[2, 5, 20]), r.range(0, 1)]),
            x if x < 11 => {
                if seq && r.chance(fault_rate, 100) {
                    let f = fault(r);
                    let o = op("cmpf", &[s, e, form, lay, f[0], f[1], f[2]]);
                    last = Some(o.clone());
                    o
                } else {
                    op("cmp", &[s, e, form, lay])
                }
            }
            _ => {
                let o = op("call", &[s, r.range(0, nv - 1), r.range(0, 3)]);
                called = Some(o.clone());
                o
            }
        }
    };
    let npre = r.range(3, if conc { 8 } else { 30 });
    for _ in 0..npre {
        let o = gen(&mut r, true);
        p.pre.push(o);
    }
    if conc {
        let nt = r.range(2, 4);
        for _ in 0..nt {
            let mut l = vec![];
            for _ in 0..r.range(2, 8) {
                if r.chance(1, 3) {
                    l.push(op("scall", &[r.range(0, nslots - 1), r.range(0, nv - 1), r.range(0, 3)]));
                } else {
                    let o = gen(&mut r, false);
                    l.push(o);
                }
            }
            p.threads.push(l);
        }
        p.sched = rsched(&mut r, 200);
        p.alloc_permille = *r.pick(&[0, 1, 5, 20]);
        p.max_steps = 3_000_000;
        for _ in 0..r.range(0, 6) {
            let o = gen(&mut r, true);
            p.post.push(o);
        }
    }
    if i % 211 == 17 || (deep && i % 53 == 17) {
        // a long history
        if bayes {
            for j in 0..150 {
                let part = j % 3;
                p.pre.push(op("bcmp", &[part, r.range(0, ne - 1), *r.pick(&lays)]));
                p.pre.push(op("bev", &[r.range(0, 2), r.range(0, nv - 1), 0]));
            }
        } else {
            let (e, f, l) = (r.range(0, ne - 1), *r.pick(&forms), *r.pick(&lays));
            p.pre.push(op("cyc", &[e, f, l, 400]));
        }
        p.set("slow", 1);
    }
    p
}

//! A workload over the whole library, every operation of which gives a line of text: used by C09
//! (the lines must be the same in every process) and C12 (they must not depend on the streams).
//!
//! Verbs: `eval e n how`, `spec e n v`, `simp e`, `text e`, `vars e`, `sym e n`, `build k v`,
//! `make e e v k n`, `repr e`, `cmp s e form lay`, `call s v`, `hot s v n`, `wrong s`, `unw e form lay`, `cmpf s e form lay what nth count`,
//! `bay part e lay`, `bev part v`, `opt e`, `ext e`, `den kind pv m v`, `denu kind pv m v n`, `reg k t`, `auto k`,
//! `memo k v`, `memok v`, `memox v`, `mj k v`, `pool n`, `clr`, `burst e n`, `many n`, `model k v`, `static v`.
use super::dens;
use super::jit;
use super::pool::*;
use crate::engine::*;
use crate::plan::*;
use crate::sys;
use measures_bayesian::bayesian::{expressions as bx, BayesianJITOptimizer};
use measures_core::{CachedLogDensity, EvaluateAt, LogDensityBuilder, LogDensityCaching};
use measures_distributions::*;
use measures_exponential_family::{AutoJITExt, AutoJITOptimizer, AutoJITPattern, AutoJITRegistry, CustomJITOptimizer, JITError, JITOptimizer};
use std::any::Any;
use std::collections::{BTreeMap, HashMap};
use measures_bayesian::bayesian as bayes;
use symbolic_math::builders;
use symbolic_math::expr::builders as builders_x;
use symbolic_math::display;
use symbolic_math::expr;
use symbolic_math::expr::{clear_caches, ConstantPool, SymbolicLogDensity};
use symbolic_math::final_tagless::{DirectEval, MathExpr, PrettyPrint, StatisticalExpr};
use symbolic_math::optimization::{EgglogOptimize, EgglogOptimizer};
use symbolic_math::{CustomSymbolicLogDensity, Expr, GeneralJITFunction};

#[derive(Default)]
pub struct World {
    fns: BTreeMap<i64, GeneralJITFunction>,
    bayes: Option<BayesianJITOptimizer>,
    opt: Option<EgglogOptimizer>,
    reg: Option<AutoJITRegistry>,
    memo: Option<Box<dyn Fn(&u64) -> f64>>,
}

struct Pat(i64);
struct Custom(CustomSymbolicLogDensity);
impl CustomJITOptimizer<f64, f64> for Custom {
    fn custom_symbolic_log_density(&self) -> CustomSymbolicLogDensity {
        self.0.clone()
    }
}
impl AutoJITPattern for Pat {
    fn generate_symbolic(&self, d: &dyn Any) -> Result<SymbolicLogDensity, JITError> {
        if self.0 % 5 == 4 {
            return Err(JITError::CompilationError("no".into()));
        }
        let mut m = HashMap::new();
        for (i, n) in NAMES.iter().enumerate().take(2 + self.0 as usize % 4) {
            m.insert(n.to_string(), i as f64 + 0.5);
        }
        m.remove("x");
        let e = builders::normal_log_pdf("x", "mu", Expr::constant(1.5 + self.0 as f64)) + Expr::from("y");
        let _ = d.is::<Normal<f64>>();
        m.insert("mu".into(), 0.25);
        m.insert("y".into(), 2.0);
        Ok(SymbolicLogDensity::new(e, m))
    }
}

fn n(x: f64) -> String {
    format!("{:?}/{:x}", x, bits(x))
}
fn ns(v: &[f64]) -> String {
    v.iter().map(|x| n(*x)).collect::<Vec<_>>().join(" ")
}
fn rn<E: std::fmt::Debug>(r: Result<f64, E>) -> String {
    match r {
        Ok(x) => n(x),
        Err(e) => format!("{e:?}"),
    }
}
fn rv<E: std::fmt::Debug>(r: Result<Vec<f64>, E>) -> String {
    match r {
        Ok(x) => ns(&x),
        Err(e) => format!("{e:?}"),
    }
}
fn sorted<V: std::fmt::Debug>(m: &HashMap<String, V>) -> String {
    format!("{:?}", m.iter().collect::<BTreeMap<_, _>>())
}
fn fun(f: &GeneralJITFunction, vals: &[Vec<F>]) -> String {
    let s = &f.compilation_stats;
    format!(
        "{:?} | {} | {} {} {} {:?} | {}",
        f.signature, f.source_expression, s.code_size_bytes, s.clif_instructions, s.embedded_constants, s.estimated_speedup,
        vals.iter().map(|v| n(jit::call(f, v, 0))).collect::<Vec<_>>().join(" ")
    )
}
fn tagless<E: StatisticalExpr>(k: i64, x: E::Repr<f64>, y: E::Repr<f64>) -> E::Repr<f64>
where
    E::Repr<f64>: Clone,
{
    match k % 6 {
        0 => E::add(E::mul(x.clone(), x), y),
        1 => E::logistic(E::sub(x, y)),
        2 => E::softplus(E::div(x, E::exp(y))),
        3 => E::pow(E::sqrt(x), E::neg(y)),
        4 => E::ln(E::add(E::sin(x), E::cos(y))),
        _ => E::sigmoid(E::mul(E::constant(0.5), E::add(x, y))),
    }
}
fn tagless_mj<E: mathjit::StatisticalExpr>(k: i64, x: E::Repr<f64>, y: E::Repr<f64>) -> E::Repr<f64>
where
    E::Repr<f64>: Clone,
{
    match k % 6 {
        0 => E::add(E::mul(x.clone(), x), y),
        1 => E::logistic(E::sub(x, y)),
        2 => E::softplus(E::div(x, E::exp(y))),
        3 => E::pow(E::sqrt(x), E::neg(y)),
        4 => E::ln(E::add(E::sin(x), E::cos(y))),
        _ => E::sigmoid(E::mul(E::constant(0.5), E::add(x, y))),
    }
}

impl World {
    /// One operation; a panic of the library escapes.
    fn go(&mut self, p: &Plan, o: &Op) -> String {
        let ex = |i: usize| p.exprs[o.u(i) % p.exprs.len()].to_expr();
        let ee = |i: usize| &p.exprs[o.u(i) % p.exprs.len()];
        let val = |i: usize| -> Vec<f64> { p.vals[o.u(i) % p.vals.len()].iter().map(|x| x.0).collect() };
        let env = |i: usize, how: usize| build_env(&p.envs[o.u(i) % p.envs.len()], how);
        match o.0.as_str() {
            "eval" => {
                let (e, m) = (ex(0), env(1, o.u(2)));
                format!("{} | {} | {}", rn(e.evaluate(&m)), rn(e.evaluate_cached(&m)), rn(e.evaluate_cached(&m)))
            }
            "spec" => {
                let (e, m, v) = (ex(0), env(1, 0), val(2));
                let vs = e.variables();
                let x = vs.first().cloned().unwrap_or("x".into());
                let y = vs.get(1).cloned().unwrap_or("y".into());
                let sets: Vec<HashMap<String, f64>> = v.iter().map(|a| {
                    let mut m = m.clone();
                    m.insert(x.clone(), *a);
                    m
                }).collect();
                format!(
                    "{} | {} | {:?} | {:?} | {} | {} | {} | {} | {}",
                    rn(e.evaluate_single_var(&x, v[0])), rn(e.evaluate_smart(&x, v[0])),
                    e.evaluate_polynomial(&x, v[0]).map(n), e.evaluate_linear(&x, v[0]).map(n),
                    rv(e.evaluate_batch(&x, &v)), rv(e.evaluate_batch_optimized(&x, &v)),
                    rv(e.evaluate_batch_vars(&sets)),
                    rv(e.evaluate_grid(&x, &v, &y, &v[..v.len().min(3)]).map(|g| g.concat())),
                    e.extract_linear_coefficients(&x).map_or("-".into(), |(a, b)| format!("{} {}", n(a), n(b))),
                )
            }
            "simp" => {
                let e = ex(0);
                format!("{:?} | {:?} | {}", e.clone().simplify(), e.clone().simplify_cached(), e.complexity())
            }
            "text" => {
                let e = ex(0);
                format!(
                    "{e} | {} | {} | {} | {} | {} | {}",
                    e.to_latex(), e.to_python(), display::PrettyExpr(&e), display::latex(&e), display::python(&e), display::equation("y", &e)
                )
            }
            "vars" => format!("{:?}", ex(0).variables()),
            "sym" => {
                let (e, m) = (ex(0), env(1, o.u(2)));
                let s = SymbolicLogDensity::new(e.clone(), m.clone());
                let c = CustomSymbolicLogDensity::new(e, m.clone());
                let none = HashMap::new();
                format!(
                    "{:?} | {} | {} | {:?} | {:?} | {} | {} | {:?} | {:?} | {}",
                    s.variables, rn(s.evaluate(&none)), rn(s.evaluate_single("x", 0.75)), s.clone().substitute_parameters().expression,
                    s.clone().simplify().expression, sorted(&s.parameters),
                    rn(c.evaluate(&none)), c.variables, c.clone().simplify().expression, rn(c.evaluate_single("x", -0.25)),
                )
            }
            "build" => {
                let mut v = val(1);
                v.truncate(70);
                let g = |i: usize| v[i % v.len()];
                let e = match o.a(0) % 9 {
                    0 => builders::normal_log_pdf("x", g(0), g(1)),
                    1 => builders::polynomial("x", &v),
                    2 => builders::gaussian_kernel("x", "mu", g(0)),
                    3 => builders::logistic("x"),
                    4 => builders::softplus("x"),
                    5 => bx::hierarchical_normal("x", "mu", "sigma", "tau", g(0), g(1)),
                    6 => bx::mixture_likelihood("x", &v, &v, &v),
                    7 => bx::mixture_likelihood_old(&v.iter().map(|w| (*w, bx::normal_prior("mu", *w, 2.0))).collect::<Vec<_>>()),
                    _ => bx::posterior_log_density(bx::normal_likelihood("x", "mu", "sigma"), bx::normal_prior("mu", g(0), g(1))),
                };
                let m: HashMap<String, f64> = NAMES.iter().chain(&["tau"]).enumerate().map(|(i, s)| (s.to_string(), g(i))).collect();
                format!("{e} | {:?} | {} | {}", e.variables(), rn(e.evaluate(&m)), rn(e.evaluate_cached(&m)))
            }
            "make" => {
                // the other ways of writing an expression
                let (a, b, v) = (ex(0), ex(1), val(2));
                let (x, y) = (v[0], v[v.len() - 1]);
                let e = match o.a(3) % 24 {
                    0 => Expr::sub(a, b),
                    1 => Expr::mul(a, Expr::div(b, Expr::from(3))),
                    2 => Expr::neg(Expr::sqrt(a)),
                    3 => a + x,
                    4 => x + a,
                    5 => a - x,
                    6 => x - a,
                    7 => a * x,
                    8 => x * a,
                    9 => a / x,
                    10 => x / a,
                    11 => a.powf(2).natural_log(),
                    12 => a.exponential().square_root(),
                    13 => a.sin() - b.cos(),
                    14 => a.square() + b.cube(),
                    15 => a.abs(),
                    16 => builders_x::quadratic_term("x", x, y),
                    17 => builders_x::linear_term("x", x) + builders_x::log_normal_constant(y),
                    18 => bayes::posterior(bayes::likelihood("x", "mu", "sigma"), bayes::prior("mu", x, y)),
                    19 => bayes::variable("x") + Expr::from(String::from("y")) - symbolic_math::var!("z") * symbolic_math::const_expr!(x),
                    20 => expr!(x / z) + expr!(exp(y)) * expr!(sqrt(2.0)) - expr!(ln(z)),
                    21 => expr!(x ^ 2.0) - expr!(sin(x)) * expr!(cos((y))),
                    22 => -(a / b),
                    _ => Expr::pow(Expr::exp(Expr::ln(a)), Expr::add(b, Expr::constant(y))),
                };
                let mut m: HashMap<String, f64> = p.envs[o.u(4) % p.envs.len()].iter().map(|(k, v)| (k.clone(), v.0)).collect();
                for (i, k) in NAMES.iter().enumerate() {
                    m.entry(k.to_string()).or_insert(v[i % v.len()]);
                }
                let t = |r: Result<f64, symbolic_math::EvalError>| r.map_or_else(|e| e.to_string(), n);
                format!("{e} | {} | {} | {:?} | {}", t(e.evaluate(&m)), t(e.evaluate_cached(&m)), e.variables(), e.clone().simplify())
            }
            "repr" => {
                let r = jit::to_repr(ee(0));
                let vs: std::collections::BTreeSet<String> = r.collect_variables().into_iter().collect();
                format!("{vs:?} {} {}", r.estimate_complexity(), r.count_constants())
            }
            "cmp" | "cmpf" => {
                if o.0 == "cmpf" {
                    sys::TRACK.store(true, std::sync::atomic::Ordering::SeqCst);
                    if o.a(4) != 1 {
                        sys::arm_alloc(o.a(5) as u64, o.a(6) as u64);
                    }
                    if o.a(4) != 0 {
                        sys::arm_protect(o.a(5) as u64, o.a(6) as u64);
                    }
                }
                struct End(bool);
                impl Drop for End {
                    fn drop(&mut self) {
                        if self.0 {
                            sys::disarm();
                        }
                    }
                }
                let end = End(o.0 == "cmpf");
                let r = jit::compile(ee(1), o.a(2), o.a(3));
                drop(end);
                match r {
                    Ok(f) => {
                        let t = fun(&f, &p.vals);
                        self.fns.insert(o.a(0), f);
                        t
                    }
                    Err(e) => format!("{e} | {e:?}"),
                }
            }
            "unw" => {
                // its owner fails, and it goes away while the stack unwinds
                let f = jit::compile(ee(0), o.a(1), o.a(2));
                let t = f.as_ref().map_or_else(|e| e.to_string(), |f| fun(f, &p.vals));
                std::panic::panic_any(t)
            }
            "call" => match self.fns.get(&o.a(0)) {
                Some(f) => n(jit::call(f, &p.vals[o.u(1) % p.vals.len()], 0)),
                None => "-".into(),
            },
            "hot" => match self.fns.get(&o.a(0)) {
                Some(f) => {
                    let v = &p.vals[o.u(1) % p.vals.len()];
                    let mut h = 0u64;
                    for _ in 0..o.a(2) {
                        h = h.rotate_left(5) ^ bits(jit::call(f, v, 0));
                    }
                    format!("{h:x}")
                }
                None => "-".into(),
            },
            "wrong" => match self.fns.get(&o.a(0)) {
                // a form the signature does not have: the panic is the answer
                Some(f) => match f.signature {
                    symbolic_math::JITSignature::SingleInput => n(f.call_data_params(0.5, &[1.0, 2.0, 3.0])),
                    _ => n(f.call_single(0.5)),
                },
                None => "-".into(),
            },
            "bay" => {
                let m = self.bayes.get_or_insert_with(if o.a(2) % 2 == 0 { BayesianJITOptimizer::new } else { BayesianJITOptimizer::default });
                let e = ee(1);
                let mut l = jit::layout(&e.var_list(), 0, o.a(2));
                if o.a(0) == 2 {
                    let mut v = std::mem::take(&mut l.data);
                    v.extend(std::mem::take(&mut l.params));
                    l.params = v;
                }
                let c: HashMap<String, f64> = l.consts.iter().cloned().collect();
                let x = e.to_expr();
                match o.a(0) {
                    0 => m.compile_posterior_jit(&x, &l.data, &l.params, &c),
                    1 => m.compile_likelihood_jit(&x, &l.data, &l.params, &c),
                    _ => m.compile_prior_jit(&x, &l.params, &c),
                }
                .map_or_else(|e| format!("{e}"), |_| format!("compiled {:?} {:?}", l.data, l.params))
                    + &self.bev(o.a(0), &l.data, &l.params, &val(2))
            }
            "opt" => {
                if self.opt.is_none() {
                    self.opt = Some(EgglogOptimizer::new().expect("optimiser"));
                }
                let e = ex(0);
                match self.opt.as_mut().unwrap().optimize(&e) {
                    Ok(x) => format!("{x:?}"),
                    Err(t) => format!("{t}"),
                }
            }
            "ext" => match ex(0).optimize_with_egglog() {
                Ok(x) => format!("{x:?}"),
                Err(t) => format!("{t}"),
            },
            "den" => {
                let (pv, v) = (val(1), val(3));
                let e = dens::make(o.a(0), &pv);
                e(o.a(2), &v).iter().map(|b| format!("{b:x}")).collect::<Vec<_>>().join(" ")
            }
            "denu" => {
                // code supplied by the user fails in the middle
                struct End;
                impl Drop for End {
                    fn drop(&mut self) {
                        dens::fail_at(None);
                    }
                }
                let (pv, v) = (val(1), val(3));
                let e = dens::make(o.a(0), &pv);
                let _end = End;
                dens::fail_at(Some(o.a(4)));
                e(o.a(2), &v).iter().map(|b| format!("{b:x}")).collect::<Vec<_>>().join(" ")
            }
            "reg" => {
                let r = self.reg.get_or_insert_with(if o.a(0) % 2 == 0 { AutoJITRegistry::new } else { AutoJITRegistry::default });
                let ids = [
                    std::any::TypeId::of::<Normal<f64>>(), std::any::TypeId::of::<Poisson<f64>>(),
                    std::any::TypeId::of::<f64>(), std::any::TypeId::of::<String>(),
                ];
                r.register_pattern(ids[o.u(1) % 4], Box::new(Pat(o.a(0))));
                ids.iter().map(|i| match r.get_pattern(*i) {
                    None => "-".to_string(),
                    Some(p) => match p.generate_symbolic(&Normal::new(0.0, 1.0)) {
                        Ok(s) => format!("{} {:?} {} {:?}", s.expression, s.variables, sorted(&s.parameters), s.clone().substitute_parameters().expression),
                        Err(e) => format!("{e}"),
                    },
                }).collect::<Vec<_>>().join(" | ")
            }
            "auto" => {
                let t = |a: Result<GeneralJITFunction, JITError>| match a {
                    Ok(f) => fun(&f, &p.vals),
                    Err(e) => format!("{e}"),
                };
                let s = |a: Result<SymbolicLogDensity, JITError>| match a {
                    Ok(s) => format!("{}", s.expression),
                    Err(e) => format!("{e}"),
                };
                // the optimiser behind the extension trait, by itself
                let a = |k: i64| if k % 2 == 0 { AutoJITOptimizer::new() } else { AutoJITOptimizer::default() };
                match o.a(0) % 13 {
                    11 => s(a(o.a(1)).generate_symbolic(&Normal::new(-0.5, 2.5))) + &t(a(o.a(1)).compile_jit(&Normal::new(-0.5, 2.5))),
                    12 => t(a(o.a(1)).compile_jit(&Exponential::new(1.5))) + &t(a(o.a(1)).compile_jit(&"text")),
                    10 => t(Custom(CustomSymbolicLogDensity::new(ee(1).to_expr(), HashMap::new())).compile_custom_jit()),
                    0 => s(Normal::new(0.5, 1.5).auto_symbolic()) + &t(Normal::new(0.5, 1.5).auto_jit()),
                    1 => s(Poisson::new(2.5).auto_symbolic()) + &t(Poisson::new(2.5).auto_jit()),
                    2 => t(ChiSquared::new(3.0).compile_jit()),
                    3 => t(Gamma::new(3.0, 2.0).compile_jit()),
                    4 => t(Beta::new(3.0, 2.0).compile_jit()),
                    5 => t(Exponential::new(3.0).compile_jit()),
                    6 => t(Binomial::new(3, 0.25).compile_jit()),
                    7 => t(Bernoulli::new(0.25).compile_jit()),
                    8 => t(NegativeBinomial::new(3, 0.25).compile_jit()) + &t(Geometric::new(0.25).compile_jit()),
                    _ => t(Categorical::new(vec![0.25, 0.75]).compile_jit()),
                }
            }
            "memo" => {
                let v = val(1);
                let pts: Vec<u64> = v.iter().map(|x| x.abs().min(200.0) as u64).collect();
                let d = Poisson::new(v[0].abs().clamp(0.1, 50.0));
                let l = LogDensityBuilder::<u64>::log_density(&d);
                let c: CachedLogDensity<_, u64, f64> = LogDensityCaching::<u64>::cached(l);
                pts.iter().chain(pts.iter().rev()).map(|x| n(c.at(x))).collect::<Vec<_>>().join(" ")
            }
            // one cache, asked again and again
            "memok" => {
                let v = val(0);
                let m = self.memo.get_or_insert_with(|| {
                    let l = LogDensityBuilder::<u64>::log_density(&Poisson::new(3.0));
                    let c: CachedLogDensity<_, u64, f64> = LogDensityCaching::<u64>::cached(l);
                    Box::new(move |x| c.at(x))
                });
                v.iter().map(|x| n(m(&(x.abs().min(170.0) as u64)))).collect::<Vec<_>>().join(" ")
            }
            "mj" => {
                let v = val(1);
                let (x, y) = (v[0], v[v.len() - 1]);
                let k = o.a(0);
                match k % 7 {
                    0 => format!(
                        "{} | {}",
                        tagless::<PrettyPrint>(k / 7, PrettyPrint::var("x"), PrettyPrint::var("y")),
                        n(tagless::<DirectEval>(k / 7, x, y))
                    ),
                    1 => format!(
                        "{} | {}",
                        tagless_mj::<mathjit::PrettyPrint>(k / 7, mathjit::PrettyPrint::var("x"), mathjit::PrettyPrint::var("y")),
                        n(tagless_mj::<mathjit::DirectEval>(k / 7, x, y))
                    ),
                    2 => {
                        use mathjit::final_tagless::polynomial as q;
                        format!(
                            "{} {} {}",
                            n(q::horner::<mathjit::DirectEval, f64>(&v, x)), n(q::from_roots::<mathjit::DirectEval, f64>(&v, y)),
                            q::horner::<mathjit::PrettyPrint, f64>(&v, mathjit::PrettyPrint::var("x"))
                        )
                    }
                    3 => format!("{} {}", n(DirectEval::var("x", x)), n(DirectEval::constant::<f64>(y))),
                    4 => {
                        use mathjit::MathJITError as E;
                        let t = format!("{x}");
                        [E::from("text"), E::from(t.clone()), E::VariableNotFound(t.clone()), E::InvalidExpression(t.clone()), E::NumericError(t)]
                            .iter()
                            .map(|e| format!("{e} | {e:?} | {:?}", std::error::Error::source(e).is_some()))
                            .collect::<Vec<_>>()
                            .join(" | ")
                    }
                    5 => {
                        use mathjit::final_tagless::polynomial as q;
                        use mathjit::expr::Expr as W;
                        use mathjit::{DirectEval as D, MathExpr as _, PrettyPrint as P};
                        let c: Vec<String> = v.iter().map(|a| P::constant::<f64>(*a)).collect();
                        let w: W<P, f64> = W::var("x");
                        let k: W<P, f64> = W::constant(y);
                        format!(
                            "{} {} {} {} {} {} {}",
                            n(q::horner_expr::<D, f64>(&v, y)), q::horner_expr::<P, f64>(&c, P::var("x")),
                            n(q::horner_derivative::<D, f64>(&v, x)), q::horner_derivative::<P, f64>(&v, P::var("x")),
                            q::from_roots::<P, f64>(&v, P::var("x")),
                            P::add::<f64, f64, f64>(w.as_repr().clone(), k.into_repr()),
                            n(W::<D, f64>::new(x).into_repr())
                        )
                    }
                    _ => {
                        // the trait's own variables and constants, on every interpreter that has them
                        let r = <symbolic_math::JITEval as StatisticalExpr>::logistic::<f64>(symbolic_math::JITEval::var("x"));
                        let s = <symbolic_math::JITEval as StatisticalExpr>::softplus::<f64>(symbolic_math::JITEval::sub::<f64, f64, f64>(r, symbolic_math::JITEval::constant::<f64>(y)));
                        let f = symbolic_math::JITEval::compile_single_var(s.clone(), "x");
                        format!(
                            "{} {} {s:?} {}",
                            <PrettyPrint as MathExpr>::var::<f64>("x"), PrettyPrint::constant::<f64>(x),
                            f.map_or_else(|e| e.to_string(), |f| n(f.call_single(x)))
                        )
                    }
                }
            }
            "pool" => {
                let mut c = if o.a(0) % 2 == 0 { ConstantPool::new() } else { ConstantPool::default() };
                for i in 0..o.a(0) {
                    c.add_constant(format!("c{i}"), i as f64, format!("e{i}"), vec![format!("c{}", i / 2)]);
                }
                format!("{} {:?} {} {}", sorted(&c.constants), c.evaluation_order, sorted(&c.dependencies), sorted(&c.expressions))
            }
            "clr" => {
                clear_caches();
                "cleared".into()
            }
            "burst" => {
                // many distinct requests: past any capacity
                let e = ex(0);
                let mut h = 0xcbf29ce484222325u64;
                for i in 0..o.a(1) {
                    let x = e.clone() + Expr::constant(i as f64);
                    let m: HashMap<String, f64> = p.envs[0].iter().map(|(k, v)| (k.clone(), v.0 + i as f64)).collect();
                    let t = format!("{:?} {}", x.clone().simplify_cached(), rn(x.evaluate_cached(&m)));
                    h = t.bytes().fold(h, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                }
                format!("{h:x}")
            }
            "many" => {
                // many compilations in a row
                let mut t = String::new();
                for i in 0..o.a(0) {
                    let e = builders::normal_log_pdf("x", i as f64, "s");
                    let r = symbolic_math::GeneralJITCompiler::new()
                        .and_then(|c| c.compile_expression(&e, &["x".into()], &["s".into()], &HashMap::new()));
                    t += &r.map_or_else(|e| format!("{e}"), |f| n(f.call_data_param(0.5, 2.0)));
                }
                t
            }
            "static" => {
                use measures_exponential_family::exponential_family::jit::StaticInlineJITCompiler as S;
                let v = val(0);
                let (a, b) = (S::compile_normal(v[0], v[v.len() - 1]), S::compile_exponential(v[0]));
                let st = |s: &symbolic_math::CompilationStats| format!("{} {} {} {}", s.code_size_bytes, s.clif_instructions, s.embedded_constants, s.estimated_speedup);
                format!("{} {} {} {} {} {}", a.source_expression, b.source_expression, st(a.stats()), st(b.stats()), n(a.call(v[0])), n(b.call(v[0])))
            }
            _ => String::new(),
        }
    }
    fn bev(&self, part: i64, d: &[String], q: &[String], v: &[f64]) -> String {
        let Some(m) = &self.bayes else { return "-".into() };
        let g = |k: usize, off: usize| -> Vec<f64> { (0..k).map(|i| v[(i + off) % v.len()]).collect() };
        let (a, b) = (g(d.len(), 0), g(q.len(), d.len()));
        let r = match part {
            0 => m.evaluate_posterior(&a, &b),
            1 => m.evaluate_likelihood(&a, &b),
            _ => m.evaluate_prior(&b),
        };
        format!(" {:?}", r.map(n))
    }
    /// One operation; None: this thread is to die.
    pub fn step(&mut self, p: &Plan, o: &Op) -> Option<String> {
        match guarded(|| self.go(p, o)) {
            Ok(t) => Some(t),
            Err(Stop::Panicked(t)) => Some(format!("panic: {t}")),
            Err(Stop::Killed) => None,
        }
    }
}

/// Fills the plan's pools and writes a program over them.
pub fn program(r: &mut Rng, p: &mut Plan, engine: bool, len: usize) -> Vec<Op> {
    let mut kind = ExprKind::wild();
    kind.odd_names = *r.pick(&[0, 0, 25]);
    kind.special = *r.pick(&[0, 8, 35]);
    let ne = r.range(1, 5);
    let models = jit::model_exprs();
    for _ in 0..ne {
        let d = r.range(1, 5) as u32;
        let e = match r.below(10) {
            0 => {
                let k = *r.pick(&[8, 8, 20, 20, 60, 60, 300]);
                chain(r, k, 1.0)
            }
            1 | 2 => r.pick(&models).clone(),
            // many variables: the order they come in then matters
            3 | 4 => {
                let k = if r.chance(1, 8) { r.range(13, 70) } else { r.range(3, 12) } as usize;
                let names: Vec<String> = (0..k).map(|i| if r.chance(1, 2) { format!("v{}", i * 7 % 97) } else { rname(r, 10) }).collect();
                names.iter().fold(c(0.5), |e, s| {
                    let t = E::Mul(Box::new(c(rconst(r, 0))), Box::new(v(s)));
                    if r.chance(1, 2) { E::Add(Box::new(e), Box::new(t)) } else { E::Sub(Box::new(t), Box::new(e)) }
                })
            }
            _ => rexpr(r, &kind, d),
        };
        p.exprs.push(e);
    }
    let nn = r.range(1, 4);
    for _ in 0..nn {
        let mut vars = vec![];
        p.exprs[r.us(ne as usize)].vars(&mut vars);
        p.envs.push(renv(r, &vars, 10));
    }
    let nv = r.range(2, 5);
    p.vals = dens::rvals(r, nv as usize);
    let small: Vec<i64> = (0..3).map(|_| r.range(0, ne - 1)).collect();
    // engine only takes what it can finish
    let mut out = vec![];
    let lays: Vec<i64> = (0..3).map(|_| r.range(0, 1 << 30)).collect();
    for _ in 0..len {
        let e = *r.pick(&small);
        let v = r.range(0, nv - 1);
        let lay = *r.pick(&lays);
        let o = match r.below(32) {
            0 | 1 => op("eval", &[e, r.range(0, nn - 1), r.range(0, 7)]),
            2 => op("spec", &[e, r.range(0, nn - 1), v]),
            3 => op("simp", &[e]),
            4 => op("text", &[e]),
            5 => op("vars", &[e]),
            6 => op("sym", &[e, r.range(0, nn - 1), r.range(0, 7)]),
            7 => op("build", &[r.range(0, 8), v]),
            8 => op("repr", &[e]),
            9..=12 => op("cmp", &[r.range(0, 2), e, r.range(0, jit::FORMS - 1), lay]),
            13 => op("cmpf", &[r.range(0, 2), e, r.range(0, jit::FORMS - 1), lay, r.range(0, 2), r.range(0, 2), *r.pick(&[1, 1, 2, 100])]),
            14 | 15 => op("call", &[r.range(0, 2), v]),
            16 if r.chance(1, 2) => op("unw", &[e, r.range(0, jit::FORMS - 1), lay]),
            16 => op("wrong", &[r.range(0, 2)]),
            17 | 18 => op("bay", &[r.range(0, 2), e, lay]),
            19 | 20 => {
                if engine {
                    op(if r.chance(1, 4) { "ext" } else { "opt" }, &[e])
                } else {
                    op("static", &[v])
                }
            }
            21 if r.chance(1, 2) => op("denu", &[*r.pick(dens::USER_KINDS), v, r.range(0, dens::METHODS - 1), r.range(0, nv - 1), r.range(0, 6)]),
            21..=23 => op("den", &[r.range(0, dens::KINDS - 1), v, r.range(0, dens::METHODS - 1), r.range(0, nv - 1)]),
            24 => op("reg", &[r.range(0, 9), r.range(0, 3)]),
            25 => op("auto", &[r.range(0, 12), e]),
            26 if r.chance(1, 2) => op("memok", &[v]),
            26 => op("memo", &[0, v]),
            27 => op("mj", &[r.range(0, 41), v]),
            28 => op("pool", &[r.range(0, 30)]),
            29 | 30 => op("make", &[e, *r.pick(&small), v, r.range(0, 23), r.range(0, nn - 1)]),
            _ => match r.below(8) {
                0 => op("burst", &[e, *r.pick(&[10, 60, 260, 1100])]),
                1 if r.chance(1, 30) => op("burst", &[e, 5000]),
                1 => op("many", &[*r.pick(&[2, 5, 17, 70])]),
                3 => op("hot", &[r.range(0, 2), v, *r.pick(&[20, 130, 1100, 11_000])]),
                2 => op("clr", &[]),
                _ => op("eval", &[e, r.range(0, nn - 1), r.range(0, 7)]),
            },
        };
        out.push(o);
    }
    out
}

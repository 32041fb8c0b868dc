//! C15: density evaluation under histories: many objects, near-equal parameters and points, user
//! code that yields, evaluates other densities or panics, several threads sharing the objects.
//! Every answer is compared with the same evaluation made first thing in a fresh process.
//!
//! Verbs: `mk s kind v` put an object of that kind with parameters vals[v] into slot s;
//! `q s m v` method m of slot s at the points vals[v]; `qp s m v n` the same with the n-th call of
//! user code panicking; `qy`: user code yields and evaluates other densities; `drop s`;
//! `sweep s m from n step` many evaluations, not compared; `breed kind n` n objects of that kind
//! with different parameters, each evaluated, not compared.
use super::pool::*;
use crate::engine::*;
use crate::plan::*;
use measures_combinators::measures::combinators::pushforward::transforms;
use measures_combinators::measures::derived::binomial_coefficient::{log_binomial_coefficient, BinomialCoefficientMeasure};
use measures_combinators::measures::derived::integral::IntegralMeasure;
use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
use measures_combinators::measures::derived::factorial::log_factorial;
use measures_combinators::{
    CountingMeasure, Dirac, FactorialMeasure, LebesgueMeasure, MixtureExt, MixtureMeasure,
    ProductMeasure, ProductMeasureExt, PushforwardExt, WeightedMeasure,
};
use measures_core::{
    log_density_at, log_density_batch, False, HasLogDensity, HasLogDensityDecomposition,
    LogDensityBuilder, Measure, MeasureMarker, SharedRootMeasure,
};
use measures_distributions::*;
use measures_exponential_family::exponential_family::jit::{
    generate_zero_overhead_exp_fam, generate_zero_overhead_exp_fam_wrt, StaticInlineJITCompiler,
    ZeroOverheadOptimizer,
};
use measures_exponential_family::exponential_family::{compute_exp_fam_log_density, compute_iid_exp_fam_log_density};
use measures_exponential_family::{ExponentialFamily, IIDExtension, IID};
use simstd::rt;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Arc;

// ------------------------------------------------------------------ user code

thread_local! {
    /// calls of user code until one panics; what user code does besides
    static LEFT: Cell<Option<i64>> = const { Cell::new(None) };
    static MODE: Cell<i64> = const { Cell::new(0) };
    static FIRED: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    /// counts of any size
    static WIDE: Cell<bool> = const { Cell::new(false) };
}
const BOOM: &str = "injected failure of user code";

/// Kinds of `make` that call code supplied by the user.
pub const USER_KINDS: &[i64] = &[19, 22, 27, 28, 31, 32, 49];
/// The n-th call of user code from now on panics.
pub fn fail_at(n: Option<i64>) {
    LEFT.set(n);
}

/// Called from every transformation and measure the harness supplies.
fn user() {
    if let Some(n) = LEFT.get() {
        if n <= 0 {
            LEFT.set(None);
            FIRED.set(FIRED.get() + 1);
            std::panic::panic_any(BOOM.to_string());
        }
        LEFT.set(Some(n - 1));
    }
    let m = MODE.get();
    if m & 1 != 0 && DEPTH.get() == 0 {
        rt::point(rt::Point::Callback, 0);
    }
    if m & 2 != 0 && DEPTH.get() < 2 {
        // user code that evaluates densities itself
        DEPTH.set(DEPTH.get() + 1);
        struct Up;
        impl Drop for Up {
            fn drop(&mut self) {
                DEPTH.set(DEPTH.get() - 1);
            }
        }
        let _up = Up;
        let a: f64 = Normal::new(0.25, 1.75).log_density().at(&0.5);
        let b: f64 = Gamma::new(2.5, 1.25).iid_of(&[0.5, 1.5]);
        let c: f64 = MixtureMeasure::new(vec![Mine { a: 0.5, b: 2.0 }, Mine { a: 1.5, b: 1.0 }], vec![0.25, 0.75])
            .log_density_wrt_root(&0.75);
        let d: f64 = Poisson::new(3.5).log_density().at(&30u64);
        std::hint::black_box((a, b, c, d));
    }
}
trait IidOf {
    fn iid_of(&self, xs: &[f64]) -> f64;
}
impl IidOf for Gamma<f64> {
    fn iid_of(&self, xs: &[f64]) -> f64 {
        IID::new(self.clone()).iid_log_density(xs)
    }
}

/// A measure supplied by the user.
#[derive(Clone)]
struct Mine {
    a: f64,
    b: f64,
}
impl MeasureMarker for Mine {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<f64> for Mine {
    type RootMeasure = LebesgueMeasure<f64>;
    fn in_support(&self, x: f64) -> bool {
        user();
        x > self.a
    }
    fn root_measure(&self) -> LebesgueMeasure<f64> {
        user();
        LebesgueMeasure::new()
    }
}
impl HasLogDensity<f64, f64> for Mine {
    fn log_density_wrt_root(&self, x: &f64) -> f64 {
        user();
        let v = self.a * x - self.b.abs().ln();
        user();
        v
    }
}

// ------------------------------------------------------------------ words

pub trait Words {
    fn words(&self, o: &mut Vec<u64>);
}
impl Words for f64 {
    fn words(&self, o: &mut Vec<u64>) {
        o.push(bits(*self));
    }
}
impl Words for f32 {
    fn words(&self, o: &mut Vec<u64>) {
        o.push(if self.is_nan() { u64::MAX } else { self.to_bits() as u64 });
    }
}
impl Words for bool {
    fn words(&self, o: &mut Vec<u64>) {
        o.push(*self as u64);
    }
}
impl<T: Words, const N: usize> Words for [T; N] {
    fn words(&self, o: &mut Vec<u64>) {
        self.iter().for_each(|x| x.words(o));
    }
}
impl<T: Words> Words for Vec<T> {
    fn words(&self, o: &mut Vec<u64>) {
        o.push(self.len() as u64);
        self.iter().for_each(|x| x.words(o));
    }
}
impl<A: Words, B: Words> Words for (A, B) {
    fn words(&self, o: &mut Vec<u64>) {
        self.0.words(o);
        self.1.words(o);
    }
}
fn w(x: impl Words) -> Vec<u64> {
    let mut o = vec![];
    x.words(&mut o);
    o
}

pub trait Pt: Clone {
    fn of(x: f64) -> Self;
}
impl Pt for f64 {
    fn of(x: f64) -> Self {
        x
    }
}
impl Pt for f32 {
    fn of(x: f64) -> Self {
        x as f32
    }
}
impl Pt for u64 {
    // some log-factorials are summed term by term: no astronomic counts there
    fn of(x: f64) -> Self {
        x.abs().min(if WIDE.get() { 9e18 } else { 20_000.0 }) as u64
    }
}
impl Pt for u8 {
    fn of(x: f64) -> Self {
        x.abs() as u8
    }
}
impl Pt for usize {
    fn of(x: f64) -> Self {
        x.abs() as usize
    }
}

// ------------------------------------------------------------------ the catalogue

pub type Eval = Box<dyn Fn(i64, &[f64]) -> Vec<u64>>;
/// Objects are shared through this, so that the checks also build (and judge) types that lost
/// their thread-safety markers.
struct Shared(Eval);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

fn pts<X: Pt>(v: &[f64]) -> Vec<X> {
    if v.is_empty() { vec![X::of(1.0)] } else { v.iter().map(|x| X::of(*x)).collect() }
}
fn par(p: &[f64], i: usize) -> f64 {
    p.get(i).copied().unwrap_or(1.0)
}
fn pos(x: f64) -> f64 {
    if x.is_finite() && x != 0.0 { x.abs() } else { 1.0 }
}
fn prob(x: f64) -> f64 {
    let y = x.abs().fract();
    if y > 0.0 && y < 1.0 { y } else { 0.5 }
}
fn count(x: f64) -> u64 {
    x.abs().min(200.0) as u64 + 1
}

/// Everything a measure offers that is no exponential family.
macro_rules! plain {
    ($x:ty, $f:ty, $d:expr, $d2:expr) => {{
        let (d, d2) = ($d, $d2);
        let held = LogDensityBuilder::<$x>::log_density(&d);
        let rel = LogDensityBuilder::<$x>::log_density(&d).wrt(d2.clone());
        let pair = (d.clone(), d2.clone());
        Box::new(move |m: i64, v: &[f64]| -> Option<Vec<u64>> {
            let xs = pts::<$x>(v);
            let x = &xs[0];
            Some(match m {
                0 => { let y: $f = held.at(x); w(y) }
                1 => { let y: $f = d.log_density_wrt_root(x); w(y) }
                2 => { let y: $f = LogDensityBuilder::<$x>::log_density(&d).at(x); w(y) }
                3 => { let y: $f = rel.at(x); w(y) }
                4 => { let y: $f = log_density_at(&d, x); w(y) }
                5 => { let y: Vec<$f> = log_density_batch(&d, &xs); w(y) }
                6 => { let y: $f = d.clone().log_density_wrt_root(x); w(y) }
                7 => { let y: $f = pair.log_density_wrt_shared_root(x); w(y) }
                8 => w(Measure::<$x>::in_support(&d, x.clone())),
                9 => {
                    let b = LogDensityBuilder::<$x>::log_density(&d2).wrt(d.clone());
                    let y: $f = b.at(x);
                    let z: $f = rel.clone().at(x);
                    w((y, z))
                }
                10 => { let y: $f = IID::new(d.clone()).iid_log_density_fallback(&xs); w(y) }
                _ => return None,
            })
        }) as Box<dyn Fn(i64, &[f64]) -> Option<Vec<u64>>>
    }};
}
/// ... and what exponential families offer on top.
macro_rules! family {
    ($x:ty, $f:ty, $d:expr, $d2:expr) => {{
        let (d, d2) = ($d, $d2);
        let base = plain!($x, $f, d.clone(), d2.clone());
        let iid = IIDExtension::<$x, $f>::iid(d.clone());
        let held = LogDensityBuilder::<Vec<$x>>::log_density(&iid);
        let pre = generate_zero_overhead_exp_fam::<_, $x, $f>(d.clone());
        let prew = generate_zero_overhead_exp_fam_wrt::<_, _, $x, $f>(d.clone(), d2.clone());
        let opt = ZeroOverheadOptimizer::<$x, $f>::zero_overhead_optimize(d2.clone());
        let optw = ZeroOverheadOptimizer::<$x, $f>::zero_overhead_optimize_wrt(d2.clone(), d.clone());
        Box::new(move |m: i64, v: &[f64]| -> Vec<u64> {
            if let Some(r) = base(m, v) {
                return r;
            }
            let xs = pts::<$x>(v);
            let x = &xs[0];
            match m {
                11 => { let y: $f = d.exp_fam_log_density(x); w(y) }
                12 => { let y: (_, $f) = ExponentialFamily::<$x, $f>::natural_and_log_partition(&d); w(y) }
                13 => {
                    let y: $f = ExponentialFamily::<$x, $f>::log_partition(&d);
                    w((ExponentialFamily::<$x, $f>::to_natural(&d), y))
                }
                14 => w(ExponentialFamily::<$x, $f>::sufficient_statistic(&d, x)),
                15 => { let y: $f = iid.iid_log_density(&xs); w(y) }
                16 => { let y: $f = held.at(&xs); w(y) }
                17 => { let y: $f = pre(x); w(y) }
                18 => { let y: $f = prew(x); w(y) }
                19 => { let y: $f = opt(x); w(y) }
                20 => { let y: $f = optw(x); w(y) }
                21 => { let y: $f = compute_exp_fam_log_density(&d, x); w(y) }
                22 => { let y: $f = compute_iid_exp_fam_log_density(&d2, &xs); w(y) }
                23 => {
                    let f = generate_zero_overhead_exp_fam::<_, $x, $f>(d2.clone());
                    let (a, b): ($f, $f) = (f(x), pre(x));
                    w((a, b))
                }
                24 => {
                    let b = ExponentialFamily::<$x, $f>::base_measure(&d);
                    let y: $f = b.log_density_wrt_root(x);
                    w(y)
                }
                _ => { let y: $f = iid.iid_log_density(&xs[..0]); w(y) }
            }
        }) as Eval
    }};
}
/// Families over the real line also have an IID version that is a family itself.
macro_rules! lebesgue {
    ($x:ty, $f:ty, $d:expr, $d2:expr) => {{
        let base = family!($x, $f, $d, $d2);
        let iid = IIDExtension::<$x, $f>::iid($d);
        Box::new(move |m: i64, v: &[f64]| -> Vec<u64> {
            let xs = pts::<$x>(v);
            match m {
                25 => { let y: (_, $f) = ExponentialFamily::<Vec<$x>, $f>::natural_and_log_partition(&iid); w(y) }
                26 => { let y: $f = iid.exp_fam_log_density(&xs); w(y) }
                27 => w(ExponentialFamily::<Vec<$x>, $f>::sufficient_statistic(&iid, &xs)),
                _ => base(m, v),
            }
        }) as Eval
    }};
}
/// What a measure offers that only has a density with respect to its root.
macro_rules! root {
    ($x:ty, $f:ty, $d:expr, $d2:expr) => {{
        let (d, d2) = ($d, $d2);
        let iid = IID::new(d2.clone());
        Box::new(move |m: i64, v: &[f64]| -> Option<Vec<u64>> {
            let xs = pts::<$x>(v);
            let x = &xs[0];
            Some(match m % 5 {
                0 => { let y: $f = d.log_density_wrt_root(x); w(y) }
                1 => { let y: $f = d2.log_density_wrt_root(x); w(y) }
                2 => { let y: $f = d.clone().log_density_wrt_root(x); w(y) }
                3 => { let y: $f = log_density_at(&d, x); w(y) }
                _ => { let y: Vec<$f> = log_density_batch(&d2, &xs); let z: Vec<$f> = log_density_batch(&iid.distribution, &xs); w((y, z)) }
            })
        }) as Box<dyn Fn(i64, &[f64]) -> Option<Vec<u64>>>
    }};
}
fn just(b: Box<dyn Fn(i64, &[f64]) -> Option<Vec<u64>>>) -> Eval {
    Box::new(move |m, v| b(m.rem_euclid(11), v).unwrap_or_default())
}

/// These methods take counts of any size.
fn wide(e: Eval, from: i64, to: i64) -> Eval {
    Box::new(move |m, v| {
        struct Back(bool);
        impl Drop for Back {
            fn drop(&mut self) {
                WIDE.set(self.0);
            }
        }
        let _back = Back(WIDE.replace(m >= from && m <= to));
        e(m, v)
    })
}

pub const METHODS: i64 = 28;
pub const KINDS: i64 = 55;

pub fn make(kind: i64, p: &[f64]) -> Eval {
    let q: Vec<f64> = if p.len() > 4 { p[4..].to_vec() } else { vec![par(p, 1), par(p, 0), 0.5] };
    let (a, b) = (par(p, 0), par(p, 1));
    let (a2, b2) = (par(&q, 0), par(&q, 1));
    let fin = |x: f64| if x.is_finite() { x } else { 0.5 };
    macro_rules! nor { ($a:expr, $b:expr) => { Normal::new(fin($a), pos($b)) }; }
    match kind.rem_euclid(KINDS) {
        0 => lebesgue!(f64, f64, nor!(a, b), nor!(a2, b2)),
        1 => lebesgue!(f64, f64, Exponential::new(pos(a)), Exponential::new(pos(a2))),
        2 => lebesgue!(f64, f64, Gamma::new(pos(a), pos(b)), Gamma::new(pos(a2), pos(b2))),
        3 => lebesgue!(f64, f64, Beta::new(pos(a), pos(b)), Beta::new(pos(a2), pos(b2))),
        4 => lebesgue!(f64, f64, ChiSquared::new(pos(a)), ChiSquared::new(pos(a2))),
        5 => wide(family!(u64, f64, Poisson::new(pos(a)), Poisson::new(pos(a2))), 24, 24),
        6 => wide(family!(u64, f64, Binomial::new(count(a), prob(b)), Binomial::new(count(a2), prob(b2))), 0, 99),
        7 => wide(family!(u64, f64, Geometric::new(prob(a)), Geometric::new(prob(a2))), 0, 99),
        8 => wide(family!(u64, f64, NegativeBinomial::new(count(a), prob(b)), NegativeBinomial::new(count(a2), prob(b2))), 0, 99),
        9 => family!(u8, f64, Bernoulli::new(prob(a)), Bernoulli::new(prob(a2))),
        10 => lebesgue!(f32, f32, Normal::<f32>::new(fin(a) as f32, pos(b) as f32), Normal::<f32>::new(fin(a2) as f32, pos(b2) as f32)),
        11 => lebesgue!(f32, f32, Gamma::<f32>::new(pos(a) as f32, pos(b) as f32), Gamma::<f32>::new(pos(a2) as f32, pos(b2) as f32)),
        12 => wide(family!(u64, f32, Poisson::<f32>::new(pos(a) as f32), Poisson::<f32>::new(pos(a2) as f32)), 24, 24),
        13 => lebesgue!(f32, f32, Exponential::<f32>::new(pos(a) as f32), Exponential::<f32>::new(pos(a2) as f32)),
        14 => just(root!(f64, f64, Cauchy::new(fin(a), pos(b)), Cauchy::new(fin(a2), pos(b2)))),
        15 => just(root!(f64, f64, StudentT::new(pos(a)), StudentT::new(pos(a2)))),
        16 => {
            let cat = |p: &[f64]| {
                let n = p.len().clamp(1, 40);
                let v: Vec<f64> = (0..n).map(|i| pos(par(p, i))).collect();
                let s: f64 = v.iter().sum();
                Categorical::new(v.iter().map(|x| x / s).collect())
            };
            just(root!(usize, f64, cat(p), cat(&q)))
        }
        17 => {
            let d = Cauchy::new(fin(a), pos(b));
            let s = StudentT::new(pos(a));
            let n = nor!(a, b);
            let (cd, sd, nd) = (
                HasLogDensityDecomposition::<f64, _, f64>::log_density_decomposition(&d),
                HasLogDensityDecomposition::<f64, _, f64>::log_density_decomposition(&s),
                HasLogDensityDecomposition::<f64, _, f64>::log_density_decomposition(&n),
            );
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                match m % 7 {
                    0 => w((cd.evaluate(&xs[0], &d.params()), cd.evaluate_iid(&xs, &d.params()))),
                    1 => w((sd.evaluate(&xs[0], &s.params()), sd.evaluate_iid(&xs, &s.params()))),
                    2 => w((nd.evaluate(&xs[0], &n.params()), nd.evaluate_iid(&xs, &n.params()))),
                    3 => w((d.log_density_iid(&xs), (s.log_density_iid(&xs), n.log_density_iid(&xs)))),
                    4 => w((d.log_pdf(xs[0]), s.log_pdf(xs[0]))),
                    5 => w(vec![
                        cd.evaluate_param_terms(&d.params()), cd.evaluate_data_terms(&xs[0]), cd.constant_sum(),
                        sd.evaluate_param_terms(&s.params()), sd.constant_sum(),
                        nd.evaluate_param_terms(&n.params()), nd.evaluate_data_terms(&xs[0]), nd.constant_sum(),
                    ]),
                    _ => w(vec![n.variance(), d.location(), d.scale(), s.nu()]),
                }
            })
        }
        18 => {
            let d = ProductMeasure::new(nor!(a, b), Exponential::new(pos(a2)));
            let e = nor!(a, b).product::<_, u64>(Poisson::new(pos(b2)));
            let l = LogDensityBuilder::<(f64, f64)>::log_density(&d);
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                let x = (xs[0], *xs.last().unwrap());
                let y = (xs[0], u64::of(x.1));
                match m % 4 {
                    0 => { let z: f64 = l.at(&x); w(z) }
                    1 => { let z: f64 = d.log_density_wrt_root(&x); w(z) }
                    2 => { let z: f64 = e.log_density_wrt_root(&y); w(z) }
                    _ => { let z: f64 = e.log_density().at(&y); w((z, d.in_support(x))) }
                }
            })
        }
        19 => {
            // a product of products, over user measures too
            let d = ProductMeasure::new(
                ProductMeasure::new(nor!(a, b), Mine { a, b }),
                ProductMeasure::new(Gamma::new(pos(a2), pos(b2)), Mine { a: a2, b: b2 }),
            );
            Box::new(move |m, v| {
                let x = pts::<f64>(v);
                let g = |i: usize| x[i % x.len()];
                let z = ((g(0), g(1)), (g(2), g(3)));
                match m % 2 {
                    0 => { let y: f64 = d.log_density_wrt_root(&z); w(y) }
                    _ => { let y: f64 = d.log_density().at(&z); w((y, d.in_support(z))) }
                }
            })
        }
        20 => {
            let k = p.len().clamp(1, 5);
            let cs: Vec<_> = (0..k).map(|i| nor!(par(p, i), par(p, i + 1))).collect();
            let s: f64 = (0..k).map(|i| pos(par(&q, i))).sum();
            let ws: Vec<f64> = (0..k).map(|i| pos(par(&q, i)) / s).collect();
            just(root!(f64, f64, MixtureMeasure::new(cs.clone(), ws.clone()), MixtureMeasure::<_, f64>::uniform(cs)))
        }
        21 => just(root!(u64, f64,
            MixtureMeasure::<_, f64>::uniform(vec![Poisson::new(pos(a)), Poisson::new(pos(b))]),
            Poisson::new(pos(a2)).uniform_mixture(Poisson::new(pos(b2))))),
        22 => just(root!(f64, f64,
            MixtureMeasure::<_, f64>::uniform(vec![Mine { a, b }, Mine { a: a2, b: b2 }, Mine { a: b, b: a2 }]),
            Mine { a, b }.mixture::<f64>(Mine { a: b2, b: a2 }, 0.25, 0.75))),
        23 => {
            let (f, i, j) = transforms::exp_transform::<f64>();
            let (g, k, l) = transforms::exp_transform::<f64>();
            just(root!(f64, f64, nor!(a, b).pushforward::<f64, _, _, _>(f, i, j), nor!(a2, b2).pushforward::<f64, _, _, _>(g, k, l)))
        }
        24 => {
            let (f, i, j) = transforms::log_transform::<f64>();
            let (g, k, l) = transforms::log_transform::<f64>();
            just(root!(f64, f64, Gamma::new(pos(a), pos(b)).pushforward::<f64, _, _, _>(f, i, j), Exponential::new(pos(a2)).pushforward::<f64, _, _, _>(g, k, l)))
        }
        25 => {
            let (f, i, j) = transforms::linear_transform::<f64>(pos(a), fin(b));
            let (g, k, l) = transforms::linear_transform::<f64>(pos(a2), fin(b2));
            just(root!(f64, f64, Cauchy::new(fin(b), pos(a)).pushforward::<f64, _, _, _>(f, i, j), nor!(a2, b2).pushforward::<f64, _, _, _>(g, k, l)))
        }
        26 => {
            let (f, i, j) = transforms::logit_transform::<f64>();
            let (g, k, l) = transforms::logit_transform::<f64>();
            just(root!(f64, f64, Beta::new(pos(a), pos(b)).pushforward::<f64, _, _, _>(f, i, j), Beta::new(pos(a2), pos(b2)).pushforward::<f64, _, _, _>(g, k, l)))
        }
        27 => {
            let (s, t) = (fin(a), pos(b));
            let f = move |x: &f64| { user(); s + t * x };
            let i = move |y: &f64| { user(); (y - s) / t };
            let j = move |y: &f64| { user(); -t.ln() + 0.0 * y };
            just(root!(f64, f64, nor!(a2, b2).pushforward::<f64, _, _, _>(f, i, j), Mine { a, b }.pushforward::<f64, _, _, _>(f, i, j)))
        }
        28 => {
            // a pushforward of a mixture of pushforwards
            let (s, t) = (fin(a), pos(b));
            let f = move |x: &f64| { user(); s + t * x };
            let i = move |y: &f64| { user(); (y - s) / t };
            let j = move |_: &f64| { user(); -t.ln() };
            let inner = MixtureMeasure::<_, f64>::uniform(vec![
                Mine { a, b }.pushforward::<f64, _, _, _>(f, i, j), Mine { a: a2, b: b2 }.pushforward::<f64, _, _, _>(f, i, j),
            ]);
            let e = inner.clone().pushforward::<f64, _, _, _>(f, i, j);
            let d = WeightedMeasure::<_, f64, f64>::new(inner, fin(b2));
            just(plain!(f64, f64, e, d))
        }
        29 => just(plain!(f64, f64, WeightedMeasure::<_, f64, f64>::new(nor!(a, b), fin(a2)), WeightedMeasure::<_, f64, f64>::new(nor!(a, b), fin(b2)))),
        30 => just(plain!(u64, f64, WeightedMeasure::<_, f64, u64>::new(Poisson::new(pos(a)), fin(a2)), WeightedMeasure::<_, f64, u64>::new(Poisson::new(pos(b)), fin(b2)))),
        31 => just(plain!(f64, f64, WeightedMeasure::<_, f64, f64>::new(Mine { a, b }, fin(a2)), Mine { a: a2, b: b2 })),
        32 => {
            let f = move |x: &f64| { user(); a.sin() * x };
            let g = move |x: &f64| { user(); a2.cos() * x };
            just(plain!(f64, f64, IntegralMeasure::new(Mine { a, b }, f), IntegralMeasure::new(Mine { a: a2, b: b2 }, g)))
        }
        33 => {
            let d = Dirac::new(a);
            let e = Dirac::new(u64::of(a));
            Box::new(move |_, v| {
                let xs = pts::<f64>(v);
                w(xs.iter().map(|x| (d.in_support(*x), e.in_support(u64::of(*x)))).collect::<Vec<_>>())
            })
        }
        34 => {
            let d = FactorialMeasure::<f64>::new();
            wide(Box::new(move |m, v| {
                let xs = pts::<u64>(v);
                match m % 4 {
                    0 => { let y: f64 = d.log_density_wrt_root(&xs[0]); w(y) }
                    1 => { let y: f64 = log_factorial(xs[0]); w(y) }
                    2 => { let y: f32 = log_factorial(xs[0]); w(y) }
                    _ => w(xs.iter().map(|x| log_factorial::<f64>(*x)).collect::<Vec<_>>()),
                }
            }), 0, 99)
        }
        35 => {
            let (d, e) = (BinomialCoefficientMeasure::<f64>::new(count(a)), NegativeBinomialCoefficientMeasure::<f64>::new(count(b)));
            let n = count(a2);
            wide(Box::new(move |m, v| {
                let xs = pts::<u64>(v);
                match m % 4 {
                    0 => { let y: f64 = d.log_density_wrt_root(&xs[0]); w(y) }
                    1 => { let y: f64 = e.log_density_wrt_root(&xs[0]); w(y) }
                    2 => { let y: f64 = log_binomial_coefficient(n, xs[0]); w(y) }
                    _ => { let y: f32 = log_binomial_coefficient(n, xs[0]); w((y, d.in_support(xs[0]))) }
                }
            }), 0, 99)
        }
        36 => {
            let f = StaticInlineJITCompiler::compile_normal(fin(a), pos(b));
            let g = StaticInlineJITCompiler::compile_exponential(pos(a2));
            let f2 = StaticInlineJITCompiler::compile_normal(fin(a2), pos(b2));
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                match m % 4 {
                    0 => w(f.call(xs[0])),
                    1 => w(g.call(xs[0])),
                    2 => w(f2.call(xs[0])),
                    _ => w(xs.iter().map(|x| (f.call(*x), f2.call(*x))).collect::<Vec<_>>()),
                }
            })
        }
        37 => {
            let (a, b, a2, b2) = (fin(a), pos(b), pos(a2), pos(b2));
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                let x = xs[0];
                match m % 5 {
                    0 => w(DistributionEval::normal_log_density(x, a, b)),
                    1 => w(DistributionEval::exponential_log_density(x, a2)),
                    2 => w(DistributionEval::gamma_log_density(x, a2, b2)),
                    3 => w(DistributionEval::log_gamma(pos(x))),
                    _ => w(DistributionEval::var("x", x)),
                }
            })
        }
        38 => {
            use measures_distributions::distributions::final_tagless::patterns as pt;
            use symbolic_math::final_tagless::{DirectEval, PrettyPrint};
            let (a, b, a2, b2) = (fin(a), pos(b), pos(a2), pos(b2));
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                let x = xs[0];
                match m % 8 {
                    0 => w(pt::normal_log_density::<DirectEval>(x, a, b)),
                    1 => w(pt::standard_normal_log_density::<DirectEval>(x)),
                    2 => w(pt::exponential_log_density::<DirectEval>(x, a2)),
                    3 => w(pt::gamma_log_density::<DistributionEval>(x, a2, b2)),
                    4 => w(pt::cauchy_log_density::<DistributionEval>(x, a, b)),
                    5 => w(pt::normal_log_density::<DistributionEval>(x, a, b)),
                    6 => {
                        let s = pt::normal_log_density::<PrettyPrint>(format!("{x:?}"), format!("{a:?}"), format!("{b:?}"));
                        s.bytes().map(|b| b as u64).collect()
                    }
                    _ => w(pt::exponential_log_density::<DistributionEval>(x, b2)),
                }
            })
        }
        39 => {
            use measures_exponential_family::final_tagless::{ExpFamEval, ExponentialFamilyExpr as E};
            use symbolic_math::final_tagless::DirectEval;
            let q2 = q.clone();
            let p2 = p.to_vec();
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                let n = xs.len().min(p2.len());
                match m % 8 {
                    0 => w(ExpFamEval::dot_product_array(&p2, &xs)),
                    1 => w(ExpFamEval::sum_stats_array(&[&xs[..n], &p2[..n]])),
                    2 => w(<DirectEval as E>::dot_product::<f64>(&p2[..n], &xs[..n])),
                    3 => w(<DirectEval as E>::log_sum_exp::<f64>(&xs)),
                    4 => w((<DirectEval as E>::logistic::<f64>(xs[0]), <DirectEval as E>::softplus::<f64>(xs[0]))),
                    5 => w(<DirectEval as E>::sum_sufficient_stats::<f64>(&[xs[..n].to_vec(), p2[..n].to_vec()])),
                    6 => w(<DirectEval as E>::iid_exp_fam_log_density::<f64>(&p2[..n], &xs[..n], 0.5, 3.0, -1.25)),
                    _ => w(<ExpFamEval as E>::exp_fam_log_density::<f64>(&p2[..n], &xs[..n], par(&q2, 0), 0.25)),
                }
            })
        }
        40 => {
            let d = CountingMeasure::<u64>::new();
            let l = LebesgueMeasure::<f64>::new();
            let n = nor!(a, b);
            let p = Poisson::new(pos(a2));
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                let k = u64::of(xs[0]);
                match m % 4 {
                    0 => { let y: f64 = n.log_density().wrt(l.clone()).at(&xs[0]); w(y) }
                    1 => { let y: f64 = p.log_density().wrt(d.clone()).at(&k); w(y) }
                    2 => { let y: f64 = l.log_density_wrt_root(&xs[0]); w(y) }
                    _ => { let y: f64 = p.log_density().wrt(FactorialMeasure::<f64>::new()).at(&k); w(y) }
                }
            })
        }
        41 => {
            // relative densities between different families
            let (n, c, s, g) = (nor!(a, b), Cauchy::new(fin(a2), pos(b2)), StudentT::new(pos(a)), Gamma::new(pos(a2), pos(b)));
            Box::new(move |m, v| {
                let x = &pts::<f64>(v)[0];
                match m % 5 {
                    0 => { let y: f64 = n.log_density().wrt(c.clone()).at(x); w(y) }
                    1 => { let y: f64 = c.log_density().wrt(n.clone()).at(x); w(y) }
                    2 => { let y: f64 = s.log_density().wrt(n.clone()).at(x); w(y) }
                    3 => { let y: f64 = g.log_density().wrt(n.clone()).at(x); w(y) }
                    _ => { let y: f64 = (n.clone(), g.clone()).log_density_wrt_shared_root(x); w(y) }
                }
            })
        }
        42 => {
            let d = <Normal<f64> as ExponentialFamily<f64, f64>>::from_natural([fin(a), -pos(b)]);
            let e = <Normal<f64> as ExponentialFamily<f64, f64>>::from_natural([fin(a2), -pos(b2)]);
            lebesgue!(f64, f64, d.clone(), e.clone())
        }
        43 => {
            let (g, g2) = (Gamma::from_shape_scale(pos(a), pos(b)), Gamma::from_shape_scale(pos(a2), pos(b2)));
            let (be, ch, ex) = (Beta::new(pos(a), pos(b)), ChiSquared::new(pos(a)), Exponential::new(pos(b)));
            let (bi, ge, nb) = (Binomial::new(count(a), prob(b)), Geometric::new(prob(b)), NegativeBinomial::new(count(a), prob(b)));
            Box::new(move |_, v| {
                let x = &pts::<f64>(v)[0];
                let (y, z): (f64, f64) = (g.log_density_wrt_root(x), g2.log_density_wrt_root(x));
                w(vec![
                    y, z, g.mean(), g.variance(), g.scale(), be.mean(), be.variance(), ch.mean(), ch.variance(),
                    ch.shape(), ex.mean(), ex.variance(), bi.mean(), bi.variance(), bi.log_odds(), ge.mean(),
                    ge.variance(), nb.mean(), nb.variance(), nb.log_odds(),
                ])
            })
        }
        44 => {
            // what StdNormal offers
            let d = StdNormal::<f64>::new();
            let f = generate_zero_overhead_exp_fam::<_, f64, f64>(d.clone());
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                match m % 4 {
                    0 => { let y: f64 = d.exp_fam_log_density(&xs[0]); w(y) }
                    1 => w(f(&xs[0])),
                    2 => { let y: f64 = IID::new(d.clone()).iid_log_density(&xs); w(y) }
                    _ => { let y: (_, f64) = ExponentialFamily::<f64, f64>::natural_and_log_partition(&d); w(y) }
                }
            })
        }
        46 => {
            // the exponential family of categories
            let of = |p: &[f64]| {
                let n = p.len().clamp(1, 40);
                let v: Vec<f64> = (0..n).map(|i| pos(par(p, i))).collect();
                let s: f64 = v.iter().sum();
                Categorical::new(v.iter().map(|x| x / s).collect())
            };
            let (c, d) = (of(p), of(&q));
            let n = count(a) as usize % 9 + 1;
            let etas: Vec<f64> = q.iter().take(5).map(|x| fin(*x).clamp(-30.0, 30.0)).collect();
            Box::new(move |m, v| {
                let xs = pts::<usize>(v);
                let x = &xs[0];
                match m % 8 {
                    0 => { let y: f64 = c.exp_fam_log_density(x); w((y, d.in_support(*x))) }
                    1 => w(ExponentialFamily::<usize, f64>::natural_and_log_partition(&c)),
                    2 => w(ExponentialFamily::<usize, f64>::sufficient_statistic(&d, x)),
                    3 => w(vec![c.mean(), c.variance(), d.mean(), d.variance(), c.num_categories() as f64]),
                    4 => { let u = Categorical::<f64>::uniform(n); let y: f64 = u.log_density_wrt_root(x); w((y, u.mean())) }
                    5 => {
                        let e = <Categorical<f64> as ExponentialFamily<usize, f64>>::from_natural(etas.clone());
                        let y: f64 = e.log_density_wrt_root(x);
                        w((y, e.probs))
                    }
                    6 => { let y: f64 = LogDensityBuilder::<usize>::log_density(&c).at(x); w(y) }
                    _ => { let y: f64 = LogDensityBuilder::<usize>::log_density(&c).wrt(d.clone()).at(x); w(y) }
                }
            })
        }
        47 => {
            // made from natural parameters
            let ex = <Exponential<f64> as ExponentialFamily<f64, f64>>::from_natural([-pos(a)]);
            let ga = <Gamma<f64> as ExponentialFamily<f64, f64>>::from_natural([pos(a) - 0.5, -pos(b)]);
            let be = <Beta<f64> as ExponentialFamily<f64, f64>>::from_natural([pos(a) - 0.5, pos(b) - 0.5]);
            let ch = <ChiSquared<f64> as ExponentialFamily<f64, f64>>::from_natural([pos(a2), -0.5]);
            let po = <Poisson<f64> as ExponentialFamily<u64, f64>>::from_natural([fin(a2).clamp(-30.0, 30.0)]);
            let ge = <Geometric<f64> as ExponentialFamily<u64, f64>>::from_natural([-pos(b2).min(30.0)]);
            let br = <Bernoulli<f64> as ExponentialFamily<u8, f64>>::from_natural([fin(b).clamp(-30.0, 30.0)]);
            Box::new(move |m, v| {
                let x = pts::<f64>(v)[0];
                let k = u64::of(x);
                let y: f64 = match m % 8 {
                    0 => ex.log_density_wrt_root(&x),
                    1 => ga.log_density_wrt_root(&x),
                    2 => be.log_density_wrt_root(&x),
                    3 => ch.log_density_wrt_root(&x),
                    4 => po.exp_fam_log_density(&k),
                    5 => ge.exp_fam_log_density(&k),
                    6 => br.exp_fam_log_density(&(k as u8)),
                    _ => return w(vec![br.mean(), br.variance(), br.log_odds(), ge.mean(), ge.failure_prob(), ex.mean(), ga.mean()]),
                };
                w(y)
            })
        }
        48 => {
            // defaults, supports and root measures
            let (n, c, s, z) = (nor!(a, b), Cauchy::new(fin(a), pos(b)), StudentT::new(pos(a)), StdNormal::<f64>::new());
            Box::new(move |m, v| {
                let x = pts::<f64>(v)[0];
                match m % 5 {
                    0 => {
                        let y: f64 = Normal::<f64>::default().log_density_wrt_root(&x);
                        let u: f64 = Cauchy::<f64>::default().log_density_wrt_root(&x);
                        let t: f64 = Cauchy::<f64>::standard().log_density_wrt_root(&x);
                        w(vec![y, u, t])
                    }
                    1 => {
                        let y: f64 = Exponential::<f64>::default().log_density_wrt_root(&x);
                        let u: f64 = Gamma::<f64>::default().log_density_wrt_root(&x);
                        let t: f64 = Beta::<f64>::default().log_density_wrt_root(&x);
                        w(vec![y, u, t])
                    }
                    2 => {
                        let y: f64 = ChiSquared::<f64>::default().log_density_wrt_root(&x);
                        let u: f64 = StudentT::<f64>::default().log_density_wrt_root(&x);
                        let t: f64 = Geometric::<f64>::default().exp_fam_log_density(&u64::of(x));
                        let r: f64 = Bernoulli::<f64>::default().exp_fam_log_density(&(u64::of(x) as u8));
                        w(vec![y, u, t, r])
                    }
                    3 => w(vec![
                        n.in_support(x), c.in_support(x), s.in_support(x), Measure::<f64>::in_support(&z, x),
                        n.root_measure().in_support(x), c.root_measure().in_support(x), s.root_measure().in_support(x),
                        Measure::<f64>::root_measure(&z).in_support(x),
                    ]),
                    _ => w(vec![c.location(), c.scale(), s.nu()]),
                }
            })
        }
        49 => {
            // batches as measures
            use measures_exponential_family::exponential_family::iid::IIDBaseMeasure;
            let (n, g, po) = (IID::new(nor!(a, b)), IID::new(Gamma::new(pos(a), pos(b))), IID::new(Poisson::new(pos(a2))));
            let (bi, nb) = (IID::new(Binomial::new(count(a), prob(b))), IID::new(NegativeBinomial::new(count(a), prob(b))));
            let mine = IID::new(Mine { a, b });
            let eta = [fin(a2), -pos(b2)];
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                let us: Vec<u64> = xs.iter().map(|x| u64::of(*x)).collect();
                match m % 8 {
                    0 => w(vec![
                        Measure::<Vec<f64>>::in_support(&n, xs.clone()), Measure::<Vec<f64>>::in_support(&g, xs.clone()),
                        Measure::<Vec<u64>>::in_support(&po, us.clone()), Measure::<Vec<u64>>::in_support(&bi, us.clone()),
                        Measure::<Vec<u64>>::in_support(&nb, us.clone()),
                    ]),
                    1 => {
                        let e = <IID<Normal<f64>> as ExponentialFamily<Vec<f64>, f64>>::from_natural(eta);
                        let y: f64 = e.exp_fam_log_density(&xs);
                        w(y)
                    }
                    2 => {
                        let e = ExponentialFamily::<Vec<f64>, f64>::base_measure(&g);
                        let y: f64 = e.log_density_wrt_root(&xs);
                        w((y, Measure::<Vec<f64>>::in_support(&e, xs.clone())))
                    }
                    3 => {
                        let e = IIDBaseMeasure::new(FactorialMeasure::<f64>::new());
                        let y: f64 = e.log_density_wrt_root(&us);
                        w(y)
                    }
                    4 => { let y: f64 = bi.iid_log_density(&us); let z: f64 = nb.iid_log_density(&us); w((y, z)) }
                    5 => { let y: f64 = mine.iid_log_density_fallback(&xs); w(y) }
                    6 => { let y: f64 = n.iid_log_density_fallback(&xs); let z: f64 = n.iid_log_density(&xs); w((y, z)) }
                    _ => w(vec![
                        Measure::<Vec<f64>>::root_measure(&n).in_support(xs.clone()),
                        Measure::<Vec<u64>>::root_measure(&po).in_support(us.clone()),
                        Measure::<Vec<u64>>::root_measure(&bi).in_support(us.clone()),
                        Measure::<Vec<u64>>::root_measure(&nb).in_support(us.clone()),
                    ]),
                }
            })
        }
        50 => {
            use measures_distributions::distributions::final_tagless::{patterns as pt, DistributionMathExpr as X};
            use symbolic_math::final_tagless::{DirectEval, MathExpr};
            type E = DistributionEval;
            let (a, b, a2, b2) = (pos(a), pos(b), pos(a2), fin(b2));
            Box::new(move |m, v| {
                let x = pts::<f64>(v)[0];
                match m % 9 {
                    0 => w((E::pow::<f64>(x, a), <E as MathExpr>::exp::<f64>(x))),
                    1 => w((<E as MathExpr>::sqrt::<f64>(x), <E as MathExpr>::sin::<f64>(x))),
                    2 => w((<E as MathExpr>::cos::<f64>(x), <E as MathExpr>::ln::<f64>(x))),
                    3 => w(pt::beta_log_density::<E>(x, a, b)),
                    4 => w(pt::student_t_log_density::<E>(x, a)),
                    5 => w((pt::exponential_log_density::<E>(x, a), pt::cauchy_log_density::<DirectEval>(x, b2, a2))),
                    6 => w(<E as X>::log_beta::<f64>(a, b)),
                    7 => w(<E as X>::erfc::<f64>(x)),
                    _ => w(E::var("x", x)),
                }
            })
        }
        51 => {
            use measures_exponential_family::final_tagless::patterns as pt;
            use measures_exponential_family::ExpFamEval as E;
            use symbolic_math::final_tagless::{DirectEval, MathExpr, PrettyPrint};
            let (a, b, a2) = (fin(a), pos(b), pos(a2));
            Box::new(move |m, v| {
                let x = pts::<f64>(v)[0];
                match m % 9 {
                    0 => w(pt::standard_normal_log_density::<E>(x)),
                    1 => w(pt::normal_log_density::<E>(x, a, b)),
                    2 => w(pt::poisson_log_density::<E>(x, a2)),
                    3 => w(pt::exponential_log_density::<E>(x, b)),
                    4 => w((pt::normal_log_density::<DirectEval>(x, a, b), pt::poisson_log_density::<DirectEval>(x, b))),
                    5 => w((<E as MathExpr>::pow::<f64>(x, a), <E as MathExpr>::exp::<f64>(x))),
                    6 => w((<E as MathExpr>::sqrt::<f64>(x), <E as MathExpr>::sin::<f64>(x))),
                    7 => w((<E as MathExpr>::cos::<f64>(x), E::var("x", a))),
                    _ => {
                        let s = pt::poisson_log_density::<PrettyPrint>(format!("{x:?}"), format!("{a:?}"));
                        s.bytes().map(|b| b as u64).collect()
                    }
                }
            })
        }
        52 => {
            use measures_core::{float_constant, safe_convert, safe_convert_or, safe_float_convert, DotProduct};
            use measures_exponential_family::exponential_family::array_utils::{add_arrays, default_array, sum_arrays};
            use measures_exponential_family::SumSufficientStats;
            let (p3, q3) = ([a, b, 0.5], [a2, b2, -0.25]);
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                match m % 7 {
                    0 => w(add_arrays(p3, q3)),
                    1 => w(sum_arrays([p3, q3, default_array()].into_iter())),
                    2 => w(p3.dot(&q3)),
                    3 => w(<[f64; 2]>::sum_sufficient_stats(xs.iter().map(|x| [*x, x * x]))),
                    4 => w((safe_convert::<f64, f32>(xs[0]), safe_convert_or::<f64, f64>(xs[0], 0.5))),
                    5 => w((safe_float_convert::<f64, f32>(xs[0]).unwrap_or(0.5), float_constant::<f32>(xs[0]))),
                    _ => w((xs.clone().dot(&xs), float_constant::<f64>(xs[0]))),
                }
            })
        }
        53 => {
            // pushforwards and mixtures of counts, products of many factors
            let e = MixtureMeasure::<_, f64>::new(vec![Geometric::new(prob(a)), Geometric::new(prob(b)), Geometric::new(prob(a2))], vec![0.25, 0.25, 0.5]);
            let d = WeightedMeasure::<_, f64, u64>::new(e.clone(), fin(b2));
            just(plain!(u64, f64, d.clone(), WeightedMeasure::<_, f64, u64>::new(e, fin(a2))))
        }
        54 => {
            use measures_exponential_family::exponential_family::jit::StaticInlineJITCompiler as J;
            // many compiled closures alive at once
            let fs: Vec<_> = (0..9).map(|i| J::compile_normal(fin(par(p, i)), pos(par(&q, i)))).collect();
            let gs: Vec<_> = (0..9).map(|i| J::compile_exponential(pos(par(&q, i)))).collect();
            Box::new(move |m, v| {
                let xs = pts::<f64>(v);
                let i = m as usize % 9;
                w(xs.iter().map(|x| (fs[i].call(*x), gs[(i + 1) % 9].call(*x))).collect::<Vec<_>>())
            })
        }
        _ => {
            // a long batch: the same points over and over
            let (n, po) = (nor!(a, b), Poisson::new(pos(a2)));
            let g = Gamma::new(pos(a2), pos(b2));
            Box::new(move |m, v| {
                let k = 1 + (m as usize % 7) * 50;
                let xs: Vec<f64> = v.iter().cycle().take(k).copied().collect();
                let us: Vec<u64> = xs.iter().map(|x| u64::of(*x) % 500).collect();
                let a: f64 = IID::new(n.clone()).iid_log_density(&xs);
                let b: f64 = IID::new(po.clone()).iid_log_density(&us);
                let c: f64 = IID::new(g.clone()).iid_log_density(&xs);
                w(vec![a, b, c])
            })
        }
    }
}

// ------------------------------------------------------------------ execution

fn fv(p: &Plan, i: usize) -> Vec<f64> {
    p.vals.get(i).map(|v| v.iter().map(|x| x.0).collect()).unwrap_or_default()
}
/// An answer: words, or the text of a panic of the library itself.
type Ans = Result<Vec<u64>, String>;

fn run(f: &dyn Fn(i64, &[f64]) -> Vec<u64>, m: i64, v: &[f64]) -> Result<Ans, ()> {
    match guarded(|| f(m, v)) {
        Ok(w) => Ok(Ok(w)),
        Err(Stop::Panicked(t)) => Ok(Err(t)),
        Err(Stop::Killed) => Err(()),
    }
}
fn build(kind: i64, v: &[f64]) -> Result<Result<Shared, String>, ()> {
    match guarded(|| make(kind, v)) {
        Ok(e) => Ok(Ok(Shared(e))),
        Err(Stop::Panicked(t)) => Ok(Err(t)),
        Err(Stop::Killed) => Err(()),
    }
}
/// The same first thing in a fresh process.
fn alone(kind: i64, pv: &[f64], m: i64, v: &[f64]) -> Option<Ans> {
    let r = fresh(|| {
        let a: Ans = match guarded(|| make(kind, pv)(m, v)) {
            Ok(w) => Ok(w),
            Err(Stop::Panicked(t)) => Err(t),
            Err(Stop::Killed) => Err("killed".into()),
        };
        match a {
            Ok(w) => std::iter::once(0).chain(w).collect(),
            Err(t) => std::iter::once(1).chain(t.bytes().map(|b| b as u64)).collect(),
        }
    });
    match r {
        Ok(w) if w.first() == Some(&0) => Some(Ok(w[1..].to_vec())),
        Ok(w) if !w.is_empty() => Some(Err(w[1..].iter().map(|b| *b as u8 as char).collect())),
        Err(t) if t == "killed" => None,
        Err(t) => Some(Err(t)),
        Ok(_) => Some(Err("no answer".into())),
    }
}

type Key = (i64, usize, i64, usize);
struct Slot {
    kind: i64,
    pv: usize,
    obj: Option<Shared>,
}
type Slots = BTreeMap<i64, Arc<Slot>>;

/// Which (object, question) pairs the plan asks about.
fn questions(p: &Plan) -> Vec<Key> {
    let mut out = vec![];
    let mut slots: BTreeMap<i64, (i64, usize)> = BTreeMap::new();
    let mut go = |ops: &Vec<Op>, slots: &mut BTreeMap<i64, (i64, usize)>| {
        for o in ops {
            match o.0.as_str() {
                "mk" => {
                    slots.insert(o.a(0), (o.a(1), o.u(2)));
                }
                "drop" => {
                    slots.remove(&o.a(0));
                }
                "q" | "qp" | "qy" => {
                    if let Some((k, v)) = slots.get(&o.a(0)) {
                        out.push((*k, *v, o.a(1), o.u(2)));
                    }
                }
                _ => {}
            }
        }
    };
    go(&p.pre, &mut slots);
    for t in &p.threads {
        let mut s = slots.clone();
        go(t, &mut s);
    }
    go(&p.post, &mut slots);
    out.sort();
    out.dedup();
    out
}

struct Cx {
    p: Plan,
    refs: BTreeMap<Key, Ans>,
}
impl Cx {
    fn text(a: &Ans) -> String {
        match a {
            Ok(w) => format!("{:?}", w.iter().take(8).map(|b| show(*b)).collect::<Vec<_>>()),
            Err(t) => format!("panic {t:?}"),
        }
    }
    /// false: this thread is to die.
    fn step(&self, slots: &mut Slots, o: &Op, out: &mut Outcome) -> bool {
        match o.0.as_str() {
            "mk" => match build(o.a(1), &fv(&self.p, o.u(2))) {
                Ok(r) => {
                    out.count("object made", 1);
                    slots.insert(o.a(0), Arc::new(Slot { kind: o.a(1), pv: o.u(2), obj: r.ok() }));
                }
                Err(()) => return false,
            },
            "drop" => {
                slots.remove(&o.a(0));
            }
            "sweep" => {
                if let Some(s) = slots.get(&o.a(0)).cloned() {
                    if let Some(f) = &s.obj {
                        for i in 0..o.a(3) {
                            let x = o.a(2) as f64 / 8.0 + i as f64 * o.a(4) as f64 / 64.0;
                            if run(&f.0, o.a(1), &[x, x + 1.0]).is_err() {
                                return false;
                            }
                        }
                        out.count("evaluation in a sweep", o.a(3) as u64);
                    }
                }
            }
            "breed" => {
                for i in 0..o.a(1) {
                    let f = i as f64;
                    let v = [0.5 + f / 16.0, 1.0 + f / 32.0, 1.0, 1.0, 1.0 + f / 8.0, 0.25 + f / 64.0];
                    match build(o.a(0), &v) {
                        Ok(Ok(e)) => {
                            if run(&e.0, i % 5, &[1.0, 2.0]).is_err() || run(&e.0, 11, &[1.0, 2.0]).is_err() {
                                return false;
                            }
                        }
                        Ok(Err(_)) => {}
                        Err(()) => return false,
                    }
                }
                out.count("object bred", o.a(1) as u64);
            }
            "q" | "qp" | "qy" => {
                let Some(s) = slots.get(&o.a(0)).cloned() else { return true };
                let Some(want) = self.refs.get(&(s.kind, s.pv, o.a(1), o.u(2))) else { return true };
                let v = fv(&self.p, o.u(2));
                let Some(f) = &s.obj else {
                    if want.is_ok() {
                        out.fail("density", format!("object of kind {} could not be made here, but in a fresh process it can", s.kind));
                    }
                    return true;
                };
                if o.0 == "qp" {
                    LEFT.set(Some(o.a(3)));
                }
                MODE.set(if o.0 == "qy" { o.a(3) } else { 0 });
                let got = run(&f.0, o.a(1), &v);
                LEFT.set(None);
                MODE.set(0);
                DEPTH.set(0);
                let fired = FIRED.replace(0);
                let Ok(got) = got else { return false };
                out.evals += 1;
                if fired > 0 {
                    out.count("fault: user code panicked in an evaluation", 1);
                    if got != Err(BOOM.to_string()) {
                        out.fail("density", format!(
                            "user code panicked inside {o:?} of kind {}, and the evaluation gave {}", s.kind, Cx::text(&got)));
                    }
                    return true;
                }
                if let Ok(w) = &got {
                    w.iter().for_each(|x| out.mix(*x));
                }
                out.count(if got.is_ok() { "answer compared" } else { "library panic compared" }, 1);
                if &got != want {
                    out.fail("density", format!(
                        "kind {} with parameters {:?}: method {} at {:?} gave {}; first thing in a fresh process it gives {}",
                        s.kind, fv(&self.p, s.pv), o.a(1), v, Cx::text(&got), Cx::text(want)));
                }
            }
            _ => {}
        }
        true
    }
}

pub fn exec(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let mut refs = BTreeMap::new();
    for k in questions(p) {
        if let Some(a) = alone(k.0, &fv(p, k.1), k.2, &fv(p, k.3)) {
            refs.insert(k, a);
        }
    }
    out.count("fresh reference process", refs.len() as u64);
    let cx = Arc::new(Cx { p: p.clone(), refs });
    let mut slots: Slots = BTreeMap::new();
    for o in &p.pre {
        cx.step(&mut slots, o, &mut out);
        if out.violation.is_some() {
            return out;
        }
    }
    if !p.threads.is_empty() {
        struct Sw(Slots);
        unsafe impl Send for Sw {}
        unsafe impl Sync for Sw {}
        let shared = Arc::new(Sw(slots.clone()));
        let outs: Arc<Log<Outcome>> = Log::new();
        let (o2, c2) = (outs.clone(), cx.clone());
        let ok = sim_phase(p, p.threads.len(), &mut out, move |t| {
            let shared = &shared;
            let mut mine = shared.0.clone();
            let mut o = Outcome::default();
            let mut alive = true;
            for x in &c2.p.threads[t] {
                op_point();
                if !c2.step(&mut mine, x, &mut o) {
                    alive = false;
                    break;
                }
            }
            o2.push(o);
            if !alive {
                std::panic::resume_unwind(Box::new(rt::SimKill));
            }
        });
        for o in outs.take() {
            for (k, n) in &o.counters {
                out.count(k, *n);
            }
            out.evals += o.evals;
            out.mix(o.hist);
            if let Some(v) = o.violation {
                out.fail(&v.class, v.msg);
            }
        }
        if !ok || out.violation.is_some() {
            return out;
        }
    }
    for o in &p.post {
        cx.step(&mut slots, o, &mut out);
        if out.violation.is_some() {
            return out;
        }
    }
    out.nontrivial = out.evals > 2;
    out
}

// ------------------------------------------------------------------ generation

/// Points and parameters: small pools, so that things repeat and nearly repeat.
pub fn rvals(r: &mut Rng, n: usize) -> Vec<Vec<F>> {
    let one = |r: &mut Rng| -> f64 {
        match r.below(10) {
            0 => *r.pick(SPECIAL),
            1..=3 => *r.pick(TAME),
            4 | 5 => r.range(0, 40) as f64,
            6 => r.range(0, 40) as f64 + 0.5,
            7 => r.range(0, 2000) as f64,
            _ => r.unit() * 4.0,
        }
    };
    let mut v: Vec<Vec<F>> = vec![];
    for _ in 0..n {
        if !v.is_empty() && r.chance(1, 2) {
            let mut t = r.pick(&v).clone();
            let i = r.us(t.len());
            let x = t[i].0;
            t[i] = F(match r.below(13) {
                10 => x.abs().floor() + *r.pick(&[256.0, 512.0, 1024.0, 4096.0, 65536.0]),
                11 => x.abs().floor() + *r.pick(&[2147483648.0, 4294967296.0, 1099511627776.0]),
                12 => x * *r.pick(&[2.0, 10.0, 0.5, -1.0, 1e3, 1e-3, 1024.0]),
                0 => f64::from_bits(x.to_bits() ^ 1),
                1 => -x,
                2 => x + 1e-9,
                3 => x * (1.0 + 1e-13),
                4 => x + 1e-4,
                5 => x + 1.0,
                6 => x as f32 as f64,
                7 => x.round(),
                8 => (x * 1000.0).round() / 1000.0,
                _ => one(r),
            });
            if r.chance(1, 6) {
                t.reverse();
            }
            v.push(t);
        } else if r.chance(1, 20) {
            // a long sample (without the special values, of which one would settle its sum)
            let m = *r.pick(&[16usize, 33, 70, 140, 300, 1100]);
            let whole = r.chance(1, 2);
            v.push((0..m).map(|_| F(if whole { r.range(0, 40) as f64 } else { r.unit() * 4.0 })).collect());
        } else {
            let m = *r.pick(&[1usize, 2, 2, 3, 5, 6, 8]);
            v.push((0..m).map(|_| F(one(r))).collect());
        }
    }
    v
}

pub fn generate(prop: &str, tier: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new(prop, "dens", seed);
    p.hash_seed = r.next();
    p.clock = rclock(&mut r);
    let nv = r.range(3, 12) as usize;
    p.vals = rvals(&mut r, nv);
    // a few kinds per run: state kept per type or per family then shows
    let nk = r.range(1, 4);
    let kinds: Vec<i64> = (0..nk).map(|_| r.range(0, KINDS - 1)).collect();
    let ns = r.range(1, 5);
    let methods: Vec<i64> = (0..r.range(1, 6)).map(|_| r.range(0, METHODS - 1)).collect();
    let mk = |r: &mut Rng, s: i64| op("mk", &[s, *r.pick(&kinds), r.range(0, nv as i64 - 1)]);
    let ask = |r: &mut Rng, threads: bool| -> Op {
        let s = r.range(0, ns - 1);
        let m = *r.pick(&methods);
        let v = r.range(0, nv as i64 - 1);
        match r.below(10) {
            0 | 1 => op("qp", &[s, m, v, r.range(0, 5)]),
            2 | 3 => op("qy", &[s, m, v, if threads { r.range(1, 3) } else { 2 }]),
            _ => op("q", &[s, m, v]),
        }
    };
    for s in 0..ns {
        let o = mk(&mut r, s);
        p.pre.push(o);
    }
    for _ in 0..r.range(4, 30) {
        let o = match r.below(30) {
            0 => op("drop", &[r.range(0, ns - 1)]),
            1..=3 => {
                let s = r.range(0, ns - 1);
                mk(&mut r, s)
            }
            4 => op("sweep", &[r.range(0, ns - 1), *r.pick(&methods), r.range(0, 400), *r.pick(&[3, 17, 33, 65, 129, 257, 1025, 5000]), *r.pick(&[1, 8, 64, 64])]),
            5 => op("breed", &[*r.pick(&kinds), *r.pick(&[3, 9, 17, 33, 65, 129, 257, 1025])]),
            _ => ask(&mut r, false),
        };
        p.pre.push(o);
    }
    if i % 2 == 0 {
        let n = r.range(2, 4);
        for _ in 0..n {
            let m = r.range(2, 8);
            p.threads.push(
                (0..m)
                    .map(|_| {
                        if r.chance(1, 8) {
                            let s = r.range(0, ns - 1);
                            mk(&mut r, s)
                        } else {
                            ask(&mut r, true)
                        }
                    })
                    .collect(),
            );
        }
        p.sched = rsched(&mut r, 60);
        p.alloc_permille = *r.pick(&[0, 20, 200]);
        p.spurious_permille = *r.pick(&[0, 30]);
        for _ in 0..r.range(0, 2) {
            let thread = r.us(n as usize);
            let point = r.below(20);
            p.faults.push(if r.chance(1, 2) {
                Fault::Kill { thread, point }
            } else {
                Fault::Stall { thread, point, steps: r.below(40) + 5 }
            });
        }
        for _ in 0..r.range(0, 8) {
            let o = ask(&mut r, false);
            p.post.push(o);
        }
    }
    let _ = tier;
    p
}

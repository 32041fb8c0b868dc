//! C13, C14: cached log-densities under histories of queries, failing user code, nested queries,
//! colliding points and jumping clocks.
//!
//! Verbs: `mk kind` make a cache over a probe (kind: value function and nesting); `q c pt` query;
//! `bulk c from n step` many queries; `qf c pt what nth` a query during which user code fails
//! (what: 0 evaluation at entry, 1 evaluation at its end, 2 K::clone, 3 K::hash, 4 K::eq,
//! 5 value clone); `meas c` the accessors; `real m x` a library measure, cached and not.
use super::pool::*;
use crate::engine::*;
use crate::plan::*;
use measures_core::{
    CachedLogDensity, EvaluateAt, LogDensityBuilder, LogDensityCaching, LogDensityTrait, Measure,
    MeasureMarker,
};
use measures_core::types::False;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ failing user code

#[derive(Default)]
struct Fail {
    /// per kind of user code: how many more calls go well (None: all)
    left: [Cell<Option<i64>>; 6],
    fired: Cell<u64>,
    modulus: Cell<i64>,
}
thread_local! { static FAIL: Fail = Fail::default(); }
const BOOM: &str = "injected failure of user code";
fn user_code(what: usize) {
    FAIL.with(|f| {
        if let Some(n) = f.left[what].get() {
            if n <= 0 {
                f.left[what].set(None);
                f.fired.set(f.fired.get() + 1);
                std::panic::panic_any(BOOM.to_string());
            }
            f.left[what].set(Some(n - 1));
        }
    })
}
fn disarm_user() -> u64 {
    FAIL.with(|f| {
        for l in &f.left {
            l.set(None);
        }
        f.fired.replace(0)
    })
}

// ------------------------------------------------------------------ points and values

pub trait Point: Clone + Hash + Eq + 'static {
    fn of(id: i64) -> Self;
    fn id(&self) -> i64;
}
/// Equality by id; hashing into as few classes as the plan says.
pub struct Kc(i64);
impl Clone for Kc {
    fn clone(&self) -> Self {
        user_code(2);
        Kc(self.0)
    }
}
impl Hash for Kc {
    fn hash<H: Hasher>(&self, h: &mut H) {
        user_code(3);
        let m = FAIL.with(|f| f.modulus.get());
        h.write_i64(if m <= 0 { self.0 } else { self.0.rem_euclid(m) });
    }
}
impl PartialEq for Kc {
    fn eq(&self, o: &Kc) -> bool {
        user_code(4);
        self.0 == o.0
    }
}
impl Eq for Kc {}
impl Point for Kc {
    fn of(id: i64) -> Self {
        Kc(id)
    }
    fn id(&self) -> i64 {
        self.0
    }
}
impl Point for u64 {
    fn of(id: i64) -> Self {
        // neighbouring ids differ only in the top bits, or only in the bottom ones
        if id % 2 == 0 { (id as u64) << 40 } else { id as u64 }
    }
    fn id(&self) -> i64 {
        if *self % 2 == 1 { *self as i64 } else { (*self >> 40) as i64 }
    }
}
impl Point for String {
    fn of(id: i64) -> Self {
        format!("{}{id}", "p".repeat(40 + (id % 2) as usize * 30))
    }
    fn id(&self) -> i64 {
        self.trim_start_matches('p').parse().unwrap()
    }
}
impl Point for (i32, i32) {
    fn of(id: i64) -> Self {
        ((id % 1000) as i32, (id / 1000) as i32)
    }
    fn id(&self) -> i64 {
        self.0 as i64 + self.1 as i64 * 1000
    }
}

pub trait Value: Clone + 'static {
    fn of(x: f64) -> Self;
    fn word(&self) -> u64;
    fn num(&self) -> f64;
}
impl Value for f64 {
    fn of(x: f64) -> Self {
        x
    }
    fn word(&self) -> u64 {
        bits(*self)
    }
    fn num(&self) -> f64 {
        *self
    }
}
impl Value for f32 {
    fn of(x: f64) -> Self {
        x as f32
    }
    fn word(&self) -> u64 {
        bits(*self as f64)
    }
    fn num(&self) -> f64 {
        *self as f64
    }
}
pub struct Vc(f64);
impl Clone for Vc {
    fn clone(&self) -> Self {
        user_code(5);
        Vc(self.0)
    }
}
impl Value for Vc {
    fn of(x: f64) -> Self {
        Vc(x)
    }
    fn word(&self) -> u64 {
        bits(self.0)
    }
    fn num(&self) -> f64 {
        self.0
    }
}

// ------------------------------------------------------------------ the wrapped log-density

#[derive(Clone)]
pub struct Probed(u64);
impl MeasureMarker for Probed {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl<T> Measure<T> for Probed {
    type RootMeasure = Probed;
    fn in_support(&self, _: T) -> bool {
        true
    }
    fn root_measure(&self) -> Probed {
        Probed(self.0 + 1)
    }
}

type Cache<K, V> = CachedLogDensity<Probe<K, V>, K, V>;
pub struct Probe<K: Point, V: Value> {
    kind: i64,
    m: Probed,
    b: Probed,
    evals: Rc<RefCell<Vec<i64>>>,
    me: Rc<Cell<*const Cache<K, V>>>,
}
impl<K: Point, V: Value> LogDensityTrait<K> for Probe<K, V> {
    type Measure = Probed;
    type BaseMeasure = Probed;
    fn measure(&self) -> &Probed {
        &self.m
    }
    fn base_measure(&self) -> &Probed {
        &self.b
    }
}
impl<K: Point, V: Value> EvaluateAt<K, V> for Probe<K, V> {
    fn at(&self, x: &K) -> V {
        let id = x.id();
        self.evals.borrow_mut().push(id);
        if self.evals.borrow().len() > 200_000 {
            std::panic::panic_any("200000 evaluations for one query".to_string());
        }
        user_code(0);
        let mut s = 0.0;
        for d in deps(self.kind, id) {
            let cache = unsafe { &*self.me.get() };
            if catches(self.kind) {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cache.at(&K::of(d))));
                s += match r {
                    Ok(v) => v.num(),
                    Err(e) if e.downcast_ref::<String>().map_or(false, |t| t == BOOM) => 0.5,
                    Err(e) => std::panic::resume_unwind(e),
                };
            } else {
                s += cache.at(&K::of(d)).num();
            }
        }
        user_code(1);
        V::of(own_value(self.kind, id) + s)
    }
}

/// Points an evaluation itself queries (always smaller: no cycles).
fn deps(kind: i64, id: i64) -> Vec<i64> {
    match kind % 6 {
        1 if id > 0 => vec![id - 1],
        2 if id > 1 => vec![id - 1, id - 2, id - 1],
        3 if id > 0 => vec![id / 2, id / 3],
        4 if id > 0 => vec![id - 1],
        _ => vec![],
    }
    .into_iter()
    .filter(|d| *d < id && id - 60 < 1_000_000_000)
    .collect()
}
fn catches(kind: i64) -> bool {
    kind % 6 == 4
}
fn own_value(kind: i64, id: i64) -> f64 {
    let nested = kind % 6 != 0 && kind % 6 != 5;
    if !nested {
        match (id + kind) % 11 {
            0 => return f64::NAN,
            1 => return f64::INFINITY,
            2 => return f64::NEG_INFINITY,
            3 => return -0.0,
            4 => return 0.0,
            _ => {}
        }
    }
    (id as f64) * 0.625 - (kind as f64) * 3.0 + 0.1
}

// ------------------------------------------------------------------ reference model

#[derive(Default, Clone)]
struct Model {
    known: BTreeMap<i64, f64>,
    maybe: BTreeSet<i64>,
    nested_hits: u64,
}
struct Boom;
impl Model {
    /// What a query does: `calls` receives the points evaluated; `fail` = (at end?, after n evaluations).
    fn query<V: Value>(
        &mut self,
        kind: i64,
        id: i64,
        calls: &mut Vec<i64>,
        fail: &mut [Option<i64>; 2],
    ) -> Result<f64, Boom> {
        if let Some(v) = self.known.get(&id) {
            return Ok(*v);
        }
        let mut hook = |w: usize, f: &mut [Option<i64>; 2]| -> Result<(), Boom> {
            if let Some(n) = f[w] {
                if n <= 0 {
                    f[w] = None;
                    return Err(Boom);
                }
                f[w] = Some(n - 1);
            }
            Ok(())
        };
        calls.push(id);
        hook(0, fail)?;
        let mut s = 0.0;
        for d in deps(kind, id) {
            match self.query::<V>(kind, d, calls, fail) {
                Ok(v) => s += V::of(v).num(),
                Err(Boom) if catches(kind) => s += 0.5,
                Err(b) => return Err(b),
            }
        }
        hook(1, fail)?;
        let v = V::of(own_value(kind, id) + s).num();
        self.known.insert(id, v);
        Ok(v)
    }
}

struct One<K: Point, V: Value> {
    cache: Box<Cache<K, V>>,
    kind: i64,
    evals: Rc<RefCell<Vec<i64>>>,
    model: Model,
}
struct World<K: Point, V: Value> {
    caches: Vec<One<K, V>>,
}

impl<K: Point, V: Value> World<K, V> {
    fn new() -> Self {
        World { caches: vec![] }
    }
    fn make(&mut self, kind: i64) {
        let evals = Rc::new(RefCell::new(vec![]));
        let me = Rc::new(Cell::new(std::ptr::null()));
        let n = self.caches.len() as u64;
        let p = Probe { kind, m: Probed(n * 10), b: Probed(n * 10 + 5), evals: evals.clone(), me: me.clone() };
        let cache: Box<Cache<K, V>> =
            Box::new(if n % 2 == 0 { CachedLogDensity::new(p) } else { p.cached_for::<V>() });
        me.set(&*cache);
        self.caches.push(One { cache, kind, evals, model: Model::default() });
    }

    fn query(&mut self, prop: &str, c: usize, id: i64, fail: Option<(usize, i64)>, out: &mut Outcome) {
        let n = self.caches.len();
        if n == 0 {
            return;
        }
        let w = &mut self.caches[c % n];
        // failures other than of the evaluation only where the order of events is simple
        let fail = match fail {
            Some((what, _)) if what >= 2 && !deps(w.kind, id).is_empty() => None,
            f => f,
        };
        w.evals.borrow_mut().clear();
        let before = w.model.clone_if(fail.is_some());
        let mut calls = vec![];
        let mut windows = [None, None];
        if let Some((what, nth)) = fail {
            if what < 2 {
                windows[what] = Some(nth);
            }
            FAIL.with(|f| f.left[what].set(Some(nth)));
        }
        let want = w.model.query::<V>(w.kind, id, &mut calls, &mut windows);
        let cache = &w.cache;
        let k = K::of(id);
        let got = guarded(|| cache.at(&k).word());
        let fired = disarm_user();
        let mut evals = std::mem::take(&mut *w.evals.borrow_mut());
        out.evals += 1;
        out.count("query", 1);
        out.count("inner evaluation", evals.len() as u64);
        if evals.is_empty() {
            out.count("answered from the cache", 1);
        }
        if evals.len() > 1 {
            out.count("nested query", 1);
        }
        let at = format!("cache {} (kind {}), point {id}", c % n, w.kind);
        if let (Some((what, _)), true) = (fail, fired > 0) {
            let name = ["evaluation fails at once", "evaluation fails at its end", "K::clone fails",
                "K::hash fails", "K::eq fails", "clone of the value fails"][what];
            out.count(&format!("fault: {name}"), fired);
            if what >= 2 {
                // the query failed in the cache's own use of the point: what was there stays
                let mut m = before.unwrap();
                match &got {
                    Ok(v) => {
                        if let Ok(x) = want {
                            if *v != V::of(x).word() {
                                out.fail("value", format!("{at}: {} after a failing user call was survived", show(*v)));
                            }
                        }
                        m.maybe.insert(id);
                    }
                    Err(Stop::Panicked(t)) if t == BOOM => {
                        m.maybe.insert(id);
                    }
                    Err(Stop::Panicked(t)) => {
                        out.fail("panic", format!("{at}: user code failed with {BOOM:?}, the caller saw {t:?}"));
                    }
                    Err(Stop::Killed) => {}
                }
                w.model = m;
                return;
            }
        }
        match (got, want) {
            (Ok(v), Ok(x)) => {
                out.mix(v);
                if v != V::of(x).word() {
                    out.fail("value", format!("{at}: {} but uncached {}", show(v), show(V::of(x).word())));
                }
            }
            (Ok(v), Err(_)) => out.fail("swallowed", format!(
                "{at}: the evaluation failed but the query answered {}", show(v))),
            (Err(Stop::Panicked(t)), Err(_)) => {
                out.mix(7);
                out.count("query failed with the evaluation", 1);
                if t != BOOM {
                    out.fail("panic", format!("{at}: the evaluation failed with {BOOM:?}, the caller saw {t:?}"));
                }
            }
            (Err(Stop::Panicked(t)), Ok(_)) => {
                out.fail("panic", format!("{at}: the query panicked with {t:?} although nothing failed"));
            }
            (Err(Stop::Killed), _) => {}
        }
        // evaluations: exactly the points that are not remembered
        if w.model.maybe.contains(&id) {
            if evals.is_empty() && calls == [id] {
                calls.clear();
            }
            if fired == 0 {
                w.model.maybe.remove(&id);
            }
        }
        evals.sort();
        calls.sort();
        if evals != calls {
            let cut = |v: &[i64]| format!("{:?}{}", &v[..v.len().min(12)], if v.len() > 12 { "..." } else { "" });
            out.fail("evaluations", format!(
                "{at}: evaluated {}, expected {} ({} points remembered before)",
                cut(&evals), cut(&calls), w.model.known.len()));
        }
        let _ = prop;
    }

    fn step(&mut self, p: &Plan, o: &Op, out: &mut Outcome) {
        FAIL.with(|f| f.modulus.set(p.knob("modulus")));
        match o.0.as_str() {
            "mk" => self.make(o.a(0)),
            "q" => self.query(&p.prop, o.u(0), o.a(1), None, out),
            "qf" => self.query(&p.prop, o.u(0), o.a(1), Some((o.u(2) % 6, o.a(3))), out),
            "bulk" => {
                for i in 0..o.a(2) {
                    self.query(&p.prop, o.u(0), o.a(1) + i * o.a(3), None, out);
                    if out.violation.is_some() {
                        return;
                    }
                }
            }
            "meas" => {
                let n = self.caches.len();
                if n > 0 {
                    let w = &self.caches[o.u(0) % n];
                    let i = (o.u(0) % n) as u64;
                    if w.cache.measure().0 != i * 10 || w.cache.base_measure().0 != i * 10 + 5 {
                        out.fail("measure", "the cached log-density names other measures than the wrapped one".into());
                    }
                }
            }
            "real" => real(o.a(0), o.a(1), out),
            _ => {}
        }
    }
}
impl Model {
    fn clone_if(&self, b: bool) -> Option<Model> {
        b.then(|| self.clone())
    }
}

/// Library measures over hashable points: the cached value is the uncached one.
fn real(m: i64, seed: i64, out: &mut Outcome) {
    use measures_distributions::*;
    let mut r = Rng::new(seed as u64);
    macro_rules! go {
        ($ld:expr, $pts:expr, $f:ty) => {{
            let ld = $ld;
            let cached = ld.clone().cached_for::<$f>();
            let pts = $pts;
            for _ in 0..pts.len() * 3 {
                let x = r.pick(&pts).clone();
                let want: $f = EvaluateAt::<_, $f>::at(&ld, &x);
                let got: $f = cached.at(&x);
                out.evals += 1;
                out.count("query of a library measure", 1);
                if bits(want as f64) != bits(got as f64) {
                    out.fail("value", format!(
                        "library measure {m}, point {x:?}: cached {got:?}, uncached {want:?}"));
                }
            }
        }};
    }
    let rate = 0.1 + r.unit() * 20.0;
    let pts: Vec<u64> = (0..r.range(1, 12)).map(|_| r.range(0, 60) as u64).collect();
    match m % 6 {
        0 => go!(LogDensityBuilder::<u64>::log_density(&Poisson::new(rate)), pts, f64),
        1 => go!(LogDensityBuilder::<u64>::log_density(&Poisson::new(rate as f32)), pts, f32),
        2 => {
            let b = Poisson::new(rate * 0.5 + 0.1);
            go!(LogDensityBuilder::<u64>::log_density(&Poisson::new(rate)).wrt(b), pts, f64)
        }
        3 => {
            let pts: Vec<u64> = pts.iter().map(|x| x % 30).collect();
            go!(LogDensityBuilder::<u64>::log_density(&Geometric::new(0.05 + r.unit() * 0.9)), pts, f64)
        }
        4 => {
            let pts: Vec<u64> = pts.iter().map(|x| x % 12).collect();
            go!(LogDensityBuilder::<u64>::log_density(&Binomial::new(11, 0.05 + r.unit() * 0.9)), pts, f64)
        }
        _ => go!(LogDensityBuilder::<u64>::log_density(&NegativeBinomial::new(r.range(1, 9) as u64, 0.05 + r.unit() * 0.9)), pts, f64),
    }
}

// ------------------------------------------------------------------ execution

struct SendBox<T>(T);
unsafe impl<T> Send for SendBox<T> {}

fn run<K: Point, V: Value>(p: &Plan, out: &mut Outcome) {
    let mut w: World<K, V> = World::new();
    for o in &p.pre {
        w.step(p, o, out);
        if out.violation.is_some() {
            return;
        }
    }
    if !p.threads.is_empty() {
        // a cache belongs to one thread at a time: thread 0 takes the existing ones over, every
        // other thread works on its own
        let slot = Arc::new(std::sync::Mutex::new(Some(SendBox(w))));
        let outs: Arc<Log<(usize, SendBox<World<K, V>>, Outcome)>> = Log::new();
        let (s2, o2, p2) = (slot.clone(), outs.clone(), p.clone());
        let ok = sim_phase(p, p.threads.len(), out, move |t| {
            let mut o = Outcome::default();
            let mut own = if t == 0 {
                s2.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap().0
            } else {
                World::new()
            };
            for x in &p2.threads[t] {
                op_point();
                own.step(&p2, x, &mut o);
                if o.violation.is_some() {
                    break;
                }
            }
            o2.push((t, SendBox(own), o));
        });
        let mut back = None;
        for (t, b, o) in outs.take() {
            for (k, n) in &o.counters {
                out.count(k, *n);
            }
            out.evals += o.evals;
            out.mix(o.hist);
            if let Some(v) = o.violation {
                out.fail(&v.class, format!("thread {t}: {}", v.msg));
            }
            if t == 0 {
                back = Some(b.0);
            }
        }
        if !ok || out.violation.is_some() {
            return;
        }
        w = back.unwrap_or_else(World::new);
    }
    for o in &p.post {
        w.step(p, o, out);
        if out.violation.is_some() {
            return;
        }
    }
}

pub fn exec(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    match (p.knob("key"), p.knob("value")) {
        (0, 0) => run::<Kc, f64>(p, &mut out),
        (0, 1) => run::<Kc, f32>(p, &mut out),
        (0, _) => run::<Kc, Vc>(p, &mut out),
        (1, 0) => run::<u64, f64>(p, &mut out),
        (1, _) => run::<u64, f32>(p, &mut out),
        (2, _) => run::<String, f64>(p, &mut out),
        _ => run::<(i32, i32), f64>(p, &mut out),
    }
    let g = |k: &str| out.counters.get(k).copied().unwrap_or(0);
    let faults = out.counters.iter().any(|(k, v)| k.starts_with("fault: ") && *v > 0);
    out.nontrivial = if p.prop == "C14" {
        faults || g("nested query") > 0
    } else {
        g("answered from the cache") > 0 && g("inner evaluation") > 1
    };
    out
}

pub fn generate(prop: &str, tier: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new(prop, "memo", seed);
    p.hash_seed = r.next();
    p.clock = rclock(&mut r);
    let c14 = prop == "C14";
    p.set("key", if c14 && r.chance(3, 4) { 0 } else { r.range(0, 3) });
    p.set("value", *r.pick(&[0, 0, 1, 2]));
    p.set("modulus", *r.pick(&[0, 1, 1, 2, 7, 64]));
    let kinds: Vec<i64> = (0..r.range(1, 4))
        .map(|_| {
            let base = r.range(0, 9) * 6;
            base + if c14 { r.range(0, 5) } else { *r.pick(&[0, 0, 0, 0, 5, 1, 3]) }
        })
        .collect();
    let span = *r.pick(&[3i64, 8, 30, 200]);
    let nc = kinds.len() as i64;
    let gen = |r: &mut Rng| -> Op {
        let c = r.range(0, nc - 1);
        let x = r.range(0, span);
        match r.below(24) {
            0 => op("meas", &[c]),
            1 => op("real", &[r.range(0, 5), r.range(0, 1 << 40)]),
            2 => op("bulk", &[c, r.range(0, 5), r.range(1, span + 20), r.range(1, 3)]),
            3 if r.chance(1, 2) => op("mk", &[*r.pick(&kinds)]),
            x2 if x2 < if c14 { 12 } else { 4 } => {
                let what = if r.chance(3, 5) { r.range(0, 1) } else { r.range(2, 5) };
                op("qf", &[c, x, what, r.range(0, 4).min(r.range(0, 4))])
            }
            _ => op("q", &[c, x]),
        }
    };
    for k in &kinds {
        p.pre.push(op("mk", &[*k]));
    }
    for _ in 0..r.range(4, 60) {
        let o = gen(&mut r);
        p.pre.push(o);
    }
    if r.chance(1, 4) {
        for t in 0..r.range(2, 4) {
            let mut l = vec![];
            if t > 0 {
                for k in &kinds {
                    l.push(op("mk", &[*k]));
                }
            }
            for _ in 0..r.range(3, 20) {
                l.push(gen(&mut r));
            }
            p.threads.push(l);
        }
        p.sched = rsched(&mut r, 100);
        p.alloc_permille = *r.pick(&[0, 5, 50]);
        for _ in 0..r.range(0, 20) {
            let o = gen(&mut r);
            p.post.push(o);
        }
    }
    // long histories, then the first points again
    let n = if i % 400 == 7 {
        if tier == "thorough" { 1_100_000 } else { 140_000 }
    } else if i % 40 == 7 {
        r.range(5_000, 20_000)
    } else if i % 5 == 0 {
        r.range(300, 3000)
    } else {
        0
    };
    if n > 0 {
        // colliding points cost the square of their number, whoever keeps them
        if n > 20_000 {
            p.set("modulus", 0);
        }
        let n = match p.knob("modulus") {
            m @ 1.. if p.knob("key") == 0 => n.min((1200.0 * (m as f64).sqrt()) as i64),
            _ => n,
        };
        p.pre.insert(0, op("mk", &[0]));
        let at = p.pre.len();
        p.pre.insert(r.us(at) + 1, op("bulk", &[0, 0, n, 1]));
        p.post.push(op("bulk", &[0, 0, (n / 3).min(5000), 1]));
        for _ in 0..40 {
            p.post.push(op("q", &[0, r.range(0, n - 1)]));
        }
        p.set("slow", 1);
    }
    p
}

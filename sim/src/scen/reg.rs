//! C16: the automatic-compilation registry under histories of registrations, look-ups and uses,
//! by one or several threads, with patterns that fail, panic, yield or look themselves up.
//!
//! Verbs: `new` another registry; `reg k t mode` register a pattern for type t (mode: 0 works,
//! 1 fails, 2 panics, 3 yields, 4 looks types up while it is used); `all k mode` register every
//! type; `look k t`; `use k t`; `auto t` the extension methods; `drop k`.
use super::pool::*;
use crate::engine::*;
use crate::plan::*;
use measures_exponential_family::{AutoJITExt, AutoJITPattern, AutoJITRegistry, JITError};
use simstd::rt;
use simstd::sync::RwLock;
use std::any::{Any, TypeId};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;
use symbolic_math::expr::SymbolicLogDensity;
use symbolic_math::{Expr, GeneralJITCompiler};

mod a {
    #[derive(Default)]
    pub struct Dist(pub u64);
}
mod b {
    #[derive(Default)]
    pub struct Dist(pub u64);
}
#[derive(Default)]
struct Ty<const N: usize>(u64);
#[derive(Default)]
struct Unit<const N: usize>;

type Maker = fn() -> Box<dyn Any>;
struct Kind {
    id: TypeId,
    make: Maker,
    auto: fn() -> (bool, bool),
}
fn kind<T: Default + 'static>() -> Kind {
    Kind {
        id: TypeId::of::<T>(),
        make: || Box::new(T::default()),
        auto: || {
            let t = T::default();
            (t.auto_symbolic().is_ok(), t.auto_jit().is_ok())
        },
    }
}
fn kinds() -> Vec<Kind> {
    use measures_distributions::*;
    let mut v = vec![
        kind::<a::Dist>(), kind::<b::Dist>(), kind::<u8>(), kind::<u64>(), kind::<i64>(), kind::<f64>(), kind::<f32>(),
        kind::<String>(), kind::<&'static str>(), kind::<()>(), kind::<[f64; 1]>(), kind::<[f64; 2]>(),
        kind::<Vec<f64>>(), kind::<Vec<f32>>(), kind::<Option<f64>>(), kind::<(f64, f64)>(),
        kind::<StdNormal<f64>>(), kind::<Poisson<f64>>(), kind::<Poisson<f32>>(),
    ];
    macro_rules! many {
        ($($n:literal)*) => { $( v.push(kind::<Ty<$n>>()); )* $( v.push(kind::<Unit<$n>>()); )* };
    }
    many!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33
          34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65);
    v
}

struct Raw(UnsafeCell<Option<AutoJITRegistry>>);
/// The registry is reached through this, so that the checks also build (and judge) a registry that
/// lost its thread-safety markers.
unsafe impl Send for Raw {}
unsafe impl Sync for Raw {}
impl Raw {
    fn get(&self) -> Option<&AutoJITRegistry> {
        unsafe { (*self.0.get()).as_ref() }
    }
    #[allow(clippy::mut_from_ref)]
    unsafe fn get_mut(&self) -> Option<&mut AutoJITRegistry> {
        (*self.0.get()).as_mut()
    }
}

const BOOM: &str = "injected failure of a pattern";
struct Pat {
    tag: i64,
    mode: i64,
    alive: Arc<AtomicI64>,
    ids: Arc<Vec<TypeId>>,
    reg: Arc<Raw>,
}
impl Drop for Pat {
    fn drop(&mut self) {
        self.alive.fetch_sub(1, SeqCst);
        self.tag = -1;
    }
}
impl AutoJITPattern for Pat {
    fn generate_symbolic(&self, d: &dyn Any) -> Result<SymbolicLogDensity, JITError> {
        let ty = self.ids.iter().position(|i| *i == d.type_id()).map_or(-1.0, |i| i as f64);
        match self.mode {
            1 => return Err(JITError::CompilationError(format!("{BOOM} {}", self.tag))),
            2 => std::panic::panic_any(BOOM.to_string()),
            3 => {
                for _ in 0..3 {
                    op_point();
                }
            }
            4 => {
                for i in self.ids.iter().take(5) {
                    let _ = self.reg.get().map(|r| r.get_pattern(*i).is_some());
                    op_point();
                }
            }
            _ => {}
        }
        let e = Expr::Add(
            Box::new(Expr::Mul(Box::new(Expr::Const(self.tag as f64)), Box::new(Expr::Var("x".into())))),
            Box::new(Expr::Var("ty".into())),
        );
        let mut m = HashMap::new();
        m.insert("ty".to_string(), ty);
        Ok(SymbolicLogDensity::new(e, m))
    }
}

#[derive(Default, Clone)]
struct Model {
    map: BTreeMap<usize, (i64, i64)>,
    /// a registration that was begun and not seen to end
    pending: Option<(usize, i64, i64)>,
}
struct Reg {
    raw: Arc<Raw>,
    model: RwLock<Model>,
    alive: Arc<AtomicI64>,
}
struct Cx {
    p: Plan,
    kinds: Vec<Kind>,
    ids: Arc<Vec<TypeId>>,
    tags: AtomicI64,
}

enum Seen {
    Nothing,
    Tag(i64, i64),
    Failed(String),
    Panicked(String),
}

impl Cx {
    fn make(&self) -> Arc<Reg> {
        let raw = Arc::new(Raw(UnsafeCell::new(Some(
            if self.tags.fetch_add(1, SeqCst) % 2 == 0 { AutoJITRegistry::new() } else { AutoJITRegistry::default() },
        ))));
        Arc::new(Reg { raw, model: RwLock::new(Model::default()), alive: Arc::new(AtomicI64::new(0)) })
    }

    /// Looks a type up and uses what is there; None: the thread is being ended.
    fn seen(&self, r: &Reg, t: usize, x: f64) -> Option<Seen> {
        let g = guarded(|| {
            let reg = r.raw.get()?;
            Some(match reg.get_pattern(self.kinds[t].id) {
                None => Seen::Nothing,
                Some(p) => match p.generate_symbolic(&*(self.kinds[t].make)()) {
                    Err(e) => Seen::Failed(format!("{e}")),
                    Ok(s) => {
                        let y = s.evaluate_single("x", x).unwrap_or(f64::NAN);
                        let ty = s.parameters.get("ty").copied().unwrap_or(-2.0);
                        if (s.variables.len(), y.is_nan()) != (2, false) {
                            Seen::Failed("no value".into())
                        } else {
                            Seen::Tag(((y - ty) / x) as i64, ty as i64)
                        }
                    }
                },
            })
        });
        match g {
            Ok(s) => s,
            Err(Stop::Killed) => std::panic::resume_unwind(Box::new(rt::SimKill)),
            Err(Stop::Panicked(t)) => Some(Seen::Panicked(t)),
        }
    }

    fn judge(&self, m: &Model, t: usize, s: Seen, out: &mut Outcome) {
        let mut fits = vec![m.map.get(&t).copied()];
        if let Some((pt, tag, mode)) = m.pending {
            if pt == t {
                fits.push(Some((tag, mode)));
            }
        }
        out.evals += 1;
        let ok = fits.iter().any(|w| match (w, &s) {
            (None, Seen::Nothing) => true,
            (Some((tag, mode)), Seen::Tag(g, ty)) => *mode != 1 && *mode != 2 && tag == g && *ty == t as i64,
            (Some((tag, 1)), Seen::Failed(e)) => e.contains(BOOM) && e.ends_with(&format!(" {tag}")),
            (Some((_, 2)), Seen::Panicked(e)) => e == BOOM,
            _ => false,
        });
        let text = match &s {
            Seen::Nothing => "nothing".to_string(),
            Seen::Tag(g, ty) => format!("pattern {g} (which was shown a value of type {ty})"),
            Seen::Failed(e) => format!("error {e:?}"),
            Seen::Panicked(e) => format!("panic {e:?}"),
        };
        out.mix_str(&text);
        match s {
            Seen::Nothing => out.count("look-up of an unregistered type", 1),
            Seen::Tag(..) => out.count("pattern used", 1),
            Seen::Failed(_) => out.count("fault: pattern failed", 1),
            Seen::Panicked(_) => out.count("fault: pattern panicked", 1),
        }
        if !ok {
            out.fail("registry", format!(
                "looking up type {t} gave {text}; last registered: {:?} (pattern, mode)", fits));
        }
    }

    fn register(&self, r: &Reg, t: usize, mode: i64, out: &mut Outcome) {
        let tag = self.tags.fetch_add(1, SeqCst) + 100;
        let mut m = r.model.write().unwrap_or_else(|e| e.into_inner());
        let Some(reg) = (unsafe { r.raw.get_mut() }) else { return };
        self.settle(r, &mut m, out);
        m.pending = Some((t, tag, mode));
        r.alive.fetch_add(1, SeqCst);
        reg.register_pattern(self.kinds[t].id, Box::new(Pat {
            tag, mode, alive: r.alive.clone(), ids: self.ids.clone(), reg: r.raw.clone(),
        }));
        m.map.insert(t, (tag, mode));
        m.pending = None;
        out.count("registration", 1);
        let alive = r.alive.load(SeqCst);
        if alive != m.map.len() as i64 && self.p.faults.is_empty() {
            out.fail("registry", format!("{} types registered, {alive} patterns alive", m.map.len()));
        }
    }
    /// Decides whether an interrupted registration took effect.
    fn settle(&self, r: &Reg, m: &mut Model, out: &mut Outcome) {
        if let Some((t, tag, mode)) = m.pending {
            out.count("interrupted registration", 1);
            if let Some(s) = self.seen(r, t, 1.0) {
                let took = match &s {
                    Seen::Tag(g, _) => *g == tag,
                    Seen::Failed(e) => e.ends_with(&format!(" {tag}")),
                    Seen::Panicked(_) => mode == 2,
                    Seen::Nothing => false,
                };
                self.judge(m, t, s, out);
                if took {
                    m.map.insert(t, (tag, mode));
                }
            }
            m.pending = None;
        }
    }

    fn step(&self, regs: &mut Vec<Arc<Reg>>, o: &Op, out: &mut Outcome) {
        let nk = self.kinds.len();
        match o.0.as_str() {
            "new" => {
                regs.push(self.make());
                return;
            }
            "auto" => {
                let t = o.u(0) % nk;
                let (s, j) = (self.kinds[t].auto)();
                out.evals += 1;
                out.count("automatic compilation of an unregistered type", 1);
                if s || j {
                    out.fail("registry", format!("type {t} was never registered for automatic compilation, which found a pattern"));
                }
                return;
            }
            _ => {}
        }
        if regs.is_empty() {
            return;
        }
        let n = regs.len();
        let r = regs[o.u(0) % n].clone();
        match o.0.as_str() {
            "reg" => self.register(&r, o.u(1) % nk, o.a(2), out),
            "all" => {
                for t in 0..nk {
                    self.register(&r, t, o.a(1), out);
                }
                for t in 0..nk {
                    let m = r.model.read().unwrap_or_else(|e| e.into_inner());
                    if let Some(s) = self.seen(&r, t, 2.0) {
                        self.judge(&m, t, s, out);
                    }
                }
            }
            "look" | "use" => {
                let t = o.u(1) % nk;
                let m = r.model.read().unwrap_or_else(|e| e.into_inner());
                if o.0 == "look" {
                    let Some(reg) = r.raw.get() else { return };
                    let there = reg.get_pattern(self.kinds[t].id).is_some();
                    out.evals += 1;
                    out.count("look-up", 1);
                    let maybe = m.pending.map_or(false, |p| p.0 == t);
                    if there != m.map.contains_key(&t) && !maybe {
                        out.fail("registry", format!("type {t}: pattern found: {there}; registered: {}", !there));
                    }
                } else if let Some(s) = self.seen(&r, t, 1.0 + o.a(2).rem_euclid(5) as f64) {
                    self.judge(&m, t, s, out);
                }
            }
            "comp" => {
                // what the pattern gives is what gets compiled
                let t = o.u(1) % nk;
                let m = r.model.read().unwrap_or_else(|e| e.into_inner());
                let Some((tag, 0)) = m.map.get(&t).copied() else { return };
                let Some(p) = r.raw.get().and_then(|x| x.get_pattern(self.kinds[t].id)) else { return };
                let v = p.generate_symbolic(&*(self.kinds[t].make)()).ok().and_then(|s| {
                    let f = GeneralJITCompiler::new().ok()?
                        .compile_expression(&s.expression, &["x".to_string()], &[], &s.parameters).ok()?;
                    Some(f.call_single(3.0))
                });
                out.evals += 1;
                out.count("pattern compiled", 1);
                if v != Some(tag as f64 * 3.0 + t as f64) {
                    out.fail("registry", format!("type {t}: the compiled pattern {tag} gave {v:?}"));
                }
            }
            "drop" => {
                let r = regs.remove(o.u(0) % n);
                let m = r.model.write().unwrap_or_else(|e| e.into_inner());
                drop(unsafe { (*r.raw.0.get()).take() });
                let alive = r.alive.load(SeqCst);
                if alive != 0 && self.p.faults.is_empty() {
                    out.fail("registry", format!("{alive} patterns alive after their registry went away"));
                }
                drop(m);
            }
            _ => {}
        }
    }
}

pub fn exec(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let ks = kinds();
    let ids = Arc::new(ks.iter().map(|k| k.id).collect::<Vec<_>>());
    let cx = Arc::new(Cx { p: p.clone(), kinds: ks, ids, tags: AtomicI64::new(0) });
    let mut regs: Vec<Arc<Reg>> = vec![];
    for o in &p.pre {
        cx.step(&mut regs, o, &mut out);
        if out.violation.is_some() {
            return out;
        }
    }
    if !p.threads.is_empty() {
        let outs: Arc<Log<Outcome>> = Log::new();
        let (o2, c2) = (outs.clone(), cx.clone());
        let shared = regs.clone();
        let ok = sim_phase(p, p.threads.len(), &mut out, move |t| {
            let mut o = Outcome::default();
            let mut mine = shared.clone();
            for x in &c2.p.threads[t] {
                op_point();
                // removing a registry others use is no operation of this phase
                if x.0 != "drop" && x.0 != "comp" {
                    if let Err(Stop::Killed) = guarded(|| c2.step(&mut mine, x, &mut o)) {
                        o2.push(o);
                        std::panic::resume_unwind(Box::new(rt::SimKill));
                    }
                }
            }
            o2.push(o);
        });
        for o in outs.take() {
            for (k, n) in &o.counters {
                out.count(k, *n);
            }
            out.evals += o.evals;
            out.mix(o.hist);
            if let Some(v) = o.violation {
                out.fail(&v.class, v.msg);
            }
        }
        if !ok || out.violation.is_some() {
            return out;
        }
    }
    for o in &p.post {
        cx.step(&mut regs, o, &mut out);
        if out.violation.is_some() {
            return out;
        }
    }
    // at the end every type of every registry
    for r in &regs {
        let mut m = r.model.write().unwrap_or_else(|e| e.into_inner());
        cx.settle(r, &mut m, &mut out);
        for t in 0..cx.kinds.len() {
            if let Some(s) = cx.seen(r, t, 2.0) {
                cx.judge(&m, t, s, &mut out);
            }
        }
        // patterns refer to their registry
        drop(unsafe { (*r.raw.0.get()).take() });
    }
    out.nontrivial = out.counters.get("registration").copied().unwrap_or(0) > 1;
    out
}

pub fn generate(prop: &str, _tier: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new(prop, "reg", seed);
    p.hash_seed = r.next();
    p.clock = rclock(&mut r);
    let nt = *r.pick(&[2i64, 4, 12, 40, 151]);
    let nr = r.range(1, 3);
    let off = r.range(0, 150);
    let t = |r: &mut Rng| off + r.range(0, nt - 1);
    let mode = |r: &mut Rng| *r.pick(&[0, 0, 0, 1, 2, 3, 4]);
    let gen = |r: &mut Rng| -> Op {
        let k = r.range(0, nr - 1);
        match r.below(20) {
            0 => op("auto", &[t(r)]),
            1 => op("comp", &[k, t(r)]),
            2..=6 => op("reg", &[k, t(r), mode(r)]),
            7..=10 => op("look", &[k, t(r)]),
            _ => op("use", &[k, t(r), r.range(0, 9)]),
        }
    };
    for _ in 0..nr {
        p.pre.push(op("new", &[]));
    }
    for _ in 0..r.range(3, 50) {
        let o = if r.chance(1, 60) {
            op("drop", &[r.range(0, nr - 1)])
        } else if r.chance(1, 60) {
            op("new", &[])
        } else if r.chance(1, 30) {
            op("all", &[r.range(0, nr - 1), mode(&mut r)])
        } else {
            gen(&mut r)
        };
        p.pre.push(o);
    }
    if i % 2 == 0 {
        let n = r.range(2, 5);
        for _ in 0..n {
            let m = r.range(2, 12);
            p.threads.push((0..m).map(|_| gen(&mut r)).collect());
        }
        p.sched = rsched(&mut r, 120);
        p.alloc_permille = *r.pick(&[0, 0, 5, 50]);
        p.spurious_permille = *r.pick(&[0, 30]);
        for _ in 0..r.range(0, 3) {
            let thread = r.us(n as usize);
            let point = r.below(40);
            p.faults.push(if r.chance(1, 2) {
                Fault::Kill { thread, point }
            } else {
                Fault::Stall { thread, point, steps: r.below(60) + 5 }
            });
        }
        for _ in 0..r.range(0, 15) {
            let o = gen(&mut r);
            p.post.push(o);
        }
    }
    let _ = bits(0.0);
    p
}

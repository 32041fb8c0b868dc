//! C17: what is repeated does not pile up memory.
//!
//! A *round* runs the plan's program (verbs of `work`), or a whole plan of another check with its
//! faults, drops everything it made and (knob `clear`) empties the expression caches. Rounds are
//! repeated in one process with the heap counted at the allocator; when the heap still grows after
//! the first few, many more rounds tell a leak from something that fills up once.
// (The optimiser is left out: egglog keeps every symbol it has ever seen in a table of its own.)
use super::work;
use crate::engine::*;
use crate::plan::*;
use crate::sys;
use symbolic_math::expr::clear_caches;

/// Rounds at which growth is looked at; the last two decide.
const LEVELS: [u64; 5] = [16, 64, 256, 1500, 6000];
const HEAVY: [u64; 5] = [16, 64, 256, 400, 1600];
/// After so long in real time no more is asked.
const ENOUGH: std::time::Duration = std::time::Duration::from_secs(40);
const JIT_VERBS: &[&str] = &["cmp", "cmpf", "unw", "bay", "many", "model", "static", "make", "repr", "mj", "opt", "ext", "auto", "reg"];

fn varied(p: &Plan, k: u64) -> Plan {
    let mut q = p.clone();
    if p.knob("vary") > 0 {
        // other numbers every round, of the same shapes
        for (i, v) in q.vals.iter_mut().flatten().enumerate() {
            if v.0.is_finite() && v.0 != 0.0 && (i as u64 + k) % 3 == 0 {
                v.0 *= 1.0 + k as f64 * 1e-9;
            }
        }
        for e in q.envs.iter_mut().flatten() {
            if e.1 .0.is_finite() {
                e.1 .0 *= 1.0 + k as f64 * 1e-9;
            }
        }
    }
    q
}

/// One round. False: it could not be finished (said in `out`).
fn round(p: &Plan, k: u64, world: &mut Option<work::World>, out: &mut Outcome) -> bool {
    let q = varied(p, k);
    if !p.inner.is_empty() {
        let (prop, scenario) = p.inner.split_once('/').unwrap();
        let mut q = q;
        q.prop = prop.into();
        q.scenario = scenario.into();
        q.inner = String::new();
        let o = super::exec(&q);
        clear_caches();
        if o.violation.is_some() || o.inconclusive.is_some() {
            out.inconclusive = Some("the repeated plan did not run through".into());
            return false;
        }
        if k == 0 {
            for (c, n) in &o.counters {
                out.count(c, *n);
            }
            out.mix(o.hist);
            out.sig ^= o.sig;
            out.steps += o.steps;
            out.decisions += o.decisions;
            out.switches += o.switches;
        }
        return true;
    }
    if p.knob("keep") == 0 || world.is_none() {
        *world = Some(work::World::default());
    }
    let w = world.as_mut().unwrap();
    for o in &q.pre {
        let t = w.step(&q, o);
        if k == 0 {
            if let Some(t) = &t {
                if t.starts_with("panic") {
                    out.count("fault: a call panicked", 1);
                } else if o.0 == "cmpf" {
                    out.count("fault: code memory refused", 1);
                }
                out.mix_str(t);
            }
        }
    }
    if p.knob("keep") == 0 {
        *world = None;
    }
    if p.knob("clear") > 0 {
        clear_caches();
    }
    true
}

/// A round in a thread of its own, which then ends.
fn apart(p: &Plan, k: u64, out: &mut Outcome) -> bool {
    let (p2, mut o) = (p.clone(), Outcome::default());
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut w = None;
        let ok = round(&p2, k, &mut w, &mut o);
        (ok, o)
    });
    match h.map(|h| h.join()) {
        Ok(Ok((ok, o))) => {
            if k == 0 {
                let (e, v) = (out.evals, out.inconclusive.take());
                *out = o;
                out.evals += e;
                out.inconclusive = out.inconclusive.take().or(v);
            } else if o.inconclusive.is_some() {
                out.inconclusive = o.inconclusive;
            }
            ok
        }
        _ => {
            out.inconclusive = Some("no thread for the round".into());
            false
        }
    }
}

pub fn exec(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let mut heap: Vec<i64> = Vec::with_capacity(8192);
    let mut world = None;
    simstd::rt::set_drop_kills(false);
    let mut done = 0;
    let start = std::time::Instant::now();
    let levels = if p.knob("heavy") > 0 { HEAVY } else { LEVELS };
    for (l, &n) in levels.iter().enumerate() {
        while done < n {
            let ok = if p.knob("apart") > 0 { apart(p, done, &mut out) } else { round(p, done, &mut world, &mut out) };
            if !ok {
                return out;
            }
            if start.elapsed() > ENOUGH {
                out.inconclusive = Some("still growing, and too slow to repeat often enough".into());
                return out;
            }
            done += 1;
            heap.push(sys::heap_in_use());
            out.evals += 1;
        }
        let (a, m, b) = (heap[n as usize / 4], heap[n as usize / 2], heap[n as usize - 1]);
        // what piles up (at once, or in tables that double) grows in the second quarter and in the
        // second half; what fills up, or breaks a record once in a while, stops
        let by = n as i64;
        let grows = if l < 3 { b > a } else { b - a >= by && m - a >= by / 16 && b - m >= by / 16 };
        if !grows {
            break;
        }
        out.count(["still growing after 16 rounds", "still growing after 64 rounds", "still growing after 256 rounds",
            "still growing after 400 or 1500 rounds", "still growing after 1600 or 6000 rounds"][l], 1);
        if l + 1 == levels.len() {
            out.fail("growth", format!(
                "{n} rounds of the same operations, everything dropped after each: the heap grew from {a} to {b} bytes in the last {} of them, {} bytes a round",
                n - n / 4, (b - a) / (n - n / 4) as i64));
        }
    }
    if std::env::var("DSIM_HEAP").is_ok() { eprintln!("{heap:?}"); }
    out.count("rounds", done);
    out.nontrivial = true;
    out.mix(p.seed);
    out
}

const INNER: &[(&str, &str)] = &[
    ("C05", "cache"), ("C02", "cache"), ("C06", "jit"), ("C08", "jit"), ("C10", "jit"),
    ("C14", "memo"), ("C14", "memo"), ("C15", "dens"), ("C16", "reg"),
];

pub fn generate(prop: &str, tier: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::new(seed);
    let mut p;
    if r.chance(1, 3) {
        let s = r.next();
        let (ip, is) = *r.pick(INNER);
        p = super::generate(ip, tier, s, i);
        p.inner = format!("{ip}/{is}");
        p.set("heavy", 1);
    } else {
        p = Plan::new(prop, "mem", seed);
        let len = *r.pick(&[1usize, 1, 2, 3, 5, 8]);
        p.pre = work::program(&mut r, &mut p, false, len);
        p.hash_seed = r.next();
        p.set("keep", r.range(0, 1));
        p.set("apart", (r.below(4) == 0) as i64);
        if r.chance(1, 2) {
            p.set("clear", 1);
            p.set("vary", r.range(0, 1));
        }
        if p.pre.iter().any(|o| JIT_VERBS.contains(&o.0.as_str())) {
            p.set("heavy", 1);
        }
    }
    p.max_steps = p.max_steps.max(300_000_000);
    p.prop = prop.into();
    p.scenario = "mem".into();
    p.seed = seed;
    p
}

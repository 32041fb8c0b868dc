//! C09 and C12: one program in several differently set up processes; what it answers must be the
//! same in all of them (C09: hash seeds, clocks, memory, placement; C12: the standard streams).
//!
//! `pre`: the program (work.rs), or the plan of another check. `extra`: the processes, one
//! `var [hash seed, clock, fill, heap, placement, schedule, stream mode, terminal, processor]` each.
use super::opt::{degenerate, small};
use super::pool::*;
use super::work;
use crate::engine::*;
use crate::plan::*;
use crate::sys;
use serde::{Deserialize, Serialize};
use simstd::rt;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Serialize, Deserialize, Default, Clone)]
struct Got {
    lines: Vec<String>,
    /// more transcripts of the same program (one per simulated thread)
    others: Vec<Vec<String>>,
    offered: u64,
    first: String,
    /// bytes that arrived at the descriptors behind the simulated streams
    arrived: [u64; 2],
    consumed: u64,
    steps: u64,
    decisions: u64,
    switches: u64,
    sig: u64,
    overrides: Vec<(u64, usize)>,
    died: bool,
    points: u64,
    /// reached outside the process, or left changed
    touched: Option<String>,
    unguarded: bool,
    env_reads: u64,
}

struct Anywhere<T>(T);
unsafe impl<T> Send for Anywhere<T> {}
impl<T> Anywhere<T> {
    fn get(self) -> T {
        self.0
    }
}

fn memfd() -> i32 {
    unsafe { libc::memfd_create(c"stream".as_ptr(), 0) }
}
fn size_of(fd: i32) -> u64 {
    unsafe {
        let mut s: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut s) == 0 && s.st_mode & libc::S_IFMT == libc::S_IFREG { s.st_size as u64 } else { 0 }
    }
}
const INPUT: &[u8] = b"y\n1.0\nquit\n\0\n42\n";

/// Puts files of our own behind descriptors 0, 1 and 2 (or nothing at all).
fn streams(mode: u64, tty: u64) {
    unsafe {
        let m = memfd();
        if m >= 0 {
            sys::raw_write(m, INPUT);
            libc::lseek(m, 0, libc::SEEK_SET);
            libc::dup2(m, 0);
            libc::close(m);
        }
        for fd in [1, 2] {
            let m = memfd();
            if m >= 0 {
                libc::dup2(m, fd);
                libc::close(m);
            }
        }
        if mode == CLOSED {
            for fd in 0..3 {
                libc::close(fd);
            }
        }
    }
    sys::set_tty(tty);
    sys::W_CALLS.store(0, SeqCst);
    sys::W_BYTES.store(0, SeqCst);
    sys::set_write_mode(if mode == CLOSED { sys::W_PASS } else { mode });
}
const CLOSED: u64 = 8;

fn settle(g: &mut Got, mode: u64) {
    let _ = std::io::stdout().flush();
    // (and what the C library still holds)
    unsafe { libc::fflush(std::ptr::null_mut()) };
    g.offered = sys::W_BYTES.load(SeqCst);
    g.first = sys::first_written();
    if mode != CLOSED && mode != sys::W_PASS {
        g.arrived = [size_of(1), size_of(2)];
        let at = unsafe { libc::lseek(0, 0, libc::SEEK_CUR) };
        g.consumed = at.max(0) as u64;
    }
}

/// This process may use one processor only (if the sandbox lets us say so).
fn one_cpu(k: usize) {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        let n = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, n, &mut s) == 0 {
            let all: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &s)).collect();
            if !all.is_empty() {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(all[k % all.len()], &mut one);
                libc::sched_setaffinity(0, n, &one);
            }
        }
    }
}

const ERRNOS: [i32; 6] = [libc::EACCES, libc::ENOENT, libc::ENOSPC, libc::EMFILE, libc::EIO, libc::EROFS];

/// A hostile place to run in, and nothing outside it within reach.
fn outside(v: &Op) -> bool {
    unsafe {
        match v.a(10) {
            1 => {
                libc::chdir(c"/".as_ptr());
            }
            2 => {
                // a working directory that is gone
                let mut t = *b"/tmp/dsim-gone.XXXXXX\0";
                if !libc::mkdtemp(t.as_mut_ptr().cast()).is_null() {
                    libc::chdir(t.as_ptr().cast());
                    libc::rmdir(t.as_ptr().cast());
                }
            }
            _ => {}
        }
        let lim = |r, n| {
            let l = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(r, &l);
        };
        match v.a(11) {
            1 => lim(libc::RLIMIT_NOFILE, 3),
            2 => lim(libc::RLIMIT_FSIZE, 0),
            3 => {
                libc::umask(0o777);
            }
            _ => {}
        }
        if v.a(9) != 0 {
            let e = v.u(9) as u64;
            libc::clearenv();
            if e & 1 == 0 {
                for (n, x) in [(c"LC_ALL", c"de_DE.UTF-8"), (c"HOME", c"/nonexistent"), (c"TMPDIR", c""), (c"TZ", c"bogus"), (c"PATH", c".")] {
                    libc::setenv(n.as_ptr(), x.as_ptr(), 1);
                }
            }
            sys::set_env_seed(e);
        }
    }
    sys::refuse_outward(ERRNOS[v.u(12) % ERRNOS.len()])
}

/// The program in this process, set up as `v` says.
fn leaf(p: &Plan, v: &Op) -> Got {
    let mut g = Got::default();
    let c18 = p.prop == "C18";
    let mode = v.u(6) as u64;
    let c12 = p.prop == "C12";
    if p.knob("egraph") > 0 {
        super::opt::limit_memory(3);
    }
    if c12 {
        streams(mode, v.u(7) as u64);
    }
    if !c12 {
        NAME.store(v.u(5) as u64, SeqCst);
    }
    if v.a(8) > 0 {
        one_cpu(v.u(8) - 1);
    }
    sys::seed_randomness(v.a(0) as u64);
    sys::perturb_heap(v.a(3) as u64);
    sys::set_fill(v.a(2) as u64);
    if c18 {
        let base = sys::fp_mode();
        *BASE_FP.lock().unwrap() = base;
        g.unguarded = !outside(v);
    }
    let before = if c18 { sys::carried() } else { vec![] };
    let clock = match v.a(1) {
        0 => rt::Clock::Step(1000),
        1 => rt::Clock::Stalled,
        n => rt::Clock::Jumpy(n as u64),
    };
    rt::set_clock(clock.clone());
    if p.inner.is_empty() {
        // (other checks use real time themselves, to give up on a process that hangs)
        sys::set_libc_clock(v.a(1) as u64);
    }
    if !p.inner.is_empty() {
        let (prop, scenario) = p.inner.split_once('/').unwrap();
        let mut q = p.clone();
        q.prop = prop.into();
        q.scenario = scenario.into();
        q.inner.clear();
        q.extra.clear();
        if !c12 {
            q.threads.clear();
            // (counter readings may depend on where hashes put entries)
            q.pre.retain(|o| o.0 != "st");
            q.post.retain(|o| o.0 != "st");
            q.faults.clear();
            q.clock = match v.a(1) {
                0 => ClockSpec::Step(1000),
                1 => ClockSpec::Stalled,
                n => ClockSpec::Jumpy(n as u64),
            };
        }
        let o = new_thread(move || {
            rt::set_clock(clock_of(&q));
            super::exec(&q)
        });
        g.points = o.evals;
        g.steps = o.steps;
        g.decisions = o.decisions;
        g.switches = o.switches;
        g.sig = o.sig;
        g.overrides = o.overrides.clone();
        g.died = o.inconclusive.is_some();
        g.lines = vec![format!("{:x}", o.hist), format!("{:?}", o.violation)];
    } else {
        let place = v.a(4);
        match place {
            1 => {
                // every operation in a thread of its own
                let mut w = Some(work::World::default());
                for o in &p.pre {
                    let (p, o, a) = (p.clone(), o.clone(), Anywhere(w.take().unwrap()));
                    let (a, t) = new_thread_any(move || {
                        let mut a = a.get();
                        let t = step(&mut a, &p, &o);
                        (a, t)
                    });
                    w = Some(a);
                    g.lines.push(t.unwrap_or_default());
                    let _ = std::io::stdout().flush();
                }
            }
            2 | 3 => {
                let n = place as usize;
                let mut q = p.clone();
                q.seed = v.a(5) as u64;
                q.sched = rsched(&mut Rng::new(v.a(5) as u64), 40);
                q.alloc_permille = 0;
                let all: Arc<Mutex<Vec<Vec<String>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
                let (a2, q2) = (all.clone(), Arc::new(q.clone()));
                let mut out = Outcome::default();
                let ok = new_thread(move || {
                    let ok = sim_phase(&q, n, &mut out, move |t| {
                        let mut w = work::World::default();
                        for o in &q2.pre {
                            op_point();
                            match step(&mut w, &q2, o) {
                                Some(l) => rt::atomically(|| a2.lock().unwrap()[t].push(l)),
                                None => break,
                            }
                        }
                    });
                    (ok, out)
                });
                let (ok, o) = ok;
                let mut all = all.lock().unwrap().clone();
                g.lines = all.remove(0);
                g.others = all;
                g.steps = o.steps;
                g.decisions = o.decisions;
                g.switches = o.switches;
                g.sig = o.sig;
                g.overrides = o.overrides;
                if !ok {
                    g.lines.push(o.violation.map_or("stopped".into(), |v| v.msg));
                }
            }
            _ => {
                let p = p.clone();
                g.lines = new_thread(move || {
                    let mut w = work::World::default();
                    p.pre.iter().map(|o| {
                        let t = step(&mut w, &p, o).unwrap_or_default();
                        let _ = std::io::stdout().flush();
                        t
                    }).collect()
                });
            }
        }
    }
    sys::set_libc_clock(0);
    sys::set_fill(0);
    if c12 {
        settle(&mut g, mode);
    }
    if c18 {
        sys::set_env_seed(0);
        g.env_reads = sys::ENV_READS.load(SeqCst);
        g.touched = sys::touched().map(|(n, t)| format!("reached outside the process {n} times, first with {t}"));
        let after = sys::carried();
        if before != after {
            let d: Vec<&String> = before.iter().filter(|x| !after.contains(x)).chain(after.iter().filter(|x| !before.contains(x))).take(4).collect();
            g.touched.get_or_insert(format!("the process is not as it was: {d:?}"));
        }
        if FP_CHANGED.load(SeqCst) {
            g.touched.get_or_insert("the floating-point mode is not as it was".into());
        }
        if SIGNALS_CHANGED.load(SeqCst) {
            g.touched.get_or_insert("the signals a thread blocks, or the stack it takes them on, are not as they were".into());
        }
    }
    g
}
static BASE_FP: Mutex<u64> = Mutex::new(0);
static FP_CHANGED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static SIGNALS_CHANGED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn step(w: &mut work::World, p: &Plan, o: &Op) -> Option<String> {
    if p.prop != "C18" {
        return w.step(p, o);
    }
    let before = sys::signal_state();
    let t = w.step(p, o);
    if sys::fp_mode() != *BASE_FP.lock().unwrap() {
        FP_CHANGED.store(true, SeqCst);
    }
    if sys::signal_state() != before {
        SIGNALS_CHANGED.store(true, SeqCst);
    }
    t
}

/// A new thread: its hash keys are drawn anew.
/// What the threads that run the program are called.
static NAME: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn new_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    let b = std::thread::Builder::new().stack_size(64 << 20);
    let b = match NAME.load(SeqCst) % 4 {
        0 => b,
        n => b.name(["", "main", "worker-1", "\u{3b8} \u{1f9f5}"][n as usize].into()),
    };
    b.spawn(f).unwrap().join().unwrap_or_else(|e| std::panic::resume_unwind(e))
}
fn new_thread_any<R: 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    new_thread(move || Anywhere(f())).get()
}

fn what(p: &Plan, v: &Op) -> String {
    if p.prop == "C12" {
        let m = ["working", "broken pipe", "full device", "interrupted", "one byte at a time", "bad descriptor", "I/O error", "accepting", "closed"][v.u(6) % 9];
        format!("streams {m}, {}", ["as they are", "no terminal", "a terminal"][v.u(7) % 3])
    } else if p.prop == "C18" {
        format!("environment {:#x}, directory {}, limits {}, refusing with {}", v.a(9),
            ["as it is", "/", "gone"][v.u(10) % 3], ["none", "no descriptors", "no file sizes", "no permissions"][v.u(11) % 4], v.a(12))
    } else {
        format!(
            "hash seed {:#x}, clock {}, new memory {:#x}, heap {:#x}, {}, {}",
            v.a(0), ["steady", "stalled", "jumping"][v.a(1).clamp(0, 2) as usize], v.a(2), v.a(3),
            match v.a(4) {
                1 => "a thread per operation".into(),
                2 | 3 => format!("{} threads at once", v.a(4)),
                _ => "one thread".to_string(),
            },
            if v.a(8) > 0 { "one processor" } else { "all processors" }
        )
    }
}
fn short(s: &str) -> String {
    if s.len() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s.into() }
}
fn differing(a: &str, b: &str) -> (String, String) {
    // show the text around the first difference
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let from = i.saturating_sub(60);
    let cut = |v: &Vec<char>| v[from.min(v.len())..(from + 240).min(v.len())].iter().collect::<String>();
    (cut(&x), cut(&y))
}

pub fn exec(p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let c12 = p.prop == "C12";
    let egraph = p.knob("egraph") > 0;
    let mut first: Option<(usize, Got)> = None;
    let mut finished = 0u64;
    let mut deaths: Vec<(usize, String)> = vec![];
    for (i, v) in p.extra.iter().enumerate() {
        let c = fork_start(|| serde_json::to_vec(&leaf(p, v)).unwrap());
        let limit = if egraph { 8 } else if p.inner.is_empty() { 30 } else { 60 };
        let g: Got = match fork_finish(c, Duration::from_secs(limit)) {
            Reply::Data(d) => match from_json(&d) {
                Ok(g) => g,
                Err(_) => {
                    deaths.push((i, "no answer".into()));
                    continue;
                }
            },
            Reply::Died(s) => {
                deaths.push((i, s));
                continue;
            }
            Reply::TimedOut | Reply::Killed => {
                out.inconclusive = Some("a process did not finish in real time".into());
                return out;
            }
        };
        finished += 1;
        out.steps += g.steps;
        out.decisions += g.decisions;
        out.switches += g.switches;
        out.sig ^= g.sig;
        if c12 {
            if p.inner.is_empty() {
                out.count(["clock steady", "fault: clock stalled", "fault: clock jumping"][v.a(1).clamp(0, 2) as usize], 1);
            }
            if v.u(6) != sys::W_SINK as usize && v.u(6) != 0 {
                out.count(&format!("fault: streams {}", ["", "broken", "full", "interrupted", "slow", "bad descriptor", "I/O error", "", "closed"][v.u(6) % 9]), 1);
            }
            let total = g.offered + g.arrived[0] + g.arrived[1];
            if total > 0 {
                out.fail("output", format!(
                    "{total} bytes went to the standard streams ({}): {:?}", what(p, v), g.first));
                return out;
            }
            if g.consumed > 0 {
                out.fail("input", format!("{} bytes were taken from standard input ({})", g.consumed, what(p, v)));
                return out;
            }
            if !p.inner.is_empty() {
                // another check judges the answers
                out.evals += g.points;
                g.lines.iter().for_each(|l| out.mix_str(l));
                continue;
            }
        } else if p.prop == "C18" {
            if g.unguarded {
                out.count("processes the kernel would not guard", 1);
            }
            out.count("environment variables read", g.env_reads);
            out.count("fault: environment replaced", (v.a(9) != 0) as u64);
            out.count("fault: working directory gone", (v.a(10) == 2) as u64);
            out.count("fault: no descriptors left", (v.a(11) == 1) as u64);
            out.count("fault: no room in files", (v.a(11) == 2) as u64);
            out.count("fault: files, network and processes out of reach", !g.unguarded as u64);
            if let Some(t) = g.touched {
                out.fail("touched", format!("{t} ({})", what(p, v)));
                return out;
            }
        } else {
            out.count("fault: hash seeds replaced", 1);
            out.count(["", "fault: clock stalled", "fault: clock jumping"][v.a(1).clamp(0, 2) as usize].trim(), 1);
            out.count("fault: memory filled with a pattern", (v.a(2) != 0) as u64);
            out.count("fault: heap laid out differently", (v.a(3) != 0) as u64);
            out.count("fault: one processor only", (v.a(8) > 0) as u64);
            out.count("processes with several threads", (v.a(4) > 1) as u64);
        }
        if g.died {
            out.inconclusive = Some("the inner run gave no answer".into());
            return out;
        }
        for (t, l) in g.others.iter().enumerate() {
            compare(p, &mut out, &g.lines, l, &format!("{}, thread 0", what(p, v)), &format!("thread {}", t + 1));
        }
        if let Some((j, f)) = &first {
            compare(p, &mut out, &f.lines, &g.lines, &what(p, &p.extra[*j]), &what(p, v));
        } else {
            first = Some((i, g));
        }
        if out.violation.is_some() {
            return out;
        }
    }
    if !deaths.is_empty() && !egraph {
        let (i, s) = &deaths[0];
        if finished > 0 {
            out.fail("ended", format!(
                "the program ended with {s} in one process ({}) and finished in another", what(p, &p.extra[*i])));
        } else {
            out.inconclusive = Some(format!("the program ends the process everywhere ({s})"));
        }
        return out;
    }
    if let Some((_, f)) = &first {
        f.lines.iter().for_each(|l| out.mix_str(l));
        out.nontrivial = finished >= 2 && (f.lines.len() >= 3 || !p.inner.is_empty());
    }
    if c12 && !p.inner.is_empty() {
        out.nontrivial = out.evals > 2;
    }
    if finished < 2 && egraph && !deaths.is_empty() {
        out.inconclusive = Some("the equality-saturation engine gave up".into());
    }
    out
}

fn compare(p: &Plan, out: &mut Outcome, a: &[String], b: &[String], wa: &str, wb: &str) {
    for i in 0..a.len().max(b.len()) {
        out.evals += 1;
        let (x, y) = (a.get(i).map_or("(nothing)", |s| s), b.get(i).map_or("(nothing)", |s| s));
        if x != y {
            let (cx, cy) = differing(x, y);
            let o = if p.inner.is_empty() { p.pre.get(i).map_or("end".into(), |o| format!("{}{:?}", o.0, o.1)) } else { format!("plan of {}", p.inner) };
            out.fail("differs", format!(
                "operation {i} ({o}): with {wa}: {:?}; with {wb}: {:?}", short(&cx), short(&cy)));
            return;
        }
    }
}

const INNER: &[(&str, &str)] = &[
    ("C01", "cache"), ("C02", "cache"), ("C06", "jit"), ("C07", "jit"), ("C08", "jit"), ("C10", "jit"),
    ("C11", "opt"), ("C13", "memo"), ("C14", "memo"), ("C15", "dens"), ("C16", "reg"),
];

pub fn generate(prop: &str, tier: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::new(seed);
    let c12 = prop == "C12";
    let c18 = prop == "C18";
    let mut p;
    if !c18 && r.chance(if c12 { 2 } else { 1 }, 8) {
        let s = r.next();
        // (C14's injected failures of a key's own equality fire or not depending on its hash)
        let (ip, is) = loop {
            let x = *r.pick(INNER);
            if c12 || x.0 != "C14" {
                break x;
            }
        };
        p = super::generate(ip, tier, s, i);
        p.inner = format!("{ip}/{is}");
        p.prop = prop.into();
    } else {
        p = Plan::new(prop, "", seed);
        let engine = r.chance(1, 10);
        let len = *r.pick(&[1usize, 3, 6, 10, 16, 30]);
        p.pre = work::program(&mut r, &mut p, false, if engine { len.min(10) } else { len });
        if engine {
            p.set("egraph", 1);
            // expressions the engine can finish
            let at = p.exprs.len();
            for _ in 0..r.range(1, 4) {
                let e = match r.below(5) {
                    0 => degenerate(&mut r, &["x", "y"]),
                    1 => super::opt::tall(&mut r, &["x", "mu", "sigma"]),
                    _ => small(&mut r, &["x", "mu", "sigma"]),
                };
                p.exprs.push(e);
            }
            for _ in 0..r.range(1, 5) {
                let e = r.range(at as i64, p.exprs.len() as i64 - 1);
                let o = op(if r.chance(1, 3) { "ext" } else { "opt" }, &[e]);
                let at = r.us(p.pre.len() + 1);
                p.pre.insert(at, o);
            }
        }
    }
    p.max_steps = p.max_steps.max(300_000_000);
    p.prop = prop.into();
    p.scenario = if c12 { "streams" } else if c18 { "outside" } else { "runs" }.into();
    p.seed = seed;
    let big = p.knob("slow") > 0 || p.knob("egraph") > 0;
    let n = if big { 2 } else { r.range(2, 4) };
    let h0 = (r.next() >> 1) as i64;
    // (C12: whatever the clock does, it does in every process)
    let c0 = match r.below(4) {
        0 => 1,
        1 => 0,
        _ => (r.next() >> 2) as i64 | 2,
    };
    for k in 0..n {
        let h = if c12 || c18 { h0 } else { (r.next() >> 1) as i64 };
        let o = if c12 {
            let modes = [1, 1, 2, 3, 4, 5, 6, 8];
            let m = if k == 0 { sys::W_SINK as i64 } else { *r.pick(&modes) };
            op("var", &[h, c0, 0, 0, 0, 0, m, if k == 0 { 1 } else { r.range(1, 2) }])
        } else if c18 {
            let hostile = k > 0;
            op("var", &[
                h, c0, 0, 0, *r.pick(&[0, 0, 0, 1, 2]), (r.next() >> 1) as i64, 0, 0, 0,
                if hostile { (r.next() >> 1) as i64 | 2 } else { 0 },
                if hostile { r.range(0, 2) } else { 0 },
                if hostile { r.range(0, 3) } else { 0 },
                r.range(0, 5),
            ])
        } else if k == 0 {
            op("var", &[h, 0, 0, 0, 0])
        } else {
            op("var", &[
                h,
                match r.below(4) { 0 => 1, 1 => 0, _ => (r.next() >> 2) as i64 | 2 },
                *r.pick(&[0, 0, 0xff, 0xa5, 0x7f, 0x01]),
                if r.chance(1, 2) { (r.next() >> 1) as i64 } else { 0 },
                *r.pick(&[0, 0, 0, 1, 1, 2, 3]),
                (r.next() >> 1) as i64,
                0,
                0,
                if r.chance(1, 3) { r.range(1, 64) } else { 0 },
            ])
        };
        p.extra.push(o);
    }
    p
}

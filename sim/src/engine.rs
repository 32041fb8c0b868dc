//! Executing plans: one plan = one forked process, whose outcome comes back through a pipe.
use crate::plan::*;
use crate::sys;
use serde::{Deserialize, Serialize};
use simstd::rt;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ processes

pub enum Reply {
    Data(Vec<u8>),
    /// killed by a signal, or exited without an answer
    Died(String),
    TimedOut,
    /// the environment ended it (memory guard)
    Killed,
}

fn pipe() -> (i32, i32) {
    let mut p = [0i32; 2];
    if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        panic!("pipe failed");
    }
    (p[0], p[1])
}

/// Reads everything until end of file or the deadline.
fn read_all(fd: i32, deadline: Instant) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let left = deadline.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return None;
        }
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, left.as_millis().min(1000) as i32 + 1) };
        if r <= 0 {
            continue;
        }
        let n = unsafe { libc::read(fd, buf.as_mut_ptr().cast(), buf.len()) };
        if n < 0 {
            if unsafe { *libc::__errno_location() } == libc::EINTR {
                continue;
            }
            return Some(out);
        }
        if n == 0 {
            return Some(out);
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
}

fn signal_name(s: i32) -> String {
    match s {
        libc::SIGSEGV => "SIGSEGV".into(),
        libc::SIGILL => "SIGILL".into(),
        libc::SIGABRT => "SIGABRT".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGFPE => "SIGFPE".into(),
        libc::SIGPIPE => "SIGPIPE".into(),
        libc::SIGTRAP => "SIGTRAP".into(),
        libc::SIGPROF => "SIGPROF".into(),
        n => format!("signal {n}"),
    }
}

/// Deserialisation without a nesting limit (expressions can be deep).
pub fn from_json<T: serde::de::DeserializeOwned>(d: &[u8]) -> serde_json::Result<T> {
    let mut de = serde_json::Deserializer::from_slice(d);
    de.disable_recursion_limit();
    let t = T::deserialize(&mut de)?;
    de.end()?;
    Ok(t)
}

pub struct Child {
    pid: i32,
    fd: i32,
}

/// Runs `f` in a forked process; what it returns is sent back.
pub fn fork_start(f: impl FnOnce() -> Vec<u8>) -> Child {
    let (r, w) = pipe();
    let parent = unsafe { libc::getpid() };
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        panic!("fork failed");
    }
    if pid == 0 {
        unsafe {
            libc::close(r);
            // nothing a process started outlives it, and nobody else holds its pipe open
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != parent {
                libc::_exit(76);
            }
        }
        let out = f();
        sys::raw_write(w, &out);
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(w) };
    Child { pid, fd: r }
}
pub fn fork_finish(c: Child, timeout: Duration) -> Reply {
    let data = read_all(c.fd, Instant::now() + timeout);
    let timed_out = data.is_none();
    if timed_out {
        unsafe { libc::kill(c.pid, libc::SIGKILL) };
    }
    unsafe { libc::close(c.fd) };
    let mut st = 0;
    unsafe {
        while libc::waitpid(c.pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
    }
    if timed_out {
        return Reply::TimedOut;
    }
    if libc::WIFSIGNALED(st) {
        if libc::WTERMSIG(st) == libc::SIGKILL {
            return Reply::Killed;
        }
        return Reply::Died(signal_name(libc::WTERMSIG(st)));
    }
    let d = data.unwrap();
    if libc::WEXITSTATUS(st) != 0 {
        return Reply::Died(format!("exit status {}", libc::WEXITSTATUS(st)));
    }
    Reply::Data(d)
}

/// Evaluates `f` first thing in a fresh process (nothing of the scenario has run there) and
/// returns its words; a crash is an answer too.
pub fn fresh(f: impl FnOnce() -> Vec<u64>) -> Result<Vec<u64>, String> {
    let c = fork_start(|| {
        let v = f();
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    });
    match fork_finish(c, REFERENCE_LIMIT) {
        Reply::Data(d) => {
            Ok(d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        }
        Reply::Died(s) => Err(format!("the reference process died: {s}")),
        // what takes for ever alone says nothing about histories
        Reply::TimedOut | Reply::Killed => Err("killed".into()),
    }
}

/// Real time for one reference process (less than for a plan).
pub const REFERENCE_LIMIT: Duration = Duration::from_secs(20);

pub fn timeout_for(p: &Plan) -> Duration {
    Duration::from_secs(if p.knob("slow") > 0 { 120 } else { 60 })
}

/// Executes a plan in its own process.
pub fn execute(p: &Plan) -> Outcome {
    execute_t(p, timeout_for(p))
}
pub fn execute_t(p: &Plan, timeout: Duration) -> Outcome {
    let child = fork_start(|| {
        let o = in_this_process(p);
        serde_json::to_vec(&o).unwrap()
    });
    match fork_finish(child, timeout) {
        Reply::Data(d) => from_json(&d).unwrap_or_else(|e| {
            let mut o = Outcome::default();
            o.fail("crash:no-answer", format!("the simulated process ended without an answer ({e})"));
            o
        }),
        Reply::Died(s) => {
            let mut o = Outcome::default();
            if p.scenario == "opt" && (s == "SIGABRT" || s == "SIGPROF") {
                o.fail("history:resources", format!(
                    "the optimiser, after its history, {}; every expression alone needs a small part of that",
                    if s == "SIGABRT" { "aborted (out of memory)" } else { "ran out of processor time" }));
                return o;
            }
            if p.knob("egraph") > 0 && s == "SIGABRT" {
                o.inconclusive = Some("the equality-saturation engine aborted".into());
                return o;
            }
            o.fail(&format!("crash:{s}"), format!("the simulated process was ended by {s}"));
            o
        }
        Reply::TimedOut => {
            let mut o = Outcome::default();
            if p.knob("egraph") > 0 {
                o.inconclusive = Some("equality saturation did not finish in time".into());
                return o;
            }
            o.fail("hang", format!("no answer within {timeout:?} of real time"));
            o
        }
        Reply::Killed => {
            let mut o = Outcome::default();
            o.inconclusive = Some("the simulated process was killed from outside".into());
            o
        }
    }
}

fn in_this_process(p: &Plan) -> Outcome {
    std::panic::set_hook(Box::new(|_| {}));
    sys::seed_randomness(p.hash_seed);
    let p2 = p.clone();
    // a thread of its own: thread-local hash keys are then drawn from the plan's seed
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            rt::set_clock(clock_of(&p2));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::scen::exec(&p2)));
            match r {
                Ok(o) => o,
                Err(e) => {
                    let mut o = Outcome::default();
                    o.fail("panic", format!("panicked outside any checked call: {}", panic_text(&*e)));
                    o
                }
            }
        })
        .unwrap();
    h.join().unwrap_or_default()
}

pub fn clock_of(p: &Plan) -> rt::Clock {
    match p.clock {
        ClockSpec::Step(n) => rt::Clock::Step(n),
        ClockSpec::Stalled => rt::Clock::Stalled,
        ClockSpec::Jumpy(s) => rt::Clock::Jumpy(s),
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if e.is::<rt::SimKill>() {
        "injected death".into()
    } else {
        "(no text)".into()
    }
}

// ------------------------------------------------------------------ simulated phase

/// Why a client operation did not return a value.
pub enum Stop {
    Killed,
    Panicked(String),
}
/// Runs one client operation; an injected death or a panic of the code under test is caught here.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Stop> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.is::<rt::SimKill>() {
                Err(Stop::Killed)
            } else {
                Err(Stop::Panicked(panic_text(&*e)))
            }
        }
    }
}

/// One client alone, under the scheduler (a wait nobody ends is then found at once), without faults.
pub fn quiet_phase<B>(p: &Plan, out: &mut Outcome, body: B) -> bool
where
    B: FnOnce() + Send + 'static,
{
    let cfg = rt::Config {
        strategy: rt::Strategy::Explicit { overrides: vec![] },
        faults: vec![],
        max_steps: u64::MAX,
        alloc_permille: 0,
        spurious_permille: 0,
        seed: p.seed,
        clock: clock_of(p),
    };
    let r = rt::run(cfg, vec![Box::new(body)]);
    out.steps += r.steps;
    out.sig ^= r.signature;
    out.sim_ns += r.sim_ns;
    match r.end {
        rt::End::Done => true,
        rt::End::Deadlock(w) => {
            out.fail("deadlock", format!("a single client waits for ever: {w}"));
            false
        }
        rt::End::StepLimit => {
            out.fail("no-progress", "a single client spins for ever".into());
            false
        }
    }
}

/// Runs `n` simulated threads under the plan's scheduler, clock and thread faults.
/// Returns false if they did not all finish (then `out` has the violation).
pub fn sim_phase<B>(p: &Plan, n: usize, out: &mut Outcome, body: B) -> bool
where
    B: Fn(usize) + Send + Sync + 'static,
{
    let cfg = rt::Config {
        strategy: match &p.sched {
            Sched::Random { seed, permille } => {
                rt::Strategy::Random { seed: *seed, permille: *permille }
            }
            Sched::Pct { seed, depth, len } => {
                rt::Strategy::Pct { seed: *seed, depth: *depth, len: *len }
            }
            Sched::Explicit { overrides } => rt::Strategy::Explicit { overrides: overrides.clone() },
        },
        faults: p
            .faults
            .iter()
            .map(|f| match *f {
                Fault::Kill { thread, point } => rt::ThreadFault::Kill { thread, point },
                Fault::Stall { thread, point, steps } => {
                    rt::ThreadFault::Stall { thread, point, steps }
                }
            })
            .collect(),
        max_steps: p.max_steps,
        alloc_permille: p.alloc_permille,
        spurious_permille: p.spurious_permille,
        seed: p.seed,
        clock: clock_of(p),
    };
    let body = Arc::new(body);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for i in 0..n {
        let b = body.clone();
        bodies.push(Box::new(move || b(i)));
    }
    let r = rt::run(cfg, bodies);
    out.steps += r.steps;
    out.decisions += r.decisions;
    out.switches += r.switches;
    out.overrides = r.overrides.clone();
    out.sig ^= r.signature;
    out.sim_ns += r.sim_ns;
    out.count("fault: thread death", r.kills_fired);
    out.count("fault: thread stalled", r.stalls_fired);
    out.count("fault: spurious wake-up or weak failure", r.spurious_fired);
    out.count("thread blocked on a lock", r.blocks);
    out.count("thread switch", r.switches);
    out.count("preemption point inside an allocation", r.kinds[rt::Point::Alloc as usize]);
    match r.end {
        rt::End::Done => true,
        rt::End::Deadlock(w) => {
            out.fail("deadlock", format!("no thread can run: {w}"));
            false
        }
        rt::End::StepLimit => {
            out.fail("no-progress", format!("not finished after {} scheduling points ({} of them yields)", r.steps, r.kinds[rt::Point::Yield as usize]));
            false
        }
    }
}

/// History of one run.
pub struct Log<T>(Mutex<Vec<T>>);
impl<T> Log<T> {
    pub fn new() -> Arc<Self> {
        Arc::new(Log(Mutex::new(vec![])))
    }
    pub fn push(&self, t: T) {
        rt::atomically(|| self.0.lock().unwrap_or_else(|e| e.into_inner()).push(t));
    }
    pub fn take(&self) -> Vec<T> {
        std::mem::take(&mut *self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
}

pub fn op_point() {
    rt::soft_point(rt::Point::Op, 0);
}

// ------------------------------------------------------------------ minimisation

fn fails_same(p: &Plan, class: &str, n: &mut u64) -> Option<Outcome> {
    *n += 1;
    let t = if class == "hang" { Duration::from_secs(20) } else { Duration::from_secs(30) };
    let o = execute_t(p, t);
    match &o.violation {
        Some(v) if v.class == class => Some(o),
        _ => None,
    }
}

/// Removes operations, threads, faults and scheduling choices while the same class of violation
/// persists. Returns the smaller plan, its outcome and the number of executions.
pub fn minimise(orig: &Plan, first: &Outcome, budget: Duration) -> (Plan, Outcome, u64) {
    let class = first.violation.as_ref().unwrap().class.clone();
    let start = Instant::now();
    let mut n = 0;
    let mut best = orig.clone();
    let mut best_o = first.clone();
    let try_it = |cand: Plan, best: &mut Plan, best_o: &mut Outcome, n: &mut u64| -> bool {
        if start.elapsed() > budget {
            return false;
        }
        if let Some(o) = fails_same(&cand, &class, n) {
            *best = cand;
            *best_o = o;
            true
        } else {
            false
        }
    };
    // the schedule as explicit choices
    if !matches!(best.sched, Sched::Explicit { .. }) {
        let mut cand = best.clone();
        cand.sched = Sched::Explicit { overrides: best_o.overrides.clone() };
        if !try_it(cand, &mut best, &mut best_o, &mut n) {
            let mut cand = best.clone();
            cand.sched = Sched::Explicit { overrides: vec![] };
            try_it(cand, &mut best, &mut best_o, &mut n);
        }
    }
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        // no scheduling choices, no allocation preemption, plain clock
        if let Sched::Explicit { overrides } = &best.sched {
            if !overrides.is_empty() {
                let mut cand = best.clone();
                cand.sched = Sched::Explicit { overrides: vec![] };
                progress |= try_it(cand, &mut best, &mut best_o, &mut n);
            }
        }
        if best.alloc_permille > 0 {
            let mut cand = best.clone();
            cand.alloc_permille = 0;
            progress |= try_it(cand, &mut best, &mut best_o, &mut n);
        }
        if best.clock != ClockSpec::Step(1000) {
            let mut cand = best.clone();
            cand.clock = ClockSpec::Step(1000);
            progress |= try_it(cand, &mut best, &mut best_o, &mut n);
        }
        // whole threads
        let mut t = 0;
        while t < best.threads.len() {
            if !best.threads[t].is_empty() {
                let mut cand = best.clone();
                cand.threads[t].clear();
                progress |= try_it(cand, &mut best, &mut best_o, &mut n);
            }
            t += 1;
        }
        // operations: halves, quarters, ... single ones
        for list in 0..best.threads.len() + 3 {
            let len = ops(&best, list).len();
            let mut chunk = len.div_ceil(2).max(1);
            loop {
                let mut at = 0;
                while at < ops(&best, list).len() {
                    let mut cand = best.clone();
                    let l = ops_mut(&mut cand, list);
                    let hi = (at + chunk).min(l.len());
                    l.drain(at..hi);
                    if try_it(cand, &mut best, &mut best_o, &mut n) {
                        progress = true;
                    } else {
                        at += chunk;
                    }
                    if start.elapsed() > budget {
                        break;
                    }
                }
                if chunk == 1 || start.elapsed() > budget {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
        // faults
        let mut i = 0;
        while i < best.faults.len() {
            let mut cand = best.clone();
            cand.faults.remove(i);
            if try_it(cand, &mut best, &mut best_o, &mut n) {
                progress = true;
            } else {
                i += 1;
            }
        }
        // scheduling choices
        let mut chunk = match &best.sched {
            Sched::Explicit { overrides } => overrides.len().div_ceil(2),
            _ => 0,
        };
        while chunk > 0 && start.elapsed() < budget {
            let mut at = 0;
            loop {
                let Sched::Explicit { overrides } = &best.sched else { break };
                if at >= overrides.len() {
                    break;
                }
                let mut o = overrides.clone();
                let hi = (at + chunk).min(o.len());
                o.drain(at..hi);
                let mut cand = best.clone();
                cand.sched = Sched::Explicit { overrides: o };
                if try_it(cand, &mut best, &mut best_o, &mut n) {
                    progress = true;
                } else {
                    at += chunk;
                }
                if start.elapsed() > budget {
                    break;
                }
            }
            chunk /= 2;
        }
        // expressions: replace a node by one of its children
        for i in 0..best.exprs.len() {
            if best.exprs.len() > 24 || best.exprs[i].size() > 60 {
                break;
            }
            let mut k = 0;
            while k < best.exprs[i].size() {
                let kids = {
                    let mut e = best.exprs[i].clone();
                    let mut kk = k;
                    let p = nth_mut(&mut e, &mut kk).unwrap();
                    unsafe { (*p).kids().len() }
                };
                let mut done = false;
                for j in 0..kids {
                    let mut cand = best.clone();
                    let mut kk = k;
                    let p = nth_mut(&mut cand.exprs[i], &mut kk).unwrap();
                    unsafe {
                        let kid = (*p).kids()[j].clone();
                        *p = kid;
                    }
                    if try_it(cand, &mut best, &mut best_o, &mut n) {
                        progress = true;
                        done = true;
                        break;
                    }
                }
                if !done {
                    k += 1;
                }
                if start.elapsed() > budget {
                    break;
                }
            }
        }
    }
    (best, best_o, n)
}
fn ops(p: &Plan, list: usize) -> &Vec<Op> {
    match list {
        0 => &p.pre,
        1 => &p.post,
        2 => &p.extra,
        n => &p.threads[n - 3],
    }
}
fn ops_mut(p: &mut Plan, list: usize) -> &mut Vec<Op> {
    match list {
        0 => &mut p.pre,
        1 => &mut p.post,
        2 => &mut p.extra,
        n => &mut p.threads[n - 3],
    }
}

// ------------------------------------------------------------------ search

#[derive(Serialize, Deserialize, Default)]
pub struct Summary {
    pub runs: u64,
    pub steps: u64,
    #[serde(default)]
    pub most: u64,
    pub decisions: u64,
    pub switches: u64,
    pub evals: u64,
    pub sim_ns: u64,
    pub nontrivial: u64,
    pub sigs: Vec<u64>,
    pub hists: Vec<u64>,
    pub distinct: Vec<u64>,
    pub counters: std::collections::BTreeMap<String, u64>,
    pub inconclusive: std::collections::BTreeMap<String, u64>,
    pub bad: Option<(u64, Plan, Outcome)>,
    pub known: Vec<String>,
    pub samples: Vec<(u64, String)>,
}

pub struct Budget {
    pub runs: u64,
    pub wall: Duration,
    pub workers: u64,
}

pub struct SharedFlag(*mut AtomicBool);
impl SharedFlag {
    pub fn new() -> Self {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        SharedFlag(p as *mut AtomicBool)
    }
    fn get(&self) -> &AtomicBool {
        unsafe { &*self.0 }
    }
}

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in prop.bytes() {
        s = (s ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    s ^= i.wrapping_mul(0xD1B5_4A32_D192_ED03);
    rt::splitmix(&mut s)
}

pub fn search(
    prop: &str,
    tier: &str,
    seed: u64,
    b: &Budget,
    is_known: &(dyn Fn(&Violation) -> Option<String>),
) -> Summary {
    let stop = SharedFlag::new();
    let t0 = Instant::now();
    let mut kids = vec![];
    for w in 0..b.workers {
        kids.push(fork_start(|| {
            let mut s = Summary::default();
            let mut sigs = std::collections::BTreeSet::new();
            let mut hists = std::collections::BTreeSet::new();
            let mut both = std::collections::BTreeSet::new();
            let mut i = w;
            while i < b.runs && t0.elapsed() < b.wall && !stop.get().load(SeqCst) {
                let rs = run_seed(seed, prop, i);
                let p = crate::scen::generate(prop, tier, rs, i);
                let o = execute(&p);
                s.runs += 1;
                s.steps += o.steps;
                s.most = s.most.max(o.steps);
                s.decisions += o.decisions;
                s.switches += o.switches;
                s.evals += o.evals;
                s.sim_ns += o.sim_ns;
                for (k, v) in &o.counters {
                    *s.counters.entry(k.clone()).or_insert(0) += v;
                }
                if let Some(r) = &o.inconclusive {
                    *s.inconclusive.entry(r.clone()).or_insert(0) += 1;
                }
                if o.nontrivial {
                    s.nontrivial += 1;
                    both.insert(o.sig ^ o.hist.rotate_left(31) ^ p.hash_seed);
                }
                sigs.insert(o.sig);
                hists.insert(o.hist);
                if let Some(v) = &o.violation {
                    if let Some(k) = is_known(v) {
                        if !s.known.contains(&k) {
                            s.known.push(k);
                        }
                    } else {
                        s.bad = Some((i, p, o));
                        stop.get().store(true, SeqCst);
                        break;
                    }
                } else if s.samples.len() < 2 && o.nontrivial {
                    s.samples.push((i, crate::scen::describe(&p, &o)));
                }
                i += b.workers;
            }
            s.sigs = sigs.into_iter().collect();
            s.hists = hists.into_iter().collect();
            s.distinct = both.into_iter().collect();
            serde_json::to_vec(&s).unwrap()
        }));
    }
    let mut total = Summary::default();
    let mut sigs = std::collections::BTreeSet::new();
    let mut hists = std::collections::BTreeSet::new();
    let mut both = std::collections::BTreeSet::new();
    for k in kids {
        let s: Summary = match fork_finish(k, b.wall + Duration::from_secs(400)) {
            Reply::Data(d) => match from_json(&d) {
                Ok(s) => s,
                Err(e) => panic!("worker answer: {e}"),
            },
            Reply::Died(x) => panic!("a worker died: {x}"),
            _ => {
                *total.inconclusive.entry("a worker did not finish".into()).or_insert(0) += 1;
                continue;
            }
        };
        total.runs += s.runs;
        total.steps += s.steps;
        total.most = total.most.max(s.most);
        total.decisions += s.decisions;
        total.switches += s.switches;
        total.evals += s.evals;
        total.sim_ns += s.sim_ns;
        total.nontrivial += s.nontrivial;
        for (k, v) in s.counters {
            *total.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in s.inconclusive {
            *total.inconclusive.entry(k).or_insert(0) += v;
        }
        for k in s.known {
            if !total.known.contains(&k) {
                total.known.push(k);
            }
        }
        sigs.extend(s.sigs);
        hists.extend(s.hists);
        both.extend(s.distinct);
        total.samples.extend(s.samples);
        if let Some(bad) = s.bad {
            if total.bad.as_ref().map_or(true, |b| bad.0 < b.0) {
                total.bad = Some(bad);
            }
        }
    }
    total.samples.sort();
    total.samples.truncate(4);
    total.sigs = sigs.into_iter().collect();
    total.hists = hists.into_iter().collect();
    total.distinct = both.into_iter().collect();
    total
}

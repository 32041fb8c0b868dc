//! The scenarios: who generates, executes and judges the plans of each property.
use crate::plan::*;
pub mod cache;
pub mod dens;
pub mod jit;
pub mod mem;
pub mod memo;
pub mod opt;
pub mod pool;
pub mod reg;
pub mod runs;
pub mod work;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C35"];

pub struct Info {
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C09" | "C12" | "C18" => 60,
        "C06" | "C07" | "C08" | "C10" | "C11" => 60,
        _ => 45,
    };
    if tier == "thorough" { (4_000_000, 780) } else { (40_000, quick) }
}

pub fn info(prop: &str) -> Info {
    const SIMSTD: &str = "std's locks, atomics, threads, clocks, sleeping and hash seeds (simstd: seeded scheduler and seams); malloc (seeded preemption, refusals)";
    const SEQ: &str = "sequentially consistent memory; scheduling points at every lock, atomic, thread operation, operation boundary and (seeded) allocation";
    const FORK: &str = "the reference is the same call made first thing in a forked pristine process";
    let (rule, real, stub): (&'static str, &'static str, &'static str) = match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" => (
            "a run counts as non-trivial when at least three cached requests were answered and judged; distinct by hash over results, counters and schedule",
            "symbolic-math: expr caches, evaluate, simplify, in full",
            SIMSTD,
        ),
        "C06" | "C07" | "C08" | "C10" | "C19" | "C35" => (
            "non-trivial: at least three calls, evaluations or memory balances, or (C19, C35) one compilation, were judged; distinct by hash over answers and schedule",
            "symbolic-math jit, measures-bayesian jit, cranelift, all in full; the generated machine code runs natively",
            "mmap/mprotect/munmap answers (real calls, seeded refusals); std locks, atomics, threads of the library (simstd); cranelift's own std is the real one",
        ),
        "C09" => (
            "non-trivial: the transcript has at least three entries and at least two differently set up processes finished it; distinct by hash over the transcript",
            "all seven crates, cranelift and egglog in full, in separate processes",
            "clock, hash seeds, allocator fill and addresses (seeded); std locks and threads of the library (simstd)",
        ),
        "C11" => (
            "non-trivial: at least one expression was optimised after another and compared; distinct by hash over answers",
            "symbolic-math optimization, egglog, in full",
            "clock; std of the library (simstd); egglog's own std is the real one",
        ),
        "C12" => (
            "non-trivial: at least three operations were compared with their results under working streams; distinct by hash over the results",
            "all seven crates, cranelift and egglog in full",
            "write/writev to descriptors 1 and 2 (recorded and failed as seeded)",
        ),
        "C13" | "C14" => (
            "non-trivial: at least three queries were answered and judged; distinct by hash over the answers",
            "measures-core CachedLogDensity in full",
            "the wrapped log-density (seeded values, panics, re-entrant queries); keys with seeded hash collisions; hash seeds",
        ),
        "C15" => (
            "non-trivial: more than two answers were compared with a fresh process; distinct by hash over answers and schedule",
            "measures-core, measures-combinators, measures-distributions, measures-exponential-family in full",
            "user-supplied measures and transformations (yield, panic, evaluate other densities as seeded); std of the library (simstd)",
        ),
        "C18" => (
            "non-trivial: the transcript has at least three entries and at least two differently set up processes finished it; distinct by hash over the transcript",
            "all seven crates, cranelift and egglog in full, in separate processes",
            "the kernel's file, network and process calls (recorded and refused), getenv (seeded), resource limits, working directory",
        ),
        "C17" => (
            "non-trivial: the rounds ran through; distinct by hash over the first round's answers",
            "all seven crates and cranelift in full",
            "malloc (counted), mmap/mprotect (seeded refusals), std locks, atomics, threads of the library (simstd), user-supplied code (panics as seeded)",
        ),
        _ => (
            "non-trivial: at least three lookups or uses of patterns were judged against the model; distinct by hash over the answers",
            "measures-exponential-family auto_jit registry in full",
            "user-supplied patterns (fail, panic, yield as seeded); std of the library (simstd)",
        ),
    };
    let assumptions: &'static [&'static str] = match prop {
        "C03" | "C04" | "C13" | "C14" | "C16" => &[SEQ],
        "C09" => &[SEQ, "processes on this machine and this build only"],
        "C18" => &[SEQ, "what reaches outside the process is one of the system calls the filter lists, on x86-64 Linux"],
        "C17" => &[SEQ, "memory is what Rust's global allocator gave out; rounds are compared after a fixed number of repetitions"],
        "C12" => &["output leaves the process through libc's write, writev, or std's handles built on them"],
        _ => &[SEQ, FORK],
    };
    Info { level: "exploration", rule, real, stub, assumptions }
}

pub fn generate(prop: &str, tier: &str, seed: u64, i: u64) -> Plan {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" => cache::generate(prop, tier, seed, i),
        "C06" | "C07" | "C08" | "C10" | "C19" | "C35" => jit::generate(prop, tier, seed, i),
        "C09" | "C12" | "C18" => runs::generate(prop, tier, seed, i),
        "C11" => opt::generate(prop, tier, seed, i),
        "C15" => dens::generate(prop, tier, seed, i),
        "C16" => reg::generate(prop, tier, seed, i),
        "C17" => mem::generate(prop, tier, seed, i),
        "C13" | "C14" => memo::generate(prop, tier, seed, i),
        _ => panic!("unknown property {prop}"),
    }
}

pub fn exec(p: &Plan) -> Outcome {
    match p.scenario.as_str() {
        "cache" => cache::exec(p),
        "jit" => jit::exec(p),
        "opt" => opt::exec(p),
        "dens" => dens::exec(p),
        "reg" => reg::exec(p),
        "memo" => memo::exec(p),
        "mem" => mem::exec(p),
        "runs" | "streams" | "outside" => runs::exec(p),
        s => panic!("unknown scenario {s}"),
    }
}

pub fn describe(p: &Plan, o: &Outcome) -> String {
    let cut = |s: String| if s.chars().count() > 700 { s.chars().take(700).collect::<String>() + "..." } else { s };
    let ops = |l: &Vec<Op>| {
        l.iter().map(|o| format!("{}{:?}", o.0, o.1)).collect::<Vec<_>>().join(" ")
    };
    cut(format!(
        "{} seed {:#x}: before [{}] threads [{}] after [{}] faults {:?} schedule {} -> {} scheduling points, {} switches, {} results checked",
        p.scenario,
        p.seed,
        ops(&p.pre),
        p.threads.iter().map(ops).collect::<Vec<_>>().join(" | "),
        ops(&p.post),
        p.faults,
        match &p.sched {
            Sched::Random { permille, .. } => format!("random {permille}/1000"),
            Sched::Pct { depth, .. } => format!("priorities, {depth} changes"),
            Sched::Explicit { overrides } => format!("{overrides:?}"),
        },
        o.steps,
        o.switches,
        o.evals
    ))
}

//! dsim: deterministic simulation of the measures crates with fault injection.
//!
//! dsim check --prop ID --tier quick|thorough [--seed N] [--runs N] [--wall S]
//! dsim replay FILE
//! dsim selftest [--prop ID] [--runs N]     same plans twice, other worker counts: equal outcomes?
//! dsim show --prop ID --run I [--seed N]   prints a plan and its outcome
mod engine;
mod plan;
mod scen;
mod sys;

use engine::*;
use plan::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: sys::SimAlloc = sys::SimAlloc;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Known findings: violations of this exact kind are reported as such and do not fail the check.
struct Known(Vec<(String, String, String, String)>);
impl Known {
    fn load() -> Known {
        let mut v = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
            for l in t.lines() {
                // known: property=<id> class=<class> match=<text in the message> :: <what fails>
                if let Some(r) = l.strip_prefix("known: ") {
                    let (head, what) = r.split_once(" :: ").unwrap_or((r, r));
                    let get = |k: &str| {
                        head.split_once(&format!("{k}=")).map(|(_, x)| {
                            if k == "match" { x.to_string() }
                            else { x.split(' ').next().unwrap_or("").to_string() }
                        })
                    };
                    if let (Some(p), Some(c), Some(m)) = (get("property"), get("class"), get("match")) {
                        v.push((p, c, m, what.to_string()));
                    }
                }
            }
        }
        Known(v)
    }
    fn find(&self, prop: &str, v: &Violation) -> Option<String> {
        self.0
            .iter()
            .find(|k| k.0 == prop && k.1 == v.class && v.msg.contains(&k.2))
            .map(|k| k.3.clone())
    }
}

/// Addresses are part of a run: the layout of the process is fixed, once, by starting it again.
fn fix_addresses() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("DSIM_AGAIN").is_some() {
            return;
        }
        if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    // comes back only if it fails
    let _ = std::process::Command::new("/proc/self/exe")
        .args(std::env::args_os().skip(1))
        .env("DSIM_AGAIN", "1")
        .exec();
}

fn main() {
    fix_addresses();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = arg(&args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let code = match cmd.as_str() {
        "check" => check(&args, seed),
        "replay" => replay(&args),
        "selftest" => selftest(&args, seed),
        "show" => show(&args, seed),
        _ => {
            eprintln!("usage: dsim check|replay|selftest|show ...");
            2
        }
    };
    std::process::exit(code);
}

fn check(args: &[String], seed: u64) -> i32 {
    let t0 = Instant::now();
    let prop = arg(args, "--prop").expect("--prop");
    let tier = arg(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let (mut runs, mut wall) = scen::budget(&prop, &tier);
    if let Some(r) = arg(args, "--runs") {
        runs = r.parse().unwrap();
    }
    if let Some(r) = arg(args, "--wall") {
        wall = r.parse().unwrap();
    }
    let workers = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 16)
    });
    println!("{prop}: tier {tier}, seed {seed}, up to {runs} simulated runs, {workers} workers");
    let known = Known::load();
    let b = Budget { runs, wall: Duration::from_secs(wall), workers };
    let mut s = search(&prop, &tier, seed, &b, &|v| known.find(&prop, v));
    for k in &s.known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let searched = t0.elapsed();
    let mut violations = 0;
    let mut replay_line = None;
    if let Some((i, p, o)) = s.bad.take() {
        let v = o.violation.clone().unwrap();
        println!("run {i} (seed {:#018x}): {}: {}", p.seed, v.class, v.msg);
        let mut confirmed = false;
        for _ in 0..if v.class == "hang" { 1 } else { 3 } {
            let again = execute_t(&p, timeout_for(&p) * 2);
            if again.violation.as_ref().map(|x| &x.class) == Some(&v.class) {
                confirmed = true;
                break;
            }
        }
        if !confirmed && v.class == "hang" {
            // real time is not simulated: a run starved by the machine is no finding
            println!("not confirmed on a second execution; counted as inconclusive");
            *s.inconclusive.entry("slow run".into()).or_insert(0) += 1;
        } else {
            violations = 1;
            let (mp, mo, n) = if confirmed {
                minimise(&p, &o, Duration::from_secs(if tier == "quick" { 60 } else { 180 }))
            } else {
                println!("the violation did not repeat on re-execution; the plan is reported as it was");
                (p.clone(), o.clone(), 0)
            };
            let mut mp = mp;
            mp.expect = mo.violation.clone();
            let dir = format!("{}/replays", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{prop}-{:016x}.json", p.seed);
            std::fs::write(&path, serde_json::to_string_pretty(&mp).unwrap()).expect("write replay file");
            println!(
                "minimised in {n} executions: {} operations (was {}), {} faults (was {}), {} scheduling choices",
                mp.n_ops(),
                p.n_ops(),
                mp.faults.len(),
                p.faults.len(),
                match &mp.sched { Sched::Explicit { overrides } => overrides.len(), _ => 0 }
            );
            let mv = mo.violation.clone().unwrap();
            println!("{}: {}", mv.class, mv.msg);
            println!("replay with: {}/check.sh replay {path}", verif_dir());
            replay_line = Some(format!("VIOLATION property={prop} replay={path}"));
        }
    }
    let hours = searched.as_secs_f64() / 3600.0;
    let faults: BTreeMap<&String, &u64> =
        s.counters.iter().filter(|(k, _)| k.starts_with("fault: ")).collect();
    let probes: BTreeMap<&String, &u64> =
        s.counters.iter().filter(|(k, _)| !k.starts_with("fault: ")).collect();
    let info = scen::info(&prop);
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": info.level,
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.distinct.len(),
            "rule": info.rule,
            "samples": s.samples.iter().map(|(i, d)| format!("run {i}: {d}")).collect::<Vec<_>>(),
            "simulated_runs": s.runs,
            "nontrivial_runs": s.nontrivial,
            "seeds_per_hour": (s.runs as f64 / hours.max(1e-9)) as u64,
            "checked_results": s.evals,
            "scheduling_points": s.steps,
            "most_scheduling_points_in_one_run": s.most,
            "scheduling_decisions": s.decisions,
            "thread_switches": s.switches,
            "simulated_time_s": s.sim_ns as f64 / 1e9,
            "distinct_interleavings": s.sigs.len(),
            "interleaving_measure": "hash over every scheduling point passed (thread, kind of point, object) and every switch",
            "distinct_histories": s.hists.len(),
            "faults_injected": faults,
            "reach_probes": probes,
            "inconclusive_runs": s.inconclusive,
            "real_components": info.real,
            "stub_components": info.stub,
            "known_findings_seen": s.known,
        },
        "assumptions": info.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": violations,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("write evidence");
    println!(
        "{} runs, {} distinct non-trivial, {} checked results, {} scheduling points, faults {:?}, inconclusive {:?}, {:.1} s",
        s.runs, s.distinct.len(), s.evals, s.steps, faults, s.inconclusive, t0.elapsed().as_secs_f64()
    );
    if let Some(l) = replay_line {
        println!("{l}");
        return 1;
    }
    println!("{prop} held on everything explored");
    0
}

fn replay(args: &[String]) -> i32 {
    let path = args.get(2).expect("replay file");
    let p: Plan = from_json(&std::fs::read(path).expect("read")).expect("plan");
    let o = execute_t(&p, timeout_for(&p) * 2);
    println!("{}", scen::describe(&p, &o));
    match (&o.violation, &p.expect) {
        (Some(v), e) => {
            let same = e.as_ref().map_or(true, |e| e.class == v.class);
            println!("{}: {}", v.class, v.msg);
            if !same {
                println!("(recorded: {})", e.as_ref().unwrap().class);
            }
            println!("VIOLATION property={} replay={path}", p.prop);
            1
        }
        (None, _) => {
            println!("no violation on the current tree {}", o.inconclusive.unwrap_or_default());
            0
        }
    }
}

/// Determinism: every plan executed twice here and once in a worker must give the same outcome.
fn selftest(args: &[String], seed: u64) -> i32 {
    let only = arg(args, "--prop");
    let runs: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
    let mut bad = 0;
    for prop in scen::ALL {
        if only.as_deref().map_or(false, |o| o != *prop) {
            continue;
        }
        let digest = |workers: u64| -> BTreeMap<u64, String> {
            let mut kids = vec![];
            for w in 0..workers {
                kids.push(fork_start(|| {
                    let mut m = BTreeMap::new();
                    let mut i = w;
                    while i < runs {
                        let p = scen::generate(prop, "quick", run_seed(seed, prop, i), i);
                        let o = execute(&p);
                        let s = serde_json::to_string(&o).unwrap();
                        m.insert(i, s);
                        i += workers;
                    }
                    serde_json::to_vec(&m).unwrap()
                }));
            }
            let mut m = BTreeMap::new();
            for k in kids {
                if let Reply::Data(d) = fork_finish(k, Duration::from_secs(3600)) {
                    m.extend(from_json::<BTreeMap<u64, String>>(&d).unwrap());
                }
            }
            m
        };
        let (a, b, c) = (digest(8), digest(3), digest(12));
        let mut diff = 0;
        for i in 0..runs {
            if a.get(&i) != b.get(&i) || a.get(&i) != c.get(&i) {
                if diff == 0 {
                    println!("{prop} run {i}:\n  {:?}\n  {:?}\n  {:?}", a.get(&i), b.get(&i), c.get(&i));
                }
                diff += 1;
            }
        }
        println!("{prop}: {runs} plans x 3 executions, {diff} differ");
        bad += diff;
    }
    (bad > 0) as i32
}

fn show(args: &[String], seed: u64) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let i: u64 = arg(args, "--run").and_then(|s| s.parse().ok()).unwrap_or(0);
    let p = scen::generate(&prop, "quick", run_seed(seed, &prop, i), i);
    if args.iter().any(|a| a == "--plan") {
        println!("{}", serde_json::to_string_pretty(&p).unwrap());
    }
    let t = Instant::now();
    let o = execute(&p);
    println!("{}", scen::describe(&p, &o));
    println!("{}", serde_json::to_string_pretty(&o).unwrap());
    println!("{:?}", t.elapsed());
    0
}

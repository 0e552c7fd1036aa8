//! `mc check ID TIER`   decides a property (exit 0 / 1 / 2)
//! `mc replay FILE`     re-executes a recorded violation and prints its trace
//! `mc list`            lists checks and trees
mod alloc_guard;
mod app;
mod checks;
mod drive;
mod explore;
mod fakegss;
mod kit;
mod mechs;
mod refscram;
mod writers;

use explore::{Ch, Engine, ExecEnd, Slots, TreeStats, Violation};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc_guard::Guard = alloc_guard::Guard;

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn workers() -> usize {
    std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    explore::install_panic_hook();
    let code = match a.get(1).copied() {
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
                for t in &c.trees {
                    println!("  {:<24} {}", t.name, t.what);
                }
            }
            0
        }
        Some("check") => supervise(a[2], a.get(3).copied().unwrap_or("quick")),
        Some("run") => run(a[2], a[3], a.get(4).copied()),
        Some("again") => {
            // explores one tree and tells the signatures found
            let check = checks::get(a[2]).expect("check");
            let i = check.trees.iter().position(|t| t.name == a[4]).expect("tree");
            let eng = Arc::new(Engine::new(workers(), None, None, Default::default()));
            let mut viol = BTreeMap::new();
            if let Err(e) = eng.explore(i, &check.trees[i], a[3] == "thorough", &mut viol) {
                eprintln!("{e}");
            }
            for (s, v) in &viol {
                println!("{}", json!([s, v.detail]));
            }
            0
        }
        Some("one") => one(a[2], a[3], a[4].parse().unwrap(), &parse_path(a[5]), false, None),
        Some("replay") => replay(a[2]),
        Some("helper") => checks::helper(&a[2..]),
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}

fn parse_path(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn path_str(p: &[u32]) -> String {
    p.iter().map(u32::to_string).collect::<Vec<_>>().join(",")
}

/// Parent: runs the exploration in a child, so that a crash of the library does not end the check.
fn supervise(id: &str, tier: &str) -> i32 {
    if checks::get(id).is_none() {
        eprintln!("no check for {id}");
        return 2;
    }
    let slots = std::env::temp_dir().join(format!("mc-slots-{}-{}", id, std::process::id()));
    let me = std::env::current_exe().expect("current_exe");
    let st = Command::new(&me).args(["run", id, tier]).arg(&slots).status();
    let code = match st {
        Ok(s) => {
            if let Some(c) = s.code() {
                c
            } else {
                let sig = s.signal().unwrap_or(0);
                eprintln!("the exploration of {id} was ended by signal {sig}; looking for the execution");
                crash(id, tier, &slots.to_string_lossy(), &me)
            }
        }
        Err(e) => {
            eprintln!("cannot start the exploration: {e}");
            2
        }
    };
    std::fs::remove_file(&slots).ok();
    code
}

fn crash(id: &str, tier: &str, slots: &str, me: &std::path::Path) -> i32 {
    let n = workers();
    let Ok(s) = Slots::open(slots, n) else { return 2 };
    let check = checks::get(id).unwrap();
    for w in 0..n {
        let Some((t, p)) = s.get(w) else { continue };
        for _ in 0..3 {
            let out = Command::new(me)
                .args(["one", id, tier, &t.to_string(), &path_str(&p)])
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .output();
            let Ok(out) = out else { continue };
            if let Some(sig) = out.status.signal() {
                if matches!(sig, libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE) {
                    let err = String::from_utf8_lossy(&out.stderr).into_owned();
                    let v = Violation {
                        sig: format!("crash:signal {sig}"),
                        detail: format!("the process was ended by signal {sig} ({})", err.trim()),
                        tree: t,
                        path: p.clone(),
                        trace: vec![],
                        devs: 0,
                    };
                    let f = write_replay(id, tier, check.trees[t].name, &v, 0, false);
                    println!("{}: {}", v.sig, v.detail);
                    println!("VIOLATION property={id} replay={f}");
                    evidence(id, tier, &check, &[], 0, 1, Duration::ZERO, vec![]);
                    return 1;
                }
            }
        }
    }
    eprintln!("the crash could not be reproduced");
    2
}

fn write_replay(id: &str, tier: &str, tree: &str, v: &Violation, n: usize, history: bool) -> String {
    let dir = format!("{}/replays", root());
    std::fs::create_dir_all(&dir).ok();
    let f = format!("{dir}/{id}-{n}.json");
    let j = json!({
        "property": id, "tier": tier, "tree": tree, "path": v.path, "history": history, "signature": v.sig,
        "detail": v.detail, "trace": v.trace, "replay": format!("bash check.sh replay replays/{id}-{n}.json"),
    });
    std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap() + "\n").ok();
    f
}

/// Re-executes one path.  Exit 0: nothing found, 1: violation.
fn one(id: &str, tier: &str, t: usize, path: &[u32], verbose: bool, want: Option<&str>) -> i32 {
    let Some(check) = checks::get(id) else { return 2 };
    let tree = &check.trees[t];
    let thorough = tier == "thorough";
    let bound = if thorough { tree.bound.1 } else { tree.bound.0 };
    let mut ch = Ch::new(path, bound, thorough, verbose);
    match explore::execute(tree, &mut ch) {
        ExecEnd::EngineError(e) | ExecEnd::Diverged(e) => {
            eprintln!("{e}");
            2
        }
        ExecEnd::Done => {
            if verbose {
                for l in &ch.trace {
                    println!("  {l}");
                }
            }
            match &ch.failure {
                Some((s, d)) if want.map_or(true, |w| w == s) => {
                    println!("{s}: {d}");
                    1
                }
                Some((s, d)) => {
                    println!("another violation: {s}: {d}");
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
    }
}

/// Is the violation found again when a fresh process explores the same tree?
fn again(id: &str, tier: &str, tree: &str, sig: &str) -> bool {
    let Ok(me) = std::env::current_exe() else { return false };
    let Ok(o) = Command::new(me).args(["again", id, tier, tree]).stderr(Stdio::null()).output() else { return false };
    String::from_utf8_lossy(&o.stdout)
        .lines()
        .filter_map(|l| serde_json::from_str::<(String, String)>(l).ok())
        .any(|x| x.0 == sig)
}

fn replay(f: &str) -> i32 {
    let j: Value = match std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {f}");
            return 2;
        }
    };
    let id = j["property"].as_str().unwrap();
    let tree = j["tree"].as_str().unwrap();
    let path: Vec<u32> = j["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let Some(check) = checks::get(id) else { return 2 };
    let Some(t) = check.trees.iter().position(|x| x.name == tree) else { return 2 };
    println!("{id} {tree} {path:?}");
    if j["history"] == json!(true) {
        let sig = j["signature"].as_str().unwrap_or("");
        let r = again(id, j["tier"].as_str().unwrap_or("quick"), tree, sig);
        println!("{}", if r { format!("VIOLATION property={id} replay={f}") } else { "no violation".into() });
        return i32::from(r);
    }
    let r = one(id, j["tier"].as_str().unwrap_or("quick"), t, &path, true, j["signature"].as_str());
    if r == 1 {
        println!("VIOLATION property={id} replay={f}");
    }
    r
}

fn known() -> Vec<(String, String, String)> {
    // known: property=<id> sig=<signature> :: <what fails>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", root())) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((id, r)) = r.split_once(" sig=") {
                    let (sig, what) = r.split_once(" :: ").unwrap_or((r, r));
                    v.push((id.to_string(), sig.to_string(), what.to_string()));
                }
            }
        }
    }
    v
}

/// With a violation at hand a run ends soon after this
const ENOUGH: Duration = Duration::from_secs(200);

fn run(id: &str, tier: &str, slots: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let Some(check) = checks::get(id) else { return 2 };
    refscram::self_test();
    let w = workers();
    let slots = slots.and_then(|p| Slots::open(p, w).ok());
    let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).map(Duration::from_secs);
    let known = known();
    let sigs: std::collections::HashSet<String> = known.iter().filter(|k| k.0 == id).map(|k| k.1.clone()).collect();
    let eng = Arc::new(Engine::new(w, slots, cap, sigs.clone()));
    watchdog(&eng, id, tier);
    let mut viol: BTreeMap<String, Violation> = BTreeMap::new();
    let mut stats: Vec<(usize, TreeStats)> = vec![];
    let mut error = None;
    let only = std::env::var("MC_TREE").ok();
    for (i, t) in check.trees.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != t.name) {
            continue;
        }
        // with a violation at hand there is no need to take much longer
        if t0.elapsed() > ENOUGH && viol.keys().any(|s| !sigs.contains(s)) {
            break;
        }
        match eng.explore(i, t, thorough, &mut viol) {
            Ok(s) => stats.push((i, s)),
            // another exploration may find the violation that explains it
            Err(e) => {
                error.get_or_insert(e);
            }
        }
    }
    let mut found = 0;
    let mut n = 0;
    for (sig, v) in &mut viol {
        if found > 0 && t0.elapsed() > ENOUGH + ENOUGH / 2 {
            break;
        }
        let tree = &check.trees[v.tree];
        let bound = if thorough { tree.bound.1 } else { tree.bound.0 };
        let since = Instant::now();
        // confirm by replaying; nonces are the only thing the explorer does not choose
        let mut confirmed = 0;
        let mut tries = 0;
        while tries < 2000 && confirmed < 2 && (since.elapsed().as_secs() < 30 || tries < 20) {
            tries += 1;
            let mut ch = Ch::new(&v.path, bound, thorough, true);
            let end = explore::execute(tree, &mut ch);
            if let ExecEnd::EngineError(e) = end {
                error.get_or_insert(e);
                break;
            }
            if matches!(end, ExecEnd::Diverged(_)) && ch.failure.is_none() {
                continue;
            }
            if let Some((s, d)) = ch.failure.take() {
                if s == *sig {
                    confirmed += 1;
                    v.detail = d;
                    v.trace = std::mem::take(&mut ch.trace);
                }
            }
        }
        // what depends on the history of the process is found again by repeating that
        let mut history = false;
        if confirmed == 0 && again(id, tier, tree.name, sig) {
            history = true;
            v.detail.push_str(" (depends on what the process did before: found again by repeating the exploration in a fresh process)");
        }
        if confirmed == 0 && !history {
            error.get_or_insert(format!("{sig}: {} (path {:?} of {}) did not replay", v.detail, v.path, tree.name));
            continue;
        }
        if let Some(k) = known.iter().find(|k| k.0 == id && k.1 == *sig) {
            println!("KNOWN-FINDING: property={id} {}", k.2);
            continue;
        }
        found += 1;
        if found > 8 {
            continue;
        }
        let f = write_replay(id, tier, tree.name, v, n, history);
        n += 1;
        println!("[{}] {sig}: {}", tree.name, v.detail);
        for l in &v.trace {
            println!("    {l}");
        }
        println!("VIOLATION property={id} replay={f}");
    }
    let states = eng.states.lock().unwrap().len();
    let samples = samples(&check, &stats, thorough);
    report(&check, &stats, states, t0.elapsed());
    evidence(id, tier, &check, &stats, states, found, t0.elapsed(), samples);
    if found > 0 {
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ENGINE ERROR: {e}");
        return 2;
    }
    if stats.iter().any(|(_, s)| !s.complete) && cap.is_none() {
        eprintln!("ENGINE ERROR: an exploration was not completed");
        return 2;
    }
    0
}

fn report(check: &checks::Check, stats: &[(usize, TreeStats)], states: usize, d: Duration) {
    for (i, s) in stats {
        println!(
            "{:<26} executions {:>9}  steps {:>10}  depth {:>3}  outcomes {}  {} ms{}",
            check.trees[*i].name,
            s.executions,
            s.transitions,
            s.max_depth,
            s.outcomes.len(),
            s.wall_ms,
            if s.complete { "" } else { "  (stopped early)" }
        );
        if std::env::var("MC_OUTCOMES").is_ok() {
            for (k, v) in &s.outcomes {
                println!("      {v:>9}  {k}");
            }
        }
    }
    println!("{}: {states} distinct states, {:.1} s", check.id, d.as_secs_f64());
}

fn samples(check: &checks::Check, stats: &[(usize, TreeStats)], thorough: bool) -> Vec<Value> {
    let mut out = vec![];
    for (i, _) in stats.iter().take(6) {
        let t = &check.trees[*i];
        let bound = if thorough { t.bound.1 } else { t.bound.0 };
        let mut ch = Ch::new(&[], bound, thorough, true);
        if matches!(explore::execute(t, &mut ch), ExecEnd::Done) {
            ch.trace.truncate(12);
            out.push(json!({"tree": t.name, "path": [], "trace": ch.trace, "outcome": ch.outcome}));
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    id: &str,
    tier: &str,
    check: &checks::Check,
    stats: &[(usize, TreeStats)],
    states: usize,
    found: usize,
    wall: Duration,
    samples: Vec<Value>,
) {
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(&dir).ok();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let trees: Vec<Value> = stats
        .iter()
        .map(|(i, s)| {
            let t = &check.trees[*i];
            let mut oc: Vec<(&String, &u64)> = s.outcomes.iter().collect();
            oc.sort_by(|a, b| b.1.cmp(a.1));
            json!({
                "tree": t.name, "enumerates": t.what,
                "deviation_bound": if tier == "thorough" { t.bound.1 } else { t.bound.0 },
                "executions": s.executions, "steps": s.transitions, "max_choices": s.max_depth,
                "executions_by_deviations": s.by_dev.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
                "distinct_outcomes": s.outcomes.len(),
                "outcomes": oc.iter().take(24).map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
                "completed": s.complete, "wall_ms": s.wall_ms as u64,
            })
        })
        .collect();
    let j = json!({
        "property": id, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": stats.iter().map(|s| s.1.transitions).sum::<u64>(),
            "traces_validated_against_impl": stats.iter().map(|s| s.1.executions).sum::<u64>(),
            "exhaustive": !stats.is_empty() && stats.iter().all(|s| s.1.complete),
            "samples": samples,
            "trees": trees,
            "explanation": "Every execution of every tree is an execution of the real library; states are distinct histories of observations (inputs, results, messages, callback events), transitions are calls into the library.",
        },
        "assumptions": check.assumptions,
        "violations": found,
        "wall_s": wall.as_secs_f64(),
    });
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&j).unwrap() + "\n").ok();
}

fn watchdog(eng: &Arc<Engine>, id: &str, tier: &str) {
    let eng = eng.clone();
    let id = id.to_string();
    let tier = tier.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some((t, p)) = eng.hung() {
            let check = checks::get(&id).unwrap();
            let v = Violation {
                sig: "hang".into(),
                detail: format!("an execution of {} did not return within {} s", check.trees[t].name, explore::HANG_MS / 1000),
                tree: t,
                path: p,
                trace: vec![],
                devs: 0,
            };
            let f = write_replay(&id, &tier, check.trees[t].name, &v, 0, false);
            evidence(&id, &tier, &check, &[], 0, 1, Duration::ZERO, vec![]);
            println!("{}: {}", v.sig, v.detail);
            println!("VIOLATION property={id} replay={f}");
            std::io::stdout().flush().ok();
            unsafe { libc::_exit(1) };
        }
    });
}

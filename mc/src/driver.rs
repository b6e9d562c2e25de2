//! The command line, supervision and reports, shared by all checkers
use crate::{clock, engine, journal, props};
use crate::engine::{explore, replay, Fail, Harness, Report, Tier};
use serde_json::{json, Value};
use std::{
    io::Write,
    os::fd::FromRawFd,
    path::{Path, PathBuf},
    process::{exit, Command},
    time::{Duration, Instant},
};

/// An execution that makes no progress for this long, alone, does not end
const STUCK_S: u64 = 90;

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn usage() -> ! {
    eprintln!("usage: mc check ID TIER | mc replay FILE | mc list");
    exit(2)
}

/// Keep our own stdout; what the library prints goes nowhere
fn take_stdout() -> std::fs::File {
    unsafe {
        let own = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(own)
    }
}

fn limit_memory() {
    let gb = 1u64 << 30;
    let lim = libc::rlimit {
        rlim_cur: 24 * gb,
        rlim_max: 24 * gb,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let none = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &none);
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or_else(|| usage());
    match arg(1) {
        "list" => {
            for id in props::IDS {
                println!("{id}");
            }
        }
        "check" => exit(supervise(arg(2), tier_of(arg(3)))),
        "child" => exit(check(arg(2), tier_of(arg(3)), arg(4))),
        "one" => exit(one(arg(2), tier_of(arg(3)), arg(4), arg(5))),
        "replay" => exit(replay_file(Path::new(arg(2)))),
        _ => usage(),
    }
}

fn find<'h>(hs: &'h [Harness], name: &str) -> &'h Harness {
    hs.iter().find(|h| h.name == name).unwrap_or_else(|| {
        eprintln!("no such harness: {name}");
        exit(2)
    })
}

/// Run one execution, alone: 0 held, 1 violated, anything else died
fn one(id: &str, tier: Tier, harness: &str, choices: &str) -> i32 {
    let hs = props::harnesses(id);
    let choices: Vec<u32> = choices
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().expect("choice"))
        .collect();
    let mut out = take_stdout();
    engine::install_panic_hook();
    limit_memory();
    let h = *find(&hs, harness);
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || replay(&h, tier, &choices))
        .expect("spawn");
    match t.join().expect("join") {
        (Ok(()), _) | (Err(Fail::Prune), _) => 0,
        (Err(Fail::Violation(m)), steps) => {
            for s in steps {
                let _ = writeln!(out, "  {s}");
            }
            let _ = writeln!(out, "violated: {m}");
            1
        }
        (Err(Fail::Machine(m)), _) => {
            let _ = writeln!(out, "machinery: {m}");
            2
        }
    }
}

fn replay_file(path: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).expect("read replay file"))
        .expect("replay file is JSON");
    let choices: Vec<String> = v["choices"]
        .as_array()
        .expect("choices")
        .iter()
        .map(|c| c.to_string())
        .collect();
    let text = |k: &str| v[k].as_str().expect("text").to_string();
    one(
        &text("property"),
        tier_of(&text("tier")),
        &text("harness"),
        &choices.join(","),
    )
}

fn write_replay(
    id: &str,
    tier: Tier,
    harness: &str,
    choices: &[u32],
    msg: &str,
    steps: &[String],
    note: &str,
) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{harness}.json"));
    let v = json!({
        "property": id,
        "tier": tier_name(tier),
        "harness": harness,
        "choices": choices,
        "violation": msg,
        "steps": steps,
        "note": note,
        "replay_with": format!("bash /verif/replay.sh {}", path.display()),
    });
    std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).expect("write replay file");
    path
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

fn write_evidence(id: &str, tier: Tier, reports: &[Report], wall: f64, violations: usize) {
    let mut samples: Vec<Value> = vec![];
    for r in reports {
        for s in &r.samples {
            if s.is_empty() {
                continue;
            }
            let steps: Vec<String> = s.iter().take(12).map(|x| clip(x, 240)).collect();
            samples.push(json!({"harness": r.name, "execution": steps}));
        }
    }
    samples.truncate(16);
    let complete = reports.iter().all(|r| r.errors.is_empty()) && violations == 0;
    let v = json!({
        "property": id,
        "tier": tier_name(tier),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": reports.iter().map(|r| r.states as u64).sum::<u64>(),
            "transitions": reports.iter().map(|r| r.transitions).sum::<u64>(),
            "traces_validated_against_impl": reports.iter().map(|r| r.validated).sum::<u64>(),
            "exhaustive": complete,
            "harnesses": reports.iter().map(|r| json!({
                "name": r.name,
                "bounds": r.bounds,
                "deviation_bound": r.devs,
                "states": r.states,
                "transitions": r.transitions,
                "executions_compared": r.validated,
                "executions_pruned_as_duplicates": r.pruned,
                "longest_choice_sequence": r.max_choices,
                "outcomes": r.outcomes,
                "wall_s": (r.wall_s * 100.0).round() / 100.0,
            })).collect::<Vec<_>>(),
            "samples": samples,
        },
        "assumptions": props::assumptions(id),
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{id}.json")),
        serde_json::to_vec_pretty(&v).unwrap(),
    )
    .expect("write evidence");
}

fn check(id: &str, tier: Tier, journal_path: &str) -> i32 {
    let t0 = Instant::now();
    let mut out = take_stdout();
    engine::install_panic_hook();
    limit_memory();
    if let Err(e) = journal::map(journal_path, false) {
        let _ = writeln!(out, "journal: {e}");
        return 2;
    }
    if let Err(e) = clock::self_test() {
        let _ = writeln!(out, "clock: {e}");
        return 2;
    }
    let only = std::env::var("MC_ONLY").ok();
    if let Some(o) = &only {
        if !props::harnesses(id).iter().any(|h| h.name.contains(o.as_str())) {
            let _ = writeln!(out, "no harness {o}");
            return 2;
        }
    }
    let mut reports = vec![];
    let mut violations = 0;
    let mut errors = 0;
    for (index, h) in props::harnesses(id).iter().enumerate() {
        if only.as_ref().is_some_and(|o| !h.name.contains(o.as_str())) {
            continue;
        }
        let r = explore(h, index, tier);
        let _ = writeln!(
            out,
            "{id} {}: {} states, {} transitions, {} executions compared, {} pruned, {:.1} s; outcomes {:?}",
            r.name, r.states, r.transitions, r.validated, r.pruned, r.wall_s, r.outcomes
        );
        for e in &r.errors {
            errors += 1;
            let _ = writeln!(out, "ERROR of the machinery in {}: {e}", r.name);
        }
        if let Some(f) = &r.found {
            violations += 1;
            for s in &f.steps {
                let _ = writeln!(out, "    {}", clip(s, 400));
            }
            let _ = writeln!(out, "    => {}", clip(&f.msg, 1500));
            let path = write_replay(
                id,
                tier,
                r.name,
                &f.choices,
                &f.msg,
                &f.steps,
                &format!("reproduced in {} of 5 replays", f.reproduced),
            );
            let _ = writeln!(out, "VIOLATION property={id} replay={}", path.display());
        }
        reports.push(r);
        if violations > 0 {
            break;
        }
    }
    for k in engine::KNOWN.lock().unwrap().iter() {
        let _ = writeln!(out, "KNOWN-FINDING: {k}");
    }
    write_evidence(id, tier, &reports, t0.elapsed().as_secs_f64(), violations);
    if violations > 0 {
        1
    } else if errors > 0 {
        2
    } else {
        let _ = writeln!(out, "{id}: held on everything explored ({})", tier_name(tier));
        0
    }
}

fn wait_alone(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Run the check in a child process and account for its death or lack of progress
fn supervise(id: &str, tier: Tier) -> i32 {
    let t0 = Instant::now();
    if !props::IDS.contains(&id) {
        eprintln!("no check for {id}");
        return 2;
    }
    let journal_path = std::env::temp_dir().join(format!("mc-journal-{}", std::process::id()));
    journal::map(journal_path.to_str().unwrap(), true).expect("journal");
    let me = std::env::current_exe().expect("current exe");
    let mut child = Command::new(&me)
        .args(["child", id, tier_name(tier)])
        .arg(&journal_path)
        .spawn()
        .expect("start child");
    let mut seen: Vec<(Option<u64>, Instant)> = vec![(None, Instant::now()); journal::SLOTS];
    let mut stuck = false;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        for (i, s) in seen.iter_mut().enumerate() {
            let now = journal::under_way(i).map(|u| u.0);
            if now != s.0 {
                *s = (now, Instant::now());
            } else if now.is_some() && s.1.elapsed().as_secs() > STUCK_S {
                stuck = true;
            }
        }
        if stuck {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let _ = std::fs::remove_file(&journal_path);
    if let Some(code) = status.and_then(|s| s.code()) {
        return code;
    }
    // Died or stuck: which execution was it?
    let what = match status {
        Some(s) => format!("{s}"),
        None => format!("no progress for {STUCK_S} s"),
    };
    println!("{id}: exploration ended by {what}");
    let hs = props::harnesses(id);
    let suspects: Vec<(usize, Vec<u32>)> = (0..journal::SLOTS)
        .filter_map(journal::under_way)
        .map(|(_, h, c)| (h, c))
        .collect();
    for (h, choices) in suspects {
        let h = &hs[h];
        let text: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
        let c = Command::new(&me)
            .args(["one", id, tier_name(tier), h.name, &text.join(",")])
            .spawn()
            .expect("start child");
        let end = wait_alone(c, Duration::from_secs(STUCK_S));
        let msg = match end {
            None => "this execution does not terminate".to_string(),
            Some(s) if s.code() == Some(1) => "this execution violates the property".to_string(),
            Some(s) if s.code().is_none() => format!("this execution kills the process: {s}"),
            _ => continue,
        };
        println!("    => {msg}");
        let path = write_replay(id, tier, h.name, &choices, &msg, &[], &what);
        println!("VIOLATION property={id} replay={}", path.display());
        write_evidence(id, tier, &[], t0.elapsed().as_secs_f64(), 1);
        return 1;
    }
    println!("ERROR: no single execution explains it");
    2
}

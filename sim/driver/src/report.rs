//! A check: search, minimise, report, evidence; and the replay of a reported violation.
use crate::exec::{self, RunResult};
use crate::judge::{self, Oracle, Viol};
use crate::search::{self, Known};
use crate::shrink::Shrinker;
use crate::stats::{self, Stats};
use model::*;
use serde_json::{json, Value};
use simrt::fs;
use std::time::Instant;

pub struct Tier {
    pub name: String,
    pub seed: u64,
    pub secs: f64,
    pub workers: u64,
}

pub fn is_known_prop(p: &str) -> bool {
    p.len() == 3 && p.starts_with('C') && (1..=16).contains(&p[1..].parse::<u32>().unwrap_or(0))
}

/// Lines `finding: property=<id> class="<class>" words="<w>;<w>" <what fails>`; `fixed:` lines are notes.
pub fn known_findings(root: &str) -> Vec<Known> {
    let mut out = Vec::new();
    let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", root)) else { return out };
    for l in t.lines() {
        let Some(l) = l.strip_prefix("finding: property=") else { continue };
        let (Some(p), Some(c), Some(w)) = (l.get(..3), quoted(l, "class="), quoted(l, "words=")) else { continue };
        out.push(Known { property: p.into(), class: c, words: w.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), text: l[3..].trim().into() });
    }
    out
}
fn quoted(l: &str, key: &str) -> Option<String> {
    let a = l.find(&format!("{}\"", key))? + key.len() + 1;
    let b = l[a..].find('"')? + a;
    Some(l[a..b].to_string())
}

const IO_NAMES: [&str; 10] = ["?", "open", "read", "write", "seek", "stat", "sync", "truncate", "rename", "unlink"];

fn story(s: &Scenario, r: &RunResult) -> Value {
    let recs: Vec<Value> = r.out.recs.iter().map(|x| json!(format!("thread {} step {} call {}: {} [{}..{}] -> {}", x.thr, x.step, x.call,
        judge::call_of(s, x).map(|c| judge::brief_call(s, c)).unwrap_or_default(), x.t0, x.t1, x.out.brief()))).collect();
    let io: Vec<Value> = r.out.trace.iter().take(400).map(|t| json!(format!("thread {} step {} #{} {} {} asked {} returned {}", t.0, t.1, t.2,
        IO_NAMES[(t.3 as usize).min(9)], t.4, t.5, t.6))).collect();
    let mut faults = serde_json::Map::new();
    for (k, n) in fs::F_NAMES.iter().enumerate() {
        if r.faults[k] > 0 {
            faults.insert(n.to_string(), r.faults[k].into());
        }
    }
    json!({
        "ending": r.ending(), "steps": r.steps, "switches": r.switches, "threads": r.threads, "schedule_hash": format!("{:016x}", r.sched_hash),
        "calls": recs, "io": io, "faults_fired": faults,
    })
}

fn replay_json(s: &Scenario, r: &RunResult, v: &Viol, t: &Tier, idx: u64, exact: bool) -> Value {
    json!({
        "property": s.prop, "class": v.class, "what": v.text, "master_seed": t.seed, "case": idx, "kind": s.kind,
        "repeats_exactly": exact,
        "schedule": match &s.sched.switches {
            Some(x) => format!("explicit: {} forced switches as (thread, its local time, thread to run next) in scenario.sched.switches", x.len()),
            None => format!("policy {} from seed {}", s.sched.policy, s.sched.seed),
        },
        "scenario": s, "run": story(s, r),
        "how_to_replay": "bash /verif/replay.sh <this file>",
    })
}

/// Runs the scenario and judges it.
pub fn once(s: &Scenario, o: &mut Oracle) -> (RunResult, Option<Viol>) {
    o.clear();
    let ok = judge::prepare(s, o).is_some();
    let r = exec::run(s);
    if !ok {
        return (r, None);
    }
    let v = judge::judge(s, &r, o);
    (r, v)
}

pub fn replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("simdriver: cannot read {}", path);
        return 2;
    };
    let Ok(j) = serde_json::from_str::<Value>(&t) else {
        eprintln!("simdriver: {} is not a replay file", path);
        return 2;
    };
    let Ok(s) = serde_json::from_value::<Scenario>(j["scenario"].clone()) else {
        eprintln!("simdriver: {} holds no scenario", path);
        return 2;
    };
    let mut o = Oracle::default();
    let (r, v) = once(&s, &mut o);
    let same_sched = j["run"]["schedule_hash"] == json!(format!("{:016x}", r.sched_hash)) && j["run"]["steps"] == json!(r.steps);
    println!("ending: {}; {} steps, schedule {}", r.ending(), r.steps, if same_sched { "identical to the recorded one" } else { "differs from the recorded one" });
    match v {
        None => {
            println!("no violation");
            0
        }
        Some(v) => {
            println!("[{}] {}", v.class, v.text);
            println!("recorded: [{}] {}", j["class"].as_str().unwrap_or(""), j["what"].as_str().unwrap_or(""));
            println!("{}", if j["class"] == json!(v.class) && j["what"] == json!(v.text) && same_sched { "REPRODUCED exactly" }
                else if j["class"] == json!(v.class) { "REPRODUCED (same class)" } else { "ANOTHER violation" });
            println!("VIOLATION property={} replay={}", s.prop, path);
            1
        }
    }
}

fn run_replay(path: &str) -> (i32, String) {
    let me = std::env::current_exe().unwrap();
    match std::process::Command::new(me).args(["replay", path]).output() {
        Ok(o) => (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into_owned()),
        Err(_) => (-1, String::new()),
    }
}

pub fn check(prop: &str, t: &Tier, root: &str) -> i32 {
    let known: Vec<Known> = known_findings(root).into_iter().filter(|k| k.property == prop).collect();
    println!("property {} tier {} seed {} ({} s, {} workers)", prop, t.name, t.seed, t.secs, t.workers);
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let mut code = 0;
    let mut viol = 0;
    let (mut from, mut wall) = (0, 0.0);
    let mut o = Oracle::default();
    let found = loop {
        let f = search::search(prop, t.seed, from, u64::MAX, (t.secs - wall).max(1.0), t.workers, &known);
        stats.merge(f.stats);
        wall += f.wall;
        let Some(idx) = f.first else { break None };
        let mut st = Stats::default();
        let hit = (0..3).find_map(|_| match search::case(prop, t.seed, idx, &mut o, &mut st) {
            Some((s, r, Some(v))) => Some((idx, s, r, v)),
            _ => None,
        });
        if hit.is_some() {
            break hit;
        }
        eprintln!("simdriver: the violation found in case {} does not repeat in another process", idx);
        stats.unrepeated += 1;
        if wall >= t.secs {
            break None;
        }
        from = idx + 1;
    };
    if let Some((idx, s, r, v)) = found {
        viol = 1;
        println!("case {}: [{}] {}", idx, v.class, v.text);
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, prop, t.seed, idx);
        let mut k = Shrinker::new(&mut o, &s, r.clone(), v.clone(), if t.name == "thorough" { 240.0 } else { 60.0 });
        k.minimise();
        let (bs, br, bv, runs) = (k.best.clone(), k.result.clone(), k.viol.clone(), k.runs);
        let mut done = false;
        for (s, r, v) in [(&bs, &br, &bv), (&s, &r, &v)] {
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay_json(s, r, v, t, idx, true)).unwrap());
            let (c, out) = run_replay(&path);
            if c == 1 && out.contains("REPRODUCED") {
                let exact = out.contains("REPRODUCED exactly");
                if !exact {
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay_json(s, r, v, t, idx, false)).unwrap());
                }
                println!("minimised in {} runs: [{}] {}", runs, v.class, v.text);
                println!("  {}", stats::sample(s, r, idx));
                println!("  {} forced switches, {} faults; replay in a fresh process: {}", s.sched.switches.as_ref().map_or(0, |x| x.len()),
                    s.disk.faults.len(), if exact { "identical" } else { "same class of violation" });
                done = true;
                break;
            }
        }
        if !done {
            println!("(the replay file does not reproduce in a fresh process)");
        }
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    for (x, n) in &stats.known {
        println!("KNOWN-FINDING: property={} {} ({} cases)", prop, x, n);
    }
    stats.samples.truncate(6);
    let e = evidence(prop, t, &stats, wall, t0.elapsed().as_secs_f64(), viol, &known);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if std::fs::write(format!("{}/evidence/{}.json", root, prop), serde_json::to_string_pretty(&e).unwrap()).is_err() {
        eprintln!("simdriver: cannot write the evidence");
        return 2;
    }
    println!("{} cases ({} distinct non-trivial), {} oracle runs, {} simulated steps, {} interleavings, {:.1} s", stats.cases, stats.distinct.len(),
        stats.oracle_runs, stats.steps + stats.oracle_steps, stats.interleavings.len(), wall);
    if code == 0 && stats.cases == 0 {
        eprintln!("simdriver: no case was judged");
        return 2;
    }
    code
}

fn evidence(prop: &str, t: &Tier, s: &Stats, wall: f64, total: f64, viol: u64, known: &[Known]) -> Value {
    let runs = s.cases + s.oracle_runs + s.probe_runs;
    json!({
        "property": prop, "tier": t.name, "seed": t.seed, "level": "exploration", "wall_s": total, "violations": viol,
        "coverage": {
            "evaluations": s.cases,
            "distinct_nontrivial": s.distinct.len(),
            "rule": format!("case k is generated from (seed, property, k): images, calls, threads, pools, contexts, build, environment, faults and the scheduler's policy and seed. \
                Distinct: differing in work, environment or executed interleaving (hash of all scheduler choices with their local times). Non-trivial: {}", stats::rule(prop)),
            "samples": s.samples,
            "simulated_runs": runs,
            "oracle_runs": s.oracle_runs,
            "schedule_length_probe_runs": s.probe_runs,
            "cases_left_out_as_too_long_or_without_oracle": s.no_oracle,
            "runs_per_hour": (runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "case_seeds_per_hour": (s.cases as f64 / wall.max(0.001) * 3600.0) as u64,
            "calls_judged_or_made": s.calls,
            "simulated_steps": s.steps + s.oracle_steps,
            "simulated_time_s": s.sim_ns as f64 / 1e9,
            "distinct_interleavings": s.interleavings.len(),
            "interleaving_measure": "hash of the work and of the sequence of (thread, local time, next thread) of all switches",
            "switches": s.switches,
            "switches_at_conflicting_accesses": s.conflicts,
            "timers_fired": s.timers,
            "threads_simulated": s.threads,
            "most_threads_in_a_run": s.max_threads,
            "io_operations": s.io_ops,
            "fault_kinds_fired": s.faults,
            "spurious_wakeups": s.spurious,
            "callback_failures_injected": s.callback_faults,
            "runs_with_storage_faults": s.fault_runs,
            "heap": {"allocations": s.allocs, "blocks_reused": s.reuses, "blocks_next_to_unmapped_memory": s.efences, "accesses_checked": s.memchecks},
            "cpu_feature_questions": {"std_detection_controlled": simrt::cpu::found(), "asked": s.cpu_asks, "answered_missing": s.cpu_no},
            "random_bytes_supplied": s.rand_bytes,
            "endings": s.endings, "outcomes": s.outcomes, "operations": s.ops, "contexts": s.contexts,
            "scheduling_policies": s.policies, "builds": s.variants,
            "replays_checked_for_determinism": s.replayed,
            "replays_that_differed": s.replay_bad, "violations_that_did_not_repeat": s.unrepeated,
            "known_findings_seen": s.known,
            "known_findings_listed": known.len(),
            "components": {
                "real": ["imgproc-rs from /repo's working tree in three builds (as shipped, multithreaded, without SIMD), with memory-access callbacks compiled in", "rayon, rayon-core, crossbeam (also instrumented)", "image, png, jpeg-decoder, tiff, gif and deflate codecs", "rulinalg", "the Rust standard library"],
                "simulated": ["thread scheduling and blocking (pthread and futex calls)", "clocks and sleeps", "file system (system calls of std::fs)", "heap allocator", "getrandom", "number of CPUs", "CPU feature detection of /repo (guarded hook)"],
            },
        },
        "assumptions": [
            "interleavings are sequentially consistent; weak-memory reordering is not simulated",
            "codecs of the image crate are trusted as reference when encoding the files read and decoding the files written",
        ],
    })
}

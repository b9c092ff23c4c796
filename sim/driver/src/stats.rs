//! What a search covered.
use crate::exec::RunResult;
use crate::judge;
use model::*;
use serde::{Deserialize, Serialize};
use simrt::shared;
use std::collections::{BTreeMap, HashSet};

#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    /// Cases judged, and cases left out because an oracle did not end normally.
    pub cases: u64,
    pub no_oracle: u64,
    pub probe_runs: u64,
    pub oracle_runs: u64,
    pub replayed: u64,
    pub replay_bad: u64,
    pub unrepeated: u64,
    pub calls: u64,
    pub steps: u64,
    pub oracle_steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub conflicts: u64,
    pub spurious: u64,
    pub timers: u64,
    pub threads: u64,
    pub max_threads: u64,
    pub io_ops: u64,
    pub allocs: u64,
    pub reuses: u64,
    pub efences: u64,
    pub memchecks: u64,
    pub cpu_asks: u64,
    pub cpu_no: u64,
    pub rand_bytes: u64,
    pub faults: BTreeMap<String, u64>,
    pub fault_runs: u64,
    pub endings: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub contexts: BTreeMap<String, u64>,
    pub policies: BTreeMap<String, u64>,
    pub variants: BTreeMap<String, u64>,
    pub callback_faults: u64,
    pub known: BTreeMap<String, u64>,
    /// Hashes of (work, environment, schedule) of the non-trivial cases.
    pub distinct: HashSet<u64>,
    /// Hashes of the interleavings alone, with the work.
    pub interleavings: HashSet<u64>,
    pub samples: Vec<String>,
}

fn bump(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    *m.entry(k.to_string()).or_insert(0) += n;
}

/// What makes a case count as non-trivial.
pub fn rule(p: &str) -> &'static str {
    match p {
        "C01" | "C08" => "at least one call returned and was compared; for multithreaded runs, at least two threads were scheduled",
        "C02" => "a multithreaded operation ran on pool workers under at least one scheduler decision (two or more threads)",
        "C03" => "at least two calling threads were interleaved (one or more forced switches)",
        "C04" => "at least two calls were made in the process",
        "C05" => "the run called a method with callbacks, with or without an injected failure",
        "C06" => "the history had at least two steps",
        "C07" => "the library asked for the CPU feature at least once",
        "C09" | "C10" | "C13" => "at least one storage fault, interruption or short transfer fired, or (C10) the file was damaged",
        "C11" => "at least one write and one read were made",
        "C12" => "at least one write was refused",
        "C14" => "the process was crashed inside a write",
        "C15" => "heap blocks were placed by the simulated allocator and at least one call was checked",
        "C16" => "at least one call failed and at least two calls were made",
        _ => "",
    }
}
fn nontrivial(s: &Scenario, r: &RunResult) -> bool {
    let n = r.out.recs.len();
    let f: u64 = r.faults.iter().sum();
    match s.prop.as_str() {
        "C01" | "C08" => n > 0 && (s.variant != Variant::Par || r.threads > 1 || s.prop == "C08"),
        "C02" => n > 0 && r.threads > 1,
        "C03" => s.threads.len() > 1 && r.switches > 0,
        "C04" => n > 1,
        "C05" => n > 0,
        "C06" => judge::calls(s).any(|c| c.3.h.len() > 1),
        "C07" => r.cpu_asks > 0,
        "C09" | "C13" => f > 0,
        "C10" => f > 0 || s.files.iter().any(|f| matches!(f, FileSpec::Cut { .. } | FileSpec::Flip { .. })),
        "C11" => n > 1,
        "C12" => n > 0,
        "C14" => r.status == shared::ST_CRASH,
        "C15" => n > 0 && r.allocs > 0,
        "C16" => n > 1 && r.out.recs.iter().any(|x| !matches!(x.out, Out::Ok(_))),
        _ => false,
    }
}

impl Stats {
    pub fn add(&mut self, s: &Scenario, r: &RunResult, idx: u64) {
        self.cases += 1;
        self.calls += r.out.recs.len() as u64;
        self.steps += r.steps;
        self.sim_ns += r.sim_ns;
        self.switches += r.switches;
        self.conflicts += r.conflicts;
        self.spurious += r.spurious;
        self.timers += r.timers;
        self.threads += r.threads as u64;
        self.max_threads = self.max_threads.max(r.threads as u64);
        self.io_ops += r.io_ops;
        self.allocs += r.allocs;
        self.reuses += r.reuses;
        self.efences += r.efences;
        self.memchecks += r.memchecks;
        self.cpu_asks += r.cpu_asks;
        self.cpu_no += r.cpu_no;
        self.rand_bytes += r.rand_bytes;
        for (k, n) in simrt::fs::F_NAMES.iter().enumerate() {
            if r.faults[k] > 0 {
                bump(&mut self.faults, n, r.faults[k]);
            }
        }
        self.fault_runs += (r.faults.iter().sum::<u64>() > 0) as u64;
        let e = match r.status {
            shared::ST_DONE => "finished",
            shared::ST_CRASH => "simulated crash",
            _ => "abnormal",
        };
        bump(&mut self.endings, e, 1);
        for x in &r.out.recs {
            bump(&mut self.outcomes, match x.out {
                Out::Ok(_) => "ok",
                Out::Err(..) => "error",
                Out::Panic(_) => "panic",
            }, 1);
            if let Some(c) = judge::call_of(s, x) {
                bump(&mut self.ops, if c.op == "cb" { &c.s } else { &c.op }, 1);
                if c.op == "cb" && c.i.first().is_some_and(|k| *k != 0) {
                    self.callback_faults += 1;
                }
            }
        }
        for t in &s.threads {
            for st in t {
                bump(&mut self.contexts, match st.ctx {
                    Ctx::Plain => "plain",
                    Ctx::InPool(_) => "pool",
                    Ctx::Join(_) => "join",
                    Ctx::Scope(_) => "scope",
                    Ctx::Iter(_) => "parallel iterator",
                    Ctx::Threads => "threads",
                }, 1);
            }
        }
        bump(&mut self.policies, match s.sched.policy {
            0 => "cooperative",
            1 => "random preemption",
            2 => "priorities (PCT)",
            _ => "round robin",
        }, 1);
        bump(&mut self.variants, match s.variant {
            Variant::Def => "default build",
            Variant::Par => "multithreaded build",
            Variant::Plain => "build without SIMD",
        }, 1);
        let w = s.work_hash();
        self.interleavings.insert(mix(w ^ r.sched_hash.rotate_left(9)));
        if nontrivial(s, r) {
            let e = hash_bytes(&serde_json::to_vec(&s.env).unwrap());
            self.distinct.insert(mix(w ^ r.sched_hash.rotate_left(9) ^ e.rotate_left(23)));
        }
        if self.samples.len() < 2 && nontrivial(s, r) {
            self.samples.push(sample(s, r, idx));
        }
    }

    pub fn merge(&mut self, o: Stats) {
        macro_rules! sum {
            ($($f:ident)*) => {$(self.$f += o.$f;)*};
        }
        sum!(cases no_oracle probe_runs oracle_runs replayed replay_bad unrepeated calls steps oracle_steps sim_ns switches conflicts spurious timers threads io_ops allocs
            reuses efences memchecks cpu_asks cpu_no rand_bytes fault_runs callback_faults);
        self.max_threads = self.max_threads.max(o.max_threads);
        macro_rules! maps {
            ($($f:ident)*) => {$(for (k, n) in o.$f { bump(&mut self.$f, &k, n); })*};
        }
        maps!(faults endings outcomes ops contexts policies variants known);
        self.distinct.extend(o.distinct);
        self.interleavings.extend(o.interleavings);
        for x in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(x);
            }
        }
    }
}

pub fn sample(s: &Scenario, r: &RunResult, idx: u64) -> String {
    let mut t = format!("case {} ({}, {:?}, pools {:?}): ", idx, s.kind, s.variant, s.pools);
    for (k, th) in s.threads.iter().enumerate() {
        t.push_str(&format!("T{}:[", k));
        for st in th {
            let c: Vec<String> = st.calls.iter().map(|c| judge::brief_call(s, c)).collect();
            t.push_str(&format!("{:?}:{} ", st.ctx, c.join("|")));
        }
        t.push_str("] ");
        if t.len() > 900 {
            t = t.chars().take(900).collect();
            t.push_str("... ");
            break;
        }
    }
    if !s.disk.faults.is_empty() {
        t.push_str(&format!("faults {:?} ", s.disk.faults));
    }
    t.push_str(&format!("-> {} after {} steps, {} threads, {} switches; outcomes ", r.ending(), r.steps, r.threads, r.switches));
    let o: Vec<&str> = r.out.recs.iter().take(12).map(|x| match x.out {
        Out::Ok(_) => "ok",
        Out::Err(..) => "error",
        Out::Panic(_) => "panic",
    }).collect();
    t.push_str(&o.join(","));
    t
}

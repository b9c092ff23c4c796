#![recursion_limit = "1024"]
#![allow(clippy::all)]
mod exec;
mod gen;
mod judge;
mod report;
mod search;
mod shrink;
mod stats;

#[global_allocator]
static HEAP: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn main() {
    let show = std::env::var("SIM_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| { if show { simrt::quiet(|| eprintln!("{}", i)) } }));
    // equal addresses in every process
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p as u32 & libc::ADDR_NO_RANDOMIZE as u32 == 0 && std::env::var("SIM_NO_ASLR").is_err()
            && libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("SIM_NO_ASLR", "1").exec();
            eprintln!("simdriver: {}", e);
        }
    }
    simrt::init();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("simdriver: missing arguments");
        std::process::exit(2);
    }
    if a[1] == "search" {
        let num = |k: usize, d: f64| a.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
        let (seed, cases, secs) = (num(3, 1.0) as u64, num(4, 1e9) as u64, num(5, 10.0));
        let f = search::search(&a[2], seed, 0, cases, secs, num(6, 8.0) as u64, &[]);
        let mut x = serde_json::to_value(&f.stats).unwrap();
        x["distinct"] = f.stats.distinct.len().into();
        x["interleavings"] = f.stats.interleavings.len().into();
        println!("{}", serde_json::to_string_pretty(&x).unwrap());
        println!("first {:?} wall {}", f.first, f.wall);
        if let Some(i) = f.first {
            let mut st = stats::Stats::default();
            let mut o = judge::Oracle::default();
            if let Some((s, r, v)) = search::case(&a[2], seed, i, &mut o, &mut st) {
                println!("{}\n{:?}", stats::sample(&s, &r, i), v);
            }
        }
        return;
    }
    if a[1] == "one" {
        let mut st = stats::Stats::default();
        let mut o = judge::Oracle::default();
        let t = std::time::Instant::now();
        if let Some(s) = search::build(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &mut o, &mut st) {
            println!("oracles {} steps {} {:?}\n{}", o.runs, o.steps, t.elapsed(), serde_json::to_string(&s).unwrap());
            let t = std::time::Instant::now();
            let r = exec::run(&s);
            if let Ok(p) = std::env::var("SIM_DECISIONS") {
                let t: String = r.dec.iter().map(|d| format!("{:?}\n", d)).collect();
                let _ = std::fs::write(p, t);
            }
            println!("{:?} steps {} sim {} sw {} thr {}\n{}", t.elapsed(), r.steps, r.sim_ns, r.switches, r.threads, stats::sample(&s, &r, 0));
            for x in &r.out.recs { println!("  {} {} {} {}..{} {}", x.thr, x.step, x.call, x.t0, x.t1, x.out.brief()); }
            println!("{:?}", judge::judge(&s, &r, &mut o));
        }
        return;
    }
    if a[1] == "check" {
        // check PROP TIER SEED ROOT [SECS [WORKERS]]
        let tier = a[3].clone();
        let cpus = std::thread::available_parallelism().map_or(8.0, |n| n.get() as f64);
        let num = |k: usize, d: f64| a.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
        let secs = num(6, if tier == "thorough" { 900.0 } else { 75.0 });
        if !report::is_known_prop(&a[2]) {
            eprintln!("simdriver: no such property");
            std::process::exit(2);
        }
        let t = report::Tier { name: tier, seed: num(4, 1.0) as u64, secs, workers: num(7, cpus) as u64 };
        std::process::exit(report::check(&a[2], &t, &a[5]));
    }
    if a[1] == "replay" {
        std::process::exit(report::replay(&a[2]));
    }
    eprintln!("simdriver: check PROP TIER SEED ROOT [SECS [WORKERS]] | replay FILE | search PROP SEED CASES SECS [WORKERS] | one PROP SEED CASE");
    std::process::exit(2);
}

//! Deterministic simulation of svgcleaner: seeded search for violations of its properties.
//!
//! simctl check ID            explores, writes the evidence file, prints VIOLATION and exits 1
//! simctl replay FILE [-v]    runs one recorded scenario again
//! simctl worker ...          part of a check
//! simctl selftest [N]        the same seeds twice: every execution must be identical
//! simctl options             which option each option document depends on
mod corpus;
mod ctx;
mod docs;
mod families;
mod gen;
mod kernel;
mod minimise;
mod optdocs;
mod props;
mod rare;
mod rng;
mod scenario;
mod vfs;
mod vocab;
mod xmlcheck;

use ctx::*;
use rng::{hash_bytes, mix};
use scenario::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::time::Instant;

fn paths() -> kernel::Paths {
    let get = |k: &str| std::env::var(k).unwrap_or_else(|_| {
        eprintln!("{} is not set", k);
        std::process::exit(2)
    });
    let existing = |k: &str| std::env::var(k).ok().filter(|p| std::path::Path::new(p).exists());
    kernel::Paths { cli: get("SIM_CLI"), lib: get("SIM_LIB"), checked: existing("SIM_CHECKED"), sched: existing("SIM_SCHED"), shim: get("SIM_SHIM") }
}
fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

#[derive(Serialize, Deserialize, Clone)]
struct Finding {
    id: String,
    property: String,
    status: String,
    what: String,
}
fn findings() -> Vec<Finding> {
    let f = format!("{}/known_findings.json", root());
    match std::fs::read_to_string(&f) {
        Ok(t) => serde_json::from_str(&t).expect("known_findings.json"),
        Err(_) => vec![],
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Part {
    evals: u64,
    nontrivial: u64,
    skipped: u64,
    nontrivial_hashes: Vec<u64>,
    known: u64,
    violation: Option<(u64, u64, String, String)>,
    stats: Stats,
    samples: Vec<serde_json::Value>,
    families: BTreeMap<String, u64>,
    done: u64,
}

pub fn scenario_seed(prop: &str, base: u64, i: u64) -> u64 {
    mix(mix(base ^ hash_bytes(prop.as_bytes())).wrapping_add(i.wrapping_mul(0x9e3779b97f4a7c15)))
}

fn sample(s: &Scenario, v: &props::Verdict) -> serde_json::Value {
    let procs: Vec<String> = s.procs().iter().map(|p| match &p.prog {
        Prog::Cli(c) => format!("svgcleaner {}", c.argv().join(" ")),
        Prog::Lib(_) => "library host".into(),
    }).collect();
    let faults: Vec<String> = s.procs().iter().flat_map(|p| p.faults.iter()).take(6).map(|f| format!("{} {} #{}: {} x{}", f.at.op, f.at.obj, f.at.nth, act_name(&f.act), f.times)).collect();
    let mut first: Vec<u8> = s.files.iter().rev().filter_map(|f| match f {
        FileSpec::File { path, data, .. } if path.contains("/in") => Some(data.0.clone()),
        _ => None,
    }).next().unwrap_or_default();
    if first.is_empty() {
        if let InSpec::Bytes { data } = &s.proc0().stdin {
            first = data.0.clone();
        }
    }
    serde_json::json!({
        "seed": s.seed, "family": s.family, "note": s.note, "commands": procs, "faults": faults,
        "document": props::short(&first), "trace": format!("{:016x}", v.hash), "nontrivial": v.nontrivial,
    })
}

fn worker(a: &[String]) {
    let prop = &a[0];
    let n = |i: usize| -> u64 { a[i].parse().unwrap() };
    let (base, start, stride, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    let t0 = Instant::now();
    let listed: Vec<String> = findings().iter().filter(|f| f.status == "known").filter(|f| f.property == *prop).map(|f| f.id.clone()).collect();
    let mut ctx = Ctx::new(paths());
    let mut part = Part::default();
    let mut i = start;
    // a worker stops at a violation; the others only finish the scenarios before it
    let stop = std::env::var("SIM_STOP").unwrap_or_default();
    let first_stop = || -> u64 {
        std::fs::read_dir(&stop).ok().and_then(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).min()).unwrap_or(u64::MAX)
    };
    while i < count && t0.elapsed().as_secs() < secs {
        if part.done % 16 == 0 && !stop.is_empty() && first_stop() < i {
            break;
        }
        let seed = scenario_seed(prop, base, i);
        match props::gen(prop, seed, &mut ctx) {
            None => part.skipped += 1,
            Some(s) => {
                let mut v = props::judge(&s, &mut ctx);
                part.evals += 1;
                *part.families.entry(s.family.clone()).or_default() += 1;
                if v.nontrivial {
                    part.nontrivial += 1;
                    part.nontrivial_hashes.push(v.hash);
                }
                if let Some((id, k)) = v.known.take() {
                    if listed.iter().any(|l| l == id) {
                        part.known += 1;
                    } else {
                        v.fail = Some(("known-but-not-listed".into(), k));
                    }
                }
                if part.samples.len() < 2 && v.nontrivial && i > start + 3 * stride {
                    part.samples.push(sample(&s, &v));
                }
                if let Some((c, m)) = v.fail {
                    if std::env::var_os("SIM_ALL").is_some() {
                        eprintln!("{}\t{}\t{}", c, seed, m.chars().take(300).collect::<String>());
                        part.done += 1;
                        i += stride;
                        continue;
                    }
                    part.violation = Some((i, seed, c, m));
                    if !stop.is_empty() {
                        let _ = std::fs::write(format!("{}/{}", stop, i), b"");
                    }
                    part.done += 1;
                    break;
                }
            }
        }
        part.done += 1;
        i += stride;
    }
    part.stats = ctx.stats;
    println!("{}", serde_json::to_string(&part).unwrap());
}

fn replay_name(s: &Scenario) -> String {
    let t = serde_json::to_string(s).unwrap();
    format!("{}-{:016x}.json", s.prop, hash_bytes(t.as_bytes()))
}

fn plan(prop: &str, thorough: bool) -> (u64, u64) {
    // scenarios, seconds
    let n = match prop {
        "C01" => 45_000,
        "C02" => 60_000,
        "C08" => 40_000,
        "C10" => 60_000,
        "C03" | "C04" | "C15" | "C17" => 40_000,
        "C14" => 300_000,
        "C16" => 16_000,
        _ => 25_000,
    };
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let (n, t) = if thorough { (n * 100, 3_000) } else { (n, match prop { "C14" | "C10" => 150, _ => 110 }) };
    (env("SIM_COUNT").unwrap_or(n), env("SIM_SECS").unwrap_or(t))
}

const RULES: &[(&str, &str)] = &[
    ("C01", "seeded documents, option sets, aliases of the input and fault plans (1-3 of errno/short/partial/kill at recorded calls, allocation failure or kill, full disk); non-trivial: a fault took effect, the disk was limited, copy-on-error was on, or the output named the input"),
    ("C02", "documents refused by construction, missing/unreadable/failing inputs, bad arguments, kills and allocation failures of good runs; non-trivial: the run could not produce a result, or was disturbed on its input, or killed"),
    ("C03", "refused documents with copy-on-error, faults inside the copy, aliases, unwritable destinations; non-trivial: the outcome of the copy (or its absence) was decided"),
    ("C04", "good documents with faults on the destination's open/write/truncate/flush calls, full disks and devices; non-trivial: a fault took effect"),
    ("C05", "one run with short, interrupted, delayed transfers, missing optional calls and wrong reported sizes against the same run without; non-trivial: a transfer was divided or interrupted or a fault took effect"),
    ("C06", "four channel combinations of one command in random spellings against the library; non-trivial: the outcome was decided for at least one channel"),
    ("C07", "documents padded to put the result at -1..5 bytes of the original, and files growing and shrinking while read; non-trivial: the run ended normally and was compared"),
    ("C08", "multipass runs against chains of single cleanings; non-trivial: more than one pass"),
    ("C09", "the same command in two random environments; non-trivial: both ended and were compared"),
    ("C10", "scripts of cleanings in one library process, 1-4 threads under a random schedule, or 12-61 cleanings in one order and in the opposite one; non-trivial: more than one cleaning and, with threads, at least one switch"),
    ("C11", "input faults at random offsets, wrong sizes, invalid UTF-8, large inputs; non-trivial: a fault took effect, transfers were divided, the size was wrong or the input large"),
    ("C12", "histories of 1-3 disturbed runs with power loss, then the same command on a healthy system; non-trivial: something was disturbed"),
    ("C13", "runs of every outcome with bystander files and faults; every run is compared and counts"),
    ("C14", "damaged documents with random options; every run is judged and counts"),
    ("C15", "standard error failing at random messages and bytes, and quiet; non-trivial: a fault took effect or quiet was compared"),
    ("C16", "2-4 processes side by side or in a pipeline under a random schedule of their system calls; non-trivial: more than two switches"),
    ("C17", "permanent and repeated failures on input, output and disk, stalled streams; non-trivial: a fault took effect or a stream stalled"),
    ("C18", "atomic actions of other programs on input and output placed at recorded calls; non-trivial: an action took place during the run"),
];

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false);
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let jobs: u64 = std::env::var("SIM_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let (count, secs) = plan(prop, thorough);
    let me = std::env::current_exe().unwrap();
    let stop = std::env::temp_dir().join(format!("simctl-stop-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&stop);
    let kids: Vec<_> = (0..jobs).map(|w| {
        std::process::Command::new(&me)
            .env("SIM_STOP", &stop)
            .args(["worker", prop, &base.to_string(), &w.to_string(), &jobs.to_string(), &count.to_string(), &secs.to_string()])
            .stdout(std::process::Stdio::piped()).spawn().expect("worker")
    }).collect();
    // read all of them at once: a full pipe would stop a worker
    let readers: Vec<_> = kids.into_iter().map(|mut k| std::thread::spawn(move || {
        let mut t = String::new();
        k.stdout.take().unwrap().read_to_string(&mut t).unwrap();
        let st = k.wait().unwrap();
        (t, st.success())
    })).collect();
    let mut all = Part::default();
    let mut violations: Vec<(u64, u64, String, String)> = Vec::new();
    let mut distinct: std::collections::BTreeSet<u64> = std::collections::BTreeSet::new();
    for r in readers {
        let (t, ok) = r.join().unwrap();
        if !ok {
            eprintln!("a worker failed");
            return 2;
        }
        let p: Part = serde_json::from_str(&t).expect("worker output");
        all.evals += p.evals;
        all.nontrivial += p.nontrivial;
        all.skipped += p.skipped;
        all.known += p.known;
        all.done += p.done;
        all.stats.merge(&p.stats);
        distinct.extend(p.nontrivial_hashes.iter());
        for (k, n) in p.families {
            *all.families.entry(k).or_default() += n;
        }
        all.samples.extend(p.samples);
        violations.extend(p.violation);
    }
    let _ = std::fs::remove_dir_all(&stop);
    all.samples.truncate(8);
    violations.sort();
    let wall_explore = t0.elapsed().as_secs_f64();

    // listed findings: shown each time by their own scenario
    let mut ctx = Ctx::new(paths());
    let mut known_lines = Vec::new();
    let mut from_finding: Option<Scenario> = None;
    for f in findings().iter().filter(|f| f.status == "known" && f.property == prop) {
        let file = format!("{}/findings/{}.json", root(), f.id);
        let s: Scenario = serde_json::from_str(&std::fs::read_to_string(&file).expect("finding scenario")).expect("finding scenario");
        let v = props::judge(&s, &mut ctx);
        if let Some((id, k)) = v.known {
            if id != f.id {
                continue;
            }
            known_lines.push(format!("KNOWN-FINDING: property={} {} ({})", prop, f.what, k));
        }
        if let Some((c, m)) = v.fail {
            violations.push((u64::MAX, s.seed, c, m));
            from_finding = Some(s);
        }
    }

    let mut code = 0;
    let mut vline = String::new();
    if let Some((i, seed, class, msg)) = violations.first() {
        code = 1;
        let s = if *i == u64::MAX { None } else { props::gen(prop, *seed, &mut ctx) };
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let (small, text) = match s {
            Some(s) => {
                let m = minimise::minimise(&mut ctx, &s, class);
                let v = props::judge(&m, &mut ctx);
                let text = v.fail.map(|f| f.1).unwrap_or_else(|| msg.clone());
                (m, text)
            }
            None => {
                let t = from_finding.clone().expect("violation of a finding's scenario");
                (t, msg.clone())
            }
        };
        let file = format!("{}/{}", dir, replay_name(&small));
        std::fs::write(&file, serde_json::to_string_pretty(&small).unwrap()).unwrap();
        vline = format!("VIOLATION property={} replay={}", prop, file);
        println!("seed {} (scenario {} of base seed {}), class {}", seed, i, base, class);
        println!("{}", text);
    }

    let st = &all.stats;
    let hours = wall_explore / 3600.0;
    let faults: u64 = st.faults.values().sum();
    let ev = serde_json::json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": level(prop),
        "coverage": {
            "evaluations": all.evals,
            "distinct_nontrivial": distinct.len(),
            "rule": RULES.iter().find(|r| r.0 == prop).unwrap().1.to_string() + "; distinct: by the hash of the complete trace (calls, arguments, results, faults, schedule, final disk and streams)",
            "samples": all.samples,
            "scenarios_planned": count,
            "scenarios_without_case": all.skipped,
            "nontrivial": all.nontrivial,
            "families": all.families,
            "simulated_runs": st.runs,
            "reference_runs": st.reference_runs,
            "runs_per_hour": (st.runs + st.reference_runs) as f64 / hours,
            "seeds_per_hour": all.done as f64 / hours,
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "simulated_system_calls": st.steps,
            "process_switches": st.switches,
            "thread_switches": st.thread_switches,
            "faults_injected": faults,
            "fault_kinds": st.faults,
            "system_calls_by_kind": st.ops,
            "exits": st.exits,
            "distinct_executions": st.hashes.len(),
            "probes": st.probes,
            "calls_the_simulator_refused": st.denied,
            "known_finding_hits": all.known,
            "components": {
                "real": ["svgcleaner binary built from /repo (main.rs, cli.rs, cleaner.rs, all tasks)", "svgdom, clap, fern and the Rust standard library", if prop == "C10" || prop == "C06" || prop == "C08" { "svgcleaner library through a host program" } else { "svgcleaner library through a host program, for reference results" }],
                "simulated": ["kernel: files, directories, permissions, standard streams, pipes, clock, randomness, process ids, environment", "allocator failures, thread scheduler"],
            },
            "library_host": ctx.has_lib,
        },
        "assumptions": [
            "the simulated kernel answers like Linux for the calls the program makes",
            "the program reaches the system only through libc symbols (a raw system call would be refused or missed; refused ones are listed)",
            "seeded sampling: absence of a violation is evidence, not proof",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{}: {} scenarios, {} distinct non-trivial, {} simulated runs, {} faults, {:.1} s", prop, all.evals, distinct.len(), st.runs + st.reference_runs, faults, t0.elapsed().as_secs_f64());
    for l in known_lines {
        println!("{}", l);
    }
    if code == 1 {
        println!("{}", vline);
    } else if all.evals == 0 || all.nontrivial == 0 {
        println!("nothing could be decided");
        code = 2;
    }
    let _ = std::io::stdout().flush();
    code
}

fn level(prop: &str) -> &'static str {
    let _ = prop;
    "exploration"
}

fn replay(file: &str, verbose: bool) -> i32 {
    let s: Scenario = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let mut ctx = Ctx::new(paths());
    if verbose {
        let o = ctx.run(&s);
        for g in &o.groups {
            for t in &g.trace {
                println!("{:4} p{} t{} {:10} {:24} arg={} -> {} {}{}", t.step, t.proc, t.tid, t.op, t.obj, t.arg, t.ret, if t.err != 0 { format!("errno {}", t.err) } else { String::new() }, if t.fault { "  <== fault" } else { "" });
            }
            for (i, p) in g.procs.iter().enumerate() {
                println!("process {}: {:?}\n  stdout {:?}\n  stderr {:?}", i, p.exit, props::short(&p.stdout), props::short(&p.stderr_tried));
            }
        }
        for (p, e) in o.vfs.snapshot() {
            println!("{}{:o} {} {:?}", e.kind, e.mode, p, props::short(&e.data));
        }
    }
    let v = props::judge(&s, &mut ctx);
    println!("trace {:016x}", v.hash);
    if let Some((id, k)) = v.known {
        println!("KNOWN-FINDING: property={} {} {}", s.prop, id, k);
    }
    match v.fail {
        Some((c, m)) => {
            println!("class {}: {}", c, m);
            println!("VIOLATION property={} replay={}", s.prop, file);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    let mut total = 0;
    let mut a = Ctx::new(paths());
    let mut b = Ctx::new(paths());
    for p in props::ALL {
        for i in 0..n {
            let seed = scenario_seed(p, 99, i);
            let s = match props::gen(p, seed, &mut a) {
                Some(s) => s,
                None => continue,
            };
            total += 1;
            // generated a second time, written out and read back
            let t = props::gen(p, seed, &mut b).expect("generator differs");
            let u: Scenario = serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap();
            if s != t || t != u {
                println!("{} seed {}: generator or replay file not deterministic", p, seed);
                bad += 1;
            }
            let x = props::judge(&s, &mut a);
            let y = props::judge(&u, &mut b);
            if x.hash != y.hash || x.fail != y.fail {
                println!("{} seed {}: executions differ {:016x} {:016x} {:?} {:?}", p, seed, x.hash, y.hash, x.fail, y.fail);
                bad += 1;
            }
        }
    }
    println!("{} scenarios executed twice, {} differences", total, bad);
    (bad > 0) as i32
}

fn options() {
    let mut ctx = Ctx::new(paths());
    for (n, d) in optdocs::OPTDOCS {
        let mut res = Vec::new();
        for nd in [false, true] {
            let vals: Vec<String> = match *n {
                "indent" => ["none", "0", "1", "2", "3", "4", "tabs"].iter().map(|s| s.to_string()).collect(),
                "list-separator" => ["space", "comma", "comma-space"].iter().map(|s| s.to_string()).collect(),
                "join-style-attributes" => ["no", "some", "all"].iter().map(|s| s.to_string()).collect(),
                x if x.ends_with("precision") => (1..13).map(|i| i.to_string()).collect(),
                _ => vec!["yes".into(), "no".into()],
            };
            let mut outs = Vec::new();
            for v in &vals {
                let mut f: Vec<String> = if nd { vec!["--no-defaults".into()] } else { vec![] };
                if *n == "paths-to-relative" && v == "no" && !nd {
                    f.push("--remove-unused-segments=no".into());
                    f.push("--convert-segments=no".into());
                }
                if nd && v == "yes" && ["remove-unused-segments", "convert-segments", "apply-transform-to-paths"].contains(n) {
                    f.push("--paths-to-relative=yes".into());
                }
                if nd && v == "yes" && *n == "join-arcto-flags" {
                    f.push("--trim-paths=yes".into());
                }
                f.push(format!("--{}={}", n, v));
                outs.push(format!("{:?}", ctx.clean(d.as_bytes(), &f)));
            }
            outs.sort();
            outs.dedup();
            res.push(format!("{}/{}", outs.len(), vals.len()));
        }
        println!("{:32} defaults {:6} no-defaults {:6}", n, res[0], res[1]);
    }
}

fn main() {
    unsafe {
        // children inherit it: the same addresses in every run
        libc::personality(0x0040000);
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1]),
        Some("worker") => {
            worker(&a[1..]);
            0
        }
        Some("replay") => replay(&a[1], a.len() > 2),
        Some("selftest") => selftest(a.get(1).and_then(|n| n.parse().ok()).unwrap_or(20)),
        Some("options") => {
            options();
            0
        }
        Some("show") => {
            let mut ctx = Ctx::new(paths());
            let s = props::gen(&a[1], a[2].parse().unwrap(), &mut ctx);
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            0
        }
        Some("doc") => {
            // one document of a generator
            let mut r = rng::Rng::new(a[2].parse().unwrap());
            let t = match a[1].as_str() {
                "family" => families::any(&mut r),
                "links" => families::only_links(&mut r),
                "rare" => docs::rare(&mut r),
                "vocabulary" => docs::vocabulary(&mut r),
                "combined" => docs::combined(&mut r),
                "multi" => docs::multi(&mut r),
                "layers" => docs::layers(&mut r).0,
                _ => docs::valid(&mut r, docs::Size::Medium, false, true),
            };
            print!("{}", t);
            0
        }
        Some("dump") => {
            // the documents of N scenarios as a script for the library host (to measure coverage)
            let mut ctx = Ctx::new(paths());
            let mut jobs = Vec::new();
            let n: u64 = a[2].parse().unwrap();
            for i in 0..n {
                if let Some(s) = props::gen(&a[1], scenario_seed(&a[1], 1, i), &mut ctx) {
                    props::documents(&s, &mut jobs);
                }
            }
            std::io::stdout().write_all(&props::script(&jobs)).unwrap();
            0
        }
        _ => {
            eprintln!("usage: simctl check ID | replay FILE | selftest [N] | options");
            2
        }
    };
    std::process::exit(code);
}

//! mc check <property> <tier> | replay <file> | list
mod dfs;
mod envoy;
mod pipe;
mod props;
mod proto;
mod report;
mod vm;

use report::{Rec, Violation, PULSE};
use serde_json::{json, Value};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const VERIF: &str = "/verif";

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", prop, tier] => check(prop, tier),
        ["worker", prop, tier] => worker(prop, tier),
        ["replay", file] => replay(file),
        ["list"] => {
            for p in props::all() {
                println!("{}\t{}", p.id, p.level);
            }
            0
        }
        ["jobs", prop, tier] => {
            if let Some(p) = props::find(prop) {
                for j in (p.jobs)(tier == &"thorough") {
                    println!("{}", j.name);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <property> quick|thorough | replay <file> | list | jobs <property> <tier>");
            2
        }
    };
    std::process::exit(code);
}

/// The next job to run, from the pipe all workers share as their stdin.
fn next_job() -> Option<usize> {
    use std::os::fd::FromRawFd;
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(0) });
    let mut b = [0u8; 4];
    f.read_exact(&mut b).ok()?;
    Some(u32::from_le_bytes(b) as usize)
}

/// Runs the jobs it is given and prints one JSON document.
fn worker(prop: &str, tier: &str) -> i32 {
    let Some(p) = props::find(prop) else { return 2 };
    let current = Arc::new(Mutex::new(String::new()));
    {
        // an execution that never ends is a finding, not a timeout of ours
        let current = Arc::clone(&current);
        std::thread::spawn(move || {
            let mut last = (PULSE.load(Ordering::Relaxed), Instant::now());
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let now = PULSE.load(Ordering::Relaxed);
                if now != last.0 {
                    last = (now, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(120) {
                    let job = current.lock().map(|c| c.clone()).unwrap_or_default();
                    println!(
                        "{}",
                        json!({"hang": job, "states": 0, "transitions": 0, "executions": 0, "validated": 0,
                               "violations": [{"job": job, "what": "an execution does not terminate", "log": [], "path": []}],
                               "samples": []})
                    );
                    std::process::exit(0);
                }
            }
        });
    }
    // a deep stack: configurations and bodies nest
    let prop_jobs = p.jobs;
    let thorough = tier == "thorough";
    let cur2 = Arc::clone(&current);
    let out = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut rec = Rec::new(None);
            let mut states = 0;
            let jobs = prop_jobs(thorough);
            // MC_TIMES=<file> notes what each job took
            let times = std::env::var_os("MC_TIMES")
                .and_then(|p| std::fs::OpenOptions::new().append(true).create(true).open(p).ok());
            while let Some(j) = next_job().and_then(|k| jobs.get(k)) {
                PULSE.fetch_add(1, Ordering::Relaxed);
                if let Ok(mut c) = cur2.lock() {
                    c.clone_from(&j.name);
                }
                eprintln!("@{}", j.name);
                rec.job.clone_from(&j.name);
                let (t, e) = (Instant::now(), rec.stats.executions);
                (j.run)(&mut rec);
                // states of different jobs are different states
                states += rec.stats.states.len();
                rec.stats.states.clear();
                if let Some(f) = &times {
                    use std::io::Write;
                    let _ = writeln!(&*f, "{:.2} {} {}", t.elapsed().as_secs_f64(), rec.stats.executions - e, j.name);
                }
            }
            json!({
                "states": states,
                "transitions": rec.stats.transitions,
                "executions": rec.stats.executions,
                "validated": rec.stats.validated,
                "violations": rec.violations.iter().map(Violation::json).collect::<Vec<_>>(),
                "samples": rec.samples,
            })
        })
        .expect("worker thread")
        .join();
    match out {
        Ok(v) => {
            println!("{v}");
            0
        }
        Err(_) => 101,
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    let Some(p) = props::find(prop) else {
        eprintln!("no such property: {prop}");
        return 2;
    };
    let start = Instant::now();
    let n = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    let exe = std::env::current_exe().expect("own path");
    let total = (p.jobs)(tier == "thorough").len() as u32;
    let (job_reader, mut job_writer) = std::io::pipe().expect("pipe");
    let mut kids = vec![];
    for _ in 0..n {
        let mut c = Command::new(&exe)
            .args(["worker", prop, tier])
            .stdin(Stdio::from(job_reader.try_clone().expect("pipe")))
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let mut so = c.stdout.take().expect("stdout");
        let mut se = c.stderr.take().expect("stderr");
        let o = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = so.read_to_string(&mut s);
            s
        });
        let e = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = se.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        kids.push((c, o, e));
    }
    drop(job_reader);
    std::thread::spawn(move || {
        use std::io::Write;
        // in portions the kernel hands out whole
        for k in 0..total {
            if job_writer.write_all(&k.to_le_bytes()).is_err() {
                return;
            }
        }
    });
    let (mut states, mut transitions, mut executions, mut validated) = (0u64, 0u64, 0u64, 0u64);
    let mut violations: Vec<Violation> = vec![];
    let mut samples: Vec<Value> = vec![];
    for (mut c, o, e) in kids {
        let st = c.wait().expect("wait");
        let out = o.join().unwrap_or_default();
        let err = e.join().unwrap_or_default();
        match out.lines().last().and_then(|l| serde_json::from_str::<Value>(l).ok()) {
            Some(v) if st.success() => {
                states += v["states"].as_u64().unwrap_or(0);
                transitions += v["transitions"].as_u64().unwrap_or(0);
                executions += v["executions"].as_u64().unwrap_or(0);
                validated += v["validated"].as_u64().unwrap_or(0);
                for x in v["violations"].as_array().into_iter().flatten() {
                    violations.push(Violation::from_json(x));
                }
                for x in v["samples"].as_array().into_iter().flatten() {
                    if samples.len() < 4 {
                        samples.push(x.clone());
                    }
                }
            }
            _ => {
                let job = err
                    .lines()
                    .rev()
                    .find_map(|l| l.strip_prefix('@'))
                    .unwrap_or("?")
                    .to_string();
                let tail: Vec<String> = err
                    .lines()
                    .rev()
                    .filter(|l| !l.starts_with('@'))
                    .take(12)
                    .map(String::from)
                    .collect();
                violations.push(Violation {
                    job,
                    what: format!("the filter took the process down ({st})"),
                    log: tail,
                    path: vec![],
                });
            }
        }
    }
    let known: Vec<Value> = std::fs::read_to_string(format!("{VERIF}/known-findings.json"))
        .ok()
        .and_then(|t| serde_json::from_str::<Value>(&t).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default();
    let mut seen_known: Vec<String> = vec![];
    let mut fresh: Vec<Violation> = vec![];
    for v in violations {
        let hit = known.iter().find(|k| {
            k["property"] == prop
                && k["job"].as_str().is_some_and(|j| j == v.job)
                && k["what"].as_str().is_some_and(|w| w == v.what)
        });
        match hit {
            Some(k) => {
                let line = k["summary"].as_str().unwrap_or("?").to_string();
                if !seen_known.contains(&line) {
                    println!("KNOWN-FINDING: property={prop} {line}");
                    seen_known.push(line);
                }
            }
            None => fresh.push(v),
        }
    }
    let dir = format!("{VERIF}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": p.level,
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": validated,
            "evaluations": executions,
            "exhaustive": true,
            "rule": p.rule,
            "samples": samples,
        },
        "assumptions": p.assumptions,
        "violations": fresh.len(),
        "known_findings": seen_known.len(),
        "wall_s": start.elapsed().as_secs_f64(),
    });
    let _ = std::fs::write(
        format!("{dir}/{prop}.json"),
        serde_json::to_string_pretty(&ev).unwrap_or_default(),
    );
    println!(
        "{prop} {tier}: {states} states, {transitions} transitions, {executions} executions on the real filter, {:.1} s",
        start.elapsed().as_secs_f64()
    );
    if executions == 0 && fresh.is_empty() {
        println!("nothing was explored");
        return 2;
    }
    if fresh.is_empty() {
        return 0;
    }
    for (i, v) in fresh.iter().take(std::env::var("MC_SHOW").ok().and_then(|n| n.parse().ok()).unwrap_or(5)).enumerate() {
        let path = format!("{dir}/{prop}-violation-{i}.json");
        let mut j = v.json();
        j["property"] = json!(prop);
        j["tier"] = json!(tier);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap_or_default());
        println!("--- {}: {}", v.job, v.what);
        for l in &v.log {
            println!("      {l}");
        }
        println!("VIOLATION property={prop} replay={path}");
    }
    if fresh.len() > 5 {
        println!("... and {} more", fresh.len() - 5);
    }
    1
}

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let v: Value = serde_json::from_str(&t).expect("replay file is JSON");
    let prop = v["property"].as_str().unwrap_or_default().to_string();
    let p = props::find(&prop).expect("property");
    let viol = Violation::from_json(&v);
    for thorough in [false, true] {
        for j in (p.jobs)(thorough) {
            if j.name != viol.job {
                continue;
            }
            let mut rec = Rec::new(Some(viol.path.clone()));
            rec.job.clone_from(&j.name);
            (j.run)(&mut rec);
            for v in &rec.violations {
                println!("{}: {}", v.job, v.what);
                for l in &v.log {
                    println!("    {l}");
                }
            }
            if rec.violations.is_empty() {
                println!("does not fail (any more)");
                return 0;
            }
            println!("VIOLATION property={prop} replay={file}");
            return 1;
        }
    }
    eprintln!("no job named {}", viol.job);
    2
}

//! ozmon: runtime monitors for OpenZKP. See /verif/DESIGN.md.
mod checks;
mod conv;
mod mon;
mod refs;

use mon::{Ctx, Violation};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    process::{Command, Stdio},
    sync::Arc,
    time::{Duration, Instant},
};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("worker") => worker(&args),
        Some("run") => supervise(&args),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        _ => {
            eprintln!("usage: ozmon run|worker ID ...");
            std::process::exit(2);
        }
    }
}

/// Runs the monitored workload in this process and writes what it saw.
fn worker(args: &[String]) {
    let id = args[2].clone();
    let out = arg(args, "--out").unwrap();
    let profile = arg(args, "--profile").unwrap();
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let thorough = arg(args, "--tier").unwrap() == "thorough";
    let budget: u64 = arg(args, "--budget").unwrap().parse().unwrap();
    let only = arg(args, "--only").map(|s| {
        let (a, b) = s.rsplit_once('#').unwrap();
        (a.to_owned(), b.parse().unwrap())
    });

    refs::big::selftest();
    refs::keccak::selftest();
    refs::field::selftest();
    refs::curve::selftest();
    refs::yul::selftest();
    mon::install_panic_hook();

    let check = checks::all().into_iter().find(|c| c.id == id).expect("unknown id");
    let mut ctx = Ctx::new(&id, thorough, seed, &profile, Duration::from_secs(budget), only);
    ctx.hang_s = if profile == "checked" || profile == "release" { 240 } else { 400 };
    ctx.scale = match profile.as_str() {
        "tsan" => 20,
        "asan" => 40,
        _ if thorough => 100,
        // Quick tier: spend some 20 s per check
        _ => match id.as_str() {
            "C01" | "C03" | "C06" | "C19" => 200,
            "C04" | "C08" | "C26" => 300,
            "C09" | "C28" => 400,
            "C27" => 500,
            "C14" | "C17" | "C18" => 800,
            "C10" | "C15" | "C20" | "C21" => 1000,
            "C11" | "C16" | "C24" => 2000,
            "C12" | "C13" | "C23" => 3000,
            "C22" => 5000,
            _ => 100,
        },
    };
    let ctx = Arc::new(ctx);

    let write = {
        let ctx = ctx.clone();
        let out = out.clone();
        move |extra: Option<Violation>, finished: bool| {
            let mut t = ctx.total.lock().unwrap().clone();
            t.violations.extend(extra);
            let v = json!({
                "finished": finished,
                "evaluations": t.evaluations,
                "distinct": t.distinct.iter().collect::<Vec<_>>(),
                "events": t.events,
                "samples": t.samples,
                "violations": t.violations,
            });
            std::fs::write(&out, v.to_string()).unwrap();
        }
    };
    {
        let ctx = ctx.clone();
        let write = write.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            if let Some(case) = ctx.stuck() {
                write(
                    Some(Violation {
                        key:    "hang".into(),
                        detail: format!("case did not finish within {} s", ctx.hang_s),
                        at:     case,
                    }),
                    true,
                );
                std::process::exit(0);
            }
        });
    }
    let r = mon::guard(|| (check.run)(&ctx));
    let extra = r.err().map(|m| Violation {
        key:    "panic".into(),
        detail: format!("unexpected panic outside a case: {}", m),
        at:     "-".into(),
    });
    write(extra, true);
}

struct Stage {
    name: String,
    bin:  String,
}

fn supervise(args: &[String]) {
    let t0 = Instant::now();
    let id = args[2].clone();
    let root = arg(args, "--root").unwrap_or_else(|| "/verif".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = arg(args, "--tier").unwrap_or(tier);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let stages: Vec<Stage> = arg(args, "--stages")
        .unwrap()
        .split(',')
        .map(|s| {
            let (a, b) = s.split_once('=').unwrap();
            Stage { name: a.into(), bin: b.into() }
        })
        .collect();
    let check = checks::all().into_iter().find(|c| c.id == id).expect("unknown id");
    let budget: u64 = arg(args, "--budget").map_or(if tier == "thorough" { 1500 } else { 150 }, |s| s.parse().unwrap());

    let work = format!("{}/work", root);
    std::fs::create_dir_all(&work).unwrap();
    std::fs::create_dir_all(format!("{}/evidence", root)).unwrap();
    std::fs::create_dir_all(format!("{}/replays", root)).unwrap();

    let mut evaluations = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut events: BTreeMap<String, Value> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut violations: Vec<(String, Violation)> = vec![];
    let mut broken: Vec<String> = vec![];

    for st in &stages {
        if !violations.is_empty() {
            // One is enough; later builds would only repeat it
            break;
        }
        let out = format!("{}/{}-{}.json", work, id, st.name);
        let log = format!("{}/{}-{}.log", work, id, st.name);
        let _ = std::fs::remove_file(&out);
        let logf = std::fs::File::create(&log).unwrap();
        // A runaway allocation aborts the worker instead of the machine; the
        // sanitizers reserve address space of their own
        let cap = if st.name == "checked" || st.name == "release" { "ulimit -v 20000000; " } else { "" };
        let mut cmd = Command::new("/bin/sh");
        cmd.args(["-c", &format!("{}exec \"$0\" \"$@\"", cap), &st.bin]);
        cmd.args(["worker", &id, "--out", &out, "--profile", &st.name, "--seed", &seed.to_string()])
            .args(["--tier", &tier, "--budget", &budget.to_string()])
            .env("OZMON_ROOT", &root)
            .stdin(Stdio::null())
            .stdout(logf.try_clone().unwrap())
            .stderr(logf);
        if let Some(o) = arg(args, "--only") {
            cmd.args(["--only", &o]);
        }
        if st.name == "tsan" {
            cmd.env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 report_thread_leaks=0 history_size=4 allocator_may_return_null=1");
        }
        if st.name == "asan" {
            cmd.env("ASAN_OPTIONS", "detect_leaks=1 exitcode=67 abort_on_error=0 allocator_may_return_null=1");
        }
        let mut child = cmd.spawn().expect("spawn worker");
        let limit = Duration::from_secs(budget * 2 + 420);
        let ts = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break Some(s);
            }
            if ts.elapsed() > limit {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(50));
        };
        let data: Option<Value> = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok());
        let logtext = std::fs::read(&log).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        // Sanitizer reports
        let marks = [
            "WARNING: ThreadSanitizer",
            "ERROR: AddressSanitizer",
            "ERROR: LeakSanitizer",
            "runtime error:",
        ];
        let mut san = 0;
        for m in marks {
            let n = logtext.matches(m).count();
            san += n;
            if n > 0 {
                let pos = logtext.find(m).unwrap();
                let mut end = (pos + 3000).min(logtext.len());
                while !logtext.is_char_boundary(end) {
                    end -= 1;
                }
                violations.push((
                    st.name.clone(),
                    Violation {
                        key:    format!("sanitizer:{}", m),
                        detail: format!("{} report(s); first: {}", n, &logtext[pos..end]),
                        at:     "-".into(),
                    },
                ));
            }
        }
        use std::os::unix::process::ExitStatusExt;
        match (status, &data) {
            (None, _) => broken.push(format!("{}: worker exceeded {} s", st.name, limit.as_secs())),
            (Some(s), None) => {
                match s.signal() {
                    Some(sig) if [4, 6, 7, 8, 11].contains(&sig) => {
                        let tail: String = logtext.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
                        violations.push((
                            st.name.clone(),
                            Violation {
                                key:    "crash".into(),
                                detail: format!("worker killed by signal {}; log tail: {}", sig, tail),
                                at:     "-".into(),
                            },
                        ));
                    }
                    _ if san > 0 => {}
                    _ => broken.push(format!("{}: worker gave no result ({})", st.name, s)),
                }
            }
            (Some(_), Some(d)) => {
                evaluations += d["evaluations"].as_u64().unwrap();
                for x in d["distinct"].as_array().unwrap() {
                    distinct.insert(x.as_u64().unwrap());
                }
                events.insert(st.name.clone(), d["events"].clone());
                for (g, v) in d["samples"].as_object().unwrap() {
                    for s in v.as_array().unwrap() {
                        if samples.len() < 40 {
                            samples.push(json!({"build": st.name, "group": g, "case": s}));
                        }
                    }
                }
                for v in d["violations"].as_array().unwrap() {
                    violations.push((st.name.clone(), serde_json::from_value(v.clone()).unwrap()));
                }
            }
        }
    }

    let ran: Vec<String> = events.keys().cloned().collect();
    // Known findings: exact key match only.
    let known: Vec<(String, String)> = std::fs::read_to_string(format!("{}/known_findings.json", root))
        .ok()
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .map(|v| {
            v["known"]
                .as_array()
                .cloned()
                .unwrap_or_default()
                .iter()
                .filter(|k| k["property"] == id.as_str())
                .map(|k| (k["key"].as_str().unwrap().to_owned(), k["what"].as_str().unwrap().to_owned()))
                .collect()
        })
        .unwrap_or_default();
    let mut seen_known = HashSet::new();
    let mut fresh = vec![];
    for (st, v) in violations {
        if let Some((k, what)) = known.iter().find(|(k, _)| *k == v.key) {
            if seen_known.insert(k.clone()) {
                println!("KNOWN-FINDING: property={} {}", id, what);
            }
        } else {
            fresh.push((st, v));
        }
    }

    let nviol = fresh.len();
    let replay = format!("{}/replays/{}.json", root, id);
    if nviol > 0 {
        let list: Vec<Value> = fresh
            .iter()
            .take(20)
            .map(|(st, v)| {
                json!({"build": st, "key": v.key, "case": v.at, "detail": v.detail,
                   "rerun": format!("VERIF_SEED={} VERIF_TIER={} {}/check.sh {} --only '{}'", seed, tier, root, id, v.at)})
            })
            .collect();
        std::fs::write(
            &replay,
            serde_json::to_string_pretty(&json!({"property": id, "seed": seed, "tier": tier, "violations": list})).unwrap(),
        )
        .unwrap();
    }
    let ev = json!({
        "property": id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": check.rule,
            "samples": samples,
            "observed": events,
            "builds": ran,
        },
        "assumptions": check.assumes,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    std::fs::write(format!("{}/evidence/{}.json", root, id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    for (st, v) in fresh.iter().take(5) {
        let d: String = v.detail.chars().take(700).collect();
        eprintln!("violation [{}] {} at {}: {}", st, v.key, v.at, d);
    }
    if nviol > 0 {
        println!("VIOLATION property={} replay={}", id, replay);
        std::process::exit(1);
    }
    if !broken.is_empty() {
        for b in broken {
            eprintln!("check error: {}", b);
        }
        std::process::exit(2);
    }
    println!(
        "OK property={} evaluations={} distinct={} in {:.1}s",
        id,
        evaluations,
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
}

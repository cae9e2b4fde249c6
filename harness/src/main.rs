mod alloc;
mod engine;
mod props;
mod spec;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command, Stdio};
use std::time::Instant;

#[global_allocator]
static A: alloc::Checked = alloc::Checked;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

/// The worker runs on a big stack, so that a degenerate (unbalanced) tree is reported as such.
fn big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let cmd = a.first().map(|s| s.as_str()).unwrap_or("");
    let tier = match arg(&a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = arg(&a, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    match cmd {
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
        }
        "run" => run(&a[1], tier, seed, &a),
        "worker" => {
            install_panic_hook();
            let id = a[1].clone();
            let num = |k: &str| arg(&a, k).unwrap().parse::<u64>().unwrap();
            let (shard, shards, cases) = (num("--shard"), num("--shards"), num("--cases"));
            let out = arg(&a, "--out").unwrap();
            let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}.progress", out)).ok();
            let r = big_stack(move || {
                let p = props::get(&id).unwrap();
                p.worker(&WorkerArgs { seed, tier, shard, shards, cases, progress })
            });
            std::fs::write(out, serde_json::to_vec(&r).unwrap()).unwrap();
        }
        "shrinkcrash" => {
            install_panic_hook();
            let id = a[1].clone();
            let idx = arg(&a, "--idx").unwrap().parse().unwrap();
            let out = arg(&a, "--out").unwrap();
            let r = big_stack(move || props::get(&id).unwrap().shrink_crash(seed, tier, idx));
            std::fs::write(out, serde_json::to_vec(&r).unwrap()).unwrap();
        }
        "gen" => {
            let p = props::get(&a[1]).unwrap();
            println!("{}", serde_json::to_string_pretty(&p.gen(seed, tier, arg(&a, "--idx").unwrap().parse().unwrap())).unwrap());
        }
        "replay" => {
            install_panic_hook();
            let path = a[1].clone();
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&path).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap().to_string();
            // in a child, so that a crash is reported too
            if arg(&a, "--inner").is_none() {
                let s = Command::new(std::env::current_exe().unwrap()).args(["replay", &path, "--inner", "1"]).status().unwrap();
                match (s.code(), s.signal()) {
                    (Some(0), _) => exit(0),
                    (Some(1), _) => {}
                    (_, Some(g)) if crash_signal(g) => println!("the process died with signal {}", g),
                    _ => exit(2),
                }
                println!("VIOLATION property={} replay={}", id, path);
                exit(1);
            }
            let r = big_stack(move || props::get(&id).unwrap().replay(&v["case"]));
            match r {
                Err(e) => {
                    eprintln!("cannot read the case: {}", e);
                    exit(2)
                }
                Ok(Ok(())) => println!("the case passes"),
                Ok(Err(m)) => {
                    println!("{}", m);
                    exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: cv list | run ID | replay FILE | gen ID --idx N");
            exit(2)
        }
    }
}

fn run(id: &str, tier: Tier, seed: u64, a: &[String]) {
    let t0 = Instant::now();
    let p = match props::get(id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            exit(2)
        }
    };
    let cases = arg(a, "--cases").map(|s| s.parse().unwrap()).unwrap_or(p.cases(tier));
    let shards: u64 = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16);
    let tiername = if tier == Tier::Quick { "quick" } else { "thorough" };
    let dir = format!("{}/out/{}-{}", VERIF, id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let limit = if tier == Tier::Quick { 800 } else { 6 * 3600 };
    let (seed_s, cases_s, shards_s) = (seed.to_string(), cases.to_string(), shards.to_string());
    let mut ch: Vec<_> = (0..shards)
        .map(|i| {
            let out = format!("{}/w{}", dir, i);
            Command::new(&exe)
                .args(["worker", id, "--tier", tiername, "--seed", &seed_s, "--cases", &cases_s])
                .args(["--shard", &i.to_string(), "--shards", &shards_s, "--out", &out])
                .stdin(Stdio::null())
                .spawn()
                .expect("cannot start a worker")
        })
        .collect();
    let mut status = vec![None; ch.len()];
    let mut error = None;
    loop {
        let mut open = 0;
        for (i, c) in ch.iter_mut().enumerate() {
            if status[i].is_none() {
                match c.try_wait() {
                    Ok(Some(s)) => status[i] = Some(s),
                    _ => open += 1,
                }
            }
        }
        if open == 0 {
            break;
        }
        if t0.elapsed().as_secs() > limit {
            error = Some("time limit reached (inconclusive)".to_string());
            for c in &mut ch {
                let _ = c.kill();
                let _ = c.wait();
            }
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }

    let mut st = Stats::default();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut fails: Vec<Failure> = vec![];
    let mut crashed: Vec<u64> = vec![];
    for (i, s) in status.iter().enumerate() {
        let s = match s {
            Some(s) => s,
            None => continue,
        };
        let out = format!("{}/w{}", dir, i);
        if s.success() {
            match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<WorkerResult>(&b).ok()) {
                Some(r) => {
                    hs.extend(r.hashes);
                    st.evaluations += r.stats.evaluations;
                    st.nontrivial += r.stats.nontrivial;
                    for (k, v) in r.stats.classes {
                        *st.classes.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in r.stats.known {
                        *st.known.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in r.stats.known_sample {
                        st.known_sample.entry(k).or_insert(v);
                    }
                    if st.samples.len() < 4 {
                        st.samples.extend(r.stats.samples);
                    }
                    fails.extend(r.failure);
                }
                None => error = Some(format!("worker {} left no result", i)),
            }
        } else if s.signal().map(crash_signal).unwrap_or(false) {
            let b = std::fs::read(format!("{}.progress", out)).unwrap_or_default();
            match <[u8; 8]>::try_from(&b[..]) {
                Ok(b) if u64::from_le_bytes(b) > 0 => crashed.push(u64::from_le_bytes(b) - 1),
                _ => error = Some(format!("worker {} crashed before its first case", i)),
            }
        } else {
            error = Some(format!("worker {} ended with {:?}", i, s));
        }
    }
    crashed.sort();
    if fails.is_empty() {
        if let Some(idx) = crashed.first() {
            let out = format!("{}/crash", dir);
            let _ = Command::new(&exe)
                .args(["shrinkcrash", id, "--tier", tiername, "--seed", &seed_s, "--idx", &idx.to_string(), "--out", &out])
                .stdin(Stdio::null())
                .status();
            let f = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Option<Failure>>(&b).ok()).flatten();
            fails.push(f.unwrap_or_else(|| Failure {
                idx: *idx,
                message: "the process crashed on this case (not reproduced in isolation: state of earlier cases matters)".into(),
                case: p.gen(seed, tier, *idx),
                shrink_steps: 0,
            }));
        }
    }
    fails.sort_by_key(|f| f.message.len() + f.case.to_string().len());
    let _ = std::fs::remove_dir_all(&dir);
    // keeps out/ itself only if it has replays in it
    let _ = std::fs::remove_dir(format!("{}/out", VERIF));

    let mut out = std::io::stdout();
    let mut violations = 0;
    if let Some(f) = fails.first() {
        violations = fails.len() + crashed.len().saturating_sub(1);
        let rd = format!("{}/out/replay", VERIF);
        std::fs::create_dir_all(&rd).unwrap();
        let rd = std::fs::canonicalize(rd).unwrap();
        let path = format!("{}/{}-seed{}-case{}.json", rd.display(), id, seed, f.idx);
        let v = serde_json::json!({"property": id, "seed": seed, "tier": tiername, "case_index": f.idx,
            "message": f.message, "shrink_steps": f.shrink_steps, "case": f.case});
        std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
        let _ = writeln!(out, "{}: {}", id, f.message);
        let _ = writeln!(out, "VIOLATION property={} replay={}", id, path);
    }
    let mut kf = vec![];
    install_panic_hook();
    for (sig, what) in listed_full(id) {
        if let Some(w) = p.known_demo(&sig) {
            let _ = writeln!(out, "KNOWN-FINDING: property={} {}: {} ({})", id, sig, what, w);
            kf.push(serde_json::json!({"sig": sig, "demonstration": w,
                "generated_cases_hitting_it": st.known.get(&sig).copied().unwrap_or(0),
                "sample": st.known_sample.get(&sig)}));
        } else {
            let _ = writeln!(out, "note: the listed finding {} of {} no longer fails", sig, id);
        }
    }
    let mut samples: Vec<serde_json::Value> = st.samples.into_iter().take(4).collect();
    if samples.is_empty() {
        samples.push(p.gen(seed, tier, 0));
    }
    let wall = t0.elapsed().as_secs_f64();
    let classes: BTreeMap<_, _> = st.classes;
    let ev = serde_json::json!({
        "property": id, "tier": tiername, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": hs.len(),
            "rule": p.rule(),
            "samples": samples,
            "distribution": classes,
            "known_findings_seen": kf,
            "workers": shards,
        },
        "assumptions": p.assumptions(),
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::create_dir_all(format!("{}/evidence", VERIF)).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", VERIF, id), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    if violations > 0 {
        exit(1);
    }
    if let Some(e) = error {
        eprintln!("{}: error of the check: {}", id, e);
        exit(2);
    }
    let _ = writeln!(out, "{}: ok, {} cases, {} distinct non-trivial, {:.1} s", id, st.evaluations, hs.len(), wall);
}

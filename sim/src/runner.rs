//! Batch runner: worker processes, minimisation, replay files, evidence.
use crate::core::*;
use crate::props::{Prop, PROPS};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("DVE_VERIF").unwrap_or_else(|_| "/verif".into()))
}

#[derive(Clone)]
pub struct RunId {
    pub prop: &'static Prop,
    pub seed: u64,
    pub real: bool,
    pub thorough: bool,
}

pub enum Out {
    Ok,
    Viol(Viol),
    Harness(String),
}

pub struct Done {
    pub out: Out,
    pub cx: Cx,
}

pub fn listed(prop: &str) -> Vec<String> {
    let f = verif().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(f) else { return vec![] };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["status"] == "known" && v["property"] == prop)
        .filter_map(|v| v["class"].as_str().map(|x| x.to_string()))
        .collect()
}

pub fn execute(id: &RunId, ch: Ch, trace: bool, known: &[String]) -> Done {
    let mut cx = Cx::new(id.prop.id, id.seed, ch, id.thorough, trace);
    cx.listed = known.to_vec();
    let pol = match h64(&[id.seed, 0x5241594F]) % 4 {
        0 => rayon_core::sim::Policy::Sequential,
        1 => rayon_core::sim::Policy::Reversed,
        _ => rayon_core::sim::Policy::Random,
    };
    let threads = [1, 2, 3, 4, 8, 16, 64][(h64(&[id.seed, 0x544852]) % 7) as usize];
    rayon_core::sim::install(pol, h64(&[id.seed, 0x52415953]), threads);
    let f = if id.real { id.prop.real } else { id.prop.toy };
    let _ = take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    let c = rayon_core::sim::uninstall();
    cx.st.rayon_joins += c.joins;
    cx.st.rayon_swapped += c.swapped;
    cx.st.rayon_scope += c.scope_tasks;
    cx.loghash = h64(&[cx.loghash, c.hash]);
    let out = match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(v)) => Out::Viol(v),
        Err(_) => {
            // the scenario met something no correct library returns: either library code called through
            // a trait (circuit, set-up) panicked, or a result has a shape the scenario cannot go on with
            let m = take_panic().unwrap_or_else(|| "panic".into());
            let class = if m.contains("poisoned") { None } else { Some("scenario_cannot_continue") };
            match class {
                Some(c) => Out::Viol(Viol { class: c.into(), detail: format!("the run cannot go on: {}", m) }),
                None => Out::Harness(m),
            }
        }
    };
    Done { out, cx }
}

fn run_seed(vseed: u64, prop: &str, i: u64) -> u64 {
    h64(&[vseed, hstr(prop), i])
}

pub fn run_id(prop: &'static Prop, vseed: u64, thorough: bool, i: u64) -> RunId {
    let every = if thorough { prop.real_every_thorough } else { prop.real_every };
    // spread the (expensive) real-curve runs over the workers
    let real = every > 0 && (i / every) % every == i % every;
    RunId { prop, seed: run_seed(vseed, prop.id, i), real, thorough }
}

/// Shrink the choice stream while the same violation class persists.
pub fn minimise(id: &RunId, choices: Vec<u32>, class: &str, known: &[String], budget: Duration) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let mut best = choices;
    let mut tries = 0u64;
    let attempt = |c: &[u32], tries: &mut u64| -> Option<Vec<u32>> {
        *tries += 1;
        let d = execute(id, Ch::replay(c.to_vec()), false, known);
        match d.out {
            Out::Viol(v) if v.class == class => {
                let mut r = d.cx.ch.rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                Some(r)
            }
            _ => None,
        }
    };
    if let Some(r) = attempt(&best, &mut tries) {
        best = r;
    }
    let simpler = |a: &Vec<u32>, b: &Vec<u32>| -> bool {
        let k = |v: &Vec<u32>| (v.len(), v.iter().filter(|x| **x != 0).count(), v.iter().map(|x| *x as u64).sum::<u64>());
        k(a) < k(b)
    };
    loop {
        let mut improved = false;
        // truncate
        let mut size = best.len() / 2;
        while size >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let end = (i + size).min(best.len());
                // delete span
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[end..]);
                if let Some(r) = attempt(&c, &mut tries) {
                    if simpler(&r, &best) {
                        best = r;
                        improved = true;
                        continue;
                    }
                }
                // zero span
                if best[i..end.min(best.len())].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    if let Some(r) = attempt(&c, &mut tries) {
                        if simpler(&r, &best) {
                            best = r;
                            improved = true;
                            continue;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            if best[i] > 0 {
                for v in [best[i] / 2, best[i] - 1] {
                    if v >= best[i] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some(r) = attempt(&c, &mut tries) {
                        if simpler(&r, &best) {
                            best = r;
                            improved = true;
                            break;
                        }
                    }
                    if i >= best.len() {
                        break;
                    }
                }
            }
            i += 1;
        }
        if !improved || t0.elapsed() >= budget {
            break;
        }
    }
    (best, tries)
}

fn replay_json(id: &RunId, choices: &[u32], v: &Viol, trace: &[String], cx: &Cx, extra: Value) -> Value {
    json!({
        "property": id.prop.id,
        "class": v.class,
        "detail": v.detail,
        "run_seed": id.seed.to_string(),
        "cache_seed": crate::sys::cache_seed().to_string(),
        "real_curve": id.real,
        "thorough": id.thorough,
        "choices": choices,
        "faults_fired": cx.st.faults,
        "workload": cx.sample,
        "trace": trace,
        "minimisation": extra,
    })
}

// ------------------------------------------------------------------------------------------
// worker

pub fn worker(args: &[String]) -> i32 {
    let prop = find(&args[0]);
    let thorough = args[1] == "thorough";
    let vseed: u64 = args[2].parse().unwrap();
    let w: u64 = args[3].parse().unwrap();
    let nw: u64 = args[4].parse().unwrap();
    let runs: u64 = args[5].parse().unwrap();
    let secs: u64 = args[6].parse().unwrap();
    let from: u64 = args.get(7).and_then(|x| x.parse().ok()).unwrap_or(0);
    let hist = args.get(8).map(|s| s == "history").unwrap_or(false);
    crate::sys::set_cache_seed(vseed);
    let known = listed(prop.id);
    let out = std::io::stdout();
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut done = 0u64;
    let mut real = 0u64;
    let mut knowns: BTreeMap<String, String> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut combined = 0u64;
    let mut i = w;
    let mut pos = 0u64;
    while i < runs {
        if pos >= from || hist {
            if t0.elapsed() > Duration::from_secs(secs) {
                break;
            }
            let id = run_id(prop, vseed, thorough, i);
            {
                let mut o = out.lock();
                writeln!(o, "{}", json!({"hb": pos, "i": i})).unwrap();
                o.flush().unwrap();
            }
            let d = execute(&id, Ch::random(id.seed), false, &known);
            done += 1;
            real += id.real as u64;
            combined = h64(&[combined, d.cx.loghash]);
            if std::env::var("DVE_HASHES").is_ok() {
                // one write, so that the lines of several workers do not mix
                let line = format!("{} {:x} {}\n", i, d.cx.loghash, d.cx.ch.rec.len());
                let _ = std::io::Write::write_all(&mut std::io::stderr(), line.as_bytes());
            }
            st.merge(&d.cx.st);
            for (k, v) in &d.cx.known {
                knowns.entry(k.clone()).or_insert(v.clone());
            }
            if d.cx.nontrivial && hashes.insert(d.cx.loghash) {
                nontrivial += 1;
            }
            if samples.len() < 2 && d.cx.nontrivial {
                samples.push(json!({"run": i, "seed": id.seed.to_string(), "workload": d.cx.sample, "faults": d.cx.st.faults, "steps": d.cx.st.steps, "choices": d.cx.ch.rec.len()}));
            }
            match d.out {
                Out::Ok => {}
                Out::Harness(m) => {
                    println!("{}", json!({"harness": m, "i": i, "seed": id.seed.to_string()}));
                    return 3;
                }
                Out::Viol(v) => {
                    println!("{}", json!({"found": v.class, "detail": v.detail, "i": i, "seed": id.seed.to_string()}));
                    let _ = out.lock().flush();
                    let t = Instant::now();
                    let orig = d.cx.ch.rec.clone();
                    let budget = Duration::from_secs(if thorough { 60 } else { 20 });
                    let (min, tries) = minimise(&id, orig.clone(), &v.class, &known, budget);
                    let e = execute(&id, Ch::replay(min.clone()), true, &known);
                    let (choices, v2, cx2) = match e.out {
                        Out::Viol(v2) if v2.class == v.class => (min, v2, e.cx),
                        _ => {
                            let e = execute(&id, Ch::replay(orig.clone()), true, &known);
                            (orig.clone(), v.clone(), e.cx)
                        }
                    };
                    let extra = json!({"original_choices": orig.len(), "minimised_choices": choices.len(), "attempts": tries, "seconds": t.elapsed().as_secs_f64()});
                    let trace = cx2.trace.clone().unwrap_or_default();
                    let mut rj = replay_json(&id, &choices, &v2, &trace, &cx2, extra);
                    rj["original"] = json!(orig);
                    rj["history"] = json!({"worker": w, "workers": nw, "run": i, "seed": vseed.to_string(), "runs": runs});
                    println!("{}", json!({"viol": rj}));
                    let _ = out.lock().flush();
                    // one violation per worker is enough
                    break;
                }
            }
        }
        pos += 1;
        i += nw;
    }
    let mut hv: Vec<String> = hashes.iter().map(|h| format!("{:x}", h)).collect();
    hv.sort();
    println!(
        "{}",
        json!({"end": true, "runs": done, "real": real, "nontrivial": nontrivial, "combined": format!("{:x}", combined),
            "faults": st.faults, "probes": st.probes, "ops": st.ops, "sim_us": st.sim_us, "steps": st.steps, "checks": st.checks,
            "joins": st.rayon_joins, "swapped": st.rayon_swapped, "scope": st.rayon_scope,
            "known": knowns, "samples": samples, "hashes": hv})
    );
    let _ = out.lock().flush();
    0
}

pub fn find(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

// ------------------------------------------------------------------------------------------
// replay

pub fn replay(path: &str, quiet: bool) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    let v: Value = serde_json::from_str(&s).unwrap();
    let prop = find(v["property"].as_str().unwrap());
    let known = listed(prop.id);
    let class = v["class"].as_str().unwrap_or("").to_string();
    if v["mode"] == "history" {
        // state carried from run to run inside one process: re-run the worker's history
        let h = &v["history"];
        let me = std::env::current_exe().unwrap();
        let out = Command::new(me)
            .args(["worker", prop.id, if v["thorough"] == true { "thorough" } else { "quick" }, h["seed"].as_str().unwrap(),
                &h["worker"].to_string(), &h["workers"].to_string(), &h["runs"].to_string(), "100000"])
            .stderr(Stdio::null())
            .output()
            .unwrap();
        let txt = String::from_utf8_lossy(&out.stdout).to_string();
        for l in txt.lines() {
            if let Ok(x) = serde_json::from_str::<Value>(l) {
                if x["found"] == class.as_str() && x["i"] == h["run"] {
                    println!("reproduced {}: {}", class, x["detail"].as_str().unwrap_or(""));
                    println!("VIOLATION property={} replay={}", prop.id, path);
                    return 1;
                }
            }
        }
        println!("not reproduced: {}", class);
        return 0;
    }
    crate::sys::set_cache_seed(v["cache_seed"].as_str().unwrap().parse().unwrap());
    let id = RunId {
        prop,
        seed: v["run_seed"].as_str().unwrap().parse().unwrap(),
        real: v["real_curve"] == true,
        thorough: v["thorough"] == true,
    };
    let ch = if v["mode"] == "random" {
        Ch::random(id.seed)
    } else {
        Ch::replay(v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect())
    };
    let d = execute(&id, ch, true, &known);
    match d.out {
        Out::Viol(x) => {
            if !quiet {
                for l in d.cx.trace.unwrap_or_default() {
                    println!("  {}", l);
                }
            }
            println!("reproduced {}: {}", x.class, x.detail);
            println!("log hash {:x}", d.cx.loghash);
            println!("VIOLATION property={} replay={}", prop.id, path);
            if x.class == class {
                1
            } else {
                4
            }
        }
        Out::Ok => {
            println!("not reproduced: {}", class);
            0
        }
        Out::Harness(m) => {
            eprintln!("harness error: {}", m);
            3
        }
    }
}

fn self_cmd() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

// ------------------------------------------------------------------------------------------
// check

pub fn check(prop: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    println!("VERIF_SEED={} tier={} property={}", vseed, tier, prop.id);
    let nw = std::env::var("DVE_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let runs: u64 = std::env::var("DVE_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { prop.runs_thorough } else { prop.runs_quick });
    let secs: u64 = std::env::var("DVE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 150 });
    let stall = Duration::from_secs(std::env::var("DVE_STALL").ok().and_then(|s| s.parse().ok()).unwrap_or(240));
    let dir = verif().join("replays");
    std::fs::create_dir_all(&dir).unwrap();

    if let Err(e) = crate::toy::self_test() {
        eprintln!("harness error: stand-in curve: {}", e);
        return 2;
    }

    let (tx, rx) = mpsc::channel::<(u64, Option<Value>)>();
    let mut kids = vec![];
    let spawn = |w: u64, from: u64, tx: mpsc::Sender<(u64, Option<Value>)>| {
        let mut c = self_cmd()
            .args(["worker", prop.id, &tier, &vseed.to_string(), &w.to_string(), &nw.to_string(), &runs.to_string(), &secs.to_string(), &from.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .unwrap();
        let so = c.stdout.take().unwrap();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                let Ok(l) = l else { break };
                if let Ok(v) = serde_json::from_str::<Value>(&l) {
                    let _ = tx.send((w, Some(v)));
                }
            }
            let _ = tx.send((w, None));
        });
        c
    };
    for w in 0..nw {
        kids.push(spawn(w, 0, tx.clone()));
    }
    let mut last: Vec<(Instant, i64, bool)> = (0..nw).map(|_| (Instant::now(), -1, false)).collect();
    let mut ended = vec![false; nw as usize];
    let mut ends: Vec<Value> = vec![];
    let mut viols: Vec<Value> = vec![];
    let mut dead: Vec<(u64, i64, &'static str)> = vec![];
    let mut closed = 0;
    let mut found = false;
    let mut found_at = Instant::now();
    let mut harness: Option<String> = None;
    while closed < nw {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok((w, Some(v))) => {
                let s = &mut last[w as usize];
                s.0 = Instant::now();
                if let Some(i) = v["i"].as_i64() {
                    s.1 = i;
                }
                if v["end"] == true {
                    ended[w as usize] = true;
                    ends.push(v);
                } else if v.get("found").is_some() {
                    if !found {
                        found_at = Instant::now();
                    }
                    found = true;
                } else if v.get("viol").is_some() {
                    viols.push(v["viol"].clone());
                } else if v.get("harness").is_some() {
                    harness = Some(v.to_string());
                    ended[w as usize] = true;
                }
            }
            Ok((w, None)) => {
                closed += 1;
                let st = kids[w as usize].wait().ok();
                if !ended[w as usize] && !last[w as usize].2 {
                    let _ = st;
                    dead.push((w, last[w as usize].1, "abort"));
                }
            }
            Err(_) => {}
        }
        // a violation has been found: give the others a moment to minimise theirs, then stop
        let finished_viol = !viols.is_empty();
        if found && finished_viol && found_at.elapsed() > Duration::from_secs(3) {
            for (w, k) in kids.iter_mut().enumerate() {
                if !ended[w] {
                    last[w].2 = true;
                    let _ = k.kill();
                }
            }
        }
        for w in 0..nw as usize {
            if !ended[w] && !last[w].2 && last[w].0.elapsed() > stall {
                last[w].2 = true;
                let _ = kids[w].kill();
                dead.push((w as u64, last[w].1, "hang"));
            }
        }
    }
    drop(tx);

    // dead workers: re-run the suspect run alone; a reproducible death is a violation
    for (w, i, kind) in &dead {
        if *i < 0 {
            continue;
        }
        let id = run_id(prop, vseed, thorough, *i as u64);
        let path = dir.join(format!("{}-{}-{}.json", prop.id, kind, i));
        let rj = json!({"property": prop.id, "class": *kind, "detail": format!("run {} of worker {}: the process {}", i, w, if *kind == "hang" {"made no progress"} else {"died"}),
            "run_seed": id.seed.to_string(), "cache_seed": vseed.to_string(), "real_curve": id.real, "thorough": thorough, "mode": "random", "choices": []});
        std::fs::write(&path, serde_json::to_vec_pretty(&rj).unwrap()).unwrap();
        let mut c = self_cmd().args(["replay", path.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let t = Instant::now();
        let again = loop {
            match c.try_wait().unwrap() {
                Some(s) => break s.code().is_none() || s.code() == Some(1) || s.code() == Some(134),
                None => {
                    if t.elapsed() > stall {
                        let _ = c.kill();
                        break *kind == "hang";
                    }
                    std::thread::sleep(Duration::from_millis(100));
                }
            }
        };
        if again {
            let mut x = rj.clone();
            x["path"] = json!(path.to_str().unwrap());
            viols.push(x);
        } else {
            harness = Some(format!("worker {} died in run {} ({}) and the run does not reproduce it", w, i, kind));
        }
    }

    // write replay files and confirm each in a fresh process
    let mut confirmed: Vec<(String, String, String)> = vec![];
    let mut classes = HashSet::new();
    for v in &viols {
        let class = v["class"].as_str().unwrap().to_string();
        if !classes.insert(class.clone()) || confirmed.len() >= 3 {
            continue;
        }
        if let Some(p) = v["path"].as_str() {
            confirmed.push((class, v["detail"].as_str().unwrap().to_string(), p.to_string()));
            continue;
        }
        let name: String = class.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
        let path = dir.join(format!("{}-{}.json", prop.id, name));
        let mut v = v.clone();
        let original = v["original"].clone();
        v.as_object_mut().unwrap().remove("original");
        let write = |v: &Value| std::fs::write(&path, serde_json::to_vec_pretty(v).unwrap()).unwrap();
        write(&v);
        let run = || self_cmd().args(["replay", path.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap().code();
        if run() != Some(1) {
            v["choices"] = original;
            write(&v);
            if run() != Some(1) {
                v["mode"] = json!("history");
                write(&v);
                if run() != Some(1) {
                    v["mode"] = json!("unreproduced");
                    write(&v);
                    harness = Some(format!("violation {} does not replay: {}", class, path.display()));
                    continue;
                }
            }
        }
        confirmed.push((class, v["detail"].as_str().unwrap().to_string(), path.to_str().unwrap().to_string()));
    }

    // evidence
    let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
    let mut maps: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
    let mut knowns: BTreeMap<String, String> = BTreeMap::new();
    let mut samples = vec![];
    let mut distinct: HashSet<String> = HashSet::new();
    for e in &ends {
        for k in ["runs", "real", "sim_us", "steps", "checks", "joins", "swapped", "scope"] {
            *tot.entry(k).or_default() += e[k].as_u64().unwrap_or(0);
        }
        for k in ["faults", "probes", "ops"] {
            for (a, b) in e[k].as_object().unwrap() {
                *maps.entry(k).or_default().entry(a.clone()).or_default() += b.as_u64().unwrap();
            }
        }
        for (a, b) in e["known"].as_object().unwrap() {
            knowns.entry(a.clone()).or_insert(b.as_str().unwrap_or("").to_string());
        }
        for s in e["samples"].as_array().unwrap() {
            if samples.len() < 4 {
                samples.push(s.clone());
            }
        }
        for h in e["hashes"].as_array().unwrap() {
            distinct.insert(h.as_str().unwrap().to_string());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let n_runs = tot.get("runs").copied().unwrap_or(0);
    let per_hour = if wall > 0.0 { (n_runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let ev = json!({
        "property": prop.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": n_runs,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "technique": "deterministic simulation with seeded fault and schedule injection",
            "runs_on_bls12_381": tot.get("real").copied().unwrap_or(0),
            "runs_and_seeds_per_hour": per_hour,
            "simulated_seconds": tot.get("sim_us").copied().unwrap_or(0) as f64 / 1e6,
            "simulated_events": tot.get("steps").copied().unwrap_or(0),
            "oracle_evaluations": tot.get("checks").copied().unwrap_or(0),
            "faults_fired": maps.get("faults").cloned().unwrap_or_default(),
            "probes_hit": maps.get("probes").cloned().unwrap_or_default(),
            "library_operations": maps.get("ops").cloned().unwrap_or_default(),
            "rayon": {"joins": tot.get("joins").copied().unwrap_or(0), "joins_run_out_of_order": tot.get("swapped").copied().unwrap_or(0), "scope_tasks": tot.get("scope").copied().unwrap_or(0)},
            "distinct_measure": "distinct event-log hashes (workload, every message/effect/fault with content hash, rayon task order)",
            "components_real": "dist-saver (/repo, all modules, feature `parallel`; for C20 also without), ark-ec/ark-ff/ark-groth16/ark-serialize, rayon iterators, serde_json/bincode; BLS12-381 on the stated runs",
            "components_stub": "rayon-core thread pool (deterministic scheduler), network, clock, disks, OS randomness; curve replaced by a 61-bit pairing curve on the other runs",
            "known_findings_seen": knowns,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": confirmed.len(),
    });
    std::fs::create_dir_all(verif().join("evidence")).unwrap();
    std::fs::write(verif().join("evidence").join(format!("{}.json", prop.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();

    for (k, d) in &knowns {
        println!("KNOWN-FINDING: property={} {}: {}", prop.id, k, d);
    }
    println!(
        "{}: {} runs ({} on BLS12-381), {} distinct non-trivial, {:.0} simulated s, {:.1} s wall",
        prop.id,
        n_runs,
        tot.get("real").copied().unwrap_or(0),
        distinct.len(),
        tot.get("sim_us").copied().unwrap_or(0) as f64 / 1e6,
        wall
    );
    if !confirmed.is_empty() {
        for (c, d, p) in &confirmed {
            println!("  {}: {}", c, d);
            println!("VIOLATION property={} replay={}", prop.id, p);
        }
        return 1;
    }
    if let Some(h) = harness {
        eprintln!("harness error: {}", h);
        return 2;
    }
    if n_runs == 0 {
        eprintln!("harness error: no run finished");
        return 2;
    }
    0
}

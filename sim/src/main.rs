//! Deterministic simulation of systems built on fixnum. See /verif/DESIGN.md.
mod codec;
mod core;
mod damaged;
mod delivery;
mod docs;
mod env;
mod gen;
mod interop;
mod ledger;
mod meddle;
mod nodes;
mod records;
mod scale;
mod scarce;
mod text;

use crate::core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct World {
    pub builds: Vec<nodes::Build>,
}

fn scenario(w: &World, prop: &str, cx: &Cx) -> Res {
    match prop {
        "C01" => ledger::run(cx, &w.builds, 1),
        "C02" => ledger::run(cx, &w.builds, 2),
        "C03" => scale::run(cx),
        "C04" => text::run(cx),
        "C05" => {
            if cx.chance(1, 4) {
                records::settings(cx)
            } else {
                records::store(cx, 5)
            }
        }
        "C06" => delivery::run(cx),
        "C07" => records::transport(cx),
        "C08" => {
            if cx.chance(1, 2) {
                records::store(cx, 8)
            } else {
                records::binary_stream(cx)
            }
        }
        "C09" => records::xml(cx),
        "C11" => scarce::run(cx, &w.builds),
        "C12" => meddle::run(cx),
        "C13" => interop::run(cx, &w.builds),
        "C14" => damaged::run(cx, &w.builds),
        _ => panic!("harness: unknown property {prop}"),
    }
}

/// Properties whose simulation loads several builds.
fn needs_builds(prop: &str) -> bool {
    matches!(prop, "C01" | "C02" | "C11" | "C13" | "C14")
}

fn config() -> &'static str {
    match (cfg!(debug_assertions), cfg!(feature = "wide")) {
        (true, true) => "checked",
        (false, true) => "shipped",
        (true, false) => "lite",
        (false, false) => "lite-shipped",
    }
}

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static STEP: AtomicU64 = AtomicU64::new(0);

fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = STEP.load(Ordering::Relaxed);
            if s != last.0 {
                last = (s, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(secs) {
                eprintln!("watchdog: run made no progress for {secs} s");
                std::process::exit(86);
            }
        }
    });
}

fn seed_of(prop: &str, seed: u64, idx: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |h, b| h * 257 + b as u64);
    mix(&[seed, p, cfg!(debug_assertions) as u64, cfg!(feature = "wide") as u64, idx])
}

fn execute(w: &World, prop: &str, cx: &Cx) -> Res {
    STEP.fetch_add(1, Ordering::Relaxed);
    // A panic of the harness itself must stay distinguishable from one of the code under test,
    // which every scenario catches where it calls.
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scenario(w, prop, cx))) {
        Ok(r) => r,
        Err(_) => {
            let t = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
            eprintln!("harness: the simulation itself failed: {t}");
            std::process::exit(70)
        }
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str) -> u64 {
    arg(name).unwrap_or_else(|| panic!("missing {name}")).parse().unwrap()
}

fn replay_json(prop: &str, seed: u64, idx: u64, v: &Viol, choices: &[u64], trace: &[String]) -> Value {
    let skip = trace.len().saturating_sub(400);
    json!({
        "property": prop, "config": config(), "seed": seed, "run": idx,
        "class": v.class, "violation": v.msg, "choices": choices, "trace": &trace[skip..],
    })
}

fn world(prop: &str) -> World {
    World { builds: if needs_builds(prop) { nodes::Build::load_all(&arg("--nodes").expect("--nodes")) } else { vec![] } }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{i}");
    }));
    watchdog(num_or("--watchdog", 60));
    match mode.as_str() {
        "run" => run(),
        "one" => one(),
        "replay" => replay(),
        "shrink" => shrink(),
        "hashes" => hashes(),
        "tape" => tape(),
        m => panic!("harness: mode {m}"),
    }
}
fn num_or(n: &str, d: u64) -> u64 {
    arg(n).map_or(d, |s| s.parse().unwrap())
}

/// Many runs of one worker.
fn run() {
    let prop = arg("--prop").unwrap();
    let (seed, from, stride, count) = (num("--seed"), num("--from"), num("--stride"), num("--count"));
    let secs = num("--secs");
    let out = arg("--out").unwrap();
    let progress = arg("--progress").unwrap();
    let w = world(&prop);
    let t0 = Instant::now();
    let mut runs = 0u64;
    let (mut ops, mut events, mut switches, mut time_us, mut draws) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut faulty_runs: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut violation = Value::Null;
    let mut idx = from;
    let mut last_note = Instant::now();
    use std::os::unix::fs::FileExt;
    let pf = std::fs::File::create(&progress).unwrap();
    while idx < count {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let _ = last_note;
        // so that the driver knows where an abort happened
        let _ = pf.write_at(format!("{idx:020}").as_bytes(), 0);
        last_note = Instant::now();
        let cx = Cx::seeded(seed_of(&prop, seed, idx));
        if samples.len() < 2 {
            cx.lock().sample = Some(vec![]);
        }
        let r = execute(&w, &prop, &cx);
        let g = cx.lock();
        runs += 1;
        ops += g.ops;
        events += g.events;
        switches += g.switches;
        time_us += g.time_us;
        draws += g.choices.len() as u64;
        if g.ops > 0 && (!g.faults.is_empty() || g.switches > 0) {
            distinct.insert(g.hash);
        }
        for (k, v) in &g.faults {
            *faults.entry(k).or_insert(0) += v;
            *faulty_runs.entry(k).or_insert(0) += 1;
        }
        for (k, v) in &g.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        if let Some(s) = &g.sample {
            if !g.faults.is_empty() {
                samples.push(json!({"run": idx, "events": s}));
            }
        }
        if let Err(v) = r {
            violation = json!({"run": idx, "class": v.class, "violation": v.msg, "choices": g.choices});
            break;
        }
        drop(g);
        idx += stride;
    }
    let mut d: Vec<u8> = vec![];
    for h in &distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{out}.distinct"), d).unwrap();
    let j = json!({
        "runs": runs, "ops": ops, "events": events, "switches": switches, "time_us": time_us, "draws": draws,
        "distinct": distinct.len(), "faults": faults, "runs_with_fault": faulty_runs, "probes": probes,
        "samples": samples, "violation": violation, "wall_s": t0.elapsed().as_secs_f64(), "config": config(),
    });
    std::fs::write(&out, j.to_string()).unwrap();
}

/// One seeded run, with full trace; decisions are streamed so that an abort leaves them behind.
fn one() {
    let prop = arg("--prop").unwrap();
    let (seed, idx) = (num("--seed"), num("--idx"));
    let w = world(&prop);
    let cx = Cx::seeded(seed_of(&prop, seed, idx));
    cx.lock().trace = Some(vec![]);
    if let Some(f) = arg("--stream") {
        cx.lock().stream = Some(std::fs::File::create(f).unwrap());
    }
    let r = execute(&w, &prop, &cx);
    let g = cx.lock();
    match r {
        Ok(()) => println!("{}", json!({"ok": true, "hash": format!("{:016x}", g.hash)})),
        Err(v) => println!("{}", replay_json(&prop, seed, idx, &v, &g.choices, g.trace.as_ref().unwrap())),
    }
}

fn attempt(w: &World, prop: &str, choices: Vec<u64>, trace: bool) -> (Res, Cx) {
    let cx = Cx::replay(choices);
    if trace {
        cx.lock().trace = Some(vec![]);
    }
    let r = execute(w, prop, &cx);
    (r, cx)
}

/// Re-execute a replay file. Exit 1: it fails the same way.
fn replay() {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(2).unwrap()).unwrap()).unwrap();
    let prop = f["property"].as_str().unwrap();
    let w = world(prop);
    let want = f["class"].as_str().unwrap_or("");
    let (r, cx) = if let Some(c) = f["choices"].as_array() {
        attempt(&w, prop, c.iter().map(|x| x.as_u64().unwrap()).collect(), true)
    } else {
        // history across runs
        let seed = f["seed"].as_u64().unwrap();
        let mut last = None;
        for i in f["runs"].as_array().unwrap() {
            let cx = Cx::seeded(seed_of(prop, seed, i.as_u64().unwrap()));
            cx.lock().trace = Some(vec![]);
            let r = execute(&w, prop, &cx);
            let bad = r.is_err();
            last = Some((r, cx));
            if bad {
                break;
            }
        }
        last.unwrap()
    };
    if std::env::args().any(|a| a == "--quiet") {
    } else {
        for l in cx.lock().trace.as_ref().unwrap() {
            println!("  {l}");
        }
    }
    match r {
        Err(v) => {
            println!("REPRODUCED property={prop} class={} {}", v.class, v.msg);
            std::process::exit(if want.is_empty() || v.class == want { 1 } else { 3 });
        }
        Ok(()) => {
            println!("NOT-REPRODUCED hash={:016x}", cx.lock().hash);
        }
    }
}

/// Minimise the decision list of a replay file while the violation class persists.
fn shrink() {
    let path = std::env::args().nth(2).unwrap();
    let f: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
    let prop = f["property"].as_str().unwrap().to_string();
    let class = f["class"].as_str().unwrap().to_string();
    let w = world(&prop);
    let t0 = Instant::now();
    let cap = Duration::from_secs(num_or("--secs", 20));
    let mut best: Vec<u64> = f["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let mut tries = 0u64;
    let fails = |c: &Vec<u64>, tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        let (r, cx) = attempt(&w, &prop, c.clone(), false);
        match r {
            Err(v) if v.class == class => {
                let mut used = cx.lock().choices.clone();
                while used.last() == Some(&0) {
                    used.pop();
                }
                Some(used)
            }
            _ => None,
        }
    };
    if let Some(b) = fails(&best, &mut tries) {
        best = b;
        let smaller = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.iter().map(|x| *x as u128).sum::<u128>()) < (b.len(), b.iter().map(|x| *x as u128).sum::<u128>());
        let mut progress = true;
        while progress && t0.elapsed() < cap {
            progress = false;
            // delete chunks
            let mut size = (best.len() / 2).max(1);
            while size >= 1 && t0.elapsed() < cap {
                let mut i = 0;
                while i < best.len() && t0.elapsed() < cap {
                    let mut c = best.clone();
                    c.drain(i..(i + size).min(best.len()));
                    match fails(&c, &mut tries) {
                        Some(b) if smaller(&b, &best) => {
                            best = b;
                            progress = true;
                        }
                        _ => i += size,
                    }
                }
                size /= 2;
            }
            // zero chunks, then lower single decisions
            let mut size = (best.len() / 4).max(1);
            while size >= 1 && t0.elapsed() < cap {
                let mut i = 0;
                while i < best.len() && t0.elapsed() < cap {
                    let end = (i + size).min(best.len());
                    if best[i..end].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        c[i..end].fill(0);
                        if let Some(b) = fails(&c, &mut tries) {
                            if smaller(&b, &best) {
                                best = b;
                                progress = true;
                            }
                        }
                    }
                    i += size;
                }
                size /= 2;
            }
            let mut i = 0;
            while i < best.len() && t0.elapsed() < cap {
                for d in [best[i] / 2, best[i].saturating_sub(1)] {
                    if i < best.len() && d < best[i] {
                        let mut c = best.clone();
                        c[i] = d;
                        if let Some(b) = fails(&c, &mut tries) {
                            if smaller(&b, &best) {
                                best = b;
                                progress = true;
                                break;
                            }
                        }
                    }
                }
                i += 1;
            }
        }
    }
    let (r, cx) = attempt(&w, &prop, best.clone(), true);
    let g = cx.lock();
    match r {
        Err(v) => {
            let mut j = replay_json(&prop, f["seed"].as_u64().unwrap_or(0), f["run"].as_u64().unwrap_or(0), &v, &best, g.trace.as_ref().unwrap());
            j["minimised_from"] = json!(f["choices"].as_array().unwrap().len());
            j["minimisation_attempts"] = json!(tries);
            println!("{j}");
        }
        Ok(()) => println!("{}", json!({"ok": true})),
    }
}

/// Event-log hashes of a range of runs, for the determinism self-check.
fn hashes() {
    let prop = arg("--prop").unwrap();
    let (seed, from, stride, count) = (num("--seed"), num("--from"), num("--stride"), num("--count"));
    let w = world(&prop);
    let mut i = from;
    while i < count {
        let cx = Cx::seeded(seed_of(&prop, seed, i));
        let r = execute(&w, &prop, &cx);
        // (one lock at a time: both guards would live until the end of the statement)
        let (hash, choices) = { let c = cx.lock(); (c.hash, c.choices.len()) };
        println!("{i} {hash:016x} {choices} {}", r.is_ok());
        i += stride;
    }
}

/// What the builds of many runs were asked and answered: `--calls` of them, evenly from all runs.
fn tape() {
    let prop = arg("--prop").unwrap();
    let (seed, count, calls) = (num("--seed"), num("--count"), num("--calls") as usize);
    let w = world(&prop);
    let mut out = vec![];
    let mut n = 0;
    nodes::start_tape();
    for i in 0..count {
        let cx = Cx::seeded(seed_of(&prop, seed, i));
        let _ = execute(&w, &prop, &cx);
        let mut t = nodes::TAPE.lock().unwrap();
        let mut r = std::mem::take(&mut t.as_mut().unwrap().records);
        let quota = (calls * (i as usize + 1) / count as usize).saturating_sub(n);
        // (any of the run's, not only what comes first)
        let step = (r.len() / quota.max(1)).max(1);
        for x in r.drain(..).step_by(step).take(quota) {
            out.extend(x);
            n += 1;
        }
    }
    std::fs::write(arg("--out").unwrap(), out).unwrap();
    println!("{}", json!({"runs": count, "calls": n}));
}

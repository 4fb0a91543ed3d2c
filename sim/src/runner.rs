//! Seeded search, minimisation, replay and evidence.
use crate::ctx::*;
use crate::node::CodePanic;
use crate::supervise::{self, working};
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub struct Outcome {
    pub res: R,
    pub tape: Vec<u32>,
    pub log: Vec<String>,
    pub sched: u64,
    pub content: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub counts: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub steps: u64,
    pub nontrivial: bool,
}

pub fn run_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    mix(mix(seed, fnv(7, prop.as_bytes())), idx)
}

/// One simulated run, on a fresh thread; a pure function of its arguments.
pub fn run_one(p: &Prop, rseed: u64, tape: Tape, thorough: bool) -> Result<Outcome, String> {
    let (f, id) = (p.run, p.id);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                let mut c = Ctx::new(rseed, tape, thorough);
                let res = match crate::node::watch(|| f(&mut c)) {
                    Ok(r) => r,
                    // the code under test panicked where it has no way to report an error and none is due
                    Err(e) if e.is::<CodePanic>() => viol("code-panics", e.downcast_ref::<CodePanic>().map(|p| p.0.clone()).unwrap_or_default()),
                    Err(e) => match panic_text(&e) {
                        t if t.starts_with("enrolment panicked") => viol("enrolment-panics", t),
                        t if t.starts_with("session start panicked") => viol("session-start-panics", t),
                        _ => std::panic::resume_unwind(e),
                    },
                };
                let res = match (&res, c.crowd.as_ref().and_then(|w| w.bad())) {
                    (Ok(()), Some(t)) if matches!(id, "P01" | "P10" | "P13" | "P14") => viol("crowd", t),
                    _ => res,
                };
                c.finish();
                Outcome {
                    res,
                    tape: c.t.rec,
                    log: c.log,
                    sched: c.sched,
                    content: c.content,
                    faults: c.faults,
                    counts: c.counts,
                    sim_ns: c.sim_ns,
                    steps: c.steps,
                    nontrivial: c.nontrivial,
                }
            })
            .expect("spawn")
            .join()
            .map_err(|e| panic_text(&e))
    })
}
fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "harness panic".into())
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub text: String,
}
pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("finding: property=") {
            let mut it = rest.splitn(3, ' ');
            let property = it.next().unwrap_or("").to_string();
            let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
            let text = it.next().unwrap_or("").to_string();
            v.push(Known { property, key, text });
        }
    }
    v
}

struct Tot {
    runs: u64,
    steps: u64,
    sim_ns: u128,
    nontrivial: u64,
    scheds: BTreeSet<u64>,
    faults: BTreeMap<&'static str, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    viol: Option<(u64, Viol, Vec<u32>)>,
    err: Option<String>,
}

/// With `own`, each attempt runs in a process of its own.
#[allow(clippy::too_many_arguments)]
fn minimise(p: &Prop, run: u64, rseed: u64, tape: Vec<u32>, kind: &str, thorough: bool, budget: Duration, own: bool) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let tried = AtomicU64::new(0);
    let fails = |t: &Vec<u32>| -> Option<Vec<u32>> {
        tried.fetch_add(1, Ordering::Relaxed);
        working(0, Some(run));
        if own {
            return supervise::fresh(p, rseed, t, thorough).filter(|f| f.kind == kind).map(|_| t.clone());
        }
        match run_one(p, rseed, Tape::replay(t.clone()), thorough) {
            Ok(o) => match o.res {
                Err(v) if v.kind == kind => Some(o.tape),
                _ => None,
            },
            Err(_) => None,
        }
    };
    let mut best = tape;
    // drop trailing zeros
    let trim = |mut t: Vec<u32>| {
        while t.last() == Some(&0) {
            t.pop();
        }
        t
    };
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        let mut block = (best.len() / 2).max(1);
        while block >= 1 && t0.elapsed() < budget {
            let mut at = 0;
            while at < best.len() && t0.elapsed() < budget {
                let end = (at + block).min(best.len());
                let mut cand: Vec<Vec<u32>> = vec![];
                let mut del = best.clone();
                del.drain(at..end);
                cand.push(del);
                if best[at..end].iter().any(|v| *v != 0) {
                    let mut z = best.clone();
                    z[at..end].iter_mut().for_each(|v| *v = 0);
                    cand.push(z);
                }
                if block == 1 && best[at] > 1 {
                    for v in [best[at] / 2, best[at] - 1] {
                        let mut z = best.clone();
                        z[at] = v;
                        cand.push(z);
                    }
                }
                let mut hit = false;
                for c in cand {
                    let c = trim(c);
                    let smaller = c.len() < best.len() || (c.len() == best.len() && c.iter().map(|x| *x as u64).sum::<u64>() < best.iter().map(|x| *x as u64).sum::<u64>());
                    if smaller && fails(&c).is_some() {
                        best = c;
                        hit = true;
                        improved = true;
                        break;
                    }
                }
                if !hit {
                    at += block;
                }
            }
            if block == 1 {
                break;
            }
            block /= 2;
        }
    }
    (best, tried.load(Ordering::Relaxed))
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub verif: String,
    pub runs: Option<u64>,
    pub cap_s: u64,
}

pub fn check(p: &Prop, o: &Opts) -> i32 {
    let thorough = o.tier == "thorough";
    let runs = o.runs.unwrap_or(if thorough { p.thorough } else { p.quick });
    let known: Vec<Known> = load_known(&format!("{}/known_findings.txt", o.verif)).into_iter().filter(|k| k.property == p.id).collect();
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let capped = AtomicBool::new(false);
    let tot = Mutex::new(Tot {
        runs: 0,
        steps: 0,
        sim_ns: 0,
        nontrivial: 0,
        scheds: BTreeSet::new(),
        faults: BTreeMap::new(),
        counts: BTreeMap::new(),
        samples: vec![],
        known: BTreeMap::new(),
        viol: None,
        err: None,
    });
    let recheck = Mutex::new((0u64, 0u64));
    std::thread::scope(|s| {
        for w in 0..8 {
            let (next, stop_at, capped, tot, recheck, known) = (&next, &stop_at, &capped, &tot, &recheck, &known);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= runs || i > stop_at.load(Ordering::SeqCst) {
                    return working(w, None);
                }
                if t0.elapsed().as_secs() > o.cap_s {
                    capped.store(true, Ordering::SeqCst);
                    return working(w, None);
                }
                working(w, Some(i));
                let rs = run_seed(p.id, o.seed, i);
                let out = run_one(p, rs, Tape::record(rs, i), thorough);
                let out = match out {
                    Ok(x) => x,
                    Err(e) => {
                        let mut t = tot.lock().unwrap();
                        if t.err.is_none() {
                            t.err = Some(format!("run {i}: {e}"));
                        }
                        stop_at.store(0, Ordering::SeqCst);
                        return working(w, None);
                    }
                };
                // determinism: one run in 64 is executed again and must be the same execution
                if i % 64 == 5 {
                    if let Ok(b) = run_one(p, rs, Tape::replay(out.tape.clone()), thorough) {
                        let same = b.content == out.content && b.sched == out.sched && b.tape == out.tape;
                        if std::env::var("SIM_CONTENT").is_ok() {
                            println!("content of run {i}: {:016x}", out.content);
                        }
                        let mut r = recheck.lock().unwrap();
                        r.0 += 1;
                        if !same {
                            if std::env::var("SIM_DIFF").is_ok() {
                                let k = out.log.iter().zip(&b.log).position(|(x, y)| x != y);
                                println!("run {i} differs at {k:?}: {:?} / {:?}; tape {:?}", k.map(|k| &out.log[k]), k.map(|k| &b.log[k]), &out.tape[..out.tape.len().min(8)]);
                            }
                            r.1 += 1;
                        }
                    }
                }
                let mut t = tot.lock().unwrap();
                t.runs += 1;
                t.steps += out.steps;
                t.sim_ns += out.sim_ns as u128;
                if out.nontrivial {
                    t.nontrivial += 1;
                    t.scheds.insert(out.sched);
                }
                for (k, v) in &out.faults {
                    *t.faults.entry(k).or_insert(0) += v;
                }
                for (k, v) in &out.counts {
                    *t.counts.entry(k.clone()).or_insert(0) += v;
                }
                if t.samples.len() < 3 && out.nontrivial && i % 7 == 3 {
                    let log: Vec<String> = out.log.iter().take(40).cloned().collect();
                    t.samples.push(json!({"run": i, "run_seed": rs, "tape_len": out.tape.len(), "trace": log}));
                }
                if let Err(v) = out.res {
                    if known.iter().any(|k| k.key == v.kind) {
                        *t.known.entry(v.kind.clone()).or_insert(0) += 1;
                    } else if t.viol.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                        t.viol = Some((i, v, out.tape));
                        stop_at.fetch_min(i, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let tot = tot.into_inner().unwrap();
    let (re, mism) = recheck.into_inner().unwrap();
    if let Some(e) = tot.err {
        println!("HARNESS-ERROR property={} {}", p.id, e);
        return 2;
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {} (seen in {} runs)", p.id, k.text, tot.known.get(&k.key).copied().unwrap_or(0));
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    if let Some((i, v, tape)) = &tot.viol {
        nviol = 1;
        code = 1;
        let rs = run_seed(p.id, o.seed, *i);
        let budget = Duration::from_secs(std::env::var("SIM_MINIMISE_S").ok().and_then(|v| v.parse().ok()).unwrap_or(25));
        let (mut min, mut tried) = minimise(p, *i, rs, tape.clone(), &v.kind, thorough, budget, false);
        working(0, None);
        // What other runs left in this process may have had a part in it: a replay starts in a fresh one.
        let alone = |t: &Vec<u32>| supervise::fresh(p, rs, t, thorough).filter(|f| f.kind == v.kind);
        let mut f = alone(&min);
        if f.is_none() && alone(tape).is_some() {
            let (m, n) = minimise(p, *i, rs, tape.clone(), &v.kind, thorough, budget, true);
            working(0, None);
            f = alone(&m);
            (min, tried) = (m, tried + n);
        }
        let exact = f.as_ref().map(|f| alone(&min).map(|g| g.content == f.content) == Some(true)).unwrap_or(false);
        let (msg, log, content) = f.map(|f| (f.msg, f.log, f.content)).unwrap_or((v.msg.clone(), vec![], String::new()));
        let dir = format!("{}/replays", o.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, p.id, o.seed, i);
        let hist = if exact { None } else { supervise::with_history(p, o.seed, *i, thorough, Duration::from_secs(60)) };
        let mut doc = json!({
            "property": p.id, "seed": o.seed, "run": i, "run_seed": rs, "thorough": thorough, "kind": v.kind, "message": msg,
            "tape": min, "original_tape_len": tape.len(), "minimiser_runs": tried, "content_hash": content,
            "replays_exactly": exact, "trace": log,
        });
        if let Some((from, to, crowd, log)) = &hist {
            doc["sequence"] = json!({"from": from, "to": to, "crowd": crowd, "last": log.last()});
            if *crowd {
                println!("the violation needs two threads inside the code at once; runs {from}..{to} with a crowd replay it");
                for l in log {
                    println!("    {l}");
                }
            } else {
                println!("the violation needs what runs {from}..{to} leave behind in the process; they replay together");
            }
        }
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("{}: {} ({} choices, minimised from {}; run {} of seed {}; replay exact: {})", v.kind, msg, min.len(), tape.len(), i, o.seed, exact);
        for l in log.iter().take(60) {
            println!("    {l}");
        }
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.scheds.len(),
            "rule": format!("{} A run is non-trivial when at least one fault or alteration was injected or another condition named here occurred; two runs are distinct when the sequence of scheduling, fault and step-outcome events differs (64-bit hash).", p.rule),
            "samples": tot.samples,
            "nontrivial_runs": tot.nontrivial,
            "protocol_steps": tot.steps,
            "runs_per_hour": (tot.runs as f64 * 3600.0 / explore_s.max(0.001)) as u64,
            "seeds": format!("run seeds derived from {} by run index 0..{}", o.seed, tot.runs),
            "simulated_seconds": tot.sim_ns as f64 / 1e9,
            "faults_injected": tot.faults,
            "counters": tot.counts,
            "determinism_rechecked_runs": re,
            "determinism_mismatches": mism,
            "stopped_by_time_cap": capped.load(Ordering::SeqCst),
            "real_components": p.real,
            "stub_components": p.stub,
            "known_finding_runs": tot.known,
        },
        "assumptions": ["one seed is one execution; cryptographic coincidences of probability below 2^-60 are not considered"],
        "wall_s": wall,
        "violations": nviol,
    });
    let dir = format!("{}/evidence", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} steps, {:.1} s explored, {} reruns ({} differing){}",
        p.id, tot.runs, tot.scheds.len(), tot.steps, explore_s, re, mism, if code == 0 { ", held" } else { "" }
    );
    code
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let doc: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            println!("cannot read {path}");
            return 2;
        }
    };
    let p = match props.iter().find(|p| Some(p.id) == doc["property"].as_str()) {
        Some(p) => p,
        None => return 2,
    };
    if let Some(code) = supervise::replay(p, &doc, path) {
        return code;
    }
    let tape: Vec<u32> = doc["tape"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect();
    let o = run_one(p, doc["run_seed"].as_u64().unwrap(), Tape::replay(tape), doc["thorough"].as_bool().unwrap_or(false));
    match o {
        Ok(o) => {
            for l in &o.log {
                println!("    {l}");
            }
            let exact = doc["content_hash"].as_str() == Some(&format!("{:016x}", o.content));
            match o.res {
                Err(v) => {
                    println!("{}: {} (identical execution: {})", v.kind, v.msg, exact);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    1
                }
                Ok(()) => {
                    println!("no violation on replay");
                    0
                }
            }
        }
        Err(e) => {
            println!("HARNESS-ERROR {e}");
            2
        }
    }
}

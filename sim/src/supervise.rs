//! The check runs in a child process.  If code under test ends that process (a signal) or never returns, the
//! run that did it is found, minimised and reported like any other violation.
use crate::runner::{run_one, run_seed, Opts, Prop};
use crate::tape::{Tape, MIRROR, MIRROR_CAP};
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
const HANG_S: u64 = 100;
static SLOTS: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());

struct Shared {
    fd: i32,
    ptr: *mut u8,
    len: usize,
}
impl Shared {
    fn new(len: usize) -> Shared {
        unsafe {
            let fd = libc::memfd_create(c"sim".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, len as i64) == 0, "shared memory");
            Shared { fd, ptr: map(fd, len), len }
        }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.ptr.cast(), self.len);
            libc::close(self.fd);
        }
    }
}
fn map(fd: i32, len: usize) -> *mut u8 {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) };
    assert!(p != libc::MAP_FAILED, "mmap");
    p.cast()
}
fn now_s() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64
}

/// Can everything be used once without ending or stalling the process? Found out in one of its own.
pub fn warms() -> bool {
    match std::env::var("SIM_WARM").as_deref() {
        Ok("1") => return true,
        Ok(_) => return false,
        _ => {}
    }
    let ok = (|| {
        let mut c = Command::new(std::env::current_exe().ok()?).arg("warm").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
        let t0 = Instant::now();
        loop {
            if let Some(s) = c.try_wait().ok()? {
                return s.success().then_some(());
            }
            if t0.elapsed().as_secs() > 10 {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    })()
    .is_some();
    std::env::set_var("SIM_WARM", if ok { "1" } else { "0" });
    ok
}

/// Child: attach to what the supervisor shares.
pub fn attach() {
    let fd = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<i32>().ok());
    if let Some(fd) = fd("SIM_SLOTS") {
        SLOTS.store(map(fd, WORKERS * 16 + 16).cast(), Ordering::SeqCst);
    }
    if let Some(fd) = fd("SIM_MIRROR") {
        MIRROR.store(map(fd, 4 * (MIRROR_CAP + 1)).cast(), Ordering::SeqCst);
    }
}
/// Child: worker w begins run i (None: is idle).
pub fn working(w: usize, i: Option<u64>) {
    let p = SLOTS.load(Ordering::Relaxed);
    if !p.is_null() && w < WORKERS {
        unsafe {
            (*p.add(2 * w + 1)).store(now_s(), Ordering::SeqCst);
            (*p.add(2 * w)).store(i.map_or(0, |i| i + 1), Ordering::SeqCst);
        }
    }
}

/// Child: the check came to its regular end.
pub fn finished() {
    let p = SLOTS.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe { (*p.add(2 * WORKERS)).store(1, Ordering::SeqCst) }
    }
}

/// What a run in a process of its own prints last; without it, the code under test ended the process.
const LAST: &str = "== end of run";
const EXITED: i32 = 1000;
const CONTENT: &str = "== content ";

enum End {
    Fine,
    Violation,
    Died(i32),
    Hang,
    Other,
}
/// One run in a process of its own; gives its choices as far as it came.
fn one(prop: &str, rseed: u64, index: Option<u64>, tape: Option<&[u32]>, thorough: bool, limit: Duration) -> (End, Vec<u32>, Vec<String>) {
    let m = Shared::new(4 * (MIRROR_CAP + 1));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["one", "--prop", prop, "--run-seed", &rseed.to_string()]);
    if thorough {
        c.arg("--deep");
    }
    let out = std::env::temp_dir().join(format!("sim-one-{}-{:x}", std::process::id(), m.ptr as usize));
    let list = out.with_extension("tape");
    match tape {
        Some(t) => {
            std::fs::write(&list, t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")).unwrap();
            c.arg("--tape").arg(&list)
        }
        None => c.args(["--index", &index.unwrap_or(0).to_string()]),
    };
    let f = std::fs::File::create(&out).unwrap();
    let mut ch = c.env("SIM_MIRROR", m.fd.to_string()).env_remove("SIM_SLOTS").stdin(Stdio::null()).stdout(f).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    let end = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break match (s.signal(), s.code()) {
                (Some(libc::SIGKILL), _) => End::Other,
                (Some(n), _) => End::Died(n),
                (_, Some(c)) => {
                    let o = std::fs::read_to_string(&out).unwrap_or_default();
                    match (o.lines().last() == Some(LAST), c) {
                        (false, 101) | (true, 2..) => End::Other,
                        (false, _) => End::Died(EXITED + c),
                        (true, 0) => End::Fine,
                        _ => End::Violation,
                    }
                }
                _ => End::Other,
            };
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break End::Hang;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 300 { 2 } else { 50 }));
    };
    let tape = unsafe {
        let p = m.ptr as *const u32;
        std::slice::from_raw_parts(p.add(1), (*p as usize).min(MIRROR_CAP)).to_vec()
    };
    let log = std::fs::read_to_string(&out).unwrap_or_default().lines().filter(|l| *l != LAST).map(|l| l.to_string()).collect();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&list);
    (end, tape, log)
}
/// One run in a process of its own that ends with a violation.
pub struct Fresh {
    pub kind: String,
    pub msg: String,
    pub content: String,
    pub log: Vec<String>,
}
pub fn fresh(p: &Prop, rseed: u64, tape: &[u32], thorough: bool) -> Option<Fresh> {
    let (e, _, mut log) = one(p.id, rseed, None, Some(tape), thorough, Duration::from_secs(60));
    if !matches!(e, End::Violation) {
        return None;
    }
    let at = log.iter().rposition(|l| l.starts_with(CONTENT))?;
    let (what, content) = (log[at + 1..].join("\n"), log[at][CONTENT.len()..].to_string());
    log.truncate(at);
    let (kind, msg) = what.split_once(": ")?;
    Some(Fresh { kind: kind.into(), msg: msg.into(), content, log })
}
/// Child: `sim one`.
pub fn one_child(p: &Prop, rseed: u64, index: u64, tape: Option<Vec<u32>>, thorough: bool) -> i32 {
    let t = match tape {
        Some(t) => Tape::replay(t),
        None => Tape::record(rseed, index),
    };
    let rc = match run_one(p, rseed, t, thorough) {
        Ok(o) => {
            // The events were printed as they happened (Ctx::ev), unless nobody watches
            if MIRROR.load(Ordering::Relaxed).is_null() {
                for l in &o.log {
                    println!("{l}");
                }
            }
            match o.res {
                Ok(()) => 0,
                Err(v) => {
                    println!("{CONTENT}{:016x}", o.content);
                    println!("{}: {}", v.kind, v.msg);
                    1
                }
            }
        }
        Err(e) => {
            println!("HARNESS-ERROR {e}");
            2
        }
    };
    println!("{LAST}");
    rc
}
/// Child: `sim seq`, runs one after another in one process; prints the first violation.
pub fn seq_child(p: &Prop, seed: u64, from: u64, to: u64, thorough: bool, crowd: bool, secs: u64) -> i32 {
    crate::ctx::CROWDED.store(crowd, Ordering::Relaxed);
    let t0 = Instant::now();
    for i in from..=to {
        if secs > 0 && t0.elapsed().as_secs() >= secs {
            break;
        }
        let rs = run_seed(p.id, seed, i);
        match run_one(p, rs, Tape::record(rs, i), thorough) {
            Ok(o) => {
                if std::env::var("SIM_CONTENT").is_ok() {
                    println!("content of run {i}: {:016x}", o.content);
                }
                if let Err(v) = o.res {
                    for l in &o.log {
                        println!("    {l}");
                    }
                    println!("run {i}: {}: {} [{:016x}]", v.kind, v.msg, o.content);
                    return 1;
                }
            }
            Err(_) => return 2,
        }
    }
    0
}
fn seq(p: &str, seed: u64, from: u64, to: u64, thorough: bool, crowd: bool, secs: u64) -> (i32, Vec<String>) {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["seq", "--prop", p, "--seed", &seed.to_string(), "--from", &from.to_string(), "--to", &to.to_string(), "--secs", &secs.to_string()]);
    if crowd {
        c.arg("--crowd");
    }
    if thorough {
        c.arg("--deep");
    }
    match c.env_remove("SIM_SLOTS").stdin(Stdio::null()).stderr(Stdio::null()).output() {
        Ok(o) => (o.status.code().unwrap_or(3), String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect()),
        Err(_) => (3, vec![]),
    }
}
/// A violation that a run of its own does not show: it needs what earlier runs left in the process.  Finds a
/// stretch of runs that shows it in a fresh process, twice alike.
pub fn with_history(p: &Prop, seed: u64, i: u64, thorough: bool, budget: Duration) -> Option<(u64, u64, bool, Vec<String>)> {
    let t0 = Instant::now();
    for back in [0u64, 4, 32, 256, 2048, 16384] {
        let from = i.saturating_sub(back);
        if t0.elapsed() > budget {
            break;
        }
        let (rc, log) = seq(p.id, seed, from, i, thorough, false, 0);
        if rc == 1 {
            let (rc2, log2) = seq(p.id, seed, from, i, thorough, false, 0);
            if rc2 == 1 && log2 == log {
                return Some((from, i, false, log));
            }
        }
        if from == 0 {
            break;
        }
    }
    // It may come from two runs at once, on two threads of the explorer. Then it must show where two threads take
    // turns as the simulator decides, too.
    for from in [0u64, 100_000] {
        let (rc, log) = seq(p.id, seed, from, from + 50_000, thorough, true, 60);
        let at = log.last().and_then(|l| l.strip_prefix("run ")).and_then(|l| l.split(':').next()).and_then(|n| n.parse::<u64>().ok());
        if let (1, Some(at)) = (rc, at) {
            for from in [at, at.saturating_sub(3).max(from), from] {
                let (rc, log) = seq(p.id, seed, from, at, thorough, true, 0);
                let (rc2, log2) = seq(p.id, seed, from, at, thorough, true, 0);
                if (rc, rc2) == (1, 1) && log2 == log {
                    return Some((from, at, true, log));
                }
            }
        }
    }
    None
}

fn how(n: i32) -> String {
    if n >= EXITED {
        format!("an exit with status {}", n - EXITED)
    } else {
        signal_name(n).to_string()
    }
}
fn signal_name(n: i32) -> &'static str {
    match n {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGABRT => "SIGABRT",
        libc::SIGILL => "SIGILL",
        libc::SIGBUS => "SIGBUS",
        libc::SIGFPE => "SIGFPE",
        libc::SIGTRAP => "SIGTRAP",
        _ => "a signal",
    }
}

pub fn supervise(p: &Prop, o: &Opts) -> i32 {
    let thorough = o.tier == "thorough";
    let slots = Shared::new(WORKERS * 16 + 16);
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(std::env::args().skip(1).map(|a| if a == "check" { "check-inner".to_string() } else { a }))
        .env("SIM_SLOTS", slots.fd.to_string())
        .spawn()
        .expect("start");
    let t0 = Instant::now();
    let slot = |k: usize| unsafe { (*(slots.ptr as *const AtomicU64).add(k)).load(Ordering::SeqCst) };
    let mut hung = false;
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(Duration::from_millis(100));
        if (0..WORKERS).any(|w| slot(2 * w) != 0 && now_s().saturating_sub(slot(2 * w + 1)) > HANG_S) {
            hung = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
    };
    if let (false, Some(c)) = (hung, status.code()) {
        if slot(2 * WORKERS) == 1 || c == 101 {
            return if c == 101 { 2 } else { c };
        }
    }
    let sig = status.signal().unwrap_or(EXITED + status.code().unwrap_or(0));
    let mut cand: Vec<u64> = (0..WORKERS)
        .filter(|w| slot(2 * w) != 0 && (!hung || now_s().saturating_sub(slot(2 * w + 1)) > HANG_S / 2))
        .map(|w| slot(2 * w) - 1)
        .collect();
    cand.sort();
    if !hung && sig == libc::SIGKILL {
        println!("HARNESS-ERROR property={}: the check was killed", p.id);
        return 2;
    }
    println!("{}: the process {} while runs {:?} were under way", p.id, if hung { "made no progress".into() } else { format!("was ended by {}", how(sig)) }, cand);
    let limit = Duration::from_secs(if hung { 60 } else { 30 });
    let mut found = None;
    for i in &cand {
        let rs = run_seed(p.id, o.seed, *i);
        let (e, tape, log) = one(p.id, rs, Some(*i), None, thorough, limit);
        if matches!(e, End::Died(_) | End::Hang | End::Violation) {
            found = Some((*i, rs, e, tape, log));
            break;
        }
    }
    let (doc, msg) = match found {
        Some((i, rs, e, tape, log)) => {
            let mut best = tape.clone();
            let mut tried = 0;
            if let End::Died(_) = e {
                let t1 = Instant::now();
                let mut block = (best.len() / 2).max(1);
                while t1.elapsed() < Duration::from_secs(25) {
                    let (mut at, mut hit) = (0, false);
                    while at < best.len() && t1.elapsed() < Duration::from_secs(25) {
                        let end = (at + block).min(best.len());
                        let (mut del, mut zero) = (best.clone(), best.clone());
                        del.drain(at..end);
                        zero[at..end].fill(0);
                        let mut here = false;
                        for c in [del, zero] {
                            if c == best {
                                continue;
                            }
                            tried += 1;
                            if let (End::Died(_), ..) = one(p.id, rs, None, Some(&c), thorough, limit) {
                                best = c;
                                here = true;
                                break;
                            }
                        }
                        hit |= here;
                        if !here {
                            at += block;
                        }
                    }
                    if block == 1 && !hit {
                        break;
                    }
                    block = (block / 2).max(1);
                }
            }
            let (kind, what) = match e {
                End::Died(n) => ("process-dies", format!("the code under test ends the process with {}", how(n))),
                End::Hang => ("no-progress", format!("the code under test does not return within {} s", limit.as_secs())),
                _ => ("violation", log.last().cloned().unwrap_or_default()),
            };
            let (e2, _, log2) = one(p.id, rs, None, Some(&best), thorough, limit);
            let exact = matches!((&e, &e2), (End::Died(a), End::Died(b)) if a == b) || matches!((&e, &e2), (End::Hang, End::Hang) | (End::Violation, End::Violation));
            let msg = format!("{kind}: {what} ({} choices, minimised from {}; run {i} of seed {}; replay exact: {exact})", best.len(), tape.len(), o.seed);
            (
                json!({"property": p.id, "seed": o.seed, "run": i, "run_seed": rs, "thorough": thorough, "kind": kind, "message": what, "tape": best,
                    "original_tape_len": tape.len(), "minimiser_runs": tried, "content_hash": "", "replays_exactly": exact, "own_process": true, "trace": if log2.is_empty() { log } else { log2 }}),
                msg,
            )
        }
        None if hung => {
            println!("HARNESS-ERROR property={}: no progress in {HANG_S} s, and the runs under way finish when run alone", p.id);
            return 2;
        }
        None => {
            let what = format!("the process is ended by {} during runs {cand:?}, none of which does so alone", how(sig));
            (json!({"property": p.id, "seed": o.seed, "runs": cand, "thorough": thorough, "kind": "process-dies", "message": what, "replays_exactly": false,
                "own_process": true, "trace": []}), what)
        }
    };
    let _ = std::fs::create_dir_all(format!("{}/replays", o.verif));
    let path = format!("{}/replays/{}-{}-{}.json", o.verif, p.id, o.seed, cand.first().copied().unwrap_or(0));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    let ev = json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {"evaluations": cand.iter().max().copied().unwrap_or(0), "distinct_nontrivial": 0, "rule": p.rule, "samples": [],
            "note": "the code under test ended or stalled the process that explores; figures of that process are lost"},
        "assumptions": [], "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
    let _ = std::fs::write(format!("{}/evidence/{}.json", o.verif, p.id), serde_json::to_string_pretty(&ev).unwrap());
    println!("{msg}");
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}

/// Replay of what `supervise` or `with_history` wrote.
pub fn replay(p: &Prop, doc: &Value, path: &str) -> Option<i32> {
    let thorough = doc["thorough"].as_bool().unwrap_or(false);
    if let (Some(a), Some(b)) = (doc["sequence"]["from"].as_u64(), doc["sequence"]["to"].as_u64()) {
        let (rc, log) = seq(p.id, doc["seed"].as_u64()?, a, b, thorough, doc["sequence"]["crowd"].as_bool() == Some(true), 0);
        for l in &log {
            println!("{l}");
        }
        let want: Option<&str> = doc["sequence"]["last"].as_str();
        println!("identical execution: {}", log.last().map(|s| s.as_str()) == want);
        if rc == 1 {
            println!("VIOLATION property={} replay={}", p.id, path);
        }
        return Some(rc);
    }
    if doc["own_process"].as_bool() != Some(true) {
        return None;
    }
    let tape: Vec<u32> = doc["tape"].as_array()?.iter().filter_map(|v| v.as_u64()).map(|v| v as u32).collect();
    let (e, _, log) = one(p.id, doc["run_seed"].as_u64()?, None, Some(&tape), thorough, Duration::from_secs(60));
    for l in &log {
        println!("    {l}");
    }
    let (what, rc) = match e {
        End::Died(n) => (format!("ends the process with {}", how(n)), 1),
        End::Hang => ("does not return".into(), 1),
        End::Violation => ("violation".into(), 1),
        End::Fine => ("no violation on replay".into(), 0),
        End::Other => ("could not be run".into(), 2),
    };
    println!("{what}");
    if rc == 1 {
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    Some(rc)
}

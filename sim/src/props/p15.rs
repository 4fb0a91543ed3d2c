//! Trouble in the operating system's random source during every operation that uses it.
use super::{p13, p14};
use crate::ctx::*;
use crate::ent::EntFaults;
use crate::node::guarded;
use crate::runner::Prop;
use crate::sut::*;
use crate::tape::Tape;
use std::io::{BufRead, Write};

pub const PROP: Prop = Prop {
    id: "P15",
    run,
    quick: 50_000,
    thorough: 250_000,
    rule: "each run plays the same world twice with the same randomness: once healthy, once with trouble. Kind of trouble (interruptions and short reads, lasting failure from a given system call on, a changed byte of the system source, a changed byte of the caller's generator, all of both different, would-block), operation (enrolment and session of every protocol, key encapsulation and signatures of every parameter set and implementation), node and position of the failing call or changed byte are enumerated over the run index; the rest is drawn. Worlds with a lasting failure run in a process of their own, because code may end the process.",
    real: super::REAL,
    stub: super::STUB,
};

#[derive(Clone, Copy, Debug)]
enum What {
    Session(Proto),
    Saber(usize),
    Dilithium(usize, usize),
}
struct Plan {
    what: What,
    pw: Vec<u8>,
    ids: [B32; 2],
    ssid: B32,
    pre: bool,
    msg: Vec<u8>,
}
#[derive(Clone, Default)]
struct Trouble {
    node: usize,
    ent: [EntFaults; 2],
    caller: Option<(u64, u64)>,
}
/// One operation: where, what, its output (None: it stopped), whether the source failed meanwhile.
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    node: usize,
    op: String,
    out: Option<Vec<u8>>,
    failed: bool,
}
#[derive(Default, Clone)]
struct Use {
    calls: u64,
    /// requests, to the system and to the caller's generator
    sys: Vec<(u64, u64)>,
    caller: Vec<(u64, u64)>,
}

fn plan(c: &mut Ctx, what: What) -> Plan {
    let pw = c.password();
    let n = c.t.draw(40) as usize;
    Plan { what, pw, ids: [c.id(), c.id()], ssid: c.ssid(), pre: c.t.chance(1, 2), msg: c.h.bytes(n) }
}

type Sink<'a> = &'a mut dyn FnMut(Rec);
struct W<'a, 'b> {
    c: &'a mut Ctx,
    sink: Sink<'b>,
    stopped: bool,
}
impl W<'_, '_> {
    /// One operation on a node; its output in bytes, or the reason why there is none.
    fn op<T: Send>(&mut self, n: usize, name: &str, f: impl FnOnce(&mut PRng) -> Result<(T, Vec<u8>), String> + Send) -> Option<T> {
        let st = &mut self.c.nodes[n];
        let before = st.node.stats().failed;
        let rng = &mut st.rng;
        let r = st.node.exec(move || guarded(|| f(rng))).and_then(|r| r);
        let failed = st.node.stats().failed > before;
        self.c.steps += 1;
        let (t, out) = match r {
            Ok((t, o)) => (Some(t), Some(o)),
            Err(_) => {
                self.stopped = true;
                (None, None)
            }
        };
        (self.sink)(Rec { node: n, op: name.to_string(), out, failed });
        t
    }
    fn session(&mut self, p: &Plan, proto: Proto, creds: [&Cred; 2], label: &str) -> Option<()> {
        struct S(Box<dyn Sess>);
        let mut ends: Vec<S> = vec![];
        for (n, cred) in creds.iter().enumerate() {
            let role = if n == 0 { I } else { RS };
            let peer = (p.pre || matches!(proto, Proto::Chip(_))).then_some(p.ids[1 - n]);
            let k = cred.dup();
            let ssid = p.ssid;
            ends.push(self.op(n, &format!("{label}start"), move |r| Ok((S(k.start(r, ssid, role, peer)), vec![])))?);
        }
        let mut msg: Vec<u8> = vec![];
        let total = frames(proto).len();
        for k in 0..=total {
            let n = k % 2;
            let e = &mut ends[n];
            let m = msg.clone();
            let r = self.op(n, &format!("{label}step {k}"), |r| match e.0.step(r, &m) {
                Step::Msg(m) => Ok((m.clone(), m)),
                Step::Nothing => Ok((vec![], vec![])),
                s => Err(format!("{s:?}")),
            });
            match r {
                Some(m) => msg = m,
                None => {
                    // whatever stopped the step, the session has no key to give
                    let e = &mut ends[n];
                    let was = self.stopped;
                    self.op(n, &format!("{label}key after a stop"), move |_| {
                        let e = e;
                        let f = e.0.finalize()?;
                        Ok(((), f.key.to_vec()))
                    });
                    self.stopped = was;
                    return None;
                }
            }
        }
        for n in 0..2 {
            let e = &mut ends[n];
            self.op(n, &format!("{label}key"), move |_| {
                let e = e;
                let f = e.0.finalize()?;
                Ok(((), f.key.to_vec()))
            })?;
        }
        Some(())
    }
    fn play(&mut self, p: &Plan, heal: bool) -> Option<()> {
        match p.what {
            What::Session(proto) => {
                let mut creds = vec![];
                for n in 0..2 {
                    creds.push(self.op(n, "enrol", |r| Ok((enroll(proto, r, &p.pw, &p.ids[n]), vec![])))?);
                }
                let done = self.session(p, proto, [&creds[0], &creds[1]], "");
                if heal && done.is_none() {
                    // the source works again after a restart
                    for n in 0..2 {
                        self.c.nodes[n].faults = EntFaults::default();
                        self.c.reboot(n);
                    }
                    self.session(p, proto, [&creds[0], &creds[1]], "healed ");
                }
                done
            }
            What::Saber(k) => {
                let o = &p13::all()[k];
                let pk = self.op(0, "keygen", |_| {
                    let k = (o.keygen)();
                    let (p, s) = (k.pk(), k.sk());
                    Ok((p.clone(), [p, s].concat()))
                })?;
                self.op(1, "encapsulate", |_| (o.enc)(&pk).map(|(s, c)| ((), [s, c].concat())).ok_or_else(|| "refused".to_string()))?;
                let pk = self.op(0, "keygen (CPA)", |_| {
                    let k = (o.cpa_keygen)();
                    Ok((k.pk(), k.pk()))
                })?;
                self.op(1, "encapsulate (CPA)", |_| {
                    let (s, c) = (o.cpa_enc)(&pk);
                    Ok(((), [s, c].concat()))
                })
            }
            What::Dilithium(k, by) => {
                let o = &p14::all()[k];
                for n in 0..2 {
                    let sk = self.op(n, "keypair", |_| {
                        let (pk, sk) = if by == 0 {
                            (o.keypair)()
                        } else {
                            let (mut pk, mut sk) = (vec![0u8; o.p.pk_len()], vec![0u8; o.p.sk_len()]);
                            let r = unsafe { (o.raw[by - 1].kp)(pk.as_mut_ptr(), sk.as_mut_ptr()) };
                            if r != 0 {
                                return Err(format!("{r}"));
                            }
                            (pk, sk)
                        };
                        Ok((sk.clone(), [pk, sk].concat()))
                    })?;
                    let m = &p.msg;
                    self.op(n, "sign", |_| {
                        if by == 0 {
                            return (o.sign)(m, &sk).map(|s| ((), s)).ok_or_else(|| "refused".to_string());
                        }
                        let mut s = vec![0u8; o.p.sig_len()];
                        let mut l = 0usize;
                        match unsafe { (o.raw[by - 1].sig)(s.as_mut_ptr(), &mut l, m.as_ptr(), m.len(), sk.as_ptr()) } {
                            0 => Ok(((), s)),
                            r => Err(format!("{r}")),
                        }
                    })?;
                }
                Some(())
            }
        }
    }
}

/// The same two nodes every time; only the trouble differs.
fn world(c: &mut Ctx, p: &Plan, t: &Trouble, heal: bool, sink: Sink) -> [Use; 2] {
    for n in 0..2 {
        let i = c.node(t.ent[n].clone());
        c.nodes[i].rng.log = Some(vec![]);
        if n == t.node {
            c.nodes[i].rng.invert = t.caller;
        }
    }
    let mut w = W { c: &mut *c, sink, stopped: false };
    w.play(p, heal);
    let u = [0, 1].map(|n| {
        let (calls, sys) = c.nodes[n].node.exec(|| crate::ent::with(|e| (e.stats.calls, e.drawn.clone())));
        Use { calls, sys, caller: c.nodes[n].rng.log.take().unwrap_or_default() }
    });
    c.drop_nodes();
    u
}
fn world_all(c: &mut Ctx, p: &Plan, t: &Trouble) -> (Vec<Rec>, [Use; 2]) {
    let mut v = vec![];
    let u = world(c, p, t, false, &mut |r| v.push(r));
    (v, u)
}

fn whats() -> Vec<What> {
    let mut v: Vec<What> = all_protos().into_iter().map(What::Session).collect();
    for k in 0..3 {
        v.push(What::Saber(k));
        for by in 0..3 {
            v.push(What::Dilithium(k, by));
        }
    }
    v
}
const ERRNOS: [i32; 4] = [libc::EIO, libc::EINVAL, libc::EFAULT, libc::EAGAIN];

/// Plays the world of a lasting failure and reports each operation as it ends.
pub fn child() -> i32 {
    let mut s = String::new();
    std::io::stdin().read_line(&mut s).unwrap();
    let v: serde_json::Value = serde_json::from_str(&s).unwrap();
    let tape = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let j = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let num = |k: &str| v[k].as_u64().unwrap();
        let mut c = Ctx::new(num("seed"), Tape::replay(tape), false);
        c.crowd_in = 0;
        let what = whats()[num("what") as usize];
        let p = plan(&mut c, what);
        let mut t = Trouble { node: num("node") as usize, ..Default::default() };
        let e = &mut t.ent[t.node];
        if num("errno") > 0 {
            e.fail_from = Some((num("from"), num("errno") as i32));
        }
        (e.again, e.short) = (num("again") as u32, num("short") as u32);
        let so = std::io::stdout();
        world(&mut c, &p, &t, true, &mut |r| {
            let mut o = so.lock();
            let _ = writeln!(o, "{}\t{}\t{}\t{}", r.node, r.failed as u8, r.op, r.out.map_or("-".into(), |b| format!("={}", hex(&b))));
            let _ = o.flush();
        });
    });
    match j.unwrap().join() {
        Ok(()) => 0,
        Err(_) => 3,
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

pub fn run(c: &mut Ctx) -> R {
    c.crowd_in = 0;
    let mode = c.t.strat(6);
    let all = whats();
    let wi = c.t.strat(all.len() as u32) as usize;
    let node = c.t.strat(2) as usize;
    let place = c.t.strat(1 << 16) as u64;
    let from_h = c.t.rec.len();
    let p = plan(c, all[wi]);
    let plan_tape: Vec<u32> = c.t.rec[from_h..].to_vec();
    let (good, used) = world_all(c, &p, &Trouble::default());
    let desc = format!("{:?}", p.what);
    if let Some(r) = good.iter().find(|r| r.out.is_none()) {
        return viol("healthy-fails", format!("{desc}: {} on node {} fails with a healthy source", r.op, r.node));
    }
    for r in &good {
        c.note_content(r.out.as_ref().unwrap());
    }
    let mut t = Trouble { node, ..Default::default() };
    match mode {
        0 => {
            let both = c.t.chance(1, 2);
            for n in 0..2 {
                if both || n == node {
                    t.ent[n] = EntFaults { eintr: *c.t.pick(&[0, 100, 300, 700]), short: *c.t.pick(&[100, 300, 0, 600]), ..Default::default() };
                }
            }
            c.ev(format!("{desc}: interruptions and short reads"));
            let e0 = c.ent_total.clone();
            let (bad, _) = world_all(c, &p, &t);
            c.ev(format!("{} operations, {} interruptions, {} short reads", bad.len(), c.ent_total.eintr - e0.eintr, c.ent_total.short - e0.short));
            c.nontrivial = true;
            for (k, g) in good.iter().enumerate() {
                match bad.get(k) {
                    Some(b) if b.out.is_none() => return viol("transient-fatal", format!("{desc}: {} on node {} fails because of interruptions or short reads", g.op, g.node)),
                    Some(b) if b == g => {}
                    _ => return viol("transient-changes", format!("{desc}: {} on node {} has another outcome because of interruptions or short reads", g.op, g.node)),
                }
            }
        }
        1 => {
            let calls = used[node].calls;
            if calls == 0 {
                c.count("no system randomness used");
                return Ok(());
            }
            let from = place % calls;
            let errno = *c.t.pick(&ERRNOS);
            c.ev(format!("{desc}: node {node} gets error {errno} from system call {from} of {calls} on"));
            return lasting(c, &good, &desc, wi, node, from, errno, &plan_tape);
        }
        2 | 3 => {
            let u = &used[node];
            let sum = |v: &[(u64, u64)]| v.iter().map(|x| x.1).sum::<u64>();
            let all = sum(&u.sys) + sum(&u.caller);
            if all < 32 {
                return viol("too-little", format!("{desc}: node {node} uses only {all} bytes of randomness"));
            }
            let (reqs, name) = if mode == 2 { (&u.sys, "system source") } else { (&u.caller, "caller's generator") };
            let total = sum(reqs);
            if total == 0 {
                c.count(format!("nothing drawn from the {name}"));
                return Ok(());
            }
            let at = place % total;
            let (qs, ql) = *reqs.iter().find(|(o, l)| (*o..o + l).contains(&at)).unwrap();
            c.ev(format!("{desc}: byte {} of a request of {ql} of node {node}'s {name} is different", at - qs));
            c.fault("changed-randomness");
            let mut again = |c: &mut Ctx, sys: Option<(u64, u64)>, caller: Option<(u64, u64)>| -> R<bool> {
                t.ent[node].invert = sys;
                t.caller = caller;
                let (bad, _) = world_all(c, &p, &t);
                if let Some(r) = bad.iter().find(|r| r.out.is_none()) {
                    return viol("healthy-fails", format!("{desc}: {} on node {} fails with a healthy source", r.op, r.node));
                }
                let keys: Vec<_> = bad.iter().filter(|r| r.op == "key").map(|r| &r.out).collect();
                if keys.len() == 2 && keys[0] != keys[1] {
                    return viol("keys-differ", format!("{desc}: both ends complete with different keys"));
                }
                let of = |v: &[Rec]| v.iter().filter(|r| r.node == node).filter_map(|r| r.out.clone()).collect::<Vec<_>>();
                Ok(of(&good) != of(&bad))
            };
            let mut change = |c: &mut Ctx, a: u64, z: u64| if mode == 2 { again(c, Some((a, z)), None) } else { again(c, None, Some((a, z))) };
            if change(c, at, at + 1)? {
                return Ok(());
            }
            // a request may go unused as a whole, but not in part
            c.count("byte without effect");
            if change(c, qs, qs + ql)? {
                return viol("unused-randomness", format!("{desc}: byte {} of {ql} that node {node} draws from the {name} in one request has no effect, others have", at - qs));
            }
            if !again(c, Some((0, u64::MAX)), Some((0, u64::MAX)))? {
                return viol("unused-randomness", format!("{desc}: nothing node {node} produces depends on the randomness it draws"));
            }
        }
        4 => {
            // other randomness throughout: nothing the node makes stays as it was, not even in part
            c.ev(format!("{desc}: all randomness of node {node} is different"));
            c.fault("changed-randomness");
            t.ent[node].invert = Some((0, u64::MAX));
            t.caller = Some((0, u64::MAX));
            let (bad, _) = world_all(c, &p, &t);
            for (g, b) in good.iter().zip(&bad).filter(|(g, _)| g.node == node && !g.op.ends_with("key")) {
                let Some(b) = &b.out else {
                    return viol("healthy-fails", format!("{desc}: {} on node {node} fails with a healthy source", g.op));
                };
                let g_out = g.out.as_ref().unwrap();
                let n = g_out.len();
                if n != b.len() || n < 32 {
                    continue;
                }
                // messages have fixed fields; keys, ciphertexts and signatures have none
                let mut parts = vec![(0, n)];
                if !matches!(p.what, What::Session(_)) {
                    let w = if matches!(p.what, What::Saber(_)) { 64 } else { 32 };
                    parts.extend((0..n / w).map(|k| (w * k, w * k + w)));
                    parts.push((n - 32, n));
                    if let What::Dilithium(..) = p.what {
                        // hints are few, padded and may coincide
                        if g.op == "sign" {
                            parts = vec![(0, n), (0, 32), (64, 256)];
                        }
                    }
                }
                for (a, z) in parts {
                    if g_out[a..z] == b[a..z] {
                        return viol("unused-randomness", format!("{desc}: bytes {a} to {z} of the output of {} on node {node} do not depend on the randomness it draws", g.op));
                    }
                }
            }
        }
        _ => {
            let (again, short) = (*c.t.pick(&[100, 300, 700]), *c.t.pick(&[0, 300]));
            c.ev(format!("{desc}: the source of node {node} would block now and then"));
            let arg = serde_json::json!({"seed": c.seed, "what": wi, "node": node, "from": 0, "errno": 0, "again": again, "short": short, "tape": plan_tape});
            let (bad, died) = apart(c, &desc, node, arg)?;
            c.fault("entropy-would-block");
            c.count(if died || bad.iter().any(|r| r.out.is_none()) { "would-block stops" } else { "would-block waits" });
            let keys: Vec<_> = bad.iter().filter(|r| r.op == "key").filter_map(|r| r.out.as_ref()).collect();
            if keys.len() == 2 && keys[0] != keys[1] {
                return viol("keys-differ", format!("{desc}: both ends complete with different keys"));
            }
            if let Some(r) = bad.iter().find(|r| r.op == "key after a stop" && r.out.is_some()) {
                return viol("key-after-stop", format!("{desc}: node {} gives a key after its session stopped", r.node));
            }
        }
    }
    Ok(())
}

/// A world in a process of its own; whether the process died.
fn apart(c: &mut Ctx, desc: &str, node: usize, arg: serde_json::Value) -> R<(Vec<Rec>, bool)> {
    let mut ch = std::process::Command::new(std::env::current_exe().expect("own path"))
        .arg("p15-child")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("child");
    writeln!(ch.stdin.take().unwrap(), "{arg}").expect("child input");
    let out = std::io::BufReader::new(ch.stdout.take().unwrap());
    let recs: Vec<Rec> = out
        .lines()
        .map_while(Result::ok)
        .filter_map(|l| {
            let mut f = l.split('\t');
            let node = f.next()?.parse().ok()?;
            let failed = f.next()? == "1";
            let op = f.next()?.to_string();
            let out = f.next()?.strip_prefix('=').map(unhex);
            Some(Rec { node, op, out, failed })
        })
        .collect();
    let st = ch.wait().expect("child");
    use std::os::unix::process::ExitStatusExt;
    for r in &recs {
        c.ev(format!("node {} {}: {}", r.node, r.op, if r.out.is_some() { "done" } else { "stopped" }));
    }
    if st.code() == Some(77) {
        return viol("hang", format!("{desc}: node {node} never stops asking a source that fails"));
    }
    if st.code() == Some(3) || st.code() == Some(2) {
        panic!("child failed: {st:?}");
    }
    Ok((recs, st.signal().is_some() || st.code() != Some(0)))
}

#[allow(clippy::too_many_arguments)]
fn lasting(c: &mut Ctx, good: &[Rec], desc: &str, wi: usize, node: usize, from: u64, errno: i32, tape: &[u32]) -> R {
    let arg = serde_json::json!({"seed": c.seed, "what": wi, "node": node, "from": from, "errno": errno, "again": 0, "short": 0, "tape": tape});
    let (recs, died) = apart(c, desc, node, arg)?;
    c.fault("entropy-lost");
    c.count(if died { "process-ended" } else { "operation-stopped" });
    let mut stopped = died;
    for (k, r) in recs.iter().enumerate() {
        if r.op == "key after a stop" {
            if r.out.is_some() {
                return viol("key-after-stop", format!("{desc}: node {} gives a key although its session stopped for lack of randomness", r.node));
            }
            continue;
        }
        if r.op.starts_with("healed") {
            if r.out.is_none() {
                return viol("not-healed", format!("{desc}: {} on node {} fails although the source works again", r.op, r.node));
            }
            continue;
        }
        if r.failed && r.out.is_some() {
            return viol("missing-randomness", format!("{desc}: {} on node {} completes although its random source failed", r.op, r.node));
        }
        if r.out.is_none() {
            if !r.failed {
                return viol("healthy-fails", format!("{desc}: {} on node {} fails although its source did not", r.op, r.node));
            }
            stopped = true;
            continue;
        }
        if good.get(k).map(|g| (&g.op, &g.out)) != Some((&r.op, &r.out)) {
            return viol("transient-changes", format!("{desc}: {} on node {} has another outcome before the source fails", r.op, r.node));
        }
    }
    if !stopped {
        return viol("missing-randomness", format!("{desc}: nothing stopped although the random source of node {node} failed from system call {from} on"));
    }
    let healed: Vec<_> = recs.iter().filter(|r| r.op == "healed key").collect();
    if healed.len() == 2 && healed[0].out != healed[1].out {
        return viol("keys-differ", format!("{desc}: ends complete with different keys after the source came back"));
    }
    Ok(())
}

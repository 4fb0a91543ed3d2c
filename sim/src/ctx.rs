//! Context of one simulated run: choice tape, nodes, log, counters.
use crate::ent::{EntFaults, EntStats};
use crate::crowd::{Crowd, Kind};
use crate::node::Node;
use crate::sut::*;
use crate::tape::Tape;
use latke::PartyRole;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    /// Stable name of what is broken (used to recognise the same violation while minimising and in known findings)
    pub kind: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;
pub fn viol<T>(kind: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Viol { kind: kind.into(), msg: msg.into() })
}

pub struct NodeSt {
    pub node: Node,
    /// further threads of the same process, on which steps of its sessions may run
    pub threads: Vec<Node>,
    pub rng: PRng,
    pub boot: u64,
    pub faults: EntFaults,
    base: u64,
    stuck: bool,
    /// clocks of the node, and how often they moved
    now: u64,
    wall: i64,
    ticks: u64,
}

/// Every run that may have a crowd has one.
pub static CROWDED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Ctx {
    pub t: Tape,
    pub seed: u64,
    pub h: PRng,
    pub log: Vec<String>,
    pub sched: u64,
    pub content: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub counts: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub steps: u64,
    pub nodes: Vec<NodeSt>,
    pub nontrivial: bool,
    ids: Vec<B32>,
    ssids: Vec<B32>,
    /// identities must be recognisable in traffic: random ones only
    pub plain_ids: bool,
    pub ent_total: EntStats,
    pub thorough: bool,
    /// how time passes on the nodes between pieces of work
    pace: Option<u32>,
    /// one run in so many has something else going on in the same process meanwhile (0: none)
    pub crowd_in: u32,
    crowd_gap: u32,
    crowd_fine: bool,
    pub crowd: Option<Crowd>,
}

pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(b).wrapping_add(0x632BE59BD9B4E019);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 8 {
        hex(b)
    } else {
        format!("{}..", hex(&b[..6]))
    }
}

pub struct End {
    pub node: usize,
    pub sess: Box<dyn Sess>,
    pub role: PartyRole,
    pub name: String,
    pub sent: Vec<Vec<u8>>,
    pub got: Vec<Vec<u8>>,
    /// first failure (error or panic) of the session
    pub failed: Option<Step>,
    pub steps: usize,
}
impl End {
    pub fn done(&self) -> bool {
        self.failed.is_none() && self.sess.is_done()
    }
}

impl Ctx {
    pub fn new(seed: u64, tape: Tape, thorough: bool) -> Ctx {
        Ctx {
            t: tape,
            seed,
            h: PRng::new(mix(seed, 1)),
            log: vec![],
            sched: 0xcbf29ce484222325,
            content: 0xcbf29ce484222325,
            faults: BTreeMap::new(),
            counts: BTreeMap::new(),
            sim_ns: 0,
            steps: 0,
            nodes: vec![],
            nontrivial: false,
            ids: vec![],
            ssids: vec![],
            plain_ids: false,
            ent_total: EntStats::default(),
            thorough,
            pace: None,
            crowd_in: 16,
            crowd_gap: 0,
            crowd_fine: false,
            crowd: None,
        }
    }
    /// An event of the schedule: part of the interleaving measure and of the trace.
    pub fn ev(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.sched = fnv(self.sched, s.as_bytes());
        self.content = fnv(self.content, s.as_bytes());
        if self.log.len() < 4000 {
            if !crate::tape::MIRROR.load(std::sync::atomic::Ordering::Relaxed).is_null() {
                println!("{s}");
            }
            self.log.push(s);
        }
    }
    pub fn note_content(&mut self, b: &[u8]) {
        self.content = fnv(self.content, b);
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
        self.nontrivial = true;
    }
    pub fn count(&mut self, k: impl Into<String>) {
        *self.counts.entry(k.into()).or_insert(0) += 1;
    }
    pub fn b32(&mut self) -> B32 {
        self.h.b32()
    }
    /// Changes a string a little, in a way that a careless comparison, sum or conversion may not see.
    pub fn near(&mut self, x: &mut [u8]) -> &'static str {
        let n = x.len();
        if n == 0 {
            return "nothing";
        }
        let i = self.t.draw(n as u32) as usize;
        match self.t.draw(8) {
            1 => {
                // two bytes exchanged, blocks apart or neighbours
                let j = (i + *self.t.pick(&[1usize, 8, 16, 32, 64])) % n;
                x.swap(i, j);
                "two bytes exchanged"
            }
            2 => {
                let j = (i + *self.t.pick(&[1usize, 4, 8, 16, 32, 64])) % n;
                if i != j {
                    let d = 1 << self.t.draw(8);
                    x[i] ^= d;
                    x[j] ^= d;
                }
                "the same bit in two bytes"
            }
            3 => {
                let j = (i + 1 + self.t.draw(n as u32 - (n > 1) as u32) as usize) % n;
                if i != j {
                    x[i] = x[i].wrapping_add(1);
                    x[j] = x[j].wrapping_sub(1);
                }
                "one more and one less"
            }
            4 => {
                x.rotate_left(i);
                "rotated"
            }
            5 => {
                x.reverse();
                "reversed"
            }
            6 => {
                x.iter_mut().for_each(|b| *b = !*b);
                "inverted"
            }
            7 => {
                x[n - 1 - i % n.min(9)] ^= 1 << self.t.draw(8);
                "a bit near the end"
            }
            _ => {
                x[i] ^= 1 << self.t.draw(8);
                "a bit"
            }
        }
    }
    /// An identity or session identifier as deployments have them: random, a short name, a counter, an extreme,
    /// or one that shares a part with an earlier one of the same run. Always different from all earlier ones.
    fn name32(&mut self, ids: bool) -> B32 {
        let k = self.t.draw(12);
        let old = if ids { self.ids.clone() } else { self.ssids.clone() };
        let mut x = self.h.b32();
        match k {
            6 => {
                let n = 1 + x[0] as usize % 14;
                for (i, b) in x.iter_mut().enumerate() {
                    *b = if i < n { b'a' + *b % 26 } else { 0 };
                }
            }
            7 => {
                // a counter, at either end
                let n = self.t.draw(300).to_be_bytes();
                x = [0; 32];
                if self.t.chance(1, 2) {
                    x[28..].copy_from_slice(&n);
                } else {
                    x[..4].copy_from_slice(&n);
                }
            }
            8 => x = [[0, 0xff, 0x20, 0x80][self.t.draw(4) as usize]; 32],
            9..=11 if !old.is_empty() => {
                let o = *self.t.pick(&old);
                let n = *self.t.pick(&[1usize, 4, 8, 16, 20, 24, 31]);
                match k {
                    9 => x[..n].copy_from_slice(&o[..n]),
                    10 => x[32 - n..].copy_from_slice(&o[32 - n..]),
                    _ => {
                        x = o;
                        self.near(&mut x);
                    }
                }
            }
            _ => {}
        }
        while old.contains(&x) {
            x = self.h.b32();
        }
        if ids { &mut self.ids } else { &mut self.ssids }.push(x);
        x
    }
    pub fn id(&mut self) -> B32 {
        if self.plain_ids { self.h.b32() } else { self.name32(true) }
    }
    pub fn ssid(&mut self) -> B32 {
        self.name32(false)
    }
    /// New node with its own entropy and caller generator.
    pub fn node(&mut self, faults: EntFaults) -> usize {
        let i = self.nodes.len();
        let base = mix(self.seed, 1000 + i as u64);
        if self.pace.is_none() {
            self.pace = Some(self.t.draw(6));
            let all = CROWDED.load(std::sync::atomic::Ordering::Relaxed);
            if self.crowd_in > 0 && (self.t.draw(self.crowd_in) == self.crowd_in - 1 || all) {
                self.crowd_gap = *self.t.pick(&[1, 4, 16, 64]);
                self.crowd_fine = self.t.chance(2, 3);
            }
        }
        self.nodes.push(NodeSt { node: Node::new(mix(base, 1), faults.clone()), threads: vec![], rng: PRng::new(mix(base, 2)), boot: 0, faults, base, stuck: false, now: 1_000_000_000, wall: 1_700_000_000_000_000_000, ticks: 0 });
        i
    }
    pub fn plain_nodes(&mut self, n: usize) {
        for _ in 0..n {
            self.node(EntFaults::default());
        }
    }
    /// Time passes on a node: nothing, milliseconds, minutes, or days with a calendar that is set now and then.
    fn tick(&mut self, n: usize) {
        let pace = self.pace.unwrap_or(0);
        let st = &mut self.nodes[n];
        st.ticks += 1;
        let z = mix(st.base ^ 0x7469636b, st.ticks);
        const S: u64 = 1_000_000_000;
        let d = match pace {
            0 | 1 => 0,
            2 => z % S,
            3 => z % (90 * S),
            _ => [z % S, z % (7200 * S), z % (10 * 86_400 * S)][(z >> 60) as usize % 3],
        };
        st.now = st.now.saturating_add(d).min(1 << 62);
        self.sim_ns = self.sim_ns.saturating_add(d);
        if pace == 5 && (z >> 40) % 4 == 0 {
            // somebody sets the calendar: anywhere from 1970 to 2106
            st.wall = (mix(z, 1) % (u32::MAX as u64 * S)) as i64 - st.now as i64;
            *self.faults.entry("clock-jump").or_insert(0) += 1;
        }
        st.node.set_clock(st.now, st.wall);
        for t in &st.threads {
            t.set_clock(st.now, st.wall);
        }
    }
    /// Sets a node's calendar.
    pub fn set_calendar(&mut self, n: usize, at: u64) {
        let st = &mut self.nodes[n];
        st.wall = (at.min(1 << 62) as i64) - st.now as i64;
    }
    fn absorb_stats(&mut self, n: usize) {
        let s = self.nodes[n].node.stats();
        self.ent_total.calls += s.calls;
        self.ent_total.bytes += s.bytes;
        self.ent_total.eintr += s.eintr;
        self.ent_total.short += s.short;
        self.ent_total.again += s.again;
        self.ent_total.failed += s.failed;
        self.ent_total.sleeps += s.sleeps;
        self.ent_total.slept_ns += s.slept_ns;
    }
    /// Crash and restart: everything volatile of the node is gone; fresh entropy afterwards.
    pub fn reboot(&mut self, n: usize) {
        self.reboot_as(n, false)
    }
    /// Restart from a snapshot: the node sees exactly the same random sources again (a rewound machine).
    pub fn rewind(&mut self, n: usize) {
        self.reboot_as(n, true)
    }
    fn reboot_as(&mut self, n: usize, same: bool) {
        self.absorb_stats(n);
        let st = &mut self.nodes[n];
        if !same {
            st.boot += 1;
        }
        let s = mix(st.base, 100 + st.boot * 2);
        let (es, rs) = if st.boot == 0 { (mix(st.base, 1), mix(st.base, 2)) } else { (s, mix(s, 1)) };
        st.node = Node::new(es, st.faults.clone());
        for (k, t) in st.threads.iter_mut().enumerate() {
            *t = Node::new(mix(es, 50 + k as u64), st.faults.clone());
        }
        st.wall = st.wall.saturating_add(st.now as i64 - 1_000_000_000);
        st.now = 1_000_000_000;
        st.rng = if st.stuck { PRng::stuck(mix(st.base, 3)) } else { PRng::new(rs) };
    }
    /// The node's process has so many further threads, each with its own generators; every step of its sessions
    /// runs on a drawn one, as under a multi-threaded runtime.
    pub fn threads(&mut self, n: usize, count: usize) {
        let st = &mut self.nodes[n];
        for k in 0..count {
            let es = if st.boot == 0 { mix(st.base, 1) } else { mix(st.base, 100 + st.boot * 2) };
            st.threads.push(Node::new(mix(es, 50 + k as u64), st.faults.clone()));
        }
        self.fault("steps-on-several-threads");
    }
    /// What else goes on from now on in the runs that have a crowd.
    pub fn crowd_of(&mut self, kind: Kind) {
        if self.crowd_gap > 0 && self.crowd.is_none() {
            self.crowd = Some(Crowd::new(kind, mix(self.seed, 900), self.crowd_gap, self.crowd_fine));
        }
    }
    fn thread(&mut self, n: usize) -> usize {
        match self.nodes[n].threads.len() {
            0 => 0,
            k => self.t.draw(k as u32 + 1) as usize,
        }
    }
    /// The caller generator of the node yields the same stream at every call from now on.
    pub fn stick_rng(&mut self, n: usize) {
        self.nodes[n].stuck = true;
        self.nodes[n].rng = PRng::stuck(mix(self.nodes[n].base, 3));
    }
    pub fn ent_faults(&mut self, n: usize, f: EntFaults) {
        self.nodes[n].faults = f.clone();
        for t in &self.nodes[n].threads {
            t.set_faults(f.clone());
        }
        self.nodes[n].node.set_faults(f);
    }
    /// Runs code on a node; a panic is its message.
    pub fn on<T: Send>(&mut self, n: usize, f: impl FnOnce() -> T + Send) -> Result<T, String> {
        self.steps += 1;
        self.tick(n);
        along(&mut self.crowd, &self.nodes[n].node, || crate::node::guarded(f))
    }
    pub fn enroll(&mut self, n: usize, proto: Proto, pw: &[u8], id: &B32) -> Cred {
        let th = self.thread(n);
        self.tick(n);
        self.crowd_of(Kind::Sess(proto));
        let st = &mut self.nodes[n];
        let rng = &mut st.rng;
        let on = if th == 0 { &st.node } else { &st.threads[th - 1] };
        let r = along(&mut self.crowd, on, || crate::node::guarded(|| enroll(proto, rng, pw, id)));
        match r {
            Ok(c) => c,
            Err(e) => panic!("enrolment panicked: {e}"),
        }
    }
    /// Enrolment by the independent implementation.
    pub fn enroll_model(&mut self, n: usize, proto: Proto, pw: &[u8], id: &B32) -> crate::model::proto::ModelCred {
        let st = &mut self.nodes[n];
        let rng = &mut st.rng;
        st.node.exec(|| crate::model::proto::enroll_model(proto, rng, pw, id))
    }
    pub fn start(&mut self, n: usize, cred: &Cred, ssid: B32, role: PartyRole, peer: Option<B32>, name: &str) -> End {
        let th = self.thread(n);
        self.tick(n);
        let st = &mut self.nodes[n];
        let rng = &mut st.rng;
        let c = cred.dup();
        let on = if th == 0 { &st.node } else { &st.threads[th - 1] };
        let r = along(&mut self.crowd, on, move || crate::node::guarded(|| c.start(rng, ssid, role, peer)));
        let sess = match r {
            Ok(s) => s,
            Err(e) => panic!("session start panicked: {e}"),
        };
        End { node: n, sess, role, name: name.to_string(), sent: vec![], got: vec![], failed: None, steps: 0 }
    }
    pub fn step(&mut self, e: &mut End, msg: &[u8]) -> Step {
        let th = self.thread(e.node);
        self.tick(e.node);
        let st = &mut self.nodes[e.node];
        let rng = &mut st.rng;
        let sess = &mut e.sess;
        let on = if th == 0 { &st.node } else { &st.threads[th - 1] };
        let r = along(&mut self.crowd, on, move || sess.step(rng, msg));
        self.steps += 1;
        e.steps += 1;
        e.got.push(msg.to_vec());
        match &r {
            Step::Msg(m) => {
                e.sent.push(m.clone());
                self.note_content(m);
            }
            Step::Nothing => e.sent.push(vec![]),
            f => {
                if e.failed.is_none() {
                    e.failed = Some(f.clone());
                }
            }
        }
        let line = format!(
            "{} <- {} bytes: {}{}",
            e.name,
            msg.len(),
            r.tag(),
            match &r {
                Step::Msg(m) => format!(" {} bytes", m.len()),
                _ => String::new(),
            }
        );
        self.ev(line);
        r
    }
    pub fn finalize(&mut self, e: &End) -> Result<Fin, String> {
        let th = self.thread(e.node);
        self.tick(e.node);
        let st = &self.nodes[e.node];
        let on = if th == 0 { &st.node } else { &st.threads[th - 1] };
        let sess = &e.sess;
        // a session is used by one thread at a time
        struct W<'a>(&'a Box<dyn Sess>);
        unsafe impl Send for W<'_> {}
        let w = W(sess);
        let r = along(&mut self.crowd, on, move || {
            let w = w;
            w.0.finalize()
        });
        if let Ok(f) = &r {
            self.note_content(&f.key);
        }
        r
    }
    /// Ends every node; nodes made afterwards are the same again, with the same randomness.
    pub fn drop_nodes(&mut self) {
        for n in 0..self.nodes.len() {
            self.absorb_stats(n);
        }
        self.nodes.clear();
        self.crowd_ends();
    }
    fn crowd_ends(&mut self) {
        if let Some(w) = self.crowd.take() {
            self.sched = fnv(self.sched, &w.trace.to_le_bytes());
            self.content = fnv(self.content, &w.trace.to_le_bytes());
            *self.faults.entry("switch-inside-a-call").or_insert(0) += w.switches;
            *self.faults.entry("two-threads-at-one-place").or_insert(0) += w.met;
            *self.counts.entry("rounds of the crowd".into()).or_insert(0) += w.rounds();
        }
    }
    pub fn finish(&mut self) {
        self.drop_nodes();
        for (k, v) in [("entropy-interrupted", self.ent_total.eintr), ("entropy-short", self.ent_total.short), ("entropy-would-block", self.ent_total.again), ("entropy-failed", self.ent_total.failed)] {
            if v > 0 {
                *self.faults.entry(k).or_insert(0) += v;
            }
        }
    }
    /// Random password shapes, including empty and long ones.
    pub fn password(&mut self) -> Vec<u8> {
        let n = match self.t.draw(8) {
            6 if self.t.chance(1, 16) => 4096 + self.t.draw(70_000),
            6 => 200 + self.t.draw(1200),
            7 => {
                let b = *self.t.pick(&[0u8, b' ', b'a', 0xff]);
                return vec![b; self.t.draw(70) as usize];
            }
            0 => 8,
            1 => 0,
            2 => 1,
            3 => 64 + self.t.draw(80),
            4 => 32,
            _ => 1 + self.t.draw(24),
        };
        let mut p = self.h.bytes(n as usize);
        if self.t.chance(1, 4) {
            for b in p.iter_mut() {
                *b &= 0x7f;
            }
        }
        p
    }
    /// Light entropy weather for a node.
    pub fn weather(&mut self) -> EntFaults {
        if self.t.chance(1, 3) {
            EntFaults { eintr: 200, short: 300, ..Default::default() }
        } else {
            EntFaults::default()
        }
    }
}

/// Runs f on the node, with the crowd if there is one.
fn along<T: Send>(crowd: &mut Option<Crowd>, on: &Node, f: impl FnOnce() -> T + Send) -> T {
    match crowd {
        Some(w) => w.along(on, f),
        None => on.exec(f),
    }
}

pub const I: PartyRole = PartyRole::Initiator;
pub const RS: PartyRole = PartyRole::Responder;
pub fn flip(r: PartyRole) -> PartyRole {
    if r == I {
        RS
    } else {
        I
    }
}

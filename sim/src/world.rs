//! A small network of nodes running honest sessions over an unreliable datagram network in simulated time.
//! The transport (numbered frames, retransmission, restart of an attempt) is harness code; the sessions are the real ones.
use crate::ctx::*;
use crate::ent::EntFaults;
use crate::sut::*;
use latke::PartyRole;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

const MS: u64 = 1_000_000;

#[derive(Clone, Debug)]
pub enum Pkt {
    Frame { conn: usize, att: u32, n: usize, data: Vec<u8> },
    Ack { conn: usize, att: u32, n: usize },
    Reset { conn: usize, att: u32 },
}
#[derive(Clone, Debug)]
enum Ev {
    Deliver(usize, Pkt),
    Timer(usize, PartyRole, u32, u32), // conn, end, attempt, generation
    Crash(usize),
    Restart(usize),
    Partition(usize, usize, bool),
    Begin(usize),
}

pub struct User {
    pub id: B32,
    pub pw: Vec<u8>,
    pub node: usize,
    /// durable: credentials by protocol
    pub creds: BTreeMap<Proto, Cred>,
    pub up: bool,
    /// timers of this node run this many permille of true time
    pub skew: u64,
    pub slow_ns: u64,
}
pub struct ConnEnd {
    pub user: usize,
    pub att: u32,
    pub end: Option<End>,
    pub outbox: Option<(usize, Vec<u8>)>, // last frame sent, for retransmission
    pub last_in: Option<usize>,
    pub tries: u32,
    pub gen: u32,
    pub acked: bool,
    /// application-level record (survives the session): results by attempt
    pub results: BTreeMap<u32, (Fin, usize)>,
}
pub struct Conn {
    pub proto: Proto,
    pub pre: bool,
    pub ssid_base: B32,
    pub a: ConnEnd,
    pub b: ConnEnd,
}
pub struct NetCfg {
    pub loss: u32,
    pub dup: u32,
    pub delay_ms: u32,
    pub fault_until_ms: u64,
    pub crashes: u32,
    pub partitions: u32,
}
pub struct Net {
    pub users: Vec<User>,
    pub conns: Vec<Conn>,
    q: BinaryHeap<Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, Ev>,
    seq: u64,
    now: u64,
    cfg: NetCfg,
    cut: BTreeMap<(usize, usize), u32>,
}

fn ce(user: usize) -> ConnEnd {
    ConnEnd { user, att: 0, end: None, outbox: None, last_in: None, tries: 0, gen: 0, acked: false, results: BTreeMap::new() }
}

impl Net {
    pub fn new(cfg: NetCfg) -> Net {
        Net { users: vec![], conns: vec![], q: BinaryHeap::new(), evs: BTreeMap::new(), seq: 0, now: 0, cfg, cut: BTreeMap::new() }
    }
    pub fn user(&mut self, c: &mut Ctx, pw: &[u8]) -> usize {
        let f = if self.cfg.fault_until_ms > 0 { c.weather() } else { EntFaults::default() };
        let node = c.node(f);
        if c.t.chance(1, 6) {
            let k = 1 + c.t.draw(3) as usize;
            c.threads(node, k);
        }
        let id = c.id();
        let skew = [1000, 1000, 250, 4000][c.t.draw(4) as usize];
        let slow_ns = [0, 0, 30, 700][c.t.draw(4) as usize] * MS;
        if skew != 1000 {
            c.fault("clock-skew");
        }
        if slow_ns > 100 * MS {
            c.fault("slow-node");
        }
        self.users.push(User { id, pw: pw.to_vec(), node, creds: BTreeMap::new(), up: true, skew, slow_ns });
        self.users.len() - 1
    }
    pub fn enroll(&mut self, c: &mut Ctx, u: usize, proto: Proto) {
        let (node, pw, id) = (self.users[u].node, self.users[u].pw.clone(), self.users[u].id);
        let cred = c.enroll(node, proto, &pw, &id);
        self.users[u].creds.insert(proto, cred);
    }
    pub fn connect(&mut self, c: &mut Ctx, a: usize, b: usize, proto: Proto, pre: bool) {
        for u in [a, b] {
            if !self.users[u].creds.contains_key(&proto) {
                self.enroll(c, u, proto);
            }
        }
        let ssid_base = c.ssid();
        self.conns.push(Conn { proto, pre, ssid_base, a: ce(a), b: ce(b) });
        let at = c.t.draw(3000) as u64 * MS;
        let k = self.conns.len() - 1;
        self.push(at, Ev::Begin(k));
    }
    fn push(&mut self, at: u64, e: Ev) {
        self.seq += 1;
        self.evs.insert(self.seq, e);
        self.q.push(Reverse((at, self.seq)));
    }
    fn faulty(&self) -> bool {
        self.now < self.cfg.fault_until_ms * MS
    }
    fn ssid(conn: &Conn, att: u32) -> B32 {
        let mut s = conn.ssid_base;
        for (i, b) in att.to_le_bytes().iter().enumerate() {
            s[i] ^= b;
        }
        s
    }
    fn end(&mut self, k: usize, r: PartyRole) -> &mut ConnEnd {
        if r == I {
            &mut self.conns[k].a
        } else {
            &mut self.conns[k].b
        }
    }
    fn send(&mut self, c: &mut Ctx, from: usize, to: usize, p: Pkt) {
        let mut copies = 1;
        if self.faulty() {
            if c.t.chance(self.cfg.loss, 100) {
                c.fault("net-loss");
                copies = 0;
            } else if c.t.chance(self.cfg.dup, 100) {
                c.fault("net-duplicate");
                copies = 2;
            }
        }
        let key = (from.min(to), from.max(to));
        if self.cut.get(&key).copied().unwrap_or(0) > 0 {
            c.fault("net-partition-drop");
            copies = 0;
        }
        for _ in 0..copies {
            let mut d = MS + self.users[from].slow_ns;
            if self.faulty() && self.cfg.delay_ms > 0 {
                let x = c.t.draw(self.cfg.delay_ms + 1) as u64;
                if x > 500 {
                    c.fault("net-delay");
                }
                d += x * MS;
            }
            self.push(self.now + d, Ev::Deliver(to, p.clone()));
        }
    }
    fn arm(&mut self, k: usize, r: PartyRole) {
        let (u, att, gen) = {
            let e = self.end(k, r);
            e.gen += 1;
            (e.user, e.att, e.gen)
        };
        let d = 2000 * MS * self.users[u].skew / 1000;
        self.push(self.now + d, Ev::Timer(k, r, att, gen));
    }
    fn begin(&mut self, c: &mut Ctx, k: usize) {
        let u = self.conns[k].a.user;
        if !self.users[u].up {
            return;
        }
        self.conns[k].a.att += 1;
        let att = self.conns[k].a.att;
        c.ev(format!("conn {k} attempt {att} begins"));
        self.open(c, k, I);
        self.conns[k].a.last_in = None;
        self.conns[k].a.tries = 0;
        self.run(c, k, I, 0, &[]);
    }
    fn open(&mut self, c: &mut Ctx, k: usize, r: PartyRole) {
        let conn = &self.conns[k];
        let (me, other) = if r == I { (conn.a.user, conn.b.user) } else { (conn.b.user, conn.a.user) };
        let att = if r == I { conn.a.att } else { conn.b.att };
        let peer = if conn.pre { Some(self.users[other].id) } else { None };
        let ssid = Net::ssid(conn, att);
        let cred = self.users[me].creds[&conn.proto].dup();
        let name = format!("c{k}{}", if r == I { "i" } else { "r" });
        let e = c.start(self.users[me].node, &cred, ssid, r, peer, &name);
        let ce = self.end(k, r);
        ce.end = Some(e);
        ce.outbox = None;
        ce.acked = false;
    }
    /// Feeds frame n-1 (or nothing, n == 0) and sends frame n.
    fn run(&mut self, c: &mut Ctx, k: usize, r: PartyRole, n: usize, data: &[u8]) {
        let me = self.end(k, r).user;
        let other = self.end(k, flip(r)).user;
        let att = self.end(k, r).att;
        let mut e = self.end(k, r).end.take().unwrap();
        let s = c.step(&mut e, data);
        let done = e.done();
        let steps = e.steps;
        if done {
            match c.finalize(&e) {
                Ok(f) => {
                    self.end(k, r).results.insert(att, (f, steps));
                }
                Err(_) => e.failed = Some(Step::Panic("finalize refused".into())),
            }
        }
        self.end(k, r).end = Some(e);
        match s {
            Step::Msg(m) => {
                self.end(k, r).outbox = Some((n, m.clone()));
                self.send(c, me, other, Pkt::Frame { conn: k, att, n, data: m });
                self.arm(k, r);
            }
            Step::Nothing if done => {
                self.end(k, r).outbox = None;
                self.end(k, r).acked = true;
                self.send(c, me, other, Pkt::Ack { conn: k, att, n: n - 1 });
            }
            Step::Nothing => {
                self.end(k, r).outbox = Some((n, vec![]));
                self.send(c, me, other, Pkt::Frame { conn: k, att, n, data: vec![] });
                self.arm(k, r);
            }
            _ => {}
        }
    }
    fn deliver(&mut self, c: &mut Ctx, to: usize, p: Pkt) {
        if !self.users[to].up {
            return;
        }
        match p {
            Pkt::Frame { conn: k, att, n, data } => {
                let r = if n % 2 == 0 { RS } else { I };
                if self.end(k, r).user != to {
                    return;
                }
                let from = self.end(k, flip(r)).user;
                if r == RS && att > self.end(k, r).att && n == 0 {
                    self.end(k, r).att = att;
                    self.end(k, r).last_in = None;
                    self.open(c, k, RS);
                }
                let cur = self.end(k, r).att;
                if att < cur {
                    return;
                }
                if att > cur || self.end(k, r).end.is_none() {
                    self.send(c, to, from, Pkt::Reset { conn: k, att });
                    return;
                }
                let expected = match self.end(k, r).last_in {
                    None => {
                        if r == RS {
                            0
                        } else {
                            1
                        }
                    }
                    Some(x) => x + 2,
                };
                if n == expected {
                    self.end(k, r).last_in = Some(n);
                    self.end(k, r).tries = 0;
                    // the peer's new frame acknowledges ours
                    self.end(k, r).outbox = None;
                    if self.end(k, r).end.as_ref().unwrap().done() || self.end(k, r).end.as_ref().unwrap().failed.is_some() {
                        return;
                    }
                    self.run(c, k, r, n + 1, &data);
                } else if n < expected {
                    // duplicate: answer with what we answered then
                    if let Some((m, d)) = self.end(k, r).outbox.clone() {
                        if m == n + 1 {
                            self.send(c, to, from, Pkt::Frame { conn: k, att, n: m, data: d });
                        }
                    } else if self.end(k, r).end.as_ref().unwrap().done() {
                        if self.end(k, r).acked {
                            self.send(c, to, from, Pkt::Ack { conn: k, att, n });
                        } else {
                            // given up resending our last frame, which the peer evidently lacks
                            self.send(c, to, from, Pkt::Reset { conn: k, att });
                        }
                    }
                }
            }
            Pkt::Ack { conn: k, att, n } => {
                let r = if n % 2 == 0 { I } else { RS };
                let e = self.end(k, r);
                if e.att == att && e.outbox.as_ref().map(|o| o.0) == Some(n) {
                    e.outbox = None;
                    e.acked = true;
                }
            }
            Pkt::Reset { conn: k, att } => {
                // only the initiator restarts attempts
                if self.conns[k].a.user == to && self.conns[k].a.att == att {
                    c.count("attempt-reset");
                    self.begin(c, k);
                } else if self.conns[k].b.user == to && self.conns[k].b.att == att {
                    self.conns[k].b.outbox = None;
                }
            }
        }
    }
    fn timer(&mut self, c: &mut Ctx, k: usize, r: PartyRole, att: u32, gen: u32) {
        let e = self.end(k, r);
        if e.att != att || e.gen != gen || e.outbox.is_none() {
            return;
        }
        let me = e.user;
        if !self.users[me].up {
            return;
        }
        let e = self.end(k, r);
        e.tries += 1;
        if e.tries > 12 && r == RS {
            e.outbox = None;
            return;
        }
        if e.tries > 12 {
            c.count("attempt-timeout");
            self.begin(c, k);
            return;
        }
        let (n, d) = self.end(k, r).outbox.clone().unwrap();
        let other = self.end(k, flip(r)).user;
        self.send(c, me, other, Pkt::Frame { conn: k, att, n, data: d });
        self.arm(k, r);
    }
    pub fn both_done(&self, k: usize) -> bool {
        let c = &self.conns[k];
        // the application at a node keeps the result of a completed attempt across crashes
        c.a.results.keys().any(|k| c.b.results.contains_key(k))
    }
    pub fn all_done(&self) -> bool {
        (0..self.conns.len()).all(|k| self.both_done(k))
    }
    /// Runs to quiescence or the liveness bound; false if some connection is not complete by then.
    pub fn simulate(&mut self, c: &mut Ctx) -> bool {
        let nu = self.users.len() as u32;
        for _ in 0..self.cfg.crashes {
            let u = c.t.draw(nu) as usize;
            let at = c.t.draw((self.cfg.fault_until_ms as u32).max(1)) as u64 * MS;
            let back = at + (100 + c.t.draw(4000) as u64) * MS;
            self.push(at, Ev::Crash(u));
            self.push(back, Ev::Restart(u));
        }
        for _ in 0..self.cfg.partitions {
            let a = c.t.draw(nu) as usize;
            let b = c.t.draw(nu) as usize;
            if a == b {
                continue;
            }
            let at = c.t.draw((self.cfg.fault_until_ms as u32).max(1)) as u64 * MS;
            let heal = at + (500 + c.t.draw(5000) as u64) * MS;
            self.push(at, Ev::Partition(a, b, true));
            self.push(heal, Ev::Partition(a, b, false));
        }
        let bound = (self.cfg.fault_until_ms + 400_000) * MS;
        let mut events = 0u32;
        while let Some(Reverse((at, id))) = self.q.pop() {
            events += 1;
            if at > bound || events > 20_000 {
                break;
            }
            self.now = at.max(self.now);
            c.sim_ns += self.now;
            let e = self.evs.remove(&id).unwrap();
            match e {
                Ev::Deliver(u, p) => self.deliver(c, u, p),
                Ev::Timer(k, r, att, g) => self.timer(c, k, r, att, g),
                Ev::Begin(k) => {
                    if self.conns[k].a.att == 0 {
                        self.begin(c, k)
                    }
                }
                Ev::Crash(u) => {
                    if self.users[u].up {
                        c.fault("crash");
                        c.ev(format!("node {u} crashes"));
                        self.users[u].up = false;
                        c.reboot(self.users[u].node);
                        for k in 0..self.conns.len() {
                            for r in [I, RS] {
                                let e = self.end(k, r);
                                if e.user == u {
                                    e.end = None;
                                    e.outbox = None;
                                    e.last_in = None;
                                    e.tries = 0;
                                }
                            }
                        }
                    }
                }
                Ev::Restart(u) => {
                    if !self.users[u].up {
                        c.ev(format!("node {u} restarts"));
                        self.users[u].up = true;
                        for k in 0..self.conns.len() {
                            if self.conns[k].a.user == u && self.conns[k].a.end.is_none() {
                                self.begin(c, k);
                            }
                        }
                    }
                }
                Ev::Partition(a, b, on) => {
                    c.ev(format!("partition {a}|{b} {}", if on { "starts" } else { "heals" }));
                    let e = self.cut.entry((a.min(b), a.max(b))).or_insert(0);
                    if on {
                        *e += 1;
                        c.fault("net-partition");
                    } else {
                        *e = e.saturating_sub(1);
                    }
                }
            }
            if self.all_done() && !self.faulty() {
                return true;
            }
        }
        self.all_done()
    }
}

//! Many sessions at once, with a network that misroutes, repeats, alters and forges: the histories of all ends
//! are recorded and judged afterwards.
use crate::ctx::*;
use crate::play::*;
use crate::sut::*;
use std::collections::VecDeque;

pub struct SeaCfg {
    /// per cent of deliveries replaced by something else
    pub wrong: u32,
    /// per cent of scheduling steps that send a late message to a completed end
    pub late: u32,
    /// per cent of scheduling steps that are an unrelated enrolment
    pub noise: u32,
    /// crashes (sessions of that node are lost)
    pub crashes: u32,
    /// go on with a session after it reported an error
    pub retry: bool,
}
pub struct SeaEnd {
    pub e: End,
    pub user: usize,
    pub ssid: B32,
    pub proto: Proto,
    inbox: VecDeque<Vec<u8>>,
    started: bool,
    /// accepted messages and what they were answered with; the initiator's first is empty
    pub got: Vec<Vec<u8>>,
    pub sent: Vec<Vec<u8>>,
    /// something was delivered that its peer did not send at that point
    pub touched: bool,
    pub lost: bool,
    pub fin: Option<Fin>,
    pub pair: usize,
}
pub struct Sea {
    pub cfg: SeaCfg,
    pub ends: Vec<SeaEnd>,
    /// every frame ever sent: (protocol, frame)
    pub pool: Vec<(Proto, Vec<u8>)>,
    pub pw: Vec<u8>,
}

impl Sea {
    pub fn new(cfg: SeaCfg, pw: &[u8]) -> Sea {
        Sea { cfg, ends: vec![], pool: vec![], pw: pw.to_vec() }
    }
    /// Ends 2p and 2p+1 are pair p.
    #[allow(clippy::too_many_arguments)]
    pub fn pair(&mut self, c: &mut Ctx, proto: Proto, ssid: B32, u: &[Party], a: usize, b: usize, pre: bool) {
        let p = self.ends.len() / 2;
        let pr = |x: B32| pre.then_some(x);
        let ea = c.open(&u[a], ssid, I, pr(u[b].id), &format!("{p}I"));
        let eb = c.open(&u[b], ssid, RS, pr(u[a].id), &format!("{p}R"));
        c.ev(format!("pair {p}: {proto:?} user {a} -> user {b} pre={pre} ssid {}", short(&ssid[..4])));
        for (e, user) in [(ea, a), (eb, b)] {
            self.ends.push(SeaEnd {
                e, user, ssid, proto, inbox: VecDeque::new(), started: false, got: vec![], sent: vec![], touched: false, lost: false, fin: None, pair: p,
            });
        }
    }
    fn live(&self, i: usize) -> bool {
        let s = &self.ends[i];
        !s.lost && s.fin.is_none() && !matches!(s.e.failed, Some(Step::Panic(_))) && (s.e.failed.is_none() || self.cfg.retry)
    }
    fn deliver(&mut self, c: &mut Ctx, i: usize, m: &[u8]) -> Step {
        let s = &mut self.ends[i];
        let r = c.step(&mut s.e, m);
        if r.ok() {
            s.got.push(m.to_vec());
            let f = r.clone().frame();
            s.sent.push(f.clone());
            let done = s.e.sess.is_done();
            if !(matches!(r, Step::Nothing) && done) {
                if !f.is_empty() {
                    self.pool.push((s.proto, f.clone()));
                }
                let o = i ^ 1;
                self.ends[o].inbox.push_back(f);
            }
            if done {
                let e = &self.ends[i].e;
                self.ends[i].fin = c.finalize(e).ok();
                let l = format!("{} completed", self.ends[i].e.name);
                c.ev(l);
            }
        }
        r
    }
    /// Something else than the message due.
    fn forged(&mut self, c: &mut Ctx, i: usize, due: Option<&Vec<u8>>) -> Vec<u8> {
        let proto = self.ends[i].proto;
        let len = due.map(|d| d.len()).unwrap_or(0);
        let same: Vec<usize> = (0..self.pool.len()).filter(|k| self.pool[*k].0 == proto && (len == 0 || self.pool[*k].1.len() == len)).collect();
        match c.t.draw(10) {
            0..=3 if !same.is_empty() => {
                c.fault("misrouted");
                self.pool[*c.t.pick(&same)].1.clone()
            }
            4 if !self.pool.is_empty() => {
                c.fault("misrouted");
                let k = c.t.draw(self.pool.len() as u32) as usize;
                self.pool[k].1.clone()
            }
            5 if len > 0 && !same.is_empty() => {
                c.fault("spliced");
                let mut x = due.unwrap().clone();
                let f = &self.pool[*c.t.pick(&same)].1;
                let cut = c.t.draw(len as u32 + 1) as usize;
                let cut = if c.t.chance(1, 2) { cut / 32 * 32 } else { cut };
                x[cut..].copy_from_slice(&f[cut..]);
                x
            }
            6 if len > 0 => {
                c.fault("altered");
                let mut x = due.unwrap().clone();
                let b = c.t.draw(len as u32 * 8) as usize;
                x[b / 8] ^= 1 << (b % 8);
                x
            }
            7 | 8 if !self.pool.is_empty() => {
                // a piece of a message sent before, preferably one of this end's own
                let n = if len > 0 && c.t.chance(2, 3) { len } else { 32 };
                let own: Vec<&Vec<u8>> = self.ends[i].sent.iter().filter(|f| f.len() >= n).collect();
                let any: Vec<&Vec<u8>> = self.pool.iter().filter(|f| f.0 == proto && f.1.len() >= n).map(|f| &f.1).collect();
                let from = if !own.is_empty() && c.t.chance(2, 3) { own } else { any };
                if from.is_empty() {
                    return c.h.bytes(n);
                }
                c.fault("reflected-piece");
                let f = *c.t.pick(&from);
                let room = (f.len() - n) as u32;
                let at = match c.t.draw(4) {
                    0 => room,
                    1 => 0,
                    2 => c.t.draw(room / 32 + 1) * 32,
                    _ => c.t.draw(room + 1),
                } as usize;
                f[at..at + n].to_vec()
            }
            _ => {
                c.fault("forged");
                let n = if len > 0 { len } else { c.t.size(300) as usize };
                c.h.bytes(n)
            }
        }
    }
    pub fn run(&mut self, c: &mut Ctx, users: &[Party]) -> R {
        let mut crashes = self.cfg.crashes;
        for _ in 0..self.ends.len() * 14 {
            let movable: Vec<usize> = (0..self.ends.len())
                .filter(|i| self.live(*i) && (!self.ends[*i].inbox.is_empty() || (self.ends[*i].e.role == I && !self.ends[*i].started)))
                .collect();
            if movable.is_empty() {
                break;
            }
            if self.cfg.late > 0 && c.t.chance(self.cfg.late, 100) {
                self.late(c)?;
            }
            if self.cfg.noise > 0 && c.t.chance(self.cfg.noise, 100) {
                let p = self.ends[c.t.draw(self.ends.len() as u32) as usize].proto;
                let n = users[c.t.draw(users.len() as u32) as usize].node;
                let pw = if c.t.chance(1, 2) { self.pw.clone() } else { c.h.bytes(8) };
                let id = c.id();
                c.ev(format!("unrelated enrolment on node {n}"));
                c.fault("concurrent-enrolment");
                c.enroll(n, p, &pw, &id);
            }
            if crashes > 0 && c.t.chance(1, 12) {
                crashes -= 1;
                let u = c.t.draw(users.len() as u32) as usize;
                c.fault("crash");
                c.ev(format!("crash of user {u}'s node"));
                c.reboot(users[u].node);
                for s in self.ends.iter_mut().filter(|s| s.user == u && s.fin.is_none()) {
                    s.lost = true;
                }
                continue;
            }
            let i = *c.t.pick(&movable);
            if !self.ends[i].started && self.ends[i].e.role == I {
                self.ends[i].started = true;
                self.deliver(c, i, &[]);
                continue;
            }
            let due = self.ends[i].inbox.front().cloned();
            if c.t.chance(self.cfg.wrong, 100) {
                let m = self.forged(c, i, due.as_ref());
                if Some(&m) != due.as_ref() {
                    self.ends[i].touched = true;
                    let l = format!("{} is sent something else", self.ends[i].e.name);
                    c.ev(l);
                    self.deliver(c, i, &m);
                    continue;
                }
            }
            self.ends[i].inbox.pop_front();
            self.deliver(c, i, &due.unwrap());
        }
        if self.cfg.late > 0 {
            for _ in 0..4 {
                self.late(c)?;
            }
        }
        self.unchanged(c)
    }
    /// A message to an end that has completed.
    fn late(&mut self, c: &mut Ctx) -> R {
        let done: Vec<usize> = (0..self.ends.len()).filter(|i| self.ends[*i].fin.is_some() && !self.ends[*i].lost).collect();
        if done.is_empty() {
            return Ok(());
        }
        let i = *c.t.pick(&done);
        let m = match c.t.draw(4) {
            0 => vec![],
            1 if self.ends[i].got.len() > 1 => self.ends[i].got.last().unwrap().clone(),
            2 if !self.ends[i].got.is_empty() => {
                let k = c.t.draw(self.ends[i].got.len() as u32) as usize;
                self.ends[i].got[k].clone()
            }
            _ => self.forged(c, i, None),
        };
        c.fault("late-message");
        let s = &mut self.ends[i];
        c.ev(format!("late message of {} bytes to {}", m.len(), s.e.name));
        c.step(&mut s.e, &m);
        let now = c.finalize(&s.e).ok();
        if now != s.fin {
            return viol("result-changed", format!("{:?}: the result of {} changes after a late message of {} bytes: {:?} then {:?}", s.proto, s.e.name, m.len(), s.fin, now));
        }
        Ok(())
    }
    /// Many late messages to one completed end.
    pub fn pester(&mut self, c: &mut Ctx, n: u32) -> R {
        let done: Vec<usize> = (0..self.ends.len()).filter(|i| self.ends[*i].fin.is_some() && !self.ends[*i].lost).collect();
        if done.is_empty() {
            return Ok(());
        }
        let i = *c.t.pick(&done);
        c.fault("many-late-messages");
        let m = match c.t.draw(3) {
            0 => vec![],
            1 if !self.ends[i].got.is_empty() => self.ends[i].got.last().unwrap().clone(),
            _ => self.forged(c, i, None),
        };
        c.ev(format!("{n} late messages of {} bytes to {}", m.len(), self.ends[i].e.name));
        for k in 0..n {
            let s = &mut self.ends[i];
            c.step(&mut s.e, &m);
            let now = c.finalize(&s.e).ok();
            if now != s.fin {
                return viol("result-changed", format!("{:?}: the result of {} changes after {k} late messages: {:?} then {now:?}", s.proto, s.e.name, s.fin));
            }
        }
        Ok(())
    }
    fn unchanged(&mut self, c: &mut Ctx) -> R {
        for s in self.ends.iter().filter(|s| s.fin.is_some() && !s.lost) {
            for _ in 0..2 {
                let now = c.finalize(&s.e).ok();
                if now != s.fin {
                    return viol("result-changed", format!("{:?}: the result of {} changes later: {:?} then {now:?}", s.proto, s.e.name, s.fin));
                }
            }
        }
        Ok(())
    }
    /// Did these two have the same conversation, as far as `i` has seen?
    pub fn matching(&self, i: usize, j: usize) -> bool {
        self.ends[i].ssid == self.ends[j].ssid && self.conversed(i, j)
    }
    fn conversed(&self, i: usize, j: usize) -> bool {
        let (e, s) = (&self.ends[i], &self.ends[j]);
        if i == j || e.proto != s.proto || e.e.role == s.e.role {
            return false;
        }
        // the first nonce reaches the responder of the bare SIGMA-R exchange unprotected, and enters no key
        let skip = |k: usize| if k == 0 && e.e.role == RS && matches!(e.proto, Proto::Ibke(IK::SigmaEd | IK::SigmaDil)) { 32 } else { 0 };
        let eq = |x: Option<&Vec<u8>>, y: Option<&Vec<u8>>, n: usize| match (x, y) {
            (Some(x), Some(y)) => x.len() == y.len() && x[n.min(x.len())..] == y[n.min(y.len())..],
            _ => false,
        };
        if e.e.role == I {
            (1..e.got.len()).all(|k| eq(s.sent.get(k - 1), e.got.get(k), 0) && eq(s.got.get(k - 1), e.sent.get(k - 1), 0))
        } else {
            (0..e.got.len()).all(|k| eq(s.sent.get(k), e.got.get(k), skip(k)) && (k == 0 || eq(s.got.get(k), e.sent.get(k - 1), 0)))
        }
    }
    /// Every end that completed a confirming exchange has a partner.
    pub fn confirmed(&self, c: &mut Ctx) -> R {
        let mut known = Ok(());
        for i in 0..self.ends.len() {
            let s = &self.ends[i];
            let Some(f) = &s.fin else { continue };
            if !confirms(s.proto) || s.proto == Proto::Ibke(IK::SigDh) {
                continue;
            }
            c.count("confirmed completions");
            let partners: Vec<usize> = (0..self.ends.len()).filter(|j| self.matching(i, *j)).collect();
            if partners.is_empty() && s.proto == Proto::Ibke(IK::Fg) && (0..self.ends.len()).filter(|j| self.conversed(i, *j)).count() == 1 {
                known = viol("fg-confirmation-ignores-ssid", format!("{:?}: {} completed, its partner has another session identifier and so another key", s.proto, s.e.name));
                continue;
            }
            if partners.len() != 1 {
                return viol(
                    "unconfirmed-completion",
                    format!("{:?}: {} completed but {} sessions had that conversation", s.proto, s.e.name, partners.len()),
                );
            }
            if let Some(g) = &self.ends[partners[0]].fin {
                if g.key != f.key {
                    return viol("confirmed-keys-differ", format!("{:?}: {} and its partner completed with different keys", s.proto, s.e.name));
                }
            }
        }
        known
    }
    /// Equal keys only at the two ends of one conversation.
    pub fn fresh(&self, earlier: &mut Vec<(B32, String)>, tag: &str) -> R {
        for i in 0..self.ends.len() {
            let Some(f) = &self.ends[i].fin else { continue };
            let name = format!("{tag} {} {:?}", self.ends[i].e.name, self.ends[i].proto);
            if let Some(x) = earlier.iter().find(|x| x.0 == f.key) {
                return viol("key-repeats", format!("{name} has the key of {}", x.1));
            }
            let mut same = 0;
            for j in 0..self.ends.len() {
                if j != i && self.ends[j].fin.as_ref().is_some_and(|g| g.key == f.key) {
                    same += 1;
                    let (x, y) = (&self.ends[i], &self.ends[j]);
                    if x.e.role == y.e.role || x.ssid != y.ssid || x.proto != y.proto {
                        return viol("key-repeats", format!("{name} has the same key as {} {:?}, which is not its peer", y.e.name, y.proto));
                    }
                }
            }
            if same > 1 {
                return viol("key-repeats", format!("{name} shares its key with {same} sessions"));
            }
        }
        for i in 0..self.ends.len() {
            if let Some(f) = &self.ends[i].fin {
                earlier.push((f.key, format!("{tag} {} {:?}", self.ends[i].e.name, self.ends[i].proto)));
            }
        }
        Ok(())
    }
    /// Pairs nobody interfered with complete and agree.
    pub fn undisturbed(&self, c: &mut Ctx, users: &[Party]) -> R {
        for p in 0..self.ends.len() / 2 {
            let (a, b) = (&self.ends[2 * p], &self.ends[2 * p + 1]);
            if a.touched || b.touched || a.lost || b.lost {
                continue;
            }
            c.count("undisturbed pairs");
            let ok = matches!((&a.fin, &b.fin), (Some(x), Some(y)) if x.key == y.key
                && x.id.is_none_or(|i| i == users[b.user].id) && y.id.is_none_or(|i| i == users[a.user].id));
            if !ok {
                return viol("disturbed", format!("{:?}: pair {p}, which nobody interfered with, ends with {:?} / {:?} ({:?} / {:?})", a.proto, a.fin, b.fin, a.e.failed, b.e.failed));
            }
        }
        Ok(())
    }
}

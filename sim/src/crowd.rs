//! Something else going on in the same process: while a run works on one of its nodes, the crowd works on a node of
//! its own, and the two take turns inside their calls (duo.rs). The crowd's own results are checked, too.
use crate::ctx::*;
use crate::node::{guarded, Node};
use crate::sut::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Sess(Proto),
    Kem(usize),
    Sig(usize),
}
pub struct Crowd {
    nodes: [Node; 2],
    st: St,
    seed: u64,
    gap: u32,
    fine: bool,
    /// how many calls it still accompanies
    left: u32,
    pub switches: u64,
    /// how often the two came together at one place of the code
    pub met: u64,
    /// digest of where the turns were taken
    pub trace: u64,
}
struct St {
    kind: Kind,
    /// what the crowd decides
    d: PRng,
    rng: [PRng; 2],
    pw: Vec<u8>,
    ids: [B32; 2],
    creds: Vec<Cred>,
    ends: Vec<Box<dyn Sess>>,
    turn: usize,
    msg: Vec<u8>,
    mem: Vec<Vec<u8>>,
    rounds: u64,
    bad: Option<String>,
}

impl Crowd {
    pub fn new(kind: Kind, seed: u64, gap: u32, fine: bool) -> Crowd {
        let node = |k: u64| Node::new(mix(seed, k), Default::default());
        let mut d = PRng::new(mix(seed, 3));
        let pw = d.bytes(9);
        let ids = [d.b32(), d.b32()];
        let rng = [PRng::new(mix(seed, 4)), PRng::new(mix(seed, 5))];
        Crowd {
            nodes: [node(1), node(2)],
            st: St { kind, d, rng, pw, ids, creds: vec![], ends: vec![], turn: 0, msg: vec![], mem: vec![], rounds: 0, bad: None },
            seed: mix(seed, 6),
            gap,
            fine,
            left: if matches!(kind, Kind::Sess(_)) { 300 } else { 30 },
            switches: 0,
            met: 0,
            trace: 0,
        }
    }
    pub fn bad(&self) -> Option<String> {
        self.st.bad.clone()
    }
    pub fn rounds(&self) -> u64 {
        self.st.rounds
    }
    /// Does f on the node, and something of its own meanwhile.
    pub fn along<T: Send>(&mut self, on: &Node, f: impl FnOnce() -> T + Send) -> T {
        if self.st.bad.is_some() || self.left == 0 {
            return on.exec(f);
        }
        self.left -= 1;
        self.seed = mix(self.seed, 7);
        let me = &self.nodes[self.st.whose()];
        let st = &mut self.st;
        let (r, (), n) = on.exec_with(
            f,
            me,
            move || {
                if let Err(p) = guarded(|| st.go()) {
                    st.bad = Some(format!("{:?}: panic: {p}", st.kind));
                }
            },
            self.seed,
            self.gap,
            self.fine,
        );
        self.switches += n.0;
        self.met += n.2;
        self.trace = mix(self.trace, n.1);
        r
    }
}
/// Uses everything once, so that what the code and its dependencies set up on first use is there for every run.
pub fn warm() {
    let kinds = all_protos().into_iter().map(Kind::Sess).chain((0..3).map(Kind::Kem)).chain((0..3).map(Kind::Sig));
    for k in kinds {
        let mut c = Crowd::new(k, 1, 1, false);
        for _ in 0..40 {
            if c.st.rounds > 0 || c.st.bad.is_some() {
                break;
            }
            let me = &c.nodes[c.st.whose()];
            let st = &mut c.st;
            me.exec(|| {
                if guarded(|| st.go()).is_err() {
                    st.bad = Some(String::new());
                }
            });
        }
    }
}
impl St {
    fn whose(&self) -> usize {
        match self.kind {
            Kind::Sess(_) if self.creds.len() < 2 => self.creds.len(),
            Kind::Sess(_) if self.ends.len() < 2 => self.ends.len(),
            _ => self.turn % 2,
        }
    }
    fn go(&mut self) {
        match self.kind {
            Kind::Sess(p) => self.sess(p),
            Kind::Kem(k) => self.kem(k),
            Kind::Sig(k) => self.sig(k),
        }
    }
    fn fail(&mut self, t: String) {
        self.bad = Some(format!("{:?}: {t}", self.kind));
    }
    fn sess(&mut self, p: Proto) {
        let k = self.whose();
        if self.creds.len() < 2 {
            let c = enroll(p, &mut self.rng[k], &self.pw, &self.ids[k]);
            self.creds.push(c);
            return;
        }
        if self.ends.len() < 2 {
            if k == 0 {
                self.mem = vec![self.d.bytes(32)];
                self.turn = 0;
                self.msg.clear();
            }
            let ssid = self.mem[0][..].try_into().unwrap();
            let s = self.creds[k].start(&mut self.rng[k], ssid, [I, RS][k], Some(self.ids[1 - k]));
            self.ends.push(s);
            return;
        }
        if !self.ends[k].is_done() {
            match self.ends[k].step(&mut self.rng[k], &self.msg) {
                Step::Msg(m) => self.msg = m,
                Step::Nothing => self.msg.clear(),
                f => return self.fail(format!("an honest session fails at step {}: {}", self.turn, f.tag())),
            }
            self.turn += 1;
            if self.turn > 60 {
                return self.fail("an honest session does not end".into());
            }
            if !(self.ends[0].is_done() && self.ends[1].is_done()) {
                return;
            }
        } else {
            return self.fail("one end of an honest session is done, the other is not".into());
        }
        match (self.ends[0].finalize(), self.ends[1].finalize()) {
            (Ok(a), Ok(b)) if a.key == b.key && a.id.map_or(true, |i| i == self.ids[1]) && b.id.map_or(true, |i| i == self.ids[0]) => {}
            (a, b) => return self.fail(format!("an honest session ends with {a:?} and {b:?}")),
        }
        self.rounds += 1;
        self.ends.clear();
        if self.rounds % 2 == 0 {
            self.creds.clear();
            self.pw = self.d.bytes(5);
            self.ids = [self.d.b32(), self.d.b32()];
        }
    }
    fn kem(&mut self, k: usize) {
        let o = &crate::props::kems()[k];
        match self.turn % 3 {
            0 => {
                let key = (o.keygen)();
                self.mem = vec![key.pk(), key.sk()];
            }
            1 => match (o.enc)(&self.mem[0]) {
                Some((s, c)) => self.mem.extend([s, c]),
                None => return self.fail("own public key refused".into()),
            },
            _ => {
                let s = (o.load)(&self.mem[1]).and_then(|key| key.dec(&self.mem[3]));
                if s.as_ref() != Some(&self.mem[2]) {
                    return self.fail("an encapsulated secret is not recovered".into());
                }
                self.rounds += 1;
            }
        }
        self.turn += 1;
    }
    fn sig(&mut self, k: usize) {
        let o = &crate::props::sigs()[k];
        match self.turn % 3 {
            0 => {
                let (pk, sk) = if self.rounds % 2 == 0 { (o.keypair)() } else { (o.det)(self.d.b32()) };
                let n = self.d.b32()[0] as usize;
                self.mem = vec![pk, sk, self.d.bytes(n)];
            }
            1 => match (o.sign)(&self.mem[2], &self.mem[1]) {
                Some(s) => self.mem.push(s),
                None => return self.fail("own key refused".into()),
            },
            _ => {
                if (o.verify)(&self.mem[3], &self.mem[2], &self.mem[0]) != Some(true) {
                    return self.fail("an honest signature is rejected".into());
                }
                self.rounds += 1;
            }
        }
        self.turn += 1;
    }
}

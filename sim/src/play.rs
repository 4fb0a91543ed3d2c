//! Two ends and whatever lies between them.
use crate::ctx::*;
use crate::sut::*;
use latke::PartyRole;
use std::collections::VecDeque;

pub struct Party {
    pub node: usize,
    pub id: B32,
    pub cred: Cred,
}
impl Ctx {
    /// A node and its enrolled user.
    pub fn party(&mut self, proto: Proto, pw: &[u8]) -> Party {
        let id = self.id();
        self.party_as(proto, pw, &id)
    }
    pub fn party_as(&mut self, proto: Proto, pw: &[u8], id: &B32) -> Party {
        let w = self.weather();
        let node = self.node(w);
        if self.t.chance(1, 12) {
            let k = 1 + self.t.draw(2) as usize;
            self.threads(node, k);
        }
        let cred = self.enroll(node, proto, pw, id);
        Party { node, id: *id, cred }
    }
    /// Possibly a crash and restart, after which only the credential is left.
    pub fn maybe_restart(&mut self, n: usize) {
        if self.t.chance(1, 6) {
            self.fault("restart");
            self.reboot(n);
        }
    }
    pub fn open(&mut self, p: &Party, ssid: B32, role: PartyRole, peer: Option<B32>, name: &str) -> End {
        self.start(p.node, &p.cred, ssid, role, peer, name)
    }
}
/// What happens to a frame on its way: index of the frame in the session, receiver, the frame itself.
pub type Hook<'a> = &'a mut dyn FnMut(&mut Ctx, &Wire, usize, Vec<u8>) -> Option<Vec<u8>>;
/// Everything sent so far, as it left its sender.
#[derive(Default)]
pub struct Wire {
    /// (sender, frame)
    pub sent: Vec<(usize, Vec<u8>)>,
}
pub fn straight(_: &mut Ctx, _: &Wire, _: usize, m: Vec<u8>) -> Option<Vec<u8>> {
    Some(m)
}
/// Runs two sessions against each other until nothing moves any more.
pub fn relay(c: &mut Ctx, ends: &mut [End; 2], hook: Hook) -> Wire {
    relay_until(c, ends, usize::MAX, hook)
}
/// ... or until so many frames have been delivered.
pub fn relay_until(c: &mut Ctx, ends: &mut [End; 2], limit: usize, hook: Hook) -> Wire {
    let mut w = Wire::default();
    let mut q: VecDeque<(usize, Vec<u8>)> = VecDeque::new();
    let mut kicked = false;
    for i in 0..2 {
        if ends[i].role == I {
            kicked = true;
            emit(c, ends, i, &[], &mut w, &mut q);
        }
    }
    if !kicked {
        q.push_back((0, vec![]));
    }
    let mut n = 0;
    while let Some((to, m)) = q.pop_front() {
        if n >= limit || n > 60 {
            break;
        }
        n += 1;
        if ends[to].failed.is_some() || ends[to].done() {
            continue;
        }
        let Some(m) = hook(c, &w, to, m) else { continue };
        emit(c, ends, to, &m, &mut w, &mut q);
    }
    w
}
fn emit(c: &mut Ctx, ends: &mut [End; 2], i: usize, m: &[u8], w: &mut Wire, q: &mut VecDeque<(usize, Vec<u8>)>) {
    match c.step(&mut ends[i], m) {
        Step::Msg(o) => {
            w.sent.push((i, o.clone()));
            q.push_back((1 - i, o));
        }
        Step::Nothing if !ends[i].done() => {
            w.sent.push((i, vec![]));
            q.push_back((1 - i, vec![]));
        }
        _ => {}
    }
}
/// Results of both ends.
pub fn results(c: &mut Ctx, ends: &[End; 2]) -> [Option<Fin>; 2] {
    let r = [c.finalize(&ends[0]).ok(), c.finalize(&ends[1]).ok()];
    c.ev(format!("results: {} {}", r[0].is_some(), r[1].is_some()));
    r
}
/// An honest session between two parties, as a control or as recorded traffic.
pub fn honest(c: &mut Ctx, proto: Proto, a: &Party, b: &Party, ssid: B32, pre: bool) -> R<([End; 2], Wire, [Fin; 2])> {
    let p = |x: B32| pre.then_some(x);
    let mut ends = [c.open(a, ssid, I, p(b.id), "A"), c.open(b, ssid, RS, p(a.id), "B")];
    let w = relay(c, &mut ends, &mut straight);
    let r = results(c, &ends);
    match r {
        [Some(x), Some(y)] if x.key == y.key && x.id.is_none_or(|i| i == b.id) && y.id.is_none_or(|i| i == a.id) => Ok((ends, w, [x, y])),
        r => viol("honest-session-broken", format!("{proto:?} pre={pre}: a plain honest session does not complete with one key: {r:?} {:?} {:?}", ends[0].failed, ends[1].failed)),
    }
}
/// Does a mismatch show to both ends (a confirmation of password or identity)?
pub fn confirms(p: Proto) -> bool {
    match p {
        Proto::Latke(..) | Proto::Ibke(_) => true,
        Proto::Chip(p) | Proto::Pake(p) => p == PK::Kc,
    }
}
/// Neither end may hold the other's key; in a confirming protocol neither may hold any.
pub fn no_agreement(c: &mut Ctx, proto: Proto, ends: &[End; 2], strict: bool, kind: &str, what: &str) -> R {
    let r = results(c, ends);
    if let [Some(x), Some(y)] = &r {
        if x.key == y.key {
            return viol(format!("{kind}-agreement"), format!("{proto:?}: both ends complete with the same key although {what}"));
        }
    }
    if strict {
        for (e, f) in ends.iter().zip(&r) {
            if f.is_some() {
                return viol(format!("{kind}-completed"), format!("{proto:?}: {} completes although {what}", e.name));
            }
        }
    }
    Ok(())
}

//! Completion of a confirming exchange means the peer derived the same key.
use crate::ctx::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sea::*;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P06",
    run,
    quick: 50_000,
    thorough: 600_000,
    rule: "the protocol is enumerated over the run index; 2-3 users run 2-5 concurrent sessions of it with few distinct session identifiers and both role assignments; the network misroutes, replays, splices, alters and forges messages, with crashes and restarts; every completed confirming end must have exactly one session with the same conversation, identifier and opposite role, and the same key if that one completed.",
    real: super::REAL,
    stub: super::STUB,
};

pub fn run(c: &mut Ctx) -> R {
    let protos: Vec<Proto> = all_protos().into_iter().filter(|p| confirms(*p) && *p != Proto::Ibke(IK::SigDh)).collect();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let pw = c.password();
    let nu = 2 + c.t.draw(2) as usize;
    let u: Vec<Party> = (0..nu).map(|_| c.party(proto, &pw)).collect();
    let wrong = [0, 10, 25, 40][c.t.draw(4) as usize];
    let mut sea = Sea::new(SeaCfg { wrong, late: 0, noise: 0, crashes: c.t.draw(2), retry: true }, &pw);
    let ssids = [c.ssid(), c.ssid()];
    for _ in 0..2 + c.t.draw(4) {
        let a = c.t.draw(nu as u32) as usize;
        let b = (a + 1 + c.t.draw(nu as u32 - 1) as usize) % nu;
        let s = ssids[if c.t.chance(1, 3) { 1 } else { 0 }];
        let pre = matches!(proto, Proto::Chip(_)) || c.t.chance(1, 3);
        sea.pair(c, proto, s, &u, a, b, pre);
    }
    c.nontrivial = true;
    sea.run(c, &u)?;
    sea.confirmed(c)
}

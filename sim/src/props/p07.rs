//! Fresh keys, worthless old traffic.
use crate::ctx::*;
use crate::ent::EntFaults;
use crate::model::proto::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sea::*;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P07",
    run,
    quick: 20_000,
    thorough: 300_000,
    rule: "protocol and history (repeated concurrent and successive sessions with equal identifiers, crash and restart between them, one end with a stuck caller generator and stuck system entropy, one end rewound to a snapshot before each session, recorded traffic replayed to a later session with some messages answered freshly, repeated enrolment) are enumerated over the run index; the rest is drawn. Every run is non-trivial.",
    real: super::REAL,
    stub: super::STUB,
};

/// Does the initiator's randomness enter the key (against a responder whose randomness repeats)?
fn initiator_contributes(p: Proto) -> bool {
    !matches!(p, Proto::Pake(PK::Cake) | Proto::Chip(PK::Cake) | Proto::Ibke(IK::SigmaEd | IK::SigmaDil))
}

pub fn run(c: &mut Ctx) -> R {
    let protos = all_protos();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let how = c.t.strat(6);
    c.nontrivial = true;
    c.ev(format!("{proto:?} history {how}"));
    c.count(format!("history {how}"));
    match how {
        0 => histories(c, proto),
        1 | 2 => weak(c, proto, how == 2),
        3 | 4 => replay(c, proto),
        _ => enrolments(c, proto),
    }
}

fn histories(c: &mut Ctx, proto: Proto) -> R {
    let pw = c.password();
    let nu = 2 + c.t.draw(2) as usize;
    let u: Vec<Party> = (0..nu).map(|_| c.party(proto, &pw)).collect();
    let ssid = c.ssid();
    let mut keys = vec![];
    for round in 0..2 + c.t.draw(2) {
        let mut sea = Sea::new(SeaCfg { wrong: [0, 10][c.t.draw(2) as usize], late: 0, noise: 0, crashes: c.t.draw(2), retry: false }, &pw);
        for _ in 0..1 + c.t.draw(3) {
            let a = c.t.draw(nu as u32) as usize;
            let b = (a + 1 + c.t.draw(nu as u32 - 1) as usize) % nu;
            let s = if c.t.chance(1, 4) { c.ssid() } else { ssid };
            let pre = matches!(proto, Proto::Chip(_)) || c.t.chance(1, 3);
            sea.pair(c, proto, s, &u, a, b, pre);
        }
        sea.run(c, &u)?;
        sea.fresh(&mut keys, &format!("round {round}"))?;
        for x in &u {
            c.maybe_restart(x.node);
        }
    }
    Ok(())
}

/// One end repeats its randomness in every session.
fn weak(c: &mut Ctx, proto: Proto, rewind: bool) -> R {
    let pw = c.password();
    let u: Vec<Party> = (0..3).map(|_| c.party(proto, &pw)).collect();
    let ssid = c.ssid();
    let weak_initiates = !initiator_contributes(proto) || c.t.chance(1, 2);
    if !rewind {
        c.stick_rng(u[0].node);
        c.ent_faults(u[0].node, EntFaults { stuck: true, ..Default::default() });
        c.fault("stuck-random-source");
    }
    let mut keys: Vec<B32> = vec![];
    for k in 0..3 {
        if rewind {
            c.fault("rewound-snapshot");
            c.rewind(u[0].node);
        }
        let o = 1 + c.t.draw(2) as usize;
        let s = if c.t.chance(1, 4) { c.ssid() } else { ssid };
        let pre = matches!(proto, Proto::Chip(_)) || c.t.chance(1, 3);
        let (a, b) = if weak_initiates { (&u[0], &u[o]) } else { (&u[o], &u[0]) };
        c.ev(format!("session {k}: weak end {}", if weak_initiates { "initiates" } else { "responds" }));
        let (_, _, f) = honest(c, proto, a, b, s, pre)?;
        if keys.contains(&f[0].key) {
            return viol("key-repeats", format!("{proto:?}: two sessions have one key while only one end repeats its randomness"));
        }
        keys.push(f[0].key);
    }
    Ok(())
}

/// Recorded traffic against later sessions.
fn replay(c: &mut Ctx, proto: Proto) -> R {
    let pw = c.password();
    let a = c.party(proto, &pw);
    let b = c.party(proto, &pw);
    let ssid = c.ssid();
    let pre = matches!(proto, Proto::Chip(_)) || c.t.chance(1, 3);
    let role = if c.t.chance(1, 2) { I } else { RS };
    let mut keys = vec![];
    let mut rec: Vec<Vec<Vec<u8>>> = vec![];
    for _ in 0..1 + c.t.draw(2) {
        let (x, y) = if role == I { (&a, &b) } else { (&b, &a) };
        let (_, w, f) = honest(c, proto, x, y, ssid, pre)?;
        let from = if role == I { 1 } else { 0 };
        rec.push(w.sent.into_iter().filter(|m| m.0 == from).map(|m| m.1).collect());
        keys.push(f[0].key);
    }
    c.maybe_restart(a.node);
    // the later session of a gets only recorded messages, perhaps of several sessions
    let s2 = if c.t.chance(1, 4) { c.ssid() } else { ssid };
    let mut e = c.open(&a, s2, role, pre.then_some(b.id), "later");
    c.fault("replay");
    if role == I {
        c.step(&mut e, &[]);
    }
    for k in 0..rec[0].len() {
        if e.failed.is_some() || e.done() {
            break;
        }
        let r = c.t.draw(rec.len() as u32) as usize;
        let m = rec[r][k].clone();
        c.ev(format!("recorded message {k} of session {r}"));
        c.step(&mut e, &m);
    }
    if let Ok(f) = c.finalize(&e) {
        if keys.contains(&f.key) {
            return viol("key-repeats", format!("{proto:?}: replayed traffic yields an old key again"));
        }
        let bare_sigdh_same = proto == Proto::Ibke(IK::SigDh) && s2 == ssid;
        if confirms(proto) && !bare_sigdh_same {
            return viol("replay-completes", format!("{proto:?}: recorded traffic brings a later session to completion"));
        }
    }
    Ok(())
}

/// Enrolling twice never yields the same private credential: the public parts differ.
fn enrolments(c: &mut Ctx, proto: Proto) -> R {
    let pw = c.password();
    let id = c.id();
    if matches!(proto, Proto::Pake(_)) {
        return histories(c, proto);
    }
    let n = c.node(Default::default());
    let n2 = c.node(Default::default());
    let mut seen: Vec<Vec<u8>> = vec![];
    for k in 0..3 {
        match c.t.draw(3) {
            0 => {
                c.fault("restart");
                c.reboot(n);
            }
            _ => {}
        }
        let cred = c.enroll(n, proto, &pw, &id);
        let pid = c.id();
        let peer: Cred = Box::new(c.enroll_model(n2, proto, &pw, &pid));
        let ssid = c.ssid();
        let role = if c.t.chance(1, 2) { I } else { RS };
        let pre = matches!(proto, Proto::Chip(_)).then_some(());
        let e = c.start(n, &cred, ssid, role, pre.map(|_| pid), "new");
        let p = c.start(n2, &peer, ssid, flip(role), pre.map(|_| id), "peer");
        let mut ends = [e, p];
        relay(c, &mut ends, &mut straight);
        // public part as the independent peer received it
        let cert = ends[1].sess.peer_public();
        let Some(cert) = cert else {
            return viol("honest-session-broken", format!("{proto:?}: a fresh enrolment shows no certificate ({:?})", ends[1].failed));
        };
        c.ev(format!("enrolment {k}"));
        if seen.contains(&cert) {
            return viol("credential-repeats", format!("{proto:?}: two enrolments yield the same user key"));
        }
        seen.push(cert);
    }
    Ok(())
}

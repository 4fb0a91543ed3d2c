//! What an eavesdropper sees.
use crate::ctx::*;
use crate::model::proto::Kgc;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;
use std::collections::{HashMap, HashSet};

pub const PROP: Prop = Prop {
    id: "P12",
    run,
    quick: 20_000,
    thorough: 300_000,
    rule: "identity exchange and password exchange of the composed protocol, peer mode, role of the real end and history (sound sessions in a row, sessions driven into a decryption failure at an enumerated step, both caller generators stuck within one session, one stuck generator over several sessions, identical randomness under different passwords) are enumerated over the run index. An independent peer supplies the plaintexts; every 12-byte window of every frame is compared with every window of identities, passwords, authority keys, password hash and plaintexts, and with every other frame of the run; key stream prefixes are compared over all frames. Every run is non-trivial.",
    real: super::REAL,
    stub: super::STUB,
};
const W: usize = 12;

/// Everything an eavesdropper must not find.
#[derive(Default)]
struct Secrets(HashMap<[u8; W], &'static str>);
impl Secrets {
    fn add(&mut self, what: &'static str, b: &[u8]) {
        for w in b.windows(W) {
            self.0.insert(w.try_into().unwrap(), what);
        }
    }
    fn scan(&self, proto: Proto, f: &[u8]) -> R {
        for (i, w) in f.windows(W).enumerate() {
            if let Some(what) = self.0.get(w) {
                return viol("secret-on-the-wire", format!("{proto:?}: a frame of {} bytes contains part of {what} at {i}", f.len()));
            }
            if w.iter().all(|b| *b == w[0]) {
                return viol("secret-on-the-wire", format!("{proto:?}: a frame of {} bytes contains a constant block at {i}", f.len()));
            }
        }
        Ok(())
    }
}
/// No block of a frame ever occurs again in the run.
#[derive(Default)]
struct Unique(HashSet<[u8; W]>);
impl Unique {
    fn frame(&mut self, proto: Proto, f: &[u8], what: &str) -> R {
        let mut own = HashSet::new();
        for w in f.windows(W) {
            let w: [u8; W] = w.try_into().unwrap();
            if self.0.contains(&w) || !own.insert(w) {
                return viol("block-repeats", format!("{proto:?}: a block of a frame occurs twice on the wire ({what})"));
            }
        }
        self.0.extend(own);
        Ok(())
    }
}
fn common(s: &mut Secrets, ik: IK, pw: &[u8], ids: &[B32]) {
    s.add("the password", pw);
    s.add("the password hash", &pw_seed(pw));
    s.add("the authority key", &Kgc::of_password(ik, pw).mpk);
    for i in ids {
        s.add("an identity", i);
    }
}

pub fn run(c: &mut Ctx) -> R {
    let protos = latkes();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let Proto::Latke(ik, pk) = proto else { unreachable!() };
    c.plain_ids = true;
    let how = c.t.strat(6);
    let role = if c.t.strat(2) == 0 { I } else { RS };
    let pre = c.t.chance(1, 2);
    let st = eue_start(pk);
    let want = frames(proto);
    c.nontrivial = true;
    c.ev(format!("{proto:?} {how} pre={pre} real end {role:?}"));
    c.count(format!("history {how}"));
    let pw = {
        let n = 16 + c.t.size(60) as usize;
        c.h.bytes(n)
    };
    let mut sec = Secrets::default();
    let mut uni = Unique::default();
    let ssid = c.ssid();
    match how {
        0 | 2 | 3 => {
            // a real end against the independent peer, who knows the plaintexts
            let a = c.party(proto, &pw);
            let nb = c.node(Default::default());
            let idb = c.id();
            let b: Cred = Box::new(c.enroll_model(nb, proto, &pw, &idb));
            common(&mut sec, ik, &pw, &[a.id, idb]);
            if how != 0 {
                c.fault("stuck-random-source");
                c.stick_rng(a.node);
                if how == 2 {
                    c.stick_rng(nb);
                }
            }
            let mut streams: Vec<Vec<u8>> = vec![];
            for k in 0..if how == 2 { 1 } else { 2 + c.t.draw(2) } {
                let s = if c.t.chance(1, 3) { c.ssid() } else { ssid };
                let e = c.open(&a, s, role, pre.then_some(idb), "A");
                let p = c.start(nb, &b, s, flip(role), pre.then_some(a.id), "M");
                let mut ends = if role == I { [e, p] } else { [p, e] };
                let m = if role == I { 1 } else { 0 };
                let w = relay(c, &mut ends, &mut straight);
                if let [None, _] | [_, None] = results(c, &ends) {
                    return viol("honest-session-broken", format!("{proto:?}: {:?} {:?}", ends[0].failed, ends[1].failed));
                }
                let [sent, got] = ends[m].sess.plains();
                let mut q = [sent.into_iter(), got.into_iter()];
                for x in ends[m].sess.plains().concat() {
                    sec.add("a plaintext", &x);
                }
                for (n, (from, f)) in w.sent.iter().enumerate() {
                    // the nonce of a frame is what the caller's generator yields: with a stuck one, no secret
                    let enc = if how != 0 && n >= st { f.len().saturating_sub(EUE_OVER) } else { f.len() };
                    sec.scan(proto, &f[..enc])?;
                    if how == 0 {
                        uni.frame(proto, f, "sound randomness")?;
                    }
                    if n >= st {
                        let Some(p) = q[(*from != m) as usize].next() else { return viol("plaintext-missing", format!("{proto:?}: frame {n} is no encryption of a message")) };
                        if p.len() + EUE_OVER != f.len() {
                            return viol("length", format!("{proto:?}: frame {n} has {} bytes for a plaintext of {}", f.len(), p.len()));
                        }
                        let ks: Vec<u8> = p.iter().zip(f).map(|(a, b)| a ^ b).take(32).collect();
                        if streams.contains(&ks) {
                            return viol("key-stream-repeats", format!("{proto:?}: frame {n} of session {k} is encrypted under a key and nonce used before"));
                        }
                        streams.push(ks);
                    }
                    if f.len() != want[n] {
                        return viol("length", format!("{proto:?}: frame {n} has {} bytes instead of {}", f.len(), want[n]));
                    }
                }
            }
        }
        1 | 4 => {
            // two real ends, one or both driven into the pretence
            let a = c.party(proto, &pw);
            let b = c.party(proto, &pw);
            common(&mut sec, ik, &pw, &[a.id, b.id]);
            let stuck = how == 4;
            if stuck {
                c.fault("stuck-random-source");
                c.stick_rng(a.node);
                c.stick_rng(b.node);
            }
            for _ in 0..if stuck { 1 } else { 2 } {
                let k = st + c.t.draw((want.len() - st) as u32) as usize;
                let pr = |x: B32| pre.then_some(x);
                let mut ends = [c.open(&a, ssid, I, pr(b.id), "A"), c.open(&b, ssid, RS, pr(a.id), "B")];
                let junk = c.t.draw(3);
                c.fault("undecryptable-message");
                let w = relay(c, &mut ends, &mut |c, w, _, mut m| {
                    if w.sent.len() == k + 1 && !m.is_empty() {
                        match junk {
                            0 => {
                                let p = c.t.draw(m.len() as u32) as usize;
                                m[p] ^= 1 << c.t.draw(8);
                            }
                            1 => m = c.h.bytes(m.len()),
                            _ => m = vec![],
                        }
                    }
                    Some(m)
                });
                for (n, (_, f)) in w.sent.iter().enumerate() {
                    sec.scan(proto, f)?;
                    if !stuck {
                        uni.frame(proto, f, "failing session")?;
                    } else if n >= st && f.len() > EUE_OVER {
                        // the nonce may repeat, the encryption may not
                        uni.frame(proto, &f[..f.len() - EUE_OVER], "failing session, stuck caller generators")?;
                    }
                }
            }
        }
        _ => {
            // the same randomness under different passwords: everything that carries the password differs everywhere
            let na = c.node(Default::default());
            let ids = [c.id(), c.id()];
            let pw2 = {
                let mut x = pw.clone();
                let i = c.t.draw(x.len() as u32) as usize;
                x[i] ^= 1 << c.t.draw(8);
                x
            };
            common(&mut sec, ik, &pw, &ids);
            common(&mut sec, ik, &pw2, &ids);
            let mut all: Vec<Vec<Vec<u8>>> = vec![];
            for p in [&pw, &pw2] {
                // the independent peer's enrolment and sessions do not disturb the real end's random sources
                let n = c.node(Default::default());
                let peer: Cred = Box::new(c.enroll_model(n, proto, p, &ids[1]));
                c.rewind(na);
                let cred = c.enroll(na, proto, p, &ids[0]);
                c.rewind(na);
                let e = c.start(na, &cred, ssid, role, pre.then_some(ids[1]), "A");
                let m = c.start(n, &peer, ssid, flip(role), pre.then_some(ids[0]), "M");
                let mut ends = if role == I { [e, m] } else { [m, e] };
                let i = (role != I) as usize;
                let w = relay(c, &mut ends, &mut straight);
                for (_, f) in &w.sent {
                    sec.scan(proto, f)?;
                }
                all.push(w.sent.into_iter().filter(|x| x.0 == i).map(|x| x.1).collect());
            }
            c.fault("rewound-snapshot");
            let npake = pake_frames(pk).len().div_ceil(2);
            for (k, (x, y)) in all[0].iter().zip(&all[1]).enumerate() {
                if x.len() != y.len() {
                    return viol("length", format!("{proto:?}: message {k} has another length under another password"));
                }
                // (CPace opens with 16 bytes of public session number)
                let from = if pk == PK::Cpace && x.len() == 48 { 16 } else { 0 };
                let (x, y) = (&x[from..], &y[from..]);
                if k < npake && x.windows(W).zip(y.windows(W)).any(|(a, b)| a == b) {
                    return viol("password-not-everywhere", format!("{proto:?}: part of message {k} does not depend on the password"));
                }
            }
        }
    }
    Ok(())
}

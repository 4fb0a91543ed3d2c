//! Impersonation: Byzantine insiders and network attackers.
use crate::ctx::*;
use crate::model::proto::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;
use curve25519_dalek::ristretto::CompressedRistretto;
use latke::PartyRole;

pub const PROP: Prop = Prop {
    id: "P05",
    run,
    quick: 30_000,
    thorough: 800_000,
    rule: "protocol, role of the attacker, attack (self-issued certificate, foreign authority, relabelled own certificate, stolen certificate with own key, mixed certificate parts, missing or forged proof, reflected proof, proof for another session identifier, role or key, cancelled static key, degenerate ephemeral keys, insider where another peer was named, relayed oracle session, certificate with the victim's public key, replay of a recorded session) are enumerated over the run index; claimed identities, bits, peer mode are drawn. The attacker always knows the authority public key (so the password exchange always succeeds) and runs the full protocol with the one deviation. Every run is non-trivial.",
    real: super::REAL,
    stub: "attacker (this harness's protocol implementation, deviating where the attack says), operating system random source, transport, process boundary",
};

fn ik_of(p: Proto) -> Option<IK> {
    match p {
        Proto::Latke(i, _) | Proto::Ibke(i) => Some(i),
        _ => None,
    }
}

/// A deviation that leaves the attacker without a valid proof of the private credential.
fn broken_proof(c: &mut Ctx, ik: IK, role: PartyRole) -> (Twist, String) {
    let b = c.t.draw(4096) as usize;
    let ssid = c.ssid();
    let mut t = Twist { lenient: true, ..Default::default() };
    let sig = matches!(ik, IK::SigDh | IK::SigmaEd | IK::SigmaDil);
    let what = if sig && (ik == IK::SigDh || c.t.chance(2, 3)) {
        let echo = role == RS;
        match c.t.draw(if echo { 6 } else { 5 }) {
            0 => {
                t.sig_flip = Some(b);
                "one bit of its signature wrong"
            }
            1 => {
                t.sig_zero = true;
                "a zero signature"
            }
            2 => {
                t.sig_ssid = Some(ssid);
                "a signature for another session identifier"
            }
            3 => {
                t.sig_role = true;
                "a signature for the other role"
            }
            4 => {
                t.sig_stale = true;
                "a signature over another ephemeral key or nonce"
            }
            _ => {
                t.echo = true;
                if c.t.chance(1, 2) {
                    t.eph = Some(1);
                }
                "the victim's own proof"
            }
        }
    } else {
        let stat = !sig;
        let echo = stat && role == I;
        match c.t.draw(if echo { 8 } else if stat { 7 } else { 3 }) {
            0 => {
                t.mac_flip = Some(b);
                "one bit of its MAC wrong"
            }
            1 => {
                t.mac_zero = true;
                "a zero MAC"
            }
            2 => {
                t.mac_other = true;
                "the MAC of the other direction"
            }
            3 => {
                t.no_static = true;
                "no private key"
            }
            4 => {
                t.key_mode = 1;
                "the ephemeral secret only"
            }
            5 => {
                t.key_mode = 3;
                t.eph = Some(0);
                "the identity element"
            }
            6 => {
                t.key_mode = 3;
                "an all-zero secret"
            }
            _ => {
                t.echo = true;
                "the victim's own MAC"
            }
        }
    };
    if t.eph.is_none() && c.t.chance(1, 3) {
        t.eph = Some(4 + c.t.draw(3) as u8);
    }
    (t, what.to_string())
}
/// Any deviation at all, for an attacker who lacks the private part in the first place.
fn any_trick(c: &mut Ctx) -> Twist {
    let b = c.t.draw(4096) as usize;
    let mut t = Twist { lenient: true, ..Default::default() };
    match c.t.draw(5) {
        0 => {}
        1 => {
            t.eph = Some(c.t.draw(7) as u8);
            t.key_mode = c.t.draw(4) as u8;
        }
        2 => {
            t.key_mode = c.t.draw(4) as u8;
            t.no_static = c.t.chance(1, 2);
        }
        3 => {
            t.echo = true;
            t.eph = [None, Some(1)][c.t.draw(2) as usize];
        }
        _ => {
            t.eph = Some(3);
            t.no_static = true;
            t.mac_other = c.t.chance(1, 4);
            if c.t.chance(1, 4) {
                t.sig_zero = true;
            }
            if c.t.chance(1, 4) {
                t.sig_flip = Some(b);
            }
        }
    }
    t
}

pub fn run(c: &mut Ctx) -> R {
    let protos: Vec<Proto> = [latkes(), ibkes(), ibkes(), chips()].concat();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let arole = if c.t.strat(2) == 0 { I } else { RS };
    let scen = c.t.strat(12);
    let pw = c.password();
    c.nontrivial = true;
    c.count(format!("attack {scen}"));
    match ik_of(proto) {
        None => chip(c, proto, arole, scen, &pw),
        Some(ik) => identity(c, proto, ik, arole, scen, &pw),
    }
}

fn identity(c: &mut Ctx, proto: Proto, ik: IK, arole: PartyRole, scen: u32, pw: &[u8]) -> R {
    let a = c.party(proto, pw);
    let m = c.node(Default::default());
    let mid = c.id();
    // now and then the attacker claims the victim's own name
    let xid = if c.t.chance(1, 4) { a.id } else { c.id() };
    let kgc = Kgc::of_password(ik, pw);
    let mut g = PRng::new(mix(c.seed, 77));
    // the attacker's own credential and that of the impersonated user, of the same authority
    let own = kgc.issue(&mut g, &mid);
    let vic = kgc.issue(&mut g, &xid);
    let ssid = c.ssid();
    // the victim's process has met their real holders before, under this password or another one
    if c.t.chance(1, 3) {
        for k in 0..3 {
            let holder = [&vic, &own, &vic][k];
            if c.t.chance(1, 2) || holder.id == a.id {
                continue;
            }
            let s = if c.t.chance(1, 2) { ssid } else { c.ssid() };
            let role = if c.t.chance(2, 3) { arole } else { flip(arole) };
            acquaint(c, proto, ik, &a, m, pw, holder.clone(), s, role, k == 2)?;
        }
    }
    let mut pre = c.t.chance(1, 2);
    let mut usk = own.clone();
    let mut claimed = xid;
    // identity the attacker put into the password exchange when the victim named its peer
    let mut named = None;
    // may the victim complete, and then with whom
    let mut may: Option<B32> = None;
    let (mut tw, what): (Twist, String) = match scen {
        0 => {
            // issued by itself or by an authority of another password
            let mut f = Kgc::foreign(ik, &mut g);
            let mut fpw = None;
            if c.t.chance(1, 2) {
                let p = c.password();
                f = Kgc::of_password(ik, &p);
                fpw = Some(p);
            }
            if f.mpk == kgc.mpk {
                return Ok(());
            }
            let x = f.issue(&mut g, &xid);
            if let Some(p) = fpw.filter(|_| c.t.chance(1, 2)) {
                // a user of that authority on the same machine knows the certificate already
                let id = c.id();
                let b = Party { node: a.node, id, cred: c.enroll(a.node, proto, &p, &id) };
                acquaint(c, proto, ik, &b, m, &p, x.clone(), ssid, arole, false)?;
            }
            usk = x.clone();
            usk.mpk = kgc.mpk.clone();
            (Twist { cert: Some(x.cert), lenient: true, ..Default::default() }, "with a certificate of another authority".into())
        }
        1 => {
            // own certificate, relabelled
            let mut cert = own.cert.clone();
            if c.t.chance(1, 2) {
                let b = c.t.draw(256) as usize;
                cert[b / 8] ^= 1 << (b % 8);
                claimed = cert[..32].try_into().unwrap();
            } else {
                cert[..32].copy_from_slice(&xid);
            }
            (Twist { cert: Some(cert), lenient: true, ..Default::default() }, "with its own certificate relabelled".into())
        }
        2 => {
            let mut t = any_trick(c);
            t.cert = Some(vic.cert.clone());
            let w = format!("with a stolen certificate ({t:?})");
            (t, w.split("cert: Some").next().unwrap().to_string() + "...)")
        }
        3 => {
            // parts of two certificates, or the own key under the other's signature
            let (u, s) = (upk_len(ik), sig_len(ik));
            let mut cert = vic.cert.clone();
            match c.t.draw(3) {
                0 => cert[32..32 + u].copy_from_slice(&own.cert[32..32 + u.min(own.cert.len() - 32)]),
                1 if ik != IK::Fg => {
                    let n = cert.len();
                    cert[..n - s].copy_from_slice(&own.cert[..n - s]);
                    claimed = mid;
                }
                _ if ik == IK::SigDh => {
                    // own signing key, victim's other key, or the other way round
                    let at = 32 + 32 * c.t.draw(2) as usize;
                    cert[at..at + 32].copy_from_slice(&own.cert[at..at + 32]);
                }
                _ => cert[32..32 + u.min(32)].copy_from_slice(&own.cert[32..32 + u.min(32)]),
            }
            (Twist { cert: Some(cert), lenient: true, ..Default::default() }, "with a certificate put together from two".into())
        }
        4 => {
            let (t, w) = broken_proof(c, ik, arole);
            claimed = mid;
            (t, format!("with {w}"))
        }
        5 => {
            // one bit of an otherwise right certificate signature or key
            let mut cert = own.cert.clone();
            let n = cert.len();
            let b = c.t.draw(n as u32 * 8) as usize;
            cert[b / 8] ^= 1 << (b % 8);
            claimed = cert[..32].try_into().unwrap();
            (Twist { cert: Some(cert), lenient: true, ..Default::default() }, format!("with bit {b} of its certificate flipped"))
        }
        6 => {
            // insider: valid credential, but the victim named somebody else
            pre = true;
            named = Some(xid);
            if !matches!(proto, Proto::Latke(..)) {
                may = Some(mid);
            }
            (Twist { lenient: true, ..Default::default() }, "while another peer was named".into())
        }
        7 => {
            // control: an insider under its own name
            claimed = mid;
            may = Some(mid);
            (Twist { lenient: true, ..Default::default() }, "under its own name".into())
        }
        8 => {
            // certificate without any signature, or signed by the user's own key
            if ik == IK::Fg {
                let mut cert = own.cert.clone();
                cert[..32].copy_from_slice(&xid);
                cert[32..64].copy_from_slice(&kgc.mpk);
                (Twist { cert: Some(cert), eph: Some(3), lenient: true, ..Default::default() }, "with the authority's key as user key".into())
            } else {
                let n = own.cert.len();
                let s = sig_len(ik);
                let mut cert = [&xid[..], &own.cert[32..n - s], &vec![0; s][..]].concat();
                if c.t.chance(1, 2) {
                    let k = Kgc { ik, mpk: vec![], msk: match &own.usk {
                        Usk::Ed(k) | Usk::SigDh(k, _) => Msk::Ed(k.clone()),
                        Usk::Dil(k) => Msk::Dil(k.clone()),
                        _ => Kgc::foreign(ik, &mut g).msk,
                    } };
                    cert = k.certify(&xid, &own.cert[32..n - s]);
                }
                (Twist { cert: Some(cert), lenient: true, ..Default::default() }, "with a self-signed or unsigned certificate".into())
            }
        }
        9 => return oracle(c, proto, ik, pw, &a, ssid),
        10 => return duplicate_key(c, proto, ik, pw, &kgc),
        _ => return replayed(c, proto, pw, &a),
    };
    tw.lenient = true;
    c.ev(format!("{proto:?} attacker is {} pre={pre}: {what}", if arole == I { "initiator" } else { "responder" }));
    c.fault("byzantine-peer");
    let peer = pre.then_some(named.unwrap_or(claimed));
    let e = against(c, proto, &a, m, usk, ssid, arole, peer, tw, &kgc);
    let r = c.finalize(&e).ok();
    c.ev(format!("victim completed: {}", r.is_some()));
    match (&r, may) {
        (None, Some(_)) if scen == 7 => viol("insider-refused", format!("{proto:?}: an honest-behaving enrolled peer is refused: {:?}", e.failed)),
        (Some(f), Some(ok)) if f.id == Some(ok) => {
            c.count("completed under the attacker's own name");
            Ok(())
        }
        (Some(f), _) => viol(
            "impersonation",
            format!("{proto:?}: a {} completes with {} by an attacker {what}", if arole == I { "responder" } else { "initiator" }, if f.id == Some(xid) { "the impersonated identity, claimed" } else { "an identity reported, exchanged" }),
        ),
        _ => Ok(()),
    }
}

/// A session of a with somebody at node m who holds (or pretends to hold) a credential.
#[allow(clippy::too_many_arguments)]
fn against(c: &mut Ctx, proto: Proto, a: &Party, m: usize, usk: MCred, ssid: B32, arole: PartyRole, peer: Option<B32>, tw: Twist, kgc: &Kgc) -> End {
    let mut e = c.open(a, ssid, flip(arole), peer, "victim");
    let sess: Box<dyn Sess> = match proto {
        Proto::Latke(_, pk) => {
            let mut input = kgc.mpk.clone();
            if let Some(p) = peer {
                input.extend(if arole == I { [p, a.id].concat() } else { [a.id, p].concat() });
            }
            let st = &mut c.nodes[m];
            let rng = &mut st.rng;
            Box::new(st.node.exec(move || MSess::Latke(MLatke::with_input(pk, rng, ssid, usk, arole, None, tw, &input))))
        }
        _ => Box::new(MSess::Ibke(MIbke::new(usk, ssid, arole, tw))),
    };
    let mut att = End { node: m, sess, role: arole, name: "attacker".into(), sent: vec![], got: vec![], failed: None, steps: 0 };
    versus(c, &mut e, &mut att);
    e
}
/// An honest session with the holder of a credential, on the victim's machine (or, elsewhere, in the same process).
#[allow(clippy::too_many_arguments)]
fn acquaint(c: &mut Ctx, proto: Proto, ik: IK, a: &Party, m: usize, pw: &[u8], usk: MCred, ssid: B32, role: PartyRole, elsewhere: bool) -> R {
    let kgc = Kgc::of_password(ik, pw);
    let id = usk.id;
    let other;
    let by = if elsewhere {
        other = c.party(proto, pw);
        &other
    } else {
        a
    };
    let peer = c.t.chance(1, 2).then_some(id);
    c.count("earlier session with the holder");
    let e = against(c, proto, by, m, usk, ssid, role, peer, Twist { lenient: true, ..Default::default() }, &kgc);
    match c.finalize(&e) {
        Ok(f) if f.id == Some(id) => Ok(()),
        _ => viol("insider-refused", format!("{proto:?}: an enrolled peer is refused: {:?}", e.failed)),
    }
}

/// The two talk until nothing moves; the attacker keeps talking after its own errors.
fn versus(c: &mut Ctx, v: &mut End, a: &mut End) {
    let mut msg = vec![];
    let mut turn_attacker = a.role == I;
    for _ in 0..14 {
        let e: &mut End = if turn_attacker { a } else { v };
        if !turn_attacker && (e.failed.is_some() || e.done()) {
            break;
        }
        let was_done = e.done();
        let s = c.step(e, &msg);
        msg = if s.ok() || !turn_attacker {
            s.frame()
        } else if was_done {
            break;
        } else {
            c.h.bytes(32)
        };
        turn_attacker = !turn_attacker;
    }
}

/// The attacker forwards a session of the impersonated user that was meant for somebody or something else.
fn oracle(c: &mut Ctx, proto: Proto, ik: IK, pw: &[u8], a: &Party, ssid: B32) -> R {
    let x = c.party(proto, pw);
    let mut s2 = ssid;
    let arole = if c.t.chance(1, 2) { I } else { RS };
    let same_role = c.t.chance(1, 2);
    if !same_role || c.t.chance(1, 2) {
        let b = c.t.draw(256) as usize;
        s2[b / 8] ^= 1 << (b % 8);
    }
    let xrole = if same_role { arole } else { flip(arole) };
    c.fault("byzantine-relay");
    c.ev(format!("{proto:?} session of another user forwarded, same role {same_role}, same identifier {}", s2 == ssid));
    let mut e = [c.open(a, ssid, arole, None, "victim"), c.open(&x, s2, xrole, None, "oracle")];
    relay(c, &mut e, &mut straight);
    // the identifier of the bare Fiore-Gennaro exchange only enters its key
    if proto == Proto::Ibke(IK::Fg) && !same_role {
        return no_agreement(c, proto, &e, false, "forwarded", "the sessions have different identifiers");
    }
    let _ = ik;
    no_agreement(c, proto, &e, true, "forwarded", "one of them is forwarded from a session with another identifier or role")
}

/// The attacker has the victim's public key certified under its own name and relays, swapping certificates.
fn duplicate_key(c: &mut Ctx, proto: Proto, ik: IK, pw: &[u8], kgc: &Kgc) -> R {
    let Proto::Ibke(_) = proto else { return Ok(()) };
    if ik != IK::Hmqv {
        return Ok(());
    }
    let p = [c.party(proto, pw), c.party(proto, pw)];
    let mid = c.id();
    let ssid = c.ssid();
    let tgt = c.t.draw(2) as usize; // whose certificate is swapped on the way
    c.fault("byzantine-relay");
    c.ev(format!("{proto:?} certificate of end {tgt} swapped for one with the same key"));
    let mut e = [c.open(&p[0], ssid, I, None, "A"), c.open(&p[1], ssid, RS, None, "B")];
    let kgc = kgc.clone();
    relay(c, &mut e, &mut |_, _, to, mut m| {
        let at = match m.len() {
            160 => 32,
            192 => 64,
            _ => return Some(m),
        };
        if to == 1 - tgt {
            let cert = kgc.certify(&mid, &m[at + 32..at + 64]);
            m[at..].copy_from_slice(&cert);
        }
        Some(m)
    });
    no_agreement(c, proto, &e, true, "unknown-key-share", "one was shown another identity for its peer's key")
}

/// A recorded session of the impersonated user is played back.
fn replayed(c: &mut Ctx, proto: Proto, pw: &[u8], a: &Party) -> R {
    let x = c.party(proto, pw);
    let s1 = c.ssid();
    let role = if c.t.chance(1, 2) { I } else { RS };
    let (first, second) = if role == I { (a, &x) } else { (&x, a) };
    let (_, w, _) = honest(c, proto, first, second, s1, false)?;
    // the same identifier again, except where only the identifier distinguishes sessions
    let s2 = if proto == Proto::Ibke(IK::SigDh) || c.t.chance(1, 3) { c.ssid() } else { s1 };
    c.fault("replay");
    c.ev(format!("{proto:?} recorded session replayed, same identifier {}", s1 == s2));
    let mut e = c.open(a, s2, role, None, "victim");
    let xs = if role == I { 1 } else { 0 };
    if role == I {
        c.step(&mut e, &[]);
    }
    for (_, m) in w.sent.iter().filter(|f| f.0 == xs) {
        if e.failed.is_some() || e.done() {
            break;
        }
        c.step(&mut e, m);
    }
    if c.finalize(&e).is_ok() {
        return viol("replay-completes", format!("{proto:?}: a recorded session completes again"));
    }
    Ok(())
}

/// The baseline: whoever ends up with the victim's key must hold the credential of the named peer.
fn chip(c: &mut Ctx, proto: Proto, arole: PartyRole, scen: u32, pw: &[u8]) -> R {
    let Proto::Chip(pk) = proto else { unreachable!() };
    let a = c.party(proto, pw);
    let m = c.node(Default::default());
    let mid = c.id();
    // now and then the attacker claims the victim's own name
    let xid = if c.t.chance(1, 4) { a.id } else { c.id() };
    let mut g = PRng::new(mix(c.seed, 77));
    let own = chip_issue(&mut g, pw, &mid);
    let vic = chip_issue(&mut g, pw, &xid);
    let ssid = c.ssid();
    let mut cred = own.clone();
    if c.t.chance(1, 4) && xid != a.id {
        // the victim has met the holder before
        let s = if c.t.chance(1, 2) { ssid } else { c.ssid() };
        let mut e = c.open(&a, s, flip(arole), Some(xid), "victim");
        let sess = Box::new(MSess::Chip(MChip::new(pk, s, vic.clone(), arole, a.id, Twist { lenient: true, ..Default::default() })));
        let mut h = End { node: m, sess, role: arole, name: "holder".into(), sent: vec![], got: vec![], failed: None, steps: 0 };
        versus(c, &mut e, &mut h);
        c.count("earlier session with the holder");
        if !matches!((c.finalize(&e), c.finalize(&h)), (Ok(x), Ok(y)) if x.key == y.key) {
            return viol("insider-refused", format!("{proto:?}: an enrolled peer is refused: {:?}", e.failed));
        }
    }
    let mut tw = Twist { lenient: true, ..Default::default() };
    let mut peer = xid;
    let mut may = false;
    let what = match scen {
        0 => {
            // credential of another password
            let mut p2 = pw.to_vec();
            p2.push(0);
            let f = chip_issue(&mut g, &p2, &xid);
            cred.X = f.X;
            cred.xhat = f.xhat;
            cred.id = xid;
            "a credential of another password"
        }
        1 => {
            cred.id = xid;
            "its own credential under another name"
        }
        2 | 3 | 8 => {
            tw.cert = Some([&xid[..], &vic.X].concat());
            tw.eph = [None, Some(3), Some(0), Some(3)][c.t.draw(4) as usize];
            tw.key_mode = c.t.draw(4) as u8;
            tw.no_static = c.t.chance(1, 2);
            cred.X = vic.X;
            "the public part of the named peer's credential"
        }
        4 | 5 => {
            // X chosen to cancel the authority key: X = xG - hY cannot be solved, but a guess with the old h is tried
            let x = CompressedRistretto(own.X).decompress().unwrap();
            let h = -curve25519_dalek::scalar::Scalar::ONE;
            cred.X = (x + own.Y * h).compress().to_bytes();
            tw.no_static = c.t.chance(1, 2);
            tw.key_mode = c.t.draw(4) as u8;
            "a user key built from the authority key"
        }
        6 => "its own credential while another peer was named",
        7 => {
            peer = mid;
            may = true;
            "its own credential under its own name"
        }
        9 => return chip_oracle(c, proto, pw, &a),
        _ => {
            tw.eph = Some(0);
            tw.key_mode = 3;
            "degenerate keys"
        }
    };
    c.fault("byzantine-peer");
    c.ev(format!("{proto:?} attacker with {what}"));
    let mut e = c.open(&a, ssid, flip(arole), Some(peer), "victim");
    let sess = Box::new(MSess::Chip(MChip::new(pk, ssid, cred, arole, a.id, tw)));
    let mut att = End { node: m, sess, role: arole, name: "attacker".into(), sent: vec![], got: vec![], failed: None, steps: 0 };
    versus(c, &mut e, &mut att);
    let (rv, ra) = (c.finalize(&e).ok(), c.finalize(&att).ok());
    let same = matches!((&rv, &ra), (Some(x), Some(y)) if x.key == y.key);
    if may {
        if !same {
            return viol("insider-refused", format!("{proto:?}: an honest-behaving enrolled peer is refused: {:?}", e.failed));
        }
        return Ok(());
    }
    if same || (confirms(proto) && rv.is_some()) {
        return viol("impersonation", format!("{proto:?}: a session naming its peer completes with an attacker using {what}"));
    }
    Ok(())
}
fn chip_oracle(c: &mut Ctx, proto: Proto, pw: &[u8], a: &Party) -> R {
    let x = c.party(proto, pw);
    let t = c.b32();
    let ssid = c.ssid();
    c.fault("byzantine-relay");
    c.ev(format!("{proto:?} session meant for a third party forwarded"));
    // x believes it talks to t, a believes it talks to x
    let mut e = [c.open(a, ssid, I, Some(x.id), "victim"), c.open(&x, ssid, RS, Some(t), "oracle")];
    relay(c, &mut e, &mut straight);
    no_agreement(c, proto, &e, confirms(proto), "forwarded", "one of them named a third party")
}

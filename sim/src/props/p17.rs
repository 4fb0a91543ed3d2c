//! Malformed messages give errors, never crashes.
use crate::ctx::*;
use crate::model::proto::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P17",
    run,
    quick: 120_000,
    thorough: 1_500_000,
    rule: "protocol with an error result (password exchanges, identity exchanges, baseline), the step that receives the bad message, the kind of content and the length are enumerated over the run index: all short lengths, lengths around the honest one, long ones; contents random, constant, mutated honest messages, encodings of special group elements, and messages of a malicious insider that are valid up to their innermost part. A session is used until its first error. Every run is non-trivial.",
    real: super::REAL,
    stub: "attacker, operating system random source, transport, process boundary",
};

/// Encodings worth trying where a group element, scalar or key is expected.
fn special(c: &mut Ctx) -> B32 {
    let mut b = [0u8; 32];
    match c.t.draw(12) {
        0 => {}
        1 => b[0] = 1,
        2 => b = [0xff; 32],
        3 => b[31] = 0x80,
        4 => {
            b = [0xff; 32];
            b[0] = 0xec;
            b[31] = 0x7f;
        }
        5 => {
            b = [0xff; 32];
            b[0] = 0xed;
            b[31] = 0x7f;
        }
        6 => {
            b = [0xff; 32];
            b[0] = 0xee;
            b[31] = 0x7f;
        }
        7 => b[0] = 2,
        8 => {
            // a point of order 8 on Curve25519 (u)
            b = [
                0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1,
                0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00,
            ]
        }
        9 => {
            // a small-order Edwards point
            b = [
                0x26, 0xe8, 0x95, 0x8f, 0xc2, 0xb2, 0x27, 0xb0, 0x45, 0xc3, 0xf4, 0x89, 0xf2, 0xef, 0x98, 0xf0, 0xd5, 0xdf, 0xac, 0x05, 0xd3, 0xc6, 0x33,
                0x39, 0xb1, 0x38, 0x02, 0x88, 0x6d, 0x53, 0xfc, 0x05,
            ]
        }
        10 => b = curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED.0,
        _ => b = c.b32(),
    }
    b
}
fn length(c: &mut Ctx, s: u32, honest: usize) -> usize {
    match s {
        0..=139 => s as usize,
        140..=159 => (honest + 150).saturating_sub(s as usize),
        160..=170 => [160usize, 192, 255, 256, 257, 268, 672, 704, 736, 768, 6260][s as usize - 160],
        171 => 70_000,
        _ => c.t.size(8000) as usize,
    }
}
fn fill(c: &mut Ctx, kind: u32, n: usize, honest: &[u8]) -> Vec<u8> {
    let mut x = honest.to_vec();
    x.resize(n, 0);
    match kind {
        0 => x = c.h.bytes(n),
        1 => x = vec![*c.t.pick(&[0u8, 0xff, 0x80, 1]); n],
        2 => {}
        3 if n > 0 => {
            for _ in 0..1 + c.t.draw(4) {
                let p = c.t.draw(n as u32) as usize;
                x[p] = c.t.draw(256) as u8;
            }
        }
        4 => {
            for f in x.chunks_mut(32) {
                if c.t.chance(1, 3) {
                    let s = special(c);
                    let l = f.len();
                    f.copy_from_slice(&s[..l]);
                }
            }
        }
        5 if n > 33 => {
            // fields that start at odd places
            let at = c.t.draw((n - 32) as u32) as usize;
            let s = special(c);
            x[at..at + 32].copy_from_slice(&s);
        }
        6 => {
            let k = c.t.draw(n as u32 + 1) as usize;
            let r = c.h.bytes(n - k);
            x[k..].copy_from_slice(&r);
        }
        _ => {
            x.rotate_left(if n > 0 { c.t.draw(n as u32) as usize } else { 0 });
        }
    }
    x
}

pub fn run(c: &mut Ctx) -> R {
    let protos: Vec<Proto> = [pakes(), ibkes(), chips()].concat();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let want = frames(proto);
    let k = c.t.strat(6) as usize % want.len();
    let kind = c.t.strat(10);
    let ls = c.t.strat(200);
    let pw = c.password();
    c.nontrivial = true;
    c.ev(format!("{proto:?} frame {k} kind {kind} length {ls}"));
    if kind >= 8 {
        if let Proto::Ibke(ik) = proto {
            return insider(c, proto, ik, &pw);
        }
    }
    let a = c.party(proto, &pw);
    let b = c.party(proto, &pw);
    let ssid = c.ssid();
    let pre = matches!(proto, Proto::Chip(_));
    let pr = |x: B32| pre.then_some(x);
    let mut ends = [c.open(&a, ssid, I, pr(b.id), "A"), c.open(&b, ssid, RS, pr(a.id), "B")];
    let mut n = 0;
    c.fault("malformed-message");
    relay(c, &mut ends, &mut |c, _, _, m| {
        n += 1;
        if n - 1 < k {
            return Some(m);
        }
        if n - 1 > k && c.t.chance(1, 2) {
            return Some(m);
        }
        // around the honest length more often
        let len = if n - 1 > k || c.t.chance(1, 3) { m.len() } else { length(c, ls, m.len()) };
        Some(fill(c, kind % 8, len, &m))
    });
    crashed(c, proto, &ends)
}
fn crashed(c: &mut Ctx, proto: Proto, ends: &[End; 2]) -> R {
    for e in ends {
        if let Some(Step::Panic(p)) = &e.failed {
            let last = e.got.last().map(|m| m.len()).unwrap_or(0);
            return viol(format!("crash-{proto:?}"), format!("{proto:?}: {} crashes on a message of {last} bytes at its step {}: {p}", e.name, e.steps - 1));
        }
        if matches!(e.failed, Some(Step::Err(_))) {
            c.count("errors reported");
        }
    }
    Ok(())
}
/// A certified insider whose messages are well-formed on the outside.
fn insider(c: &mut Ctx, proto: Proto, ik: IK, pw: &[u8]) -> R {
    let a = c.party(proto, pw);
    let m = c.node(Default::default());
    let mid = c.id();
    let kgc = Kgc::of_password(ik, pw);
    let mut g = PRng::new(mix(c.seed, 78));
    let mut own = kgc.issue(&mut g, &mid);
    let mut tw = Twist { lenient: true, ..Default::default() };
    match c.t.draw(5) {
        0 if ik != IK::Fg => {
            // properly certified nonsense as user key
            let mut upk = c.h.bytes(upk_len(ik));
            for f in upk.chunks_mut(32).take(2) {
                let s = special(c);
                f.copy_from_slice(&s[..f.len()]);
            }
            own.cert = kgc.certify(&mid, &upk);
        }
        0 => {
            let s = special(c);
            own.cert[32..].copy_from_slice(&s);
        }
        1 => {
            let n = c.t.size(7000) as usize;
            tw.body = Some(c.h.bytes(n));
        }
        2 => {
            // body cut or extended around its right length, certificate in place
            let sl = sig_len(ik) + 32;
            let mut b = [c.h.bytes(sl), own.cert.clone()].concat();
            let d = c.t.draw(80) as usize;
            if c.t.chance(1, 2) {
                b.truncate(b.len().saturating_sub(d));
            } else {
                b.extend(vec![0; d]);
            }
            tw.body = Some(b);
        }
        3 => {
            tw.eph = Some(c.t.draw(4) as u8);
            tw.key_mode = c.t.draw(4) as u8;
        }
        _ => {
            let b = c.t.draw(20000) as usize;
            tw.sig_flip = Some(b);
            let n = own.cert.len();
            let p = b % n;
            own.cert[p] ^= 1 << (b % 8);
        }
    }
    let ssid = c.ssid();
    let arole = if c.t.chance(1, 2) { I } else { RS };
    c.fault("byzantine-peer");
    let e = c.open(&a, ssid, flip(arole), None, "victim");
    let att = End { node: m, sess: Box::new(MSess::Ibke(MIbke::new(own, ssid, arole, tw))), role: arole, name: "attacker".into(), sent: vec![], got: vec![], failed: None, steps: 0 };
    let mut ends = if arole == I { [att, e] } else { [e, att] };
    relay(c, &mut ends, &mut straight);
    let v = if arole == I { 1 } else { 0 };
    if let Some(Step::Panic(p)) = &ends[v].failed {
        return viol(format!("crash-{proto:?}"), format!("{proto:?}: an insider crashes its peer: {p}"));
    }
    Ok(())
}

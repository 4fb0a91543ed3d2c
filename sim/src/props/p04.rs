//! Altered, misrouted, spliced messages.
use crate::ctx::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P04",
    run,
    quick: 90_000,
    thorough: 1_000_000,
    rule: "protocol, altered frame, kind of alteration (bit flip, byte change, truncation, extension, empty, constant, random, own message reflected, message of another step, same step of a session of other ends / the same ends / the same session identifier, splices, exchanged parts, other encodings of a scalar or field element, removal) are enumerated over the run index; the position is drawn, one half near the end or around multiples of 32; up to two further alterations, related or not, are drawn. Every run with an effective alteration is non-trivial.",
    real: super::REAL,
    stub: super::STUB,
};

const L: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];
fn p25519() -> [u8; 32] {
    let mut p = [0xff; 32];
    p[0] = 0xed;
    p[31] = 0x7f;
    p
}
fn add(a: &mut [u8], b: &[u8; 32]) {
    let mut k = 0u16;
    for (x, y) in a.iter_mut().zip(b) {
        k += *x as u16 + *y as u16;
        *x = k as u8;
        k >>= 8;
    }
}
fn neg(a: &mut [u8], m: &[u8; 32]) {
    let mut k = 0i16;
    for (x, y) in a.iter_mut().zip(m) {
        k += *y as i16 - *x as i16;
        *x = k as u8;
        k >>= 8;
    }
}

const KINDS: u32 = 20;
/// Other traffic an alteration may draw from.
struct Pool {
    /// frames of recorded sessions, by session
    other: Vec<Vec<Vec<u8>>>,
}

#[allow(clippy::too_many_arguments)]
fn alter(c: &mut Ctx, kind: u32, pos: usize, k: usize, to: usize, m: &[u8], w: &Wire, pool: &Pool) -> Option<(Option<Vec<u8>>, String)> {
    let n = m.len();
    let mut x = m.to_vec();
    let at = if n > 0 { pos % n } else { 0 };
    let foreign = |c: &mut Ctx| -> Option<Vec<u8>> {
        if pool.other.is_empty() {
            return None;
        }
        let o = &pool.other[c.t.draw(pool.other.len() as u32) as usize];
        o.get(k).cloned()
    };
    let what = match kind {
        0..=3 if n > 0 => {
            let b = c.t.draw(8);
            x[at] ^= 1 << b;
            format!("bit {b} of byte {at} flipped")
        }
        4 if n > 0 => {
            let d = 1 + c.t.draw(255) as u8;
            x[at] = x[at].wrapping_add(d);
            format!("byte {at} changed")
        }
        5 if n > 0 => {
            x.truncate(at);
            format!("truncated to {at} bytes")
        }
        6 => {
            let k = 1 + c.t.size(400) as usize;
            let e = if c.t.chance(1, 2) { vec![0; k] } else { c.h.bytes(k) };
            if c.t.chance(1, 4) {
                x = [e, x].concat();
                format!("{k} bytes put in front")
            } else {
                x.extend(e);
                format!("{k} bytes appended")
            }
        }
        7 => {
            x = vec![];
            "emptied".into()
        }
        8 => {
            let v = *c.t.pick(&[0u8, 0xff, 1]);
            x = vec![v; n];
            format!("all bytes {v}")
        }
        9 => {
            x = c.h.bytes(n);
            "random bytes".into()
        }
        10 => {
            // reflection: something the receiver itself sent
            let own: Vec<&Vec<u8>> = w.sent.iter().filter(|(s, _)| *s == to).map(|(_, f)| f).collect();
            if own.is_empty() {
                return None;
            }
            x = own[c.t.draw(own.len() as u32) as usize].clone();
            "reflected".into()
        }
        11 => {
            // another step of this session
            let i = c.t.draw(w.sent.len() as u32) as usize;
            x = w.sent[i].1.clone();
            format!("frame {i} again")
        }
        12 | 13 => {
            x = foreign(c)?;
            "same step of another session".into()
        }
        14 if n > 1 => {
            // head of this message, tail of the other session's, or the other way round
            let f = foreign(c)?;
            if f.len() != n {
                return None;
            }
            let cut = if c.t.chance(1, 2) { at } else { at / 32 * 32 };
            if c.t.chance(1, 2) {
                x[..cut].copy_from_slice(&f[..cut]);
                format!("head up to {cut} from another session")
            } else {
                x[cut..].copy_from_slice(&f[cut..]);
                format!("tail from {cut} from another session")
            }
        }
        15 if n >= 64 => {
            // one field of the other session's message
            let f = foreign(c)?;
            if f.len() != n {
                return None;
            }
            let s = at / 32 * 32;
            let len = (32 * (1 + c.t.draw(4) as usize)).min(n - s);
            x[s..s + len].copy_from_slice(&f[s..s + len]);
            format!("bytes {s}..{} from another session", s + len)
        }
        16 if n >= 64 => {
            // two fields exchanged
            let b = n / 32;
            let (i, j) = (pos % b, c.t.draw(b as u32) as usize);
            for o in 0..32 {
                x.swap(32 * i + o, 32 * j + o);
            }
            format!("32-byte fields {i} and {j} exchanged")
        }
        17 if n >= 32 => {
            let s = pos % (n / 32) * 32;
            let f = &mut x[s..s + 32];
            match c.t.draw(6) {
                0 => add(f, &L),
                1 => neg(f, &L),
                2 => add(f, &p25519()),
                3 => neg(f, &p25519()),
                4 => f.fill(0),
                _ => f[31] ^= 0x80,
            }
            format!("other encoding in bytes {s}..{}", s + 32)
        }
        18 if n >= 32 => {
            // field of the receiver's own earlier message
            let own: Vec<&Vec<u8>> = w.sent.iter().filter(|(s, f)| *s == to && f.len() >= 32).map(|(_, f)| f).collect();
            if own.is_empty() {
                return None;
            }
            let o = own[c.t.draw(own.len() as u32) as usize];
            let a = if c.t.chance(1, 4) { n - 32 } else { pos % (n / 32) * 32 };
            let b = match c.t.draw(4) {
                0 => o.len() - 32,
                1 => c.t.draw(o.len() as u32 - 31) as usize,
                _ => c.t.draw((o.len() / 32) as u32) as usize * 32,
            };
            x[a..a + 32].copy_from_slice(&o[b..b + 32]);
            format!("bytes {a}..{} replaced by the receiver's own bytes {b}..", a + 32)
        }
        19 => return Some((None, "removed".into())),
        _ => return None,
    };
    if x == m {
        return None;
    }
    Some((Some(x), what))
}

pub fn run(c: &mut Ctx) -> R {
    let protos = all_protos();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let sizes = frames(proto);
    let nf = sizes.len();
    let target = c.t.strat(8) as usize % nf;
    let kind = c.t.strat(KINDS);
    let pos = c.t.place(sizes[target] as u32) as usize;
    let pre = c.t.chance(1, 2) || matches!(proto, Proto::Chip(_));
    let pw = c.password();
    let a = c.party(proto, &pw);
    let b = c.party(proto, &pw);
    let ssid = c.ssid();
    // recorded traffic of other sessions
    let mut pool = Pool { other: vec![] };
    let rec = |w: Wire| w.sent.into_iter().map(|x| x.1).collect::<Vec<_>>();
    if (10..19).contains(&kind) || c.t.chance(1, 6) {
        match c.t.draw(4) {
            0 => {
                let s2 = c.ssid();
                pool.other.push(rec(honest(c, proto, &a, &b, s2, pre)?.1));
            }
            1 => pool.other.push(rec(honest(c, proto, &a, &b, ssid, pre)?.1)),
            2 => pool.other.push(rec(honest(c, proto, &b, &a, ssid, pre)?.1)),
            _ => {
                let t = c.party(proto, &pw);
                pool.other.push(rec(honest(c, proto, &a, &t, ssid, pre)?.1));
                pool.other.push(rec(honest(c, proto, &t, &b, ssid, pre)?.1));
            }
        }
    }
    // up to three alterations; related ones apply the same change at the next frame too
    let mut plan = vec![(target, kind, pos)];
    match c.t.draw(8) {
        0 => plan.push(((target + 1) % nf, kind, pos)),
        1 => {
            for _ in 0..1 + c.t.draw(2) {
                plan.push((c.t.draw(nf as u32) as usize, c.t.draw(KINDS), c.t.draw(6304) as usize));
            }
        }
        _ => {}
    }
    let pr = |x: B32| pre.then_some(x);
    let mut ends = [c.open(&a, ssid, I, pr(b.id), "A"), c.open(&b, ssid, RS, pr(a.id), "B")];
    // which end has received something that was not sent, and what
    let mut bad: [Option<String>; 2] = [None, None];
    let mut k = 0;
    relay(c, &mut ends, &mut |c, w, to, m| {
        let mut cur = Some(m.clone());
        let mut whats = vec![];
        for (_, kind, pos) in plan.iter().filter(|p| p.0 == k) {
            if let Some(x) = &cur {
                if let Some((y, what)) = alter(c, *kind, *pos, k, to, x, w, &pool) {
                    c.ev(format!("frame {k} to {to}: {what}"));
                    c.fault(if y.is_none() { "message-removed" } else { "message-altered" });
                    c.count(format!("alteration kind {kind}"));
                    cur = y;
                    whats.push(what);
                }
            }
        }
        if cur.as_ref() != Some(&m) {
            bad[to].get_or_insert(format!("frame {k} was {}", whats.join(", ")));
        }
        k += 1;
        cur
    });
    if bad.iter().all(|b| b.is_none()) {
        return Ok(());
    }
    c.ev(format!("{proto:?}"));
    let r = results(c, &ends);
    for i in 0..2 {
        let Some(what) = &bad[i] else { continue };
        let Some(f) = &r[i] else { continue };
        if let Some(g) = &r[1 - i] {
            if g.key == f.key {
                return viol("altered-agreement", format!("{proto:?}: both ends complete with one key although for {} {what}", ends[i].name));
            }
        }
        // these would have to notice on their own
        let strict = confirms(proto) && !matches!(proto, Proto::Ibke(IK::SigmaEd | IK::SigmaDil))
            // signed Diffie-Hellman alone has no confirmation: an authentic message of the same identifier passes
            && !(proto == Proto::Ibke(IK::SigDh) && !pool.other.is_empty());
        if strict {
            return viol("altered-completed", format!("{proto:?}: {} completes although {what}", ends[i].name));
        }
    }
    if matches!(proto, Proto::Latke(..)) && r[0].is_some() && r[1].is_some() {
        return viol("altered-transcripts", format!("{proto:?}: both ends complete after alterations {bad:?}"));
    }
    Ok(())
}

//! Different passwords.
use crate::ctx::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P02",
    run,
    quick: 90_000,
    thorough: 1_000_000,
    rule: "protocol, peer mode, relation between the two passwords (one bit, a suffix, trailing zeros, length, prefix, case, exchanged bytes, changes that cancel out, behind a zero byte, white space, hash-block boundaries, encodings, empty) and the bit are enumerated over the run index; contents, which end is wrong, restarts and entropy weather are drawn. Every run is non-trivial (mismatched ends).",
    real: super::REAL,
    stub: super::STUB,
};

/// Another password, close to the first.
fn near(c: &mut Ctx, rel: u32, bit: usize) -> (Vec<u8>, Vec<u8>, String) {
    let mut len = *c.t.pick(&[8usize, 1, 3, 15, 16, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 200]);
    if c.t.chance(1, 10) {
        len = *c.t.pick(&[255usize, 256, 257, 511, 513, 1023, 1025, 2000, 4097]);
        if c.t.chance(1, 8) {
            len = 65_000 + c.t.draw(1000) as usize;
        }
    }
    let mut p = c.h.bytes(len);
    if c.t.chance(1, 3) {
        p.iter_mut().for_each(|b| *b = b'a' + *b % 26);
    }
    let mut q = p.clone();
    let what = match rel {
        0 | 1 => {
            // from the front or from the end
            let b = if rel == 0 { bit % (len * 8) } else { len * 8 - 1 - bit % (len * 8) };
            q[b / 8] ^= 1 << (b % 8);
            format!("bit {b} of {len} bytes differs")
        }
        2 => {
            let n = 1 + c.t.draw(70) as usize;
            q.extend(vec![0; n]);
            format!("{n} zero bytes appended to {len}")
        }
        3 => {
            let n = 1 + c.t.draw(3) as usize;
            let s = c.h.bytes(n);
            q.extend(s);
            format!("suffix of {n} bytes on {len}")
        }
        4 => {
            q.pop();
            format!("last of {len} bytes missing")
        }
        5 => {
            p = vec![];
            q = if c.t.chance(1, 2) { vec![0; 1 + c.t.draw(33) as usize] } else { c.h.bytes(1) };
            "empty against non-empty".into()
        }
        6 => {
            q.remove(0);
            format!("first of {len} bytes missing")
        }
        7 => {
            let i = c.t.draw(len as u32) as usize;
            q[i] ^= 0x20;
            format!("case of character {i} of {len}")
        }
        8 => {
            q.reverse();
            if q == p {
                q.push(1);
            }
            format!("{len} bytes reversed")
        }
        9 => {
            q = [&p[..], &p[..]].concat();
            format!("{len} bytes repeated")
        }
        10 => {
            // white space and line ends
            q.push(*c.t.pick(&[b'\n', b' ', b'=', b'\r', 0x80]));
            format!("white space or padding after {len} bytes")
        }
        11 => {
            let what = c.near(&mut q);
            if q == p {
                q.push(7);
            }
            format!("{what} of {len} bytes")
        }
        12 => {
            // behind the end of a C string
            let at = c.t.draw(len as u32) as usize;
            p[at] = 0;
            q = p.clone();
            let k = at + 1 + c.t.draw(len as u32) as usize;
            if k < len {
                q[k] ^= 1 + c.t.draw(255) as u8;
            } else {
                q.push(1);
            }
            format!("behind a zero at {at} of {len} bytes")
        }
        13 => {
            // white space inside
            let at = c.t.draw(len as u32) as usize;
            p[at] = b' ';
            q = p.clone();
            match c.t.draw(3) {
                0 => q.insert(at, b' '),
                1 => q[at] = b'\t',
                _ => drop(q.remove(at)),
            }
            format!("white space at {at} of {len} bytes")
        }
        _ => {
            p = hex(&c.h.bytes(16)).into_bytes();
            q = if c.t.chance(1, 2) { p.to_ascii_uppercase() } else { [b" ", &p[..]].concat() };
            if p == q {
                q.push(b'0');
            }
            "textual variants".into()
        }
    };
    (p, q, what)
}

pub fn run(c: &mut Ctx) -> R {
    let protos = all_protos();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let rel = c.t.strat(15);
    let bit = c.t.strat(509) as usize;
    let pre = c.t.chance(1, 2) || matches!(proto, Proto::Chip(_));
    let (mut p, mut q, what) = near(c, rel, bit);
    if c.t.chance(1, 2) {
        std::mem::swap(&mut p, &mut q);
    }
    c.nontrivial = true;
    c.count(format!("relation {rel}"));
    c.ev(format!("{proto:?} pre={pre} {what}"));
    let a = c.party(proto, &p);
    let b = c.party(proto, &q);
    c.maybe_restart(a.node);
    c.maybe_restart(b.node);
    let ssid = c.ssid();
    if c.t.chance(1, 5) {
        // both have talked to users of their own passwords before
        for (x, pw) in [(&a, &p), (&b, &q)] {
            if c.t.chance(2, 3) {
                let at = if c.t.chance(1, 2) { a.node } else { c.node(Default::default()) };
                let id = c.id();
                let y = Party { node: at, id, cred: c.enroll(at, proto, pw, &id) };
                let s = if c.t.chance(1, 2) { ssid } else { c.ssid() };
                let (i, r) = if c.t.chance(1, 2) { (x, &y) } else { (&y, x) };
                honest(c, proto, i, r, s, pre)?;
                c.count("earlier sessions");
            }
        }
    }
    let pr = |x: B32| pre.then_some(x);
    let mut ends = [c.open(&a, ssid, I, pr(b.id), "A"), c.open(&b, ssid, RS, pr(a.id), "B")];
    relay(c, &mut ends, &mut straight);
    no_agreement(c, proto, &ends, confirms(proto), "password-mismatch", &format!("their passwords differ ({what})"))?;
    if c.t.chance(1, 4) {
        // control: the same nodes with the right password
        let b2 = Party { node: b.node, id: b.id, cred: c.enroll(b.node, proto, &p, &b.id) };
        let s2 = c.ssid();
        honest(c, proto, &a, &b2, s2, pre)?;
        c.count("control sessions");
    }
    Ok(())
}

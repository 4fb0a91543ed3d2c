//! Session identifier, role and peer expectations.
use crate::ctx::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P03",
    run,
    quick: 90_000,
    thorough: 1_000_000,
    rule: "protocol, kind of disagreement (session identifier, same role, naming the peer in advance or not, wrong name at either or both ends, names exchanged, own name, combinations) and the differing bit are enumerated over the run index; the rest is drawn. Every run is non-trivial (ends disagree).",
    real: super::REAL,
    stub: super::STUB,
};

pub fn run(c: &mut Ctx) -> R {
    let protos = all_protos();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let how = c.t.strat(10);
    let bit = c.t.strat(256) as usize;
    let chip = matches!(proto, Proto::Chip(_));
    let composed = matches!(proto, Proto::Latke(..));
    let named = composed || chip;
    let pw = c.password();
    let a = c.party(proto, &pw);
    let b = c.party(proto, &pw);
    c.maybe_restart(a.node);
    c.maybe_restart(b.node);
    let ssid = c.ssid();
    let mut ss = [ssid, ssid];
    let mut roles = [I, RS];
    let pre = c.t.chance(1, 2) || chip;
    let mut peer = [pre.then_some(b.id), pre.then_some(a.id)];
    let fl = |mut x: B32| {
        x[bit / 8] ^= 1 << (bit % 8);
        x
    };
    let other = {
        let z = c.t.chance(1, 3) && a.id != [0; 32] && b.id != [0; 32];
        if z {
            [0; 32]
        } else if c.t.chance(1, 2) {
            c.id()
        } else {
            let real = [a.id, b.id];
            let mut x = *c.t.pick(&real);
            c.near(&mut x);
            if real.contains(&x) { c.id() } else { x }
        }
    };
    let what = match how {
        3 if composed => {
            let who = c.t.draw(2) as usize;
            peer = [Some(b.id), Some(a.id)];
            peer[who] = None;
            format!("only end {} named its peer", 1 - who)
        }
        4 if named => {
            let who = c.t.draw(2) as usize;
            peer = [Some(b.id), Some(a.id)];
            peer[who] = Some(fl(peer[who].unwrap()));
            format!("end {who} named a peer differing in bit {bit}")
        }
        5 if named => {
            peer = [Some(fl(b.id)), Some(fl(a.id))];
            format!("both ends named peers differing in bit {bit}")
        }
        6 if named => {
            peer = [Some(a.id), Some(b.id)];
            "each end named itself".into()
        }
        7 if named => {
            let who = c.t.draw(2) as usize;
            peer = [Some(b.id), Some(a.id)];
            peer[who] = Some([a.id, b.id][who]);
            format!("end {who} named itself")
        }
        8 if named => {
            peer = [Some(other), Some(other)];
            if c.t.chance(1, 2) {
                peer[1] = Some(a.id);
            }
            "a third party was named".into()
        }
        9 if composed => {
            // nobody was named by one, a wrong one by the other
            peer = [None, Some(other)];
            if c.t.chance(1, 2) {
                peer = [Some(other), None];
            }
            "one end named a third party, the other nobody".into()
        }
        1 | 6 => {
            let r = if c.t.chance(1, 4) { RS } else { I };
            roles = [r, r];
            format!("both ends are {}", if r == I { "initiators" } else { "responders" })
        }
        2 => {
            ss[1] = match c.t.draw(6) {
                4 | 5 => {
                    let mut x = ssid;
                    c.near(&mut x);
                    x
                }
                0 => [0; 32],
                1 => c.ssid(),
                2 => {
                    ss[0] = [0; 32];
                    fl([0; 32])
                }
                _ => {
                    let mut x = ssid;
                    x.rotate_left(1 + c.t.draw(31) as usize);
                    x
                }
            };
            if ss[0] == ss[1] {
                ss[1] = fl(ss[0]);
            }
            "session identifiers differ".into()
        }
        _ => {
            ss[c.t.draw(2) as usize] = fl(ssid);
            format!("session identifiers differ in bit {bit}")
        }
    };
    c.nontrivial = true;
    c.count(format!("disagreement {how}"));
    c.ev(format!("{proto:?} {what}"));
    if c.t.chance(1, 5) {
        // the same two have agreed before, on either side's terms
        for k in 0..2 {
            if c.t.chance(2, 3) {
                let (x, y) = if roles[k] == I { (&a, &b) } else { (&b, &a) };
                let (x, y) = if k == 0 { (x, y) } else { (y, x) };
                let named = chip || composed && peer[k].is_some();
                honest(c, proto, x, y, ss[k], named)?;
                c.count("earlier sessions");
            }
        }
    }
    let mut ends = [c.open(&a, ss[0], roles[0], peer[0], "A"), c.open(&b, ss[1], roles[1], peer[1], "B")];
    relay(c, &mut ends, &mut straight);
    no_agreement(c, proto, &ends, composed, "context-mismatch", &what)?;
    if roles[0] == roles[1] && c.t.chance(1, 2) {
        // two ends of the same role fed by one honest opposite end
        let third = c.party(proto, &pw);
        let mut x = [c.open(&a, ssid, roles[0], pre.then_some(third.id), "A"), c.open(&b, ssid, roles[1], pre.then_some(third.id), "B")];
        let mut t = c.open(&third, ssid, flip(roles[0]), pre.then_some(a.id), "T");
        let mut to_t = if t.role == I { Some(vec![]) } else { None };
        for _ in 0..8 {
            if let Some(m) = to_t.take() {
                if t.failed.is_some() || t.done() {
                    break;
                }
                let s = c.step(&mut t, &m);
                if !s.ok() {
                    break;
                }
                let f = s.frame();
                let mut out = vec![];
                for e in x.iter_mut() {
                    if e.failed.is_none() && !e.done() {
                        out.push(c.step(e, &f).frame());
                    }
                }
                to_t = out.into_iter().next();
            } else {
                let f = c.step(&mut x[0], &[]).frame();
                c.step(&mut x[1], &[]);
                to_t = Some(f);
            }
        }
        no_agreement(c, proto, &x, false, "context-mismatch", "they play the same role towards a third party")?;
    }
    Ok(())
}

//! Results are final, sessions do not disturb each other.
use crate::ctx::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sea::*;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P10",
    run,
    quick: 25_000,
    thorough: 300_000,
    rule: "the first protocol is enumerated over the run index, further ones drawn; 2-3 users run 2-6 interleaved sessions (some attacked, some not) with unrelated enrolments, crashes and late, duplicated and forged messages to completed ends; results are recorded at completion and compared after every late message and at the end; pairs nobody touched must complete and agree.",
    real: super::REAL,
    stub: super::STUB,
};

pub fn run(c: &mut Ctx) -> R {
    c.crowd_in = 3;
    let protos = all_protos();
    let first = protos[c.t.strat(protos.len() as u32) as usize];
    let pw = c.password();
    let nu = 2 + c.t.draw(2) as usize;
    // one credential per protocol and user, on one node per user
    let mixed = c.t.chance(1, 2);
    let mut groups: Vec<(Proto, Vec<Party>)> = vec![(first, (0..nu).map(|_| c.party(first, &pw)).collect())];
    if mixed {
        let other = *c.t.pick(&protos);
        let us = (0..nu)
            .map(|k| {
                let (node, id) = (groups[0].1[k].node, groups[0].1[k].id);
                Party { node, id, cred: c.enroll(node, other, &pw, &id) }
            })
            .collect();
        groups.push((other, us));
    }
    let long = c.t.chance(1, 40);
    if long {
        history(c, &groups)?;
    }
    let wrong = [0, 8, 20][c.t.draw(3) as usize];
    let mut sea = Sea::new(SeaCfg { wrong, late: 30, noise: 8, crashes: c.t.draw(2), retry: c.t.chance(1, 2) }, &pw);
    let ssids = [c.ssid(), c.ssid()];
    for k in 0..2 + c.t.draw(5) {
        let (proto, u) = if k == 0 { &groups[0] } else { &groups[c.t.draw(groups.len() as u32) as usize] };
        let a = c.t.draw(nu as u32) as usize;
        let b = (a + 1 + c.t.draw(nu as u32 - 1) as usize) % nu;
        let s = ssids[c.t.draw(2) as usize];
        let pre = matches!(proto, Proto::Chip(_)) || c.t.chance(1, 3);
        sea.pair(c, *proto, s, u, a, b, pre);
    }
    c.nontrivial = true;
    let users = &groups[0].1;
    sea.run(c, users)?;
    if long || c.t.chance(1, 60) {
        let n = 20 + c.t.draw(if long { 300 } else { 60 });
        sea.pester(c, n)?;
    }
    sea.undisturbed(c, users)
}

/// A node that has been in use for long: enrolments, sessions that complete, sessions given up or spoilt.
fn history(c: &mut Ctx, groups: &[(Proto, Vec<Party>)]) -> R {
    let n = 10 + if c.t.chance(1, 8) { c.t.draw(600) } else { c.t.draw(110) };
    c.fault("long-history");
    c.ev(format!("{n} earlier operations"));
    for _ in 0..n {
        let (proto, u) = &groups[c.t.draw(groups.len() as u32) as usize];
        match c.t.draw(8) {
            0 => {
                let (pw, id) = (c.h.bytes(8), c.id());
                let node = u[0].node;
                c.enroll(node, *proto, &pw, &id);
            }
            k => {
                let ssid = c.ssid();
                let (x, y) = if c.t.chance(1, 2) { (0, 1) } else { (1, 0) };
                let pre = matches!(proto, Proto::Chip(_)) || c.t.chance(1, 3);
                let pr = |p: B32| pre.then_some(p);
                let mut ends = [c.open(&u[x], ssid, I, pr(u[y].id), "h"), c.open(&u[y], ssid, RS, pr(u[x].id), "h")];
                let limit = if k == 1 { c.t.draw(5) as usize } else { usize::MAX };
                let spoil = if k == 2 { c.t.draw(5) as usize } else { usize::MAX };
                relay_until(c, &mut ends, limit, &mut |c, _, at, mut m| {
                    if at == spoil && !m.is_empty() {
                        let b = c.t.draw(m.len() as u32) as usize;
                        m[b] ^= 1;
                    }
                    Some(m)
                });
                if k > 2 {
                    c.count("earlier honest sessions");
                    let r = [c.finalize(&ends[0]).ok(), c.finalize(&ends[1]).ok()];
                    if !matches!(&r, [Some(a), Some(b)] if a.key == b.key) {
                        return viol("disturbed", format!("{proto:?}: after other use of the node an honest session ends with {r:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}

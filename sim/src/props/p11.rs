//! Enrolment depends on the password alone.
use crate::ctx::*;
use crate::ent::EntFaults;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P11",
    run,
    quick: 12_000,
    thorough: 150_000,
    rule: "protocol enumerated over the run index; 3-5 users enrol at different nodes and simulated times in drawn order, interleaved with enrolments under other passwords and of other protocols, after restarts and clock jumps, with interrupted, short and stuck entropy and stuck caller generators, one of them by the independent implementation, some again; then pairs of one password (old and new credentials) must complete with each other and pairs of different passwords must not.",
    real: super::REAL,
    stub: "independent party (for comparison of the authority keys), operating system random source, clock, transport, process boundary",
};

struct U {
    p: Party,
    pw: usize,
    tag: String,
}

pub fn run(c: &mut Ctx) -> R {
    let protos: Vec<Proto> = [latkes(), ibkes(), chips()].concat();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let all = all_protos();
    let first = c.password();
    let mut second = first.clone();
    if second.is_empty() || c.t.chance(1, 2) {
        second.push(c.t.draw(256) as u8);
    } else {
        let k = c.t.draw(second.len() as u32) as usize;
        second[k] ^= 1 << c.t.draw(8);
    }
    let pws = [first, second];
    let mut us: Vec<U> = vec![];
    let n = 3 + c.t.draw(3);
    let mut now = 1_000_000_000u64;
    for k in 0..n {
        let w = match c.t.draw(4) {
            0 => EntFaults::default(),
            1 => EntFaults { eintr: 300, short: 500, ..Default::default() },
            2 => {
                c.fault("stuck-entropy");
                EntFaults { stuck: true, ..Default::default() }
            }
            _ => EntFaults { short: 900, ..Default::default() },
        };
        let node = c.node(w);
        if c.t.chance(1, 4) {
            c.fault("stuck-caller-generator");
            c.stick_rng(node);
        }
        // clocks run apart and jump
        now = if c.t.chance(1, 3) { c.t.draw(u32::MAX) as u64 * 1_000_000_007 } else { now + 86_400_000_000_000 };
        if c.t.chance(1, 8) {
            c.threads(node, 1);
        }
        c.set_calendar(node, now);
        c.fault("clock-jump");
        // something else happens there first
        for _ in 0..c.t.draw(3) {
            let other = *c.t.pick(&all);
            let pw = if c.t.chance(1, 2) { pws[c.t.draw(2) as usize].clone() } else { c.h.bytes(9) };
            let id = c.id();
            c.enroll(node, other, &pw, &id);
        }
        if c.t.chance(1, 4) {
            c.fault("restart");
            c.reboot(node);
        }
        let pw = if k == 0 { 0 } else { (c.t.draw(4) == 0) as usize };
        let id = c.id();
        let model = c.t.chance(1, 4);
        let cred: Cred = if model { Box::new(c.enroll_model(node, proto, &pws[pw], &id)) } else { c.enroll(node, proto, &pws[pw], &id) };
        c.ev(format!("user {k} enrols{} under password {pw}", if model { " (independent implementation)" } else { "" }));
        us.push(U { p: Party { node, id, cred }, pw, tag: format!("user {k}") });
        // the same identity again, perhaps elsewhere
        if !model && c.t.chance(1, 3) {
            let node2 = if c.t.chance(1, 2) { node } else { c.node(EntFaults::default()) };
            let cred = c.enroll(node2, proto, &pws[pw], &id);
            us.push(U { p: Party { node: node2, id, cred }, pw, tag: format!("user {k} again") });
            c.ev(format!("user {k} enrols again"));
        }
    }
    c.nontrivial = true;
    let mut did = 0;
    for _ in 0..8 {
        let (i, j) = (c.t.draw(us.len() as u32) as usize, c.t.draw(us.len() as u32) as usize);
        if i == j || us[i].p.id == us[j].p.id || us[i].p.node == us[j].p.node || did >= 3 {
            continue;
        }
        did += 1;
        let ssid = c.ssid();
        let pre = matches!(proto, Proto::Chip(_)) || c.t.chance(1, 3);
        c.ev(format!("{} with {}", us[i].tag, us[j].tag));
        if us[i].pw == us[j].pw {
            if let Err(v) = honest(c, proto, &us[i].p, &us[j].p, ssid, pre) {
                return viol("credentials-of-one-password-disagree", format!("{} with {}: {}", us[i].tag, us[j].tag, v.msg));
            }
        } else {
            let pr = |x: B32| pre.then_some(x);
            let mut ends = [c.open(&us[i].p, ssid, I, pr(us[j].p.id), "A"), c.open(&us[j].p, ssid, RS, pr(us[i].p.id), "B")];
            relay(c, &mut ends, &mut straight);
            no_agreement(c, proto, &ends, confirms(proto), "different-passwords", "their passwords differ")?;
        }
    }
    Ok(())
}

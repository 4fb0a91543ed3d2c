//! No key before completion.
use crate::ctx::*;
use crate::ent::EntFaults;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P09",
    run,
    quick: 100_000,
    thorough: 1_000_000,
    rule: "protocol, peer mode and the moment of trouble (a rejected message of several kinds, failing entropy that crashes the call, a wrong password, an undecryptable message) are enumerated over the run index; both ends are asked for a key before and after every step of the session: an end must refuse until its own last step of the protocol has succeeded, and answer from then on. Every run is non-trivial.",
    real: super::REAL,
    stub: super::STUB,
};

pub fn run(c: &mut Ctx) -> R {
    let protos = all_protos();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let trouble = c.t.strat(7);
    let want = frames(proto);
    let k = c.t.strat(9) as usize % want.len();
    let pre = c.t.chance(1, 2) || matches!(proto, Proto::Chip(_));
    c.nontrivial = true;
    let pw = c.password();
    let a = c.party(proto, &pw);
    let mut pw2 = pw.clone();
    if trouble == 1 && confirms(proto) {
        c.fault("wrong-password");
        pw2.push(7);
    }
    let b = c.party(proto, &pw2);
    let ssid = c.ssid();
    let pr = |x: B32| pre.then_some(x);
    let mut ends = [c.open(&a, ssid, I, pr(b.id), "A"), c.open(&b, ssid, RS, pr(a.id), "B")];
    c.ev(format!("{proto:?} pre={pre} trouble {trouble} at {k}"));
    // the step after which an end has completed: the one consuming the last frame it receives
    let last = [if want.len() % 2 == 0 { want.len() } else { want.len() - 1 }, if want.len() % 2 == 1 { want.len() } else { want.len() - 1 }];
    let mut msg: Vec<u8> = vec![];
    let mut spoiled = pw2 != pw;
    for n in 0..=want.len() {
        let i = n % 2;
        ask(c, proto, &ends, n, &last, spoiled, [false, false])?;
        if n == k + 1 && trouble >= 2 {
            match trouble {
                2..=4 => {
                    // something is rejected first; where the session reports errors, the right message follows
                    c.fault("rejected-message");
                    let mut m = msg.clone();
                    match trouble {
                        2 if !m.is_empty() => {
                            let p = c.t.draw(m.len() as u32) as usize;
                            m[p] ^= 1 << c.t.draw(8);
                        }
                        3 => {
                            let n = c.t.size(900) as usize;
                            m = c.h.bytes(n);
                        }
                        _ => {
                            let p = c.t.draw(m.len() as u32 + 1) as usize;
                            m.truncate(p);
                        }
                    }
                    if m != msg {
                        let s = c.step(&mut ends[i], &m);
                        if matches!(s, Step::Err(_)) && c.t.chance(1, 2) {
                            // refused; must stay silent about a key
                            ask(c, proto, &ends, n, &last, true, [false, false])?;
                        }
                        if s.ok() {
                            // accepted (no integrity at this point of this protocol): the session is another one now
                            if strict(proto) && n == last[i] {
                                // (the encrypted phase shows no error, so the step itself may succeed)
                                refuse(c, proto, &ends[i], "after a bad last message")?;
                            }
                            spoiled = true;
                            msg = s.frame();
                            continue;
                        }
                        if matches!(s, Step::Panic(_)) {
                            // a crashed call: no key, whatever comes
                            for e in &ends {
                                if e.node == ends[i].node {
                                    refuse(c, proto, e, "after a crashed call")?;
                                }
                            }
                            return Ok(());
                        }
                    }
                }
                _ => {
                    // the random source dies during this call
                    c.fault("entropy-dies");
                    let node = ends[i].node;
                    let from = c.t.draw(4) as u64;
                    let calls = c.nodes[node].node.stats().calls;
                    c.ent_faults(node, EntFaults { fail_from: Some((calls + from, libc::EIO)), ..Default::default() });
                    // only sessions whose randomness comes through Rust can be crashed in this process
                    let s = c.step(&mut ends[i], &msg);
                    c.ent_faults(node, EntFaults::default());
                    if !s.ok() {
                        refuse(c, proto, &ends[i], "after a call that crashed for lack of randomness")?;
                        c.count("crashed calls");
                        return Ok(());
                    }
                    msg = s.frame();
                    continue;
                }
            }
        }
        if ends[i].failed.as_ref().is_some_and(|f| matches!(f, Step::Panic(_))) {
            break;
        }
        let s = c.step(&mut ends[i], &msg);
        if !s.ok() {
            spoiled = true;
            refuse(c, proto, &ends[i], "after an error")?;
            refuse(c, proto, &ends[1 - i], "whose peer failed before the last message").or_else(|v| if n > last[1 - i] { Ok(()) } else { Err(v) })?;
            break;
        }
        msg = s.frame();
    }
    if !spoiled {
        ask(c, proto, &ends, want.len() + 1, &last, false, [true, true])?;
    }
    Ok(())
}
fn strict(proto: Proto) -> bool {
    confirms(proto) && !matches!(proto, Proto::Ibke(_))
}
fn refuse(c: &mut Ctx, proto: Proto, e: &End, when: &str) -> R {
    match c.finalize(e) {
        Ok(f) => viol("early-key", format!("{proto:?}: {} yields key {} {when}", e.name, short(&f.key))),
        Err(_) => Ok(()),
    }
}
/// Before step n.
fn ask(c: &mut Ctx, proto: Proto, ends: &[End; 2], n: usize, last: &[usize; 2], spoiled: bool, must: [bool; 2]) -> R {
    for i in 0..2 {
        let r = c.finalize(&ends[i]);
        if r.is_ok() && n <= last[i] {
            return viol("early-key", format!("{proto:?}: {} yields a key before its step {} of {}", ends[i].name, n, last[i]));
        }
        if r.is_ok() && spoiled && strict(proto) && n <= last[i] + 1 && ends[i].failed.is_some() {
            return viol("early-key", format!("{proto:?}: {} yields a key after a failure", ends[i].name));
        }
        if r.is_err() && (must[i] || (n > last[i] && !spoiled)) {
            return viol("no-key-after-completion", format!("{proto:?}: {} refuses its key after completion", ends[i].name));
        }
    }
    Ok(())
}

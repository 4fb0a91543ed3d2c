//! A failed decryption in the encrypted phase does not show.
use crate::ctx::*;
use crate::play::*;
use crate::runner::Prop;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P08",
    run,
    quick: 90_000,
    thorough: 1_000_000,
    rule: "identity exchange and password exchange of the composed protocol, the step at which an end first receives something it cannot decrypt, and what that is (bit flipped at an enumerated position, truncated, extended, empty, too short, random, zeros, an earlier message, a message of another session, wrong password from the start) are enumerated over the run index; what follows (the peer's real messages, random bytes, nothing sensible) is drawn. The failing end's remaining messages are compared in number and size with the protocol's, and it is asked for a key after every step. Every run is non-trivial.",
    real: super::REAL,
    stub: super::STUB,
};

pub fn run(c: &mut Ctx) -> R {
    let protos = latkes();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let Proto::Latke(_, pk) = proto else { unreachable!() };
    let want = frames(proto);
    let st = eue_start(pk);
    let k = st + c.t.strat(4) as usize % (want.len() - st);
    let kind = c.t.strat(12);
    let pos = c.t.place(want[k] as u32) as usize;
    let pre = c.t.chance(1, 3);
    c.nontrivial = true;
    let pw = c.password();
    let a = c.party(proto, &pw);
    let wrong_pw = kind == 11 && pk != PK::Kc;
    let mut pw2 = pw.clone();
    if wrong_pw {
        c.fault("wrong-password");
        pw2.push(c.t.draw(256) as u8);
    }
    let b = c.party(proto, &pw2);
    let ssid = c.ssid();
    let mut rec = vec![];
    if kind == 9 && !wrong_pw {
        rec = honest(c, proto, &a, &b, ssid, pre)?.1.sent;
    }
    let pr = |x: B32| pre.then_some(x);
    let mut ends = [c.open(&a, ssid, I, pr(b.id), "A"), c.open(&b, ssid, RS, pr(a.id), "B")];
    c.ev(format!("{proto:?} pre={pre} first bad message {k} kind {kind}"));
    let style = c.t.draw(4);
    // frames in flight: what each side would have sent
    let mut sent: Vec<Vec<u8>> = vec![];
    let mut msg: Vec<u8> = vec![];
    let mut bad = None;
    for n in 0..=want.len() {
        let i = n % 2;
        // n-th step: end i consumes frame n-1 and produces frame n
        let e = &mut ends[i];
        if e.failed.is_some() {
            if bad.is_none() {
                return viol("honest-session-broken", format!("{proto:?}: fails before anything was wrong: {:?}", e.failed));
            }
            // the healthy peer of a failed end may give up when it reads the pretence; the failed end may not
            if bad.map(|k| (k + 1) % 2) == Some(i) {
                return viol("failure-shows", format!("{proto:?}: the end that could not decrypt frame {} gives up: {:?}", bad.unwrap(), e.failed));
            }
            msg = junk(c, want.get(n).copied().unwrap_or(0), style);
            sent.push(msg.clone());
            continue;
        }
        if wrong_pw && n == st + 1 {
            // the keys of the two ends differ: whatever arrives from here on does not decrypt
            bad = Some(st);
        }
        if n > 0 && n - 1 == k && bad.is_none() && !wrong_pw {
            let m = mangle(c, kind, pos, &msg, &sent, &rec, k);
            if m == msg {
                return Ok(());
            }
            msg = m;
            bad = Some(k);
            c.fault("undecryptable-message");
        }
        let from = bad.map(|k| k + 1);
        let e = &mut ends[i];
        let s = c.step(e, &msg);
        let failing = from.is_some_and(|f| n >= f && (n - f) % 2 == 0);
        if failing {
            // this end is past its first undecryptable message
            let due = if n < want.len() { want[n] } else { 0 };
            let got = match &s {
                Step::Msg(m) => m.len(),
                Step::Nothing => 0,
                Step::Err(x) | Step::Panic(x) => {
                    return viol("failure-shows", format!("{proto:?}: after undecryptable frame {} an end stops at step {n}: {x}", from.unwrap() - 1))
                }
            };
            if got != due {
                return viol("failure-shows", format!("{proto:?}: after undecryptable frame {} an end sends {got} bytes at step {n}, an honest one sends {due}", from.unwrap() - 1));
            }
            if let Step::Msg(m) = &s {
                if m.windows(16).any(|w| w.iter().all(|b| *b == 0)) {
                    return viol("failure-shows", format!("{proto:?}: a pretended message contains plain zeros"));
                }
                if sent.contains(m) {
                    return viol("failure-shows", format!("{proto:?}: a pretended message repeats an earlier one"));
                }
            }
            if let Ok(f) = c.finalize(&ends[i]) {
                return viol("failed-end-yields-key", format!("{proto:?}: an end that could not decrypt yields key {}", short(&f.key)));
            }
        } else if !s.ok() && bad.is_none() {
            return viol("honest-session-broken", format!("{proto:?}: fails before anything was wrong: {s:?}"));
        }
        msg = if s.ok() { s.frame() } else { junk(c, want.get(n).copied().unwrap_or(0), style) };
        if failing || bad.is_none() || style == 0 {
            // delivered as it is
        } else {
            // what the failing end receives next is the network's choice
            msg = junk(c, msg.len(), style);
        }
        sent.push(msg.clone());
    }
    // then it stops
    let f = bad.unwrap_or(st) + 1;
    let i = f % 2;
    if !ends[i].sess.is_done() {
        return viol("failure-shows", format!("{proto:?}: an end that could not decrypt is not done after its last step, where an honest one is"));
    }
    for _ in 0..2 {
        let m = junk(c, 300, 1);
        if let Step::Msg(m) = c.step(&mut ends[i], &m) {
            return viol("failure-shows", format!("{proto:?}: an end that could not decrypt goes on after the last step with {} bytes", m.len()));
        }
        if c.finalize(&ends[i]).is_ok() {
            return viol("failed-end-yields-key", format!("{proto:?}: an end that could not decrypt yields a key at the end"));
        }
    }
    if c.finalize(&ends[1 - i]).is_ok() && wrong_pw {
        return viol("failed-end-yields-key", format!("{proto:?}: an end with another password yields a key"));
    }
    Ok(())
}

fn junk(c: &mut Ctx, n: usize, style: u32) -> Vec<u8> {
    match style {
        0 | 1 => c.h.bytes(n),
        2 => {
            let n = c.t.size(800) as usize;
            c.h.bytes(n)
        }
        _ => vec![],
    }
}
fn mangle(c: &mut Ctx, kind: u32, pos: usize, m: &[u8], sent: &[Vec<u8>], rec: &[(usize, Vec<u8>)], k: usize) -> Vec<u8> {
    let mut x = m.to_vec();
    let n = m.len();
    match kind {
        0..=2 if n > 0 => x[pos % n] ^= 1 << c.t.draw(8),
        3 if n > 0 => x.truncate(pos % n),
        4 => {
            let l = 1 + c.t.size(100) as usize;
            x.extend(c.h.bytes(l));
        }
        5 => x = vec![],
        6 => {
            let l = c.t.draw(EUE_OVER as u32 + 1) as usize;
            x = c.h.bytes(l);
        }
        7 => x = c.h.bytes(n),
        8 => x = vec![0; n],
        9 => {
            if let Some(f) = rec.get(k) {
                x = f.1.clone();
            }
        }
        10 if !sent.is_empty() => {
            // an earlier message of either direction
            let i = c.t.draw(sent.len() as u32) as usize;
            x = sent[i].clone();
        }
        _ => {
            let l = 1 + c.t.size(3000) as usize;
            x = c.h.bytes(l);
        }
    }
    x
}

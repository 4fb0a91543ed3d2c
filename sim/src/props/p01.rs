//! Honest sessions complete and agree, whatever the network and the nodes go through first.
use crate::ctx::*;
use crate::runner::Prop;
use crate::sut::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "P01",
    run,
    quick: 40_000,
    thorough: 400_000,
    rule: "2-4 nodes enrolled under one password run 1-4 interleaved sessions (protocol and peer mode of the first enumerated over the run index, others drawn) over a datagram network with drawn loss, duplication, delay, reordering, partitions, crashes with restart from the stored credential, clock skew, slow nodes and interrupted or short entropy reads; after faults stop every session must complete in bounded simulated time.",
    real: super::REAL,
    stub: super::STUB,
};

pub fn run(c: &mut Ctx) -> R {
    let protos = all_protos();
    let first = protos[c.t.strat(protos.len() as u32) as usize];
    let first_pre = c.t.strat(2) == 1;
    let weather = c.t.draw(4);
    let cfg = if weather == 0 {
        NetCfg { loss: 0, dup: 0, delay_ms: 0, fault_until_ms: 0, crashes: 0, partitions: 0 }
    } else {
        NetCfg {
            loss: c.t.draw(40),
            dup: c.t.draw(40),
            delay_ms: [0, 300, 3000][c.t.draw(3) as usize],
            fault_until_ms: 5_000 + c.t.draw(20_000) as u64,
            crashes: c.t.draw(4),
            partitions: c.t.draw(3),
        }
    };
    let mut net = Net::new(cfg);
    let pw = c.password();
    let nu = 2 + c.t.draw(3) as usize;
    for _ in 0..nu {
        net.user(c, &pw);
    }
    let nc = 1 + c.t.draw(4) as usize;
    if nc > 1 {
        c.nontrivial = true;
    }
    for k in 0..nc {
        let (proto, pre) = if k == 0 { (first, first_pre) } else { (*c.t.pick(&protos), c.t.chance(1, 2)) };
        let pre = pre || matches!(proto, Proto::Chip(_));
        let a = c.t.draw(nu as u32) as usize;
        let mut b = c.t.draw(nu as u32) as usize;
        if a == b {
            b = (b + 1) % nu;
        }
        net.connect(c, a, b, proto, pre);
        c.ev(format!("conn {k}: {proto:?} pre={pre} {a}->{b}"));
    }
    let live = net.simulate(c);
    for (k, conn) in net.conns.iter().enumerate() {
        let want = frames(conn.proto).len();
        // every attempt completed at both ends agrees
        for (att, (fa, sa)) in &conn.a.results {
            let Some((fb, sb)) = conn.b.results.get(att) else { continue };
            if fa.key != fb.key {
                return viol("keys-differ", format!("conn {k} {:?}: both ends completed attempt {att} with different keys", conn.proto));
            }
            // steps taken: one per frame sent plus the last reception
            if sa + sb != want + 1 {
                return viol("wrong-number-of-messages", format!("conn {k} {:?}: {sa}+{sb} steps for {want} frames", conn.proto));
            }
        }
        for (e, other) in [(&conn.a, &conn.b), (&conn.b, &conn.a)] {
            for (f, _) in e.results.values() {
                if let Some(id) = f.id {
                    if id != net.users[other.user].id {
                        return viol("wrong-peer", format!("conn {k} {:?}: reports a different identity than the peer's", conn.proto));
                    }
                }
            }
        }
        if !net.both_done(k) {
            let why = |e: &ConnEnd| e.end.as_ref().map(|x| format!("att {} done={} {:?}", e.att, x.done(), x.failed)).unwrap_or_else(|| format!("att {} no session", e.att));
            return viol(
                "not-completed",
                format!("conn {k} {:?} pre={}: initiator {}; responder {}", conn.proto, conn.pre, why(&conn.a), why(&conn.b)),
            );
        }
    }
    if !live {
        return viol("not-completed", "liveness bound passed");
    }
    Ok(())
}

//! Interoperation with an independent implementation.
use crate::ctx::*;
use crate::runner::Prop;
use crate::sut::*;

pub const PROP: Prop = Prop {
    id: "P16",
    run,
    quick: 24_000,
    thorough: 500_000,
    rule: "protocol, side played by the independent implementation, role and peer mode are enumerated over the run index; passwords, identities, session identifier, randomness, entropy weather and a restart of either party from its stored credential are drawn.",
    real: super::REAL,
    stub: "independent peer (this harness's implementation from the protocol descriptions, own Saber, Dilithium and Keccak), operating system random source, transport, process boundary",
};

pub fn run(c: &mut Ctx) -> R {
    let protos = all_protos();
    let proto = protos[c.t.strat(protos.len() as u32) as usize];
    let model_side = c.t.strat(2) as usize;
    let pre = c.t.strat(2) == 1 || matches!(proto, Proto::Chip(_));
    let pw = c.password();
    let w = c.weather();
    let _ = c.node(w);
    let _ = c.node(Default::default());
    let ids = [c.id(), c.id()];
    let ssid = c.ssid();
    // the independent side is played by node 1
    let real: Cred = c.enroll(0, proto, &pw, &ids[0]);
    let model: Cred = Box::new(c.enroll_model(1, proto, &pw, &ids[1]));
    if c.t.chance(1, 3) {
        c.fault("restart");
        c.reboot(0);
    }
    c.ev(format!("{proto:?} pre={pre} independent side {}", if model_side == 0 { "initiates" } else { "responds" }));
    c.nontrivial = true;
    let pr = |o: B32| if pre { Some(o) } else { None };
    let (rr, mr) = if model_side == 0 { (RS, I) } else { (I, RS) };
    let real = c.start(0, &real, ssid, rr, pr(ids[1]), "real");
    let model = c.start(1, &model, ssid, mr, pr(ids[0]), "model");
    let (mut a, mut b) = if model_side == 0 { (model, real) } else { (real, model) };
    let want = frames(proto);
    let mut msg = vec![];
    for (k, n) in want.iter().enumerate() {
        let e = if k % 2 == 0 { &mut a } else { &mut b };
        let s = c.step(e, &msg);
        if !s.ok() {
            return viol("interop-failed", format!("{proto:?}: frame {k}: {} reports {s:?}", e.name));
        }
        msg = s.frame();
        if msg.len() != *n {
            return viol("interop-format", format!("{proto:?}: frame {k} has {} bytes, the protocol says {n}", msg.len()));
        }
    }
    let e = if want.len() % 2 == 0 { &mut a } else { &mut b };
    let s = c.step(e, &msg);
    if !s.ok() {
        return viol("interop-failed", format!("{proto:?}: {} refuses the last message: {s:?}", e.name));
    }
    let (fa, fb) = (c.finalize(&a), c.finalize(&b));
    let (Ok(fa), Ok(fb)) = (&fa, &fb) else {
        return viol("interop-failed", format!("{proto:?}: not completed: {fa:?} {fb:?}"));
    };
    if fa.key != fb.key {
        return viol("interop-keys", format!("{proto:?}: keys differ"));
    }
    let (ia, ib) = if model_side == 0 { (ids[1], ids[0]) } else { (ids[0], ids[1]) };
    if fa.id.is_some_and(|i| i != ib) || fb.id.is_some_and(|i| i != ia) {
        return viol("interop-identity", format!("{proto:?}: wrong identity reported"));
    }
    Ok(())
}

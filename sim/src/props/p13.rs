//! Key encapsulation.
use crate::crowd::Kind;
use crate::ctx::*;
use crate::model::saber as ms;
use crate::runner::Prop;

pub const PROP: Prop = Prop {
    id: "P13",
    run,
    quick: 60_000,
    thorough: 1_000_000,
    rule: "parameter set and scenario (agreement with storage and restart, agreement with the independent implementation in both directions, altered ciphertext, another key, arbitrary keys and ciphertexts, wrong lengths, CPA-level pair used by the password exchange) are enumerated; the altered byte walks over the ciphertext with the run index; entropy weather, restarts and contents are drawn.",
    real: super::REAL,
    stub: "independent Saber (this harness's own, from the specification) as the second party, operating system random source, storage (byte strings kept by the harness), process boundary",
};

pub(crate) type Pair = (Vec<u8>, Vec<u8>);
pub(crate) trait Kem: Send + Sync {
    fn pk(&self) -> Vec<u8>;
    fn sk(&self) -> Vec<u8>;
    fn dec(&self, ct: &[u8]) -> Option<Vec<u8>>;
}
pub(crate) trait Cpa: Send + Sync {
    fn pk(&self) -> Vec<u8>;
    fn dec(&self, ct: &[u8]) -> Option<Vec<u8>>;
}
pub(crate) struct Ops {
    pub(crate) p: ms::Par,
    pub(crate) name: &'static str,
    pub(crate) keygen: fn() -> Box<dyn Kem>,
    pub(crate) load: fn(&[u8]) -> Option<Box<dyn Kem>>,
    /// encapsulate to serialized public key: (secret, ciphertext)
    pub(crate) enc: fn(&[u8]) -> Option<Pair>,
    /// public key to object and back
    pub(crate) pk_again: fn(&[u8]) -> Option<Vec<u8>>,
    /// which types accept this byte string
    pub(crate) accepts: fn(&[u8]) -> Vec<(&'static str, usize, bool)>,
    pub(crate) cpa_keygen: fn() -> Box<dyn Cpa>,
    pub(crate) cpa_enc: fn(&[u8]) -> Pair,
}
macro_rules! ops {
    ($m:ident, $par:expr, $name:expr) => {{
        use ::saber::$m as k;
        impl Kem for k::SecretKey {
            fn pk(&self) -> Vec<u8> {
                self.public_key().to_bytes().as_slice().to_vec()
            }
            fn sk(&self) -> Vec<u8> {
                self.to_bytes().as_slice().to_vec()
            }
            fn dec(&self, ct: &[u8]) -> Option<Vec<u8>> {
                Some(k::decapsulate(&k::Ciphertext::from_bytes(ct).ok()?, self).as_slice().to_vec())
            }
        }
        impl Cpa for (k::INDCPAPublicKey, k::INDCPASecretKey) {
            fn pk(&self) -> Vec<u8> {
                self.0.to_bytes().as_slice().to_vec()
            }
            fn dec(&self, ct: &[u8]) -> Option<Vec<u8>> {
                Some(k::decapsulate_ind_cpa(&k::Ciphertext::from_bytes(ct).ok()?, &self.1).as_slice().to_vec())
            }
        }
        fn keygen() -> Box<dyn Kem> {
            Box::new(k::keygen())
        }
        fn load(b: &[u8]) -> Option<Box<dyn Kem>> {
            Some(Box::new(k::SecretKey::from_bytes(b).ok()?))
        }
        fn enc(pk: &[u8]) -> Option<Pair> {
            let (s, c) = k::encapsulate(&k::PublicKey::from_bytes(pk).ok()?);
            Some((s.as_slice().to_vec(), c.as_slice().to_vec()))
        }
        fn pk_again(pk: &[u8]) -> Option<Vec<u8>> {
            Some(k::PublicKey::from_bytes(pk).ok()?.to_bytes().as_slice().to_vec())
        }
        fn accepts(b: &[u8]) -> Vec<(&'static str, usize, bool)> {
            let p = $par;
            vec![
                ("PublicKey", p.pk_len(), k::PublicKey::from_bytes(b).is_ok()),
                ("PublicKeyBytes", p.pk_len(), k::PublicKeyBytes::from_bytes(b).is_ok()),
                ("SecretKey", p.sk_len(), k::SecretKey::from_bytes(b).is_ok()),
                ("SecretKeyBytes", p.sk_len(), k::SecretKeyBytes::from_bytes(b).is_ok()),
                ("Ciphertext", p.ct_len(), k::Ciphertext::from_bytes(b).is_ok()),
                ("SharedSecret", 32, k::SharedSecret::from_bytes(b).is_ok()),
            ]
        }
        fn cpa_keygen() -> Box<dyn Cpa> {
            Box::new(k::keygen_ind_cpa())
        }
        fn cpa_enc(pk: &[u8]) -> Pair {
            let (s, c) = k::encapsulate_ind_cpa(&k::INDCPAPublicKey::from_bytes(pk));
            (s.as_slice().to_vec(), c.as_slice().to_vec())
        }
        Ops { p: $par, name: $name, keygen, load, enc, pk_again, accepts, cpa_keygen, cpa_enc }
    }};
}
pub(crate) fn all() -> Vec<Ops> {
    vec![ops!(lightsaber, ms::LIGHT, "LightSaber"), ops!(saber, ms::SABER, "Saber"), ops!(firesaber, ms::FIRE, "FireSaber")]
}

fn crash<T>(r: Result<T, String>, what: &str) -> R<T> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => viol("kem-panics", format!("{what} panicked: {e}")),
    }
}
fn some<T>(r: Option<T>, what: &str) -> R<T> {
    match r {
        Some(v) => Ok(v),
        None => viol("kem-refuses", format!("{what}: well-formed bytes refused")),
    }
}

pub fn run(c: &mut Ctx) -> R {
    let ops = super::kems();
    let k = c.t.strat(3) as usize;
    let o = &ops[k];
    let scen = c.t.strat(7);
    let pos = c.t.strat(o.p.ct_len() as u32) as usize;
    c.crowd_in = 12;
    let w = c.weather();
    c.node(w);
    let w = c.weather();
    c.node(w);
    c.crowd_of(Kind::Kem(k));
    c.ev(format!("{} scenario {scen} position {pos}", o.name));
    let n = o.name;
    let mut key = crash(c.on(0, || (o.keygen)()), "key generation")?;
    let (pk, sk) = (key.pk(), key.sk());
    c.note_content(&sk);
    if pk.len() != o.p.pk_len() || sk.len() != o.p.sk_len() {
        return viol("kem-format", format!("{n}: serialized key has the wrong length"));
    }
    let stored = c.t.chance(1, 2);
    if stored {
        c.fault("restart-from-storage");
        c.reboot(0);
        key = some(crash(c.on(0, || (o.load)(&sk)), "loading a key")?, "secret key")?;
        if key.sk() != sk || key.pk() != pk {
            return viol("kem-storage", format!("{n}: key changes when stored and re-read"));
        }
    }
    match scen {
        // encapsulate on one node, decapsulate on another
        0 => {
            let k = 1 + c.t.draw(3);
            for _ in 0..k {
                let (ss, ct) = some(crash(c.on(1, || (o.enc)(&pk)), "encapsulation")?, "public key")?;
                let got = some(crash(c.on(0, || key.dec(&ct)), "decapsulation")?, "ciphertext")?;
                if got != ss {
                    return viol("kem-disagree", format!("{n}: recovered secret differs"));
                }
                if ms::kem_dec(o.p, &ct, &sk) != ss {
                    return viol("kem-interop", format!("{n}: the independent implementation recovers another secret"));
                }
            }
            if some(crash(c.on(1, || (o.pk_again)(&pk)), "public key")?, "public key")? != pk {
                return viol("kem-storage", format!("{n}: public key changes when re-read"));
            }
            c.nontrivial |= stored;
        }
        // independent implementation encapsulates; or generates the key
        1 => {
            c.nontrivial = true;
            let m = c.h.bytes(32);
            let (ss, ct) = ms::kem_enc(o.p, &m, &pk);
            let got = some(crash(c.on(0, || key.dec(&ct)), "decapsulation")?, "ciphertext")?;
            if got != ss {
                return viol("kem-interop", format!("{n}: a secret encapsulated by an independent implementation is not recovered"));
            }
            let (a, b, z) = (c.h.bytes(32), c.h.bytes(32), c.h.bytes(32));
            let (mpk, msk) = ms::kem_keypair(o.p, &a, &b, &z);
            let (ss, ct) = some(crash(c.on(1, || (o.enc)(&mpk)), "encapsulation")?, "public key")?;
            let mkey = some(crash(c.on(0, || (o.load)(&msk)), "loading a key")?, "secret key")?;
            if ms::kem_dec(o.p, &ct, &msk) != ss || some(crash(c.on(0, || mkey.dec(&ct)), "decapsulation")?, "ciphertext")? != ss {
                return viol("kem-interop", format!("{n}: keys of an independent implementation do not work"));
            }
            if mkey.pk() != mpk || mkey.sk() != msk {
                return viol("kem-storage", format!("{n}: foreign key changes when re-read"));
            }
        }
        // altered ciphertexts
        2 => {
            let (ss, ct) = some(crash(c.on(1, || (o.enc)(&pk)), "encapsulation")?, "public key")?;
            let mut bad = ct.clone();
            let how = c.t.draw(6);
            match how {
                0..=2 => bad[pos] ^= 1 << c.t.draw(8),
                3 => {
                    let k = 1 + c.t.draw(64) as usize;
                    let at = c.t.draw(ct.len() as u32) as usize;
                    let r = c.h.bytes(k);
                    for (i, x) in r.iter().enumerate() {
                        bad[(at + i) % ct.len()] ^= x;
                    }
                }
                4 => bad.iter_mut().for_each(|x| *x = 0),
                _ => bad.rotate_left(1 + c.t.draw(ct.len() as u32 - 1) as usize),
            }
            if bad == ct {
                return Ok(());
            }
            c.fault("ciphertext-altered");
            let a = some(crash(c.on(0, || key.dec(&bad)), "decapsulation")?, "altered ciphertext")?;
            if a == ss {
                return viol("kem-malleable", format!("{n}: altered ciphertext (way {how}) yields the original secret"));
            }
            let b = some(crash(c.on(0, || key.dec(&bad)), "decapsulation")?, "altered ciphertext")?;
            c.reboot(0);
            c.fault("restart-from-storage");
            let again = some(crash(c.on(0, || (o.load)(&sk)), "loading a key")?, "secret key")?;
            let d = some(crash(c.on(0, || again.dec(&bad)), "decapsulation")?, "altered ciphertext")?;
            if a != b || a != d {
                return viol("kem-unrepeatable", format!("{n}: the secret of a rejected ciphertext is not repeatable"));
            }
            if ms::kem_dec(o.p, &bad, &sk) != a {
                return viol("kem-rejection", format!("{n}: implicit rejection differs from the independent implementation"));
            }
            // a sweep of single changed bits, always with the edges of the two parts
            let n1 = ct.len();
            let edges = [0, 31, 32, n1 - 1, n1 - 2, n1 - 32, n1 - 33, pos, (pos + n1 / 2) % n1, (pos + n1 / 3) % n1];
            for at in edges.into_iter().chain((0..if c.thorough { 40 } else { 6 }).map(|_| c.t.draw(n1 as u32) as usize).collect::<Vec<_>>()) {
                let bit = c.t.draw(8);
                let mut other = ct.clone();
                other[at] ^= 1 << bit;
                let a = some(crash(c.on(0, || again.dec(&other)), "decapsulation")?, "altered ciphertext")?;
                if a == ss {
                    return viol("kem-malleable", format!("{n}: ciphertext with bit {bit} of byte {at} changed yields the original secret"));
                }
            }
            // the right one still works
            if some(crash(c.on(0, || key.dec(&ct)), "decapsulation")?, "ciphertext")? != ss {
                return viol("kem-disagree", format!("{n}: the genuine ciphertext no longer decapsulates"));
            }
        }
        // another key
        3 => {
            c.fault("misrouted");
            let other = crash(c.on(1, || (o.keygen)()), "key generation")?;
            let osk = other.sk();
            let n1 = sk.len();
            // seeds, hash and the secret of rejections belong to one key alone
            for a in [n1 - 32, n1 - 64, n1 - 96] {
                let x = &sk[a..a + 32];
                if x == &osk[a..a + 32] || x.iter().all(|b| *b == x[0]) {
                    return viol("kem-shared", format!("{n}: bytes {a} to {} of the private key are no secret of its own", a + 32));
                }
            }
            let (ss, ct) = some(crash(c.on(1, || (o.enc)(&pk)), "encapsulation")?, "public key")?;
            let g = some(crash(c.on(1, || other.dec(&ct)), "decapsulation")?, "ciphertext")?;
            if g == ss {
                return viol("kem-wrong-key", format!("{n}: another key recovers the secret"));
            }
            if g != ms::kem_dec(o.p, &ct, &other.sk()) {
                return viol("kem-rejection", format!("{n}: implicit rejection differs from the independent implementation"));
            }
            let (s2, c2) = some(crash(c.on(1, || (o.enc)(&pk)), "encapsulation")?, "public key")?;
            if s2 == ss || c2 == ct {
                return viol("kem-repeats", format!("{n}: two encapsulations coincide"));
            }
        }
        // arbitrary well-sized strings: both implementations are total and agree
        4 => {
            c.fault("arbitrary-bytes");
            let pat = |c: &mut Ctx, k: usize| -> Vec<u8> {
                match c.t.draw(4) {
                    0 => c.h.bytes(k),
                    1 => vec![0xff; k],
                    2 => vec![0; k],
                    _ => {
                        let b = c.h.bytes(2);
                        (0..k).map(|i| b[i % 2]).collect()
                    }
                }
            };
            let ask = if c.t.chance(1, 2) { pat(c, o.p.sk_len()) } else { sk.clone() };
            let act = pat(c, o.p.ct_len());
            let k2 = some(crash(c.on(0, || (o.load)(&ask)), "loading a key")?, "secret key")?;
            let g = some(crash(c.on(0, || k2.dec(&act)), "decapsulation")?, "ciphertext")?;
            if g != ms::kem_dec(o.p, &act, &ask) {
                return viol("kem-interop", format!("{n}: decapsulation of arbitrary bytes differs from the independent implementation"));
            }
            if k2.sk() != ask {
                return viol("kem-storage", format!("{n}: key changes when re-read"));
            }
            let apk = pat(c, o.p.pk_len());
            if some(crash(c.on(0, || (o.pk_again)(&apk)), "public key")?, "public key")? != apk {
                return viol("kem-storage", format!("{n}: public key changes when re-read"));
            }
            some(crash(c.on(1, || (o.enc)(&apk)), "encapsulation")?, "public key")?;
        }
        // wrong lengths
        5 => {
            c.fault("wrong-length");
            let lens = [0, 1, 31, 32, 33, o.p.pk_len(), o.p.sk_len(), o.p.ct_len(), o.p.cpa_sk_len()];
            let base = lens[c.t.draw(lens.len() as u32) as usize] as i64;
            let len = (base + c.t.draw(5) as i64 - 2).max(0) as usize;
            let b = c.h.bytes(len);
            for (what, want, ok) in crash(c.on(0, || (o.accepts)(&b)), "parsing")? {
                if ok != (want == len) {
                    return viol("kem-length", format!("{n}: {what} of {len} bytes accepted={ok}, proper length {want}"));
                }
            }
        }
        // the CPA pair
        _ => {
            c.nontrivial = true;
            let kp = crash(c.on(0, || (o.cpa_keygen)()), "CPA key generation")?;
            let cpk = kp.pk();
            let (ss, ct) = crash(c.on(1, || (o.cpa_enc)(&cpk)), "CPA encapsulation")?;
            if some(crash(c.on(0, || kp.dec(&ct)), "CPA decapsulation")?, "ciphertext")? != ss {
                return viol("kem-disagree", format!("{n}: CPA secret not recovered"));
            }
            let m = c.h.bytes(32);
            let noise = c.h.bytes(32);
            let ct = ms::cpa_enc(o.p, &m, &noise, &cpk);
            if some(crash(c.on(0, || kp.dec(&ct)), "CPA decapsulation")?, "ciphertext")? != m {
                return viol("kem-interop", format!("{n}: CPA secret of an independent implementation not recovered"));
            }
            let (a, b) = (c.h.bytes(32), c.h.bytes(32));
            let (mpk, msk) = ms::cpa_keypair(o.p, &a, &b);
            let (ss, ct) = crash(c.on(1, || (o.cpa_enc)(&mpk)), "CPA encapsulation")?;
            if ms::cpa_dec(o.p, &ct, &msk) != ss {
                return viol("kem-interop", format!("{n}: CPA ciphertext not understood by an independent implementation"));
            }
        }
    }
    Ok(())
}

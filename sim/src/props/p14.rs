//! Signatures across nodes and implementations.
use crate::crowd::Kind;
use crate::ctx::*;
use crate::model::dilithium as md;
use crate::runner::Prop;
use pqcrypto_dilithium::ffi::*;
use pqcrypto_traits::sign::{DetachedSignature as _, PublicKey as _, SecretKey as _, SignedMessage as _};

pub const PROP: Prop = Prop {
    id: "P14",
    run,
    quick: 12_000,
    thorough: 200_000,
    rule: "parameter set, scenario (verification everywhere, altered signature, alternative encodings and out-of-bound signatures, altered message, altered key, other key, wrong lengths, serialized storage whole and damaged) and the implementation that makes keys and signatures (wrapper, portable, AVX2, independent) are enumerated; the altered byte walks over the signature or key with the run index; messages, restarts, entropy weather are drawn.",
    real: super::REAL,
    stub: "independent Dilithium (this harness's own, from the specification), operating system random source, storage, process boundary",
};

pub(crate) type Fkp = unsafe extern "C" fn(*mut u8, *mut u8) -> i32;
pub(crate) type Fsig = unsafe extern "C" fn(*mut u8, *mut usize, *const u8, usize, *const u8) -> i32;
pub(crate) type Fver = unsafe extern "C" fn(*const u8, usize, *const u8, usize, *const u8) -> i32;
pub(crate) struct Raw {
    pub(crate) kp: Fkp,
    sign: Fsig,
    pub(crate) sig: Fsig,
    ver: Fver,
    open: Fsig,
}
pub(crate) struct Ops {
    pub(crate) p: md::Dp,
    pub(crate) name: &'static str,
    pub(crate) raw: [Raw; 2],
    pub(crate) keypair: fn() -> (Vec<u8>, Vec<u8>),
    pub(crate) det: fn([u8; 32]) -> (Vec<u8>, Vec<u8>),
    pub(crate) sign: fn(&[u8], &[u8]) -> Option<Vec<u8>>,
    pub(crate) signed: fn(&[u8], &[u8]) -> Option<Vec<u8>>,
    /// None: bytes refused
    pub(crate) verify: fn(&[u8], &[u8], &[u8]) -> Option<bool>,
    pub(crate) open: fn(&[u8], &[u8]) -> Option<Option<Vec<u8>>>,
    pub(crate) accepts: fn(&[u8]) -> [bool; 3],
    /// serialized form of public key, secret key, signature or signed message (0..3)
    store: fn(u32, Form, &[u8]) -> Option<Vec<u8>>,
    /// back from it; None: refused
    load: fn(u32, Form, &[u8]) -> Option<Vec<u8>>,
    /// a serialized signature, verified
    load_verify: fn(Form, &[u8], &[u8], &[u8]) -> Option<bool>,
}
macro_rules! ops {
    ($m:ident, $p:expr, $name:expr, $ck:ident $cs:ident $cg:ident $cv:ident $co:ident, $ak:ident $as:ident $ag:ident $av:ident $ao:ident) => {{
        use pqcrypto_dilithium::$m as d;
        fn keypair() -> (Vec<u8>, Vec<u8>) {
            let (p, s) = d::keypair();
            (p.as_bytes().to_vec(), s.as_bytes().to_vec())
        }
        fn det(c: [u8; 32]) -> (Vec<u8>, Vec<u8>) {
            let (p, s) = d::keypair_det(c);
            (p.as_bytes().to_vec(), s.as_bytes().to_vec())
        }
        fn sign(m: &[u8], sk: &[u8]) -> Option<Vec<u8>> {
            Some(d::detached_sign(m, &d::SecretKey::from_bytes(sk).ok()?).as_bytes().to_vec())
        }
        fn signed(m: &[u8], sk: &[u8]) -> Option<Vec<u8>> {
            Some(d::sign(m, &d::SecretKey::from_bytes(sk).ok()?).as_bytes().to_vec())
        }
        fn verify(s: &[u8], m: &[u8], pk: &[u8]) -> Option<bool> {
            Some(d::verify_detached_signature(&d::DetachedSignature::from_bytes(s).ok()?, m, &d::PublicKey::from_bytes(pk).ok()?).is_ok())
        }
        fn open(sm: &[u8], pk: &[u8]) -> Option<Option<Vec<u8>>> {
            Some(d::open(&d::SignedMessage::from_bytes(sm).ok()?, &d::PublicKey::from_bytes(pk).ok()?).ok())
        }
        fn accepts(b: &[u8]) -> [bool; 3] {
            [d::PublicKey::from_bytes(b).is_ok(), d::SecretKey::from_bytes(b).is_ok(), d::DetachedSignature::from_bytes(b).is_ok()]
        }
        fn store(kind: u32, f: Form, b: &[u8]) -> Option<Vec<u8>> {
            match kind {
                0 => f.out(&d::PublicKey::from_bytes(b).ok()?),
                1 => f.out(&d::SecretKey::from_bytes(b).ok()?),
                2 => f.out(&d::DetachedSignature::from_bytes(b).ok()?),
                _ => f.out(&d::SignedMessage::from_bytes(b).ok()?),
            }
        }
        fn load(kind: u32, f: Form, b: &[u8]) -> Option<Vec<u8>> {
            Some(match kind {
                0 => f.back::<d::PublicKey>(b)?.as_bytes().to_vec(),
                1 => f.back::<d::SecretKey>(b)?.as_bytes().to_vec(),
                2 => f.back::<d::DetachedSignature>(b)?.as_bytes().to_vec(),
                _ => f.back::<d::SignedMessage>(b)?.as_bytes().to_vec(),
            })
        }
        fn load_verify(f: Form, b: &[u8], m: &[u8], pk: &[u8]) -> Option<bool> {
            Some(d::verify_detached_signature(&f.back(b)?, m, &d::PublicKey::from_bytes(pk).ok()?).is_ok())
        }
        Ops {
            store, load, load_verify,
            p: $p,
            name: $name,
            raw: [Raw { kp: $ck, sign: $cs, sig: $cg, ver: $cv, open: $co }, Raw { kp: $ak, sign: $as, sig: $ag, ver: $av, open: $ao }],
            keypair, det, sign, signed, verify, open, accepts,
        }
    }};
}
pub(crate) fn all() -> Vec<Ops> {
    vec![
        ops!(dilithium2, md::D2, "Dilithium2",
            PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair PQCLEAN_DILITHIUM2_CLEAN_crypto_sign PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open,
            PQCLEAN_DILITHIUM2_AVX2_crypto_sign_keypair PQCLEAN_DILITHIUM2_AVX2_crypto_sign PQCLEAN_DILITHIUM2_AVX2_crypto_sign_signature PQCLEAN_DILITHIUM2_AVX2_crypto_sign_verify PQCLEAN_DILITHIUM2_AVX2_crypto_sign_open),
        ops!(dilithium3, md::D3, "Dilithium3",
            PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_keypair PQCLEAN_DILITHIUM3_CLEAN_crypto_sign PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_signature PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_verify PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_open,
            PQCLEAN_DILITHIUM3_AVX2_crypto_sign_keypair PQCLEAN_DILITHIUM3_AVX2_crypto_sign PQCLEAN_DILITHIUM3_AVX2_crypto_sign_signature PQCLEAN_DILITHIUM3_AVX2_crypto_sign_verify PQCLEAN_DILITHIUM3_AVX2_crypto_sign_open),
        ops!(dilithium5, md::D5, "Dilithium5",
            PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_keypair PQCLEAN_DILITHIUM5_CLEAN_crypto_sign PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_signature PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_verify PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_open,
            PQCLEAN_DILITHIUM5_AVX2_crypto_sign_keypair PQCLEAN_DILITHIUM5_AVX2_crypto_sign PQCLEAN_DILITHIUM5_AVX2_crypto_sign_signature PQCLEAN_DILITHIUM5_AVX2_crypto_sign_verify PQCLEAN_DILITHIUM5_AVX2_crypto_sign_open),
    ]
}
/// How objects are kept: the crate's serde support, in a binary and a text format.
#[derive(Clone, Copy, PartialEq, Debug)]
pub(crate) enum Form {
    Binary,
    Json,
}
impl Form {
    fn out<T: serde::Serialize>(self, x: &T) -> Option<Vec<u8>> {
        match self {
            Form::Binary => bincode::serialize(x).ok(),
            Form::Json => serde_json::to_vec(x).ok(),
        }
    }
    fn back<T: serde::de::DeserializeOwned>(self, b: &[u8]) -> Option<T> {
        match self {
            Form::Binary => bincode::deserialize(b).ok(),
            Form::Json => serde_json::from_slice(b).ok(),
        }
    }
}
/// Buffer with a canary behind it.
struct Buf(Vec<u8>, usize);
impl Buf {
    fn new(n: usize) -> Buf {
        Buf(vec![0xa5; n + 64], n)
    }
    fn ok(&self) -> bool {
        self.0[self.1..].iter().all(|x| *x == 0xa5)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum By {
    Api,
    Portable,
    Avx2,
    Independent,
}
const BYS: [By; 4] = [By::Api, By::Portable, By::Avx2, By::Independent];
fn ri(b: By) -> usize {
    (b == By::Avx2) as usize
}

/// Runs f with these bytes first in the system's random source; whether f drew just those.
fn fed<T>(coins: Option<[u8; 32]>, f: impl FnOnce() -> T) -> (T, bool) {
    let Some(k) = coins else { return (f(), false) };
    let from = crate::ent::with(|e| {
        e.stream.front.extend(k);
        e.stats.bytes
    });
    let r = f();
    let just = crate::ent::with(|e| {
        e.stream.front.clear();
        e.stats.bytes == from + 32
    });
    (r, just)
}
fn keys(c: &mut Ctx, o: &Ops, n: usize, by: By) -> R<(Vec<u8>, Vec<u8>)> {
    let p = o.p;
    // seeds that make the sampling of the key take a rare turn, and others
    let coins = match c.t.draw(6) {
        1..=3 => {
            c.count("keys with rare sampling");
            Some(md::coins(md::rare(&p, c.t.draw(md::rares()))))
        }
        4 => Some(c.h.b32()),
        _ => None,
    };
    let mut other = false;
    // a generator that draws one seed of 32 bytes expands it as everybody does
    let same = |(k, just): ((Vec<u8>, Vec<u8>), bool)| {
        other = just && k != md::keypair(&p, &coins.unwrap());
        Ok(k)
    };
    let r = match by {
        By::Api if c.t.chance(1, 2) => {
            let coins = coins.unwrap_or_else(|| c.h.b32());
            let k = c.on(n, || (o.det)(coins));
            if let Ok(k) = &k {
                if *k != md::keypair(&p, &coins) {
                    return viol("sign-keygen", format!("{}: deterministic key generation differs from the independent implementation", o.name));
                }
            }
            k
        }
        By::Api => c.on(n, || fed(coins, || (o.keypair)())).and_then(same),
        By::Portable | By::Avx2 => c.on(n, || fed(coins, || {
            let (mut pk, mut sk) = (Buf::new(p.pk_len()), Buf::new(p.sk_len()));
            unsafe { (o.raw[ri(by)].kp)(pk.0.as_mut_ptr(), sk.0.as_mut_ptr()) };
            assert!(pk.ok() && sk.ok(), "wrote past the buffer");
            pk.0.truncate(p.pk_len());
            sk.0.truncate(p.sk_len());
            (pk.0, sk.0)
        })).and_then(same),
        By::Independent => {
            let coins = coins.unwrap_or_else(|| c.h.b32());
            Ok(md::keypair(&p, &coins))
        }
    };
    if other {
        return viol("sign-keygen", format!("{}: {by:?} makes another key of a seed than the independent implementation", o.name));
    }
    match r {
        Ok(k) => Ok(k),
        Err(e) => viol("sign-panics", format!("{}: key generation panicked: {e}", o.name)),
    }
}
fn sign(c: &mut Ctx, o: &Ops, n: usize, by: By, m: &[u8], sk: &[u8], attached: bool) -> R<Vec<u8>> {
    let p = o.p;
    let r = match by {
        By::Api => c.on(n, || if attached { (o.signed)(m, sk) } else { (o.sign)(m, sk) }),
        By::Portable | By::Avx2 => c.on(n, || {
            let len = p.sig_len() + if attached { m.len() } else { 0 };
            let mut b = Buf::new(len);
            let mut l = 0;
            let f = if attached { o.raw[ri(by)].sign } else { o.raw[ri(by)].sig };
            unsafe { f(b.0.as_mut_ptr(), &mut l, m.as_ptr(), m.len(), sk.as_ptr()) };
            assert!(b.ok(), "wrote past the buffer");
            assert!(l == len, "wrong length {l}");
            b.0.truncate(len);
            Some(b.0)
        }),
        By::Independent => {
            let s = md::sign(&p, m, sk);
            Ok(Some(if attached { [&s, m].concat() } else { s }))
        }
    };
    match r {
        Ok(Some(s)) => Ok(s),
        Ok(None) => viol("sign-refuses", format!("{}: key refused", o.name)),
        Err(e) => viol("sign-panics", format!("{}: signing panicked: {e}", o.name)),
    }
}
fn verify(c: &mut Ctx, o: &Ops, n: usize, by: By, s: &[u8], m: &[u8], pk: &[u8]) -> R<bool> {
    let r = match by {
        By::Api => c.on(n, || (o.verify)(s, m, pk).unwrap_or(false)),
        By::Portable | By::Avx2 => c.on(n, || unsafe { (o.raw[ri(by)].ver)(s.as_ptr(), s.len(), m.as_ptr(), m.len(), pk.as_ptr()) } == 0),
        By::Independent => Ok(md::verify(&o.p, s, m, pk)),
    };
    match r {
        Ok(b) => Ok(b),
        Err(e) => viol("sign-panics", format!("{}: verification panicked: {e}", o.name)),
    }
}
/// Opening: the message, or None. Checks that a failure hands out nothing.
fn open(c: &mut Ctx, o: &Ops, n: usize, by: By, sm: &[u8], pk: &[u8]) -> R<Option<Vec<u8>>> {
    let sl = o.p.sig_len();
    let r = match by {
        By::Api => c.on(n, || (o.open)(sm, pk).unwrap_or(None)),
        By::Portable | By::Avx2 => c.on(n, || {
            let mut b = Buf::new(sm.len());
            let mut l = 7usize;
            let rc = unsafe { (o.raw[ri(by)].open)(b.0.as_mut_ptr(), &mut l, sm.as_ptr(), sm.len(), pk.as_ptr()) };
            assert!(b.ok(), "wrote past the buffer");
            if rc == 0 {
                assert!(l <= sm.len(), "length out of range");
                b.0.truncate(l);
                Some(b.0)
            } else {
                if sm.len() > sl + 16 {
                    let m = &sm[sl..];
                    assert!(b.0[..sm.len()].windows(16).all(|w| w != &m[..16] || m[..16].iter().all(|x| *x == 0)), "failed opening returned the message");
                }
                None
            }
        }),
        By::Independent => Ok(if sm.len() >= sl && md::verify(&o.p, &sm[..sl], &sm[sl..], pk) { Some(sm[sl..].to_vec()) } else { None }),
    };
    match r {
        Ok(b) => Ok(b),
        Err(e) => viol("sign-panics", format!("{}: opening panicked: {e}", o.name)),
    }
}

const KINDS: [&str; 4] = ["public key", "secret key", "signature", "signed message"];
/// Something else in the place of a stored object.
fn damage(c: &mut Ctx, f: Form, st: &[u8]) -> Vec<u8> {
    let mut x = st.to_vec();
    let n = x.len() as u32;
    match c.t.draw(7) {
        0 => x.truncate(c.t.draw(n) as usize),
        1 => x.extend(c.h.bytes(9)),
        2 => x[c.t.draw(n) as usize] ^= 1 << c.t.draw(8),
        3 => x = c.h.bytes(n as usize),
        k => match f {
            // lengths are 64-bit numbers at either end
            Form::Binary => {
                let at = if k == 4 { 0 } else { x.len() - 8.min(x.len()) };
                let old = u64::from_le_bytes(x[at..at + 8].try_into().unwrap_or_default());
                let v = match c.t.draw(6) {
                    0 => 0,
                    1 => old.wrapping_add(1),
                    2 => old.wrapping_sub(1),
                    3 => u64::MAX,
                    4 => 1 << 31,
                    _ => old.wrapping_add(1 + c.t.draw(5000) as u64),
                };
                x[at..at + 8].copy_from_slice(&v.to_le_bytes());
            }
            Form::Json => {
                let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(&x) else { return x };
                let pair = v.as_array().is_some_and(|a| a.len() == 2 && a[0].is_array());
                let mut len = None;
                if pair && c.t.chance(1, 2) {
                    len = Some(match c.t.draw(5) {
                        0 => serde_json::json!(0),
                        1 => serde_json::json!(v[1].as_u64().unwrap_or(0) + 1 + c.t.draw(3) as u64),
                        2 => serde_json::json!(u64::MAX),
                        3 => serde_json::json!(-1),
                        _ => serde_json::json!(v[1].as_u64().unwrap_or(0).saturating_sub(1)),
                    });
                }
                if let Some(l) = len {
                    v[1] = l;
                } else if let Some(a) = if pair { v[0].as_array_mut() } else { v.as_array_mut() } {
                    match c.t.draw(5) {
                        0 => drop(a.pop()),
                        1 => a.push(serde_json::json!(0)),
                        2 => a.clear(),
                        3 if !a.is_empty() => {
                            let i = c.t.draw(a.len() as u32) as usize;
                            a[i] = serde_json::json!(256);
                        }
                        _ if !a.is_empty() => {
                            let i = c.t.draw(a.len() as u32) as usize;
                            a[i] = serde_json::json!("1");
                        }
                        _ => {}
                    }
                }
                x = serde_json::to_vec(&v).unwrap();
            }
        },
    }
    x
}

fn message(c: &mut Ctx) -> Vec<u8> {
    let n = match c.t.draw(6) {
        0 => 0,
        1 => 1,
        2 => 64 + c.t.draw(16),
        3 => 136 + c.t.draw(3) - 1,
        4 => c.t.draw(2000),
        5 if c.t.chance(1, 40) => 60_000 + c.t.draw(100_000),
        _ => c.t.draw(64),
    };
    c.h.bytes(n as usize)
}

/// Nobody accepts.
fn rejected(c: &mut Ctx, o: &Ops, s: &[u8], m: &[u8], pk: &[u8], what: &str) -> R {
    for by in BYS {
        if by == By::Independent && c.t.chance(3, 4) {
            continue;
        }
        if verify(c, o, 1, by, s, m, pk)? {
            return viol("sign-accepts", format!("{}: {by:?} accepts: {what}", o.name));
        }
        let sm = [s, m].concat();
        if s.len() == o.p.sig_len() {
            if let Some(x) = open(c, o, 1, by, &sm, pk)? {
                return viol("sign-accepts", format!("{}: {by:?} opens ({} bytes): {what}", o.name, x.len()));
            }
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    let ops = super::sigs();
    let k = c.t.strat(3) as usize;
    let o = &ops[k];
    let scen = c.t.strat(9);
    let by = BYS[c.t.strat(4) as usize];
    let sl = o.p.sig_len();
    let pos = if c.t.chance(1, 2) { c.t.place(sl as u32) as usize } else { c.t.strat(sl as u32) as usize };
    c.crowd_in = 8;
    let w = c.weather();
    c.node(w);
    c.node(Default::default());
    c.crowd_of(Kind::Sig(k));
    let kby = *c.t.pick(&BYS);
    let (pk, sk) = keys(c, o, 0, kby)?;
    c.note_content(&sk);
    c.ev(format!("{} scenario {scen} position {pos} key by {kby:?}, signature by {by:?}", o.name));
    if pk.len() != o.p.pk_len() || sk.len() != o.p.sk_len() {
        return viol("sign-format", format!("{}: key lengths", o.name));
    }
    if c.t.chance(1, 3) {
        c.fault("restart-from-storage");
        c.reboot(0);
    }
    let m = message(c);
    let sig = sign(c, o, 0, by, &m, &sk, false)?;
    c.note_content(&sig);
    if sig.len() != sl {
        return viol("sign-format", format!("{}: signature of {} bytes", o.name, sig.len()));
    }
    match scen {
        0 | 1 => {
            c.nontrivial = true;
            for v in BYS {
                if !verify(c, o, 1, v, &sig, &m, &pk)? {
                    return viol("sign-rejects", format!("{}: signature by {by:?} (key by {kby:?}) rejected by {v:?}", o.name));
                }
            }
            let sm = sign(c, o, 0, by, &m, &sk, true)?;
            if sm.len() != sl + m.len() || sm[sl..] != m[..] {
                return viol("sign-format", format!("{}: signed message does not carry the message", o.name));
            }
            for v in BYS {
                match open(c, o, 1, v, &sm, &pk)? {
                    Some(x) if x == m => {}
                    Some(_) => return viol("sign-open", format!("{}: {v:?} opens to another message", o.name)),
                    None => return viol("sign-rejects", format!("{}: signed message by {by:?} rejected by {v:?}", o.name)),
                }
            }
            Ok(())
        }
        // altered signature
        2 => {
            c.fault("signature-altered");
            let mut s = sig.clone();
            let bit = c.t.draw(8);
            s[pos] ^= 1 << bit;
            rejected(c, o, &s, &m, &pk, &format!("signature with bit {bit} of byte {pos} flipped"))?;
            // every part of it, one verifier each
            let (ct, hb) = (o.p.ct, sl - o.p.omega - o.p.k);
            for (a, z) in [(0, ct), (0, ct), (ct, hb), (hb, sl), (sl - o.p.k, sl)] {
                let at = a + c.t.draw((z - a) as u32) as usize;
                let bit = c.t.draw(8);
                let mut s = sig.clone();
                s[at] ^= 1 << bit;
                let v = *c.t.pick(&BYS[..3]);
                if verify(c, o, 1, v, &s, &m, &pk)? {
                    return viol("sign-accepts", format!("{}: {v:?} accepts: signature with bit {bit} of byte {at} flipped", o.name));
                }
            }
            Ok(())
        }
        // alternative encodings
        3 => {
            c.fault("signature-encoding");
            let hb = sl - o.p.omega - o.p.k;
            let used = sig[sl - 1] as usize;
            let mut s = sig.clone();
            let what = match c.t.draw(8) {
                0 => {
                    // two positions of one polynomial swapped
                    let mut at = 0;
                    let mut cand = vec![];
                    for i in 0..o.p.k {
                        let end = sig[hb + o.p.omega + i] as usize;
                        for j in at + 1..end {
                            cand.push(j);
                        }
                        at = end;
                    }
                    if cand.is_empty() {
                        return Ok(());
                    }
                    let j = *c.t.pick(&cand);
                    s.swap(hb + j, hb + j - 1);
                    "hint positions out of order"
                }
                1 if used < o.p.omega => {
                    let j = used + c.t.draw((o.p.omega - used) as u32) as usize;
                    s[hb + j] = 1 + c.t.draw(255) as u8;
                    "non-zero padding behind the hints"
                }
                2 if used < o.p.omega => {
                    // a repeated position at the end of the last polynomial
                    if used == 0 {
                        return Ok(());
                    }
                    s[hb + used] = s[hb + used - 1];
                    s[sl - 1] += 1;
                    "hint position repeated"
                }
                3 => {
                    s[sl - 1] = (o.p.omega + 1 + c.t.draw((255 - o.p.omega) as u32) as usize) as u8;
                    "hint count beyond the maximum"
                }
                4 => {
                    let i = c.t.draw(o.p.k as u32) as usize;
                    let d = 1 + c.t.draw(255) as u8;
                    s[hb + o.p.omega + i] = s[hb + o.p.omega + i].wrapping_add(d);
                    "hint counts altered"
                }
                5 => {
                    s = md::sign_with(&o.p, &m, &sk, md::Z::Beyond);
                    "z beyond its bound"
                }
                6 => {
                    // at the bound it is refused, below it is not
                    let at = c.t.draw(256 * o.p.l as u32) as usize;
                    let v = o.p.z_bound() * if c.t.chance(1, 2) { -1 } else { 1 };
                    let good = md::sign_with(&o.p, &m, &sk, md::Z::At(at, v - v.signum()));
                    for w in BYS {
                        if !verify(c, o, 1, w, &good, &m, &pk)? {
                            return viol("sign-rejects", format!("{}: valid signature with z up to {} rejected by {w:?}", o.name, v - v.signum()));
                        }
                    }
                    s = md::sign_with(&o.p, &m, &sk, md::Z::At(at, v));
                    "z at its bound"
                }
                _ => {
                    let k = c.t.draw(64) as usize + 1;
                    let r = c.h.bytes(k);
                    let at = c.t.draw((sl - k) as u32) as usize;
                    s[at..at + k].copy_from_slice(&r);
                    "a part replaced"
                }
            };
            if s == sig {
                return Ok(());
            }
            rejected(c, o, &s, &m, &pk, what)
        }
        // altered message
        4 => {
            c.fault("message-altered");
            let mut x = m.clone();
            match c.t.draw(4) {
                0 if !x.is_empty() => {
                    let i = c.t.draw(x.len() as u32) as usize;
                    x[i] ^= 1 << c.t.draw(8);
                }
                1 if !x.is_empty() => {
                    let k = c.t.draw(x.len() as u32) as usize;
                    x.truncate(k);
                }
                2 => x.insert(0, c.h.bytes(1)[0]),
                _ => x.push(0),
            }
            if x == m {
                return Ok(());
            }
            rejected(c, o, &sig, &x, &pk, "another message")
        }
        // altered key
        5 => {
            c.fault("key-altered");
            let mut k = pk.clone();
            let at = pos % k.len();
            k[at] ^= 1 << c.t.draw(8);
            rejected(c, o, &sig, &m, &k, &format!("public key altered at byte {at}"))?;
            let (pk2, _) = keys(c, o, 1, By::Api)?;
            if pk2 == pk {
                return Ok(()); // of the same seed
            }
            rejected(c, o, &sig, &m, &pk2, "signature of another key")
        }
        // lengths
        6 => {
            c.fault("wrong-length");
            let len = match c.t.draw(4) {
                0 => sl - 1 - c.t.draw(3) as usize,
                1 => c.t.draw(sl as u32) as usize,
                2 => 0,
                _ => sl + 1 + c.t.draw(40) as usize,
            };
            let mut s = sig.clone();
            s.resize(len, 0);
            rejected(c, o, &s, &m, &pk, &format!("signature of {len} bytes"))?;
            for v in [By::Api, By::Portable, By::Avx2] {
                if len < sl && open(c, o, 1, v, &s, &pk)?.is_some() {
                    return viol("sign-accepts", format!("{}: {v:?} opens a signed message of {len} bytes", o.name));
                }
            }
            // typed parsing
            let base = [pk.len(), sk.len(), sl, 0][c.t.draw(4) as usize] as i64;
            let k = (base + c.t.draw(3) as i64 - 1).max(0) as usize;
            let b = c.h.bytes(k);
            let a = match c.on(0, || (o.accepts)(&b)) {
                Ok(a) => a,
                Err(e) => return viol("sign-panics", format!("{}: parsing panicked: {e}", o.name)),
            };
            if a[0] != (k == pk.len()) || a[1] != (k == sk.len()) || (a[2] && k > sl) || (!a[2] && k == sl) {
                return viol("sign-length", format!("{}: {k} bytes accepted as (public key, secret key, signature): {a:?}", o.name));
            }
            Ok(())
        }
        // objects kept in serialized form
        7 => {
            let sm = [&sig[..], &m].concat();
            let objs = [&pk, &sk, &sig, &sm];
            for (kind, b) in objs.iter().enumerate() {
                for f in [Form::Binary, Form::Json] {
                    c.fault("restart-from-storage");
                    let kind = kind as u32;
                    let st = match c.on(0, || (o.store)(kind, f, b)) {
                        Ok(Some(x)) => x,
                        r => return viol("sign-storage", format!("{}: {} cannot be serialized as {f:?}: {r:?}", o.name, KINDS[kind as usize])),
                    };
                    match c.on(1, || (o.load)(kind, f, &st)) {
                        Ok(Some(x)) if x == **b => {}
                        r => return viol("sign-storage", format!("{}: {} changes when serialized as {f:?} and read again: {:?}", o.name, KINDS[kind as usize], r.map(|x| x.map(|x| x.len())))),
                    }
                    let bad = damage(c, f, &st);
                    if bad == st {
                        continue;
                    }
                    c.fault("stored-form-damaged");
                    c.ev(format!("damaged {f:?} form of a {}", KINDS[kind as usize]));
                    match c.on(1, || (o.load)(kind, f, &bad)) {
                        Ok(Some(x)) if kind != 3 && x.len() != b.len() && (kind != 2 || x.len() > sl) => {
                            return viol("sign-length", format!("{}: a damaged {f:?} form yields a {} of {} bytes", o.name, KINDS[kind as usize], x.len()))
                        }
                        Ok(_) => {}
                        Err(e) => return viol("sign-panics", format!("{}: reading a damaged {f:?} form of a {} panicked: {e}", o.name, KINDS[kind as usize])),
                    }
                    if kind == 2 {
                        match c.on(1, || (o.load_verify)(f, &bad, &m, &pk)) {
                            Ok(Some(true)) if c.on(1, || (o.load)(2, f, &bad)).ok().flatten().as_ref() != Some(&sig) => {
                                return viol("sign-accepts", format!("{}: a signature read from a damaged {f:?} form verifies", o.name))
                            }
                            Ok(_) => {}
                            Err(e) => return viol("sign-panics", format!("{}: verifying a damaged {f:?} form of a signature panicked: {e}", o.name)),
                        }
                    }
                }
            }
            Ok(())
        }
        // many signatures with one key
        _ => {
            c.nontrivial = true;
            for _ in 0..3 {
                let m = message(c);
                let b = *c.t.pick(&BYS[..3]);
                let v = *c.t.pick(&BYS);
                let s = sign(c, o, 0, b, &m, &sk, false)?;
                if !verify(c, o, 1, v, &s, &m, &pk)? {
                    return viol("sign-rejects", format!("{}: signature by {b:?} rejected by {v:?}", o.name));
                }
            }
            Ok(())
        }
    }
}

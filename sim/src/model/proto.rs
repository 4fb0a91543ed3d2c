//! Peers written from the protocol descriptions: every password exchange, identity exchange, the composed
//! protocol and the baseline.  Used as an interoperable peer and, with a `Twist`, as an attacker that holds
//! some credentials but not others.  Group arithmetic, Blake2, HKDF, ChaCha20, SPAKE2 and CPace come from the
//! published crates; Saber, Dilithium and Keccak are this harness's own.
use super::{dilithium as dil, saber};
use crate::sut::*;
use blake2::digest::consts::U32;
use blake2::{Blake2b, Blake2b512, Digest};
use chacha20::cipher::{KeyIvInit, StreamCipher};
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use ed25519_dalek::{Signature, Signer, SigningKey, Verifier, VerifyingKey};
use hkdf::hmac::{Mac, SimpleHmac};
use hkdf::{SimpleHkdf, SimpleHkdfExtract};
use latke::PartyRole;
use rand_core::{RngCore, SeedableRng};
use x25519_dalek::{PublicKey as XPub, StaticSecret};

pub type H256 = Blake2b<U32>;
pub type Kdf = SimpleHkdf<H256>;
type Extract = SimpleHkdfExtract<H256>;
type Hm = SimpleHmac<H256>;
type Res<T> = Result<T, String>;

pub fn expand(prk: &[u8], info: &[&[u8]], n: usize) -> Vec<u8> {
    let mut out = vec![0; n];
    Kdf::from_prk(prk).expect("prk").expand_multi_info(info, &mut out).expect("expand");
    out
}
fn to32(b: &[u8]) -> B32 {
    b.try_into().expect("32 bytes")
}
fn mac(key: &[u8], parts: &[&[u8]]) -> B32 {
    let mut m = Hm::new_from_slice(key).unwrap();
    for p in parts {
        m.update(p);
    }
    to32(&m.finalize().into_bytes())
}
fn hash_scalar(parts: &[&[u8]]) -> Scalar {
    let mut h = Blake2b512::new();
    for p in parts {
        h.update(p);
    }
    Scalar::from_hash(h)
}
fn point(b: &[u8]) -> Res<RistrettoPoint> {
    CompressedRistretto::from_slice(b).ok().and_then(|c| c.decompress()).ok_or("bad point".into())
}
fn enc(p: &RistrettoPoint) -> B32 {
    p.compress().to_bytes()
}
fn scalar(rng: &mut PRng) -> Scalar {
    let mut w = [0; 64];
    rng.fill_bytes(&mut w);
    Scalar::from_bytes_mod_order_wide(&w)
}
fn need(ok: bool, what: &str) -> Res<()> {
    if ok { Ok(()) } else { Err(what.to_string()) }
}

// ---- authenticated encryption
pub fn seal(rng: &mut PRng, key: &[u8], m: &[u8]) -> Vec<u8> {
    let nonce = rng.bytes(12);
    let mut c = m.to_vec();
    chacha20::ChaCha20::new(key[..32].into(), nonce.as_slice().into()).apply_keystream(&mut c);
    c.extend(&nonce);
    let t = mac(&key[32..], &[&c]);
    c.extend(t);
    c
}
pub fn open(key: &[u8], c: &[u8]) -> Res<Vec<u8>> {
    need(c.len() >= EUE_OVER, "short ciphertext")?;
    let (body, t) = c.split_at(c.len() - 32);
    need(mac(&key[32..], &[body]) == t, "bad tag")?;
    let (ct, nonce) = body.split_at(body.len() - 12);
    let mut p = ct.to_vec();
    chacha20::ChaCha20::new(key[..32].into(), nonce.into()).apply_keystream(&mut p);
    Ok(p)
}

// ---- wide block cipher of the KEM-based password exchange
pub mod wide {
    use crypto_permutation::{DeckFunction, Reader, Writer};
    use deck_farfalle::{kravatte::KravatteConfig, Farfalle};
    fn deck(key: &[u8], a: u8, x: &[u8], b: u8, n: usize) -> Vec<u8> {
        let mut prf = Farfalle::<KravatteConfig>::init_default(key);
        let mut w = prf.input_writer();
        w.write_bytes(&[a]).unwrap();
        w.write_bytes(x).unwrap();
        w.write_bytes(&[b]).unwrap();
        w.finish();
        let mut out = vec![0; n];
        prf.output_reader().write_to_slice(&mut out).unwrap();
        out
    }
    fn xor(a: &mut [u8], b: &[u8]) {
        a.iter_mut().zip(b).for_each(|(x, y)| *x ^= y);
    }
    pub fn encrypt(key: &[u8], b: &mut [u8]) {
        let (l, r) = b.split_at_mut(16);
        xor(&mut r[..16], &deck(key, b'h', l, 0, 16));
        xor(l, &deck(key, b'g', r, 1, 16));
        let n = r.len();
        xor(r, &deck(key, b'g', l, 0, n));
        xor(l, &deck(key, b'h', r, 1, 16));
    }
    pub fn decrypt(key: &[u8], b: &mut [u8]) {
        let (l, r) = b.split_at_mut(16);
        xor(l, &deck(key, b'h', r, 1, 16));
        let n = r.len();
        xor(r, &deck(key, b'g', l, 0, n));
        xor(l, &deck(key, b'g', r, 1, 16));
        xor(&mut r[..16], &deck(key, b'h', l, 0, 16));
    }
}
pub fn cake_key(sep: u8, ssid: &B32, pw: &[u8]) -> Vec<u8> {
    expand(&H256::digest(pw), &[&[sep], ssid], 32)
}

// ---- authorities and credentials
#[derive(Clone)]
pub enum Msk {
    Ed(SigningKey),
    Fg(Scalar),
    Dil(Vec<u8>),
}
#[derive(Clone)]
pub struct Kgc {
    pub ik: IK,
    pub mpk: Vec<u8>,
    pub msk: Msk,
}
#[derive(Clone)]
pub enum Usk {
    Hmqv(Scalar),
    SigDh(SigningKey, StaticSecret),
    Fg(Scalar),
    Ed(SigningKey),
    Dil(Vec<u8>),
}
#[derive(Clone)]
pub struct MCred {
    pub ik: IK,
    pub id: B32,
    /// identity, user public key and the authority's signature, as sent on the wire (FG: identity and X)
    pub cert: Vec<u8>,
    pub usk: Usk,
    pub mpk: Vec<u8>,
}
pub fn upk_len(ik: IK) -> usize {
    match ik {
        IK::Hmqv | IK::Fg | IK::SigmaEd => 32,
        IK::SigDh => 64,
        IK::SigmaDil => dil::D2.pk_len(),
    }
}
pub fn sig_len(ik: IK) -> usize {
    match ik {
        IK::Fg => 0,
        IK::SigmaDil => dil::D2.sig_len(),
        _ => 64,
    }
}
pub fn cert_len(ik: IK) -> usize {
    32 + upk_len(ik) + sig_len(ik)
}
pub fn new_user(ik: IK, rng: &mut PRng) -> (Vec<u8>, Usk) {
    match ik {
        IK::Hmqv => {
            let s = scalar(rng);
            (enc(&RistrettoPoint::mul_base(&s)).to_vec(), Usk::Hmqv(s))
        }
        IK::SigDh => {
            let k = SigningKey::from_bytes(&rng.b32());
            let x = StaticSecret::from(rng.b32());
            ([k.verifying_key().to_bytes(), XPub::from(&x).to_bytes()].concat(), Usk::SigDh(k, x))
        }
        IK::Fg => (vec![], Usk::Fg(Scalar::ZERO)),
        IK::SigmaEd => {
            let k = SigningKey::from_bytes(&rng.b32());
            (k.verifying_key().to_bytes().to_vec(), Usk::Ed(k))
        }
        IK::SigmaDil => {
            let (pk, sk) = dil::keypair(&dil::D2, &rng.b32());
            (pk, Usk::Dil(sk))
        }
    }
}
impl Kgc {
    /// The authority that a password stands for.
    pub fn of_password(ik: IK, pw: &[u8]) -> Kgc {
        let mut g = rand_chacha::ChaCha12Rng::from_seed(to32(&H256::digest(pw)));
        let mut w = [0u8; 64];
        match ik {
            IK::Fg => g.fill_bytes(&mut w),
            _ => g.fill_bytes(&mut w[..32]),
        }
        Self::of_coins(ik, &w)
    }
    fn of_coins(ik: IK, w: &[u8; 64]) -> Kgc {
        match ik {
            IK::Fg => {
                let y = Scalar::from_bytes_mod_order_wide(w);
                Kgc { ik, mpk: enc(&RistrettoPoint::mul_base(&y)).to_vec(), msk: Msk::Fg(y) }
            }
            IK::SigmaDil => {
                let (pk, sk) = dil::keypair(&dil::D2, &to32(&w[..32]));
                Kgc { ik, mpk: pk, msk: Msk::Dil(sk) }
            }
            _ => {
                let k = SigningKey::from_bytes(&to32(&w[..32]));
                Kgc { ik, mpk: k.verifying_key().to_bytes().to_vec(), msk: Msk::Ed(k) }
            }
        }
    }
    /// An authority nobody trusts.
    pub fn foreign(ik: IK, rng: &mut PRng) -> Kgc {
        let mut w = [0; 64];
        rng.fill_bytes(&mut w);
        Self::of_coins(ik, &w)
    }
    pub fn certify(&self, id: &B32, upk: &[u8]) -> Vec<u8> {
        let m = [&id[..], upk].concat();
        let sig = match &self.msk {
            Msk::Ed(k) => k.sign(&m).to_bytes().to_vec(),
            Msk::Dil(k) => dil::sign(&dil::D2, &m, k),
            Msk::Fg(_) => unreachable!(),
        };
        [m, sig].concat()
    }
    pub fn issue(&self, rng: &mut PRng, id: &B32) -> MCred {
        if let Msk::Fg(y) = &self.msk {
            let x = scalar(rng);
            let X = enc(&RistrettoPoint::mul_base(&x));
            let h = hash_scalar(&[&[2], id, &X]);
            return MCred { ik: self.ik, id: *id, cert: [*id, X].concat(), usk: Usk::Fg(x + h * y), mpk: self.mpk.clone() };
        }
        let (upk, usk) = new_user(self.ik, rng);
        MCred { ik: self.ik, id: *id, cert: self.certify(id, &upk), usk, mpk: self.mpk.clone() }
    }
}
#[derive(Clone)]
pub struct ChipCredM {
    pub id: B32,
    pub X: B32,
    pub xhat: Scalar,
    pub Y: RistrettoPoint,
}
pub fn chip_y(pw: &[u8]) -> Scalar {
    hash_scalar(&[&[1], pw])
}
pub fn chip_issue(rng: &mut PRng, pw: &[u8], id: &B32) -> ChipCredM {
    let (x, y) = (scalar(rng), chip_y(pw));
    let X = enc(&RistrettoPoint::mul_base(&x));
    let h = hash_scalar(&[&[2], id, &X]);
    ChipCredM { id: *id, X, xhat: x + h * y, Y: RistrettoPoint::mul_base(&y) }
}

/// How an attacker deviates from its protocol.
#[derive(Clone, Debug, Default)]
pub struct Twist {
    /// send this certificate (FG: identity and X) instead of the own one
    pub cert: Option<Vec<u8>>,
    /// flip this bit of each own signature
    pub sig_flip: Option<usize>,
    pub sig_zero: bool,
    /// sign for another session identifier / the other role / another nonce or ephemeral
    pub sig_ssid: Option<B32>,
    pub sig_role: bool,
    pub sig_stale: bool,
    /// flip this bit of each own MAC / send zeros / send the MAC of the other direction / none at all
    pub mac_flip: Option<usize>,
    pub mac_zero: bool,
    pub mac_other: bool,
    /// send back the peer's own proof (signature, MAC, certificate or MAC)
    pub echo: bool,
    /// ephemeral key override: 0 identity element or zero bytes, 1 the peer's own ephemeral, 2 an invalid
    /// encoding, 3 cancel the static part (FG: E' = tG - X' - hY), 4 the key in the certificate it presents,
    /// 5 the peer's certified key, 6 the authority's key
    pub eph: Option<u8>,
    /// compute the key leaving the static private key out
    pub no_static: bool,
    /// compute the key from ephemerals only / from statics only / as if every secret were zero
    pub key_mode: u8,
    /// SIGMA-R: encrypt this instead of signature, MAC and certificate
    pub body: Option<Vec<u8>>,
    /// do not check what the peer sends
    pub lenient: bool,
}

// ---- identity exchanges
pub struct MIbke {
    pub c: MCred,
    pub ssid: B32,
    pub role: PartyRole,
    pub tw: Twist,
    step: usize,
    done: bool,
    peer: Option<B32>,
    key: Option<B32>,
    es: Scalar,
    xs: Option<StaticSecret>,
    epk: Vec<u8>,
    macs: Vec<u8>,
    tr: Vec<Vec<u8>>,
    kem_sk: Vec<u8>,
    kem_pk: Vec<u8>,
    nonces: [Vec<u8>; 2],
    encapped: Vec<u8>,
    keys: Vec<Vec<u8>>,
    peer_cert: Vec<u8>,
}

impl MIbke {
    pub fn new(c: MCred, ssid: B32, role: PartyRole, tw: Twist) -> MIbke {
        let step = (role == PartyRole::Responder) as usize;
        MIbke {
            c, ssid, role, tw, step, done: false, peer: None, key: None, es: Scalar::ZERO, xs: None, epk: vec![], macs: vec![],
            tr: vec![], kem_sk: vec![], kem_pk: vec![], nonces: [vec![], vec![]], encapped: vec![], keys: vec![], peer_cert: vec![],
        }
    }
    fn check(&self, ok: bool, what: &str) -> Res<()> {
        need(ok || self.tw.lenient, what)
    }
    fn my_cert(&self) -> Vec<u8> {
        self.tw.cert.clone().unwrap_or(self.c.cert.clone())
    }
    fn my_id(&self) -> B32 {
        to32(&self.my_cert()[..32])
    }
    fn sign(&self, m: &[u8]) -> Vec<u8> {
        let mut s = match &self.c.usk {
            Usk::Ed(k) | Usk::SigDh(k, _) => k.sign(m).to_bytes().to_vec(),
            Usk::Dil(k) => dil::sign(&dil::D2, m, k),
            _ => unreachable!(),
        };
        if let Some(b) = self.tw.sig_flip {
            let n = s.len() * 8;
            s[b % n / 8] ^= 1 << (b % 8);
        }
        if self.tw.sig_zero {
            s.iter_mut().for_each(|x| *x = 0);
        }
        s
    }
    fn verify(&self, pk: &[u8], m: &[u8], sig: &[u8]) -> bool {
        if self.c.ik == IK::SigmaDil {
            return dil::verify(&dil::D2, sig, m, pk);
        }
        let Ok(k) = VerifyingKey::from_bytes(&to32(pk)) else { return false };
        k.verify(m, &Signature::from_bytes(sig.try_into().unwrap())).is_ok()
    }
    /// Checks a received certificate and returns the user public key.
    fn take_cert(&mut self, cert: &[u8]) -> Res<Vec<u8>> {
        need(cert.len() == cert_len(self.c.ik), "certificate length")?;
        let (m, sig) = cert.split_at(cert.len() - sig_len(self.c.ik));
        self.check(self.verify(&self.c.mpk, m, sig), "certificate")?;
        self.peer = Some(to32(&m[..32]));
        self.peer_cert = cert.to_vec();
        Ok(m[32..].to_vec())
    }
    fn my_mac(&self, right: B32, other: &[u8], incoming: &[u8]) -> Vec<u8> {
        let mut m = right.to_vec();
        if self.tw.mac_other {
            m = other.to_vec();
        }
        if let Some(b) = self.tw.mac_flip {
            m[b % 256 / 8] ^= 1 << (b % 8);
        }
        if self.tw.mac_zero {
            m = vec![0; 32];
        }
        if self.tw.echo && incoming.len() >= 32 {
            m = incoming[..32].to_vec();
        }
        m
    }
    fn eph_point(&mut self, rng: &mut PRng, peer: Option<&[u8]>) -> Vec<u8> {
        self.es = scalar(rng);
        let honest = RistrettoPoint::mul_base(&self.es);
        match (self.tw.eph, peer) {
            (Some(0), _) => {
                self.es = Scalar::ZERO;
                enc(&RistrettoPoint::identity()).to_vec()
            }
            (Some(1), Some(p)) => p.to_vec(),
            (Some(2), _) => vec![0xff; 32],
            (Some(3), _) if self.c.ik == IK::Fg => {
                let cert = self.my_cert();
                let h = hash_scalar(&[&[2], &cert[..32], &cert[32..64]]);
                let x = point(&cert[32..64]).unwrap_or(RistrettoPoint::identity());
                let y = point(&self.c.mpk).unwrap_or(RistrettoPoint::identity());
                enc(&(honest - x - y * h)).to_vec()
            }
            (Some(4), _) => self.my_cert()[32..64].to_vec(),
            (Some(5), _) if self.peer_cert.len() >= 64 => self.peer_cert[32..64].to_vec(),
            (Some(6), _) if self.c.ik == IK::Fg => self.c.mpk.clone(),
            _ => enc(&honest).to_vec(),
        }
    }
    pub fn run(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        need(!self.done, "finished")?;
        let out = match self.c.ik {
            IK::Hmqv => self.hmqv(rng, msg),
            IK::Fg => self.fg(rng, msg),
            IK::SigDh => self.sigdh(rng, msg),
            IK::SigmaEd | IK::SigmaDil => self.sigma(rng, msg),
        }?;
        self.step += 2;
        if !msg.is_empty() {
            self.tr.push(msg.to_vec());
        }
        if let Some(o) = &out {
            self.tr.push(o.clone());
        }
        Ok(out)
    }
    fn hmqv_key(&mut self, e_init: &[u8], e_resp: &[u8], their_upk: &[u8]) -> Res<()> {
        let ini = self.role == PartyRole::Initiator;
        let (id_i, id_r) = if ini { (self.my_id(), self.peer.unwrap()) } else { (self.peer.unwrap(), self.my_id()) };
        let d = hash_scalar(&[e_init, &id_r]);
        let e = hash_scalar(&[e_resp, &id_i]);
        let Usk::Hmqv(s) = &self.c.usk else { unreachable!() };
        let s = if self.tw.no_static { Scalar::ZERO } else { *s };
        let upk = point(their_upk)?;
        let their_e = point(if ini { e_resp } else { e_init })?;
        let (mine, theirs) = if ini { (d, e) } else { (e, d) };
        let sigma = match self.tw.key_mode {
            1 => their_e * self.es,
            2 => upk * s,
            3 => RistrettoPoint::identity(),
            _ => (their_e + theirs * upk) * (self.es + mine * s),
        };
        let hk = enc(&sigma);
        let get = |l: &[u8]| expand(&hk, &[&self.ssid, l], 32);
        self.macs = [get(b"mac0"), get(b"mac1")].concat();
        self.key = Some(to32(&get(b"sess key")));
        Ok(())
    }
    fn hmqv(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        match self.step {
            0 => {
                self.epk = self.eph_point(rng, None);
                Ok(Some([self.epk.clone(), self.my_cert()].concat()))
            }
            1 => {
                need(msg.len() == 160, "length")?;
                let upk = self.take_cert(&msg[32..])?;
                self.epk = self.eph_point(rng, Some(&msg[..32]));
                self.hmqv_key(&msg[..32], &self.epk.clone(), &upk)?;
                let m1 = self.my_mac(to32(&self.macs[32..]), &self.macs[..32], &[]);
                Ok(Some([self.epk.clone(), m1, self.my_cert()].concat()))
            }
            2 => {
                need(msg.len() == 192, "length")?;
                let upk = self.take_cert(&msg[64..])?;
                self.hmqv_key(&self.epk.clone(), &msg[..32], &upk)?;
                self.check(msg[32..64] == self.macs[32..], "mac1")?;
                self.done = true;
                Ok(Some(self.my_mac(to32(&self.macs[..32]), &self.macs[32..], &msg[32..64])))
            }
            _ => {
                self.check(msg == &self.macs[..32], "mac0")?;
                self.done = true;
                Ok(None)
            }
        }
    }
    fn fg_key(&mut self, id: &[u8], x: &[u8], e: &[u8]) -> Res<()> {
        self.peer = Some(to32(id));
        self.peer_cert = [id, x].concat();
        let h = hash_scalar(&[&[2], id, x]);
        let (x, e, y) = (point(x)?, point(e)?, point(&self.c.mpk)?);
        let Usk::Fg(s) = &self.c.usk else { unreachable!() };
        let s = if self.tw.no_static { Scalar::ZERO } else { *s };
        let mut alpha = e * self.es;
        let full = e + x + y * h;
        let mut beta = if self.tw.eph == Some(3) { full * self.es } else { full * (self.es + s) };
        match self.tw.key_mode {
            1 => beta = alpha,
            2 => alpha = RistrettoPoint::identity(),
            3 => {
                alpha = RistrettoPoint::identity();
                beta = alpha;
            }
            _ => {}
        }
        let k = expand(&[enc(&alpha), enc(&beta)].concat(), &[b"fg-expand"], 96);
        self.macs = k[..64].to_vec();
        self.key = Some(to32(&k[64..]));
        Ok(())
    }
    fn fg(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        match self.step {
            0 => {
                self.epk = self.eph_point(rng, None);
                Ok(Some([self.my_cert(), self.epk.clone()].concat()))
            }
            1 => {
                need(msg.len() == 96, "length")?;
                self.epk = self.eph_point(rng, Some(&msg[64..]));
                self.fg_key(&msg[..32], &msg[32..64], &msg[64..])?;
                let m1 = self.my_mac(to32(&self.macs[32..]), &self.macs[..32], &[]);
                Ok(Some([self.my_cert(), self.epk.clone(), m1].concat()))
            }
            2 => {
                need(msg.len() == 128, "length")?;
                self.fg_key(&msg[..32], &msg[32..64], &msg[64..96])?;
                self.check(msg[96..] == self.macs[32..], "mac1")?;
                self.done = true;
                Ok(Some(self.my_mac(to32(&self.macs[..32]), &self.macs[32..], &msg[96..])))
            }
            _ => {
                self.check(msg == &self.macs[..32], "mac0")?;
                self.done = true;
                Ok(None)
            }
        }
    }
    fn sigdh(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        let ini = self.role == PartyRole::Initiator;
        let Usk::SigDh(_, x) = self.c.usk.clone() else { unreachable!() };
        let mut got = None;
        if !msg.is_empty() {
            need(msg.len() == 256, "length")?;
            let upk = self.take_cert(&msg[96..])?;
            let role = if ini { 1u8 } else { 0 };
            self.check(self.verify(&upk[..32], &[&[role], &self.ssid[..], &msg[..32]].concat(), &msg[32..96]), "signature")?;
            got = Some((to32(&msg[..32]), to32(&upk[32..])));
        }
        let mut out = None;
        if self.step < 2 {
            let xs = StaticSecret::from(rng.b32());
            self.epk = match (self.tw.eph, &got) {
                (Some(0), _) => vec![0; 32],
                (Some(1), Some((e, _))) => e.to_vec(),
                (Some(2), _) => vec![0xff; 32],
                (Some(4), _) => self.my_cert()[64..96].to_vec(),
                (Some(5), Some((_, u))) => u.to_vec(),
                _ => XPub::from(&xs).to_bytes().to_vec(),
            };
            self.xs = Some(xs);
            let role = if ini != self.tw.sig_role { 0u8 } else { 1 };
            let ssid = self.tw.sig_ssid.unwrap_or(self.ssid);
            let signed = if self.tw.sig_stale { rng.bytes(32) } else { self.epk.clone() };
            let mut tail = [self.sign(&[&[role], &ssid[..], &signed].concat()), self.my_cert()].concat();
            if self.tw.echo && msg.len() == 256 {
                tail = msg[32..].to_vec();
            }
            out = Some([self.epk.clone(), tail].concat());
        }
        if let Some((e, u)) = got {
            let xs = self.xs.clone().unwrap();
            let (u, e2) = (XPub::from(u), XPub::from(e));
            let z = |a: &StaticSecret, b: &XPub, stat: bool| if stat && self.tw.no_static { [0; 32] } else { a.diffie_hellman(b).to_bytes() };
            let z1 = z(&x, &u, true);
            let z4 = z(&xs, &e2, false);
            let (a, b) = (z(&x, &e2, true), z(&xs, &u, false));
            let (z2, z3) = if ini { (b, a) } else { (a, b) };
            let (_, hk) = Kdf::extract(None, &[z1, z2, z3, z4].concat());
            let (ei, er) = if ini { (self.epk.clone(), e.to_vec()) } else { (e.to_vec(), self.epk.clone()) };
            let mut k = [0; 32];
            hk.expand_multi_info(&[&self.ssid, &ei, &er], &mut k).unwrap();
            self.key = Some(k);
            self.done = true;
        }
        Ok(out)
    }
    fn sigma_keys(&mut self, ss: &[u8]) {
        let g = |l: &[u8], n| expand(ss, &[l], n);
        self.keys = vec![g(b"output_key", 32), g(b"mac_key", 32), g(b"enc_key_a", 64), g(b"enc_key_b", 64)];
        self.key = Some(to32(&self.keys[0]));
    }
    fn sigma_tbs(&self, dir: u8, ssid: &B32, cert: &[u8]) -> Vec<u8> {
        if dir == 0 {
            [&[0], &self.nonces[1][..], ssid, &self.kem_pk, &self.encapped, cert].concat()
        } else {
            [&[1], &self.nonces[0][..], ssid, &self.encapped, &self.kem_pk, cert].concat()
        }
    }
    fn sigma_proof(&mut self, rng: &mut PRng, dir: u8, incoming: &[u8]) -> Vec<u8> {
        let cert = self.my_cert();
        let ssid = self.tw.sig_ssid.unwrap_or(self.ssid);
        let d = if self.tw.sig_role { 1 - dir } else { dir };
        let mut tbs = self.sigma_tbs(d, &ssid, &cert);
        if self.tw.sig_stale {
            tbs[1] ^= 1;
        }
        let sig = self.sign(&tbs);
        let m = |d: u8| mac(&self.keys[1], &[&[d], &cert[..32]]);
        let mut body = [sig, self.my_mac(m(dir), &m(1 - dir), &[]), cert.clone()].concat();
        if self.tw.echo && !incoming.is_empty() {
            body = incoming.to_vec();
        }
        if let Some(b) = &self.tw.body {
            body = b.clone();
        }
        let k = self.keys[2 + dir as usize].clone();
        seal(rng, &k, &body)
    }
    fn sigma_check(&mut self, dir: u8, msg: &[u8]) -> Res<Vec<u8>> {
        let p = open(&self.keys[2 + dir as usize], msg)?;
        let sl = sig_len(self.c.ik);
        need(p.len() == sl + 32 + cert_len(self.c.ik), "length")?;
        let cert = p[sl + 32..].to_vec();
        let upk = self.take_cert(&cert)?;
        self.check(self.verify(&upk, &self.sigma_tbs(dir, &self.ssid, &cert), &p[..sl]), "signature")?;
        self.check(mac(&self.keys[1], &[&[dir], &cert[..32]]) == p[sl..sl + 32], "mac")?;
        Ok(p)
    }
    fn sigma(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        let lp = saber::LIGHT;
        match self.step {
            0 => {
                self.nonces[0] = rng.bytes(32);
                let (pk, sk) = saber::cpa_keypair(lp, &rng.bytes(32), &rng.bytes(32));
                self.kem_pk = pk;
                self.kem_sk = sk;
                if self.tw.eph == Some(0) {
                    self.kem_pk = vec![0; lp.pk_len()];
                }
                Ok(Some([self.nonces[0].clone(), self.kem_pk.clone()].concat()))
            }
            1 => {
                need(msg.len() == 32 + lp.pk_len(), "length")?;
                self.nonces[0] = msg[..32].to_vec();
                self.nonces[1] = if self.tw.eph == Some(1) { msg[..32].to_vec() } else { rng.bytes(32) };
                self.kem_pk = msg[32..].to_vec();
                let ss = rng.bytes(32);
                self.encapped = saber::cpa_enc(lp, &ss, &rng.bytes(32), &self.kem_pk);
                self.sigma_keys(&ss);
                Ok(Some([self.nonces[1].clone(), self.encapped.clone()].concat()))
            }
            2 => {
                need(msg.len() == 32 + lp.ct_len(), "length")?;
                self.nonces[1] = msg[..32].to_vec();
                self.encapped = msg[32..].to_vec();
                let ss = saber::cpa_dec(lp, &self.encapped, &self.kem_sk);
                self.sigma_keys(&ss);
                Ok(Some(self.sigma_proof(rng, 0, &[])))
            }
            3 => {
                let got = self.sigma_check(0, msg)?;
                self.done = true;
                Ok(Some(self.sigma_proof(rng, 1, &got)))
            }
            _ => {
                self.sigma_check(1, msg)?;
                self.done = true;
                Ok(None)
            }
        }
    }
    pub fn result(&self) -> Res<Fin> {
        need(self.done, "not done")?;
        let mut key = self.key.unwrap();
        if self.c.ik == IK::Fg {
            let mut x = Extract::new(Some(b"fgibke-tr-hash"));
            self.tr.iter().for_each(|m| x.input_ikm(m));
            x.input_ikm(&key);
            let (_, hk) = x.finalize();
            hk.expand_multi_info(&[&self.ssid, b"fgibke-final"], &mut key).unwrap();
        }
        Ok(Fin { id: self.peer, key })
    }
}

// ---- password exchanges
pub struct MPake {
    pk: PK,
    pw: Vec<u8>,
    ssid: B32,
    step: usize,
    done: bool,
    key: Option<B32>,
    sp: Option<spake2::Spake2<spake2::Ed25519Group>>,
    first: Vec<u8>,
    macs: Vec<u8>,
    sk: Vec<u8>,
    cp: Option<pake_cpace::Step1Out>,
}
const CP: (&str, &str) = ("latke_cpace_initiator", "latke_cpace_responder");
impl MPake {
    pub fn new(pk: PK, rng: &mut PRng, ssid: B32, pw: &[u8], role: PartyRole) -> MPake {
        let mut m = MPake {
            pk, pw: pw.to_vec(), ssid, step: (role == PartyRole::Responder) as usize, done: false, key: None, sp: None, first: vec![],
            macs: vec![], sk: vec![], cp: None,
        };
        if pk == PK::Kc {
            let (s, f) = spake2::Spake2::<spake2::Ed25519Group>::start_symmetric_with_rng(
                &spake2::Password::new(pw),
                &spake2::Identity::new(&ssid),
                rng,
            );
            m.sp = Some(s);
            m.first = f;
        }
        m
    }
    fn kc(&mut self, peer: &[u8]) -> Res<()> {
        let k = self.sp.take().ok_or("used")?.finish(peer).map_err(|e| format!("{e:?}"))?;
        let (a, b) = if self.step % 2 == 0 { (self.first.clone(), peer.to_vec()) } else { (peer.to_vec(), self.first.clone()) };
        let o = expand(&k, &[&self.pw, b"latke_kc_spake2", &a, &b, &k], 96);
        self.macs = o[..64].to_vec();
        self.key = Some(to32(&o[64..]));
        Ok(())
    }
    pub fn run(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        need(!self.done, "finished")?;
        use base64::prelude::*;
        let b64 = BASE64_STANDARD.encode(&self.pw);
        let ad = Some(self.ssid);
        let lp = saber::LIGHT;
        let out = match (self.pk, self.step) {
            (PK::Kc, 0) => Some(self.first.clone()),
            (PK::Kc, 1) => {
                self.kc(msg)?;
                Some([&self.first, &self.macs[32..]].concat())
            }
            (PK::Kc, 2) => {
                need(msg.len() == 65, "length")?;
                self.kc(&msg[..33])?;
                need(msg[33..] == self.macs[32..], "mac1")?;
                self.done = true;
                Some(self.macs[..32].to_vec())
            }
            (PK::Kc, _) => {
                need(msg == &self.macs[..32], "mac0")?;
                self.done = true;
                None
            }
            (PK::Cake, 0) => {
                let (mut pk, sk) = saber::cpa_keypair(lp, &rng.bytes(32), &rng.bytes(32));
                self.sk = sk;
                wide::encrypt(&cake_key(0, &self.ssid, &self.pw), &mut pk);
                Some(pk)
            }
            (PK::Cake, 1) => {
                need(msg.len() == lp.pk_len(), "length")?;
                let mut pk = msg.to_vec();
                wide::decrypt(&cake_key(0, &self.ssid, &self.pw), &mut pk);
                let k = rng.b32();
                let mut ct = saber::cpa_enc(lp, &k, &rng.bytes(32), &pk);
                self.key = Some(k);
                self.done = true;
                wide::encrypt(&cake_key(1, &self.ssid, &self.pw), &mut ct);
                Some(ct)
            }
            (PK::Cake, _) => {
                need(msg.len() == lp.ct_len(), "length")?;
                let mut ct = msg.to_vec();
                wide::decrypt(&cake_key(1, &self.ssid, &self.pw), &mut ct);
                self.key = Some(to32(&saber::cpa_dec(lp, &ct, &self.sk)));
                self.done = true;
                None
            }
            (PK::Cpace, 0) => {
                let c = pake_cpace::CPace::step1(&b64, CP.0, CP.1, ad).map_err(|e| format!("{e:?}"))?;
                let m = c.packet().to_vec();
                self.cp = Some(c);
                Some(m)
            }
            (PK::Cpace, 1) => {
                let p: [u8; 48] = msg.try_into().map_err(|_| "length")?;
                let c = pake_cpace::CPace::step2(&p, &b64, CP.0, CP.1, ad).map_err(|e| format!("{e:?}"))?;
                self.key = Some(c.shared_keys().k1);
                self.done = true;
                Some(c.packet().to_vec())
            }
            (PK::Cpace, _) => {
                let p: [u8; 32] = msg.try_into().map_err(|_| "length")?;
                self.key = Some(self.cp.as_ref().unwrap().step3(&p).map_err(|e| format!("{e:?}"))?.k1);
                self.done = true;
                None
            }
        };
        self.step += 2;
        Ok(out)
    }
    pub fn result(&self) -> Res<B32> {
        need(self.done, "not done")?;
        Ok(self.key.unwrap())
    }
}

// ---- composed protocol
pub struct MLatke {
    pub role: PartyRole,
    pub ssid: B32,
    pub peer: Option<B32>,
    pub pake: MPake,
    pub ibke: MIbke,
    eue: Option<(Vec<u8>, Vec<u8>)>,
    first: bool,
    tr: Vec<Vec<u8>>,
    /// plaintexts of the encrypted phase: sent by this end, in order
    pub plain: Vec<Vec<u8>>,
    /// plaintexts received
    pub heard: Vec<Vec<u8>>,
}
fn ratchet(k: &mut (Vec<u8>, Vec<u8>)) {
    let c = expand(&k.0, &[b"chain key"], 32);
    let m = expand(&k.0, &[b"msg key"], 64);
    *k = (c, m);
}
impl MLatke {
    pub fn new(pk: PK, rng: &mut PRng, ssid: B32, cred: MCred, role: PartyRole, peer: Option<B32>, tw: Twist) -> MLatke {
        let mut input = cred.mpk.clone();
        if let Some(p) = peer {
            let me = to32(&tw.cert.as_ref().unwrap_or(&cred.cert)[..32]);
            let (a, b) = if role == PartyRole::Initiator { (me, p) } else { (p, me) };
            input.extend(a);
            input.extend(b);
        }
        Self::with_input(pk, rng, ssid, cred, role, peer, tw, &input)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn with_input(pk: PK, rng: &mut PRng, ssid: B32, cred: MCred, role: PartyRole, peer: Option<B32>, tw: Twist, input: &[u8]) -> MLatke {
        MLatke {
            role, ssid, peer, pake: MPake::new(pk, rng, ssid, input, role), ibke: MIbke::new(cred, ssid, role, tw), eue: None,
            first: role == PartyRole::Initiator, tr: vec![], plain: vec![], heard: vec![],
        }
    }
    fn eue_run(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        let inner = if self.first && msg.is_empty() { vec![] } else { open(&self.eue.as_ref().unwrap().1, msg)? };
        if !inner.is_empty() {
            self.heard.push(inner.clone());
        }
        let ks = self.eue.as_mut().unwrap();
        if !self.first {
            ratchet(ks);
        }
        self.first = false;
        let out = self.ibke.run(rng, &inner)?;
        let ks = self.eue.as_mut().unwrap();
        let out = out.map(|p| {
            let c = if p.is_empty() { vec![] } else { seal(rng, &ks.1, &p) };
            self.plain.push(p);
            c
        });
        ratchet(ks);
        Ok(out)
    }
    pub fn run(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        let out = if self.eue.is_some() {
            self.eue_run(rng, msg)?
        } else {
            let mut o = if self.pake.done { None } else { self.pake.run(rng, msg)? };
            let just = self.pake.done;
            if o.is_none() {
                let k = self.pake.result()?;
                self.eue = Some((
                    expand(&k, &[b"init chain key", &self.ssid], 32),
                    expand(&k, &[b"init msg key", &self.ssid], 64),
                ));
                o = if self.role == PartyRole::Initiator {
                    self.eue_run(rng, &[])?
                } else if just && msg.len() == 32 && self.pake.pk == PK::Kc {
                    None
                } else {
                    self.eue_run(rng, msg)?
                };
            }
            o
        };
        if !msg.is_empty() {
            self.tr.push(msg.to_vec());
        }
        if let Some(o) = &out {
            self.tr.push(o.clone());
        }
        Ok(out)
    }
    pub fn result(&self) -> Res<Fin> {
        let f = self.ibke.result()?;
        need(self.peer.is_none() || self.peer == f.id, "another peer")?;
        let mut x = Extract::new(Some(b"latke-tr-hash"));
        self.tr.iter().for_each(|m| x.input_ikm(m));
        x.input_ikm(&f.key);
        let (_, hk) = x.finalize();
        let mut key = [0; 32];
        hk.expand(b"latke-final", &mut key).unwrap();
        Ok(Fin { id: f.id, key })
    }
}

// ---- baseline
pub struct MChip {
    c: ChipCredM,
    pk: PK,
    ssid: B32,
    role: PartyRole,
    other: B32,
    r: Scalar,
    mine: Vec<u8>,
    theirs: Vec<u8>,
    step: usize,
    pake: Option<MPake>,
    tw: Twist,
}
impl MChip {
    pub fn new(pk: PK, ssid: B32, c: ChipCredM, role: PartyRole, other: B32, tw: Twist) -> MChip {
        MChip { c, pk, ssid, role, other, r: Scalar::ZERO, mine: vec![], theirs: vec![], step: 0, pake: None, tw }
    }
    fn first(&mut self, rng: &mut PRng) -> Vec<u8> {
        self.r = scalar(rng);
        let x = self.tw.cert.as_ref().map(|c| to32(&c[32..64])).unwrap_or(self.c.X);
        let honest = RistrettoPoint::mul_base(&self.r);
        let r = match self.tw.eph {
            Some(0) => {
                self.r = Scalar::ZERO;
                RistrettoPoint::identity()
            }
            Some(3) => {
                let id = self.tw.cert.as_ref().map(|c| to32(&c[..32])).unwrap_or(self.c.id);
                honest - point(&x).unwrap_or(RistrettoPoint::identity()) - self.c.Y * hash_scalar(&[&[2], &id, &x])
            }
            _ => honest,
        };
        self.mine = [x, enc(&r)].concat();
        self.mine.clone()
    }
    fn secret(&self) -> Res<Vec<u8>> {
        need(self.theirs.len() == 64, "length")?;
        let (X, R) = (point(&self.theirs[..32])?, point(&self.theirs[32..])?);
        let h = hash_scalar(&[&[2], &self.other, &self.theirs[..32]]);
        let s = if self.tw.no_static { Scalar::ZERO } else { self.c.xhat };
        let mut alpha = R * self.r;
        let full = R + X + self.c.Y * h;
        let mut beta = if self.tw.eph == Some(3) { full * self.r } else { full * (self.r + s) };
        match self.tw.key_mode {
            1 => beta = alpha,
            2 => alpha = RistrettoPoint::identity(),
            3 => {
                alpha = RistrettoPoint::identity();
                beta = alpha;
            }
            _ => {}
        }
        let tr = if self.role == PartyRole::Initiator { [self.mine.clone(), self.theirs.clone()] } else { [self.theirs.clone(), self.mine.clone()] };
        Ok([&enc(&alpha)[..], &enc(&beta), &tr.concat()].concat())
    }
    fn run(&mut self, rng: &mut PRng, msg: &[u8]) -> Res<Option<Vec<u8>>> {
        let ini = self.role == PartyRole::Initiator;
        let out = match (ini, self.step) {
            (true, 0) => Some(self.first(rng)),
            (false, 0) => {
                self.theirs = msg.to_vec();
                Some(self.first(rng))
            }
            (_, 1) => {
                if ini {
                    self.theirs = msg.to_vec();
                }
                let s = self.secret()?;
                let mut p = MPake::new(self.pk, rng, self.ssid, &s, self.role);
                let o = p.run(rng, if ini { &[] } else { msg })?;
                self.pake = Some(p);
                o
            }
            _ => self.pake.as_mut().unwrap().run(rng, msg)?,
        };
        self.step += 1;
        Ok(out)
    }
}

// ---- as sessions and credentials
pub enum MSess {
    Latke(MLatke),
    Chip(MChip),
    Ibke(MIbke),
    Pake(MPake),
}
impl Sess for MSess {
    fn step(&mut self, rng: &mut PRng, msg: &[u8]) -> Step {
        let r = match self {
            MSess::Latke(s) => s.run(rng, msg),
            MSess::Chip(s) => s.run(rng, msg),
            MSess::Ibke(s) => s.run(rng, msg),
            MSess::Pake(s) => s.run(rng, msg),
        };
        match r {
            Ok(Some(m)) => Step::Msg(m),
            Ok(None) => Step::Nothing,
            Err(e) => Step::Err(e),
        }
    }
    fn is_done(&self) -> bool {
        self.finalize().is_ok()
    }
    fn finalize(&self) -> Result<Fin, String> {
        match self {
            MSess::Latke(s) => s.result(),
            MSess::Chip(s) => s.pake.as_ref().ok_or("not done".to_string())?.result().map(|key| Fin { id: None, key }),
            MSess::Ibke(s) => s.result(),
            MSess::Pake(s) => s.result().map(|key| Fin { id: None, key }),
        }
    }
    fn peer_public(&self) -> Option<Vec<u8>> {
        let i = match self {
            MSess::Latke(s) => &s.ibke,
            MSess::Ibke(s) => s,
            MSess::Chip(s) => return (s.theirs.len() == 64).then(|| s.theirs[..32].to_vec()),
            MSess::Pake(_) => return None,
        };
        let n = upk_len(i.c.ik);
        (i.peer_cert.len() >= 32 + n).then(|| i.peer_cert[32..32 + n].to_vec())
    }
    fn plains(&self) -> [Vec<Vec<u8>>; 2] {
        match self {
            MSess::Latke(s) => [s.plain.clone(), s.heard.clone()],
            _ => [vec![], vec![]],
        }
    }
}
#[derive(Clone)]
pub enum MC {
    Ibke(MCred),
    Chip(ChipCredM),
    Pw(Vec<u8>),
}
#[derive(Clone)]
pub struct ModelCred {
    pub proto: Proto,
    pub c: MC,
    pub tw: Twist,
}
impl CredT for ModelCred {
    fn dup(&self) -> Cred {
        Box::new(self.clone())
    }
    fn start(&self, rng: &mut PRng, ssid: B32, role: PartyRole, peer: Option<B32>) -> Box<dyn Sess> {
        let tw = self.tw.clone();
        Box::new(match (self.proto, self.c.clone()) {
            (Proto::Latke(_, pk), MC::Ibke(c)) => MSess::Latke(MLatke::new(pk, rng, ssid, c, role, peer, tw)),
            (Proto::Chip(pk), MC::Chip(c)) => MSess::Chip(MChip::new(pk, ssid, c, role, peer.expect("peer"), tw)),
            (Proto::Ibke(_), MC::Ibke(c)) => MSess::Ibke(MIbke::new(c, ssid, role, tw)),
            (Proto::Pake(pk), MC::Pw(p)) => MSess::Pake(MPake::new(pk, rng, ssid, &p, role)),
            _ => panic!("credential of another protocol"),
        })
    }
}
/// Enrolment as the protocol descriptions have it.
pub fn enroll_model(proto: Proto, rng: &mut PRng, pw: &[u8], id: &B32) -> ModelCred {
    let c = match proto {
        Proto::Latke(i, _) | Proto::Ibke(i) => MC::Ibke(Kgc::of_password(i, pw).issue(rng, id)),
        Proto::Chip(_) => MC::Chip(chip_issue(rng, pw, id)),
        Proto::Pake(_) => MC::Pw(pw.to_vec()),
    };
    ModelCred { proto, c, tw: Twist::default() }
}

//! The system under test behind one object-safe interface: every protocol the crate offers, as a session
//! that is stepped message by message.  Panics of the code are caught and reported as an outcome.
use crate::node::guarded;
use latke::chip::{Chip, ChipPwfile};
use latke::ibke::fg_ibke::FgIbkeC;
use latke::ibke::id_hmqv_c::IdHmqvC;
use latke::ibke::id_sig_dh::IdSigDh;
use latke::ibke::id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519};
use latke::latke::{Latke, LatkePwfile, PeerModel};
use latke::pake::cake::Cake;
use latke::pake::cpace::Cpace;
use latke::pake::kc_spake2::KcSpake2;
use latke::{IdentityBasedKeyExchange, Pake, PartyRole};
use rand_chacha::ChaCha20Rng;
use rand_core::{CryptoRng, RngCore, SeedableRng};

pub type B32 = [u8; 32];

/// The caller-supplied generator of a node.
pub struct PRng {
    rng: ChaCha20Rng,
    stuck: Option<u64>,
    pub calls: u64,
    pub count: u64,
    /// invert the bytes from this offset to that of everything yielded
    pub invert: Option<(u64, u64)>,
    /// the requests so far, if asked for
    pub log: Option<Vec<(u64, u64)>>,
}
impl PRng {
    pub fn new(seed: u64) -> PRng {
        PRng { rng: ChaCha20Rng::seed_from_u64(seed), stuck: None, calls: 0, count: 0, invert: None, log: None }
    }
    /// Every call yields the same stream from its beginning.
    pub fn stuck(seed: u64) -> PRng {
        PRng { rng: ChaCha20Rng::seed_from_u64(seed), stuck: Some(seed), calls: 0, count: 0, invert: None, log: None }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill_bytes(&mut v);
        v
    }
    pub fn b32(&mut self) -> B32 {
        let mut v = [0; 32];
        self.fill_bytes(&mut v);
        v
    }
}
extern "C" {
    fn sim_pause(forced: i32);
}
impl RngCore for PRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe { sim_pause(0) };
        self.calls += 1;
        match self.stuck {
            Some(s) => ChaCha20Rng::seed_from_u64(s).fill_bytes(dest),
            None => self.rng.fill_bytes(dest),
        }
        if let Some((a, z)) = self.invert {
            for (i, b) in dest.iter_mut().enumerate() {
                if (a..z).contains(&(self.count + i as u64)) {
                    *b ^= 0xff;
                }
            }
        }
        if let Some(l) = &mut self.log {
            l.push((self.count, dest.len() as u64));
        }
        self.count += dest.len() as u64;
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for PRng {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum IK {
    Hmqv,
    SigDh,
    Fg,
    SigmaEd,
    SigmaDil,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum PK {
    Kc,
    Cake,
    Cpace,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Proto {
    Latke(IK, PK),
    Chip(PK),
    Ibke(IK),
    Pake(PK),
}
pub const IKS: [IK; 5] = [IK::Hmqv, IK::SigDh, IK::Fg, IK::SigmaEd, IK::SigmaDil];
pub const PKS: [PK; 3] = [PK::Kc, PK::Cake, PK::Cpace];

pub fn latkes() -> Vec<Proto> {
    IKS.iter().flat_map(|i| PKS.iter().map(move |p| Proto::Latke(*i, *p))).collect()
}
pub fn chips() -> Vec<Proto> {
    PKS.iter().map(|p| Proto::Chip(*p)).collect()
}
pub fn ibkes() -> Vec<Proto> {
    IKS.iter().map(|p| Proto::Ibke(*p)).collect()
}
pub fn pakes() -> Vec<Proto> {
    PKS.iter().map(|p| Proto::Pake(*p)).collect()
}
pub fn all_protos() -> Vec<Proto> {
    [latkes(), chips(), ibkes(), pakes()].concat()
}

pub fn pake_frames(p: PK) -> Vec<usize> {
    match p {
        PK::Kc => vec![33, 65, 32],
        PK::Cake => vec![672, 736],
        PK::Cpace => vec![48, 32],
    }
}
pub fn ibke_frames(i: IK) -> Vec<usize> {
    match i {
        IK::Fg => vec![96, 128, 32],
        IK::Hmqv => vec![160, 192, 32],
        IK::SigDh => vec![256, 256],
        IK::SigmaEd => vec![704, 768, 268, 268],
        IK::SigmaDil => vec![704, 768, 6260, 6260],
    }
}
pub const EUE_OVER: usize = 44;
/// Index of the first frame of the encrypted phase of a composed session (also: the initiator sends it).
pub fn eue_start(p: PK) -> usize {
    match p {
        PK::Kc => 4,
        PK::Cake | PK::Cpace => 2,
    }
}
/// Sizes of the frames of an honest run, initiator first; 0 is an empty turn.
pub fn frames(p: Proto) -> Vec<usize> {
    match p {
        Proto::Pake(p) => pake_frames(p),
        Proto::Ibke(i) => ibke_frames(i),
        Proto::Latke(i, p) => {
            let mut v = pake_frames(p);
            if p == PK::Kc {
                v.push(0);
            }
            v.extend(ibke_frames(i).iter().map(|n| n + EUE_OVER));
            v
        }
        Proto::Chip(p) => {
            let mut v = vec![64, 64];
            v.extend(pake_frames(p));
            v
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    Msg(Vec<u8>),
    Nothing,
    Err(String),
    Panic(String),
}
impl Step {
    pub fn ok(&self) -> bool {
        matches!(self, Step::Msg(_) | Step::Nothing)
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Step::Msg(_) => "msg",
            Step::Nothing => "nothing",
            Step::Err(_) => "err",
            Step::Panic(_) => "panic",
        }
    }
    pub fn frame(self) -> Vec<u8> {
        match self {
            Step::Msg(m) => m,
            _ => vec![],
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fin {
    pub id: Option<B32>,
    pub key: B32,
}

pub trait Sess: Send {
    fn step(&mut self, rng: &mut PRng, msg: &[u8]) -> Step;
    fn is_done(&self) -> bool;
    /// Err: the session refuses.
    fn finalize(&self) -> Result<Fin, String>;
    /// Model sessions only: public part of the peer's credential, as received.
    fn peer_public(&self) -> Option<Vec<u8>> {
        None
    }
    /// Model sessions only: plaintexts of the encrypted phase, sent and received.
    fn plains(&self) -> [Vec<Vec<u8>>; 2] {
        [vec![], vec![]]
    }
}
pub trait CredT: Send {
    fn dup(&self) -> Cred;
    fn start(&self, rng: &mut PRng, ssid: B32, role: PartyRole, peer: Option<B32>) -> Box<dyn Sess>;
}
pub type Cred = Box<dyn CredT>;

fn to_step<E: core::fmt::Debug>(r: Result<Result<Option<Vec<u8>>, E>, String>) -> Step {
    match r {
        Ok(Ok(Some(m))) => Step::Msg(m),
        Ok(Ok(None)) => Step::Nothing,
        Ok(Err(e)) => Step::Err(format!("{e:?}")),
        Err(p) => Step::Panic(p),
    }
}

// ---- composed protocol
struct LatkeCred<I: IdentityBasedKeyExchange, P: Pake>(LatkePwfile<I>, core::marker::PhantomData<fn() -> P>);
struct LatkeSess<I: IdentityBasedKeyExchange, P: Pake>(Latke<I, P>);
// ---- baseline
struct ChipCred<P: Pake>(ChipPwfile, core::marker::PhantomData<fn() -> P>);
struct ChipSess<P: Pake>(Chip<P>);
// ---- parts
struct IbkeCred<I: IdentityBasedKeyExchange> {
    mpk: I::MainPubkey,
    cert: I::Certificate,
    usk: I::UserPrivkey,
}
struct IbkeSess<I: IdentityBasedKeyExchange>(I);
struct PakeCred<P: Pake>(Vec<u8>, core::marker::PhantomData<fn() -> P>);
struct PakeSess<P: Pake>(P);

impl<I: IdentityBasedKeyExchange + Send + 'static, P: Pake + Send + 'static> CredT for LatkeCred<I, P>
where
    I::MainPubkey: Send,
    I::Certificate: Send,
    I::UserPrivkey: Send,
{
    fn dup(&self) -> Cred {
        Box::new(LatkeCred::<I, P>(self.0.clone(), self.1))
    }
    fn start(&self, rng: &mut PRng, ssid: B32, role: PartyRole, peer: Option<B32>) -> Box<dyn Sess> {
        let peer = match peer {
            Some(id) => PeerModel::PreSpecified(id),
            None => PeerModel::PostSpecified,
        };
        Box::new(LatkeSess(Latke::<I, P>::new_session(rng, ssid, self.0.clone(), role, peer)))
    }
}
impl<I: IdentityBasedKeyExchange + Send, P: Pake + Send> Sess for LatkeSess<I, P>
where
    I::MainPubkey: Send,
    I::Certificate: Send,
    I::UserPrivkey: Send,
{
    fn step(&mut self, rng: &mut PRng, msg: &[u8]) -> Step {
        to_step(guarded(|| Ok::<_, ()>(self.0.run(rng, msg))))
    }
    fn is_done(&self) -> bool {
        self.0.is_done()
    }
    fn finalize(&self) -> Result<Fin, String> {
        guarded(|| self.0.finalize()).map(|(id, key)| Fin { id: Some(id), key })
    }
}
impl<P: Pake + Send + 'static> CredT for ChipCred<P> {
    fn dup(&self) -> Cred {
        Box::new(ChipCred::<P>(self.0.clone(), self.1))
    }
    fn start(&self, rng: &mut PRng, ssid: B32, role: PartyRole, peer: Option<B32>) -> Box<dyn Sess> {
        Box::new(ChipSess(Chip::<P>::new_session(rng, ssid, self.0.clone(), role, peer.expect("peer"))))
    }
}
impl<P: Pake + Send> Sess for ChipSess<P> {
    fn step(&mut self, rng: &mut PRng, msg: &[u8]) -> Step {
        to_step(guarded(|| self.0.run(rng, msg)))
    }
    fn is_done(&self) -> bool {
        self.finalize().is_ok()
    }
    fn finalize(&self) -> Result<Fin, String> {
        guarded(|| self.0.finalize()).map(|key| Fin { id: None, key })
    }
}
impl<I: IdentityBasedKeyExchange + Send + 'static> CredT for IbkeCred<I>
where
    I::MainPubkey: Send,
    I::Certificate: Send,
    I::UserPrivkey: Send,
{
    fn dup(&self) -> Cred {
        Box::new(IbkeCred::<I> { mpk: self.mpk.clone(), cert: self.cert.clone(), usk: self.usk.clone() })
    }
    fn start(&self, rng: &mut PRng, ssid: B32, role: PartyRole, _peer: Option<B32>) -> Box<dyn Sess> {
        Box::new(IbkeSess(I::new_session(rng, ssid, self.mpk.clone(), self.cert.clone(), self.usk.clone(), role)))
    }
}
impl<I: IdentityBasedKeyExchange + Send> Sess for IbkeSess<I> {
    fn step(&mut self, rng: &mut PRng, msg: &[u8]) -> Step {
        to_step(guarded(|| self.0.run(rng, msg)))
    }
    fn is_done(&self) -> bool {
        self.0.is_done()
    }
    fn finalize(&self) -> Result<Fin, String> {
        guarded(|| self.0.finalize()).map(|(id, key)| Fin { id: Some(id), key })
    }
}
impl<P: Pake + Send + 'static> CredT for PakeCred<P> {
    fn dup(&self) -> Cred {
        Box::new(PakeCred::<P>(self.0.clone(), self.1))
    }
    fn start(&self, rng: &mut PRng, ssid: B32, role: PartyRole, _peer: Option<B32>) -> Box<dyn Sess> {
        Box::new(PakeSess(P::new(rng, ssid, &self.0, role)))
    }
}
impl<P: Pake + Send> Sess for PakeSess<P> {
    fn step(&mut self, _rng: &mut PRng, msg: &[u8]) -> Step {
        to_step(guarded(|| self.0.run(msg)))
    }
    fn is_done(&self) -> bool {
        self.0.is_done()
    }
    fn finalize(&self) -> Result<Fin, String> {
        guarded(|| self.0.finalize()).map(|key| Fin { id: None, key })
    }
}

macro_rules! by_ibke {
    ($i:expr, $I:ident => $e:expr) => {
        match $i {
            IK::Hmqv => { type $I = IdHmqvC; $e }
            IK::SigDh => { type $I = IdSigDh; $e }
            IK::Fg => { type $I = FgIbkeC; $e }
            IK::SigmaEd => { type $I = IdSigmaREd25519; $e }
            IK::SigmaDil => { type $I = IdSigmaRDilithium2; $e }
        }
    };
}
macro_rules! by_pake {
    ($p:expr, $P:ident => $e:expr) => {
        match $p {
            PK::Kc => { type $P = KcSpake2; $e }
            PK::Cake => { type $P = Cake; $e }
            PK::Cpace => { type $P = Cpace; $e }
        }
    };
}

/// The seed from which the composed protocol derives the authority keys of a password.
pub fn pw_seed(pw: &[u8]) -> B32 {
    use blake2::digest::consts::U32;
    use blake2::{Blake2b, Digest};
    Blake2b::<U32>::digest(pw).into()
}

fn ibke_cred<I: IdentityBasedKeyExchange + Send + 'static>(rng: &mut PRng, pw: &[u8], id: &B32) -> IbkeCred<I> {
    // A key generation centre whose main key follows from a secret
    let (mpk, msk) = I::gen_main_keypair(rand_chacha::ChaCha12Rng::from_seed(pw_seed(pw)));
    let (upk, usk) = I::gen_user_keypair(&mut *rng);
    let cert = I::extract(&mut *rng, &msk, id, &upk);
    IbkeCred { mpk, cert, usk }
}

/// Real enrolment: turns a password and an identity into the stored credential.
pub fn enroll(proto: Proto, rng: &mut PRng, pw: &[u8], id: &B32) -> Cred {
    use core::marker::PhantomData as Ph;
    match proto {
        Proto::Latke(i, p) => by_ibke!(i, I => by_pake!(p, P => {
            Box::new(LatkeCred::<I, P>(Latke::<I, P>::gen_pwfile(rng, pw, id), Ph)) as Cred
        })),
        Proto::Chip(p) => by_pake!(p, P => Box::new(ChipCred::<P>(Chip::<P>::gen_pwfile(rng, pw.to_vec(), *id), Ph)) as Cred),
        Proto::Ibke(i) => by_ibke!(i, I => Box::new(ibke_cred::<I>(rng, pw, id)) as Cred),
        Proto::Pake(p) => by_pake!(p, P => Box::new(PakeCred::<P>(pw.to_vec(), Ph)) as Cred),
    }
}

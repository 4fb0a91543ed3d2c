use crate::runner::Prop;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
pub mod p15;
mod p16;
mod p17;
mod p18;
mod p19;

pub const REAL: &str = "latke (all sessions, IBKEs, PAKEs, EUE transform, ciphers), saber, pqcrypto-dilithium with its C code, and their dependencies: the code of /repo as built";
pub const STUB: &str = "operating system random source, clock and sleep (seam at the system-call wrappers), network and transport, process boundary (one thread per node), stable storage (a copy of the credential)";

pub fn all() -> Vec<Prop> {
    vec![p01::PROP, p02::PROP, p03::PROP, p04::PROP, p05::PROP, p06::PROP, p07::PROP, p08::PROP, p09::PROP, p10::PROP, p11::PROP, p12::PROP, p13::PROP, p14::PROP, p15::PROP, p16::PROP, p17::PROP, p18::PROP, p19::PROP]
}

/// The instances of the KEM and of the signature scheme.
pub fn kems() -> &'static [p13::Ops] {
    static A: std::sync::OnceLock<Vec<p13::Ops>> = std::sync::OnceLock::new();
    A.get_or_init(p13::all)
}
pub fn sigs() -> &'static [p14::Ops] {
    static A: std::sync::OnceLock<Vec<p14::Ops>> = std::sync::OnceLock::new();
    A.get_or_init(p14::all)
}

//! Independent implementations, written from the specifications: AES, Keccak, Saber, Dilithium.
pub mod aes;
pub mod dilithium;
pub mod keccak;
pub mod saber;

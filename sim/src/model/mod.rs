//! Oracles.
pub use oracle::{aes, dilithium, keccak, saber};
pub mod proto;

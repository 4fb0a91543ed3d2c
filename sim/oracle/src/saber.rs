//! Saber key encapsulation, written from the round-2 specification for this harness (three parameter sets).
use crate::keccak::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Par {
    pub k: usize,
    pub mu: usize,
    /// bits of a reconciliation coefficient
    pub rec: usize,
}
pub const LIGHT: Par = Par { k: 2, mu: 10, rec: 3 };
pub const SABER: Par = Par { k: 3, mu: 8, rec: 4 };
pub const FIRE: Par = Par { k: 4, mu: 6, rec: 6 };

type Poly = [i64; 256];

impl Par {
    pub fn pk_len(&self) -> usize {
        self.k * 320 + 32
    }
    pub fn cpa_sk_len(&self) -> usize {
        self.k * 416
    }
    pub fn sk_len(&self) -> usize {
        self.cpa_sk_len() + self.pk_len() + 64
    }
    pub fn ct_len(&self) -> usize {
        self.k * 320 + self.rec * 32
    }
}

fn bits_in(bytes: &[u8], n: usize) -> Vec<i64> {
    let count = bytes.len() * 8 / n;
    (0..count)
        .map(|i| {
            let mut v = 0i64;
            for j in 0..n {
                let p = i * n + j;
                v |= (((bytes[p / 8] >> (p % 8)) & 1) as i64) << j;
            }
            v
        })
        .collect()
}
fn bits_out(c: &[i64], n: usize) -> Vec<u8> {
    let mut o = vec![0u8; c.len() * n / 8];
    for (i, v) in c.iter().enumerate() {
        for j in 0..n {
            let p = i * n + j;
            o[p / 8] |= (((v >> j) & 1) as u8) << (p % 8);
        }
    }
    o
}
fn polys(bytes: &[u8], n: usize) -> Vec<Poly> {
    bits_in(bytes, n).chunks(256).map(|c| c.try_into().unwrap()).collect()
}
fn mul(a: &Poly, b: &Poly) -> Poly {
    let mut w = [0i64; 512];
    for i in 0..256 {
        if a[i] == 0 {
            continue;
        }
        for j in 0..256 {
            w[i + j] += a[i] * b[j];
        }
    }
    let mut c = [0i64; 256];
    for i in 0..256 {
        c[i] = w[i] - w[i + 256];
    }
    c
}
fn inner(a: &[Poly], b: &[Poly]) -> Poly {
    let mut c = [0i64; 256];
    for (x, y) in a.iter().zip(b) {
        let m = mul(x, y);
        for i in 0..256 {
            c[i] += m[i];
        }
    }
    c
}
fn matrix(p: Par, seed: &[u8]) -> Vec<Vec<Poly>> {
    let all = polys(&shake(128, &[seed], p.k * p.k * 416), 13);
    all.chunks(p.k).map(|r| r.to_vec()).collect()
}
fn secret(p: Par, seed: &[u8]) -> Vec<Poly> {
    let bits = bits_in(&shake(128, &[seed], p.k * 256 * p.mu / 8), 1);
    let h = p.mu / 2;
    bits.chunks(p.mu)
        .map(|c| c[..h].iter().sum::<i64>() - c[h..].iter().sum::<i64>())
        .collect::<Vec<i64>>()
        .chunks(256)
        .map(|c| c.try_into().unwrap())
        .collect()
}
fn round3(v: Poly) -> Poly {
    let mut o = v;
    for c in o.iter_mut() {
        *c = ((*c + 4).rem_euclid(8192)) >> 3;
    }
    o
}
fn pack(v: &[Poly], n: usize) -> Vec<u8> {
    v.iter().flat_map(|p| bits_out(p, n)).collect()
}

/// (public key, secret key)
pub fn cpa_keypair(p: Par, seed: &[u8], noise: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let a = matrix(p, seed);
    let s = secret(p, noise);
    let b: Vec<Poly> = (0..p.k).map(|i| round3(inner(&a[i], &s))).collect();
    let mut pk = pack(&b, 10);
    pk.extend(seed);
    let sk: Vec<Poly> = s
        .iter()
        .map(|x| {
            let mut y = *x;
            y.iter_mut().for_each(|c| *c = c.rem_euclid(8192));
            y
        })
        .collect();
    (pk, pack(&sk, 13))
}
pub fn cpa_enc(p: Par, m: &[u8], noise: &[u8], pk: &[u8]) -> Vec<u8> {
    let (b, seed) = pk.split_at(p.k * 320);
    let a = matrix(p, seed);
    let s = secret(p, noise);
    let bp: Vec<Poly> = (0..p.k)
        .map(|i| {
            let col: Vec<Poly> = (0..p.k).map(|j| a[j][i]).collect();
            round3(inner(&col, &s))
        })
        .collect();
    let mut ct = pack(&bp, 10);
    let mut v = inner(&polys(b, 10), &s);
    for (c, bit) in v.iter_mut().zip(bits_in(m, 1)) {
        *c = (*c + (bit << 9)).rem_euclid(1024) >> (10 - p.rec);
    }
    ct.extend(bits_out(&v, p.rec));
    ct
}
pub fn cpa_dec(p: Par, ct: &[u8], sk: &[u8]) -> Vec<u8> {
    let (b, rec) = ct.split_at(p.k * 320);
    let v = inner(&polys(b, 10), &polys(sk, 13));
    let r = bits_in(rec, p.rec);
    // the received bits name an interval of width 2^(10-rec); the message bit says on which side the shared value is
    let c1 = (1i64 << 8) - (1 << (9 - p.rec));
    let m: Vec<i64> = (0..256).map(|i| ((v[i] - (r[i] << (10 - p.rec)) + c1).rem_euclid(1024)) >> 9).collect();
    bits_out(&m, 1)
}

pub fn kem_keypair(p: Par, seed: &[u8], noise: &[u8], z: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (pk, cpa) = cpa_keypair(p, seed, noise);
    let sk = [&cpa[..], &pk, &sha3(256, &[&pk]), z].concat();
    (pk, sk)
}
pub fn kem_enc(p: Par, m: &[u8], pk: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let kr = sha3(512, &[&sha3(256, &[pk]), m]);
    let ct = cpa_enc(p, m, &kr[..32], pk);
    let ss = sha3(256, &[&sha3(256, &[&ct]), &kr[32..]]);
    (ss, ct)
}
pub fn kem_dec(p: Par, ct: &[u8], sk: &[u8]) -> Vec<u8> {
    let (cpa, rest) = sk.split_at(p.cpa_sk_len());
    let (pk, rest) = rest.split_at(p.pk_len());
    let (hpk, z) = rest.split_at(32);
    let m = cpa_dec(p, ct, cpa);
    let kr = sha3(512, &[hpk, &m]);
    let again = cpa_enc(p, &m, &kr[..32], pk);
    if again == ct {
        sha3(256, &[&sha3(256, &[ct]), &kr[32..]])
    } else {
        sha3(256, &[z, &kr[32..]])
    }
}

//! Dilithium written from its specification (round 3 with 64-byte tr and longer challenge hashes, deterministic
//! signing), with plain polynomial arithmetic: no NTT, no Montgomery form.
use crate::keccak::{shake, shake128, shake256, Sponge};

const Q: i64 = 8380417;
const N: usize = 256;
type Poly = [i64; N];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dp {
    pub k: usize,
    pub l: usize,
    pub eta: i64,
    pub tau: usize,
    pub beta: i64,
    pub g1: i64,
    pub g2: i64,
    pub omega: usize,
    pub ct: usize,
}
pub const D2: Dp = Dp { k: 4, l: 4, eta: 2, tau: 39, beta: 78, g1: 1 << 17, g2: (Q - 1) / 88, omega: 80, ct: 32 };
pub const D3: Dp = Dp { k: 6, l: 5, eta: 4, tau: 49, beta: 196, g1: 1 << 19, g2: (Q - 1) / 32, omega: 55, ct: 48 };
pub const D5: Dp = Dp { k: 8, l: 7, eta: 2, tau: 60, beta: 120, g1: 1 << 19, g2: (Q - 1) / 32, omega: 75, ct: 64 };

impl Dp {
    fn zbits(&self) -> usize {
        if self.g1 == 1 << 17 { 18 } else { 20 }
    }
    fn w1bits(&self) -> usize {
        if self.g2 == (Q - 1) / 88 { 6 } else { 4 }
    }
    fn etabits(&self) -> usize {
        if self.eta == 2 { 3 } else { 4 }
    }
    pub fn pk_len(&self) -> usize {
        32 + 320 * self.k
    }
    pub fn sk_len(&self) -> usize {
        128 + 32 * self.etabits() * (self.k + self.l) + 416 * self.k
    }
    pub fn sig_len(&self) -> usize {
        self.ct + 32 * self.zbits() * self.l + self.omega + self.k
    }
}

fn pack(out: &mut Vec<u8>, v: impl Iterator<Item = i64>, bits: usize) {
    let (mut acc, mut n) = (0u64, 0);
    for x in v {
        debug_assert!(x >= 0 && x < 1 << bits);
        acc |= (x as u64) << n;
        n += bits;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    }
}
fn unpack(b: &[u8], bits: usize) -> Poly {
    let mut p = [0; N];
    for (i, c) in p.iter_mut().enumerate() {
        for k in 0..bits {
            let at = i * bits + k;
            *c |= (((b[at / 8] >> (at % 8)) & 1) as i64) << k;
        }
    }
    p
}
fn xof(mut s: Sponge, seed: &[u8], nonce: u16) -> Sponge {
    s.absorb(seed);
    s.absorb(&nonce.to_le_bytes());
    s
}
type Matrix = std::rc::Rc<Vec<Vec<Poly>>>;
fn matrix(p: &Dp, rho: &[u8]) -> Matrix {
    thread_local! {
        static LAST: std::cell::RefCell<Vec<(usize, Vec<u8>, Matrix)>> = const { std::cell::RefCell::new(vec![]) };
    }
    if let Some(m) = LAST.with(|l| l.borrow().iter().find(|x| x.0 == p.k && x.1 == rho).map(|x| x.2.clone())) {
        return m;
    }
    let m = Matrix::new(expand(p, rho));
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.truncate(3);
        l.insert(0, (p.k, rho.to_vec(), m.clone()));
    });
    m
}
fn expand(p: &Dp, rho: &[u8]) -> Vec<Vec<Poly>> {
    (0..p.k)
        .map(|i| {
            (0..p.l)
                .map(|j| {
                    let mut s = xof(shake128(), rho, ((i << 8) + j) as u16);
                    let mut a = [0; N];
                    let mut n = 0;
                    while n < N {
                        let b = s.get(3);
                        let t = (b[0] as i64) | (b[1] as i64) << 8 | ((b[2] & 0x7f) as i64) << 16;
                        if t < Q {
                            a[n] = t;
                            n += 1;
                        }
                    }
                    // the specification samples the matrix in the transformed domain
                    inv_eval(&a)
                })
                .collect()
        })
        .collect()
}
fn pow(mut b: i64, mut e: i64) -> i64 {
    let mut r = 1;
    b %= Q;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
/// The values are those of the polynomial at the odd powers of 1753, in bit-reversed order: interpolate by definition.
fn inv_eval(v: &Poly) -> Poly {
    use std::sync::OnceLock;
    static T: OnceLock<(Vec<i64>, i64)> = OnceLock::new();
    let (pw, ninv) = T.get_or_init(|| ((0..512).map(|i| pow(1753, i)).collect(), pow(256, Q - 2)));
    let mut out = [0i64; N];
    for (j, o) in out.iter_mut().enumerate() {
        let mut acc: i64 = 0;
        for (i, x) in v.iter().enumerate() {
            let e = 2 * ((i as u8).reverse_bits() as usize) + 1;
            // root^(-e*j)
            let ex = (512 - (e * j) % 512) % 512;
            acc += x * pw[ex];
            if i % 64 == 63 {
                acc %= Q;
            }
        }
        *o = acc % Q * ninv % Q;
    }
    out
}
fn eta_poly(p: &Dp, seed: &[u8], nonce: usize) -> Poly {
    let mut s = xof(shake256(), seed, nonce as u16);
    let mut a = [0; N];
    let mut n = 0;
    while n < N {
        let b = s.get(1)[0];
        for t in [(b & 15) as i64, (b >> 4) as i64] {
            if n < N {
                if p.eta == 2 && t < 15 {
                    a[n] = 2 - t % 5;
                    n += 1;
                } else if p.eta == 4 && t < 9 {
                    a[n] = 4 - t;
                    n += 1;
                }
            }
        }
    }
    a
}
/// sum of products in Z_q[x]/(x^256+1), result in [0, q)
fn dot(a: &[Poly], b: &[Poly]) -> Poly {
    let mut lo = [0i64; 2 * N];
    for (x, y) in a.iter().zip(b) {
        for (i, xi) in x.iter().enumerate() {
            if *xi != 0 {
                for (o, yj) in lo[i..i + N].iter_mut().zip(y.iter()) {
                    *o += xi * yj;
                }
            }
        }
    }
    let mut r = [0; N];
    for i in 0..N {
        r[i] = (lo[i] - lo[i + N]).rem_euclid(Q);
    }
    r
}
fn cen(x: i64) -> i64 {
    let x = x.rem_euclid(Q);
    if x > Q / 2 { x - Q } else { x }
}
fn decompose(p: &Dp, r: i64) -> (i64, i64) {
    let r = r.rem_euclid(Q);
    let m = 2 * p.g2;
    let mut r0 = r % m;
    if r0 > p.g2 {
        r0 -= m;
    }
    if r - r0 == Q - 1 {
        (0, r0 - 1)
    } else {
        ((r - r0) / m, r0)
    }
}
fn challenge(p: &Dp, c: &[u8]) -> Poly {
    let mut s = shake256();
    s.absorb(&c[..32]);
    let mut signs = u64::from_le_bytes(s.get(8).try_into().unwrap());
    let mut out = [0; N];
    for i in N - p.tau..N {
        let j = loop {
            let b = s.get(1)[0] as usize;
            if b <= i {
                break b;
            }
        };
        out[i] = out[j];
        out[j] = 1 - 2 * (signs & 1) as i64;
        signs >>= 1;
    }
    out
}

/// Seeds (a counter, little endian, zeros behind it) that take key generation through rare turns. Together: every
/// pattern of two rejections among eight candidates for the matrix, candidates that equal q, q-1 and 2^23-1, every
/// pattern of four to six rejections among eight short coefficients.
const RARE: &[u32] = &[54, 94, 110, 155, 256, 296, 389, 505, 550, 623, 629, 748, 885, 1350, 1375, 1552, 1677, 1829, 1877, 1956, 1957, 2055, 2122, 2192, 2312, 2327, 2388, 2961, 3245, 3424, 3591, 4029, 4057, 4284, 4485, 4680, 4831, 5152, 5853, 6307, 7180, 9599, 10075, 10530, 12378, 12840, 16957, 17039, 18520, 19062, 19319, 19501, 19911, 19986, 21498, 23659, 24071, 26374, 29657, 29768, 29968, 30615, 31173, 31829, 34705, 37407, 37534, 39640, 47477, 54984, 58089, 60435, 76726, 89457, 91172, 94104, 96559, 98625, 102612, 105103, 116373, 125706, 152060, 158111, 159241, 161151, 170514, 181427, 198995, 199583, 214487, 215251, 216319, 218633, 234716, 235097, 240410, 266014, 344543, 346901, 369559, 381828, 392180, 439343, 531550, 545788];
/// ... and for D3: too few short coefficients in two blocks of output.
const RARE3: &[u32] = &[14857, 25783, 37186, 64265, 96422, 96584];
pub fn rare(p: &Dp, n: u32) -> u32 {
    let k = n as usize;
    match RARE.get(k) {
        Some(x) => *x,
        None if p.eta == 4 => RARE3[k % RARE3.len()],
        None => RARE[k % RARE.len()],
    }
}
pub fn rares() -> u32 {
    (RARE.len() + RARE3.len()) as u32
}
pub fn coins(n: u32) -> [u8; 32] {
    let mut b = [0; 32];
    b[..4].copy_from_slice(&n.to_le_bytes());
    b
}

pub fn keypair(p: &Dp, coins: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let s = shake(256, &[coins], 128);
    let (rho, rp, key) = (&s[..32], &s[32..96], &s[96..128]);
    let a = matrix(p, rho);
    let s1: Vec<Poly> = (0..p.l).map(|i| eta_poly(p, rp, i)).collect();
    let s2: Vec<Poly> = (0..p.k).map(|i| eta_poly(p, rp, p.l + i)).collect();
    let mut pk = rho.to_vec();
    let mut t0s = vec![];
    for i in 0..p.k {
        let mut t = dot(&s1, &a[i]);
        for j in 0..N {
            t[j] = (t[j] + s2[i][j]).rem_euclid(Q);
        }
        let t1 = t.map(|x| (x + (1 << 12) - 1) >> 13);
        let mut t0 = [0; N];
        for j in 0..N {
            t0[j] = t[j] - (t1[j] << 13);
        }
        pack(&mut pk, t1.iter().copied(), 10);
        t0s.push(t0);
    }
    let tr = shake(256, &[&pk], 64);
    let mut sk = [rho, key, &tr].concat();
    for x in s1.iter().chain(&s2) {
        pack(&mut sk, x.iter().map(|c| p.eta - c), p.etabits());
    }
    for x in &t0s {
        pack(&mut sk, x.iter().map(|c| (1 << 12) - c), 13);
    }
    (pk, sk)
}

pub fn sign(p: &Dp, m: &[u8], sk: &[u8]) -> Vec<u8> {
    sign_with(p, m, sk, Z::Honest)
}
/// What a signer does about the bound on z (everything else about the signature is right).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Z {
    Honest,
    /// somewhere beyond it
    Beyond,
    /// the largest coefficient, at this place, has this value
    At(usize, i64),
}
impl Dp {
    /// first magnitude of z that is not allowed
    pub fn z_bound(&self) -> i64 {
        self.g1 - self.beta
    }
}
pub fn sign_with(p: &Dp, m: &[u8], sk: &[u8], how: Z) -> Vec<u8> {
    let (rho, key, tr) = (&sk[..32], &sk[32..64], &sk[64..128]);
    let mut at = 128;
    let mut next = |n: usize| {
        at += n;
        &sk[at - n..at]
    };
    let eb = p.etabits();
    let s1: Vec<Poly> = (0..p.l).map(|_| unpack(next(32 * eb), eb).map(|c| p.eta - c)).collect();
    let s2: Vec<Poly> = (0..p.k).map(|_| unpack(next(32 * eb), eb).map(|c| p.eta - c)).collect();
    let t0: Vec<Poly> = (0..p.k).map(|_| unpack(next(416), 13).map(|c| (1 << 12) - c)).collect();
    let mu = shake(256, &[tr, m], 64);
    let rp = shake(256, &[key, &[0; 32], &mu], 64);
    let a = matrix(p, rho);
    let mut nonce = 0;
    loop {
        let zb = p.zbits();
        let mut y: Vec<Poly> = (0..p.l)
            .map(|i| {
                let b = xof(shake256(), &rp, (p.l * nonce + i) as u16).get(32 * zb);
                unpack(&b, zb).map(|c| p.g1 - c)
            })
            .collect();
        nonce += 1;
        if let Z::At(at, v) = how {
            // the rest stays away from the bound
            y.iter_mut().flatten().for_each(|c| *c = *c * 9 / 10);
            y[at / N][at % N] = v - (nonce % 7) as i64 + 3;
        }
        let w: Vec<Poly> = (0..p.k).map(|i| dot(&y, &a[i])).collect();
        let mut packed = vec![];
        for x in &w {
            pack(&mut packed, x.iter().map(|c| decompose(p, *c).0), p.w1bits());
        }
        let ct = shake(256, &[&mu, &packed], p.ct);
        let c = challenge(p, &ct);
        let mul = |s: &Poly| dot(&[c], std::slice::from_ref(s)).map(cen);
        let z: Vec<Poly> = (0..p.l)
            .map(|i| {
                let m = mul(&s1[i]);
                std::array::from_fn(|j| y[i][j] + m[j])
            })
            .collect();
        let out = z.iter().flatten().any(|x| x.abs() >= p.g1 - p.beta);
        let fine = match how {
            Z::Honest => !out,
            Z::Beyond => out,
            Z::At(at, v) => z.iter().flatten().enumerate().all(|(i, x)| if i == at { *x == v } else { x.abs() < v.abs() }),
        };
        if !fine || z.iter().flatten().any(|x| *x > p.g1 || *x <= -p.g1) {
            continue;
        }
        let mut ok = true;
        let mut hints: Vec<Vec<usize>> = vec![];
        let mut total = 0;
        for i in 0..p.k {
            let cs2 = mul(&s2[i]);
            let ct0 = mul(&t0[i]);
            let mut h = vec![];
            for j in 0..N {
                let (_, w0) = decompose(p, w[i][j]);
                let v = w[i][j] - cs2[j];
                ok &= (w0 - cs2[j]).abs() < p.g2 - p.beta && ct0[j].abs() < p.g2;
                if decompose(p, v).0 != decompose(p, v + ct0[j]).0 {
                    h.push(j);
                }
            }
            total += h.len();
            hints.push(h);
        }
        if !ok || total > p.omega {
            continue;
        }
        let mut sig = ct;
        for x in &z {
            pack(&mut sig, x.iter().map(|c| p.g1 - c), zb);
        }
        let mut hb = vec![0u8; p.omega + p.k];
        let mut n = 0;
        for (i, h) in hints.iter().enumerate() {
            for j in h {
                hb[n] = *j as u8;
                n += 1;
            }
            hb[p.omega + i] = n as u8;
        }
        sig.extend(hb);
        return sig;
    }
}

pub fn verify(p: &Dp, sig: &[u8], m: &[u8], pk: &[u8]) -> bool {
    if sig.len() != p.sig_len() || pk.len() != p.pk_len() {
        return false;
    }
    let zb = p.zbits();
    let ct = &sig[..p.ct];
    let z: Vec<Poly> = (0..p.l).map(|i| unpack(&sig[p.ct + 32 * zb * i..], zb).map(|c| p.g1 - c)).collect();
    let hb = &sig[p.ct + 32 * zb * p.l..];
    let mut h = vec![[false; N]; p.k];
    let mut at = 0usize;
    for i in 0..p.k {
        let end = hb[p.omega + i] as usize;
        if end < at || end > p.omega {
            return false;
        }
        for j in at..end {
            if j > at && hb[j] <= hb[j - 1] {
                return false;
            }
            h[i][hb[j] as usize] = true;
        }
        at = end;
    }
    if hb[at..p.omega].iter().any(|b| *b != 0) || z.iter().flatten().any(|x| x.abs() >= p.g1 - p.beta) {
        return false;
    }
    let a = matrix(p, &pk[..32]);
    let mu = shake(256, &[&shake(256, &[pk], 64), m], 64);
    let c = challenge(p, ct);
    let mm = (Q - 1) / (2 * p.g2);
    let mut packed = vec![];
    for i in 0..p.k {
        let t1 = unpack(&pk[32 + 320 * i..], 10).map(|x| x << 13);
        let az = dot(&z, &a[i]);
        let ct1 = dot(&[c], &[t1]);
        let w1 = (0..N).map(|j| {
            let (r1, r0) = decompose(p, az[j] - ct1[j]);
            if !h[i][j] {
                r1
            } else if r0 > 0 {
                (r1 + 1) % mm
            } else {
                (r1 + mm - 1) % mm
            }
        });
        pack(&mut packed, w1, p.w1bits());
    }
    shake(256, &[&mu, &packed], p.ct) == ct
}

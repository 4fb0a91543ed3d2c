//! AES block encryption, written from FIPS 197 for this harness.

fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static T: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u8; 256];
        for (i, o) in t.iter_mut().enumerate() {
            let inv = if i == 0 { 0 } else { (1..=255u8).find(|j| gmul(i as u8, *j) == 1).unwrap() };
            *o = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        t
    })
}

#[derive(Clone)]
pub struct Aes(Vec<[u8; 16]>);
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let s = sbox();
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (rounds + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = xt(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| s[b as usize]);
            }
            let p = w[i - nk];
            w.push(std::array::from_fn(|k| p[k] ^ t[k]));
        }
        Aes(w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect())
    }
    pub fn block(&self, input: &[u8]) -> [u8; 16] {
        let s = sbox();
        let mut b: [u8; 16] = std::array::from_fn(|i| input[i] ^ self.0[0][i]);
        let last = self.0.len() - 1;
        for (r, k) in self.0.iter().enumerate().skip(1) {
            let t: [u8; 16] = std::array::from_fn(|i| s[b[(i + 4 * (i % 4)) % 16] as usize]);
            b = if r == last {
                t
            } else {
                std::array::from_fn(|i| {
                    let c = &t[i / 4 * 4..i / 4 * 4 + 4];
                    let x = |k: usize| c[(i + k) % 4];
                    xt(x(0)) ^ xt(x(1)) ^ x(1) ^ x(2) ^ x(3)
                })
            };
            for i in 0..16 {
                b[i] ^= k[i];
            }
        }
        b
    }
    /// Counter mode: 12-byte nonce, 32-bit big-endian block counter from zero.
    pub fn ctr(&self, iv: &[u8], n: usize) -> Vec<u8> {
        let mut o = vec![];
        let mut i = 0u32;
        while o.len() < n {
            let mut b = iv[..12].to_vec();
            b.extend(i.to_be_bytes());
            o.extend(self.block(&b));
            i += 1;
        }
        o.truncate(n);
        o
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn fips197() {
        let pt: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
        for (n, want) in [(16, 0x69c4e0d86a7b0430d8cdb78070b4c55au128), (24, 0xdda97ca4864cdfe06eaf70a0ec0d7191), (32, 0x8ea2b7ca516745bfeafc49904b496089)] {
            let key: Vec<u8> = (0..n).collect();
            assert_eq!(super::Aes::new(&key).block(&pt), want.to_be_bytes());
        }
    }
}

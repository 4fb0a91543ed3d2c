//! Keccak sponge functions, written from FIPS 202 and SP 800-185 for this harness.

fn rc(t: usize) -> bool {
    // LFSR of FIPS 202, algorithm 5
    let mut r: u16 = 1;
    for _ in 0..t % 255 {
        r <<= 1;
        if r & 0x100 != 0 {
            r ^= 0x171;
        }
    }
    r & 1 == 1
}

struct Tables {
    rcs: [u64; 24],
    rot: [[u32; 5]; 5],
}
fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut rcs = [0u64; 24];
        for (ir, v) in rcs.iter_mut().enumerate() {
            for j in 0..=6 {
                if rc(j + 7 * ir) {
                    *v |= 1 << ((1u32 << j) - 1);
                }
            }
        }
        let mut rot = [[0u32; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24u32 {
            rot[x][y] = ((t + 1) * (t + 2) / 2) % 64;
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        Tables { rcs, rot }
    })
}

pub fn permute(a: &mut [u64; 25]) {
    permute_last(a, 24)
}
/// The last rounds of the permutation.
pub fn permute_last(a: &mut [u64; 25], rounds: usize) {
    let t = tables();
    for round in 24 - rounds..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(t.rot[x][y]);
            }
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= t.rcs[round];
    }
}

#[derive(Clone)]
pub struct Sponge {
    st: [u64; 25],
    rate: usize,
    pos: usize,
    suffix: u8,
    squeezing: bool,
}
impl Sponge {
    pub fn new(rate: usize, suffix: u8) -> Sponge {
        Sponge { st: [0; 25], rate, pos: 0, suffix, squeezing: false }
    }
    fn xor(&mut self, at: usize, b: u8) {
        self.st[at / 8] ^= (b as u64) << (8 * (at % 8));
    }
    pub fn absorb(&mut self, data: &[u8]) {
        assert!(!self.squeezing);
        for b in data {
            self.xor(self.pos, *b);
            self.pos += 1;
            if self.pos == self.rate {
                permute(&mut self.st);
                self.pos = 0;
            }
        }
    }
    pub fn squeeze(&mut self, out: &mut [u8]) {
        if !self.squeezing {
            self.xor(self.pos, self.suffix);
            self.xor(self.rate - 1, 0x80);
            permute(&mut self.st);
            self.pos = 0;
            self.squeezing = true;
        }
        for o in out {
            if self.pos == self.rate {
                permute(&mut self.st);
                self.pos = 0;
            }
            *o = (self.st[self.pos / 8] >> (8 * (self.pos % 8))) as u8;
            self.pos += 1;
        }
    }
    pub fn get(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.squeeze(&mut v);
        v
    }
}
pub fn shake128() -> Sponge {
    Sponge::new(168, 0x1f)
}
pub fn shake256() -> Sponge {
    Sponge::new(136, 0x1f)
}
pub fn shake(bits: usize, data: &[&[u8]], n: usize) -> Vec<u8> {
    let mut s = if bits == 128 { shake128() } else { shake256() };
    for d in data {
        s.absorb(d);
    }
    s.get(n)
}
pub fn sha3(bits: usize, data: &[&[u8]]) -> Vec<u8> {
    let mut s = Sponge::new(200 - bits / 4, 0x06);
    for d in data {
        s.absorb(d);
    }
    s.get(bits / 8)
}
// ---- SP 800-185
pub fn left_encode(v: u64) -> Vec<u8> {
    let b = v.to_be_bytes();
    let z = b.iter().position(|x| *x != 0).unwrap_or(7);
    let mut o = vec![(8 - z) as u8];
    o.extend(&b[z..]);
    o
}
pub fn encode_string(s: &[u8]) -> Vec<u8> {
    let mut o = left_encode(s.len() as u64 * 8);
    o.extend(s);
    o
}
pub fn cshake(bits: usize, name: &[u8], custom: &[u8]) -> Sponge {
    let rate = if bits == 128 { 168 } else { 136 };
    if name.is_empty() && custom.is_empty() {
        return Sponge::new(rate, 0x1f);
    }
    let mut s = Sponge::new(rate, 0x04);
    let mut p = left_encode(rate as u64);
    p.extend(encode_string(name));
    p.extend(encode_string(custom));
    while p.len() % rate != 0 {
        p.push(0);
    }
    s.absorb(&p);
    s
}

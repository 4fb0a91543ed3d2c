//! The choice tape: every decision of a simulated run (scheduling, faults, alterations, configuration)
//! is one bounded draw from it.  Recording mode takes draws from a seeded generator; replay mode takes
//! them from a recorded list and yields 0, the simplest choice, after its end.
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};

use std::sync::atomic::{AtomicPtr, Ordering};
/// Where the choices of a run in a process of its own are mirrored: a count, then the choices.
pub static MIRROR: AtomicPtr<u32> = AtomicPtr::new(std::ptr::null_mut());
pub const MIRROR_CAP: usize = 1 << 16;
fn mirror(v: u32) {
    let p = MIRROR.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            let n = *p as usize;
            if n < MIRROR_CAP {
                *p.add(1 + n) = v;
                *p = n as u32 + 1;
            }
        }
    }
}

enum Src {
    Rng(ChaCha8Rng),
    List(Vec<u32>, usize),
}

pub struct Tape {
    src: Src,
    strat: u64,
    pub rec: Vec<u32>,
    aside: bool,
}

/// Large ranges are walked in steps of about 0.6 of the range, so that a walk cut short still covers it evenly.
fn stride(n: u32) -> u64 {
    fn gcd(a: u64, b: u64) -> u64 {
        if b == 0 { a } else { gcd(b, a % b) }
    }
    if n < 40 {
        return 1;
    }
    let mut s = n as u64 * 618 / 1000;
    while gcd(s, n as u64) != 1 {
        s += 1;
    }
    s
}

impl Tape {
    pub fn record(seed: u64, index: u64) -> Tape {
        Tape { src: Src::Rng(ChaCha8Rng::seed_from_u64(seed ^ 0x7461_7065)), strat: index, rec: vec![], aside: false }
    }
    /// For work beside the run: not part of what is recorded.
    pub fn aside(seed: u64, index: u64) -> Tape {
        Tape { aside: true, ..Tape::record(seed, index) }
    }
    pub fn replay(list: Vec<u32>) -> Tape {
        Tape { src: Src::List(list, 0), strat: 0, rec: vec![], aside: false }
    }
    /// A number below n (n >= 1).
    pub fn draw(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = match &mut self.src {
            Src::Rng(r) => ((r.next_u32() as u64 * n as u64) >> 32) as u32,
            Src::List(l, p) => {
                let v = l.get(*p).copied().unwrap_or(0);
                *p += 1;
                v % n
            }
        };
        self.rec.push(v);
        if !self.aside {
            mirror(v);
        }
        v
    }
    /// A number below n, enumerated over the run index instead of drawn: neighbouring runs cover all values evenly.
    pub fn strat(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        if let Src::Rng(_) = self.src {
            let v = (self.strat % n as u64 * stride(n) % n as u64) as u32;
            self.strat /= n as u64;
            self.rec.push(v);
            if !self.aside {
                mirror(v);
            }
            v
        } else {
            self.draw(n)
        }
    }
    /// A position in n bytes: anywhere, near the end, or around a multiple of 32.
    pub fn place(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        match self.draw(4) {
            0 | 1 => self.draw(n),
            2 => n - 1 - self.draw(n.min(48)),
            _ => (self.draw(n / 32 + 1) * 32 + self.draw(2)).saturating_sub(self.draw(2)).min(n - 1),
        }
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        let v = self.draw(den);
        v != 0 && v >= den.saturating_sub(num) || (num >= den)
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u32) as usize;
        &xs[i]
    }
    /// A bit-ish size: small values are likelier, up to max inclusive.
    pub fn size(&mut self, max: u32) -> u32 {
        match self.draw(4) {
            0 => self.draw(max.min(4) + 1),
            1 => self.draw(max.min(40) + 1),
            _ => self.draw(max + 1),
        }
    }
}

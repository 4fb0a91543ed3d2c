//! Entropy, clock and sleep seam (see csrc/entropy.c): per-thread state behind the interposed system calls.
use rand_chacha::ChaCha20Rng;
use rand_core::{RngCore, SeedableRng};
use std::cell::RefCell;

#[derive(Clone, Debug, Default)]
pub struct EntFaults {
    /// per mille of calls interrupted before any byte
    pub eintr: u32,
    /// per mille of calls returning fewer bytes than asked
    pub short: u32,
    /// fail every call from the n-th on with this errno (hard failure)
    pub fail_from: Option<(u64, i32)>,
    /// the same block of bytes over and over
    pub stuck: bool,
    /// flip one bit of the delivered stream at this offset
    pub flip: Option<u64>,
    /// invert the bytes of the delivered stream from this offset to (not including) that
    pub invert: Option<(u64, u64)>,
    /// per mille of calls that would block
    pub again: u32,
}

#[derive(Clone, Debug, Default)]
pub struct EntStats {
    pub calls: u64,
    pub bytes: u64,
    pub eintr: u64,
    pub short: u64,
    pub again: u64,
    pub failed: u64,
    pub sleeps: u64,
    pub slept_ns: u64,
}

pub struct Ent {
    pub stream: ByteStream,
    sched: rand_chacha::ChaCha8Rng,
    pub faults: EntFaults,
    pub stats: EntStats,
    streak: u32,
    /// nanoseconds since the node was switched on
    pub now: u64,
    /// calendar time minus that
    pub wall: i64,
    pub drawn: Vec<(u64, u64)>, // (offset, len) of non-empty deliveries
}

impl Ent {
    pub fn new(seed: u64, faults: EntFaults) -> Ent {
        Ent {
            stream: ByteStream::new(seed),
            sched: rand_chacha::ChaCha8Rng::seed_from_u64(seed ^ 0x656e74),
            faults,
            stats: EntStats::default(),
            streak: 0,
            now: 0,
            wall: 0,
            drawn: vec![],
        }
    }
}

impl Ent {
    fn clock(&self, id: i32) -> u64 {
        match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => (self.now as i64).saturating_add(self.wall).max(0) as u64,
            _ => self.now,
        }
    }
}

thread_local! {
    static ENT: RefCell<Option<Ent>> = const { RefCell::new(None) };
}

extern "C" {
    fn sim_set_active(on: i32);
}

pub fn install(e: Ent) {
    ENT.with(|c| *c.borrow_mut() = Some(e));
}
pub fn active(on: bool) {
    unsafe { sim_set_active(on as i32) }
}
pub fn with<T>(f: impl FnOnce(&mut Ent) -> T) -> T {
    ENT.with(|c| f(c.borrow_mut().as_mut().expect("no entropy installed")))
}

#[no_mangle]
pub extern "C" fn sim_entropy(buf: *mut u8, len: usize, _flags: u32) -> libc::c_long {
    ENT.with(|c| {
        let mut g = match c.try_borrow_mut() {
            Ok(g) => g,
            Err(_) => return -(libc::EIO as libc::c_long),
        };
        let e = match g.as_mut() {
            Some(e) => e,
            None => return -(libc::EIO as libc::c_long),
        };
        if len == 0 {
            return 0; // availability probe
        }
        let n = e.stats.calls;
        e.stats.calls += 1;
        if let Some((from, errno)) = e.faults.fail_from {
            if n >= from {
                e.stats.failed += 1;
                if e.stats.failed > 100_000 {
                    // only reachable in a child process of its own: it never stops asking
                    unsafe { libc::_exit(77) };
                }
                return -(errno as libc::c_long);
            }
        }
        let mut want = len;
        if e.faults.eintr > 0 || e.faults.short > 0 || e.faults.again > 0 {
            let roll = e.sched.next_u32() % 1000;
            if e.faults.again > 0 && roll >= 1000 - e.faults.again && e.streak < 8 {
                e.streak += 1;
                e.stats.again += 1;
                return -(libc::EAGAIN as libc::c_long);
            }
            if roll < e.faults.eintr && e.streak < 8 {
                e.streak += 1;
                e.stats.eintr += 1;
                return -(libc::EINTR as libc::c_long);
            }
            if len > 1 && roll >= e.faults.eintr && roll < e.faults.eintr + e.faults.short {
                want = 1 + (e.sched.next_u32() as usize) % (len - 1);
                e.stats.short += 1;
            }
        }
        e.streak = 0;
        let out = unsafe { std::slice::from_raw_parts_mut(buf, want) };
        if e.faults.stuck {
            for (i, b) in out.iter_mut().enumerate() {
                *b = (0x5a_u8).wrapping_add((i % 32) as u8);
            }
        } else {
            e.stream.take(out);
        }
        if let Some(off) = e.faults.flip {
            let (a, z) = (e.stats.bytes * 8, (e.stats.bytes + want as u64) * 8);
            if off >= a && off < z {
                let r = off - a;
                out[(r / 8) as usize] ^= 1 << (r % 8);
            }
        }
        if let Some((a, z)) = e.faults.invert {
            for (i, b) in out.iter_mut().enumerate() {
                if (a..z).contains(&(e.stats.bytes + i as u64)) {
                    *b ^= 0xff;
                }
            }
        }
        e.drawn.push((e.stats.bytes, want as u64));
        e.stats.bytes += want as u64;
        want as libc::c_long
    })
}

/// A byte-granular stream: a short delivery must not skip stream bytes.
pub struct ByteStream {
    rng: ChaCha20Rng,
    buf: [u8; 256],
    pos: usize,
    /// delivered before everything else
    pub front: std::collections::VecDeque<u8>,
}
impl ByteStream {
    pub fn new(seed: u64) -> Self {
        ByteStream { rng: ChaCha20Rng::seed_from_u64(seed), buf: [0; 256], pos: 256, front: Default::default() }
    }
    pub fn take(&mut self, out: &mut [u8]) {
        for b in out {
            if let Some(x) = self.front.pop_front() {
                *b = x;
                continue;
            }
            if self.pos == 256 {
                self.rng.fill_bytes(&mut self.buf);
                self.pos = 0;
            }
            *b = self.buf[self.pos];
            self.pos += 1;
        }
    }
}

#[no_mangle]
pub extern "C" fn sim_sleep(ns: u64) {
    ENT.with(|c| {
        if let Ok(mut g) = c.try_borrow_mut() {
            if let Some(e) = g.as_mut() {
                e.stats.sleeps += 1;
                e.stats.slept_ns += ns;
                e.now += ns;
            }
        }
    })
}
#[no_mangle]
pub extern "C" fn sim_now(clock: i32) -> u64 {
    ENT.with(|c| c.try_borrow().ok().and_then(|g| g.as_ref().map(|e| e.clock(clock))).unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn sim_open_random(_path: *const libc::c_char) -> i32 {
    -2
}

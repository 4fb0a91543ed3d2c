//! Two pieces of work at the same time on two nodes, interleaved inside the calls.
//! Only the holder of the baton runs. It can pass the baton on wherever the code allocates memory, asks the
//! kernel for randomness or the time, or asks its caller's generator, and, in fine mode, at any branch of the
//! code under test: after so many branches, or at meeting places, where one waits for the other to come to the same
//! place and then both go on in short turns; where it would wait for a lock it must. Who goes on is decided by a generator seeded from the run's choices.
use crate::ctx::mix;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

pub struct Group {
    m: Mutex<St>,
    cv: Condvar,
}
struct St {
    holder: usize,
    done: [bool; 2],
    rng: u64,
    /// one point in so many passes the baton
    gap: u32,
    /// also at branches
    fine: bool,
    points: u64,
    switches: u64,
    /// which points passed the baton
    trace: u64,
    /// who waits at a meeting place
    waits: Option<usize>,
    /// short turns left
    close: u32,
    met: u64,
    stops: u32,
    /// seed and share of the meeting places
    places: (u64, u32),
}

thread_local! {
    static GROUP: Cell<*const Group> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
}

extern "C" {
    fn sim_set_points(on: i32, meet: u64, every: u32);
}

impl Group {
    pub fn new(seed: u64, gap: u32, fine: bool) -> Group {
        let mut rng = seed | 1;
        let every = if fine { [0, 8, 40, 200, 1000][(next(&mut rng) >> 33) as usize % 5] } else { 0 };
        let places = (next(&mut rng), every);
        let holder = (next(&mut rng) >> 40) as usize % 2;
        Group { m: Mutex::new(St { holder, done: [false; 2], rng, gap: gap.max(1), fine, points: 0, switches: 0, trace: 0, waits: None, close: 0, met: 0, stops: 0, places }), cv: Condvar::new() }
    }
    /// Runs f as party `me`, from when it holds the baton to its end. The caller has switched the seam on around f.
    pub fn run<T>(&self, me: usize, f: impl FnOnce() -> T) -> T {
        let places = {
            let mut s = self.m.lock().unwrap();
            while s.holder != me {
                s = self.cv.wait(s).unwrap();
            }
            s.places
        };
        GROUP.with(|g| g.set(self));
        ME.with(|m| m.set(me));
        unsafe { sim_set_points(1, places.0, places.1) };
        let r = f();
        unsafe { sim_set_points(0, 0, 0) };
        GROUP.with(|g| g.set(std::ptr::null()));
        let mut s = self.m.lock().unwrap();
        s.done[me] = true;
        s.holder = 1 - me;
        s.waits = None;
        self.cv.notify_all();
        r
    }
    /// How often the baton was passed, a digest of where, and how often the two met.
    pub fn switches(&self) -> (u64, u64, u64) {
        let s = self.m.lock().unwrap();
        (s.switches, s.trace, s.met)
    }
}
fn next(x: &mut u64) -> u64 {
    *x ^= *x << 13;
    *x ^= *x >> 7;
    *x ^= *x << 17;
    *x
}

/// How many branches until the next turn: one to a quarter of a million, small numbers as likely as large ones.
/// While one waits at a meeting place the other gets time to come there; when both are there the turns are short.
fn branches(s: &mut St) -> u64 {
    if !s.fine {
        return u64::MAX;
    }
    let r = next(&mut s.rng) >> 20;
    if s.waits.is_some() {
        return (1 << 17) + r % (1 << 17);
    }
    if s.close > 0 {
        s.close -= 1;
        return 1 + r % 24;
    }
    let bits = (next(&mut s.rng) >> 33) % 18;
    1 + r % (2u64 << bits)
}

/// Called by the seam, with points switched off. Kind 1: this thread cannot go on; 2: its branches are used up;
/// 3: it starts; 4: it comes to a meeting place. Gives the branches until the next turn (0: as before).
#[no_mangle]
pub extern "C" fn sim_point(kind: i32) -> u64 {
    let g = GROUP.with(|g| g.get());
    if g.is_null() {
        return u64::MAX;
    }
    let g = unsafe { &*g };
    let me = ME.with(|m| m.get());
    let mut s = g.m.lock().unwrap();
    if kind == 3 {
        return branches(&mut s);
    }
    s.points += 1;
    if s.done[1 - me] {
        return if kind == 2 { u64::MAX } else { 0 };
    }
    let go = match kind {
        0 => s.waits.is_none() && (next(&mut s.rng) >> 33) % s.gap as u64 == 0,
        4 if s.close > 0 || s.stops >= 8 => false,
        _ => true,
    };
    if !go {
        return 0;
    }
    match s.waits {
        Some(_) => {
            s.waits = None;
            if kind == 4 {
                s.close = 16;
                s.met += 1;
            }
        }
        None if kind == 4 => {
            s.waits = Some(me);
            s.stops += 1;
        }
        None => {}
    }
    s.holder = 1 - me;
    s.switches += 1;
    s.trace = mix(s.trace, s.points * 2 + me as u64);
    g.cv.notify_all();
    while s.holder != me {
        s = g.cv.wait(s).unwrap();
    }
    branches(&mut s)
}

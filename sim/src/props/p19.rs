//! The C random-bytes functions above system calls that are interrupted, cut short, or fail.
use crate::ctx::*;
use crate::runner::Prop;
use std::cell::Cell;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "P19",
    run,
    quick: 300_000,
    thorough: 4_000_000,
    rule: "variant of the function (three builds of pqclean's, two of pqcrypto-internals': C library call, system call, device files) and the kind of trouble at the start (none, low entropy, no entropy ioctl) are enumerated over the run index; request lengths (up to above the largest single request of the system), the result of every system call (interruption, retry, short, lasting error at any call, low entropy for any number of polls), descriptor numbers and repeated requests in one process are drawn. Faults stop after a drawn budget.",
    real: "pqclean/common/randombytes.c and pqcrypto-internals/cfiles/randombytes.c, compiled from /repo's tree once per variant",
    stub: "getrandom, open, read, close, ioctl, poll and the stdio calls beneath it",
};

extern "C" {
    fn sim_randombytes(which: i32, b: *mut u8, n: usize, ret: *mut i32) -> i32;
    fn sim_arena_end(k: i32) -> *mut u8;
    fn sim_mem_reset();
}

const VARIANTS: [&str; 5] = ["pqclean, C library", "pqclean, system call", "pqclean, device files", "internals, system call", "internals, device files"];

#[derive(Debug, Clone, Copy, PartialEq)]
enum Fd {
    Urandom,
    Random,
    Entropy,
}

struct W {
    c: *mut Ctx,
    lo: usize,
    hi: usize,
    /// what the system has delivered
    out: Vec<u8>,
    open: BTreeMap<i64, Fd>,
    next_file: i64,
    low_fd: i64,
    calls: u64,
    limit: u64,
    budget: u32,
    /// a call failed for good
    hard: bool,
    low: u32,
    no_ioctl: bool,
    internals: bool,
    broken: Option<(&'static str, String)>,
    /// the stream of huge requests is not kept
    huge: bool,
    huge_at: u64,
}
thread_local! {
    static CUR: Cell<*mut W> = const { Cell::new(std::ptr::null_mut()) };
}

const HANG: i64 = -100000;
fn err(e: i32) -> i64 {
    -(e as i64)
}
fn huge_byte(at: u64) -> u8 {
    (at.wrapping_mul(0x9E3779B97F4A7C15) >> 56) as u8
}

impl W {
    fn c(&mut self) -> &mut Ctx {
        unsafe { &mut *self.c }
    }
    fn ev(&mut self, s: String) {
        self.c().ev(s);
    }
    fn trouble(&mut self, num: u32, den: u32) -> bool {
        if self.budget == 0 || !self.c().t.chance(num, den) {
            return false;
        }
        self.budget -= 1;
        true
    }
    fn fail(&mut self, call: &str, kinds: &[i32]) -> i64 {
        let e = *self.c().t.pick(kinds);
        self.hard = true;
        self.c().fault("lasting-error");
        self.ev(format!("{call}: error {e}"));
        err(e)
    }
    fn breach(&mut self, kind: &'static str, msg: String) {
        if self.broken.is_none() {
            self.broken = Some((kind, msg));
        }
    }
    fn new_fd(&mut self, k: Fd) -> i64 {
        let mut f = self.low_fd;
        while self.open.contains_key(&f) {
            f += 1;
        }
        self.open.insert(f, k);
        f
    }
    fn deliver(&mut self, call: &str, buf: *mut u8, len: usize, most: usize) -> i64 {
        let mut n = len.min(most);
        if n > 0 && self.trouble(1, 2) {
            match self.c().t.draw(8) {
                0..=3 => {
                    n = match self.c().t.draw(3) {
                        0 => 1,
                        1 => n - 1,
                        _ => 1 + self.c().t.draw(n as u32) as usize,
                    }
                    .clamp(1, n);
                    self.c().fault("short");
                }
                4 | 5 => {
                    self.c().fault("interrupted");
                    self.ev(format!("{call}: interrupted"));
                    return err(libc::EINTR);
                }
                6 if call == "read" => {
                    self.c().fault("try-again");
                    self.ev(format!("{call}: try again"));
                    return err(libc::EAGAIN);
                }
                _ => return self.fail(call, &[libc::EIO, libc::EFAULT, libc::EINVAL, libc::ENOSYS, libc::EPERM]),
            }
        }
        let p = buf as usize;
        if p < self.lo || p.saturating_add(n) > self.hi {
            self.breach("outside", format!("{call} of {n} bytes at offset {} of a buffer of {}", p as i64 - self.lo as i64, self.hi - self.lo));
            return HANG;
        }
        unsafe {
            if self.huge {
                let b = std::slice::from_raw_parts_mut(buf, n);
                let at = self.huge_at;
                b.iter_mut().enumerate().for_each(|(i, x)| *x = huge_byte(at + i as u64));
                self.huge_at += n as u64;
            } else {
                let d = self.c().h.bytes(n);
                std::ptr::copy_nonoverlapping(d.as_ptr(), buf, n);
                self.out.extend(&d);
            }
        }
        self.ev(format!("{call} of {len}: {n}"));
        n as i64
    }
}

#[no_mangle]
extern "C" fn sim_dev(call: i32, fd: i64, buf: *mut u8, len: usize, path: *const libc::c_char) -> i64 {
    let w = unsafe { &mut *CUR.with(|c| c.get()) };
    w.calls += 1;
    if w.calls > w.limit {
        w.breach("hang", format!("still calling the system after {} calls", w.limit));
        return HANG;
    }
    if w.broken.is_some() {
        return HANG;
    }
    let path = if path.is_null() { String::new() } else { unsafe { std::ffi::CStr::from_ptr(path) }.to_string_lossy().to_string() };
    let kind = w.open.get(&fd).copied();
    let name = ["getrandom", "open", "read", "close", "ioctl", "poll", "fopen", "fclose", "fscanf"][call as usize];
    if matches!(call, 2..=5 | 7 | 8) && kind.is_none() {
        w.breach("descriptor", format!("{name} of a descriptor that is not open"));
        return HANG;
    }
    match call {
        0 => w.deliver(name, buf, len, 33554431),
        1 | 6 => {
            let k = match path.as_str() {
                "/dev/urandom" => Fd::Urandom,
                "/dev/random" => Fd::Random,
                "/proc/sys/kernel/random/entropy_avail" => Fd::Entropy,
                _ => return w.fail(name, &[libc::ENOENT]),
            };
            if w.trouble(1, 4) {
                if call == 1 && w.c().t.chance(2, 3) {
                    w.c().fault("interrupted");
                    w.ev(format!("open {path}: interrupted"));
                    return err(libc::EINTR);
                }
                return w.fail(&format!("{name} {path}"), &[libc::EMFILE, libc::ENOENT, libc::EACCES]);
            }
            let f = if call == 6 {
                w.next_file += 64;
                w.open.insert(w.next_file, k);
                w.next_file
            } else {
                w.new_fd(k)
            };
            w.ev(format!("{name} {path}: ok"));
            f
        }
        2 => w.deliver(name, buf, len, isize::MAX as usize),
        3 | 7 => {
            w.open.remove(&fd);
            w.ev(format!("{name} {:?}", kind.unwrap()));
            0
        }
        4 => {
            if w.no_ioctl {
                let e = *w.c().t.pick(&[libc::ENOTTY, libc::ENOSYS]);
                // only one of the copies knows this error as a missing operation
                w.hard |= w.internals && e == libc::ENOSYS;
                w.c().fault("no-entropy-ioctl");
                w.ev(format!("ioctl: error {e}"));
                return err(e);
            }
            if w.trouble(1, 6) {
                return w.fail(name, &[libc::EIO, libc::EINVAL, libc::EFAULT]);
            }
            w.entropy(name, buf);
            0
        }
        5 => {
            if w.trouble(1, 3) {
                match w.c().t.draw(4) {
                    0 => return w.fail(name, &[libc::EINVAL, libc::ENOMEM]),
                    1 => {
                        w.c().fault("try-again");
                        w.ev("poll: try again".into());
                        return err(libc::EAGAIN);
                    }
                    _ => {
                        w.c().fault("interrupted");
                        w.ev("poll: interrupted".into());
                        return err(libc::EINTR);
                    }
                }
            }
            w.c().sim_ns += 50_000_000;
            w.ev("poll: ready".into());
            1
        }
        _ => {
            if w.trouble(1, 3) {
                if w.c().t.chance(2, 3) {
                    w.c().fault("interrupted");
                    w.ev("fscanf: interrupted".into());
                    return err(libc::EINTR);
                }
                return w.fail(name, &[libc::EIO]);
            }
            w.entropy(name, buf);
            1
        }
    }
}
impl W {
    fn entropy(&mut self, name: &str, buf: *mut u8) {
        let e: i32 = if self.low > 0 {
            self.low -= 1;
            self.c().fault("low-entropy");
            *self.c().t.pick(&[0, 1, 64, 127])
        } else {
            *self.c().t.pick(&[128, 129, 256, 4096])
        };
        unsafe { (buf as *mut i32).write_unaligned(e) };
        self.ev(format!("{name}: {e} bits"));
    }
}

pub fn run(c: &mut Ctx) -> R {
    let v = c.t.strat(5) as usize;
    let start = c.t.strat(3);
    unsafe { sim_mem_reset() };
    // descriptors that stay open across the requests of one process are a leak
    let requests = 1 + c.t.draw(4);
    let name = VARIANTS[v];
    for rq in 0..requests {
        let huge = rq == 0 && c.t.draw(if c.thorough { 2000 } else { 4000 }) == 1;
        let n = if huge { 33_554_400 + c.t.draw(80) as usize } else { c.t.size(1500) as usize };
        let mut big = if huge { vec![0xEEu8; n + 64] } else { vec![] };
        let lo = if huge { big.as_mut_ptr() } else { unsafe { sim_arena_end(2).sub(n) } };
        let before = 64;
        if !huge {
            unsafe { std::ptr::write_bytes(lo.sub(before), 0xEE, n + before) };
        }
        let lo = lo as usize;
        let mut w = W {
            c: c as *mut Ctx,
            lo,
            hi: lo + n,
            out: vec![],
            open: BTreeMap::new(),
            next_file: 0x10000,
            low_fd: *c.t.pick(&[3, 0, 1, 200]),
            calls: 0,
            limit: 4000 + 2 * n as u64,
            budget: *c.t.pick(&[0, 1, 2, 4, 12, 40]),
            hard: false,
            low: if start > 0 { c.t.draw(4) } else { 0 },
            no_ioctl: start == 2,
            internals: v > 2,
            broken: None,
            huge,
            huge_at: 0,
        };
        c.ev(format!("{name}: {n} bytes asked for"));
        let mut ret = 0;
        CUR.with(|x| x.set(&mut w));
        let why = unsafe { sim_randombytes(v as i32, lo as *mut u8, n, &mut ret) };
        CUR.with(|x| x.set(std::ptr::null_mut()));
        c.steps += w.calls;
        if w.calls > 1 {
            c.nontrivial = true;
        }
        let ctx = format!("{name}, {n} bytes, {} system calls", w.calls);
        if let Some((k, m)) = w.broken.take() {
            return viol(k, format!("{ctx}: {m}"));
        }
        if why != 0 {
            let s = ["", "ended the process", "memory fault", "aborted", "does not end"][why as usize];
            return viol("crash", format!("{ctx}: {s}"));
        }
        if huge {
            if big[n..].iter().any(|b| *b != 0xEE) {
                return viol("outside", format!("{ctx}: bytes beyond the buffer were written"));
            }
        } else if unsafe { std::slice::from_raw_parts((lo - before) as *const u8, before) }.iter().any(|b| *b != 0xEE) {
            return viol("outside", format!("{ctx}: bytes before the buffer were written"));
        }
        c.ev(format!("returns {ret}"));
        if ret == 0 {
            let got = unsafe { std::slice::from_raw_parts(lo as *const u8, n) };
            let same = if huge { w.huge_at == n as u64 && got.iter().enumerate().all(|(i, b)| *b == huge_byte(i as u64)) } else { got == &w.out[..] };
            if !same {
                let got_n = if huge { w.huge_at as usize } else { w.out.len() };
                return viol("unfilled", format!("{ctx}: reports success, but the buffer is not what the system delivered ({got_n} bytes)"));
            }
            c.count("filled");
        } else {
            if !w.hard {
                return viol("gave-up", format!("{ctx}: reports failure although nothing failed for good"));
            }
            c.count("failed");
        }
        if !w.open.is_empty() {
            return viol("leak", format!("{ctx}, returned {ret}: still open: {:?}", w.open.values().collect::<Vec<_>>()));
        }
        drop(std::mem::take(&mut big));
    }
    Ok(())
}

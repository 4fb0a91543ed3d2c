//! The bundled hash library: incremental contexts under schedules of chunks, squeezes, clones and other contexts,
//! with memory running out.
use crate::ctx::*;
use crate::model::aes::Aes;
use crate::model::keccak::{cshake, permute_last, shake128, shake256, Sponge};
use crate::node::Node;
use crate::runner::Prop;
use crate::tape::Tape;
use sha2::digest::DynDigest;
use sha2::Digest;

pub const PROP: Prop = Prop {
    id: "P18",
    run,
    quick: 250_000,
    thorough: 5_000_000,
    rule: "copy of the library and the function of the first context are enumerated over the run index; the number of contexts, their functions, the inputs, the order in which the contexts take turns, chunk and squeeze sizes (biased to multiples of the rate and their neighbours), clone and release points, failing allocations and restarts of the process afterwards are drawn; one run in ten does the same a second time on another thread meanwhile, with turns taken inside the functions. Inputs end, and outputs lie, at the end of the accessible memory.",
    real: "pqclean/common and pqcrypto-internals/cfiles (fips202, sp800-185, sha2, aes, nistseedexpander, keccak4x), compiled from /repo's tree",
    stub: "allocator and exit of the C library, independent implementations as oracle (own Keccak and AES, RustCrypto SHA-2)",
};

type HashFn = unsafe extern "C" fn(i32, i32, *mut u8, *mut u8, *const u8, usize, *const u8, usize, *mut u8, usize, *mut i32) -> i32;
type X4Fn = unsafe extern "C" fn(*mut u8, i32, u32, *mut u8, u32, u32) -> i32;
extern "C" {
    fn sim_pc_hash(alg: i32, op: i32, c: *mut u8, d: *mut u8, a: *const u8, an: usize, b: *const u8, bn: usize, o: *mut u8, on: usize, ret: *mut i32) -> i32;
    fn sim_pi_hash(alg: i32, op: i32, c: *mut u8, d: *mut u8, a: *const u8, an: usize, b: *const u8, bn: usize, o: *mut u8, on: usize, ret: *mut i32) -> i32;
    fn sim_pc_ctx_size() -> usize;
    fn sim_pi_ctx_size() -> usize;
    fn sim_pc_x4(st: *mut u8, op: i32, i: u32, p: *mut u8, off: u32, n: u32) -> i32;
    fn sim_pi_x4(st: *mut u8, op: i32, i: u32, p: *mut u8, off: u32, n: u32) -> i32;
    fn sim_mem_reset();
    fn sim_mute(on: i32);
    fn sim_mem_fail_in(n: i64);
    fn sim_mem_live() -> i32;
    fn sim_mem_bad() -> i32;
    fn sim_mem_check();
    fn sim_mem_failed() -> u64;
    fn sim_arena_end(k: i32) -> *mut u8;
}

const INIT: i32 = 0;
const ABSORB: i32 = 1;
const FINAL: i32 = 2;
const SQUEEZE: i32 = 3;
const CLONE: i32 = 4;
const RELEASE: i32 = 5;
const ONESHOT: i32 = 6;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Xof,
    CXof,
    Sha3,
    Blocks,
    Sha2,
    Ctr,
    Ecb,
    Seed,
}
use Kind::*;
/// name, kind, rate or block or key size, output size
const ALGS: [(&str, Kind, usize, usize); 20] = [
    ("shake128", Xof, 168, 0),
    ("shake256", Xof, 136, 0),
    ("cshake128", CXof, 168, 0),
    ("cshake256", CXof, 136, 0),
    ("sha3-256", Sha3, 136, 32),
    ("sha3-384", Sha3, 104, 48),
    ("sha3-512", Sha3, 72, 64),
    ("shake128-blocks", Blocks, 168, 0),
    ("shake256-blocks", Blocks, 136, 0),
    ("sha224", Sha2, 64, 28),
    ("sha256", Sha2, 64, 32),
    ("sha384", Sha2, 128, 48),
    ("sha512", Sha2, 128, 64),
    ("aes128-ctr", Ctr, 16, 0),
    ("aes192-ctr", Ctr, 24, 0),
    ("aes256-ctr", Ctr, 32, 0),
    ("aes128-ecb", Ecb, 16, 0),
    ("aes192-ecb", Ecb, 24, 0),
    ("aes256-ecb", Ecb, 32, 0),
    ("seedexpander", Seed, 32, 0),
];

fn sha2_new(alg: usize) -> Box<dyn DynDigest> {
    match alg {
        9 => Box::new(sha2::Sha224::new()),
        10 => Box::new(sha2::Sha256::new()),
        11 => Box::new(sha2::Sha384::new()),
        _ => Box::new(sha2::Sha512::new()),
    }
}
fn sha2_of(alg: usize, data: &[u8]) -> Vec<u8> {
    let mut h = sha2_new(alg);
    h.update(data);
    h.finalize().to_vec()
}

/// A context of the library, in memory of its own with a margin.
struct Mem(Vec<u128>, usize);
impl Mem {
    fn new(n: usize) -> Mem {
        Mem(vec![0xA5A5A5A5_A5A5A5A5_A5A5A5A5_A5A5A5A5u128; 4 + n.div_ceil(16)], n)
    }
    fn ptr(&mut self) -> *mut u8 {
        let p = self.0[2..].as_mut_ptr() as *mut u8;
        p
    }
    fn intact(&self) -> bool {
        let ok = |w: &u128| *w == 0xA5A5A5A5_A5A5A5A5_A5A5A5A5_A5A5A5A5u128;
        self.0[..2].iter().all(ok) && self.0[self.0.len() - 2..].iter().all(ok)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Stage {
    Absorb,
    Squeeze,
}
struct C {
    name: String,
    mem: Mem,
    alg: usize,
    stage: Stage,
    model: Option<Sponge>,
    /// bytes absorbed
    len: usize,
    sha: Option<Box<dyn DynDigest>>,
    custom: (Vec<u8>, Vec<u8>),
    aes: Option<Aes>,
    /// seed expander: counter block, what is left of the current block, remaining length
    seed: (Vec<u8>, Vec<u8>, u32, usize),
    ops: usize,
}

struct Lib {
    name: &'static str,
    hash: HashFn,
    x4: X4Fn,
    size: usize,
}

enum Out {
    Ok(Vec<u8>, i32),
    Exit,
}

/// One call into the library. The process may end, but only because memory ran out.
#[allow(clippy::too_many_arguments)]
fn call(l: &Lib, what: &str, alg: usize, op: i32, cp: *mut u8, dp: *mut u8, a: &[u8], an: usize, b: &[u8], bn: usize, on: usize, blocks: usize) -> R<Out> {
    unsafe {
        let place = |k: i32, d: &[u8]| {
            let p = sim_arena_end(k).sub(d.len());
            std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
            p as *const u8
        };
        let (pa, pb) = (place(0, a), place(1, b));
        let o = sim_arena_end(2).sub(on);
        std::ptr::write_bytes(o.sub(64), 0x77, on + 64);
        let failed0 = sim_mem_failed();
        let mut ret = 0;
        sim_mute(0);
        let why = (l.hash)(alg as i32, op, cp, dp, pa, an, pb, bn, o, if op == SQUEEZE && blocks > 0 { blocks } else { on }, &mut ret);
        sim_mute(1);
        let name = ALGS[alg].0;
        sim_mem_check();
        let bad = sim_mem_bad();
        if bad != 0 {
            let s = if bad == 1 { "memory beyond a context was written" } else { "memory was freed twice or never allocated" };
            return viol("memory", format!("{} {name}: {s} ({what})", l.name));
        }
        for k in 1..=64 {
            if *o.sub(k) != 0x77 {
                return viol("memory", format!("{} {name}: the byte {k} before the output was written ({what})", l.name));
            }
        }
        if std::slice::from_raw_parts(pa, a.len()) != a || std::slice::from_raw_parts(pb, b.len()) != b {
            return viol("memory", format!("{} {name}: an input was changed ({what})", l.name));
        }
        let failing = sim_mem_failed() > failed0;
        match why {
            0 if failing => viol("broken-state", format!("{} {name}: went on although memory ran out ({what})", l.name)),
            0 => Ok(Out::Ok(std::slice::from_raw_parts(o, on).to_vec(), ret)),
            1 | 3 if failing => Ok(Out::Exit),
            1 => viol("gave-up", format!("{} {name}: ended the process for no reason ({what})", l.name)),
            2 if failing => viol("broken-state", format!("{} {name}: memory fault after memory ran out ({what})", l.name)),
            2 => viol("memory", format!("{} {name}: memory fault ({what})", l.name)),
            4 => viol("hang", format!("{} {name}: does not end ({what})", l.name)),
            _ => viol("gave-up", format!("{} {name}: stopped with reason {why} ({what})", l.name)),
        }
    }
}
/// Sizes around multiples of the block.
fn around(c: &mut Ctx, block: usize, max: usize) -> usize {
    let n = match c.t.draw(5) {
        0 => c.t.draw(4) as usize,
        1 => {
            let k = 1 + c.t.draw(3) as usize;
            (k * block + c.t.draw(5) as usize).saturating_sub(2)
        }
        2 => c.t.draw(block as u32 + 1) as usize,
        3 => c.t.draw(8) as usize * 8,
        _ => c.t.draw(3 * block as u32) as usize,
    };
    n.min(max)
}

/// ... seldom much longer: lengths that need another byte to be written down, or another counter byte.
fn long(c: &mut Ctx, block: usize, max: usize) -> usize {
    let n = match c.t.draw(1400) {
        1..=9 => [4096, 8192, 65536][c.t.draw(3) as usize] + c.t.draw(300) as usize,
        10 => (1 << [20, 21, 21][c.t.draw(3) as usize]) + c.t.draw(70_000) as usize,
        _ => return around(c, block, max),
    };
    c.count("long inputs or outputs");
    n - 100
}

fn fresh(c: &mut Ctx, l: &Lib, alg: usize, n: usize) -> R<Option<C>> {
    let (name, kind, block, _) = ALGS[alg];
    let mut x = C {
        name: format!("{name}#{n}"),
        mem: Mem::new(l.size),
        alg,
        stage: Stage::Absorb,
        model: None,
        len: 0,
        sha: None,
        custom: (vec![], vec![]),
        aes: None,
        seed: (vec![], vec![], 0, 0),
        ops: 0,
    };
    let (mut a, mut b, mut an) = (vec![], vec![], 0);
    match kind {
        Xof => x.model = Some(if block == 168 { shake128() } else { shake256() }),
        CXof => {
            let ln = long(c, block, 400);
            let lc = long(c, block, 400);
            a = c.h.bytes(ln);
            b = c.h.bytes(if ln == 0 && lc == 0 { 1 } else { lc });
            x.custom = (a.clone(), b.clone());
            an = a.len();
            x.model = Some(cshake(if block == 168 { 128 } else { 256 }, &a, &b));
        }
        Sha3 => x.model = Some(Sponge::new(block, 6)),
        Blocks => {
            let n = long(c, block, 2000);
            a = c.h.bytes(n);
            an = n;
            let mut m = if block == 168 { shake128() } else { shake256() };
            m.absorb(&a);
            x.model = Some(m);
            x.stage = Stage::Squeeze;
        }
        Sha2 => x.sha = Some(sha2_new(alg)),
        Ctr | Ecb => {
            a = c.h.bytes(block);
            an = block;
            x.aes = Some(Aes::new(&a));
            x.stage = Stage::Squeeze;
        }
        Seed => {
            a = c.h.bytes(32);
            b = c.h.bytes(8);
            an = match c.t.draw(3) {
                0 => c.t.draw(400) as usize,
                1 => c.t.draw(1 << 16) as usize,
                _ => 0xffff_ffff,
            };
            x.aes = Some(Aes::new(&a));
            let mut ctr = b.clone();
            ctr.extend((an as u32).to_be_bytes());
            x.seed = (ctr, vec![], 0, an);
            x.stage = Stage::Squeeze;
        }
    }
    c.ev(format!("{} starts ({} and {} bytes)", x.name, a.len(), b.len()));
    let what = format!("{} initialised", x.name);
    let p = x.mem.ptr();
    let bn = b.len();
    match call(l, &what, alg, INIT, p, std::ptr::null_mut(), &a, an, &b, bn, 0, 0)? {
        Out::Exit => Ok(None),
        Out::Ok(_, r) => {
            if r != 0 {
                return viol("gave-up", format!("{} {name}: initialisation reports {r}", l.name));
            }
            if kind == Blocks {
                x.len = a.len();
            }
            Ok(Some(x))
        }
    }
}

fn seed_next(x: &mut C, n: usize) -> Vec<u8> {
    let mut o = vec![];
    while o.len() < n {
        if x.seed.1.is_empty() {
            let mut b = x.seed.0.clone();
            b.extend(x.seed.2.to_be_bytes());
            x.seed.1 = x.aes.as_ref().unwrap().block(&b).to_vec();
            x.seed.2 = x.seed.2.wrapping_add(1);
        }
        let k = x.seed.1.len().min(n - o.len());
        o.extend(x.seed.1.drain(..k));
    }
    o
}

enum After {
    Keep,
    Gone,
    New(Box<C>),
    Exit,
}

fn turn(c: &mut Ctx, l: &Lib, x: &mut C, serial: usize) -> R<After> {
    let (aname, kind, block, olen) = ALGS[x.alg];
    let p = x.mem.ptr();
    let nul = std::ptr::null_mut();
    x.ops += 1;
    let clonable = !matches!(kind, Ctr | Ecb);
    if clonable && c.t.chance(1, 8) {
        // a second context with the same past
        let mut y = C {
            name: format!("{aname}#{serial}"),
            mem: Mem::new(l.size),
            alg: x.alg,
            stage: x.stage,
            model: x.model.clone(),
            len: x.len,
            sha: x.sha.clone(),
            custom: x.custom.clone(),
            aes: x.aes.clone(),
            seed: x.seed.clone(),
            ops: 0,
        };
        c.ev(format!("{} cloned to {}", x.name, y.name));
        c.fault("clone");
        let what = format!("{} cloned after {} operations", x.name, x.ops);
        return match call(l, &what, x.alg, CLONE, p, y.mem.ptr(), &[], 0, &[], 0, 0, 0)? {
            Out::Exit => Ok(After::Exit),
            Out::Ok(..) => Ok(After::New(Box::new(y))),
        };
    }
    if kind != Seed && c.t.chance(1, 24) {
        c.ev(format!("{} dropped", x.name));
        let what = format!("{} released after {} operations", x.name, x.ops);
        call(l, &what, x.alg, RELEASE, p, nul, &[], 0, &[], 0, 0, 0)?;
        return Ok(After::Gone);
    }
    if x.stage == Stage::Absorb {
        let fin = c.t.chance(1, 4) || x.ops > 40;
        if !fin {
            let n = match kind {
                Sha2 => {
                    let n = long(c, block, 400);
                    if n > 400 { n / block * block } else { *c.t.pick(&[0usize, 1, 1, 2, 3, 5]) * block }
                }
                _ => long(c, block, 2000),
            };
            // bit lengths of four and more bytes
            let huge = kind == Sha2 && c.t.draw(if c.thorough { 20_000 } else { 60_000 }) == 1;
            let (n, times) = if huge { (16 << 20, 30 + c.t.draw(10)) } else { (n, 1) };
            let d = c.h.bytes(n);
            c.ev(format!("{} absorbs {n}, {times} times", x.name));
            for _ in 0..times {
                let what = format!("{} absorbs {n} bytes after {}", x.name, x.len);
                let an = if kind == Sha2 { n / block } else { n };
                call(l, &what, x.alg, ABSORB, p, nul, &d, an, &[], 0, 0, 0)?;
                if let Some(m) = &mut x.model {
                    m.absorb(&d);
                }
                if let Some(h) = &mut x.sha {
                    h.update(&d);
                }
                x.len += n;
            }
            if huge {
                c.count("inputs of more than 2^32 bits");
            }
            return Ok(After::Keep);
        }
        let tail = if kind == Sha2 {
            let n = long(c, block, 1000);
            c.h.bytes(n)
        } else {
            vec![]
        };
        c.ev(format!("{} finishes with {} bytes", x.name, tail.len()));
        let what = format!("{} finished after {} and {} bytes", x.name, x.len, tail.len());
        x.len += tail.len();
        if let Some(h) = &mut x.sha {
            h.update(&tail);
        }
        // memory may be asked for while finishing
        let on = olen;
        let got = match call(l, &what, x.alg, FINAL, p, nul, &tail, tail.len(), &[], 0, on, 0)? {
            Out::Exit => return Ok(After::Exit),
            Out::Ok(o, _) => o,
        };
        x.stage = Stage::Squeeze;
        if olen == 0 {
            return Ok(After::Keep);
        }
        let want = if let Some(h) = x.sha.take() { h.finalize().to_vec() } else { x.model.as_mut().unwrap().get(olen) };
        c.note_content(&got);
        if got != want {
            return viol("wrong-output", format!("{} {what}: {} instead of {}", l.name, short(&got), short(&want)));
        }
        return Ok(After::Gone);
    }
    // squeezing
    let end = c.t.chance(1, 5);
    if end && kind != Seed {
        c.ev(format!("{} released", x.name));
        let what = format!("{} released after {} operations", x.name, x.ops);
        call(l, &what, x.alg, RELEASE, p, nul, &[], 0, &[], 0, 0, 0)?;
        return Ok(After::Gone);
    }
    if end {
        return Ok(After::Gone);
    }
    let mut n = long(c, if matches!(kind, Ctr | Ecb | Seed) { 64 } else { block }, 1200);
    let (mut a, mut blocks) = (vec![], 0);
    match kind {
        Blocks => {
            blocks = if n > 1200 { n / block } else { *c.t.pick(&[1usize, 2, 3, 5]) };
            n = blocks * block;
        }
        Ctr => a = c.h.bytes(12),
        Ecb => {
            blocks = if n > 1200 { n / 16 } else { *c.t.pick(&[1usize, 2, 3, 4, 5, 8, 9]) };
            n = blocks * 16;
            a = c.h.bytes(n);
        }
        Seed if c.t.chance(1, 4) => n = x.seed.3.saturating_sub(c.t.draw(3) as usize).min(1200),
        _ => {}
    }
    c.ev(format!("{} yields {n}", x.name));
    let what = format!("{} asked for {n} bytes after {} operations", x.name, x.ops);
    let an = a.len();
    let (got, ret) = match call(l, &what, x.alg, SQUEEZE, p, nul, &a, an, &[], 0, n, blocks)? {
        Out::Exit => return Ok(After::Exit),
        Out::Ok(o, r) => (o, r),
    };
    let want = match kind {
        Ctr => x.aes.as_ref().unwrap().ctr(&a, n),
        Ecb => a.chunks(16).flat_map(|b| x.aes.as_ref().unwrap().block(b)).collect(),
        Seed => {
            if n >= x.seed.3 {
                if ret == 0 {
                    return viol("wrong-output", format!("{} {what}: more than the limit of the expander was granted", l.name));
                }
                return Ok(After::Keep);
            }
            if ret != 0 {
                return viol("gave-up", format!("{} {what}: refused with {ret} although {} bytes are left", l.name, x.seed.3));
            }
            x.seed.3 -= n;
            seed_next(x, n)
        }
        _ => x.model.as_mut().unwrap().get(n),
    };
    c.note_content(&got);
    if got != want {
        return viol("wrong-output", format!("{} {what}: {} instead of {}", l.name, short(&got), short(&want)));
    }
    Ok(After::Keep)
}

/// The whole input at once, for the record of a context.
fn oneshot(c: &mut Ctx, l: &Lib, alg: usize) -> R<bool> {
    let (name, kind, block, olen) = ALGS[alg];
    if !matches!(kind, Xof | CXof | Sha3 | Sha2) {
        return Ok(true);
    }
    let n = long(c, block, 2000);
    let d = c.h.bytes(n);
    let on = if olen > 0 { olen } else { long(c, block, 1000) };
    c.ev(format!("{name} of {n} bytes at once, {on} bytes out"));
    let what = format!("{n} bytes at once, {on} bytes out");
    let (r, want) = if kind == CXof {
        let (ln, lc) = (long(c, block, 300), long(c, block, 300));
        let nm = c.h.bytes(ln);
        let cu = c.h.bytes(lc.max(1));
        let mut m = cshake(if block == 168 { 128 } else { 256 }, &nm, &cu);
        m.absorb(&d);
        let want = m.get(on);
        (call(l, &what, alg, ONESHOT, nm.len() as *mut u8, nm.as_ptr() as *mut u8, &d, n, &cu, cu.len(), on, 0)?, want)
    } else {
        let want = match kind {
            Sha2 => sha2_of(alg, &d),
            Sha3 => crate::model::keccak::sha3(olen * 8, &[&d]),
            _ => crate::model::keccak::shake(if block == 168 { 128 } else { 256 }, &[&d], on),
        };
        (call(l, &what, alg, ONESHOT, std::ptr::null_mut(), std::ptr::null_mut(), &d, n, &[], 0, on, 0)?, want)
    };
    match r {
        Out::Exit => Ok(false),
        Out::Ok(got, _) if got == want => Ok(true),
        Out::Ok(got, _) => viol("wrong-output", format!("{} {name}: {what}: {} instead of {}", l.name, short(&got), short(&want))),
    }
}

/// Four permutations side by side.
fn four(c: &mut Ctx, l: &Lib) -> R {
    #[repr(align(32))]
    struct St([u8; 800]);
    let mut st = St([0x3c; 800]);
    let mut m = [[0u64; 25]; 4];
    let steps = 3 + c.t.draw(14);
    let bytes = |m: &[u64; 25]| -> Vec<u8> { m.iter().flat_map(|w| w.to_le_bytes()).collect() };
    let unbytes = |b: &[u8]| -> [u64; 25] { std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap())) };
    unsafe { (l.x4)(st.0.as_mut_ptr(), 0, 0, std::ptr::null_mut(), 0, 0) };
    for _ in 0..steps {
        let op = *c.t.pick(&[2, 1, 3, 4, 5, 6, 8, 9, 10, 11, 7, 2, 1]);
        let i = c.t.draw(4) as usize;
        let off = c.t.draw(200) as usize;
        let n = c.t.draw(200 - off as u32 + 1) as usize;
        let (lanes, stride) = (c.t.draw(26) as usize, 25 + c.t.draw(8) as usize);
        c.ev(format!("four permutations: operation {op} on {i} at {off}+{n}, {lanes} lanes"));
        let all = op >= 8;
        let len = if all { 8 * (3 * stride + lanes) } else { n };
        let mut d = c.h.bytes(len);
        let orig = d.clone();
        let p = unsafe {
            let p = sim_arena_end(0).sub(len);
            std::ptr::copy_nonoverlapping(d.as_ptr(), p, len);
            sim_mute(0);
            let why = if all { (l.x4)(st.0.as_mut_ptr(), op, 0, p, stride as u32, lanes as u32) } else { (l.x4)(st.0.as_mut_ptr(), op, i as u32, p, off as u32, n as u32) };
            sim_mute(1);
            if why != 0 {
                return viol("memory", format!("{} keccak4x: operation {op} on {i} at {off}+{n}, {lanes} lanes: memory fault", l.name));
            }
            std::slice::from_raw_parts(p, len).to_vec()
        };
        match op {
            1 | 4 | 3 | 6 => {
                let mut s = bytes(&m[i]);
                for k in 0..n {
                    match op {
                        1 => s[off + k] ^= d[k],
                        4 => s[off + k] = d[k],
                        3 => d[k] = s[off + k],
                        _ => d[k] ^= s[off + k],
                    }
                }
                m[i] = unbytes(&s);
            }
            5 => {
                let mut s = bytes(&m[i]);
                s[..n].fill(0);
                m[i] = unbytes(&s);
            }
            2 => m.iter_mut().for_each(|s| permute_last(s, 24)),
            7 => m.iter_mut().for_each(|s| permute_last(s, 12)),
            _ => {
                for (j, s) in m.iter_mut().enumerate() {
                    for k in 0..lanes {
                        let at = 8 * (j * stride + k);
                        let v = u64::from_le_bytes(orig[at..at + 8].try_into().unwrap());
                        match op {
                            8 => s[k] ^= v,
                            9 => s[k] = v,
                            10 => d[at..at + 8].copy_from_slice(&s[k].to_le_bytes()),
                            _ => d[at..at + 8].copy_from_slice(&(s[k] ^ v).to_le_bytes()),
                        }
                    }
                }
            }
        }
        if p != d {
            return viol("wrong-output", format!("{} keccak4x: operation {op} on {i} at {off}+{n}, {lanes} lanes: wrong bytes", l.name));
        }
    }
    for (i, s) in m.iter().enumerate() {
        let mut o = vec![0u8; 200];
        unsafe { (l.x4)(st.0.as_mut_ptr(), 3, i as u32, o.as_mut_ptr(), 0, 200) };
        if o != bytes(s) {
            return viol("wrong-output", format!("{} keccak4x: state {i} is wrong after {steps} operations", l.name));
        }
    }
    Ok(())
}

/// One run in ten does it on two threads of the process at once.
pub fn run(c: &mut Ctx) -> R {
    if c.t.draw(10) != 9 {
        return alone(c);
    }
    let (s, gap, fine) = (c.t.draw(1 << 20), *c.t.pick(&[1u32, 4, 16]), c.t.chance(2, 3));
    let mut d = Ctx::new(mix(c.seed, 1 + s as u64), Tape::aside(mix(c.seed, s as u64), s as u64), c.thorough);
    let [a, b] = [1, 2].map(|k| Node::new(mix(c.seed, k), Default::default()));
    struct W<'a>(&'a mut Ctx);
    unsafe impl Send for W<'_> {}
    let (x, y) = (W(c), W(&mut d));
    let (x, y, n) = a.exec_with(
        move || {
            let x = x;
            unsafe { sim_mute(1) };
            alone(x.0)
        },
        &b,
        move || {
            let y = y;
            unsafe { sim_mute(1) };
            alone(y.0)
        },
        mix(s as u64, 3),
        gap,
        fine,
    );
    c.fault("two-threads");
    *c.faults.entry("switch-inside-a-call").or_insert(0) += n.0;
    *c.faults.entry("two-threads-at-one-place").or_insert(0) += n.2;
    c.sched = fnv(c.sched, &n.1.to_le_bytes());
    c.content = fnv(fnv(c.content, &n.1.to_le_bytes()), &d.content.to_le_bytes());
    if let Err(v) = &y {
        c.ev(format!("the other thread: {}", v.msg));
        c.log.extend(d.log);
    }
    x.and(y)
}
fn alone(c: &mut Ctx) -> R {
    let l = match c.t.strat(2) {
        0 => Lib { name: "pqclean", hash: sim_pc_hash, x4: sim_pc_x4, size: unsafe { sim_pc_ctx_size() } },
        _ => Lib { name: "pqcrypto-internals", hash: sim_pi_hash, x4: sim_pi_x4, size: unsafe { sim_pi_ctx_size() } },
    };
    let first = c.t.strat(21) as usize;
    unsafe { sim_mem_reset() };
    if first == 20 {
        c.ev(format!("{} keccak4x", l.name));
        c.nontrivial = true;
        return four(c, &l);
    }
    let mut live: Vec<C> = vec![];
    let mut serial = 0;
    let want = 1 + c.t.draw(4) as usize;
    let oom = c.t.chance(1, 3);
    if oom {
        let n = c.t.draw(10) as i64;
        c.ev(format!("memory runs out after {n} allocations"));
        unsafe { sim_mem_fail_in(n) };
    }
    let mut started = 0;
    let mut exits = 0;
    for _ in 0..60 {
        c.steps += 1;
        let mut gone = false;
        if started < want && (live.is_empty() || c.t.chance(1, 2)) {
            let alg = if started == 0 { first } else { c.t.draw(20) as usize };
            started += 1;
            serial += 1;
            match fresh(c, &l, alg, serial)? {
                Some(x) => live.push(x),
                None => gone = true,
            }
        } else if live.is_empty() {
            break;
        } else if c.t.chance(1, 10) {
            let alg = c.t.draw(13) as usize;
            gone = !oneshot(c, &l, alg)?;
        } else {
            let k = c.t.draw(live.len() as u32) as usize;
            if live.len() > 1 {
                c.nontrivial = true;
            }
            serial += 1;
            match turn(c, &l, &mut live[k], serial)? {
                After::Keep => {}
                After::Gone => {
                    let x = live.remove(k);
                    if !x.mem.intact() {
                        return viol("memory", format!("{} {}: memory beyond the context was written", l.name, x.name));
                    }
                }
                After::New(y) if live.len() < 8 => live.push(*y),
                After::New(mut y) => {
                    call(&l, "released", y.alg, RELEASE, y.mem.ptr(), std::ptr::null_mut(), &[], 0, &[], 0, 0, 0)?;
                }
                After::Exit => gone = true,
            }
        }
        if gone {
            // the process ended; another one starts with all its memory
            c.fault("out-of-memory");
            c.ev("the process ends for lack of memory".to_string());
            c.count("process-ended");
            live.clear();
            unsafe { sim_mem_reset() };
            exits += 1;
            started = 0;
            if exits > 2 {
                return Ok(());
            }
        }
    }
    for mut x in live {
        if ALGS[x.alg].1 != Seed {
            call(&l, "released at the end", x.alg, RELEASE, x.mem.ptr(), std::ptr::null_mut(), &[], 0, &[], 0, 0, 0)?;
        }
        if !x.mem.intact() {
            return viol("memory", format!("{} {}: memory beyond the context was written", l.name, x.name));
        }
    }
    let n = unsafe { sim_mem_live() };
    unsafe { sim_mem_reset() };
    if n != 0 {
        return viol("leak", format!("{}: {n} blocks of memory are still held after every context is gone", l.name));
    }
    Ok(())
}

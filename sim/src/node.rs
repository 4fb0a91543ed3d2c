//! A simulated node: one OS thread with its own entropy source, clock and thread-local generators.
//! Exactly one node runs at a time; the caller waits for each job, so the schedule is the caller's alone.
//! Dropping a node and making a new one is a process crash and restart.
use crate::duo::Group;
use crate::ent::{self, Ent, EntFaults, EntStats};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};

type Job = Box<dyn FnOnce() + Send>;

pub struct Node {
    tx: Option<Sender<Job>>,
    done: Receiver<()>,
    h: Option<std::thread::JoinHandle<()>>,
    clock: std::cell::Cell<(u64, i64)>,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static FOREIGN: RefCell<Option<String>> = const { RefCell::new(None) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let file = info.location().map(|l| l.file()).unwrap_or("");
        let loc = file.rsplit("/repo/").next().unwrap_or("").to_string();
        LAST.with(|l| *l.borrow_mut() = format!("{loc}: {msg}"));
        if !QUIET.with(|q| q.get()) {
            if file.contains("/repo/") {
                FOREIGN.with(|f| *f.borrow_mut() = Some(format!("{loc}: {msg}")));
            } else {
                old(info)
            }
        }
    }));
}

/// Runs f, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// An unguarded panic whose place is in the code under test.
pub struct CodePanic(pub String);
/// Runs f; an unguarded panic of the code under test becomes a CodePanic, any other goes on.
pub fn watch<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    FOREIGN.with(|f| f.borrow_mut().take());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| match FOREIGN.with(|f| f.borrow_mut().take()) {
        Some(t) => Box::new(CodePanic(t)),
        None => e,
    })
}

impl Node {
    pub fn new(seed: u64, faults: EntFaults) -> Node {
        let (tx, rx) = channel::<Job>();
        let (dtx, drx) = channel::<()>();
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                ent::install(Ent::new(seed, faults));
                while let Ok(j) = rx.recv() {
                    j();
                    if dtx.send(()).is_err() {
                        break;
                    }
                }
            })
            .expect("spawn");
        Node { tx: Some(tx), done: drx, h: Some(h), clock: std::cell::Cell::new((0, 0)) }
    }
    /// Runs f on the node's thread and waits for it.
    pub fn exec<'a, T: Send + 'a>(&self, f: impl FnOnce() -> T + Send + 'a) -> T {
        let mut out: Option<std::thread::Result<T>> = None;
        {
            let slot = &mut out;
            struct P<T>(*mut Option<std::thread::Result<T>>);
            unsafe impl<T> Send for P<T> {}
            let p = P(slot as *mut _);
            let (now, wall) = self.clock.get();
            let job: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
                let p = p;
                ent::with(|e| {
                    e.now = e.now.max(now);
                    e.wall = wall;
                });
                ent::active(true);
                let r = watch(f);
                ent::active(false);
                unsafe { *p.0 = Some(r) };
            });
            // Safe: we wait for the job to end before returning.
            let job: Job = unsafe { std::mem::transmute(job) };
            self.tx.as_ref().unwrap().send(job).expect("node gone");
            self.done.recv().expect("node died");
        }
        match out.expect("no result") {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    /// Runs f here and g on another node at the same time; gives also how often they took turns.
    pub fn exec_with<'a, T: Send + 'a, U: Send + 'a>(&self, f: impl FnOnce() -> T + Send + 'a, other: &Node, g: impl FnOnce() -> U + Send + 'a, seed: u64, gap: u32, fine: bool) -> (T, U, (u64, u64, u64)) {
        let mut a: Option<std::thread::Result<T>> = None;
        let mut b: Option<std::thread::Result<U>> = None;
        let grp = Group::new(seed, gap, fine);
        {
            fn job<'a, T: Send + 'a>(n: &Node, slot: &'a mut Option<std::thread::Result<T>>, grp: &'a Group, me: usize, f: impl FnOnce() -> T + Send + 'a) -> Job {
                struct P<T>(*mut Option<std::thread::Result<T>>);
                unsafe impl<T> Send for P<T> {}
                let p = P(slot as *mut _);
                let (now, wall) = n.clock.get();
                let j: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
                    let p = p;
                    ent::with(|e| {
                        e.now = e.now.max(now);
                        e.wall = wall;
                    });
                    let r = watch(|| {
                        grp.run(me, || {
                            ent::active(true);
                            let r = watch(f);
                            ent::active(false);
                            r
                        })
                    });
                    unsafe { *p.0 = Some(r.and_then(|r| r)) };
                });
                // Safe: we wait for both jobs to end before returning.
                unsafe { std::mem::transmute(j) }
            }
            let ja = job(self, &mut a, &grp, 0, f);
            let jb = job(other, &mut b, &grp, 1, g);
            self.tx.as_ref().unwrap().send(ja).expect("node gone");
            other.tx.as_ref().unwrap().send(jb).expect("node gone");
            self.done.recv().expect("node died");
            other.done.recv().expect("node died");
        }
        let n = grp.switches();
        match (a.expect("no result"), b.expect("no result")) {
            (Ok(a), Ok(b)) => (a, b, n),
            (Err(e), _) | (_, Err(e)) => std::panic::resume_unwind(e),
        }
    }
    pub fn stats(&self) -> EntStats {
        self.exec(|| ent::with(|e| e.stats.clone()))
    }
    pub fn set_faults(&self, f: EntFaults) {
        self.exec(move || ent::with(|e| e.faults = f))
    }
    /// From the next piece of work on: time since start (never goes back) and what the calendar adds to it.
    pub fn set_clock(&self, now: u64, wall: i64) {
        self.clock.set((now, wall));
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        self.tx.take();
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}

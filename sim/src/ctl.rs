//! Per-thread control block: whether library code is running, which fault is armed, counters.
//! Everything is const-initialised and without destructors so the allocator and the SIGTRAP handler
//! may use it at any time.
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// n-th allocation (0-based) inside the armed operation fails
    AllocNth(u32),
    /// from the n-th allocation on, every allocation fails (heap full)
    AllocFrom(u32),
    /// allocations larger than n bytes fail
    AllocOver(u32),
    /// the n-th access to caller-supplied bit storage panics
    Storage(u32),
    /// the thread is preempted after n machine instructions inside the operation
    Preempt(u32),
    /// as Preempt, but the thread stays stopped until all others are done
    Stall(u32),
    /// the thread is preempted just before the n-th access (0-based) to memory that callers share
    PreemptAt(u32),
    /// as PreemptAt, but the thread stays stopped until all others are done
    StallAt(u32),
    /// writer faults, interpreted by the Display operation: (fault after n bytes, mode)
    Sink(u32, u8),
    /// at the n-th call the library makes into code of the caller (bit storage, writer, hasher), that
    /// code itself uses the library for something else
    Reenter(u32),
}

/// payloads of injected panics
pub struct AllocFault;
pub struct StorageFault;
pub struct SinkFault;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Fail {
    Alloc,
    Storage,
    Sink,
    /// panic raised by the library itself
    Panic(String),
}
pub type R<T> = Result<T, Fail>;

pub struct Ctl {
    pub in_lib: Cell<bool>,
    pub armed: Cell<Fault>,
    pub fired: Cell<bool>,
    pub alloc_n: Cell<u32>,
    pub storage_n: Cell<u32>,
    pub steps: Cell<u32>,
    pub stepping: Cell<bool>,
    /// accesses to shared memory seen while stepping, since arm()
    pub shared_n: Cell<u32>,
    /// simulated thread id + 1, 0 = not managed
    pub tid: Cell<u32>,
    /// allocations attempted by library code since arm()
    pub lib_allocs: Cell<u32>,
    /// calls into code of the caller since arm(), and what that code does at the chosen one
    pub visit_n: Cell<u32>,
    pub visit: Cell<Option<(*mut (), unsafe fn(*mut ()))>>,
}
thread_local! {
    pub static CTL: Ctl = const { Ctl {
        in_lib: Cell::new(false), armed: Cell::new(Fault::None), fired: Cell::new(false),
        alloc_n: Cell::new(0), storage_n: Cell::new(0), steps: Cell::new(0), stepping: Cell::new(false), shared_n: Cell::new(0),
        tid: Cell::new(0), lib_allocs: Cell::new(0),
        visit_n: Cell::new(0), visit: Cell::new(None),
    } };
}

pub fn arm(f: Fault) {
    CTL.with(|c| {
        c.armed.set(f);
        c.fired.set(false);
        c.alloc_n.set(0);
        c.storage_n.set(0);
        c.steps.set(0);
        c.shared_n.set(0);
        c.lib_allocs.set(0);
        c.visit_n.set(0);
    })
}
/// disarm; returns whether the armed fault fired
pub fn disarm() -> bool {
    CTL.with(|c| {
        c.armed.set(Fault::None);
        c.fired.get()
    })
}

#[inline]
fn enter() {
    CTL.with(|c| {
        c.in_lib.set(true);
        if !c.fired.get() {
            if let Fault::Preempt(_) | Fault::Stall(_) | Fault::PreemptAt(_) | Fault::StallAt(_) = c.armed.get() {
                c.stepping.set(true);
                crate::sched::tf_on();
            }
        }
    });
}
#[inline]
fn exit() {
    CTL.with(|c| {
        if c.stepping.get() {
            c.stepping.set(false);
            crate::sched::tf_off();
        }
        c.in_lib.set(false);
    });
}
/// called by the panic hook: the operation is over, from here on memory is available again
pub fn panic_begins() {
    exit();
}

/// Runs library code: faults may fire inside, panics are caught and classified.
pub fn lib<T>(f: impl FnOnce() -> T) -> R<T> {
    enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    exit();
    match r {
        Ok(v) => Ok(v),
        Err(p) => Err(classify(p)),
    }
}

fn classify(p: Box<dyn std::any::Any + Send>) -> Fail {
    if p.is::<AllocFault>() {
        Fail::Alloc
    } else if p.is::<StorageFault>() {
        Fail::Storage
    } else if p.is::<SinkFault>() {
        Fail::Sink
    } else if let Some(s) = p.downcast_ref::<&str>() {
        Fail::Panic(s.to_string())
    } else if let Some(s) = p.downcast_ref::<String>() {
        Fail::Panic(s.clone())
    } else {
        Fail::Panic("?".into())
    }
}

/// Runs harness code from inside an operation (caller-supplied storage, writers): no faults, no stepping.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let (was, stepping) = CTL.with(|c| {
        let s = c.stepping.get();
        if s {
            crate::sched::tf_off();
            c.stepping.set(false);
        }
        (c.in_lib.replace(false), s)
    });
    let r = f();
    CTL.with(|c| {
        c.in_lib.set(was);
        if stepping && !c.fired.get() {
            c.stepping.set(true);
            crate::sched::tf_on();
        }
    });
    r
}

/// Called wherever the library calls code of the caller.
pub fn visit_point() {
    let f = CTL.with(|c| {
        let k = match c.armed.get() {
            Fault::Reenter(k) if !c.fired.get() && !std::thread::panicking() => k,
            _ => return None,
        };
        let n = c.visit_n.get();
        c.visit_n.set(n + 1);
        if n != k {
            return None;
        }
        c.fired.set(true);
        c.visit.take()
    });
    if let Some((p, f)) = f {
        let was = CTL.with(|c| (c.armed.get(), c.alloc_n.get(), c.storage_n.get(), c.steps.get(), c.shared_n.get(), c.lib_allocs.get()));
        harness(|| unsafe { f(p) });
        CTL.with(|c| {
            c.armed.set(was.0);
            c.fired.set(true);
            c.alloc_n.set(was.1);
            c.storage_n.set(was.2);
            c.steps.set(was.3);
            c.shared_n.set(was.4);
            c.lib_allocs.set(was.5);
        });
    }
}

/// Called on every access to caller-supplied bit storage.
pub fn storage_point() {
    if CTL.with(|c| c.in_lib.get()) {
        visit_point();
    }
    let fire = CTL.with(|c| {
        if !c.in_lib.get() || !matches!(c.armed.get(), Fault::Storage(_)) || std::thread::panicking() {
            return false;
        }
        let n = c.storage_n.get();
        c.storage_n.set(n + 1);
        match c.armed.get() {
            Fault::Storage(k) if k == n && !c.fired.get() => {
                c.fired.set(true);
                true
            }
            _ => false,
        }
    });
    if fire {
        panic_begins();
        std::panic::resume_unwind(Box::new(StorageFault));
    }
}

//! The schedule. Caller threads are real OS threads, but exactly one runs at a time: a baton is passed
//! at operation boundaries and, by single-stepping the CPU (trap flag), after a chosen number of machine
//! instructions inside an operation. Who gets the baton is read from the trace, never from the OS.
use crate::ctl::{Fault, CTL};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub fn tf_on() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq")
    }
}
pub fn tf_off() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq")
    }
}

/// instructions of one operation examined without finding any access to shared memory / at all
const PATIENCE: u32 = 4000;
const PATIENCE_AT_ALL: u32 = 30_000;

extern "C" fn on_trap(_s: i32, _i: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let clear = || unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    };
    let act = CTL.with(|c| {
        if !c.stepping.get() {
            clear();
            return None;
        }
        let n = c.steps.get();
        c.steps.set(n + 1);
        let (k, stall) = match c.armed.get() {
            Fault::Preempt(k) => (k, false),
            Fault::Stall(k) => (k, true),
            f @ (Fault::PreemptAt(k) | Fault::StallAt(k)) => {
                // count accesses to shared memory instead of instructions
                let seen = c.shared_n.get();
                let hit = unsafe { crate::access::touches(&*(ctx as *const libc::ucontext_t)) };
                if !hit && (seen == 0 && n > PATIENCE || n > PATIENCE_AT_ALL) {
                    c.stepping.set(false);
                    clear();
                    return None;
                }
                if !hit {
                    return None;
                }
                c.shared_n.set(seen + 1);
                if seen < k {
                    return None;
                }
                (0, matches!(f, Fault::StallAt(_)))
            }
            _ => {
                c.stepping.set(false);
                clear();
                return None;
            }
        };
        if n < k {
            return None;
        }
        c.fired.set(true);
        c.stepping.set(false);
        clear();
        if c.tid.get() == 0 {
            return None;
        }
        Some((c.tid.get() as usize - 1, stall, c.in_lib.replace(false)))
    });
    if let Some((me, stall, was)) = act {
        unsafe {
            let e = *libc::__errno_location();
            switch(me, true, stall);
            *libc::__errno_location() = e;
        }
        CTL.with(|c| c.in_lib.set(was));
    }
}

pub fn install() {
    crate::access::install();
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

const MAXT: usize = 8;
const NOBODY: usize = 99;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ts {
    Ready,
    Stalled,
    Blocked,
    Done,
}
struct S {
    active: bool,
    n: usize,
    cur: usize,
    /// who has really taken the baton up
    running: usize,
    st: [Ts; MAXT],
    ktid: [i32; MAXT],
    registered: usize,
    picks: Vec<u8>,
    pi: usize,
    progress: u64,
    switches: u32,
    seq: u64,
    /// (task, switch number) sequence digest: the interleaving
    inter: crate::rng::Dig,
    /// which task was running when another was found blocked
    blocked_ever: u32,
}
static M: Mutex<S> = Mutex::new(S {
    active: false,
    n: 0,
    cur: NOBODY,
    running: NOBODY,
    st: [Ts::Done; MAXT],
    ktid: [0; MAXT],
    registered: 0,
    picks: Vec::new(),
    pi: 0,
    progress: 0,
    switches: 0,
    seq: 0,
    inter: crate::rng::Dig(0xcbf2_9ce4_8422_2325),
    blocked_ever: 0,
});
static CV: [Condvar; MAXT + 1] = [const { Condvar::new() }; MAXT + 1];

impl S {
    fn pick(&mut self) -> u8 {
        let p = self.picks.get(self.pi).copied().unwrap_or(0);
        self.pi += 1;
        p
    }
    fn give(&mut self, to: usize) {
        self.cur = to;
        self.switches += 1;
        self.inter.b(to as u8);
        self.inter.u(self.seq);
        CV[to].notify_all();
    }
    fn ready_others(&self, me: usize) -> ([usize; MAXT], usize) {
        let mut v = [0; MAXT];
        let mut n = 0;
        for k in 1..self.n {
            let t = (me + k) % self.n;
            if self.st[t] == Ts::Ready {
                v[n] = t;
                n += 1;
            }
        }
        (v, n)
    }
}

fn lock() -> std::sync::MutexGuard<'static, S> {
    M.lock().unwrap_or_else(|e| e.into_inner())
}

/// `force`: somebody else must run if anybody can (the point was chosen for a preemption)
fn switch(me: usize, force: bool, stall: bool) {
    let mut s = lock();
    if !s.active {
        return;
    }
    s.progress += 1;
    s.seq += 1;
    if s.st[me] == Ts::Blocked {
        s.st[me] = Ts::Ready;
        if s.cur == NOBODY {
            s.give(me);
        }
    }
    if s.cur == me {
        let (v, n) = s.ready_others(me);
        let p = s.pick() as usize;
        let next = if n == 0 {
            me
        } else if force {
            v[p % n]
        } else if p == 0 {
            me
        } else {
            v[(p - 1) % n]
        };
        if next == me {
            return;
        }
        if stall {
            s.st[me] = Ts::Stalled;
        }
        s.give(next);
    }
    while s.cur != me {
        s = CV[me].wait(s).unwrap_or_else(|e| e.into_inner());
    }
    s.running = me;
}

/// operation boundary
pub fn point() {
    let me = CTL.with(|c| c.tid.get());
    if me > 0 {
        switch(me as usize - 1, false, false);
    }
}

fn next_after(s: &mut S, me: usize) {
    let (v, n) = s.ready_others(me);
    if n > 0 {
        let p = s.pick() as usize;
        s.give(v[p % n]);
        return;
    }
    for want in [Ts::Blocked, Ts::Stalled] {
        for t in 0..s.n {
            if s.st[t] == want {
                s.st[t] = Ts::Ready;
                s.give(t);
                if want == Ts::Blocked {
                    // it is not waiting for the baton but inside the library
                    s.running = t;
                }
                return;
            }
        }
    }
    s.cur = NOBODY;
    CV[MAXT].notify_all();
}

fn finish(me: usize) {
    let mut s = lock();
    s.progress += 1;
    s.st[me] = Ts::Done;
    if s.cur == me || s.cur == NOBODY {
        next_after(&mut s, me);
    }
    CV[MAXT].notify_all();
}

#[derive(Debug)]
pub struct Report {
    pub switches: u32,
    pub inter: u64,
    pub picks_used: usize,
    /// Some(description): a task can make no progress
    pub stuck: Option<String>,
}

fn tstat(ktid: i32) -> (char, u64) {
    // state, user+system ticks
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", ktid)).unwrap_or_default();
    let r = s.rsplit(") ").next().unwrap_or("").to_string();
    let f: Vec<&str> = r.split(' ').collect();
    let st = f.first().and_then(|x| x.chars().next()).unwrap_or('?');
    let t = f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
        + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (st, t)
}

/// Runs the jobs as caller threads under the given schedule. Each job runs on a fresh thread.
/// `no_waiting`: a caller that waits for another one ends the run at once.
pub fn run_threads(jobs: Vec<Box<dyn FnOnce() + Send>>, picks: &[u8], op_name: &dyn Fn(usize) -> String, no_waiting: bool) -> Report {
    let n = jobs.len();
    assert!(n <= MAXT);
    {
        let mut s = lock();
        s.active = true;
        s.n = n;
        s.cur = NOBODY;
        s.running = NOBODY;
        s.st = [Ts::Ready; MAXT];
        s.registered = 0;
        s.picks = picks.to_vec();
        s.pi = 0;
        s.progress = 0;
        s.switches = 0;
        s.seq = 0;
        s.blocked_ever = 0;
        s.inter = crate::rng::Dig::new();
    }
    let mut hs = vec![];
    for (i, j) in jobs.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    {
                        let mut s = lock();
                        s.ktid[i] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                        s.registered += 1;
                        CV[MAXT].notify_all();
                        while s.cur != i {
                            s = CV[i].wait(s).unwrap_or_else(|e| e.into_inner());
                        }
                        s.running = i;
                    }
                    CTL.with(|c| c.tid.set(i as u32 + 1));
                    j();
                    CTL.with(|c| c.tid.set(0));
                    finish(i);
                })
                .expect("spawn"),
        );
    }
    let mut s = lock();
    while s.registered < n {
        s = CV[MAXT].wait(s).unwrap_or_else(|e| e.into_inner());
    }
    let p = s.pick() as usize % n;
    s.give(p);
    let mut last = (0u64, NOBODY);
    let mut sleeping = 0;
    let mut cpu0 = 0;
    let mut stuck = None;
    loop {
        if s.st[..n].iter().all(|x| *x == Ts::Done) {
            break;
        }
        let (g, _) = CV[MAXT].wait_timeout(s, Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner());
        s = g;
        if s.cur == NOBODY || s.running != s.cur || s.st[s.cur] == Ts::Done {
            continue;
        }
        let (state, cpu) = tstat(s.ktid[s.cur]);
        if (s.progress, s.cur) != last {
            last = (s.progress, s.cur);
            sleeping = 0;
            cpu0 = cpu;
            continue;
        }
        if state == 'S' {
            sleeping += 1
        } else {
            sleeping = 0
        }
        let spinning = cpu.saturating_sub(cpu0) > 150; // 1.5 s of its own CPU time inside one step
        let cur = s.cur;
        let (v, k) = s.ready_others(cur);
        let limit = if k > 0 { 4 } else { 40 };
        if sleeping < limit && !spinning {
            continue;
        }
        s.blocked_ever += 1;
        if k > 0 && !spinning && !no_waiting {
            // it waits for something held by a preempted caller: let others run
            s.st[cur] = Ts::Blocked;
            let p = s.pick() as usize;
            s.give(v[p % k]);
            continue;
        }
        if k > 0 && s.blocked_ever < 4 && !no_waiting {
            s.st[cur] = Ts::Blocked;
            s.give(v[0]);
            continue;
        }
        let who: Vec<String> = (0..n)
            .filter(|t| *t != cur && s.st[*t] != Ts::Done)
            .map(|t| format!("caller {} ({:?} in {})", t, s.st[t], op_name(t)))
            .collect();
        stuck = Some(format!(
            "caller {} {} in {} and cannot proceed while: {}",
            cur,
            if spinning { "spins" } else { "sleeps" },
            op_name(cur),
            who.join(", ")
        ));
        break;
    }
    let rep = Report { switches: s.switches, inter: s.inter.0, picks_used: s.pi, stuck };
    if rep.stuck.is_none() {
        s.active = false;
        drop(s);
        for h in hs {
            let _ = h.join();
        }
    }
    rep
}

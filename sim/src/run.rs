//! Runs one trace and decides it.
use crate::alloc;
use crate::ctl::Fault;
use crate::rng::Dig;
use crate::sched;
use crate::trace::*;
use crate::world::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;

pub struct Outcome {
    pub viol: Option<String>,
    pub other: Option<(String, String)>,
    pub dig: u64,
    pub stats: Stats,
    pub nontrivial: bool,
    /// threads are stuck: the process must end
    pub fatal: bool,
}

pub fn run(t: &Trace) -> Outcome {
    alloc::MEMVIOL.store(0, SeqCst);
    match t.prop.as_str() {
        "C08" | "C12" => threaded(t),
        "C11" => memory(t),
        "C03" => atomic(t),
        _ => {
            let (o, _) = single(t, t.fill, false);
            o
        }
    }
}

/// one caller (or several whose operations interleave as the trace says), executed in trace order
fn single(t: &Trace, fill: u8, strip: bool) -> (Outcome, Vec<u64>) {
    alloc::FILL.store(fill, SeqCst);
    alloc::PLACED.store(5 * fill as usize, SeqCst);
    let mut w = World::new(t);
    for s in &t.steps {
        if strip {
            let mut s = s.clone();
            s.fault = Fault::None;
            w.exec(&s);
        } else {
            w.exec(s);
        }
        w.stats.add("ops");
        w.stats.add(&format!("op_{}", s.op.name()));
        if w.viol.is_some() {
            break;
        }
    }
    w.drop_all();
    let mut d = Dig::new();
    for x in &w.digs {
        d.u(*x);
    }
    let fired: u64 = w.stats.n.iter().filter(|(k, _)| k.starts_with("fired_")).map(|(_, v)| *v).sum();
    let special = fired > 0 || w.stats.n.get("ops_with_exhausted_heap").copied().unwrap_or(0) > 0;
    let clients = t.steps.iter().map(|s| s.task).max().unwrap_or(0) > 0;
    for (k, v) in &w.stats.n {
        if k.starts_with("fired_") {
            d.s(k.as_bytes());
            d.u(*v);
        }
    }
    let o = Outcome {
        viol: w.viol.take(),
        other: w.other.take(),
        dig: d.0,
        nontrivial: w.digs.len() >= 4 && (special || clients),
        stats: std::mem::take(&mut w.stats),
        fatal: false,
    };
    let digs = std::mem::take(&mut w.digs);
    (o, digs)
}

/// C03: the same history with every fault removed must show the same results
fn atomic(t: &Trace) -> Outcome {
    // in a process of its own if this one is to see the library's first use
    let early = if t.cold > 0 { crate::cold::elsewhere(|| vec![single(t, t.fill, true).1]).ok() } else { None };
    let (mut o, digs) = single(t, t.fill, false);
    if o.viol.is_none() && o.stats.n.get("aborted_ops").is_some() {
        let want = match early {
            Some(v) => v.into_iter().next().unwrap_or_default(),
            None => single(t, t.fill, true).1,
        };
        o.stats.add("fault_free_twin_runs");
        if let Some(i) = (0..digs.len()).find(|i| want.get(*i) != Some(&digs[*i])) {
            o.viol = Some(format!("step {} ({} {:?}) gives another result than in the same history without faults", i, t.steps[i].op.name(), t.steps[i].a));
        }
    }
    o
}

/// C11: conservation, bounds, and independence from the contents of memory
fn memory(t: &Trace) -> Outcome {
    let mut first: Option<(Outcome, Vec<u64>)> = None;
    let mut leaks = vec![];
    let fills = [t.fill % 4, (t.fill + 1) % 4, (t.fill + 2) % 4];
    for (i, f) in fills.iter().enumerate() {
        alloc::flush_quarantine();
        let (b0, n0) = (alloc::LIVE_BYTES.load(SeqCst), alloc::LIVE.load(SeqCst));
        // the last time every block ends (or starts) where accessible memory ends
        alloc::EDGE.store(if i == 2 { 1 + t.fill % 2 } else { 0 }, SeqCst);
        let (o, digs) = single(t, *f, false);
        alloc::EDGE.store(0, SeqCst);
        alloc::flush_quarantine();
        let (b1, n1) = (alloc::LIVE_BYTES.load(SeqCst), alloc::LIVE.load(SeqCst));
        leaks.push((n1 - n0, b1 - b0));
        let mv = alloc::MEMVIOL.load(SeqCst);
        let first_o = first.get_or_insert((o, digs.clone()));
        if mv != 0 && first_o.0.viol.is_none() {
            first_o.0.viol = Some(format!(
                "{}",
                ["", "memory outside an allocation was written", "an allocation was returned twice or with the wrong size", "memory was written after it had been freed"][mv as usize]
            ));
        }
        if i > 0 && first_o.0.viol.is_none() {
            if let Some(k) = (0..first_o.1.len().max(digs.len())).find(|k| first_o.1.get(*k) != digs.get(*k)) {
                let s = &t.steps[k.min(t.steps.len() - 1)];
                first_o.0.viol = Some(format!("step {} ({} {:?}) depends on the contents of unallocated, fresh or freed memory", k, s.op.name(), s.a));
            }
        }
    }
    let (mut o, _) = first.unwrap();
    o.stats.addn("memory_fill_patterns_run", fills.len() as u64);
    // memory kept once (a table built on first use) is not a leak; memory kept every time is
    if o.viol.is_none() && leaks.iter().all(|l| l.0 > 0 || l.1 > 0) {
        o.viol = Some(format!("after everything was dropped {} blocks / {} bytes are still allocated (every time)", leaks[1].0, leaks[1].1));
    }
    if o.viol.is_none() && leaks.iter().any(|l| l.0 < 0) {
        o.viol = Some("more blocks were returned than were allocated".into());
    }
    o
}

static CUR: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
struct Ptr(*mut World);
unsafe impl Send for Ptr {}
impl Ptr {
    fn get(&self) -> *mut World {
        self.0
    }
}

fn solo(t: &Trace, task: u8, steps: &[Step], shared: &Arc<Vec<Slot>>, noise: bool) -> Vec<u64> {
    let mut w = World::new(t);
    w.quiet = true;
    w.shared = Some(shared.clone());
    let mut nw = World::new(t);
    nw.quiet = true;
    let p = Ptr(&mut w);
    let q = Ptr(&mut nw);
    let steps: Vec<Step> = steps.to_vec();
    let seed = t.seed ^ t.run ^ task as u64;
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let w = unsafe { &mut *p.get() };
            let nw = unsafe { &mut *q.get() };
            let mut r = crate::rng::Rng::new(seed);
            crate::world::set_decoys(noise);
            for s in &steps {
                if noise && r.chance(1, 2) {
                    // somebody else does nearly the same with equal indices
                    nw.mirror(w);
                    let mut a = s.a;
                    let i = 1 + r.below(4);
                    let other = r.below(1_000_000) as u64;
                    a[i] = r.pick(&[a[i] + 1, a[i] ^ 1, a[i] + 56, other]);
                    // and may be cut short in it
                    let fault = match r.below(6) {
                        0 => Fault::AllocNth(r.below(3) as u32),
                        1 => Fault::Storage(r.below(20) as u32),
                        _ => Fault::None,
                    };
                    nw.exec(&Step { task: 0, op: s.op, a, fault });
                } else if noise {
                    // unrelated work on unrelated indices in between
                    for op in [Op::New, s.op] {
                        let a = [r.below(1000) as u64, r.below(1000) as u64, r.below(1000) as u64, r.below(1000) as u64, r.below(1000) as u64];
                        nw.exec(&Step { task: 0, op, a, fault: Fault::None });
                    }
                }
                let mut s = s.clone();
                s.fault = Fault::None;
                w.exec(&s);
            }
            w.iters_drop();
            nw.iters_drop();
        })
        .expect("spawn");
    let _ = h.join();
    std::mem::take(&mut w.digs)
}

/// C08 / C12: caller threads under the scheduler
fn threaded(t: &Trace) -> Outcome {
    alloc::FILL.store(t.fill, SeqCst);
    alloc::PLACED.store(t.fill as usize, SeqCst);
    let n = t.threads as usize;
    let mut stats = Stats::default();
    let mut sw = World::new(t);
    sw.quiet = true;
    let mut prog: Vec<Vec<Vec<(usize, Step)>>> = vec![vec![vec![]]; n];
    let mut flat: Vec<Vec<Step>> = vec![vec![]; n];
    for (i, s) in t.steps.iter().enumerate() {
        if s.task == 9 {
            sw.exec(s);
        } else if (s.task as usize) < n {
            let p = &mut prog[s.task as usize];
            p.last_mut().unwrap().push((i, s.clone()));
            flat[s.task as usize].push(s.clone());
            if s.op == Op::Hand {
                p.push(vec![]);
            }
        }
    }
    if let (Some(k), true) = (t.kinds.iter().find(|k| !crate::sut::crosses_threads(**k)), t.prop == "C08") {
        let m = format!("an index of type {} cannot be handed to, or read from, another thread", k.name());
        return Outcome { viol: Some(m), other: None, dig: 0, stats, nontrivial: true, fatal: false };
    }
    let shared: Arc<Vec<Slot>> = Arc::new(sw.slots.drain(..).flatten().collect());
    sw.slots = (0..NS).map(|_| None).collect();
    let all_alone = || (0..n).map(|i| solo(t, i as u8, &flat[i], &shared, false)).collect::<Vec<_>>();
    // the callers running together must be the first use of the library in this process
    let alone: Vec<Vec<u64>> = if t.cold == 0 {
        all_alone()
    } else {
        match crate::cold::elsewhere(|| all_alone()) {
            Ok(v) => v,
            Err(why) => return Outcome { viol: Some(why), other: None, dig: 0, stats, nontrivial: true, fatal: false },
        }
    };

    let mut worlds: Vec<World> = (0..n)
        .map(|_| {
            let mut w = World::new(t);
            w.quiet = true;
            w.shared = Some(shared.clone());
            w
        })
        .collect();
    let phases = prog.iter().map(|p| p.len()).max().unwrap();
    let mut picks: &[u8] = &t.picks;
    let mut inter = Dig::new();
    let mut switches = 0u64;
    let mut stalled_tasks = vec![false; n];
    for ph in 0..phases {
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for i in 0..n {
            let steps: Vec<(usize, Step)> = prog[i].get(ph).cloned().unwrap_or_default();
            let p = Ptr(&mut worlds[i]);
            jobs.push(Box::new(move || {
                let w = unsafe { &mut *p.get() };
                for (k, s) in steps {
                    CUR[i].store(k, SeqCst);
                    sched::point();
                    w.exec(&s);
                }
            }));
        }
        let names = |i: usize| {
            let k = CUR[i].load(SeqCst);
            t.steps.get(k).map_or("?".into(), |s| format!("step {} {}", k, s.op.name()))
        };
        let rep = sched::run_threads(jobs, picks, &names, t.prop == "C12");
        picks = &picks[rep.picks_used.min(picks.len())..];
        inter.u(rep.inter);
        switches += rep.switches as u64;
        if let Some(m) = rep.stuck {
            for w in worlds {
                std::mem::forget(w);
            }
            std::mem::forget(shared);
            return Outcome { viol: Some(m), other: None, dig: inter.0, stats, nontrivial: true, fatal: true };
        }
    }
    let mut viol = None;
    let mut fired = 0;
    for (i, w) in worlds.iter_mut().enumerate() {
        stalled_tasks[i] = w.stats.n.get("fired_stalled_inside_op").is_some();
        for (k, v) in &w.stats.n {
            if k.starts_with("fired_") {
                fired += v;
            }
        }
        stats.merge(&w.stats);
        stats.addn("ops", w.digs.len() as u64);
        for s in &flat[i] {
            stats.add(&format!("op_{}", s.op.name()));
        }
    }
    let diff = |a: &[u64], b: &[u64]| (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k));
    for (i, w) in worlds.iter().enumerate() {
        if t.prop == "C12" && !stalled_tasks[i] {
            continue;
        }
        if let Some(k) = diff(&alone[i], &w.digs) {
            let s = &flat[i][k.min(flat[i].len() - 1)];
            viol.get_or_insert(format!(
                "caller {}: its operation {} ({} {:?}) gives another result when {} than when it runs alone",
                i,
                k,
                s.op.name(),
                s.a,
                if t.prop == "C12" { "it was stalled inside an operation" } else { "other callers run in between" }
            ));
        }
    }
    for w in worlds.iter_mut() {
        w.drop_all();
    }
    drop(worlds);
    if t.prop == "C08" && viol.is_none() {
        for i in (0..n).rev() {
            let again = solo(t, i as u8, &flat[i], &shared, true);
            if let Some(k) = diff(&alone[i], &again) {
                let s = &flat[i][k.min(flat[i].len() - 1)];
                viol = Some(format!("caller {}: its operation {} ({} {:?}) gives another result after unrelated operations on other indices", i, k, s.op.name(), s.a));
                break;
            }
        }
        // the shared indices were only read
        for s in shared.iter() {
            if observe(&*s.ix).ok().as_ref() != Some(&s.m) && viol.is_none() {
                viol = Some(format!("a shared index that was only read changed from {}", show(&s.m)));
            }
        }
    }
    stats.addn("context_switches", switches);
    stats.addn("interleaved_runs", (switches > n as u64) as u64);
    let mut d = Dig::new();
    for a in &alone {
        for x in a {
            d.u(*x)
        }
    }
    d.u(inter.0);
    Outcome { viol, other: None, dig: d.0, stats, nontrivial: fired > 0 && switches > n as u64, fatal: false }
}

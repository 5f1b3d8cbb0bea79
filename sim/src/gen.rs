//! From one integer to one trace: configuration, workload, schedule and faults. Swarm style: each run
//! draws its own storage types, depths, operation mix, fault kinds and rates.
use crate::ctl::Fault;
use crate::rng::{mix, Rng};
use crate::sut::*;
use crate::trace::*;
use Op::*;

fn weights(prop: &str) -> &'static [(Op, u32)] {
    match prop {
        "C01" => &[(New, 10), (Set, 12), (Copy, 4), (Anc, 5), (Par, 4), (Wd, 4), (Desc, 7), (Child, 7), (Inv, 4), (Conv, 3), (Obs, 4), (Twin, 1), (Drop, 1)],
        "C02" => &[(New, 8), (Set, 5), (Copy, 1), (Anc, 2), (Par, 2), (Desc, 3), (Child, 3), (Inv, 2), (Conv, 1), (Exp, 12), (Name, 3), (Grid, 4), (Sync, 4), (Crash, 3)],
        "C03" => &[(New, 8), (Set, 10), (Copy, 5), (Anc, 5), (Par, 3), (Wd, 4), (Desc, 7), (Child, 6), (Inv, 5), (Conv, 8), (Obs, 3), (Cmp, 3), (Twin, 2), (Name, 4), (Grid, 3), (Disp, 3), (Exp, 2), (Drop, 1)],
        "C04" => &[(New, 9), (Set, 5), (Copy, 3), (Anc, 5), (Par, 4), (Wd, 4), (Desc, 5), (Child, 5), (Inv, 4), (Conv, 7), (Cmp, 5), (Twin, 4), (Grid, 5), (IOpen, 4), (INext, 5), (INth, 2), (IHint, 2), (ICount, 1), (ILast, 1), (IRest, 2), (Obs, 2)],
        "C05" => &[(New, 8), (Set, 5), (Copy, 2), (Anc, 4), (Par, 3), (Wd, 2), (Desc, 4), (Child, 4), (Inv, 3), (Conv, 5), (Twin, 16), (Cmp, 8)],
        "C06" => &[(New, 2), (CNew, 2), (CIns, 20), (CRem, 5), (CHas, 7), (CSeq, 3), (CReb, 2), (Cmp, 4), (Twin, 5), (Child, 1), (Par, 1), (Anc, 1)],
        "C07" => &[(New, 9), (Set, 4), (Copy, 1), (Anc, 3), (Par, 2), (Desc, 3), (Child, 3), (Inv, 2), (Conv, 18), (Twin, 2)],
        "C09" => &[(New, 6), (IOpen, 7), (INext, 18), (INth, 6), (IHint, 5), (ICount, 2), (ILast, 2), (IRest, 4), (IDrop, 1), (Obs, 2), (Set, 2), (Anc, 3), (Desc, 3), (Conv, 2), (Cmp, 2), (Copy, 2), (Name, 1)],
        "C10" => &[(New, 8), (Set, 1), (Child, 2), (Par, 1), (Conv, 2), (Copy, 2), (Disp, 22), (Name, 2)],
        "C11" => &[(New, 9), (Set, 7), (Copy, 5), (Anc, 6), (Par, 4), (Wd, 4), (Desc, 8), (Child, 7), (Inv, 5), (Conv, 9), (Obs, 3), (Cmp, 4), (Twin, 4), (Name, 4), (Grid, 2), (Disp, 4), (Exp, 1), (IOpen, 2), (INext, 3), (IRest, 2), (Drop, 3), (CNew, 1), (CIns, 4), (CSeq, 1), (CRem, 1)],
        _ => &[(New, 9), (Set, 9), (Copy, 4), (Anc, 6), (Par, 4), (Wd, 3), (Desc, 7), (Child, 6), (Inv, 5), (Conv, 8), (Obs, 7), (Cmp, 7), (Twin, 4), (Name, 5), (Grid, 5), (Disp, 4), (IOpen, 4), (INext, 5), (INth, 2), (IRest, 3), (CNew, 1), (CIns, 3), (CHas, 2), (CSeq, 1), (Hand, 1)],
    }
}

fn wpick(r: &mut Rng, w: &[(Op, u32)]) -> Op {
    let t: u32 = w.iter().map(|x| x.1).sum();
    let mut n = r.below(t as usize) as u32;
    for (o, k) in w {
        if n < *k {
            return *o;
        }
        n -= k;
    }
    w[0].0
}

fn logu(r: &mut Rng, max_bits: u32) -> u32 {
    let b = r.below(max_bits as usize + 1) as u32;
    r.below(1usize << b) as u32
}

/// Some runs each get a process of their own, in which the library has never been used before.
pub fn is_cold(prop: &str, run: u64) -> bool {
    match prop {
        "C08" | "C12" => run % 3 == 2,
        _ => run % 40 == 7,
    }
}

pub fn gen(prop: &str, seed: u64, run: u64) -> Trace {
    let ph = prop.bytes().fold(7u64, |h, b| mix(h ^ b as u64));
    let mut r = Rng::new(mix(seed ^ mix(ph)) ^ mix(run));
    let dim = if r.chance(1, 2) { 2 } else { 3 };
    let threaded = prop == "C08" || prop == "C12";
    let cold = is_cold(prop, run) as u8;
    let dynk = Kind { dim, st: St::D, w: 0 };

    // a crowd of callers: all of them do the same, and most of them stop in the middle of it
    let crowd = threaded && r.chance(1, 4);

    // storage types of this run
    let mut kinds = vec![];
    let w0 = if matches!(prop, "C03") && r.chance(1, 2) && NW > 6 { 6 + r.below(NW as usize - 6) as u8 } else { r.below(NW as usize) as u8 };
    let f = Kind { dim, st: St::F, w: w0 };
    let s = Kind { dim, st: St::S, w: w0 };
    match r.below(6) {
        0 => kinds.push(s),
        1 => kinds.extend([f, s]),
        2 => kinds.extend([s, dynk]),
        3 => kinds.extend([f, s, dynk]),
        4 => kinds.extend([f, dynk]),
        _ => kinds.push(dynk),
    }
    if matches!(prop, "C04") {
        kinds = vec![s, f];
        if r.chance(1, 3) {
            kinds.push(dynk)
        }
    }
    if matches!(prop, "C07") {
        kinds = vec![s, f, dynk];
    }
    if matches!(prop, "C11") && !kinds.contains(&dynk) {
        kinds.push(dynk);
    }
    for _ in 0..r.below(3) {
        let k = Kind { dim, st: if r.chance(1, 2) { St::F } else { St::S }, w: r.below(NW as usize) as u8 };
        if !kinds.contains(&k) {
            kinds.push(k)
        }
    }
    if crowd && r.chance(2, 3) {
        // and to indices of the same type
        kinds = vec![r.pick(&kinds)];
    }
    let dynmax = if threaded {
        r.pick(&[3, 6, 12, 24, 40, 40, 70, 130, 300])
    } else if r.chance(1, if matches!(prop, "C01" | "C03" | "C05" | "C07" | "C09") { 400 } else { 2000 }) {
        // levels and bytes no longer fit 16 bits
        if r.chance(1, 4) { 300_000 } else { 66_000 }
    } else {
        match r.below(60) {
            0 => 2100,
            1 => 700,
            2..=6 => 300,
            7..=12 => 130,
            _ => r.pick(&[3, 5, 9, 12, 17, 24, 33, 40, 48, 64, 70]),
        }
    };

    // swarm: a random subset of operations keeps its weight
    let mut w: Vec<(Op, u32)> = weights(prop).to_vec();
    for x in w.iter_mut() {
        if r.chance(1, 6) {
            x.1 = if x.1 > 6 { x.1 / 3 } else { 0 };
        }
    }
    let core = match prop {
        "C05" => Twin,
        "C06" => CIns,
        "C07" => Conv,
        "C09" => INext,
        "C10" => Disp,
        "C02" => Exp,
        _ => New,
    };
    for x in w.iter_mut() {
        if x.0 == core || x.0 == New || x.0 == IOpen || x.0 == CNew {
            x.1 = x.1.max(4);
        }
    }

    // faults of this run
    let faulty = match prop {
        "C04" | "C03" => r.chance(9, 10),
        "C08" | "C12" => true,
        _ => r.chance(3, 5),
    };
    let rate = r.pick(&[6u32, 15, 30, 50]);
    let mut fk: Vec<u8> = vec![];
    for x in 0..4u8 {
        if r.chance(3, 5) {
            fk.push(x)
        }
    }
    if fk.is_empty() {
        fk.push(r.below(4) as u8)
    }

    let big = dynmax > 400;
    let threads = if threaded { 2 + r.below(4).min(2).max(crowd as usize) as u8 } else { 1 };
    let n = if threaded {
        threads as usize * (3 + r.below(9))
    } else if dynmax > 60_000 {
        3 + r.below(4)
    } else if big {
        8 + r.below(8)
    } else {
        8 + r.below(50)
    };
    let arg = |r: &mut Rng| r.below(1_000_000) as u64;
    let args = |r: &mut Rng| [arg(r), arg(r), arg(r), arg(r), arg(r)];
    let mut steps = vec![];
    if threaded && cold == 0 {
        // indices shared by all callers
        for i in 0..r.below(4) as u64 {
            let mut a = args(&mut r);
            a[0] = i;
            a[3] = a[3] / 16 * 16 * 24 + a[3] % 16 + 64; // never an intended refusal
            steps.push(Step { task: 9, op: New, a, fault: Fault::None });
        }
    }
    let clients = if threaded { threads } else { 1 + r.below(3) as u8 };
    if prop == "C06" {
        for i in 0..1 + r.below(3) as u64 {
            let mut a = args(&mut r);
            a[0] = i;
            steps.push(Step { task: 0, op: CNew, a, fault: Fault::None });
        }
    }
    // in some runs all callers mostly do the same thing, with some of its arguments in common
    let focus = if crowd || r.chance(1, if threaded { 2 } else { 8 }) {
        let op = if r.chance(1, 4) {
            New
        } else if crowd {
            w[r.below(w.len())].0
        } else {
            wpick(&mut r, &w)
        };
        let mut f = [None; 5];
        for (i, x) in f.iter_mut().enumerate() {
            if i > 0 && r.chance(1, 2) {
                *x = Some(arg(&mut r))
            }
        }
        Some((op, f))
    } else {
        None
    };
    let narrow = |a: &mut [u64; 5], op: Op| {
        if let Some((o, f)) = &focus {
            if *o == op {
                for (x, y) in a.iter_mut().zip(f) {
                    *x = y.unwrap_or(*x)
                }
            }
        }
    };
    for t in 0..threads {
        for _ in 0..if threaded { 1 + r.below(2) } else { 1 + r.below(3) } {
            let mut a = args(&mut r);
            narrow(&mut a, New);
            let fault = match (threaded, r.below(6)) {
                (true, 0) => Fault::PreemptAt(logu(&mut r, 3)),
                (true, 1) => Fault::Preempt(logu(&mut r, 10)),
                _ => Fault::None,
            };
            steps.push(Step { task: t, op: New, a, fault });
        }
    }
    let mut dup: Option<Step> = None;
    let salt = 56 * r.below(5000) as u64;
    for i in 0..n {
        let task = if threaded { (i % threads as usize) as u8 } else { r.below(clients as usize) as u8 };
        let op = match &focus {
            Some((o, _)) if r.chance(if crowd { 8 } else { 6 }, 10) => *o,
            _ => wpick(&mut r, &w),
        };
        let mut a = args(&mut r);
        narrow(&mut a, op);
        let mut fault = Fault::None;
        if op == CIns || op == CRem || op == CHas {
            // few distinct nodes, so that deliveries repeat, and lookups hit
            a[1] %= 60;
            a[2] = a[2] % 24 + salt;
            if let (true, Some(d)) = (r.chance(1, 6), &dup) {
                // the same message delivered again, maybe to another replica
                a = d.a;
                if r.chance(1, 2) {
                    a[0] = arg(&mut r)
                }
                a[3] = arg(&mut r);
            }
        }
        if op == Disp && r.chance(1, 2) {
            a[4] = a[4] / 3 * 3 + 2;
        }
        let at = threaded && r.chance(2, 5);
        // with threads: interrupted, and repeated at once
        let interrupt = !matches!(op, CNew | CIns | CRem | CHas | CSeq | CReb | Sync | Crash | IOpen | INext | INth | IHint | ICount | ILast | IRest | Hand | Disp);
        let cut = |r: &mut Rng| match r.below(3) {
            0 => Fault::AllocFrom(0),
            1 => Fault::AllocNth(r.below(3) as u32),
            _ => Fault::Storage(logu(r, 5)),
        };
        if faulty {
            match prop {
                "C04" => {
                    if r.chance(7, 10) {
                        fault = Fault::AllocFrom(0)
                    }
                }
                "C08" if r.chance(if matches!(op, Disp | Cmp | Twin) || kinds.iter().any(|k| k.user_bits()) { 15 } else { 2 }, 100) => {
                    fault = Fault::Reenter(logu(&mut r, 5));
                }
                "C10" if op == Disp && r.chance(1, 8) => {
                    fault = Fault::Reenter(logu(&mut r, 6));
                }
                "C08" => {
                    if r.chance(if crowd { 9 } else { 6 }, 10) {
                        let lim = r.pick(&[4, 8, 10, 12, 12, 14]);
                        fault = if at { Fault::PreemptAt(logu(&mut r, 4)) } else { Fault::Preempt(logu(&mut r, lim)) }
                    } else if interrupt && r.chance(1, 3) {
                        fault = cut(&mut r)
                    }
                }
                "C12" => {
                    if interrupt && r.chance(1, 12) {
                        fault = cut(&mut r)
                    } else if r.chance(if crowd && task > 0 { 60 } else { 17 }, 100) {
                        let lim = r.pick(&[4, 8, 10, 12, 12, 14]);
                        fault = if at { Fault::StallAt(logu(&mut r, 4)) } else { Fault::Stall(logu(&mut r, lim)) }
                    } else if r.chance(1, 4) {
                        fault = if at { Fault::PreemptAt(logu(&mut r, 4)) } else { Fault::Preempt(logu(&mut r, 10)) }
                    }
                }
                _ => {
                    if op == Disp && prop == "C10" && r.chance(6, 10) {
                        let m = r.below(4) as u8;
                        let lim = if m == 0 { r.pick(&[6, 7, 8, 10, 10, 13]) } else { r.pick(&[4, 5, 6, 8, 8, 10]) };
                        fault = Fault::Sink(logu(&mut r, lim), m);
                    } else if r.chance(rate, 100) && !matches!(op, CNew | CIns | CRem | CHas | CSeq | CReb | Sync | Crash) {
                        fault = match r.pick(&fk) {
                            0 => Fault::AllocNth(r.pick(&[0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 6])),
                            1 => Fault::AllocFrom(r.pick(&[0, 0, 0, 1, 2])),
                            2 => Fault::AllocOver(r.pick(&[0, 1, 2, 4, 7, 8, 16, 32])),
                            _ => Fault::Storage(logu(&mut r, 6)),
                        };
                    }
                }
            }
        }
        let st = Step { task, op, a, fault };
        if op == CIns {
            dup = Some(st.clone());
        }
        steps.push(st);
    }
    // now and then one operation very many times in a row
    if !matches!(prop, "C04") && !big && r.chance(1, 12) {
        let at = steps.len() - r.below(n.min(steps.len()));
        let mut a = args(&mut r);
        a[3] = if !threaded && r.chance(1, 40) { LONG } else { 0 };
        steps.insert(at, Step { task: if threaded { r.below(threads as usize) as u8 } else { 0 }, op: Rep, a, fault: Fault::None });
    }
    if prop == "C02" {
        let a = args(&mut r);
        steps.push(Step { task: 0, op: Crash, a, fault: Fault::None });
    }
    if prop == "C06" {
        for i in 0..4 {
            steps.push(Step { task: 0, op: CSeq, a: [i, 0, 0, 0, 0], fault: Fault::None });
        }
    }
    let mut picks = vec![];
    if threaded {
        let stay = r.pick(&[0u32, 30, 70]);
        for _ in 0..n * 3 + 16 {
            picks.push(if r.chance(stay, 100) { 0 } else { r.below(4) as u8 });
        }
    }
    Trace { prop: prop.to_string(), seed, run, kinds, dynmax, fill: r.below(4) as u8, cold, threads, picks, steps }
}

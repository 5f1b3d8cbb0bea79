//! A trace is one simulated run written out: configuration, schedule, operations and faults. Operations
//! refer to slots and to positions relative to the current state, so any subsequence is still a valid
//! trace (which is what makes minimisation simple).
use crate::ctl::Fault;
use crate::sut::Kind;

macro_rules! ops {
    ($($v:ident $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        pub enum Op { $($v),* }
        impl Op {
            pub fn name(&self) -> &'static str { match self { $(Op::$v => $s),* } }
            pub fn parse(s: &str) -> Option<Op> { match s { $($s => Some(Op::$v),)* _ => None } }
        }
    }
}
ops! {
    New "new", Set "set", Copy "copy", Anc "anc", Par "par", Wd "wd", Desc "desc", Child "child", Inv "inv",
    Conv "conv", Obs "obs", Cmp "cmp", Twin "twin",
    IOpen "iopen", INext "inext", INth "inth", IHint "ihint", ICount "icount", ILast "ilast", IRest "irest", IDrop "idrop",
    Disp "disp", Name "name", Grid "grid",
    CNew "cnew", CIns "cins", CRem "crem", CHas "chas", CSeq "cseq", CReb "creb",
    Exp "exp", Sync "sync", Crash "crash", Drop "drop", Hand "hand", Rep "rep",
}

/// a[3] of a burst of more than a thousand operations
pub const LONG: u64 = 77;

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub task: u8,
    pub op: Op,
    pub a: [u64; 5],
    pub fault: Fault,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Trace {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub kinds: Vec<Kind>,
    pub dynmax: usize,
    pub fill: u8,
    /// run in a process that has not used the library before
    pub cold: u8,
    pub threads: u8,
    pub picks: Vec<u8>,
    pub steps: Vec<Step>,
}

impl Trace {
    pub fn dim(&self) -> u8 {
        self.kinds[0].dim
    }
    pub fn print(&self) -> String {
        let mut o = String::new();
        o += "morton-sim-trace v1\n";
        o += &format!("prop {}\nseed {} run {}\n", self.prop, self.seed, self.run);
        o += &format!("kinds {}\n", self.kinds.iter().map(|k| k.name()).collect::<Vec<_>>().join(" "));
        o += &format!("dynmax {}\nfill {}\ncold {}\nthreads {}\n", self.dynmax, self.fill, self.cold, self.threads);
        o += &format!("picks {}\n", self.picks.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" "));
        for s in &self.steps {
            o += &format!("t{} {} {} {} {} {} {}", s.task, s.op.name(), s.a[0], s.a[1], s.a[2], s.a[3], s.a[4]);
            match s.fault {
                Fault::None => {}
                Fault::AllocNth(n) => o += &format!(" | allocnth {}", n),
                Fault::AllocFrom(n) => o += &format!(" | allocfrom {}", n),
                Fault::AllocOver(n) => o += &format!(" | allocover {}", n),
                Fault::Storage(n) => o += &format!(" | storage {}", n),
                Fault::Preempt(n) => o += &format!(" | preempt {}", n),
                Fault::Stall(n) => o += &format!(" | stall {}", n),
                Fault::PreemptAt(n) => o += &format!(" | preemptat {}", n),
                Fault::StallAt(n) => o += &format!(" | stallat {}", n),
                Fault::Reenter(n) => o += &format!(" | reenter {}", n),
                Fault::Sink(n, m) => o += &format!(" | sink {} {}", n, m),
            }
            o += "\n";
        }
        o
    }
    pub fn parse(t: &str) -> Option<Trace> {
        let mut tr = Trace {
            prop: String::new(),
            seed: 0,
            run: 0,
            kinds: vec![],
            dynmax: 40,
            fill: 0,
            cold: 0,
            threads: 1,
            picks: vec![],
            steps: vec![],
        };
        let mut seen = false;
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if l == "morton-sim-trace v1" {
                seen = true;
                continue;
            }
            let f: Vec<&str> = l.split_whitespace().collect();
            match f[0] {
                "prop" => tr.prop = f.get(1)?.to_string(),
                "seed" => {
                    tr.seed = f.get(1)?.parse().ok()?;
                    tr.run = f.get(3)?.parse().ok()?;
                }
                "kinds" => {
                    for k in &f[1..] {
                        tr.kinds.push(Kind::parse(k)?)
                    }
                }
                "dynmax" => tr.dynmax = f.get(1)?.parse().ok()?,
                "fill" => tr.fill = f.get(1)?.parse().ok()?,
                "cold" => tr.cold = f.get(1)?.parse().ok()?,
                "threads" => tr.threads = f.get(1)?.parse().ok()?,
                "picks" => {
                    for k in &f[1..] {
                        tr.picks.push(k.parse().ok()?)
                    }
                }
                x if x.starts_with('t') => {
                    let task = x[1..].parse().ok()?;
                    let op = Op::parse(f.get(1)?)?;
                    let mut a = [0u64; 5];
                    for i in 0..5 {
                        a[i] = f.get(2 + i)?.parse().ok()?;
                    }
                    let mut fault = Fault::None;
                    if f.get(7) == Some(&"|") {
                        let n: u32 = f.get(9)?.parse().ok()?;
                        fault = match *f.get(8)? {
                            "allocnth" => Fault::AllocNth(n),
                            "allocfrom" => Fault::AllocFrom(n),
                            "allocover" => Fault::AllocOver(n),
                            "storage" => Fault::Storage(n),
                            "preempt" => Fault::Preempt(n),
                            "stall" => Fault::Stall(n),
                            "preemptat" => Fault::PreemptAt(n),
                            "stallat" => Fault::StallAt(n),
                            "reenter" => Fault::Reenter(n),
                            "sink" => Fault::Sink(n, f.get(10)?.parse().ok()?),
                            _ => return None,
                        };
                    }
                    tr.steps.push(Step { task, op, a, fault });
                }
                _ => return None,
            }
        }
        if !seen || tr.kinds.is_empty() {
            return None;
        }
        Some(tr)
    }
}

//! One caller's view of the system: live indices, open iterators, collections and a simulated disk,
//! each with its reference model. Executes trace steps, injects the step's fault, and judges the outcome.
use crate::ctl::{arm, disarm, harness, Fail, Fault, R};
use crate::rng::{mix, Dig, Rng};
use crate::sut::*;
use crate::trace::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

pub const NS: usize = 5;
const NI: usize = 6;
const NC: usize = 4;
const DEPTH_CAP: usize = 400_000;

pub struct Slot {
    pub ix: Box<dyn Idx>,
    /// depth and cells this index must have
    pub m: Vec<u8>,
}
struct Iter {
    it: Box<dyn CellIt>,
    slot: usize,
    cells: Vec<u8>,
    pos: usize,
}
struct CollS {
    c: Box<dyn Coll>,
    k: Kind,
    which: u8,
    seed: u64,
    m: BTreeSet<Vec<u8>>,
}
#[derive(Clone)]
struct Rec {
    cells: Vec<u8>,
    ord: u8,
    g: [usize; 3],
    len: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub cover: HashSet<u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str) {
        self.addn(k, 1)
    }
    pub fn addn(&mut self, k: &str, n: u64) {
        *self.n.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.n {
            self.addn(k, *v)
        }
        self.cover.extend(o.cover.iter());
    }
}

pub struct World {
    iters: Vec<Option<Iter>>,
    pub slots: Vec<Option<Slot>>,
    pub shared: Option<Arc<Vec<Slot>>>,
    colls: Vec<Option<CollS>>,
    disk: Vec<Rec>,
    synced: usize,
    kinds: Vec<Kind>,
    dynmax: usize,
    prop: String,
    /// threads: results are only recorded, not judged
    pub quiet: bool,
    pub viol: Option<String>,
    pub other: Option<(String, String)>,
    pub digs: Vec<u64>,
    pub cur_op: String,
    pub stats: Stats,
    aborted: bool,
    heapless: bool,
    dig: Dig,
}
unsafe impl Send for World {}

struct Visitor {
    w: World,
    steps: Vec<Step>,
    want: Vec<u64>,
    came: bool,
}
impl Visitor {
    unsafe fn come(p: *mut ()) {
        let v = &mut *(p as *mut Visitor);
        v.came = true;
        for s in &v.steps {
            v.w.exec(s);
        }
    }
}

/// what an operation produced
enum Val {
    Nothing,
    /// (produced, class to blame, expectation, destination)
    Made(Out),
    MadeBy(Out, &'static str),
    Unit,
    Twin(Option<TwinVal>),
    Cmp(Cmp, (u64, u64, u64), (u64, u64, u64)),
    Cells(Vec<u8>, Vec<u8>, Option<String>),
    O8(Option<u8>),
    Hint(usize, Option<usize>),
    Count(usize),
    Rest(Vec<u8>),
    Disp(bool, bool, bool, String),
    Str(String),
    Grid([usize; 3]),
    Bool(bool),
    Seqs(Vec<Vec<u8>>, usize),
    Exp(Vec<String>, Vec<[usize; 3]>),
    Ceil(bool, Option<Vec<u8>>),
}
struct TwinVal {
    t: Box<dyn Idx>,
    cmp: Cmp,
    ha: (u64, u64, u64),
    hb: (u64, u64, u64),
    near: Option<(Vec<u8>, Cmp)>,
}
enum Want {
    Cells(Vec<u8>),
    None,
    Err(usize),
    /// cells, or a refusal by panic (documented limit)
    CellsOrPanic(Vec<u8>),
}

/// a writer that fails the way the trace says
struct Sink {
    text: String,
    n: usize,
    mode: u8,
    calls: usize,
    failed: bool,
    after: bool,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let fail = harness(|| {
            crate::ctl::visit_point();
            if self.failed && !s.is_empty() {
                self.after = true;
            }
            let call = self.calls;
            self.calls += 1;
            match self.mode {
                1 if self.failed || self.text.len() + s.len() > self.n => {
                    // takes what fits, then fails for good
                    if !self.failed {
                        let room = self.n - self.text.len();
                        self.text.push_str(&s[..room]);
                    }
                    1
                }
                2 if self.failed || call >= self.n => 1,
                3 if call == self.n => 1,
                4 if call == self.n => 2,
                _ => {
                    self.text.push_str(s);
                    0
                }
            }
        });
        match fail {
            1 => {
                self.failed = true;
                Err(std::fmt::Error)
            }
            2 => {
                self.failed = true;
                crate::ctl::panic_begins();
                std::panic::resume_unwind(Box::new(crate::ctl::SinkFault))
            }
            _ => Ok(()),
        }
    }
}

pub fn observe(ix: &dyn Idx) -> R<Vec<u8>> {
    let d = ix.depth()?;
    if d > DEPTH_CAP {
        return Err(Fail::Panic(format!("depth() = {}", d)));
    }
    let mut v = Vec::with_capacity(d);
    for l in 0..d {
        v.push(ix.get(l)?);
    }
    Ok(v)
}
pub fn show(c: &[u8]) -> String {
    let s: String = c.iter().take(40).map(|x| (b'0' + x) as char).collect();
    if c.len() > 40 {
        format!("{}.. (depth {})", s, c.len())
    } else {
        format!("[{}] (depth {})", s, c.len())
    }
}
pub fn coords(dim: u8, cells: &[u8], ord: u8) -> [usize; 3] {
    let ab = axis_bits(dim, ord);
    let mut g = [0usize; 3];
    for c in cells {
        for a in 0..dim as usize {
            g[a] = (g[a] << 1) | ((*c >> ab[a]) & 1) as usize;
        }
    }
    g
}

/// cells drawn from few streams, so that different indices often share prefixes
pub fn stream(dim: u8, seed: u64, len: usize) -> Vec<u8> {
    let n = 1usize << dim;
    let style = seed % 8;
    let mut r = Rng::new(mix(seed / 8 % 7));
    let mut v: Vec<u8> = match style {
        0 => vec![0; len],
        1 => vec![(n - 1) as u8; len],
        2 => (0..len).map(|i| (i % n) as u8).collect(),
        _ => (0..len).map(|_| r.below(n) as u8).collect(),
    };
    if len > 0 && style >= 5 {
        let mut r2 = Rng::new(seed);
        for _ in 0..1 + r2.below(3) {
            let l = match r2.below(8) {
                0..=2 => len - 1,
                3 | 4 => len - 1 - r2.below(len.min(20)),
                _ => r2.below(len),
            };
            v[l] = r2.below(n) as u8;
        }
    }
    v
}
pub fn pad(k: Kind, mut c: Vec<u8>) -> Vec<u8> {
    if let (St::F, Some(m)) = (k.st, k.max()) {
        while c.len() < m {
            c.push(0)
        }
    }
    c
}
fn raw_bits(k: Kind, cells: &[u8], noise: u64) -> u128 {
    let bits = WIDTHS[k.w as usize].1;
    let mut x: u128 = 0;
    for (l, c) in cells.iter().enumerate() {
        x |= (*c as u128) << (bits - (l + 1) * 3);
    }
    let waste = bits - cells.len() * 3;
    if noise % 3 != 0 && waste > 0 {
        let m = if waste >= 128 { u128::MAX } else { (1u128 << waste) - 1 };
        x |= (((mix(noise) as u128) << 64) | mix(noise + 1) as u128) & m;
    }
    x
}
/// Now and then: coordinates with stray bits above the depth of the grid. What they mean is not promised, but if
/// the result has the cells of the clean coordinates it must be the same index in every respect.
fn stray(r: &mut Rng, full: &[u8], g: [usize; 3], make: impl Fn([usize; 3]) -> R<Out>) -> R<Option<Box<dyn Idx>>> {
    if full.len() >= 64 || !r.chance(1, 4) {
        return Ok(None);
    }
    let mut h = g;
    for x in h.iter_mut() {
        let n = if r.chance(1, 2) { r.u64() as usize } else { 1 };
        *x |= n << full.len();
    }
    match make(h) {
        Ok(Out::Ok(x)) if observe(&*x)? == full => Ok(Some(x)),
        Err(Fail::Panic(_)) | Ok(_) => Ok(None),
        Err(e) => Err(e),
    }
}

thread_local! {
    /// unrelated but similar operations come before every one
    static DECOYS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn set_decoys(on: bool) {
    DECOYS.with(|d| d.set(on))
}
fn decoys() -> bool {
    DECOYS.with(|d| d.get())
}

pub fn class_of_route(route: u64) -> &'static str {
    match route % 14 {
        6 | 7 => "C02",
        11 => "C07",
        _ => "C01",
    }
}

fn need(o: Out) -> Option<Box<dyn Idx>> {
    match o {
        Out::Ok(b) => Some(b),
        _ => None,
    }
}
macro_rules! some {
    ($e:expr) => {
        match need($e) {
            Some(x) => x,
            None => return Ok(Out::None),
        }
    };
}

/// builds an index with the given cells by one of many routes (all must be indistinguishable)
pub fn build(kinds: &[Kind], k: Kind, cells: &[u8], route: u64, seed: u64) -> R<Out> {
    let mut r = Rng::new(seed ^ 0xB11D);
    let dim = k.dim;
    let d = cells.len();
    let full = pad(k, cells.to_vec());
    let slice = |c: &[u8]| mk(k, &Mk::Slice(c.to_vec()));
    let garbage = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| r.below(1 << dim) as u8).collect() };
    match route % 14 {
        1 => return mk(k, &Mk::Array(cells.to_vec())),
        2 | 13 => {
            let mut x = match k.st {
                St::F => some!(mk(k, &Mk::Default)?),
                _ => some!(mk(k, &Mk::Zeroed(d))?),
            };
            let mut ord: Vec<usize> = (0..d).collect();
            for i in (1..d).rev() {
                ord.swap(i, r.below(i + 1));
            }
            for l in ord {
                if route % 14 == 13 {
                    x.set_unchecked(l, cells[l])?
                } else {
                    x.set(l, cells[l])?
                }
            }
            return Ok(Out::Ok(x));
        }
        3 if k.var() && d <= 80 => {
            let mut x = some!(mk(k, &Mk::Default)?);
            for c in cells {
                x = some!(x.child(*c)?);
            }
            return Ok(Out::Ok(x));
        }
        4 if k.var() => {
            let mut x = some!(mk(k, &Mk::Default)?);
            let mut p = 0;
            while p < d {
                let n = 1 + r.below(if d < 12 { d - p } else { (d - p).max(1) });
                let n = n.min(d - p);
                x = some!(x.descendant(&cells[p..p + n])?);
                p += n;
            }
            return Ok(Out::Ok(x));
        }
        5 if k.var() => {
            let room = k.max().unwrap_or(d + 9) - d;
            if room > 0 {
                let e = 1 + r.below(room.min(9));
                let mut c = cells.to_vec();
                c.extend(garbage(&mut r, e));
                let x = some!(slice(&c)?);
                return match r.below(3) {
                    0 => x.ancestor(e),
                    1 => x.with_depth(d),
                    _ => {
                        let mut x = x;
                        for _ in 0..e {
                            x = some!(x.parent()?);
                        }
                        Ok(Out::Ok(x))
                    }
                };
            }
        }
        6 if full.len() <= 64 && !(k.st == St::D && d > 32) => {
            let o = r.below(n_ord(dim) as usize) as u8;
            let g = coords(dim, &full, o);
            if decoys() || r.chance(1, 6) {
                // the same numbers mean another node under another ordering, or in a grid of another depth
                let p = 1 + r.below(n_ord(dim) as usize - 1) as u8;
                mk(k, &Mk::Grid(g, full.len(), (o + p) % n_ord(dim)))?;
                if k.st != St::F && r.chance(1, 2) && full.len() < k.max().unwrap_or(32) {
                    mk(k, &Mk::Grid(g, full.len() + 1, o))?;
                }
            }
            if let Some(x) = stray(&mut r, &full, g, |g| mk(k, &Mk::Grid(g, full.len(), o)))? {
                return Ok(Out::Ok(x));
            }
            return mk(k, &Mk::Grid(g, full.len(), o));
        }
        7 if k == (Kind { dim: 3, st: St::F, w: 3 }) => {
            let o = r.below(6) as u8;
            let g = coords(3, &full, o);
            if decoys() || r.chance(1, 6) {
                let p = 1 + r.below(5) as u8;
                mk(k, &Mk::GridFast(g, (o + p) % 6))?;
            }
            if let Some(x) = stray(&mut r, &full, g, |g| mk(k, &Mk::GridFast(g, o)))? {
                return Ok(Out::Ok(x));
            }
            return mk(k, &Mk::GridFast(g, o));
        }
        8 if dim == 3 && k.st != St::D => {
            return mk(k, &Mk::Raw(raw_bits(k, &full, seed), full.len() as u8));
        }
        9 => {
            let mut c = full.clone();
            c.reverse();
            return Ok(Out::Ok(some!(slice(&c)?).inverted()?));
        }
        10 => {
            let g = garbage(&mut r, d);
            let mut x = some!(slice(&g)?);
            for l in 0..d {
                x.set(l, cells[l])?;
            }
            for l in d..full.len() {
                x.set(l, 0)?;
            }
            return Ok(Out::Ok(x));
        }
        11 => {
            // arrive from some other storage type
            let mut cand: Vec<Kind> = kinds.iter().copied().filter(|o| *o != k).collect();
            if k.st != St::D {
                cand.push(Kind { dim, st: if k.st == St::F { St::S } else { St::F }, w: k.w });
            }
            cand.push(Kind { dim, st: St::D, w: 0 });
            let from = cand[r.below(cand.len())];
            let fits = match from.st {
                St::F => from.max() == Some(full.len()) || (from.max().unwrap() >= d && k.st == St::F && false),
                _ => from.max().map_or(true, |m| m >= d),
            };
            if fits {
                let c = if k.st == St::F && from.st == St::S && from.w == k.w { cells.to_vec() } else if from.st == St::F { full.clone() } else { cells.to_vec() };
                let x = some!(mk(from, &Mk::Slice(c))?);
                return convert_path(x, k);
            }
        }
        12 => return Ok(Out::Ok(some!(slice(cells)?).dup()?)),
        _ => {}
    }
    slice(cells)
}

/// converts directly where a conversion exists, else by way of dynamic storage
pub fn convert_path(x: Box<dyn Idx>, to: Kind) -> R<Out> {
    let k = x.kind();
    if k == to {
        return Ok(Out::Ok(x));
    }
    if k.st == St::D || to.st == St::D || k.w == to.w {
        return x.convert(to);
    }
    let m = some!(x.convert(Kind { dim: k.dim, st: St::D, w: 0 })?);
    m.convert(to)
}

impl World {
    /// takes over copies of another caller's indices
    pub fn mirror(&mut self, o: &World) {
        for i in 0..NS {
            self.close_iters(i);
            self.slots[i] = o.slots[i].as_ref().map(|s| Slot { ix: s.ix.dup_quiet(), m: s.m.clone() });
        }
    }
    pub fn new(t: &Trace) -> World {
        World {
            iters: (0..NI).map(|_| None).collect(),
            slots: (0..NS).map(|_| None).collect(),
            shared: None,
            colls: (0..NC).map(|_| None).collect(),
            disk: vec![],
            synced: 0,
            kinds: t.kinds.clone(),
            dynmax: t.dynmax,
            prop: t.prop.clone(),
            quiet: false,
            viol: None,
            other: None,
            digs: vec![],
            cur_op: String::new(),
            stats: Stats::default(),
            aborted: false,
            heapless: false,
            dig: Dig::new(),
        }
    }
    fn bad(&mut self, class: &str, msg: String) {
        self.dig.s(b"bad");
        // C04: an allocation failed inside an operation that promises to do without, and now the result is off
        let class = if self.heapless && class != "harness" { "C04" } else { class };
        if class == self.prop {
            if self.viol.is_none() && !self.quiet {
                self.viol = Some(msg)
            }
        } else if self.other.is_none() {
            self.other = Some((class.to_string(), msg));
        }
    }
    /// after an aborted operation C01 and C03 both promise that nothing changed
    fn abort_class(&self) -> &'static str {
        if self.prop == "C01" {
            "C01"
        } else if self.prop == "C07" && self.cur_op == Op::Conv.name() {
            "C07"
        } else {
            "C03"
        }
    }
    fn nshared(&self) -> usize {
        self.shared.as_ref().map_or(0, |s| s.len())
    }
    fn sref(&self, i: usize) -> Option<&Slot> {
        if i < NS {
            self.slots[i].as_ref()
        } else {
            self.shared.as_ref().and_then(|s| s.get(i - NS))
        }
    }
    fn src(&self, x: u64) -> Option<usize> {
        let n = NS + self.nshared();
        (0..n).map(|k| (x as usize + k) % n).find(|i| self.sref(*i).is_some())
    }
    fn own(&self, x: u64) -> Option<usize> {
        (0..NS).map(|k| (x as usize + k) % NS).find(|i| self.slots[*i].is_some())
    }
    fn ix(&self, i: usize) -> &dyn Idx {
        &*self.sref(i).unwrap().ix
    }
    fn m(&self, i: usize) -> &[u8] {
        &self.sref(i).unwrap().m
    }
    fn kind(&self, x: u64) -> Kind {
        self.kinds[x as usize % self.kinds.len()]
    }
    fn dim(&self) -> u8 {
        self.kinds[0].dim
    }
    fn close_iters(&mut self, slot: usize) {
        for i in 0..NI {
            if self.iters[i].as_ref().map_or(false, |x| x.slot == slot) {
                self.iters[i] = None;
            }
        }
    }
    pub fn put(&mut self, d: usize, ix: Box<dyn Idx>, m: Vec<u8>) {
        self.close_iters(d);
        self.slots[d] = Some(Slot { ix, m });
    }
    pub fn len_sel(&self, k: Kind, sel: u64) -> usize {
        let max = k.max().unwrap_or(self.dynmax);
        let mut r = Rng::new(sel ^ 0x1E4);
        match sel % 10 {
            0 => 0,
            1 => 1.min(max),
            2 | 3 => max,
            4 => max - 1.min(max),
            5 => max / 2,
            6 => {
                // around byte and chunk boundaries
                let b = [4, 8, 16, 24, 32, 21, 42, 64][r.below(8)] + r.below(3);
                b.saturating_sub(1).min(max)
            }
            _ => r.below(max + 1),
        }
    }

    // ---- running a step ---------------------------------------------------------------------

    pub fn exec(&mut self, st: &Step) {
        if st.op == Op::Rep {
            return self.burst(st);
        }
        self.dig = Dig::new();
        self.cur_op.clear();
        self.cur_op.push_str(st.op.name());
        self.aborted = false;
        self.heapless = false;
        let mut fault = st.fault;
        if let (Fault::Sink(..), false) = (fault, st.op == Op::Disp) {
            fault = Fault::None;
        }
        let c04 = self.prop == "C04" && fault == Fault::AllocFrom(0) && !self.quiet;
        let covered = c04 && self.covered(st);
        if covered {
            self.stats.add("ops_with_exhausted_heap");
        }
        let target = self.target_level(st);
        if self.prop == "C11" {
            fill_stack(crate::alloc::pattern());
        }
        let mut visit = if let Fault::Reenter(_) = fault { Some(self.visitor(st)) } else { None };
        if let Some(v) = visit.as_mut() {
            let p = &mut **v as *mut Visitor as *mut ();
            crate::ctl::CTL.with(|c| c.visit.set(Some((p, Visitor::come))));
        }
        arm(fault);
        let r = self.act(st, fault);
        let fired = disarm();
        crate::ctl::CTL.with(|c| c.visit.set(None));
        self.cover(st, fired);
        if let Some(v) = visit {
            if v.came && v.w.digs != v.want {
                let i = (0..v.want.len()).find(|i| v.w.digs.get(*i) != Some(&v.want[*i])).unwrap_or(0);
                let m = format!("{} called code of its caller, which used the library itself: its {} gives another result than at other times", self.describe(st), self.describe(&v.steps[i]));
                let c = if self.prop == "C10" { "C10" } else { "C08" };
                self.bad(c, m);
            }
        }
        if fired {
            self.stats.add(&format!("fired_{}", fault_name(fault)));
        }
        let cut = fired && !matches!(fault, Fault::Preempt(_) | Fault::Stall(_) | Fault::PreemptAt(_) | Fault::StallAt(_) | Fault::Reenter(_)) && r.is_err()
            || matches!(r, Err(Fail::Sink));
        if cut {
            self.aborted = true;
            if self.prop == "C11" {
                fill_stack(crate::alloc::pattern());
            }
            self.stats.add("aborted_ops");
            let f = r.err().unwrap();
            if covered && f == Fail::Alloc {
                self.bad("C04", format!("{} needed the heap: failed with the heap exhausted", self.describe(st)));
            }
            self.after_abort(st, &f, target);
            if self.viol.is_some() {
                return;
            }
            let r = self.act(st, Fault::None);
            self.judge(st, r, Fault::None);
        } else {
            let d1 = if covered { Some(self.val_dig(&r)) } else { None };
            self.heapless = covered && fired;
            self.judge(st, r, fault);
            if let (Some(d1), None) = (d1, &self.viol) {
                if st.op != Op::Set && !is_iter(st.op) {
                    // the same operation with plenty of memory
                    let r2 = self.act(st, Fault::None);
                    let d2 = self.val_dig(&r2);
                    if self.repeatable(st) && d1 != d2 {
                        self.bad("C04", format!("{} gives another result with the heap exhausted than with memory available", self.describe(st)));
                    }
                }
            }
        }
        if self.viol.is_none() && matches!(self.prop.as_str(), "C01" | "C03") && !self.quiet {
            self.bystanders(st);
        }
        self.digs.push(self.dig.0);
    }

    /// what code of the caller will do when an operation calls it, and what that gives when done on its own
    fn visitor(&self, st: &Step) -> Box<Visitor> {
        use Op::*;
        let mut r = Rng::new(st.a.iter().fold(0x51, |h, x| crate::rng::mix(h ^ x)));
        let mut a = st.a;
        let i = 1 + r.below(4);
        a[i] = r.pick(&[a[i], a[i] + 1, a[i] ^ 1, r.clone().below(1_000_000) as u64]);
        let b = [0; 5].map(|_: u64| r.below(1_000_000) as u64);
        let steps = vec![
            Step { task: 0, op: st.op, a, fault: Fault::None },
            Step { task: 0, op: r.pick(&[Name, Disp, Name, Disp, New, Inv, Grid, Cmp, Desc, Conv]), a: b, fault: Fault::None },
        ];
        let fresh = || {
            let mut w = World {
                iters: (0..NI).map(|_| None).collect(),
                slots: (0..NS).map(|_| None).collect(),
                shared: self.shared.clone(),
                colls: (0..NC).map(|_| None).collect(),
                disk: vec![],
                synced: 0,
                kinds: self.kinds.clone(),
                dynmax: self.dynmax,
                prop: self.prop.clone(),
                quiet: true,
                viol: None,
                other: None,
                digs: vec![],
                cur_op: String::new(),
                stats: Stats::default(),
                aborted: false,
                heapless: false,
                dig: Dig::new(),
            };
            w.mirror(self);
            w
        };
        let mut alone = fresh();
        for s in &steps {
            alone.exec(s);
        }
        Box::new(Visitor { w: fresh(), steps, want: std::mem::take(&mut alone.digs), came: false })
    }

    /// One operation very many times in a row, between two equal reads: whatever counts operations
    /// (generations, ticks, indices into a ring) comes round.
    fn burst(&mut self, st: &Step) {
        use Op::*;
        self.dig = Dig::new();
        self.cur_op.clear();
        self.cur_op.push_str("rep");
        self.aborted = false;
        self.heapless = false;
        arm(Fault::None);
        let a = st.a;
        let mut r = Rng::new(a[4]);
        let long = a[3] == LONG;
        let readers: &[Op] = match self.prop.as_str() {
            "C02" => &[Name, Grid, Grid, Name],
            "C05" | "C06" => &[Cmp, Twin],
            "C09" => &[IRest, ICount, Obs],
            "C10" => &[Disp, Name],
            _ => &[Obs, Name, Grid, Cmp, Disp, IRest, Twin, Conv],
        };
        let read = r.pick(readers);
        let inner = if long {
            r.pick(&[Set, Set, Set, Obs, Name, Grid, Cmp, read])
        } else {
            r.pick(&[Set, Set, Set, Set, read, read, New, Copy, Obs, Name, Grid, Cmp, Twin, Child, Par, Desc, Anc, Wd, Inv, Conv, Disp, IRest, IOpen])
        };
        let n = if long {
            r.pick(&[1000usize, 1023, 1024, 1025, 4095, 4096, 32768, 65535, 65536, 65536, 65536, 65537])
        } else {
            r.pick(&[2usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 254, 255, 256, 256, 256, 257, 258, 511, 512, 513])
        };
        let depth = self.src(a[0]).map_or(0, |s| self.m(s).len());
        let n = n.min(3_000_000 / (depth + 10) / (1 + (inner == Disp) as usize * 20));
        let mut x = Step { task: st.task, op: inner, a, fault: Fault::None };
        let other = a[2] as usize;
        x.a = [a[0], a[1], a[2], r.below(900_000) as u64 * 8 + r.below(6) as u64, r.below(1_000_000) as u64];
        if inner == Twin {
            x.a[3] &= !1; // what was built is dropped again
        }
        let y = Step { task: st.task, op: read, a: [a[0], a[1], a[2], x.a[3] & !1, x.a[4]], fault: Fault::None };
        self.once(&y);
        for i in 0..n {
            if self.viol.is_some() {
                break;
            }
            if inner == Set {
                x.a[2] = (other + i) as u64;
            }
            self.once(&x);
        }
        self.once(&y);
        self.stats.addn("ops_in_bursts", n as u64 + 2);
        self.cover(st, false);
        if self.viol.is_none() && matches!(self.prop.as_str(), "C01" | "C03") && !self.quiet {
            self.bystanders(st);
        }
        self.digs.push(self.dig.0);
    }

    fn once(&mut self, st: &Step) {
        if self.viol.is_some() {
            return;
        }
        if is_iter(st.op) && st.op != Op::IOpen {
            let o = Step { op: Op::IOpen, a: [st.a[0], st.a[0], 0, 0, 0], ..st.clone() };
            let r = self.act(&o, Fault::None);
            self.judge(&o, r, Fault::None);
        }
        let r = self.act(st, Fault::None);
        self.judge(st, r, Fault::None);
    }

    fn describe(&self, st: &Step) -> String {
        format!("{} {:?}", st.op.name(), &st.a[..])
    }

    /// operations whose re-execution does not depend on what their first execution stored
    fn repeatable(&self, st: &Step) -> bool {
        let s = self.src(st.a[0]);
        match st.op {
            Op::New | Op::Obs | Op::Cmp | Op::Grid => true,
            Op::Twin => st.a[3] % 2 == 0,
            Op::Copy | Op::Par | Op::Anc | Op::Wd | Op::Desc | Op::Child | Op::Inv | Op::Conv => {
                s.is_some() && s != Some(st.a[1] as usize % NS)
            }
            _ => false,
        }
    }

    /// operations that must not need the heap (C04)
    fn covered(&self, st: &Step) -> bool {
        let nd = |i: Option<usize>| i.map_or(false, |i| self.ix(i).kind().st != St::D);
        match st.op {
            Op::New => self.kind(st.a[1]).st != St::D && st.a[2] % 14 != 11,
            Op::Twin => nd(self.src(st.a[0])) && st.a[1] % 14 != 11,
            Op::Set => nd(self.own(st.a[0])) && !self.set_refused(st),
            Op::Copy | Op::Anc | Op::Par | Op::Wd | Op::Desc | Op::Child | Op::Inv | Op::Grid | Op::IOpen => nd(self.src(st.a[0])),
            Op::Obs => a_over(st.a[1]).is_none() && nd(self.src(st.a[0])),
            Op::Cmp => nd(self.src(st.a[0])),
            Op::INext | Op::INth | Op::IHint | Op::ICount | Op::ILast | Op::IRest => {
                self.iters[st.a[0] as usize % NI].as_ref().map_or(false, |i| self.ix(i.slot).kind().st != St::D)
            }
            Op::Conv => match self.src(st.a[0]) {
                Some(s) => {
                    let (a, b) = (self.ix(s).kind(), self.kind(st.a[2]));
                    b.st != St::D && (a.st == St::D || a.w == b.w)
                }
                None => false,
            },
            _ => false,
        }
    }
    fn set_refused(&self, st: &Step) -> bool {
        match self.own(st.a[0]) {
            Some(s) => st.a[3] % 8 == 7 || self.m(s).is_empty(),
            None => false,
        }
    }
    fn target_level(&self, st: &Step) -> Option<(usize, usize)> {
        if st.op != Op::Set {
            return None;
        }
        let s = self.own(st.a[0])?;
        if self.set_refused(st) {
            return None;
        }
        Some((s, st.a[1] as usize % self.m(s).len()))
    }

    fn cover(&mut self, st: &Step, fired: bool) {
        let (k, d) = match st.op {
            Op::New => (self.kind(st.a[1]), 0),
            _ => match self.src(st.a[0]) {
                Some(s) => (self.ix(s).kind(), self.m(s).len()),
                None => (self.kinds[0], 0),
            },
        };
        let mut g = Dig::new();
        g.b(k.dim);
        g.b(k.st as u8);
        g.b(k.w);
        g.s(st.op.name().as_bytes());
        g.u(d.min(70) as u64);
        match st.op {
            Op::New => g.u(st.a[2] % 14),
            Op::Twin => g.u(st.a[1] % 14),
            Op::Conv => {
                let t = self.kind(st.a[2]);
                g.b(t.st as u8);
                g.b(t.w)
            }
            _ => {}
        }
        if fired {
            g.s(fault_name(st.fault).as_bytes());
            if let Fault::AllocNth(n) | Fault::Storage(n) = st.fault {
                g.u(n as u64)
            }
        }
        self.stats.cover.insert(g.0);
    }

    /// C03: nothing that existed before may have changed
    fn after_abort(&mut self, st: &Step, f: &Fail, target: Option<(usize, usize)>) {
        if is_iter(st.op) {
            // the position of an iterator interrupted inside next() is not promised: abandon it
            self.iters[st.a[0] as usize % NI] = None;
        }
        for i in 0..NS + self.nshared() {
            let (want, got) = match self.sref(i) {
                None => continue,
                Some(s) => (s.m.clone(), observe(&*s.ix)),
            };
            let c = self.abort_class();
            match got {
                Ok(g) if g == want => {}
                Ok(g) => {
                    let only_level = match (f, target) {
                        (Fail::Storage, Some((s, l))) if s == i => {
                            g.len() == want.len() && (0..g.len()).all(|j| j == l || g[j] == want[j])
                        }
                        _ => false,
                    };
                    if !only_level {
                        let m = format!(
                            "{} was cut short ({:?}) but index in slot {} changed from {} to {}",
                            self.describe(st), f, i, show(&want), show(&g)
                        );
                        self.bad(c, m);
                    }
                    if i < NS {
                        self.slots[i].as_mut().unwrap().m = g;
                    }
                }
                Err(e) => {
                    let m = format!("{} was cut short ({:?}); reading slot {} now fails: {:?}", self.describe(st), f, i, e);
                    self.bad(c, m);
                    if i < NS {
                        self.close_iters(i);
                        self.slots[i] = None;
                    }
                }
            }
        }
    }

    fn bystanders(&mut self, st: &Step) {
        for i in 0..NS {
            let (want, got) = match self.sref(i) {
                None => continue,
                Some(s) => (s.m.clone(), observe(&*s.ix)),
            };
            match got {
                Ok(g) if g == want => {}
                g => {
                    let m = format!("after {}: index in slot {} is {:?}, expected {}", self.describe(st), i, g.map(|x| show(&x)), show(&want));
                    self.bad("C01", m);
                    return;
                }
            }
        }
    }

    // ---- performing operations (library code, faults armed) ---------------------------------

    fn act(&mut self, st: &Step, fault: Fault) -> R<Val> {
        let a = st.a;
        let src = match st.op {
            Op::New | Op::Sync | Op::Crash | Op::CNew | Op::Hand => None,
            _ => self.src(a[0]),
        };
        macro_rules! s {
            () => {
                match src {
                    Some(s) => s,
                    None => return Ok(Val::Nothing),
                }
            };
        }
        Ok(match st.op {
            Op::New => {
                let k = self.kind(a[1]);
                let route = a[2];
                match self.refusal(k, a[3]) {
                    Some(m) => Val::MadeBy(mk(k, &m)?, "C01"),
                    None => {
                        let cells = stream(k.dim, a[4], self.len_sel(k, a[3]));
                        Val::MadeBy(build(&self.kinds, k, &cells, route, a[4])?, class_of_route(route))
                    }
                }
            }
            Op::Copy => {
                let x = self.ix(s!());
                // now and then over an existing index of the same type
                let over = (0..NS + self.nshared()).map(|j| (a[3] as usize + j) % (NS + self.nshared())).find(|i| self.sref(*i).map_or(false, |y| y.ix.kind() == x.kind()));
                match over {
                    Some(o) if a[2] % 3 == 0 => {
                        let mut base = self.ix(o).dup_quiet();
                        match base.copy_over(x) {
                            Ok(()) => Val::Made(Out::Ok(base)),
                            Err(e) => {
                                // what was to be overwritten is still there, or has already been overwritten
                                disarm();
                                let now = observe(&*base);
                                let ok = matches!(&now, Ok(c) if c == self.m(o) || c == self.m(s!()));
                                if !ok {
                                    let m = format!("{} was cut short ({:?}): the index to be overwritten changed from {} to {:?}", self.describe(st), e, show(self.m(o)), now.map(|c| show(&c)));
                                    let c = self.abort_class();
                                    self.bad(c, m);
                                }
                                return Err(e);
                            }
                        }
                    }
                    _ => Val::Made(Out::Ok(x.dup()?)),
                }
            }
            Op::Inv => Val::Made(Out::Ok(self.ix(s!()).inverted()?)),
            Op::Anc => {
                let s = s!();
                Val::Made(self.ix(s).ancestor(self.gen_sel(s, a[2]))?)
            }
            Op::Par => Val::Made(self.ix(s!()).parent()?),
            Op::Wd => {
                let s = s!();
                Val::Made(self.ix(s).with_depth(self.wd_sel(s, a[2]))?)
            }
            Op::Desc => {
                let s = s!();
                let c = self.desc_cells(s, a[2], a[3]);
                Val::Made(self.ix(s).descendant(&c)?)
            }
            Op::Child => {
                let s = s!();
                Val::Made(self.ix(s).child((a[2] % (1 << self.dim())) as u8)?)
            }
            Op::Conv => {
                let x = self.ix(s!()).dup_quiet();
                Val::Made(convert_path(x, self.kind(a[2]))?)
            }
            Op::Set => {
                let s = match self.own(a[0]) {
                    Some(s) => s,
                    None => return Ok(Val::Nothing),
                };
                self.close_iters(s);
                let d = self.m(s).len();
                let c = (a[2] % (1 << self.dim())) as u8;
                let out = self.set_refused(st);
                let x = &mut self.slots[s].as_mut().unwrap().ix;
                if out {
                    x.set(d.saturating_add(a_over(a[1]).unwrap_or(0)), c)?
                } else if a[3] % 2 == 1 {
                    x.set_unchecked(a[1] as usize % d, c)?
                } else {
                    x.set(a[1] as usize % d, c)?
                }
                Val::Unit
            }
            Op::Obs => {
                let s = s!();
                let x = self.ix(s);
                let d = x.depth()?;
                if d > DEPTH_CAP {
                    return Err(Fail::Panic(format!("depth() = {}", d)));
                }
                let mut g = vec![];
                let mut u = vec![];
                for l in 0..d {
                    g.push(x.get(l)?);
                    u.push(x.get_unchecked(l)?);
                }
                let over = match a_over(a[1]).map(|o| (o, x.get(d.saturating_add(o)))) {
                    None => None,
                    Some((o, Ok(c))) => Some(format!("level {} of depth {} gave cell {}", d.saturating_add(o), d, c)),
                    Some((_, Err(Fail::Panic(_)))) => None,
                    Some((_, Err(e))) => return Err(e),
                };
                Val::Cells(g, u, over)
            }
            Op::Cmp => {
                let s = s!();
                let k = self.ix(s).kind();
                let n = NS + self.nshared();
                let o = (0..n).map(|j| (a[1] as usize + j) % n).find(|i| self.sref(*i).map_or(false, |x| x.ix.kind() == k)).unwrap();
                let (x, y) = (self.ix(s), self.ix(o));
                Val::Cmp(x.compare(y)?, x.hash()?, y.hash()?)
            }
            Op::Twin => {
                let s = s!();
                let x = self.ix(s);
                let cells = self.m(s).to_vec();
                let k = x.kind();
                let t = match build(&self.kinds, k, &cells, a[1], a[2])? {
                    Out::Ok(t) => t,
                    _ => return Ok(Val::Twin(None)),
                };
                let cmp = x.compare(&*t)?;
                let (ha, hb) = (x.hash()?, t.hash()?);
                let mut n = cells.clone();
                let mut r = Rng::new(a[2] ^ 77);
                match r.below(4) {
                    0 if k.var() && n.len() > 0 => {
                        n.pop();
                    }
                    1 if k.var() && k.max().map_or(true, |m| n.len() < m) => n.push(r.below(1 << k.dim) as u8 * (r.below(2) as u8)),
                    _ if n.len() > 0 => {
                        let l = if r.chance(1, 2) { n.len() - 1 } else { r.below(n.len()) };
                        n[l] = (n[l] + 1 + r.below((1 << k.dim) - 1) as u8) % (1 << k.dim);
                        // and maybe others close to it, which must not matter if they come later
                        for _ in 0..r.below(3) {
                            let j = if r.chance(1, 2) { l.saturating_sub(r.below(24)) } else { (l + r.below(24)).min(n.len() - 1) };
                            if j != l {
                                n[j] = r.below(1 << k.dim) as u8;
                            }
                        }
                    }
                    _ => {}
                }
                let near = match mk(k, &Mk::Slice(n.clone()))? {
                    Out::Ok(y) => Some((n, x.compare(&*y)?)),
                    _ => None,
                };
                Val::Twin(Some(TwinVal { t, cmp, ha, hb, near }))
            }
            Op::IOpen => {
                let s = s!();
                // the iterator borrows the boxed index, which stays in place while the iterator is open
                let it: Box<dyn CellIt + '_> = self.ix(s).iter()?;
                let it: Box<dyn CellIt + 'static> = unsafe { std::mem::transmute(it) };
                let cells = self.m(s).to_vec();
                self.iters[a[1] as usize % NI] = Some(Iter { it, slot: s, cells, pos: 0 });
                Val::Unit
            }
            Op::INext | Op::INth => match self.iters[a[0] as usize % NI].as_mut() {
                None => Val::Nothing,
                Some(i) => {
                    if st.op == Op::INext {
                        Val::O8(i.it.next()?)
                    } else {
                        Val::O8(i.it.nth(nth_arg(a[1], i.cells.len() - i.pos.min(i.cells.len())))?)
                    }
                }
            },
            Op::IHint => match self.iters[a[0] as usize % NI].as_ref() {
                None => Val::Nothing,
                Some(i) => {
                    let (l, h) = i.it.hint()?;
                    Val::Hint(l, h)
                }
            },
            Op::ICount | Op::ILast | Op::IRest => match self.iters[a[0] as usize % NI].take() {
                None => Val::Nothing,
                Some(i) => {
                    let Iter { it, slot, cells, pos } = i;
                    let cap = cells.len() + 3;
                    // keep the bookkeeping for judge()
                    let v = match st.op {
                        Op::ICount => Val::Count(it.count()?),
                        Op::ILast => Val::O8(it.last()?),
                        _ => Val::Rest(it.rest(cap, a[1] as u8)?),
                    };
                    struct Dead;
                    impl CellIt for Dead {
                        fn next(&mut self) -> R<Option<u8>> {
                            Ok(None)
                        }
                        fn nth(&mut self, _: usize) -> R<Option<u8>> {
                            Ok(None)
                        }
                        fn hint(&self) -> R<(usize, Option<usize>)> {
                            Ok((0, Some(0)))
                        }
                        fn count(self: Box<Self>) -> R<usize> {
                            Ok(0)
                        }
                        fn last(self: Box<Self>) -> R<Option<u8>> {
                            Ok(None)
                        }
                        fn rest(self: Box<Self>, _: usize, _: u8) -> R<Vec<u8>> {
                            Ok(vec![])
                        }
                    }
                    self.iters[a[0] as usize % NI] = Some(Iter { it: Box::new(Dead), slot, cells, pos });
                    v
                }
            },
            Op::IDrop => {
                self.iters[a[0] as usize % NI] = None;
                Val::Nothing
            }
            Op::Disp => {
                let (list, n) = match self.disp_list(&a) {
                    Some(x) => x,
                    None => return Ok(Val::Nothing),
                };
                let (fail_n, mode) = match fault {
                    Fault::Sink(n, m) => (n as usize, 1 + m % 4),
                    _ => (0, 0),
                };
                let mut sink = Sink { text: String::new(), n: fail_n, mode, calls: 0, failed: false, after: false };
                let base = s!();
                let items: Vec<&dyn Idx> = list.iter().map(|i| self.ix(*i)).collect();
                let r = self.ix(base).display(&items, n, (a[3] % 12) as u8, &mut sink);
                match r {
                    Ok(ok) => {
                        if sink.failed {
                            self.stats.add(&format!("fired_sink_mode{}", mode));
                        }
                        Val::Disp(ok, sink.failed, sink.after, sink.text)
                    }
                    Err(e) => {
                        let want = self.disp_text(&list, n);
                        let (t, after) = (sink.text, sink.after);
                        if e == Fail::Sink {
                            self.stats.add("fired_sink_mode4");
                        }
                        if let (Some(w), false) = (want, matches!(e, Fail::Panic(_))) {
                            if !w.starts_with(&t[..]) || after {
                                self.bad("C10", format!("cut short by {:?}: wrote {:?}, not a prefix of {:?}", e, t, w));
                            }
                        }
                        return Err(e);
                    }
                }
            }
            Op::Name => {
                let s = s!();
                if a[1] % 3 == 2 && self.m(s).len() > 64 {
                    return Ok(Val::Nothing);
                }
                Val::Str(self.ix(s).name((a[1] % 3) as u8)?)
            }
            Op::Grid => {
                let s = s!();
                if self.m(s).len() > 64 {
                    return Ok(Val::Nothing);
                }
                Val::Grid(self.ix(s).grid((a[1] % n_ord(self.dim()) as u64) as u8)?)
            }
            Op::CNew => {
                let k = self.kind(a[1]);
                let x = match mk(k, &Mk::Default)? {
                    Out::Ok(x) => x,
                    _ => return Ok(Val::Nothing),
                };
                let c = x.new_coll(a[2] as u8, a[3]);
                self.colls[a[0] as usize % NC] = Some(CollS { c, k, which: a[2] as u8 % 4, seed: a[3], m: BTreeSet::new() });
                Val::Unit
            }
            Op::CIns | Op::CRem | Op::CHas => {
                let n = a[0] as usize % NC;
                let (k, node) = match self.coll_node(n, &a) {
                    Some(x) => x,
                    None => return Ok(Val::Nothing),
                };
                let x = match build(&self.kinds, k, &node, a[3], a[4])? {
                    Out::Ok(x) => x,
                    _ => return Ok(Val::Nothing),
                };
                // the node as it really is (building it wrongly is another property's business)
                let real = observe(&*x)?;
                let c = self.colls[n].as_mut().unwrap();
                match st.op {
                    Op::CIns => {
                        let new = c.c.insert(&*x)?;
                        let want = c.m.insert(real.clone());
                        self.coll_check(n, new == want, format!("insert of {} reported new={}", show(&real), new));
                        Val::Bool(new)
                    }
                    Op::CRem => {
                        let had = c.c.remove(&*x)?;
                        let want = c.m.remove(&real);
                        self.coll_check(n, had == want, format!("remove of {} reported found={}", show(&real), had));
                        Val::Bool(had)
                    }
                    _ => {
                        let had = c.c.has(&*x)?;
                        let ceil = c.c.ceil(&*x)?;
                        let want = c.m.contains(&real);
                        let wceil = c.m.range(real.clone()..).next().cloned();
                        let sorted = c.c.sorted();
                        self.coll_check(n, had == want, format!("lookup of {} reported found={}", show(&real), had));
                        self.coll_check(
                            n,
                            !sorted || ceil == wceil,
                            format!("first node not before {} reported as {:?}, expected {:?}", show(&real), ceil.as_ref().map(|c| show(c)), wceil.as_ref().map(|c| show(c))),
                        );
                        Val::Ceil(had, ceil)
                    }
                }
            }
            Op::CSeq | Op::CReb => {
                let n = a[0] as usize % NC;
                if self.colls[n].is_none() {
                    return Ok(Val::Nothing);
                }
                if st.op == Op::CReb {
                    // all that survives is the exported list of nodes, in some order: build it again
                    let c = self.colls[n].as_ref().unwrap();
                    let (k, which, seed) = (c.k, if a[1] % 2 == 0 { c.which as u64 } else { a[2] % 4 }, mix(c.seed + a[3]));
                    let mut seq = c.c.seq()?;
                    let mut r = Rng::new(a[4]);
                    for i in (1..seq.len()).rev() {
                        seq.swap(i, r.below(i + 1));
                    }
                    let x = match mk(k, &Mk::Default)? {
                        Out::Ok(x) => x,
                        _ => return Ok(Val::Nothing),
                    };
                    let mut nc = x.new_coll(which as u8, seed);
                    for s in &seq {
                        let again = r.chance(1, 3);
                        let rt = r.u64();
                        if let Out::Ok(x) = build(&self.kinds, k, s, rt, rt)? {
                            nc.insert(&*x)?;
                            if again {
                                nc.insert(&*x)?;
                            }
                        }
                    }
                    let c = self.colls[n].as_mut().unwrap();
                    c.c = nc;
                    c.which = which as u8;
                    c.seed = seed;
                }
                let c = self.colls[n].as_ref().unwrap();
                let seq = c.c.seq()?;
                let len = c.c.len();
                Val::Seqs(seq, len)
            }
            Op::Exp => {
                let s = s!();
                if self.m(s).len() > 64 {
                    return Ok(Val::Nothing);
                }
                let x = self.ix(s);
                let mut names = vec![];
                for n in 0..3 {
                    names.push(x.name(n)?);
                }
                let mut grids = vec![];
                for o in 0..n_ord(self.dim()) {
                    grids.push(x.grid(o)?);
                }
                Val::Exp(names, grids)
            }
            Op::Sync | Op::Crash | Op::Drop | Op::Hand | Op::Rep => Val::Unit,
        })
    }

    /// arguments that every type must refuse (chosen by the length selector)
    fn refusal(&self, k: Kind, sel: u64) -> Option<Mk> {
        let max = k.max()?;
        let x = sel / 16;
        let over = max + 1 + (x / 4 % 9) as usize;
        match x % 24 {
            0 => Some(Mk::Slice(stream(k.dim, x, over))),
            1 => Some(Mk::Array(stream(k.dim, x, over))),
            2 if k.st == St::S => Some(Mk::Zeroed(over + if x % 5 == 0 { 250 - over.min(250) } else { 0 })),
            3 if k.st == St::S => Some(Mk::Grid([x as usize % 4, 1, 2], over, (x % 2) as u8)),
            _ => None,
        }
    }
    fn gen_sel(&self, s: usize, x: u64) -> usize {
        let d = self.m(s).len();
        match x % 8 {
            0 => d + 1 + (x / 8 % 300) as usize,
            1 => d.max(1),
            2 => d + 1,
            3 => [256, 257, 512, 65536, usize::MAX, usize::MAX - 2, 1 << 32, 255][(x / 8 % 8) as usize],
            _ => 1 + (x / 8) as usize % d.max(1),
        }
    }
    fn wd_sel(&self, s: usize, x: u64) -> usize {
        let d = self.m(s).len();
        match x % 8 {
            0 => d + 1 + (x / 8 % 300) as usize,
            1 => d,
            2 => 0,
            3 => d.saturating_add([256, 255, 512, 65536, 1 << 32, usize::MAX][(x / 8 % 6) as usize]),
            _ => (x / 8) as usize % (d + 1),
        }
    }
    fn desc_cells(&self, s: usize, x: u64, seed: u64) -> Vec<u8> {
        let k = self.ix(s).kind();
        let d = self.m(s).len();
        let room = k.max().map_or(self.dynmax.saturating_sub(d), |m| m - d);
        let n = match x % 8 {
            0 => room + (x / 8 % 4) as usize + 1,
            1 => room,
            2 => 0,
            3 if k.st == St::S => room + 256 - (x / 8 % 3) as usize,
            _ => (x / 8) as usize % (room + 1),
        };
        stream(k.dim, seed, n)
    }
    fn coll_node(&self, n: usize, a: &[u64; 5]) -> Option<(Kind, Vec<u8>)> {
        let c = self.colls[n].as_ref()?;
        let len = self.len_sel(c.k, a[1] / 3);
        let mut cells = stream(c.k.dim, a[2], len);
        cells = pad(c.k, cells);
        Some((c.k, cells))
    }
    fn coll_check(&mut self, n: usize, ok: bool, msg: String) {
        if !ok {
            let c = self.colls[n].as_ref().unwrap();
            let m = format!("{} collection of {}: {}", ["tree", "hash", "sorted vector", "re-sorted vector"][c.which as usize % 4], c.k.name(), msg);
            self.bad("C06", m);
        }
    }
    fn disp_list(&self, a: &[u64; 5]) -> Option<(Vec<usize>, u8)> {
        let base = self.src(a[0])?;
        let k = self.ix(base).kind();
        let same: Vec<usize> = (0..NS + self.nshared()).filter(|i| self.sref(*i).map_or(false, |s| s.ix.kind() == k)).collect();
        let mut r = Rng::new(a[2]);
        let mut n = [0, 1, 2, 3, 5, 9, 1, 2, 3, 4, 17, 40][a[1] as usize % 12];
        if a[1] / 12 % 40 == 0 {
            n = r.pick(&[63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000]);
            n = n.min(100_000 / (1 + same.iter().map(|i| self.m(*i).len()).max().unwrap_or(0)));
        }
        let list: Vec<usize> = (0..n).map(|_| same[r.below(same.len())]).collect();
        let mut nm = (a[4] % 3) as u8;
        if nm == 2 && list.iter().any(|i| self.m(*i).len() > 64) {
            nm = 0;
        }
        Some((list, nm))
    }
    /// the full text, from the names of the single indices
    fn disp_text(&self, list: &[usize], n: u8) -> Option<String> {
        let was = crate::ctl::CTL.with(|c| c.armed.replace(Fault::None));
        let mut v = vec![];
        for i in list {
            v.push(self.ix(*i).name(n).ok()?);
        }
        crate::ctl::CTL.with(|c| c.armed.set(was));
        Some(format!("[{}]", v.join(", ")))
    }

    // ---- judging -----------------------------------------------------------------------------

    fn val_dig(&self, r: &R<Val>) -> u64 {
        let mut d = Dig::new();
        match r {
            Err(e) => d.s(format!("{:?}", e).as_bytes()),
            Ok(v) => match v {
                Val::Made(o) | Val::MadeBy(o, _) => match o {
                    Out::Ok(x) => match observe(&**x) {
                        Ok(c) => d.s(&c),
                        Err(_) => d.b(9),
                    },
                    Out::None => d.b(1),
                    Out::Err(m) => d.u(*m as u64),
                    Out::Na => d.b(3),
                },
                Val::Grid(g) => g.iter().for_each(|x| d.u(*x as u64)),
                Val::Cmp(c, h, i) => d.s(format!("{:?}{:?}{:?}", c, h, i).as_bytes()),
                Val::Cells(a, b, c) => {
                    d.s(a);
                    d.s(b);
                    d.b(c.is_some() as u8)
                }
                Val::Twin(t) => match t {
                    None => d.b(1),
                    Some(t) => d.s(format!("{:?}{:?}{:?}", t.cmp, t.ha, t.hb).as_bytes()),
                },
                _ => d.b(7),
            },
        }
        d.0
    }

    fn commit(&mut self, st: &Step, o: Out, want: Want, class: &str, dst: usize, kind: Kind) {
        let what = self.describe(st);
        match (o, want) {
            (Out::Na, _) => self.dig.b(0),
            (Out::Ok(x), Want::Cells(w)) | (Out::Ok(x), Want::CellsOrPanic(w)) => {
                if x.kind() != kind {
                    self.bad("harness", format!("kind {:?} vs {:?}", x.kind(), kind));
                }
                match observe(&*x) {
                    Ok(g) => {
                        self.dig.s(&g);
                        if g != w {
                            self.bad(class, format!("{} -> {} is {}, expected {}", what, kind.name(), show(&g), show(&w)));
                        }
                        if class == "C07" && self.prop == "C07" && self.viol.is_none() {
                            self.battery(&what, &*x, &g, kind);
                        }
                        self.put(dst, x, g);
                    }
                    Err(e) => self.bad(class, format!("{} -> {}: result cannot be read: {:?}", what, kind.name(), e)),
                }
            }
            (Out::None, Want::None) => self.dig.b(1),
            (Out::Err(m), Want::Err(w)) => {
                self.dig.u(m as u64);
                if m != w {
                    self.bad(class, format!("{} -> {}: refused naming capacity {}, real capacity {}", what, kind.name(), m as isize, w));
                }
            }
            (Out::Ok(x), Want::None | Want::Err(_)) => {
                let g = observe(&*x).map(|g| show(&g));
                self.bad(class, format!("{} -> {}: should have been refused but gave {:?}", what, kind.name(), g));
            }
            (Out::None, _) => self.bad(class, format!("{} -> {}: refused (None)", what, kind.name())),
            (Out::Err(m), _) => self.bad(class, format!("{} -> {}: refused (capacity {})", what, kind.name(), m as isize)),
        }
    }

    /// C07: a migrated index behaves like one of its type built from cells
    fn battery(&mut self, what: &str, x: &dyn Idx, cells: &[u8], k: Kind) {
        let t = match mk(k, &Mk::Slice(cells.to_vec())) {
            Ok(Out::Ok(t)) => t,
            _ => return,
        };
        let mut r = Rng::new(cells.len() as u64 ^ mix(cells.iter().map(|x| *x as u64).sum()));
        let c = r.below(1 << k.dim) as u8;
        let run = |x: &dyn Idx| -> R<Vec<Option<Vec<u8>>>> {
            let mut v = vec![];
            let mut add = |o: Out| -> R<()> {
                v.push(match o {
                    Out::Ok(y) => Some(observe(&*y)?),
                    _ => None,
                });
                Ok(())
            };
            add(x.child(c)?)?;
            add(x.parent()?)?;
            add(x.ancestor((cells.len() / 2).max(1))?)?;
            add(x.with_depth(cells.len() / 3)?)?;
            add(x.descendant(&[c, 0, c])?)?;
            add(Out::Ok(x.inverted()?))?;
            if cells.len() <= 64 {
                let g = x.grid(c)?;
                v.push(Some(g.iter().flat_map(|x| x.to_le_bytes()).collect()));
            }
            if !cells.is_empty() {
                let mut y = x.dup()?;
                y.set(0, c)?;
                y.set(cells.len() - 1, c)?;
                v.push(Some(observe(&*y)?));
            }
            Ok(v)
        };
        let (a, b) = (run(x), run(&*t));
        if a != b {
            self.bad("C07", format!("{}: the migrated {} index {} behaves differently from one built from the same cells", what, k.name(), show(cells)));
            return;
        }
        match (x.compare(&*t), x.hash(), t.hash()) {
            (Ok(c), Ok(h), Ok(i)) => {
                if !c.eq || c.cmp != Ordering::Equal || h != i {
                    self.bad("C07", format!("{}: the migrated {} index {} is not equal to (or hashes unlike) one built from the same cells", what, k.name(), show(cells)));
                }
            }
            _ => self.bad("C07", format!("{}: comparing a migrated {} index fails", what, k.name())),
        }
    }

    fn class_of_panic(&self, op: Op) -> &'static str {
        match op {
            Op::Conv => "C07",
            Op::Cmp => {
                if self.prop == "C06" {
                    "C06"
                } else {
                    "C05"
                }
            }
            Op::Twin => "C05",
            Op::IOpen | Op::INext | Op::INth | Op::IHint | Op::ICount | Op::ILast | Op::IRest | Op::IDrop => "C09",
            Op::Disp => "C10",
            Op::Name | Op::Grid | Op::Exp | Op::Crash => "C02",
            Op::CNew | Op::CIns | Op::CRem | Op::CHas | Op::CSeq | Op::CReb => "C06",
            _ => "C01",
        }
    }

    fn judge(&mut self, st: &Step, r: R<Val>, fault: Fault) {
        let a = st.a;
        let what = self.describe(st);
        let v = match r {
            Ok(v) => v,
            Err(e) => {
                self.dig.s(format!("{:?}", e).as_bytes());
                if st.op == Op::Set && self.set_refused(st) && matches!(e, Fail::Panic(_)) {
                    self.stats.add("refused_ops");
                    return;
                }
                let c = match st.op {
                    Op::New => class_of_route(a[2]),
                    Op::Twin if a[1] % 14 == 6 || a[1] % 14 == 7 => "C02",
                    Op::Twin if a[1] % 14 == 11 => "C07",
                    _ => self.class_of_panic(st.op),
                };
                // the retry of an interrupted operation must not fail (C03), nor any operation on its own
                let c = if self.aborted && self.prop == "C03" { "C03" } else { c };
                self.bad(c, format!("{} failed: {:?}", what, e));
                return;
            }
        };
        let dst = a[1] as usize % NS;
        let dim = self.dim();
        match v {
            Val::Nothing => self.dig.b(0xEE),
            Val::MadeBy(o, class) => {
                let k = self.kind(a[1]);
                let dst = a[0] as usize % NS;
                let want = match self.refusal(k, a[3]) {
                    Some(Mk::Zeroed(_)) => Want::None,
                    Some(_) => Want::Err(k.max().unwrap()),
                    None => Want::Cells(pad(k, stream(dim, a[4], self.len_sel(k, a[3])))),
                };
                if !matches!(want, Want::Cells(_)) {
                    self.stats.add("refused_ops");
                }
                self.commit(st, o, want, class, dst, k);
            }
            Val::Made(o) => {
                let s = self.src(a[0]).unwrap();
                let m = self.m(s).to_vec();
                let k = self.ix(s).kind();
                let d = m.len();
                let mut rk = k;
                let mut class = "C01";
                let want = match st.op {
                    Op::Copy => Want::Cells(m),
                    Op::Inv => {
                        let mut m = m;
                        m.reverse();
                        Want::Cells(m)
                    }
                    Op::Anc => {
                        let g = self.gen_sel(s, a[2]);
                        if g > d {
                            Want::None
                        } else {
                            Want::Cells(m[..d - g].to_vec())
                        }
                    }
                    Op::Par if d == 0 => Want::None,
                    Op::Par => Want::Cells(m[..d - 1].to_vec()),
                    Op::Wd => {
                        let n = self.wd_sel(s, a[2]);
                        if n > d {
                            Want::None
                        } else {
                            Want::Cells(m[..n].to_vec())
                        }
                    }
                    Op::Desc | Op::Child => {
                        let c = if st.op == Op::Desc { self.desc_cells(s, a[2], a[3]) } else { vec![(a[2] % (1 << dim)) as u8] };
                        if k.max().map_or(false, |x| d + c.len() > x) {
                            Want::None
                        } else {
                            Want::Cells([m, c].concat())
                        }
                    }
                    Op::Conv => {
                        class = "C07";
                        rk = self.kind(a[2]);
                        match rk.max() {
                            Some(x) if d > x => Want::Err(x),
                            _ => Want::Cells(pad(rk, m)),
                        }
                    }
                    _ => unreachable!(),
                };
                if !matches!(want, Want::Cells(_)) {
                    self.stats.add("refused_ops");
                }
                self.commit(st, o, want, class, dst, rk);
            }
            Val::Unit => match st.op {
                Op::Set => {
                    let s = self.own(a[0]).unwrap();
                    if self.set_refused(st) {
                        let m = format!("{}: writing a level outside the index was not refused", what);
                        self.bad("C01", m);
                        return;
                    }
                    let d = self.m(s).len();
                    let mut w = self.m(s).to_vec();
                    w[a[1] as usize % d] = (a[2] % (1 << dim)) as u8;
                    match observe(self.ix(s)) {
                        Ok(g) => {
                            self.dig.s(&g);
                            if g != w {
                                let m = format!("{} on {}: now {}, expected {}", what, self.ix(s).kind().name(), show(&g), show(&w));
                                self.bad("C01", m);
                            }
                            self.slots[s].as_mut().unwrap().m = g;
                        }
                        Err(e) => self.bad("C01", format!("{}: index unreadable afterwards: {:?}", what, e)),
                    }
                }
                Op::Sync => self.synced = self.disk.len(),
                Op::Drop => {
                    let s = a[0] as usize % NS;
                    self.close_iters(s);
                    self.slots[s] = None;
                }
                Op::Crash => self.crash(&a),
                _ => self.dig.b(1),
            },
            Val::Cells(g, u, over) => {
                let s = self.src(a[0]).unwrap();
                self.dig.s(&g);
                self.dig.s(&u);
                let w = self.m(s).to_vec();
                if g != w || u != w {
                    self.bad("C01", format!("{}: read {} / unchecked {}, expected {}", what, show(&g), show(&u), show(&w)));
                }
                if let Some(o) = over {
                    self.bad("C01", format!("{}: reading outside the index was not refused: {}", what, o));
                }
            }
            Val::Cmp(c, h, i) => {
                let s = self.src(a[0]).unwrap();
                let k = self.ix(s).kind();
                let n = NS + self.nshared();
                let o = (0..n).map(|j| (a[1] as usize + j) % n).find(|i| self.sref(*i).map_or(false, |x| x.ix.kind() == k)).unwrap();
                let (x, y) = (self.m(s).to_vec(), self.m(o).to_vec());
                self.judge_cmp(k, &x, &y, c, Some((h, i)));
            }
            Val::Twin(None) => {
                let c = class_of_route(a[1]);
                self.bad(c, format!("{}: building the same index by route {} was refused", what, a[1] % 14));
            }
            Val::Twin(Some(t)) => {
                let s = self.src(a[0]).unwrap();
                let k = self.ix(s).kind();
                let x = self.m(s).to_vec();
                match observe(&*t.t) {
                    Err(e) => self.bad(class_of_route(a[1]), format!("{}: index built by route {} unreadable: {:?}", what, a[1] % 14, e)),
                    Ok(y) => {
                        self.dig.s(&y);
                        if x != y {
                            self.bad(class_of_route(a[1]), format!("{}: {} built by route {} is {}, expected {}", what, k.name(), a[1] % 14, show(&y), show(&x)));
                        } else {
                            self.stats.add("equal_pairs_compared");
                        }
                        self.judge_cmp(k, &x, &y, t.cmp, Some((t.ha, t.hb)));
                        if let Some((n, c)) = t.near {
                            self.judge_cmp(k, &x, &n, c, None);
                        }
                        if a[3] % 2 == 1 && s < NS {
                            self.put(s, t.t, y);
                        }
                    }
                }
            }
            Val::O8(got) => {
                let i = self.iters[a[0] as usize % NI].as_mut().unwrap();
                let left = i.cells.len().saturating_sub(i.pos);
                let (want, npos) = match st.op {
                    Op::INext => (i.cells.get(i.pos).copied(), i.pos + 1),
                    Op::INth => {
                        let n = nth_arg(a[1], left);
                        (i.cells.get(i.pos.saturating_add(n)).copied(), i.pos.saturating_add(n).saturating_add(1))
                    }
                    _ => (if left > 0 { i.cells.last().copied() } else { None }, usize::MAX),
                };
                i.pos = npos.min(i.cells.len());
                let (p, d) = (i.pos, i.cells.len());
                if st.op == Op::ILast {
                    self.iters[a[0] as usize % NI] = None;
                }
                self.dig.u(got.map_or(99, |x| x as u64));
                if left == 0 {
                    self.stats.add("iterator_polled_after_end");
                }
                if got != want {
                    self.bad("C09", format!("{} on an iterator ({} of {} cells left): gave {:?}, expected {:?} (now at {})", what, left, d, got, want, p));
                }
            }
            Val::Hint(l, h) => {
                let i = self.iters[a[0] as usize % NI].as_ref().unwrap();
                let left = i.cells.len() - i.pos;
                if l > left || h.map_or(false, |h| h < left) {
                    self.bad("C09", format!("size_hint {:?} excludes the true number of remaining cells {}", (l, h), left));
                }
            }
            Val::Count(n) => {
                let i = self.iters[a[0] as usize % NI].take().unwrap();
                self.dig.u(n as u64);
                let left = i.cells.len() - i.pos;
                if n != left {
                    self.bad("C09", format!("count() = {}, but {} cells remain", n, left));
                }
            }
            Val::Rest(v) => {
                let i = self.iters[a[0] as usize % NI].take().unwrap();
                self.dig.s(&v);
                if v != i.cells[i.pos..] {
                    self.bad("C09", format!("remaining cells came out as {}, expected {}", show(&v), show(&i.cells[i.pos..])));
                }
            }
            Val::Disp(ok, failed, after, text) => {
                let (list, n) = self.disp_list(&a).unwrap();
                self.dig.s(text.as_bytes());
                self.dig.b(ok as u8);
                let want = match self.disp_text(&list, n) {
                    Some(w) => w,
                    None => return,
                };
                // in messages: long texts from just before where they part
                let part = text.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let clip = |t: &str| {
                    let b = t.as_bytes();
                    let (from, to) = if b.len() < 400 { (0, b.len()) } else { (part.saturating_sub(60), b.len().min(part + 60)) };
                    format!("{}{:?}{} ({} bytes)", if from > 0 { ".." } else { "" }, String::from_utf8_lossy(&b[from.min(b.len())..to]), if to < b.len() { ".." } else { "" }, b.len())
                };
                if failed {
                    if ok {
                        self.bad("C10", format!("the writer failed after {} of {} but success was reported", clip(&text), clip(&want)));
                    } else if !want.starts_with(&text[..]) {
                        self.bad("C10", format!("the writer failed; {} was written, which is not a prefix of {}", clip(&text), clip(&want)));
                    } else if after {
                        self.bad("C10", format!("writing went on after the writer had failed ({} of {})", clip(&text), clip(&want)));
                    }
                } else if fault == Fault::None || !matches!(fault, Fault::AllocNth(_) | Fault::AllocFrom(_) | Fault::AllocOver(_)) {
                    if !ok {
                        self.bad("C10", format!("formatting reported failure although the writer took everything: {}", clip(&text)));
                    } else if text != want {
                        self.bad("C10", format!("wrote {}, expected {}", clip(&text), clip(&want)));
                    }
                } else if (ok && text != want) || !want.starts_with(&text[..]) {
                    self.bad("C10", format!("under failing allocations wrote {} (ok={}), expected {}", clip(&text), ok, clip(&want)));
                }
            }
            Val::Str(t) => {
                let s = self.src(a[0]).unwrap();
                self.dig.s(t.as_bytes());
                let w = name_of(dim, self.m(s), (a[1] % 3) as u8);
                if t != w {
                    self.bad("C02", format!("name {:?}, expected {:?}", t, w));
                }
            }
            Val::Grid(g) => {
                let s = self.src(a[0]).unwrap();
                let o = (a[1] % n_ord(dim) as u64) as u8;
                for x in g {
                    self.dig.u(x as u64);
                }
                let w = coords(dim, self.m(s), o);
                if g != w {
                    let m = format!("{} {} reports coordinates {:?} under ordering {}, expected {:?}", self.ix(s).kind().name(), show(self.m(s)), g, o, w);
                    self.bad("C02", m);
                }
            }
            Val::Bool(b) => self.dig.b(b as u8),
            Val::Ceil(b, c) => {
                self.dig.b(b as u8);
                self.dig.s(&c.unwrap_or_default());
            }
            Val::Seqs(seq, len) => {
                let n = a[0] as usize % NC;
                let c = self.colls[n].as_ref().unwrap();
                let want: Vec<Vec<u8>> = c.m.iter().cloned().collect();
                let mut got = seq;
                if !c.c.sorted() {
                    got.sort();
                }
                for g in &got {
                    self.dig.s(g);
                }
                let ok = got == want && len == want.len();
                self.stats.addn("collection_elements_checked", want.len() as u64);
                self.coll_check(
                    n,
                    ok,
                    format!(
                        "contains (in order) {:?}, expected {:?}",
                        got.iter().map(|c| show(c)).collect::<Vec<_>>(),
                        want.iter().map(|c| show(c)).collect::<Vec<_>>()
                    ),
                );
            }
            Val::Exp(names, grids) => {
                let s = self.src(a[0]).unwrap();
                let m = self.m(s).to_vec();
                for (n, t) in names.iter().enumerate() {
                    self.dig.s(t.as_bytes());
                    let w = name_of(dim, &m, n as u8);
                    if *t != w {
                        self.bad("C02", format!("{} {}: name {:?}, expected {:?}", self.ix(s).kind().name(), show(&m), t, w));
                    }
                }
                for (o, g) in grids.iter().enumerate() {
                    for x in g {
                        self.dig.u(*x as u64);
                    }
                    let w = coords(dim, &m, o as u8);
                    if *g != w {
                        self.bad("C02", format!("{} {}: coordinates {:?} under ordering {}, expected {:?}", self.ix(s).kind().name(), show(&m), g, o, w));
                    }
                }
                let o = (a[1] % n_ord(dim) as u64) as u8;
                let g = grids[o as usize];
                let len = format!("{} {} {:?}", o, m.len(), g).len() + 1;
                self.disk.push(Rec { cells: m, ord: o, g, len });
            }
        }
    }

    fn judge_cmp(&mut self, k: Kind, x: &[u8], y: &[u8], c: Cmp, h: Option<((u64, u64, u64), (u64, u64, u64))>) {
        self.dig.s(format!("{:?}{:?}", c, h).as_bytes());
        let same = x == y;
        let desc = |s: &str| format!("{}: {} and {}: {} ({:?})", k.name(), show(x), show(y), s, c);
        if c.eq != same || c.ne == same || c.deq != same {
            self.bad("C05", desc(if same { "same depth and cells but not equal" } else { "different but equal" }));
        }
        if (c.cmp == Ordering::Equal) != same || (c.pcmp == Some(Ordering::Equal)) != same || (c.le && c.ge) != same || (c.dcmp == Ordering::Equal) != same {
            self.bad("C05", desc("ordering disagrees with equality"));
        }
        if let (true, Some((a, b))) = (same, h) {
            if a != b {
                self.bad("C05", desc("equal but hash differently"));
            }
        }
        if same && !c.hash_lists {
            self.bad("C05", desc("equal but lists of them hash differently"));
        }
        let w = x.cmp(y);
        let lists = (same, w, Some(w), [w.is_lt(), w.is_le(), w.is_gt(), w.is_ge()]);
        if c.list != lists || c.head != Ordering::Less {
            self.bad(if same { "C05" } else { "C06" }, desc("lists of the two compare wrongly"));
        }
        let d = |z: &[u8]| cells_dig(z.iter().copied());
        if c.picked != [d(x.max(y)), d(x.min(y)), d(x)] {
            self.bad("C06", desc("wrong maximum, minimum or clamped value"));
        }
        let ok = c.cmp == w && c.pcmp == Some(w) && c.dcmp == w && c.lt == w.is_lt() && c.le == w.is_le() && c.gt == w.is_gt() && c.ge == w.is_ge();
        if !ok {
            self.bad("C06", desc("not in depth-first pre-order"));
        }
    }

    /// C02: power is lost. Of the log, what was synced survives plus some bytes after it; everything in
    /// memory is gone. Restart: read the surviving records back into every storage type with room.
    fn crash(&mut self, a: &[u64; 5]) {
        self.stats.add("fired_crash_restart");
        for i in 0..NI {
            self.iters[i] = None;
        }
        for i in 0..NS {
            self.slots[i] = None;
        }
        let tail: usize = self.disk[self.synced..].iter().map(|r| r.len).sum();
        let mut left = (a[0] as usize) % (tail + 1);
        let mut keep = self.synced;
        while keep < self.disk.len() && self.disk[keep].len <= left {
            left -= self.disk[keep].len;
            keep += 1;
        }
        if left > 0 {
            self.stats.add("torn_record_discarded");
        }
        self.stats.addn("records_lost", (self.disk.len() - keep) as u64);
        self.disk.truncate(keep);
        self.synced = keep;
        let recs: Vec<Rec> = self.disk.iter().rev().take(12).cloned().collect();
        let dim = self.dim();
        let mut r = Rng::new(a[1]);
        for (n, rec) in recs.iter().enumerate() {
            let mut ks = self.kinds.clone();
            ks.push(Kind { dim, st: St::D, w: 0 });
            for _ in 0..3 {
                ks.push(Kind { dim, st: if r.chance(1, 3) { St::F } else { St::S }, w: r.below(NW as usize) as u8 });
            }
            for k in ks {
                self.reimport(k, rec, n);
                if self.viol.is_some() {
                    return;
                }
            }
        }
    }

    fn reimport(&mut self, k: Kind, rec: &Rec, n: usize) {
        let d = rec.cells.len();
        let mut how = vec![];
        match k.st {
            St::F if k.max() != Some(d) => return,
            _ => how.push(Mk::Grid(rec.g, d, rec.ord)),
        }
        if k == (Kind { dim: 3, st: St::F, w: 3 }) {
            how.push(Mk::GridFast(rec.g, rec.ord));
        }
        for h in how {
            self.stats.add("records_reimported");
            let want = match k.max() {
                Some(m) if d > m => Want::Err(m),
                None if d > 32 => Want::CellsOrPanic(rec.cells.clone()),
                _ => Want::Cells(rec.cells.clone()),
            };
            let what = format!("after restart, import of {:?} at depth {} (ordering {}) into {}", &rec.g[..k.dim as usize], d, rec.ord, k.name());
            match (mk(k, &h), want) {
                (Err(Fail::Panic(_)), Want::CellsOrPanic(_)) => {}
                (Err(e), _) => self.bad("C02", format!("{} failed: {:?}", what, e)),
                (Ok(Out::Err(m)), Want::Err(w)) => {
                    if m != w {
                        self.bad("C02", format!("{}: refused naming capacity {}", what, m as isize));
                    }
                }
                (Ok(Out::Ok(x)), Want::Cells(w) | Want::CellsOrPanic(w)) => {
                    match observe(&*x) {
                        Ok(g) if g == w => {}
                        g => {
                            self.bad("C02", format!("{} gave {:?}, exported was {}", what, g.map(|x| show(&x)), show(&w)));
                            continue;
                        }
                    }
                    match mk(k, &Mk::Slice(w.clone())) {
                        Ok(Out::Ok(t)) => match (x.compare(&*t), x.hash(), t.hash()) {
                            (Ok(c), Ok(a), Ok(b)) if c.eq && !c.ne && c.cmp == Ordering::Equal && a == b => {}
                            c => self.bad("C02", format!("{} is not equal to the exported index ({:?})", what, c.0)),
                        },
                        _ => {}
                    }
                    self.put(n % NS, x, w);
                }
                (Ok(Out::Ok(x)), Want::Err(_)) => {
                    let g = observe(&*x).map(|x| show(&x));
                    self.bad("C02", format!("{}: no room, but it gave {:?}", what, g))
                }
                (Ok(_), _) => self.bad("C02", format!("{} was refused", what)),
            }
        }
    }

    /// the text a trace file carries: what is alive at the end
    pub fn drop_all(&mut self) {
        for i in 0..NI {
            self.iters[i] = None;
        }
        for i in 0..NS {
            self.slots[i] = None;
        }
        for i in 0..NC {
            self.colls[i] = None;
        }
    }
}

/// how far outside the index to read or write; sometimes not at all
fn a_over(x: u64) -> Option<usize> {
    match x % 6 {
        0 | 1 => None,
        2 => Some([256, 255, 257, 512, 65536, 65535, 1 << 32, usize::MAX][(x / 6 % 8) as usize]),
        3 => Some(0),
        _ => Some((x / 6 % 70) as usize),
    }
}
fn nth_arg(x: u64, left: usize) -> usize {
    match x % 6 {
        0 => 0,
        1 => left,
        2 => left.saturating_sub(1),
        3 => left + 1 + (x / 6 % 5) as usize,
        4 if x / 6 % 7 == 0 => usize::MAX - (x / 42 % 3) as usize,
        _ => (x / 6) as usize % (left + 1),
    }
}
pub fn name_of(dim: u8, cells: &[u8], n: u8) -> String {
    let dig: String = cells.iter().map(|c| (b'0' + c) as char).collect();
    match n {
        0 => dig,
        1 => format!("r{}", dig),
        _ => {
            let g = coords(dim, cells, 0);
            let mut s = format!("{}-{}-{}", cells.len(), g[0], g[1]);
            if dim == 3 {
                s += &format!("-{}", g[2]);
            }
            s
        }
    }
}
fn is_iter(o: Op) -> bool {
    matches!(o, Op::INext | Op::INth | Op::IHint | Op::ICount | Op::ILast | Op::IRest)
}
pub fn fault_name(f: Fault) -> &'static str {
    match f {
        Fault::None => "none",
        Fault::AllocNth(_) => "alloc_nth_fails",
        Fault::AllocFrom(_) => "heap_exhausted_from",
        Fault::AllocOver(_) => "large_alloc_fails",
        Fault::Storage(_) => "storage_access_panics",
        Fault::Preempt(_) => "preempted_inside_op",
        Fault::Stall(_) => "stalled_inside_op",
        Fault::PreemptAt(_) => "preempted_at_shared_access",
        Fault::StallAt(_) => "stalled_at_shared_access",
        Fault::Sink(..) => "sink",
        Fault::Reenter(_) => "reentered_by_caller_code",
    }
}
impl World {
    pub fn iters_drop(&mut self) {
        for i in 0..NI {
            self.iters[i] = None;
        }
    }
}

/// gives the stack below the caller, which the next operation uses for its locals, known contents
#[inline(never)]
fn fill_stack(b: u8) {
    let mut a = std::mem::MaybeUninit::<[u8; 48 << 10]>::uninit();
    unsafe { std::ptr::write_bytes(a.as_mut_ptr() as *mut u8, b, 48 << 10) };
    std::hint::black_box(&a);
}

//! The system under test behind one object-safe interface. Library code only ever runs inside
//! `ctl::lib(..)`; everything else here is harness code (no faults, no stepping, untagged memory).
use crate::ctl::{harness, lib, R};
use morton_index::dimensions::{Octant, OctantOrdering, Quadrant, QuadrantOrdering};
use morton_index::*;
use nalgebra::{Vector2, Vector3};
use std::any::Any;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::num::NonZeroUsize;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    F,
    S,
    D,
}
/// dimension, storage, width (index into WIDTHS; 0 for dynamic)
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Kind {
    pub dim: u8,
    pub st: St,
    pub w: u8,
}
#[cfg(feature = "simbits")]
pub const NW: u8 = 9;
#[cfg(not(feature = "simbits"))]
pub const NW: u8 = 6;
pub const WIDTHS: [(&str, usize); 9] =
    [("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("us", 64), ("sb8", 8), ("sb32", 32), ("sb128", 128)];

impl Kind {
    pub fn name(&self) -> String {
        match self.st {
            St::D => format!("{}dyn", self.dim),
            s => format!("{}{}{}", self.dim, if s == St::F { "fix" } else { "sta" }, WIDTHS[self.w as usize].0),
        }
    }
    pub fn parse(s: &str) -> Option<Kind> {
        let dim = match s.as_bytes().first()? {
            b'2' => 2,
            b'3' => 3,
            _ => return None,
        };
        if &s[1..] == "dyn" {
            return Some(Kind { dim, st: St::D, w: 0 });
        }
        let st = match s.get(1..4)? {
            "fix" => St::F,
            "sta" => St::S,
            _ => return None,
        };
        let w = WIDTHS.iter().position(|x| x.0 == &s[4..])? as u8;
        if w >= NW {
            return None;
        }
        Some(Kind { dim, st, w })
    }
    /// capacity in levels; None = unlimited
    pub fn max(&self) -> Option<usize> {
        match self.st {
            St::D => None,
            _ => Some(WIDTHS[self.w as usize].1 / self.dim as usize),
        }
    }
    pub fn ncells(&self) -> u8 {
        1 << self.dim
    }
    pub fn var(&self) -> bool {
        self.st != St::F
    }
    pub fn user_bits(&self) -> bool {
        self.st != St::D && self.w >= 6
    }
}

pub trait Cellx: Copy + Send + Sync + 'static {
    fn of(u: u8) -> Self;
    fn ix(self) -> u8;
}
impl Cellx for Quadrant {
    fn of(u: u8) -> Self {
        [Quadrant::Zero, Quadrant::One, Quadrant::Two, Quadrant::Three][(u & 3) as usize]
    }
    fn ix(self) -> u8 {
        match self {
            Quadrant::Zero => 0,
            Quadrant::One => 1,
            Quadrant::Two => 2,
            Quadrant::Three => 3,
        }
    }
}
impl Cellx for Octant {
    fn of(u: u8) -> Self {
        use Octant::*;
        [Zero, One, Two, Three, Four, Five, Six, Seven][(u & 7) as usize]
    }
    fn ix(self) -> u8 {
        match self {
            Octant::Zero => 0,
            Octant::One => 1,
            Octant::Two => 2,
            Octant::Three => 3,
            Octant::Four => 4,
            Octant::Five => 5,
            Octant::Six => 6,
            Octant::Seven => 7,
        }
    }
}
fn cellv<C: Cellx>(c: &[u8]) -> Vec<C> {
    c.iter().map(|x| C::of(*x)).collect()
}

/// number of axis orderings; which bit of the cell number each axis takes, per ordering
pub fn n_ord(dim: u8) -> u8 {
    if dim == 2 {
        2
    } else {
        6
    }
}
pub fn axis_bits(dim: u8, ord: u8) -> [u8; 3] {
    if dim == 2 {
        [[0, 1, 9], [1, 0, 9]][(ord % 2) as usize]
    } else {
        // XYZ XZY YXZ YZX ZXY ZYX: bit of the cell number that x, y, z take
        [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]][(ord % 6) as usize]
    }
}
fn qord(o: u8) -> QuadrantOrdering {
    if o % 2 == 0 {
        QuadrantOrdering::XY
    } else {
        QuadrantOrdering::YX
    }
}
fn oord(o: u8) -> OctantOrdering {
    use OctantOrdering::*;
    [XYZ, XZY, YXZ, YZX, ZXY, ZYX][(o % 6) as usize]
}
fn naming(n: u8) -> MortonIndexNaming {
    match n % 3 {
        0 => MortonIndexNaming::CellConcatenation,
        1 => MortonIndexNaming::CellConcatenationWithRoot,
        _ => MortonIndexNaming::GridIndex,
    }
}

/// ways to make an index directly
#[derive(Clone, Debug)]
pub enum Mk {
    Slice(Vec<u8>),
    Array(Vec<u8>),
    Default,
    Zeroed(usize),
    Grid([usize; 3], usize, u8),
    GridFast([usize; 3], u8),
    Raw(u128, u8),
}
pub enum Out {
    Ok(Box<dyn Idx>),
    None,
    /// DepthLimitedExceeded{max_depth}; usize::MAX for another error
    Err(usize),
    /// this type has no such operation
    Na,
}
fn out<T: Idx + 'static>(o: Option<T>) -> Out {
    match o {
        Some(t) => Out::Ok(Box::new(t)),
        None => Out::None,
    }
}
fn oute<T: Idx + 'static>(o: std::result::Result<T, morton_index::Error>) -> Out {
    match o {
        Ok(t) => Out::Ok(Box::new(t)),
        Err(morton_index::Error::DepthLimitedExceeded { max_depth }) => Out::Err(max_depth),
        #[allow(unreachable_patterns)]
        Err(_) => Out::Err(usize::MAX),
    }
}

pub trait CellIt {
    fn next(&mut self) -> R<Option<u8>>;
    fn nth(&mut self, n: usize) -> R<Option<u8>>;
    fn hint(&self) -> R<(usize, Option<usize>)>;
    fn count(self: Box<Self>) -> R<usize>;
    fn last(self: Box<Self>) -> R<Option<u8>>;
    /// the remaining cells, by internal iteration; never more than `cap`
    fn rest(self: Box<Self>, cap: usize, mode: u8) -> R<Vec<u8>>;
}
struct It<I>(I);
impl<I: Iterator> CellIt for It<I>
where
    I::Item: Cellx,
{
    fn next(&mut self) -> R<Option<u8>> {
        lib(|| self.0.next()).map(|o| o.map(|c| c.ix()))
    }
    fn nth(&mut self, n: usize) -> R<Option<u8>> {
        lib(|| self.0.nth(n)).map(|o| o.map(|c| c.ix()))
    }
    fn hint(&self) -> R<(usize, Option<usize>)> {
        lib(|| self.0.size_hint())
    }
    fn count(self: Box<Self>) -> R<usize> {
        lib(move || self.0.count())
    }
    fn last(self: Box<Self>) -> R<Option<u8>> {
        lib(move || self.0.last()).map(|o| o.map(|c| c.ix()))
    }
    fn rest(self: Box<Self>, cap: usize, mode: u8) -> R<Vec<u8>> {
        let mut v = Vec::with_capacity(cap);
        let mut it = self.0;
        match mode % 4 {
            0 => lib(|| it.take(cap).for_each(|c| v.push(c.ix())))?,
            1 => lib(|| {
                it.fold(0usize, |n, c| {
                    if n >= cap {
                        panic!("no end");
                    }
                    v.push(c.ix());
                    n + 1
                });
            })?,
            2 => lib(|| {
                while let Some(c) = it.next() {
                    v.push(c.ix());
                    if v.len() == cap {
                        break;
                    }
                }
            })?,
            _ => lib(|| {
                it.try_for_each(|c| {
                    v.push(c.ix());
                    if v.len() == cap {
                        Err(())
                    } else {
                        Ok(())
                    }
                })
                .ok();
            })?,
        }
        Ok(v)
    }
}

/// records everything fed to it: which Hasher method, which bytes
pub struct RecHasher {
    pub a: u64,
    pub b: u64,
    pub n: u64,
}
impl RecHasher {
    pub fn new() -> Self {
        RecHasher { a: 0xcbf29ce484222325, b: 0x9E3779B97F4A7C15, n: 0 }
    }
    fn rec(&mut self, tag: u8, bytes: &[u8]) {
        harness(|| {
            crate::ctl::visit_point();
            for x in [tag, bytes.len() as u8].iter().chain(bytes) {
                self.a = (self.a ^ *x as u64).wrapping_mul(0x100000001B3);
                self.b = crate::rng::mix(self.b ^ *x as u64);
            }
            self.n += 1;
        })
    }
}
macro_rules! rec { ($($f:ident $t:ty => $tag:expr),*) => { $(fn $f(&mut self, x: $t) { self.rec($tag, &x.to_le_bytes()) })* } }
impl Hasher for RecHasher {
    fn finish(&self) -> u64 {
        self.a ^ self.b
    }
    fn write(&mut self, b: &[u8]) {
        self.rec(0, b)
    }
    rec!(write_u8 u8 => 1, write_u16 u16 => 2, write_u32 u32 => 3, write_u64 u64 => 4, write_u128 u128 => 5, write_usize usize => 6,
         write_i8 i8 => 7, write_i16 i16 => 8, write_i32 i32 => 9, write_i64 i64 => 10, write_i128 i128 => 11, write_isize isize => 12);
}

/// the hash function of a simulated HashSet; some seeds collide on purpose
#[derive(Clone)]
pub struct SeedHash(pub u64);
pub struct SeedHasher(u64, u64);
impl BuildHasher for SeedHash {
    type Hasher = SeedHasher;
    fn build_hasher(&self) -> SeedHasher {
        SeedHasher(crate::rng::mix(self.0), self.0)
    }
}
impl Hasher for SeedHasher {
    fn finish(&self) -> u64 {
        match self.1 % 5 {
            0 => self.0 % 4,
            1 => 7,
            _ => self.0,
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001B3).rotate_left(9);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cmp {
    pub eq: bool,
    pub ne: bool,
    pub cmp: Ordering,
    pub pcmp: Option<Ordering>,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
    /// the same two, through the displayable wrapper
    pub deq: bool,
    pub dcmp: Ordering,
    /// lists of them, through the displayable wrapper: [a, b] with [b, a], and [a] with [a, b]
    pub list: (bool, Ordering, Option<Ordering>, [bool; 4]),
    pub head: Ordering,
    /// hashing [a, b] and [b, a] as slices feeds the same
    pub hash_lists: bool,
    /// cells of a.max(b), a.min(b) and a.clamp(min, max), see `cells_dig`
    pub picked: [u64; 3],
}
pub fn cells_dig(cells: impl Iterator<Item = u8>) -> u64 {
    let mut d = crate::rng::Dig::new();
    for c in cells {
        d.b(c)
    }
    d.0
}

pub trait Coll {
    fn insert(&mut self, x: &dyn Idx) -> R<bool>;
    fn remove(&mut self, x: &dyn Idx) -> R<bool>;
    fn has(&self, x: &dyn Idx) -> R<bool>;
    fn len(&self) -> usize;
    /// all elements, in the collection's iteration order
    fn seq(&self) -> R<Vec<Vec<u8>>>;
    /// least element not before x (sorted collections)
    fn ceil(&self, x: &dyn Idx) -> R<Option<Vec<u8>>>;
    fn sorted(&self) -> bool;
}

pub struct Ix<T>(pub T);
// The simulator shares indices between threads whatever their auto traits say; a type that is not really
// thread-safe is then caught by its behaviour.
unsafe impl<T> Send for Ix<T> {}
unsafe impl<T> Sync for Ix<T> {}

pub trait Idx: Send + Sync {
    fn kind(&self) -> Kind;
    fn any(&self) -> &dyn Any;
    fn any_box(self: Box<Self>) -> Box<dyn Any>;
    fn depth(&self) -> R<usize>;
    fn get(&self, l: usize) -> R<u8>;
    fn get_unchecked(&self, l: usize) -> R<u8>;
    fn set(&mut self, l: usize, c: u8) -> R<()>;
    fn set_unchecked(&mut self, l: usize, c: u8) -> R<()>;
    fn iter<'a>(&'a self) -> R<Box<dyn CellIt + 'a>>;
    fn name(&self, n: u8) -> R<String>;
    fn grid(&self, ord: u8) -> R<[usize; 3]>;
    fn inverted(&self) -> R<Box<dyn Idx>>;
    fn dup(&self) -> R<Box<dyn Idx>>;
    /// copies `src` over this index
    fn copy_over(&mut self, src: &dyn Idx) -> R<()>;
    /// duplicate without going through faults (used to feed consuming operations)
    fn dup_quiet(&self) -> Box<dyn Idx>;
    fn ancestor(&self, g: usize) -> R<Out>;
    fn parent(&self) -> R<Out>;
    fn with_depth(&self, d: usize) -> R<Out>;
    fn descendant(&self, c: &[u8]) -> R<Out>;
    fn child(&self, c: u8) -> R<Out>;
    fn convert(self: Box<Self>, to: Kind) -> R<Out>;
    fn compare(&self, o: &dyn Idx) -> R<Cmp>;
    fn hash(&self) -> R<(u64, u64, u64)>;
    fn display(&self, rest: &[&dyn Idx], n: u8, how: u8, w: &mut dyn std::fmt::Write) -> R<bool>;
    fn new_coll(&self, which: u8, seed: u64) -> Box<dyn Coll>;
}

fn cast<T: 'static>(x: &dyn Idx) -> &T {
    &x.any().downcast_ref::<Ix<T>>().expect("kind mismatch").0
}
fn cells_of<T: MortonIndex + 'static>(t: &T) -> Vec<u8>
where
    <T::Dimension as dimensions::Dimension>::Cell: Cellx,
{
    (0..t.depth()).map(|l| t.get_cell_at_level(l).ix()).collect()
}

pub trait Node: MortonIndex<Dimension = <Self as Node>::D> + Clone + 'static {
    type D: dimensions::Dimension<Cell = <Self as Node>::C>;
    type C: Cellx;
}
struct Tree<T: Node>(BTreeSet<T>);
struct Hashed<T: Node>(HashSet<T, SeedHash>);
/// sorted vector: false = kept sorted by binary search, true = appended and sorted on demand
struct Sorted<T: Node>(Vec<T>, bool);

impl<T: Node> Coll for Tree<T> {
    fn insert(&mut self, x: &dyn Idx) -> R<bool> {
        let t = cast::<T>(x).clone();
        lib(|| self.0.insert(t))
    }
    fn remove(&mut self, x: &dyn Idx) -> R<bool> {
        lib(|| self.0.remove(cast::<T>(x)))
    }
    fn has(&self, x: &dyn Idx) -> R<bool> {
        lib(|| self.0.contains(cast::<T>(x)))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn seq(&self) -> R<Vec<Vec<u8>>> {
        lib(|| harness(|| self.0.iter().map(cells_of).collect()))
    }
    fn ceil(&self, x: &dyn Idx) -> R<Option<Vec<u8>>> {
        lib(|| self.0.range(cast::<T>(x)..).next()).map(|o| o.map(cells_of))
    }
    fn sorted(&self) -> bool {
        true
    }
}
impl<T: Node> Coll for Hashed<T> {
    fn insert(&mut self, x: &dyn Idx) -> R<bool> {
        let t = cast::<T>(x).clone();
        lib(|| self.0.insert(t))
    }
    fn remove(&mut self, x: &dyn Idx) -> R<bool> {
        lib(|| self.0.remove(cast::<T>(x)))
    }
    fn has(&self, x: &dyn Idx) -> R<bool> {
        lib(|| self.0.contains(cast::<T>(x)))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn seq(&self) -> R<Vec<Vec<u8>>> {
        lib(|| harness(|| self.0.iter().map(cells_of).collect()))
    }
    fn ceil(&self, _x: &dyn Idx) -> R<Option<Vec<u8>>> {
        Ok(None)
    }
    fn sorted(&self) -> bool {
        false
    }
}
impl<T: Node> Coll for Sorted<T> {
    fn insert(&mut self, x: &dyn Idx) -> R<bool> {
        let t = cast::<T>(x).clone();
        lib(|| {
            if self.1 {
                if self.0.contains(&t) {
                    return false;
                }
                self.0.push(t);
                self.0.sort();
                return true;
            }
            match self.0.binary_search(&t) {
                Ok(_) => false,
                Err(i) => {
                    self.0.insert(i, t);
                    true
                }
            }
        })
    }
    fn remove(&mut self, x: &dyn Idx) -> R<bool> {
        lib(|| match self.0.binary_search(cast::<T>(x)) {
            Ok(i) => {
                self.0.remove(i);
                true
            }
            Err(_) => false,
        })
    }
    fn has(&self, x: &dyn Idx) -> R<bool> {
        lib(|| self.0.binary_search(cast::<T>(x)).is_ok())
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn seq(&self) -> R<Vec<Vec<u8>>> {
        lib(|| harness(|| self.0.iter().map(cells_of).collect()))
    }
    fn ceil(&self, x: &dyn Idx) -> R<Option<Vec<u8>>> {
        lib(|| self.0.partition_point(|e| e < cast::<T>(x))).map(|i| self.0.get(i).map(cells_of))
    }
    fn sorted(&self) -> bool {
        true
    }
}

// ---- per-kind pieces that differ -----------------------------------------------------------------

/// creation by `Mk`
pub trait Fac: Sized {
    fn mk(m: &Mk) -> R<Out>;
}
/// storage bits usable by the simulator
pub trait BB: FixedStorageType + Send + Sync + 'static {
    const W: u8;
}
impl BB for u8 {
    const W: u8 = 0;
}
impl BB for u16 {
    const W: u8 = 1;
}
impl BB for u32 {
    const W: u8 = 2;
}
impl BB for u64 {
    const W: u8 = 3;
}
impl BB for u128 {
    const W: u8 = 4;
}
impl BB for usize {
    const W: u8 = 5;
}
#[cfg(feature = "simbits")]
impl BB for crate::bits::SB<u8> {
    const W: u8 = 6;
}
#[cfg(feature = "simbits")]
impl BB for crate::bits::SB<u32> {
    const W: u8 = 7;
}
#[cfg(feature = "simbits")]
impl BB for crate::bits::SB<u128> {
    const W: u8 = 8;
}

macro_rules! by_w {
    ($w:expr, $B:ident => $e:expr) => {
        match $w {
            0 => { type $B = u8; $e }
            1 => { type $B = u16; $e }
            2 => { type $B = u32; $e }
            3 => { type $B = u64; $e }
            4 => { type $B = u128; $e }
            5 => { type $B = usize; $e }
            #[cfg(feature = "simbits")]
            6 => { type $B = crate::bits::SB<u8>; $e }
            #[cfg(feature = "simbits")]
            7 => { type $B = crate::bits::SB<u32>; $e }
            #[cfg(feature = "simbits")]
            8 => { type $B = crate::bits::SB<u128>; $e }
            _ => unreachable!(),
        }
    };
}

macro_rules! arr {
    ($c:expr, $C:ty, $T:ty) => {
        arr!(@ $c, $C, $T, 0 1 2 3 4 5 8 9 10 11 16 17 21 22 32 33 42 43 64 65 100)
    };
    (@ $c:expr, $C:ty, $T:ty, $($n:literal)*) => {
        match $c.len() {
            $( $n => {
                let v: Vec<$C> = cellv($c);
                let a: [$C; $n] = v[..].try_into().unwrap();
                oute(lib(|| <$T>::try_from(a))?.map(Ix))
            } )*
            _ => {
                let v: Vec<$C> = cellv($c);
                oute(lib(|| <$T>::try_from(&v[..]))?.map(Ix))
            }
        }
    };
}

macro_rules! common {
    ($T:ty, $C:ty, $Nm:path) => {
        fn any(&self) -> &dyn Any {
            self
        }
        fn any_box(self: Box<Self>) -> Box<dyn Any> {
            self
        }
        fn depth(&self) -> R<usize> {
            lib(|| self.0.depth())
        }
        fn get(&self, l: usize) -> R<u8> {
            lib(|| self.0.get_cell_at_level(l)).map(|c| c.ix())
        }
        fn get_unchecked(&self, l: usize) -> R<u8> {
            lib(|| unsafe { self.0.get_cell_at_level_unchecked(l) }).map(|c| c.ix())
        }
        fn set(&mut self, l: usize, c: u8) -> R<()> {
            let c = <$C>::of(c);
            lib(|| self.0.set_cell_at_level(l, c))
        }
        fn set_unchecked(&mut self, l: usize, c: u8) -> R<()> {
            let c = <$C>::of(c);
            lib(|| unsafe { self.0.set_cell_at_level_unchecked(l, c) })
        }
        fn iter<'a>(&'a self) -> R<Box<dyn CellIt + 'a>> {
            let i = lib(|| self.0.cells())?;
            Ok(Box::new(It(i)))
        }
        fn name(&self, n: u8) -> R<String> {
            let s = lib(|| MortonIndex::to_string(&self.0, naming(n)))?;
            Ok(String::from(&s[..]))
        }
        fn inverted(&self) -> R<Box<dyn Idx>> {
            let t = lib(|| self.0.inverted())?;
            Ok(Box::new(Ix(t)))
        }
        fn dup(&self) -> R<Box<dyn Idx>> {
            let t = lib(|| self.0.clone())?;
            Ok(Box::new(Ix(t)))
        }
        fn copy_over(&mut self, src: &dyn Idx) -> R<()> {
            let s = cast::<$T>(src);
            lib(|| self.0.clone_from(s))
        }
        fn dup_quiet(&self) -> Box<dyn Idx> {
            Box::new(Ix(self.0.clone()))
        }
        fn compare(&self, o: &dyn Idx) -> R<Cmp> {
            let o: &$T = cast(o);
            let s = &self.0;
            let v = [s.clone(), o.clone(), s.clone()];
            let (p, q, r) = ((s.clone(), o.clone()), (s.clone(), o.clone()), s.clone());
            lib(|| {
                let (a, b) = (std::slice::from_ref(s), std::slice::from_ref(o));
                let seq = |x: &$T| cells_dig((0..x.depth()).map(|l| x.get_cell_at_level(l).ix()));
                let (max, min) = (Ord::max(p.0, p.1), Ord::min(q.0, q.1));
                let m = [seq(&max), seq(&min)];
                let mid = if max < min { m[0] } else { seq(&Ord::clamp(r, min, max)) };
                let n = MortonIndexNaming::CellConcatenation;
                let (da, db) = (helper::make_displayable(a, n), helper::make_displayable(b, n));
                let (la, lb) = (helper::make_displayable(&v[..2], n), helper::make_displayable(&v[1..], n));
                let (mut ha, mut hb) = (RecHasher::new(), RecHasher::new());
                Hash::hash_slice(&v[..2], &mut ha);
                Hash::hash_slice(&v[1..], &mut hb);
                Cmp {
                    list: (la == lb && !(la != lb), la.cmp(&lb), la.partial_cmp(&lb), [la < lb, la <= lb, la > lb, la >= lb]),
                    head: da.cmp(&la),
                    hash_lists: (ha.a, ha.b, ha.n) == (hb.a, hb.b, hb.n),
                    picked: [m[0], m[1], mid],
                    eq: s == o,
                    ne: s != o,
                    cmp: s.cmp(o),
                    pcmp: s.partial_cmp(o),
                    lt: s < o,
                    le: s <= o,
                    gt: s > o,
                    ge: s >= o,
                    deq: da == db,
                    dcmp: da.cmp(&db),
                }
            })
        }
        fn hash(&self) -> R<(u64, u64, u64)> {
            let mut h = RecHasher::new();
            lib(|| Hash::hash(&self.0, &mut h))?;
            Ok((h.a, h.b, h.n))
        }
        fn display(&self, rest: &[&dyn Idx], n: u8, how: u8, mut w: &mut dyn std::fmt::Write) -> R<bool> {
            let mut v: Vec<$T> = Vec::with_capacity(rest.len());
            for r in rest {
                v.push(cast::<$T>(*r).clone());
            }
            lib(|| {
                let d = helper::make_displayable(&v, naming(n));
                match how % 12 {
                    0 => std::fmt::write(&mut w, format_args!("{:#}", d)),
                    1 => std::fmt::write(&mut w, format_args!("{:#?}", d)),
                    2 => std::fmt::write(&mut w, format_args!("{:>30}", d)),
                    3 => std::fmt::write(&mut w, format_args!("{:<9.3?}", d)),
                    4 => std::fmt::write(&mut w, format_args!("{:.1}", d)),
                    5 => std::fmt::write(&mut w, format_args!("{:+09?}", d)),
                    6 | 8 | 10 => std::fmt::write(&mut w, format_args!("{}", d)),
                    _ => std::fmt::write(&mut w, format_args!("{:?}", d)),
                }
                .is_ok()
            })
        }
        fn new_coll(&self, which: u8, seed: u64) -> Box<dyn Coll> {
            match which % 4 {
                0 => Box::new(Tree::<$T>(BTreeSet::new())),
                1 => Box::new(Hashed::<$T>(HashSet::with_hasher(SeedHash(seed)))),
                2 => Box::new(Sorted::<$T>(vec![], false)),
                _ => Box::new(Sorted::<$T>(vec![], true)),
            }
        }
    };
}

macro_rules! novar {
    () => {
        fn ancestor(&self, _g: usize) -> R<Out> {
            Ok(Out::Na)
        }
        fn parent(&self) -> R<Out> {
            Ok(Out::Na)
        }
        fn with_depth(&self, _d: usize) -> R<Out> {
            Ok(Out::Na)
        }
        fn descendant(&self, _c: &[u8]) -> R<Out> {
            Ok(Out::Na)
        }
        fn child(&self, _c: u8) -> R<Out> {
            Ok(Out::Na)
        }
    };
}
macro_rules! var {
    ($C:ty) => {
        fn ancestor(&self, g: usize) -> R<Out> {
            let g = NonZeroUsize::new(g.max(1)).unwrap();
            Ok(out(lib(|| self.0.ancestor(g))?.map(Ix)))
        }
        fn parent(&self) -> R<Out> {
            Ok(out(lib(|| self.0.parent())?.map(Ix)))
        }
        fn with_depth(&self, d: usize) -> R<Out> {
            Ok(out(lib(|| self.0.with_depth(d))?.map(Ix)))
        }
        fn descendant(&self, c: &[u8]) -> R<Out> {
            let v: Vec<$C> = cellv(c);
            Ok(out(lib(|| self.0.descendant(&v))?.map(Ix)))
        }
        fn child(&self, c: u8) -> R<Out> {
            let c = <$C>::of(c);
            Ok(out(lib(|| self.0.child(c))?.map(Ix)))
        }
    };
}

macro_rules! dimension {
    ($m:ident, $DIM:expr, $Dim:ident, $MI:ident, $F:ident, $S:ident, $Dy:ident, $C:ident, $ordf:ident,
     |$g:ident| $vec:expr, |$gv:ident| $unvec:expr, $fraw:expr, $sraw:expr, $fast:expr) => {
        pub mod $m {
            use super::*;
            use morton_index::dimensions::$Dim;
            pub type Fx<B> = $MI<$F<B>>;
            pub type Sx<B> = $MI<$S<B>>;
            pub type Dx = $MI<$Dy>;
            impl<B: BB> Node for Fx<B> {
                type D = $Dim;
                type C = $C;
            }
            impl<B: BB> Node for Sx<B> {
                type D = $Dim;
                type C = $C;
            }
            impl Node for Dx {
                type D = $Dim;
                type C = $C;
            }
            fn gridv($g: &[usize; 3]) -> <$Dim as dimensions::Dimension>::GridIndex {
                $vec
            }
            fn ungrid($gv: <$Dim as dimensions::Dimension>::GridIndex) -> [usize; 3] {
                $unvec
            }

            impl<B: BB> Idx for Ix<Fx<B>> {
                common!(Fx<B>, $C, n);
                novar!();
                fn kind(&self) -> Kind {
                    Kind { dim: $DIM, st: St::F, w: B::W }
                }
                fn grid(&self, ord: u8) -> R<[usize; 3]> {
                    lib(|| self.0.to_grid_index($ordf(ord))).map(ungrid)
                }
                fn convert(self: Box<Self>, to: Kind) -> R<Out> {
                    let v = self.0;
                    Ok(match to.st {
                        St::S if to.w == B::W => Out::Ok(Box::new(Ix(lib(move || Sx::<B>::from(v))?))),
                        St::D => Out::Ok(Box::new(Ix(lib(move || Dx::from(v))?))),
                        _ => Out::Na,
                    })
                }
            }
            impl<B: BB> Idx for Ix<Sx<B>> {
                common!(Sx<B>, $C, n);
                var!($C);
                fn kind(&self) -> Kind {
                    Kind { dim: $DIM, st: St::S, w: B::W }
                }
                fn grid(&self, ord: u8) -> R<[usize; 3]> {
                    lib(|| self.0.to_grid_index($ordf(ord))).map(ungrid)
                }
                fn convert(self: Box<Self>, to: Kind) -> R<Out> {
                    let v = self.0;
                    Ok(match to.st {
                        St::F if to.w == B::W => Out::Ok(Box::new(Ix(lib(move || Fx::<B>::from(v))?))),
                        St::D => Out::Ok(Box::new(Ix(lib(move || Dx::from(v))?))),
                        _ => Out::Na,
                    })
                }
            }
            impl Idx for Ix<Dx> {
                common!(Dx, $C, n);
                var!($C);
                fn kind(&self) -> Kind {
                    Kind { dim: $DIM, st: St::D, w: 0 }
                }
                fn grid(&self, ord: u8) -> R<[usize; 3]> {
                    lib(|| self.0.to_grid_index($ordf(ord))).map(ungrid)
                }
                fn convert(self: Box<Self>, to: Kind) -> R<Out> {
                    let v = self.0;
                    Ok(match to.st {
                        St::F => by_w!(to.w, B => oute(lib(move || Fx::<B>::try_from(v))?.map(Ix))),
                        St::S => by_w!(to.w, B => oute(lib(move || Sx::<B>::try_from(v))?.map(Ix))),
                        St::D => Out::Na,
                    })
                }
            }
            impl<B: BB> Fac for Fx<B> {
                fn mk(m: &Mk) -> R<Out> {
                    Ok(match m {
                        Mk::Slice(c) => {
                            let v: Vec<$C> = cellv(c);
                            oute(lib(|| Self::try_from(&v[..]))?.map(Ix))
                        }
                        Mk::Array(c) => arr!(c, $C, Self),
                        Mk::Default => Out::Ok(Box::new(Ix(lib(|| Self::default())?))),
                        Mk::Grid(g, _, o) => Out::Ok(Box::new(Ix(lib(|| Self::from_grid_index(gridv(g), $ordf(*o)))?))),
                        Mk::GridFast(g, o) => $fast(g, *o),
                        Mk::Raw(b, _) => $fraw(unsafe { B::from_u128(*b) })?,
                        _ => Out::Na,
                    })
                }
            }
            impl<B: BB> Fac for Sx<B> {
                fn mk(m: &Mk) -> R<Out> {
                    Ok(match m {
                        Mk::Slice(c) => {
                            let v: Vec<$C> = cellv(c);
                            oute(lib(|| Self::try_from(&v[..]))?.map(Ix))
                        }
                        Mk::Array(c) => arr!(c, $C, Self),
                        Mk::Default => Out::Ok(Box::new(Ix(lib(|| Self::default())?))),
                        Mk::Zeroed(d) => out(lib(|| Self::zeroed(*d as u8))?.map(Ix)),
                        Mk::Grid(g, d, o) => oute(lib(|| Self::from_grid_index(gridv(g), *d, $ordf(*o)))?.map(Ix)),
                        Mk::Raw(b, d) => $sraw(unsafe { B::from_u128(*b) }, *d)?,
                        _ => Out::Na,
                    })
                }
            }
            impl Fac for Dx {
                fn mk(m: &Mk) -> R<Out> {
                    Ok(match m {
                        Mk::Slice(c) => {
                            let v: Vec<$C> = cellv(c);
                            oute(lib(|| Self::try_from(&v[..]))?.map(Ix))
                        }
                        Mk::Array(c) => arr!(c, $C, Self),
                        Mk::Default => Out::Ok(Box::new(Ix(lib(|| Self::default())?))),
                        Mk::Zeroed(d) => Out::Ok(Box::new(Ix(lib(|| Self::zeroed(*d))?))),
                        Mk::Grid(g, d, o) => Out::Ok(Box::new(Ix(lib(|| Self::from_grid_index(gridv(g), *d, $ordf(*o)))?))),
                        _ => Out::Na,
                    })
                }
            }
            pub fn mk(k: Kind, m: &Mk) -> R<Out> {
                match k.st {
                    St::F => by_w!(k.w, B => Fx::<B>::mk(m)),
                    St::S => by_w!(k.w, B => Sx::<B>::mk(m)),
                    St::D => Dx::mk(m),
                }
            }
        }
    };
}

fn fraw3<B: BB>(b: B) -> R<Out> {
    Ok(Out::Ok(Box::new(Ix(lib(|| MortonIndex3D::<FixedDepthStorage3D<B>>::from_raw_index(b))?))))
}
fn sraw3<B: BB>(b: B, d: u8) -> R<Out> {
    Ok(Out::Ok(Box::new(Ix(lib(|| MortonIndex3D::<StaticStorage3D<B>>::from_raw_index(b, d))?))))
}

dimension!(d2, 2, Dim2D, MortonIndex2D, FixedDepthStorage2D, StaticStorage2D, DynamicStorage2D, Quadrant, qord,
    |g| Vector2::new(g[0], g[1]), |v| [v.x, v.y, 0],
    |_b| -> R<Out> { Ok(Out::Na) }, |_b, _d| -> R<Out> { Ok(Out::Na) }, |_g: &[usize; 3], _o: u8| Out::Na);
dimension!(d3, 3, Dim3D, MortonIndex3D, FixedDepthStorage3D, StaticStorage3D, DynamicStorage3D, Octant, oord,
    |g| Vector3::new(g[0], g[1], g[2]), |v| [v.x, v.y, v.z],
    fraw3::<B>, sraw3::<B>, |_g: &[usize; 3], _o: u8| Out::Na);

pub fn mk(k: Kind, m: &Mk) -> R<Out> {
    if let (Mk::GridFast(g, o), 3, St::F, 3) = (m, k.dim, k.st, k.w) {
        type T = MortonIndex3D<FixedDepthStorage3D<u64>>;
        let t = lib(|| T::from_grid_index_fast(Vector3::new(g[0], g[1], g[2]), oord(*o)))?;
        return Ok(Out::Ok(Box::new(Ix(t))));
    }
    if k.dim == 2 {
        d2::mk(k, m)
    } else {
        d3::mk(k, m)
    }
}

/// whether the type system lets indices of this kind be handed to and read from other threads
pub fn crosses_threads(k: Kind) -> bool {
    struct Probe<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    trait Not {
        const OK: bool = false;
    }
    impl<T> Not for Probe<T> {}
    #[allow(dead_code)]
    impl<T: Send + Sync> Probe<T> {
        const OK: bool = true;
    }
    match (k.dim, k.st) {
        (2, St::F) => by_w!(k.w, B => Probe::<d2::Fx<B>>::OK),
        (2, St::S) => by_w!(k.w, B => Probe::<d2::Sx<B>>::OK),
        (2, St::D) => Probe::<d2::Dx>::OK,
        (_, St::F) => by_w!(k.w, B => Probe::<d3::Fx<B>>::OK),
        (_, St::S) => by_w!(k.w, B => Probe::<d3::Sx<B>>::OK),
        (_, St::D) => Probe::<d3::Dx>::OK,
    }
}

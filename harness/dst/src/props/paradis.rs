//! B01-B03: parallel access to disjoint subsets.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::{DisjointSubsets, ParallelIndexedAccess, ParallelIndexedCollection};
use fenris_sparse::ParallelCsrRowCollection;
use nalgebra_sparse::CsrMatrix;
use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, ParallelIterator};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

const REAL: &str = "fenris-paradis (DisjointSubsets, its parallel iterator, SubsetAccess, BlockAdapter, slice access), fenris-sparse (ParallelCsrRowCollection), fenris-nested-vec, rayon, rayon-core, crossbeam, std (all unmodified, on real OS threads)";
const STUB: &str = "a collection that records who holds which element (besides real slices and matrices); OS: scheduler, futex, clock, getrandom and thread creation decided by the simulator";

pub fn entries() -> Vec<Entry> {
    let e = |id, quick_runs, thorough_runs, gen, run, valid, rule, probes| Entry { id, quick_runs, thorough_runs, gen, run, valid, rule, real: REAL, stub: STUB, probes };
    vec![
        e("B01", 40000, 2000000, gen_of::<B01>, run_of::<B01>, valid_of::<B01>,
          "One case: pool, 0-60 subsets of 0-6 indices (duplicates within a subset allowed), labels, collection (recording, blocks of a recording one, slice), one of 22 ways to drive the iterator. Non-trivial: at least two subsets and a baton change.",
          &["more than 16 subsets", "subset without indices", "index twice in one subset", "fewer items wanted than subsets", "block adapter", "stacked block adapter", "slice"][..]),
        e("B02", 80000, 3000000, gen_of::<B02>, run_of::<B02>, valid_of::<B02>,
          "One case: a family of subsets (disjoint or with a planted overlap), labels (matching or not), collection too short or long enough, block size; several workers at once. Non-trivial: at least two subsets.",
          &["overlap between two subsets", "duplicate in one subset", "label count differs", "collection too short", "bad block size", "largest index in a middle subset"][..]),
        e("B03", 40000, 2000000, gen_of::<B03>, run_of::<B03>, valid_of::<B03>,
          "One case: pool, CSR matrix (0-40 rows, empty rows included), disjoint row subsets, direct or in blocks, reads mixed with updates. Non-trivial: at least two subsets and a baton change.",
          &["empty row", "rows in blocks", "read access", "several rounds"][..]),
    ]
}

// ------------------------------------------------------------------------------------------------ recording collection
/// Knows for every element who holds it.
pub struct Tracked {
    state: Vec<AtomicU64>,
    pub value: Vec<AtomicU64>,
    pub touched: Vec<AtomicU32>,
    claimed_len: usize,
    pub created: AtomicU32,
}
impl Tracked {
    pub fn new(n: usize) -> Tracked {
        Tracked { state: (0..n).map(|_| AtomicU64::new(0)).collect(), value: (0..n).map(|_| AtomicU64::new(0)).collect(), touched: (0..n).map(|_| AtomicU32::new(0)).collect(), claimed_len: n, created: AtomicU32::new(0) }
    }
}
pub struct TrackedAccess(*const Tracked);
impl Clone for TrackedAccess {
    fn clone(&self) -> Self {
        simrt::callback_point();
        TrackedAccess(self.0)
    }
}
unsafe impl Send for TrackedAccess {}
unsafe impl Sync for TrackedAccess {}
const WRITE: u64 = 1 << 32;
pub struct WriteGuard<'a> {
    t: &'a Tracked,
    pub i: usize,
}
pub struct ReadGuard<'a> {
    t: &'a Tracked,
    pub i: usize,
}
impl<'a> WriteGuard<'a> {
    pub fn set(&self, e: usize) {
        self.t.value[self.i].store(e as u64 + 1, Ordering::Relaxed);
    }
    /// read, let others run, write
    pub fn bump(&self, by: u64) {
        let v = self.t.value[self.i].load(Ordering::Relaxed);
        simrt::callback_point();
        self.t.value[self.i].store(v + by, Ordering::Relaxed);
    }
}
impl<'a> Drop for WriteGuard<'a> {
    fn drop(&mut self) {
        self.t.state[self.i].store(0, Ordering::Relaxed);
        simrt::callback_point();
    }
}
impl<'a> Drop for ReadGuard<'a> {
    fn drop(&mut self) {
        self.t.state[self.i].fetch_sub(1, Ordering::Relaxed);
    }
}
unsafe impl<'b> ParallelIndexedAccess<'b> for TrackedAccess {
    type Record = ReadGuard<'b>;
    type RecordMut = WriteGuard<'b>;
    unsafe fn get_unchecked(&self, i: usize) -> ReadGuard<'b> {
        let t = &*self.0;
        if i >= t.state.len() {
            simrt::fail("access-out-of-bounds", &format!("read of element {} of {}", i, t.state.len()));
        }
        let s = t.state[i].fetch_add(1, Ordering::Relaxed);
        if s & WRITE != 0 {
            simrt::fail("access-not-exclusive", &format!("element {} read while another worker holds it mutably", i));
        }
        simrt::callback_point();
        ReadGuard { t, i }
    }
    unsafe fn get_unchecked_mut(&self, i: usize) -> WriteGuard<'b> {
        let t = &*self.0;
        if i >= t.state.len() {
            simrt::fail("access-out-of-bounds", &format!("mutable access to element {} of {}", i, t.state.len()));
        }
        let s = t.state[i].swap(WRITE | simrt::current_tid() as u64, Ordering::Relaxed);
        if s != 0 {
            simrt::fail("access-not-exclusive", &format!("element {} handed to thread {} while thread {} holds it", i, simrt::current_tid(), s & 0xffff));
        }
        t.touched[i].fetch_add(1, Ordering::Relaxed);
        simrt::callback_point();
        WriteGuard { t, i }
    }
}
unsafe impl<'a> ParallelIndexedCollection<'a> for Tracked {
    type Access = TrackedAccess;
    unsafe fn create_access(&'a mut self) -> TrackedAccess {
        self.created.fetch_add(1, Ordering::Relaxed);
        TrackedAccess(self)
    }
    fn len(&self) -> usize {
        self.claimed_len
    }
}

// ------------------------------------------------------------------------------------------------ families
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Family {
    pub subsets: Vec<Vec<usize>>,
    pub labels: Vec<usize>,
    /// length of the collection beyond the largest index
    pub slack: usize,
}
impl Family {
    /// `far`: largest index to aim for in the families that have large indices
    pub fn gen(r: &mut Rng, max: usize, far: usize) -> Family {
        let k = match r.below(5) {
            0 if r.chance(1, 30) => r.urange(100, 1500),
            0 => r.urange(0, 3),
            1 => r.urange(0, max),
            _ => r.urange(2, 24.min(max)),
        };
        let widest = if k <= 24 && r.chance(1, 20) { *r.pick(&[20usize, 40, 140]) } else { 6 };
        let sizes: Vec<usize> = (0..k).map(|_| if r.chance(1, 8) { 0 } else { r.urange(1, widest) }).collect();
        let total: usize = sizes.iter().sum();
        let n = total + if r.chance(1, 2) { r.urange(0, 20) } else { 0 };
        let mut idx: Vec<usize> = (0..n).collect();
        if r.chance(2, 3) {
            r.shuffle(&mut idx);
        }
        let mut it = idx.into_iter();
        let dup = r.chance(1, 5);
        let subsets: Vec<Vec<usize>> = sizes
            .iter()
            .map(|&s| {
                let mut v: Vec<usize> = it.by_ref().take(s).collect();
                if dup && !v.is_empty() && r.chance(1, 3) {
                    let x = *r.pick(&v);
                    v.push(x);
                    r.shuffle(&mut v);
                }
                v
            })
            .collect();
        let mut subsets = subsets;
        if r.chance(1, 40) && n > 0 {
            let aim = if r.chance(1, 3) { far } else { far.min(2000) };
            let stride = if r.chance(1, 2) { (aim / n).max(1) } else { 1 };
            let shift = if stride == 1 { aim } else { r.usize(stride) };
            subsets.iter_mut().flatten().for_each(|x| *x = *x * stride + shift);
        }
        let style = r.below(3);
        let mut labels: Vec<usize> = (0..k)
            .map(|i| match style {
                0 => i,
                1 => 1000 + 7 * i,
                _ => r.usize(50),
            })
            .collect();
        if style == 0 {
            r.shuffle(&mut labels);
        }
        Family { subsets, labels, slack: if r.chance(1, 2) { 0 } else { r.urange(0, 9) } }
    }
    pub fn len_needed(&self) -> usize {
        self.subsets.iter().flatten().map(|x| x + 1).max().unwrap_or(0)
    }
    pub fn disjoint(&self) -> bool {
        let mut owner = std::collections::BTreeMap::new();
        self.subsets.iter().enumerate().all(|(k, s)| s.iter().all(|&x| *owner.entry(x).or_insert(k) == k))
    }
    pub fn ok(&self) -> bool {
        self.subsets.len() <= 2000 && self.len_needed() < 200_000 && self.slack < 1000
    }
    /// Makes voluntary switches rarer in large cases.
    pub fn thin(&self) {
        let work = self.subsets.len() + self.subsets.iter().map(|s| s.len()).sum::<usize>() + self.len_needed() / 10;
        if work > 500 {
            simrt::thin(work as u64 / 200)
        }
    }
    pub fn build(&self) -> DisjointSubsets {
        DisjointSubsets::try_from_disjoint_subsets(&self.subsets, self.labels.clone())
            .unwrap_or_else(|_| simrt::fail("disjoint-family-rejected", "try_from_disjoint_subsets rejected a disjoint family"))
    }
}

// ------------------------------------------------------------------------------------------------ B01
pub struct B01;
#[derive(Serialize, Deserialize)]
pub struct B01Case {
    env: Env,
    fam: Family,
    /// 0 recording, 1 blocks of a recording collection, 2 slice, 3 stacked blocks
    coll: u8,
    block: usize,
    drive: u8,
    k: usize,
    read_too: bool,
}
type Seen = (usize, Vec<usize>);
fn collect_idx<A>(s: &fenris_paradis::SubsetAccess<A>) -> Seen {
    (s.label(), s.global_indices().to_vec())
}
/// The way `drive` is expected to visit: ordered list of visited subsets, or None if any subset of size n.
enum Want {
    Ordered(Vec<usize>),
    Unordered(Vec<usize>),
}
impl Property for B01 {
    type Case = B01Case;
    fn gen(r: &mut Rng, c: GenCtx) -> B01Case {
        B01Case { env: Env::gen(r), fam: Family::gen(r, if c.thorough { 100 } else { 60 }, 70_000), coll: *r.pick(&[0u8, 0, 0, 1, 2, 3]), block: r.urange(1, 4), drive: r.below(33) as u8, k: r.urange(0, 70), read_too: r.chance(1, 3) }
    }
    fn valid(c: &B01Case) -> bool {
        c.env.ok() && c.fam.ok() && c.fam.disjoint() && c.fam.labels.len() == c.fam.subsets.len() && (1..=6).contains(&c.block)
    }
    fn run(c: B01Case) {
        c.fam.thin();
        let n = c.fam.len_needed() + c.fam.slack;
        let ds = c.fam.build();
        let ns = c.fam.subsets.len();
        if ns > 16 {
            simrt::probe(0)
        }
        if c.fam.subsets.iter().any(|s| s.is_empty()) {
            simrt::probe(1)
        }
        if c.fam.subsets.iter().any(|s| (1..s.len()).any(|i| s[..i].contains(&s[i]))) {
            simrt::probe(2)
        }
        if ns >= 2 {
            nontrivial()
        }
        let mut touched_want = vec![0u32; n];
        match c.coll {
            0 => {
                let mut t = Tracked::new(n);
                let seen = c.env.with(|| {
                    let (seen, want) = drive(&ds, &mut t, &c, |s, i, lab| {
                        {
                            let g = s.get_mut(i);
                            g.set(lab);
                            if g.i != s_index(&c, lab, i, g.i) {
                                simrt::fail("wrong-element", "");
                            }
                        }
                        if c.read_too {
                            let a = s.get(i);
                            let b = s.get(i);
                            ensure!(a.i == b.i, "wrong-element", "two reads differ");
                        }
                    });
                    judge(&c, seen, want)
                });
                for &k in &seen {
                    for &x in &c.fam.subsets[k] {
                        touched_want[x] += 1;
                    }
                }
                for i in 0..n {
                    let k = t.touched[i].load(Ordering::Relaxed);
                    ensure!(k == touched_want[i], "element-access-count", "element {} accessed {} times, expected {}", i, k, touched_want[i]);
                    ensure!(t.state[i].load(Ordering::Relaxed) == 0, "element-left-held", "element {}", i);
                }
                for &k in &seen {
                    for &x in &c.fam.subsets[k] {
                        let v = t.value[x].load(Ordering::Relaxed);
                        ensure!(v == c.fam.labels[k] as u64 + 1, "wrong-element", "element {} holds {} after subset {} ran", x, v, k);
                    }
                }
            }
            1 => {
                simrt::probe(4);
                let b = c.block;
                let mut t = Tracked::new(n * b);
                let seen = c.env.with(|| {
                    let mut ad = BlockAdapter::with_block_size(&mut t, b);
                    let (seen, want) = drive(&ds, &mut ad, &c, |s, i, lab| {
                        let g = s.global_indices()[i];
                        if c.read_too {
                            let bl = s.get(i);
                            ensure!(bl.len() == b, "wrong-block", "length {}", bl.len());
                            for q in 0..b {
                                let (x, y) = (bl.get(q).map(|w| w.i), bl.index(q).i);
                                ensure!(x == Some(y) && y == g * b + q, "wrong-block", "read: element {} of block {} is element {:?}, {}", q, g, x, y);
                            }
                            ensure!(bl.get(b).is_none(), "wrong-block", "read: element {} of a block of {}", b, b);
                        }
                        let mut bl = s.get_mut(i);
                        ensure!(bl.len() == b, "wrong-block", "length {}", bl.len());
                        if c.read_too {
                            for q in 0..b {
                                let (x, y) = (bl.get(q).map(|w| w.i), bl.index(q).i);
                                ensure!(x == Some(y) && y == g * b + q, "wrong-block", "read: element {} of block {} is element {:?}, {}", q, g, x, y);
                            }
                            ensure!(bl.get(b).is_none(), "wrong-block", "read: element {} of a block of {}", b, b);
                        }
                        for q in 0..b {
                            let w = bl.index_mut(q);
                            ensure!(w.i == g * b + q, "wrong-block", "element {} of block {} is element {}", q, g, w.i);
                            w.set(lab);
                        }
                        ensure!(bl.get_mut(b).is_none(), "wrong-block", "element {} of a block of {}", b, b);
                    });
                    judge(&c, seen, want)
                });
                for &k in &seen {
                    for &x in &c.fam.subsets[k] {
                        touched_want[x] += 1;
                    }
                }
                for i in 0..n * b {
                    let k = t.touched[i].load(Ordering::Relaxed);
                    ensure!(k == touched_want[i / b], "element-access-count", "element {} accessed {} times, expected {}", i, k, touched_want[i / b]);
                }
            }
            2 => {
                simrt::probe(6);
                let mut v: Vec<u64> = (0..n as u64).collect();
                let seen = c.env.with(|| {
                    let (seen, want) = drive(&ds, v.as_mut_slice(), &c, |s, i, _| {
                        let w = *s.get(i);
                        let x = s.get_mut(i);
                        let y = *x;
                        simrt::callback_point();
                        *x = y + 10_000;
                        ensure!(w == y, "wrong-element", "slice element read as {} and {}", w, y);
                        let z = *s.get(i);
                        ensure!(z == y + 10_000, "lost-update", "slice element");
                    });
                    judge(&c, seen, want)
                });
                let mut w: Vec<u64> = (0..n as u64).collect();
                for &k in &seen {
                    for &x in &c.fam.subsets[k] {
                        w[x] += 10_000;
                    }
                }
                ensure!(v == w, "wrong-element", "slice is {:?}, expected {:?}", v, w);
            }
            _ => {
                simrt::probe(5);
                let (b, d) = (c.block, 2);
                let mut t = Tracked::new(n * b * d);
                let seen = c.env.with(|| {
                    let mut inner = BlockAdapter::with_block_size(&mut t, d);
                    let mut ad = BlockAdapter::with_block_size(&mut inner, b);
                    let (seen, want) = drive(&ds, &mut ad, &c, |s, i, lab| {
                        let g = s.global_indices()[i];
                        if c.read_too {
                            let bl = s.get(i);
                            for q in 0..b {
                                let w = bl.index(q);
                                for p in 0..d {
                                    let x = w.index(p).i;
                                    ensure!(x == (g * b + q) * d + p, "wrong-block", "stacked read: {} {} {} is {}", g, q, p, x);
                                }
                            }
                        }
                        let mut bl = s.get_mut(i);
                        for q in 0..b {
                            let mut w = bl.index_mut(q);
                            for p in 0..d {
                                let x = w.index_mut(p);
                                ensure!(x.i == (g * b + q) * d + p, "wrong-block", "stacked: {} {} {} is {}", g, q, p, x.i);
                                x.set(lab);
                            }
                        }
                    });
                    judge(&c, seen, want)
                });
                for &k in &seen {
                    for &x in &c.fam.subsets[k] {
                        touched_want[x] += 1;
                    }
                }
                for i in 0..n * b * d {
                    let k = t.touched[i].load(Ordering::Relaxed);
                    ensure!(k == touched_want[i / (b * d)], "element-access-count", "element {} accessed {} times, expected {}", i, k, touched_want[i / (b * d)]);
                }
            }
        }
    }
}
/// the element that local index `i` of the subset refers to must be in one of the subsets with that label
fn s_index(c: &B01Case, lab: usize, i: usize, got: usize) -> usize {
    simrt::quiet(|| {
        let ok = c.fam.labels.iter().zip(&c.fam.subsets).any(|(l, s)| *l == lab && s.get(i) == Some(&got));
        if ok {
            got
        } else {
            usize::MAX
        }
    })
}
/// Compares what was visited with what was to be visited; returns the subsets visited.
fn judge(c: &B01Case, seen: Vec<Seen>, want: Want) -> Vec<usize> {
    simrt::quiet(|| {
        let f = &c.fam;
        let (mut w, ordered): (Vec<usize>, bool) = match want {
            Want::Ordered(v) => (v, true),
            Want::Unordered(v) => (v, false),
        };
        let mut exp: Vec<Seen> = w.iter().map(|&k| (f.labels[k], f.subsets[k].clone())).collect();
        let mut got = seen.clone();
        if !ordered {
            exp.sort();
            got.sort();
        }
        ensure!(got.len() == exp.len(), "subset-visit-count", "drive {}: {} subsets visited, expected {} of {}", c.drive, got.len(), exp.len(), f.subsets.len());
        for (i, (a, b)) in got.iter().zip(&exp).enumerate() {
            ensure!(a == b, "subset-visit", "drive {}: position {} is {:?}, expected {:?}", c.drive, i, a, b);
        }
        w.sort_unstable();
        w
    })
}
fn drive<'a, C>(ds: &'a DisjointSubsets, coll: &'a mut C, c: &B01Case, touch: impl Fn(&mut fenris_paradis::SubsetAccess<'a, C::Access>, usize, usize) + Sync + 'a) -> (Vec<Seen>, Want)
where
    C: ?Sized + ParallelIndexedCollection<'a>,
    C::Access: Send + Clone,
{
    let touch = &touch;
    let n = ds.subsets().len();
    let all: Vec<usize> = (0..n).collect();
    let k = c.k;
    lib_call();
    let it = ds.subsets_par_iter(coll);
    let v = move |mut s: fenris_paradis::SubsetAccess<'a, C::Access>| -> Seen {
        let seen = collect_idx(&s);
        simrt::event(0x2000 + seen.0 as u64);
        ensure!(s.len() == seen.1.len(), "subset-visit", "len {}", s.len());
        for i in 0..s.len() {
            touch(&mut s, i, seen.0);
        }
        seen
    };
    // whatever was visited by a consumer that may stop early: each subset at most once, and all of `must`
    let some = |v: Vec<usize>, must: Vec<usize>| {
        let mut w = v.clone();
        w.sort_unstable();
        w.dedup();
        ensure!(w.len() == v.len() && v.iter().all(|&x| x < n), "subset-visit-count", "drive {}: visited {:?}", c.drive, v);
        ensure!(must.iter().all(|x| v.contains(x)), "subset-visit-count", "drive {}: visited {:?}, must include {:?}", c.drive, v, must);
        Want::Unordered(v)
    };
    ensure!(it.len() == n, "subset-visit-count", "len() is {} for {} subsets", it.len(), n);
    ensure!(it.opt_len() == Some(n), "subset-visit-count", "opt_len() is {:?} for {} subsets", it.opt_len(), n);
    let locked: std::sync::Mutex<Vec<Seen>> = std::sync::Mutex::new(vec![]);
    let chk = |j: usize, i: usize| ensure!(i == j, "subset-visit", "drive {}: paired with {} instead of {}", c.drive, j, i);
    // positions seen with each item are the indices they claim
    let with_pos = |v: Vec<(usize, Seen)>, f: &dyn Fn(usize) -> usize| -> Vec<Seen> {
        v.into_iter()
            .enumerate()
            .map(|(i, (p, s))| {
                chk(p, f(i));
                s
            })
            .collect()
    };
    match c.drive {
        0 => {
            it.for_each(|s| {
                let x = v(s);
                locked.lock().unwrap().push(x)
            });
            (locked.into_inner().unwrap(), Want::Unordered(all))
        }
        1 => (it.map(v).collect(), Want::Ordered(all)),
        2 => (with_pos(it.enumerate().map(|(i, s)| (i, v(s))).collect(), &|i| i), Want::Ordered(all)),
        3 => (with_pos(it.zip(0..n).map(|(s, i)| (i, v(s))).collect(), &|i| i), Want::Ordered(all)),
        4 => (it.with_min_len(k + 1).map(v).collect(), Want::Ordered(all)),
        5 => (it.with_max_len(k % 3 + 1).map(v).collect(), Want::Ordered(all)),
        6 => (it.rev().map(v).collect(), Want::Ordered(all.into_iter().rev().collect())),
        7 => {
            let ch: Vec<Vec<Seen>> = it.chunks(k + 1).map(|ch| ch.into_iter().map(v).collect()).collect();
            for (i, x) in ch.iter().enumerate() {
                ensure!(x.len() == k + 1 || i + 1 == ch.len() && !x.is_empty(), "subset-visit", "chunk {} has {} items", i, x.len());
            }
            (ch.into_iter().flatten().collect(), Want::Ordered(all))
        }
        8 => {
            if k < n {
                simrt::probe(3)
            }
            (it.take(k).map(v).collect(), Want::Ordered((0..k.min(n)).collect()))
        }
        9 => (it.skip(k).map(v).collect(), Want::Ordered((k.min(n)..n).collect())),
        10 => {
            let st = k % 4 + 1;
            (it.step_by(st).map(v).collect(), Want::Ordered((0..n).step_by(st).collect()))
        }
        11 => {
            let mut out = Vec::new();
            it.map(v).collect_into_vec(&mut out);
            (out, Want::Ordered(all))
        }
        12 => (it.map(v).fold(Vec::new, |mut a, x| { a.push(x); a }).reduce(Vec::new, |mut a, mut b| { a.append(&mut b); a }), Want::Ordered(all)),
        13 => {
            // zip with something shorter or longer
            let other: Vec<usize> = (0..k).collect();
            let m = n.min(k);
            (with_pos(it.zip(other.par_iter()).map(|(s, i)| (*i, v(s))).collect(), &|i| i), Want::Ordered((0..m).collect()))
        }
        14 => (with_pos(it.rev().enumerate().with_max_len(1).map(|(i, s)| (i, v(s))).collect(), &|i| i), Want::Ordered(all.into_iter().rev().collect())),
        15 => {
            let o: Vec<(Seen, usize)> = it.map(v).interleave_shortest((0..n).into_par_iter().map(|i| (usize::MAX, vec![i]))).collect::<Vec<_>>().chunks(2).filter(|x| x.len() == 2).map(|x| (x[0].clone(), x[1].1[0])).collect();
            for (i, x) in o.iter().enumerate() {
                chk(x.1, i)
            }
            (o.into_iter().map(|x| x.0).collect(), Want::Ordered(all))
        }
        16 => (with_pos(it.enumerate().rev().map(|(i, s)| (i, v(s))).collect(), &|i| n - 1 - i), Want::Ordered(all.into_iter().rev().collect())),
        17 => (with_pos((0..n).into_par_iter().zip(it).rev().map(|(i, s)| (i, v(s))).collect(), &|i| n - 1 - i), Want::Ordered(all.into_iter().rev().collect())),
        18 => {
            let m = n - k.min(n);
            (with_pos(it.skip(k).enumerate().rev().with_max_len(3).map(|(i, s)| (i, v(s))).collect(), &|i| m - 1 - i), Want::Ordered((n - m..n).rev().collect()))
        }
        19 => {
            let st = k % 3 + 2;
            (it.rev().step_by(st).map(v).collect(), Want::Ordered((0..n).rev().step_by(st).collect()))
        }
        20 => {
            let out: Vec<Seen> = it.chunks(k % 5 + 1).rev().map(|ch| ch.into_iter().map(v).collect::<Vec<_>>()).flatten().collect();
            let mut o: Vec<Vec<usize>> = all.chunks(k % 5 + 1).map(|c| c.to_vec()).collect();
            o.reverse();
            (out, Want::Ordered(o.concat()))
        }
        21..=25 => {
            // consumers that stop at subset number k
            let log: std::sync::Mutex<Vec<(usize, Seen)>> = std::sync::Mutex::new(vec![]);
            let note = |i: usize, s: fenris_paradis::SubsetAccess<'a, C::Access>| {
                let x = v(s);
                log.lock().unwrap().push((i, x));
                i
            };
            let first = if k < n { Some(k) } else { None };
            let (res, must) = match c.drive {
                21 => (it.enumerate().map(|(i, s)| note(i, s)).find_first(|&i| i >= k), (0..n.min(k + 1)).collect()),
                22 => (it.enumerate().map(|(i, s)| note(i, s)).position_first(|i| i >= k), (0..n.min(k + 1)).collect()),
                23 => {
                    let l = it.enumerate().map(|(i, s)| note(i, s)).find_last(|&i| i <= k);
                    ensure!(l == if n == 0 { None } else { Some(k.min(n - 1)) }, "subset-visit", "find_last gave {:?}", l);
                    (first, (k.min(n)..n).collect())
                }
                24 => {
                    let e = it.enumerate().try_for_each(|(i, s)| if note(i, s) == k { Err(i) } else { Ok(()) });
                    (e.err(), first.into_iter().collect())
                }
                _ => (it.enumerate().map(|(i, s)| note(i, s)).find_any(|&i| i == k), first.into_iter().collect()),
            };
            ensure!(res == first, "subset-visit", "drive {}: found {:?}, expected {:?}", c.drive, res, first);
            let mut log = log.into_inner().unwrap();
            log.sort();
            let w = some(log.iter().map(|x| x.0).collect(), must);
            (log.into_iter().map(|x| x.1).collect(), w)
        }
        26 => {
            let st = k % 3 + 1;
            let sk = k / 3;
            let mut w: Vec<usize> = (sk.min(n)..n).step_by(st).collect();
            w.reverse();
            (it.skip(sk).step_by(st).rev().map(v).collect(), Want::Ordered(w))
        }
        27 | 28 => {
            let o: Vec<(usize, Seen)> = if c.drive == 27 { it.enumerate().take_any(k).map(|(i, s)| (i, v(s))).collect() } else { it.enumerate().skip_any(k).map(|(i, s)| (i, v(s))).collect() };
            let m = if c.drive == 27 { k.min(n) } else { n - k.min(n) };
            ensure!(o.len() == m, "subset-visit-count", "drive {}: {} subsets instead of {}", c.drive, o.len(), m);
            let w = some(o.iter().map(|x| x.0).collect(), vec![]);
            (o.into_iter().map(|x| x.1).collect(), w)
        }
        29 => {
            let o: Vec<Vec<Seen>> = it.fold_chunks(k % 7 + 1, Vec::new, |mut a: Vec<Seen>, s| { a.push(v(s)); a }).collect();
            (o.concat(), Want::Ordered(all))
        }
        30 => {
            let o = std::sync::Mutex::new(vec![]);
            it.by_uniform_blocks(k % 9 + 1).for_each(|s| { let x = v(s); o.lock().unwrap().push(x) });
            (o.into_inner().unwrap(), Want::Unordered(all))
        }
        31 => {
            let o: Vec<Seen> = it.enumerate().filter(|(i, _)| i % 2 == k % 2).map(|(_, s)| v(s)).collect();
            (o, Want::Ordered((0..n).filter(|i| i % 2 == k % 2).collect()))
        }
        _ => {
            let r: Result<Vec<Seen>, ()> = it.map(|s| Ok(v(s))).collect();
            (r.unwrap(), Want::Ordered(all))
        }
    }
}

// ------------------------------------------------------------------------------------------------ B02
pub struct B02;
#[derive(Serialize, Deserialize)]
pub struct B02Case {
    env: Env,
    fam: Family,
    /// elements the collection lacks for the largest index (0: long enough)
    short: usize,
    block: usize,
    /// length of a collection that does not divide into blocks
    odd: usize,
    slice: bool,
}
impl Property for B02 {
    type Case = B02Case;
    fn gen(r: &mut Rng, _c: GenCtx) -> B02Case {
        let mut fam = Family::gen(r, 40, 70_000);
        if r.chance(1, 2) && fam.subsets.len() >= 2 {
            // one index of a subset again in another, at any position
            let (i, j) = (r.usize(fam.subsets.len()), r.usize(fam.subsets.len()));
            if i != j && !fam.subsets[i].is_empty() {
                let x = *r.pick(&fam.subsets[i]);
                let at = r.urange(0, fam.subsets[j].len());
                fam.subsets[j].insert(at, x);
            }
        }
        if r.chance(1, 10) {
            if r.chance(1, 2) {
                fam.labels.push(3);
            } else {
                fam.labels.pop();
            }
        }
        B02Case { env: Env::gen(r), fam, short: if r.chance(1, 3) { r.urange(1, 5) } else { 0 }, block: r.urange(1, 4), odd: r.urange(0, 12), slice: r.chance(1, 3) }
    }
    fn valid(c: &B02Case) -> bool {
        c.env.ok() && c.fam.ok() && c.block <= 8 && c.odd < 100
    }
    fn run(c: B02Case) {
        let f = &c.fam;
        f.thin();
        if f.subsets.len() >= 2 {
            nontrivial()
        }
        let dis = f.disjoint();
        let lab_ok = f.labels.len() == f.subsets.len();
        if !dis {
            simrt::probe(0)
        }
        if f.subsets.iter().any(|s| (1..s.len()).any(|i| s[..i].contains(&s[i]))) {
            simrt::probe(1)
        }
        lib_call();
        let r = catch(|| DisjointSubsets::try_from_disjoint_subsets(&f.subsets, f.labels.clone()));
        let ds = match r {
            Err(_) => {
                simrt::take_panics();
                ensure!(!lab_ok, "family-refused", "panic for {:?} with {} labels", f.subsets, f.labels.len());
                simrt::probe(2);
                return;
            }
            Ok(Err(_)) => {
                ensure!(!dis || !lab_ok, "family-refused", "disjoint family refused: {:?}", f.subsets);
                return;
            }
            Ok(Ok(d)) => {
                ensure!(dis, "overlap-accepted", "accepted {:?}", f.subsets);
                ensure!(lab_ok, "labels-accepted", "{} labels for {} subsets", f.labels.len(), f.subsets.len());
                d
            }
        };
        simrt::quiet(|| {
            ensure!(ds.labels() == f.labels.as_slice(), "family-changed", "labels {:?} became {:?}", f.labels, ds.labels());
            ensure!(ds.subsets().iter().map(|s| s.to_vec()).eq(f.subsets.iter().cloned()), "family-changed", "subsets {:?} became {:?}", f.subsets, ds.subsets());
        });
        let need = f.len_needed();
        if let Some(p) = f.subsets.iter().position(|s| s.iter().any(|x| x + 1 == need)) {
            if p > 0 && p + 1 < f.subsets.len() {
                simrt::probe(5)
            }
        }
        // block adapters refuse sizes that do not fit
        if c.block > 0 {
            let mut t = Tracked::new(c.odd);
            let fits = c.odd % c.block == 0;
            let r = catch(|| {
                let a = BlockAdapter::with_block_size(&mut t, c.block);
                ParallelIndexedCollection::len(&a)
            });
            match r {
                Ok(l) => ensure!(fits && l * c.block == c.odd, "bad-block-size-accepted", "{} elements in blocks of {}: length {}", c.odd, c.block, l),
                Err(_) => {
                    simrt::take_panics();
                    simrt::probe(4);
                    ensure!(!fits, "block-size-refused", "{} elements in blocks of {}", c.odd, c.block)
                }
            }
        }
        let short = c.short.min(need);
        let len = need - short + if short == 0 { f.slack } else { 0 };
        let b = c.block.max(1);
        let mut t = Tracked::new(len * b);
        let mut plain = vec![0u64; len * b];
        let out = c.env.with(|| {
            catch(|| {
                lib_call();
                if c.slice {
                    let mut ad = BlockAdapter::with_block_size(plain.as_mut_slice(), b);
                    ds.subsets_par_iter(&mut ad).for_each(|mut s| {
                        for i in 0..s.len() {
                            let mut bl = s.get_mut(i);
                            for q in 0..b {
                                let x = bl.index_mut(q);
                                let y = *x;
                                simrt::callback_point();
                                *x = y + 1;
                            }
                        }
                    });
                } else {
                    let mut ad = BlockAdapter::with_block_size(&mut t, b);
                    ds.subsets_par_iter(&mut ad).for_each(|mut s| {
                        for i in 0..s.len() {
                            let mut bl = s.get_mut(i);
                            for q in 0..b {
                                bl.index_mut(q).bump(1);
                            }
                        }
                    });
                }
            })
        });
        let touched: u64 = if c.slice { plain.iter().sum() } else { t.touched.iter().map(|x| x.load(Ordering::Relaxed) as u64).sum() };
        match out {
            Err(_) => {
                simrt::take_panics();
                simrt::probe(3);
                ensure!(short > 0, "long-enough-refused", "panic although the collection has {} blocks and the largest index is {}", len, need as i64 - 1);
                ensure!(touched == 0, "accessed-before-refusal", "{} elements accessed", touched);
            }
            Ok(()) => {
                ensure!(short == 0, "too-short-accepted", "collection of {} blocks accepted with largest index {}", len, need - 1);
                let mut w = vec![0u64; len * b];
                for s in &f.subsets {
                    for &x in s {
                        for q in 0..b {
                            w[x * b + q] += 1;
                        }
                    }
                }
                for i in 0..len * b {
                    let v = if c.slice { plain[i] } else { t.value[i].load(Ordering::Relaxed) };
                    ensure!(v == w[i], "wrong-element", "element {} was updated {} times, expected {}", i, v, w[i]);
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ B03
pub struct B03;
#[derive(Serialize, Deserialize)]
pub struct B03Case {
    env: Env,
    rows: Vec<Vec<usize>>,
    ncols: usize,
    fam: Family,
    block: usize,
    rounds: usize,
}
impl Property for B03 {
    type Case = B03Case;
    fn gen(r: &mut Rng, _c: GenCtx) -> B03Case {
        let mut fam = Family::gen(r, 24, 1200);
        if r.chance(1, 2) {
            fam.slack = 0;
        }
        let block = *r.pick(&[0usize, 0, 1, 2, 3]);
        let n = (fam.len_needed() + fam.slack) * block.max(1);
        let ncols = r.urange(1, 30);
        let rows = (0..n)
            .map(|_| {
                let k = if r.chance(1, 6) { 0 } else { r.urange(0, ncols.min(7)) };
                let mut v: Vec<usize> = (0..k).map(|_| r.usize(ncols)).collect();
                v.sort_unstable();
                v.dedup();
                v
            })
            .collect();
        B03Case { env: Env::gen(r), rows, ncols, fam, block, rounds: r.urange(1, 2) }
    }
    fn valid(c: &B03Case) -> bool {
        c.env.ok() && c.fam.ok() && c.fam.disjoint() && c.fam.labels.len() == c.fam.subsets.len() && c.block <= 4 && c.rounds <= 4
            && c.rows.len() == (c.fam.len_needed() + c.fam.slack) * c.block.max(1)
            && c.rows.iter().all(|r| r.windows(2).all(|w| w[0] < w[1]) && r.iter().all(|&x| x < c.ncols))
    }
    fn run(c: B03Case) {
        let f = &c.fam;
        f.thin();
        let ds = f.build();
        if f.subsets.len() >= 2 {
            nontrivial()
        }
        if c.rows.iter().any(|r| r.is_empty()) {
            simrt::probe(0)
        }
        if c.block > 0 {
            simrt::probe(1)
        }
        if c.rounds > 1 {
            simrt::probe(3)
        }
        let n = c.rows.len();
        let mut off = vec![0];
        let mut cols = vec![];
        for r in &c.rows {
            cols.extend_from_slice(r);
            off.push(cols.len());
        }
        let vals: Vec<f64> = (0..cols.len()).map(|i| value(1, false, i, 0, 0)).collect();
        let mut m = CsrMatrix::try_from_csr_data(n, c.ncols, off, cols, vals.clone()).unwrap();
        let before = m.pattern().clone();
        let upd = |round: usize, lab: usize, row: usize, col: usize, old: f64| old * 0.5 + (lab * 1000 + row * 31 + col + round) as f64;
        let one = |round: usize, lab: usize, row: usize, cols: &[usize], vals: &mut [f64]| {
            ensure!(row < n && cols == c.rows[row].as_slice(), "wrong-row", "row {} has columns {:?}, got {:?}", row, c.rows.get(row), cols);
            ensure!(cols.len() == vals.len(), "wrong-row", "row {}: {} values", row, vals.len());
            for (v, &col) in vals.iter_mut().zip(cols) {
                let o = *v;
                simrt::callback_point();
                *v = upd(round, lab, row, col, o);
            }
        };
        c.env.with(|| {
            for round in 0..c.rounds {
                lib_call();
                let mut rc = ParallelCsrRowCollection(&mut m);
                ensure!(ParallelIndexedCollection::len(&rc) == n, "wrong-row", "len");
                if c.block == 0 {
                    ds.subsets_par_iter(&mut rc).for_each(|mut s| {
                        for i in 0..s.len() {
                            let row = s.global_indices()[i];
                            let lab = s.label();
                            {
                                let r = s.get(i);
                                simrt::probe(2);
                                ensure!(r.nnz() == c.rows[row].len() && r.col_indices() == c.rows[row].as_slice() && r.values().len() == r.nnz(), "wrong-row", "read of row {}", row);
                                std::hint::black_box(r.values().iter().sum::<f64>());
                            }
                            let mut r = s.get_mut(i);
                            ensure!(r.nnz() == c.rows[row].len() && r.values_mut().len() == r.nnz(), "wrong-row", "row {} has {} entries", row, r.nnz());
                            let (cs, vs) = r.cols_and_values_mut();
                            one(round, lab, row, cs, vs);
                        }
                    });
                } else {
                    let mut ad = BlockAdapter::with_block_size(&mut rc, c.block);
                    ds.subsets_par_iter(&mut ad).for_each(|mut s| {
                        for i in 0..s.len() {
                            let g = s.global_indices()[i];
                            let lab = s.label();
                            let mut bl = s.get_mut(i);
                            for q in 0..c.block {
                                let mut r = bl.index_mut(q);
                                let (cs, vs) = r.cols_and_values_mut();
                                one(round, lab, g * c.block + q, cs, vs);
                            }
                        }
                    });
                }
            }
        });
        simrt::quiet(|| {
            ensure!(*m.pattern() == before, "pattern-changed", "");
            let mut want: Vec<Vec<f64>> = Vec::new();
            let mut k = 0;
            for r in &c.rows {
                want.push(vals[k..k + r.len()].to_vec());
                k += r.len();
            }
            let b = c.block.max(1);
            for round in 0..c.rounds {
                for (s, lab) in f.subsets.iter().zip(&f.labels) {
                    for &g in s {
                        for q in 0..b {
                            let row = g * b + q;
                            for (v, &col) in want[row].iter_mut().zip(&c.rows[row]) {
                                *v = upd(round, *lab, row, col, *v);
                            }
                        }
                    }
                }
            }
            for (i, w) in want.iter().enumerate() {
                let row = m.row(i);
                for (k, (a, b)) in row.values().iter().zip(w).enumerate() {
                    ensure!(a.to_bits() == b.to_bits(), "row-value-wrong", "row {} entry {} is {:e}, one by one it is {:e}", i, k, a, b);
                }
            }
        });
    }
}

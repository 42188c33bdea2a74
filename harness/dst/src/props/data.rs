//! N01: NestedVec under interrupted operations. D01: stored values that were altered.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use crate::props::paradis::Tracked;
use fenris::assembly::global::{color_nodes, CsrParAssembler, VectorParAssembler};
use fenris::assembly::local::*;
use fenris::connectivity::*;
use fenris::geometry::polymesh::PolyMesh3d;
use fenris::mesh::*;
use fenris::nalgebra::{DVectorView, Point2, Point3, Vector2, U2, U3};
use fenris::space::FixedInterpolator;
use fenris_geometry::{AxisAlignedBoundingBox, Hyperball, SimplePolygon, Tetrahedron, Triangle};
use fenris_solid::materials::*;
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::DisjointSubsets;
use rayon::iter::ParallelIterator;
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use std::cell::Cell;
use std::rc::Rc;

pub fn entries() -> Vec<Entry> {
    vec![
        Entry {
            id: "N01", quick_runs: 60000, thorough_runs: 3000000, gen: gen_of::<N01>, run: run_of::<N01>, valid: valid_of::<N01>,
            rule: "One case: 1-14 (rarely up to 190) operations on a NestedVec of counted elements, with a panic at a chosen element clone, in the middle of an array being appended, or in a consumer of an iterator; everything a NestedVec shows is compared with a Vec<Vec> after every operation, elements are counted at the end. Non-trivial: two or more operations.",
            real: "fenris-nested-vec (NestedVec, ArrayAppender, conversions), std, unmodified",
            stub: "elements whose clone panics at the call the seed chooses",
            probes: &["clone panicked inside push", "append interrupted", "appender leaked", "clear of a filled one", "clone interrupted", "conversion interrupted", "operation after an interrupted one", "empty array", "edit in place", "appended while a panic unwinds"][..],
        },
        Entry {
            id: "D01", quick_runs: 40000, thorough_runs: 2000000, gen: gen_of::<D01>, run: run_of::<D01>, valid: valid_of::<D01>,
            rule: "One case: a NestedVec, DisjointSubsets, quadrature table, mesh of any cell type, polyhedral mesh, fixed interpolator or a set of small values (primitives, face connectivities, materials), written as JSON or in binary, 0-5 alterations (numbers, arrays, members, bits, truncation, torn write over an older version), then read and used; subsets are driven on a pool over a collection that records who holds which element. Non-trivial: the stored form was altered.",
            real: "fenris-nested-vec, fenris-paradis, fenris (Mesh, quadrature tables, coloring, parallel assembly), fenris-geometry (PolyMesh), their serde implementations, serde, serde_json, bincode, rayon, std, unmodified, on real OS threads",
            stub: "the collection the subsets are used on; OS: scheduler, futex, clock and thread creation decided by the simulator",
            probes: &["altered", "rejected", "altered but accepted", "accepted subsets driven", "collection too short", "mesh with indices outside"][..],
        },
    ]
}

// ------------------------------------------------------------------------------------------------ N01
#[derive(Default)]
struct Ledger {
    live: Cell<i64>,
    /// clones until the panic
    fuse: Cell<Option<usize>>,
    done: Cell<usize>,
}
struct El {
    v: u32,
    l: Rc<Ledger>,
}
impl El {
    fn new(v: u32, l: &Rc<Ledger>) -> El {
        l.live.set(l.live.get() + 1);
        El { v, l: l.clone() }
    }
}
impl Clone for El {
    fn clone(&self) -> El {
        if let Some(k) = self.l.fuse.get() {
            if k == 0 {
                self.l.fuse.set(None);
                simrt::note_fault(FK_PANIC);
                std::panic::panic_any(InjectedPanic(1))
            }
            self.l.fuse.set(Some(k - 1));
        }
        self.l.done.set(self.l.done.get() + 1);
        El::new(self.v, &self.l)
    }
}
impl Drop for El {
    fn drop(&mut self) {
        self.l.live.set(self.l.live.get() - 1)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.v == o.v
    }
}
impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum NOp {
    /// values, clone that panics
    Push(Vec<u32>, Option<usize>),
    /// values, after how many the caller panics
    Append(Vec<u32>, Option<usize>),
    AppendLeak(Vec<u32>),
    /// values, by push: in a destructor that runs because of a panic elsewhere
    InUnwind(Vec<u32>, bool),
    Edit(usize, usize, u32),
    EditFirst(usize, u32),
    EditLast(usize, u32),
    Swap(usize, usize, usize),
    Clear,
    /// go on with the clone, clone that panics
    Clone(bool, Option<usize>),
    /// from a Vec<Vec>, by value, clone that panics
    From(Vec<Vec<u32>>, bool, Option<usize>),
    /// into a Vec<Vec> and back, by value, clone that panics
    Into(bool, Option<usize>),
    /// stop iterating there
    Iterate(usize),
    Take,
}
struct N01;
#[derive(Serialize, Deserialize)]
pub struct N01Case {
    ops: Vec<NOp>,
}
fn vals(r: &mut Rng) -> Vec<u32> {
    let n = if r.chance(1, 60) { r.urange(10, 90) } else { *r.pick(&[0usize, 1, 1, 2, 3, 4, 7, 9]) };
    (0..n).map(|_| r.below(100) as u32).collect()
}
fn fuse(r: &mut Rng, n: usize) -> Option<usize> {
    if r.chance(1, 3) {
        Some(r.usize(n + 1))
    } else {
        None
    }
}
fn views(nv: &NestedVec<El>) -> Vec<Vec<u32>> {
    (0..nv.len()).map(|i| nv.get(i).map(|s| s.iter().map(|e| e.v).collect()).unwrap_or_else(|| simrt::fail("nested-vec-inconsistent", &format!("len is {} but array {} is not there", nv.len(), i)))).collect()
}
fn look(nv: &NestedVec<El>, m: &[Vec<u32>], exact: bool, l: &Rc<Ledger>, what: &str) {
    let got = views(nv);
    ensure!(got == m, "nested-vec-content", "after {}: {:?}, expected {:?}", what, got, m);
    for i in m.len()..m.len() + 3 {
        ensure!(nv.get(i).is_none(), "nested-vec-content", "after {}: array {} of {}", what, i, m.len());
    }
    let vs = |s: Option<&[El]>| s.map(|s| s.iter().map(|e| e.v).collect::<Vec<_>>());
    ensure!(vs(nv.first()).as_ref() == m.first(), "nested-vec-content", "after {}: first", what);
    ensure!(vs(nv.last()).as_ref() == m.last(), "nested-vec-content", "after {}: last is {:?}, expected {:?}", what, vs(nv.last()), m.last());
    let it: Vec<Vec<u32>> = match catch(|| nv.iter().map(|s| s.iter().map(|e| e.v).collect()).collect()) {
        Ok(v) => v,
        Err(p) => simrt::fail("nested-vec-inconsistent", &format!("after {}: iter panicked: {}", what, payload(&*p))),
    };
    ensure!(it == m, "nested-vec-content", "after {}: iter gives {:?}, expected {:?}", what, it, m);
    let flat: Vec<u32> = nv.iter_array_elements().map(|e| e.v).collect();
    let want: Vec<u32> = m.iter().flatten().copied().collect();
    ensure!(flat == want, "nested-vec-content", "after {}: iter_array_elements gives {:?}, expected {:?}", what, flat, want);
    ensure!(nv.total_num_elements() == want.len(), "nested-vec-content", "after {}: total_num_elements {}, expected {}", what, nv.total_num_elements(), want.len());
    ensure!(format!("{:?}", nv) == format!("{:?}", m), "nested-vec-content", "after {}: shown as {:?}", what, nv);
    let back: Vec<Vec<El>> = nv.into();
    ensure!(back.iter().map(|s| s.iter().map(|e| e.v).collect::<Vec<_>>()).collect::<Vec<_>>() == m, "nested-vec-content", "after {}: converted to {:?}", what, back);
    if exact {
        let mut o = NestedVec::new();
        for a in m {
            let mut ap = o.begin_array();
            for &v in a {
                ap.push_single(El::new(v, l));
            }
        }
        ensure!(&o == nv && nv == &o, "nested-vec-equality", "after {}: differs from one of equal content {:?}", what, m);
        o.push(&[]);
        ensure!(&o != nv, "nested-vec-equality", "after {}: equal to one with an array more", what);
    }
    ensure!(l.live.get() >= want.len() as i64, "element-lost", "after {}: {} live elements, {} shown", what, l.live.get(), want.len());
}
impl Property for N01 {
    type Case = N01Case;
    fn gen(r: &mut Rng, _: GenCtx) -> N01Case {
        // now and then a long history: many arrays, positions far out
        let n = if r.chance(1, 60) { r.urange(15, 190) } else { r.urange(1, 14) };
        let w = n.max(6);
        let long = n > 14;
        let ops = (0..n)
            .map(|_| match r.below(16) {
                0..=3 => {
                    let v = vals(r);
                    let f = fuse(r, v.len());
                    NOp::Push(v, f)
                }
                4..=6 => {
                    let v = vals(r);
                    let f = fuse(r, v.len());
                    NOp::Append(v, f)
                }
                7 => {
                    if r.chance(1, 3) {
                        NOp::InUnwind(vals(r), r.chance(1, 2))
                    } else if r.chance(1, 4) {
                        NOp::AppendLeak(vals(r))
                    } else if long && r.chance(3, 4) {
                        NOp::Append(vals(r), None)
                    } else {
                        NOp::Take
                    }
                }
                8 => NOp::Edit(r.usize(w), r.usize(6), r.below(100) as u32),
                9 => NOp::EditFirst(r.usize(4), r.below(100) as u32),
                10 => NOp::EditLast(r.usize(4), r.below(100) as u32),
                11 => NOp::Swap(r.usize(w), r.usize(5), r.usize(5)),
                12 => {
                    if r.chance(1, if long { 12 } else { 3 }) {
                        NOp::Clear
                    } else {
                        NOp::Iterate(r.usize(w + 2))
                    }
                }
                13 => {
                    let f = fuse(r, 12);
                    NOp::Clone(r.chance(1, 2), f)
                }
                14 => {
                    let v: Vec<Vec<u32>> = (0..if r.chance(1, 20) { r.usize(60) } else { r.usize(5) }).map(|_| vals(r)).collect();
                    let f = fuse(r, v.iter().flatten().count());
                    NOp::From(v, r.chance(1, 2), f)
                }
                _ => {
                    let f = fuse(r, 12);
                    NOp::Into(r.chance(1, 2), f)
                }
            })
            .collect();
        N01Case { ops }
    }
    fn valid(c: &N01Case) -> bool {
        c.ops.len() <= 200
    }
    fn run(c: N01Case) {
        let l = Rc::new(Ledger::default());
        {
            let mut nv: NestedVec<El> = NestedVec::new();
            let mut m: Vec<Vec<u32>> = vec![];
            // nothing unreachable left behind by an interrupted or leaked operation
            let mut exact = true;
            let mut interrupted = false;
            if c.ops.len() >= 2 {
                nontrivial()
            }
            look(&nv, &m, exact, &l, "new");
            for op in &c.ops {
                simrt::event(1);
                if interrupted {
                    simrt::probe(6)
                }
                lib_call();
                let els = |v: &[u32]| v.iter().map(|&x| El::new(x, &l)).collect::<Vec<El>>();
                l.done.set(0);
                match op {
                    NOp::Push(v, f) => {
                        if v.is_empty() {
                            simrt::probe(7)
                        }
                        let e = els(v);
                        l.fuse.set(*f);
                        let res = catch(|| nv.push(&e));
                        l.fuse.set(None);
                        match res {
                            Ok(()) => m.push(v.clone()),
                            Err(p) => {
                                ensure!(p.is::<InjectedPanic>(), "unexpected-panic-in-push", "{}", payload(&*p));
                                simrt::probe(0);
                                interrupted = true;
                                exact = false;
                                after_interrupted(&nv, &mut m, v, l.done.get(), "an interrupted push");
                            }
                        }
                    }
                    NOp::Append(v, f) => {
                        if v.is_empty() {
                            simrt::probe(7)
                        }
                        let res = catch(|| {
                            let mut a = nv.begin_array();
                            for (i, &x) in v.iter().enumerate() {
                                if *f == Some(i) {
                                    simrt::note_fault(FK_PANIC);
                                    std::panic::panic_any(InjectedPanic(2))
                                }
                                a.push_single(El::new(x, &l));
                                ensure!(a.count() == i + 1, "nested-vec-content", "appender counts {} after {}", a.count(), i + 1);
                            }
                        });
                        match res {
                            Ok(()) => m.push(v.clone()),
                            Err(p) => {
                                ensure!(p.is::<InjectedPanic>(), "unexpected-panic-in-append", "{}", payload(&*p));
                                simrt::probe(1);
                                interrupted = true;
                                exact = false;
                                after_interrupted(&nv, &mut m, v, f.unwrap(), "an interrupted append");
                            }
                        }
                    }
                    NOp::AppendLeak(v) => {
                        simrt::probe(2);
                        let mut a = nv.begin_array();
                        for &x in v {
                            a.push_single(El::new(x, &l));
                        }
                        std::mem::forget(a);
                        exact &= v.is_empty();
                    }
                    NOp::InUnwind(v, by_push) => {
                        simrt::probe(9);
                        let e = els(v);
                        let nv = &mut nv;
                        let res = catch(move || {
                            struct Late<F: FnMut()>(F);
                            impl<F: FnMut()> Drop for Late<F> {
                                fn drop(&mut self) {
                                    (self.0)()
                                }
                            }
                            let mut e = e;
                            let _late = Late(|| {
                                if *by_push {
                                    nv.push(&e)
                                } else {
                                    let mut a = nv.begin_array();
                                    for x in e.drain(..) {
                                        a.push_single(x);
                                    }
                                }
                            });
                            simrt::note_fault(FK_PANIC);
                            std::panic::panic_any(InjectedPanic(4))
                        });
                        let res: Result<(), _> = res;
                        ensure!(res.is_err_and(|p| p.is::<InjectedPanic>()), "unexpected-panic-in-append", "during unwinding");
                        m.push(v.clone());
                    }
                    NOp::Edit(i, j, x) => {
                        let a = nv.get_mut(*i).and_then(|s| s.get_mut(*j)).map(|e| e.v = *x).is_some();
                        let b = m.get_mut(*i).and_then(|s| s.get_mut(*j)).map(|e| *e = *x).is_some();
                        ensure!(a == b, "nested-vec-content", "get_mut({}) there: {}, expected {}", i, a, b);
                        if a {
                            simrt::probe(8)
                        }
                    }
                    NOp::EditFirst(j, x) => {
                        let a = nv.first_mut().and_then(|s| s.get_mut(*j)).map(|e| e.v = *x).is_some();
                        let b = m.first_mut().and_then(|s| s.get_mut(*j)).map(|e| *e = *x).is_some();
                        ensure!(a == b, "nested-vec-content", "first_mut there: {}, expected {}", a, b);
                    }
                    NOp::EditLast(j, x) => {
                        let a = nv.last_mut().and_then(|s| s.get_mut(*j)).map(|e| e.v = *x).is_some();
                        let b = m.last_mut().and_then(|s| s.get_mut(*j)).map(|e| *e = *x).is_some();
                        ensure!(a == b, "nested-vec-content", "last_mut there: {}, expected {}", a, b);
                    }
                    NOp::Swap(i, a, b) => {
                        if let Some(s) = m.get_mut(*i) {
                            if !s.is_empty() {
                                let (a, b) = (a % s.len(), b % s.len());
                                s.swap(a, b);
                                match nv.get_mut(*i) {
                                    Some(t) => {
                                        ensure!(t.len() == s.len(), "nested-vec-content", "get_mut({}) has length {}", i, t.len());
                                        t.swap(a, b)
                                    }
                                    None => simrt::fail("nested-vec-content", &format!("get_mut({}) not there", i)),
                                }
                            }
                        }
                    }
                    NOp::Clear => {
                        if !m.is_empty() {
                            simrt::probe(3)
                        }
                        nv.clear();
                        m.clear();
                        exact = true;
                        ensure!(l.live.get() == 0, "element-lost", "{} elements live after clear", l.live.get());
                    }
                    NOp::Clone(go_on, f) => {
                        l.fuse.set(*f);
                        let res = catch(|| nv.clone());
                        l.fuse.set(None);
                        match res {
                            Ok(o) => {
                                look(&o, &m, exact, &l, "clone");
                                ensure!(o == nv, "nested-vec-equality", "a clone differs");
                                if *go_on {
                                    // the original is dropped, the clone stays
                                    nv = o
                                }
                            }
                            Err(p) => {
                                ensure!(p.is::<InjectedPanic>(), "unexpected-panic-in-clone", "{}", payload(&*p));
                                simrt::probe(4);
                                interrupted = true
                            }
                        }
                    }
                    NOp::From(v, by_value, f) => {
                        let src: Vec<Vec<El>> = v.iter().map(|a| els(a)).collect();
                        l.fuse.set(*f);
                        let res = if *by_value { catch(move || NestedVec::from(src)) } else { catch(|| NestedVec::from(&src)) };
                        l.fuse.set(None);
                        match res {
                            Ok(o) => {
                                nv = o;
                                m = v.clone();
                                exact = true
                            }
                            Err(p) => {
                                ensure!(p.is::<InjectedPanic>(), "unexpected-panic-in-from", "{}", payload(&*p));
                                simrt::probe(5);
                                interrupted = true
                            }
                        }
                    }
                    NOp::Into(by_value, f) => {
                        let own = if *by_value { Some(nv.clone()) } else { None };
                        l.fuse.set(*f);
                        let res: Result<Vec<Vec<El>>, _> = match own {
                            Some(o) => catch(move || o.into()),
                            None => catch(|| (&nv).into()),
                        };
                        l.fuse.set(None);
                        match res {
                            Ok(o) => {
                                let o: Vec<Vec<u32>> = o.iter().map(|s| s.iter().map(|e| e.v).collect()).collect();
                                ensure!(o == m, "nested-vec-content", "converted to {:?}, expected {:?}", o, m);
                            }
                            Err(p) => {
                                ensure!(p.is::<InjectedPanic>(), "unexpected-panic-in-into", "{}", payload(&*p));
                                simrt::probe(5);
                                interrupted = true
                            }
                        }
                    }
                    NOp::Iterate(k) => {
                        let r = catch(|| {
                            for (i, s) in nv.iter().enumerate() {
                                ensure!(Some(s.len()) == m.get(i).map(|x| x.len()), "nested-vec-content", "iter: array {}", i);
                                if i == *k {
                                    std::panic::panic_any(InjectedPanic(3))
                                }
                            }
                        });
                        ensure!(r.is_err() == (*k < m.len()), "nested-vec-content", "iter yields a wrong number of arrays");
                    }
                    NOp::Take => {
                        let o = std::mem::take(&mut nv);
                        look(&o, &m, exact, &l, "take");
                        drop(o);
                        ensure!(l.live.get() == 0, "element-lost", "{} elements live after take and drop", l.live.get());
                        m.clear();
                        exact = true
                    }
                }
                look(&nv, &m, exact, &l, &format!("{:?}", op));
            }
        }
        ensure!(l.live.get() == 0, "element-lost", "{} elements live at the end", l.live.get());
    }
}
/// contents before, or those and a new array of elements completed before the panic
fn after_interrupted(nv: &NestedVec<El>, m: &mut Vec<Vec<u32>>, v: &[u32], done: usize, what: &str) {
    let got = views(nv);
    if got == *m {
        return;
    }
    ensure!(
        got.len() == m.len() + 1 && got[..m.len()] == m[..] && got[m.len()].len() <= done && v.starts_with(&got[m.len()]),
        "nested-vec-content",
        "after {} of {:?} (completed: {}): {:?}, before it: {:?}",
        what, v, done, got, m
    );
    *m = got;
}


// ------------------------------------------------------------------------------------------------ D01
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Edit {
    /// which number (counted through the document), how, argument
    Number(u64, u8, u64),
    /// which array, how (remove, duplicate, swap, truncate, append), where
    Array(u64, u8, u64, u64),
    /// which object, how (remove, rename, null, swap two fields, duplicate another field's value), field
    Object(u64, u8, u64, u64),
    /// bytes: flip a bit, cut off, overwrite, or the rest of an older version
    Flip(u64, u8),
    Cut(u64),
    Byte(u64, u8),
    Torn(u64),
    /// binary form: the number at a multiple of 8 bytes
    Word(u64, u8, u64),
}
#[derive(Serialize, Deserialize)]
pub struct D01Case {
    env: Env,
    /// 0 NestedVec, 1 DisjointSubsets, 2 compact, 3 general, 4 uniform quadrature table, 5 quad mesh, 6 triangle mesh, 7 polyhedral mesh,
    /// 8 fixed interpolator, 9 meshes of other cells, 10 small values
    kind: u8,
    binary: bool,
    arrays: Vec<Vec<u32>>,
    /// what an older version held (torn writes)
    older: Vec<Vec<u32>>,
    salt: u64,
    edits: Vec<Edit>,
    /// length of the collection the subsets are used on, beyond or below the largest index
    slack: i64,
    block: usize,
}
struct D01;
type V = serde_json::Value;

fn nodes<'a>(v: &'a mut V, f: &dyn Fn(&V) -> bool, out: &mut Vec<*mut V>) {
    if f(v) {
        out.push(v)
    }
    match v {
        V::Array(a) => a.iter_mut().for_each(|x| nodes(x, f, out)),
        V::Object(o) => o.values_mut().for_each(|x| nodes(x, f, out)),
        _ => (),
    }
}
fn nth<'a>(v: &'a mut V, f: &dyn Fn(&V) -> bool, i: u64) -> Option<&'a mut V> {
    let mut all = vec![];
    nodes(v, f, &mut all);
    if all.is_empty() {
        return None;
    }
    let p = all[i as usize % all.len()];
    Some(unsafe { &mut *p })
}
fn edit_value(v: &mut V, e: &Edit) -> bool {
    match e {
        Edit::Number(i, how, arg) => {
            let other = nth(v, &|x| x.is_number(), *arg).map(|x| x.clone());
            let Some(x) = nth(v, &|x| x.is_number(), *i) else { return false };
            let old = x.clone();
            if let Some(n) = x.as_u64() {
                *x = match how % 6 {
                    0 => (n + 1).into(),
                    1 => (n as i64 - 1).into(),
                    2 => (n ^ (1 << (arg % 11))).into(),
                    3 => other.unwrap(),
                    4 => 0.into(),
                    _ => [4000u64, 1 << 12, 17, 2][*arg as usize % 4].into(),
                };
            } else {
                *x = match how % 3 {
                    0 => V::from(0.25),
                    1 => other.unwrap(),
                    _ => V::from(3),
                };
            }
            *x != old
        }
        Edit::Array(i, how, a, b) => {
            let Some(V::Array(x)) = nth(v, &|x| x.is_array(), *i) else { return false };
            let old = x.clone();
            if x.is_empty() {
                x.push(V::from(*a % 5));
                return true;
            }
            let (a, b) = (*a as usize % x.len(), *b as usize % x.len());
            match how % 5 {
                0 => drop(x.remove(a)),
                1 => {
                    let y = x[a].clone();
                    x.insert(b, y)
                }
                2 => x.swap(a, b),
                3 => x.truncate(a),
                _ => {
                    let y = x[a].clone();
                    x.push(y)
                }
            }
            *x != old
        }
        Edit::Object(i, how, a, b) => {
            let Some(V::Object(x)) = nth(v, &|x| x.is_object(), *i) else { return false };
            let old = x.clone();
            let ks: Vec<String> = x.keys().cloned().collect();
            if ks.is_empty() {
                return false;
            }
            let (a, b) = (&ks[*a as usize % ks.len()], &ks[*b as usize % ks.len()]);
            match how % 5 {
                0 => drop(x.remove(a)),
                1 => {
                    let y = x.remove(a).unwrap();
                    x.insert(format!("{}_", a), y);
                }
                2 => x[a] = V::Null,
                3 => {
                    let (p, q) = (x[a].clone(), x[b].clone());
                    x[a] = q;
                    x[b] = p;
                }
                _ => x[a] = x[b].clone(),
            }
            *x != old
        }
        _ => false,
    }
}
fn edit_bytes(d: &mut Vec<u8>, e: &Edit, older: &[u8]) -> bool {
    let old = d.clone();
    if d.is_empty() {
        return false;
    }
    let n = d.len();
    match e {
        Edit::Flip(i, b) => d[*i as usize % n] ^= 1 << (b % 8),
        Edit::Byte(i, b) => d[*i as usize % n] = *b,
        Edit::Cut(i) => d.truncate(*i as usize % n),
        Edit::Torn(i) => {
            let k = *i as usize % n;
            d.truncate(k);
            d.extend_from_slice(older.get(k..).unwrap_or(&[]));
        }
        Edit::Word(i, how, arg) => {
            let words = n / 8;
            if words > 0 {
                let at = |k: u64| (k as usize % words) * 8;
                let get = |d: &[u8], k: usize| u64::from_le_bytes(d[k..k + 8].try_into().unwrap());
                let x = get(d, at(*i));
                let y = match how % 4 {
                    0 => x.wrapping_add(1),
                    1 => x.wrapping_sub(1),
                    2 => get(d, at(*arg)),
                    _ => x ^ (1 << (arg % 11)),
                };
                d[at(*i)..at(*i) + 8].copy_from_slice(&y.to_le_bytes());
            }
        }
        _ => return false,
    }
    *d != old
}
fn encode<T: Serialize>(x: &T, binary: bool) -> Vec<u8> {
    if binary {
        bincode::serialize(x).unwrap()
    } else {
        // through a Value: members in alphabetical order
        serde_json::to_vec(&serde_json::to_value(x).unwrap()).unwrap()
    }
}
fn decode<T: for<'a> Deserialize<'a>>(d: &[u8], binary: bool) -> Option<T> {
    lib_call();
    let r = catch(|| if binary { bincode::deserialize(d).map_err(|e| e.to_string()) } else { serde_json::from_slice(d).map_err(|e| e.to_string()) });
    match r {
        Ok(Ok(x)) => Some(x),
        Ok(Err(e)) => {
            simrt::probe(1);
            ensure!(!e.is_empty(), "empty-error", "an error without a message");
            None
        }
        Err(p) => simrt::fail("deserialise-panicked", &payload(&*p)),
    }
}
/// written, altered, read back
fn through<T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(c: &D01Case, x: &T, older: &T) -> Option<T> {
    let mut d = encode(x, c.binary);
    let y: T = decode(&d, c.binary).unwrap_or_else(|| simrt::fail("own-output-rejected", &format!("{:?}", x)));
    ensure!(&y == x, "not-read-back", "wrote {:?}, read {:?}", x, y);
    ensure!(encode(&y, c.binary) == d, "not-read-back", "written again differently: {:?}", x);
    let old = encode(older, c.binary);
    let mut altered = false;
    for e in &c.edits {
        let ch = match e {
            Edit::Number(..) | Edit::Array(..) | Edit::Object(..) => {
                if c.binary {
                    false
                } else {
                    match serde_json::from_slice::<V>(&d) {
                        Ok(mut v) => {
                            let ch = edit_value(&mut v, e);
                            d = serde_json::to_vec(&v).unwrap();
                            ch
                        }
                        Err(_) => false,
                    }
                }
            }
            _ => edit_bytes(&mut d, e, &old),
        };
        if ch {
            simrt::note_fault(if matches!(e, Edit::Cut(_) | Edit::Torn(_)) { FK_TRUNC } else { FK_CORRUPT });
            altered = true
        }
    }
    if altered {
        nontrivial();
        simrt::probe(0)
    }
    let z: T = decode(&d, c.binary)?;
    if altered {
        simrt::probe(2);
        // what was accepted can be written and read again
        let w = encode(&z, c.binary);
        let again: T = decode(&w, c.binary).unwrap_or_else(|| simrt::fail("own-output-rejected", &format!("{:?}", z)));
        // NaN is not equal to itself
        ensure!(encode(&again, c.binary) == w, "not-read-back", "wrote {:?}, read {:?}", z, again);
    }
    Some(z)
}
fn nested_ok<T: Clone + PartialEq + std::fmt::Debug>(nv: &NestedVec<T>) {
    let mut total = 0;
    for i in 0..nv.len() {
        match nv.get(i) {
            Some(s) => total += s.len(),
            None => simrt::fail("nested-vec-invariant", &format!("len is {} but array {} is not there", nv.len(), i)),
        }
    }
    let r = catch(|| {
        let t = nv.total_num_elements();
        let k = nv.iter().count();
        let e = nv.iter_array_elements().count();
        (t, k, e, nv.first().is_some(), nv.last().is_some())
    });
    match r {
        Ok(x) => ensure!(x == (total, nv.len(), total, nv.len() > 0, nv.len() > 0), "nested-vec-invariant", "{:?}, {} arrays, {} elements", x, nv.len(), total),
        Err(p) => simrt::fail("nested-vec-invariant", &format!("reading it panicked: {}", payload(&*p))),
    }
    // go on with it
    if let Some(x) = nv.iter_array_elements().next() {
        let mut o = nv.clone();
        let before: Vec<Vec<T>> = nv.into();
        o.push(&[x.clone(), x.clone()]);
        o.begin_array().push_single(x.clone());
        let after: Vec<Vec<T>> = o.into();
        ensure!(after.len() == before.len() + 2 && after[..before.len()] == before[..], "nested-vec-invariant", "after two more arrays: {:?}, before: {:?}", after, before);
        ensure!(after[before.len()] == [x.clone(), x.clone()] && after[before.len() + 1] == [x.clone()], "nested-vec-invariant", "pushed arrays became {:?}", &after[before.len()..]);
    }
}
fn subsets_ok(ds: &DisjointSubsets) {
    nested_ok(ds.subsets());
    ensure!(ds.labels().len() == ds.subsets().len(), "disjoint-subsets-invariant", "{} labels for {} subsets", ds.labels().len(), ds.subsets().len());
    let mut owner = std::collections::BTreeMap::new();
    for (k, s) in ds.subsets().iter().enumerate() {
        for &x in s {
            let o = *owner.entry(x).or_insert(k);
            ensure!(o == k, "disjoint-subsets-invariant", "subsets {} and {} share index {}", o, k, x);
        }
    }
}
/// what safe code can do with them; whatever it does, no element twice and none outside
fn use_subsets(c: &D01Case, ds: &DisjointSubsets) {
    let max = ds.subsets().iter().flatten().max().copied();
    if max.map_or(false, |m| m > 5000) {
        return;
    }
    let n = (max.map_or(0, |m| m as i64 + 1) + c.slack).max(0) as usize;
    let short = max.map_or(false, |m| m >= n);
    let mut t = Tracked::new(n * c.block);
    let r = catch(|| {
        c.env.with(|| {
            if c.block == 1 {
                ds.subsets_par_iter(&mut t).for_each(|mut s| {
                    for i in 0..s.len() {
                        let _ = s.label();
                        s.get_mut(i).bump(1);
                    }
                })
            } else {
                let mut ad = BlockAdapter::with_block_size(&mut t, c.block);
                ds.subsets_par_iter(&mut ad).for_each(|mut s| {
                    for i in 0..s.len() {
                        let mut b = s.get_mut(i);
                        for q in 0..c.block {
                            b.index_mut(q).bump(1);
                        }
                    }
                })
            }
        })
    });
    if short {
        simrt::probe(4);
        ensure!(r.is_err(), "short-collection-accepted", "largest index {:?}, collection of {}", max, n);
    }
    if r.is_ok() {
        simrt::probe(3);
        let mut want = vec![0u64; n * c.block];
        ds.subsets().iter().flatten().for_each(|&x| (0..c.block).for_each(|q| want[x * c.block + q] += 1));
        for (i, w) in want.iter().enumerate() {
            let v = t.value[i].load(std::sync::atomic::Ordering::Relaxed);
            ensure!(v == *w, "element-access-count", "element {} visited {} times, expected {}", i, v, w);
        }
    }
}
fn table_use<Q: QuadratureTable<f64, U2, Data = u32>>(t: &Q, n: usize) {
    for e in 0..n + 2 {
        let _ = catch(|| {
            let k = t.element_quadrature_size(e);
            if k > 10000 {
                return;
            }
            let mut p = vec![Point2::origin(); k];
            let mut w = vec![0.0; k];
            let mut d = vec![0u32; k];
            t.populate_element_quadrature(e, &mut p, &mut w);
            t.populate_element_data(e, &mut d);
        });
    }
}
fn mesh_use<C: Connectivity>(c: &D01Case, conn: &[C], nodes: usize) {
    let elems: Vec<Vec<usize>> = conn.iter().map(|x| x.vertex_indices().to_vec()).collect();
    if elems.iter().flatten().any(|&x| x > 5000) {
        return;
    }
    let hg = Hg { nodes, sdim: 1, elems };
    let outside = hg.elems.iter().flatten().any(|&x| x >= nodes);
    let env = &c.env;
    let r = catch(|| {
        env.with(|| {
            let colors = color_nodes(&Conn(&hg.elems, hg.nodes));
            for col in &colors {
                subsets_ok(col);
            }
            let a = Asm::new(&hg, c.salt, false);
            let p = CsrParAssembler::<f64>::default().assemble_pattern(&a);
            ensure!(p.minor_indices().iter().all(|&j| j < nodes), "pattern-out-of-bounds", "{} columns", nodes);
            let v = VectorParAssembler::<f64>::default().assemble_vector(&colors, &a);
            v.map(|v| v.len())
        })
    });
    if outside {
        simrt::probe(5);
        ensure!(r.is_err(), "index-outside-accepted", "assembled for a mesh whose cells refer to vertices that do not exist");
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Small {
    density: Density<f64>,
    lame: LameParameters<f64>,
    yp: YoungPoisson<f64>,
    materials: (LinearElasticMaterial, NeoHookeanMaterial, StVKMaterial),
    tri2: Triangle<f64, U2>,
    tri3: Triangle<f64, U3>,
    tet: Tetrahedron<f64>,
    ball: Hyperball<f64, U3>,
    bb: AxisAlignedBoundingBox<f64, U2>,
    poly: SimplePolygon<f64, U2>,
    segments: (Segment2d1Connectivity, Segment2d2Connectivity, Segment2d3Connectivity, Segment3d3Connectivity),
    faces: (Quad8d3Connectivity, Quad9d3Connectivity, Tri6d3Connectivity),
}
/// it interpolates or panics, and what it does interpolate comes from the solution vector it is given
fn interpolator_use(z: &FixedInterpolator<f64>, c: &D01Case) {
    let m: usize = c.arrays.iter().flatten().max().map_or(0, |&x| x as usize + 1);
    // the vector is part of a larger one, filled with something else
    let len = (m as i64 + c.slack).max(0) as usize * 2;
    let mut u = vec![1.0; len];
    u.resize(len + 3000, f64::NAN);
    let n = simrt::rng::mix(c.salt, 9) % 3;
    let whole = c.edits.is_empty();
    let r = catch(|| {
        let u = DVectorView::from_slice(&u[..len], len);
        if n == 0 {
            z.interpolate_gradients::<U2, U2>(u).iter().flatten().copied().collect::<Vec<f64>>()
        } else {
            z.interpolate::<U2>(u).iter().flatten().copied().collect::<Vec<f64>>()
        }
    });
    if whole {
        let missing = c.salt & if n == 0 { 4 } else { 2 } != 0;
        let short = c.slack < 0 && m > 0;
        ensure!(r.is_err() == (short || missing), "interpolator-bounds", "interpolated a vector of {} for nodes up to {}: {:?}", len, m, r.is_ok());
    }
    if let Ok(v) = r {
        // altered weights are finite numbers or were rejected
        ensure!(!whole || v.iter().all(|x| x.is_finite()), "interpolator-outside", "{:?}", v);
    }
}
impl Property for D01 {
    type Case = D01Case;
    fn gen(r: &mut Rng, _: GenCtx) -> D01Case {
        let binary = r.chance(1, 4);
        let kind = *r.pick(&[0u8, 0, 1, 1, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10]);
        let arrays = |r: &mut Rng| -> Vec<Vec<u32>> { (0..if r.chance(1, 40) { r.urange(9, 70) } else { r.urange(0, 8) }).map(|_| vals(r)).collect() };
        let k = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 5]);
        let edits = (0..k)
            .map(|_| {
                if binary && r.chance(2, 3) {
                    return Edit::Word(r.next(), r.below(4) as u8, r.next());
                }
                match if binary { r.urange(10, 15) } else { r.urange(0, 15) } {
                    0..=4 => Edit::Number(r.next(), r.below(6) as u8, r.next()),
                    5..=7 => Edit::Array(r.next(), r.below(5) as u8, r.next(), r.next()),
                    8..=9 => Edit::Object(r.next(), r.below(5) as u8, r.next(), r.next()),
                    10 | 11 => Edit::Flip(r.next(), r.below(8) as u8),
                    12 => Edit::Cut(r.next()),
                    13 => Edit::Byte(r.next(), *r.pick(b"0123456789,[]{}\":.-e\xff\0")),
                    _ => Edit::Torn(r.next()),
                }
            })
            .collect();
        D01Case { env: Env::gen(r), kind, binary, arrays: arrays(r), older: arrays(r), salt: r.next(), edits, slack: *r.pick(&[0i64, 0, 1, 3, -1, -2]), block: *r.pick(&[1usize, 1, 2]) }
    }
    fn valid(c: &D01Case) -> bool {
        c.env.ok() && c.kind <= 10 && c.arrays.len() < 200 && c.older.len() < 200 && (1..=4).contains(&c.block) && c.slack.abs() < 100 && c.edits.len() < 50
            && c.arrays.iter().chain(&c.older).all(|a| a.len() < 100 && a.iter().all(|&x| x < 1000))
    }
    fn run(c: D01Case) {
        let floats = |a: &Vec<Vec<u32>>| a.iter().map(|x| x.iter().map(|&v| v as f64 * 0.37 + 0.1).collect::<Vec<f64>>()).collect::<Vec<_>>();
        let points = |a: &Vec<Vec<u32>>| a.iter().map(|x| x.iter().map(|&v| Point2::new(v as f64 / 7.0, -(v as f64))).collect::<Vec<_>>()).collect::<Vec<_>>();
        match c.kind {
            0 => {
                if let Some(z) = through(&c, &NestedVec::from(&c.arrays), &NestedVec::from(&c.older)) {
                    nested_ok(&z)
                }
            }
            1 => {
                // made disjoint: index = value spread out, each owned by the first subset that has it
                let family = |a: &Vec<Vec<u32>>| {
                    let mut used = std::collections::BTreeSet::new();
                    let f: Vec<Vec<usize>> = a
                        .iter()
                        .map(|s| {
                            let m: Vec<usize> = s.iter().map(|&x| x as usize).filter(|x| !used.contains(x)).collect();
                            used.extend(m.iter().copied());
                            m
                        })
                        .collect();
                    let labels = (0..f.len()).map(|i| if c.salt & 1 == 0 { i } else { (i * 7 + c.salt as usize % 13) % 50 }).collect();
                    DisjointSubsets::try_from_disjoint_subsets(&f, labels).unwrap_or_else(|_| simrt::fail("disjoint-family-rejected", ""))
                };
                if let Some(z) = through(&c, &family(&c.arrays), &family(&c.older)) {
                    subsets_ok(&z);
                    use_subsets(&c, &z);
                }
            }
            2 => {
                let table = |a: &Vec<Vec<u32>>| {
                    let map: Vec<usize> = if a.is_empty() { vec![] } else { (0..6).map(|i| simrt::rng::mix(c.salt, i) as usize % a.len()).collect() };
                    CompactQuadratureTable::from_quadrature_rules_and_map(NestedVec::from(points(a)), NestedVec::from(floats(a)), NestedVec::from(a), map)
                };
                if let Some(z) = through(&c, &table(&c.arrays), &table(&c.older)) {
                    table_use(&z, 6)
                }
            }
            3 => {
                let table = |a: &Vec<Vec<u32>>| GeneralQuadratureTable::from_points_weights_and_data(NestedVec::from(points(a)), NestedVec::from(floats(a)), NestedVec::from(a));
                if let Some(z) = through(&c, &table(&c.arrays), &table(&c.older)) {
                    table_use(&z, c.arrays.len())
                }
            }
            4 => {
                let table = |a: &Vec<Vec<u32>>| UniformQuadratureTable::from_points_weights_and_data(points(a).concat(), floats(a).concat(), a.concat());
                if let Some(z) = through(&c, &table(&c.arrays), &table(&c.older)) {
                    table_use(&z, 3)
                }
            }
            5 | 6 => {
                let flat = |a: &Vec<Vec<u32>>| {
                    let n = 4 + a.len() + (c.salt % 5) as usize;
                    let v: Vec<Point2<f64>> = (0..n).map(|i| Point2::new(i as f64, 0.5 * i as f64)).collect();
                    let cells: Vec<[usize; 4]> = (0..a.len()).map(|i| { let s = a[i].first().map_or(i, |&x| x as usize); [0, 1, 2, 3].map(|k| (s + k) % n) }).collect();
                    (v, cells)
                };
                if c.kind == 5 {
                    let mesh = |a: &Vec<Vec<u32>>| {
                        let (v, q) = flat(a);
                        QuadMesh2d::from_vertices_and_connectivity(v, q.into_iter().map(Quad4d2Connectivity).collect())
                    };
                    if let Some(z) = through(&c, &mesh(&c.arrays), &mesh(&c.older)) {
                        mesh_use(&c, z.connectivity(), z.vertices().len())
                    }
                } else {
                    let mesh = |a: &Vec<Vec<u32>>| {
                        let (v, q) = flat(a);
                        TriangleMesh2d::from_vertices_and_connectivity(v, q.into_iter().map(|q| Tri3d2Connectivity([q[0], q[1], q[2]])).collect())
                    };
                    if let Some(z) = through(&c, &mesh(&c.arrays), &mesh(&c.older)) {
                        mesh_use(&c, z.connectivity(), z.vertices().len())
                    }
                }
            }
            8 => {
                let fi = |a: &Vec<Vec<u32>>| {
                    let idx: Vec<usize> = a.concat().iter().map(|&x| x as usize).collect();
                    let mut offs = vec![0];
                    a.iter().for_each(|x| offs.push(offs.last().unwrap() + x.len()));
                    let vals = floats(a).concat();
                    let grads = vals.iter().flat_map(|&v| [v, -0.5 * v]).collect();
                    FixedInterpolator::from_compressed_values((c.salt & 2 == 0).then_some(vals), (c.salt & 4 == 0).then_some(grads), idx, offs)
                };
                if let Some(z) = through(&c, &fi(&c.arrays), &fi(&c.older)) {
                    interpolator_use(&z, &c)
                }
            }
            9 => {
                let n = 30 + (c.salt % 5) as usize;
                let pts = || (0..n).map(|i| Point3::new(i as f64, 0.5 * i as f64, -0.1)).collect::<Vec<_>>();
                let pts2 = || (0..n).map(|i| Point2::new(i as f64, 0.5 * i as f64)).collect::<Vec<_>>();
                let start = |a: &Vec<u32>| a.first().map_or(0, |&x| x as usize);
                macro_rules! go {
                    ($p:expr, $k:ident, $m:literal) => {{
                        let mesh = |a: &Vec<Vec<u32>>| Mesh::from_vertices_and_connectivity($p, a.iter().map(|x| $k(std::array::from_fn::<usize, $m, _>(|q| (start(x) + q) % n))).collect());
                        if let Some(z) = through(&c, &mesh(&c.arrays), &mesh(&c.older)) {
                            mesh_use(&c, z.connectivity(), z.vertices().len())
                        }
                    }};
                }
                match c.salt / 8 % 9 {
                    0 => go!(pts(), Tet4Connectivity, 4),
                    1 => go!(pts(), Hex8Connectivity, 8),
                    2 => go!(pts(), Hex27Connectivity, 27),
                    3 => go!(pts(), Hex20Connectivity, 20),
                    4 => go!(pts(), Tet10Connectivity, 10),
                    5 => go!(pts(), Tet20Connectivity, 20),
                    6 => go!(pts2(), Tri6d2Connectivity, 6),
                    7 => go!(pts2(), Quad9d2Connectivity, 9),
                    _ => go!(pts(), Tri3d3Connectivity, 3),
                }
            }
            10 => {
                let small = |a: &Vec<Vec<u32>>| {
                    let f: Vec<f64> = floats(a).concat();
                    let u: Vec<usize> = a.concat().iter().map(|&x| x as usize).collect();
                    let x = |k: usize| f.get(k).copied().unwrap_or(k as f64 * 0.25 - 1.0);
                    let i = |k: usize| u.get(k).copied().unwrap_or(k);
                    let p2 = |k: usize| Point2::new(x(k), x(k + 1));
                    let p3 = |k: usize| Point3::new(x(k), x(k + 1), x(k + 2));
                    Small {
                        density: Density(x(0)),
                        lame: LameParameters { mu: x(1), lambda: x(2) },
                        yp: YoungPoisson { young: x(3), poisson: x(4) },
                        materials: (LinearElasticMaterial, NeoHookeanMaterial, StVKMaterial),
                        tri2: Triangle([p2(0), p2(1), p2(2)]),
                        tri3: Triangle([p3(0), p3(1), p3(2)]),
                        tet: Tetrahedron::from_vertices([p3(0), p3(1), p3(2), p3(3)]),
                        ball: Hyperball::from_center_and_radius(p3(1), x(5).abs()),
                        bb: AxisAlignedBoundingBox::new(p2(0), p2(0) + Vector2::new(x(1).abs(), x(2).abs())),
                        poly: SimplePolygon::from_vertices((0..f.len()).map(p2).collect()),
                        segments: (Segment2d1Connectivity([i(0), i(1)]), Segment2d2Connectivity([i(1), i(0)]), Segment2d3Connectivity([i(2), i(1)]), Segment3d3Connectivity([i(2), i(1), i(0)])),
                        faces: (Quad8d3Connectivity(std::array::from_fn(i)), Quad9d3Connectivity(std::array::from_fn(i)), Tri6d3Connectivity(std::array::from_fn(i))),
                    }
                };
                through(&c, &small(&c.arrays), &small(&c.older));
            }
            _ => {
                let poly = |a: &Vec<Vec<u32>>| {
                    let n = 5 + a.len();
                    let v = (0..n).map(|i| Point3::new(i as f64, 0.5, -1.0 / (i + 1) as f64)).collect();
                    let faces: Vec<Vec<usize>> = a.iter().map(|s| s.iter().map(|&x| x as usize % n).collect()).collect();
                    let cells: Vec<Vec<usize>> = a.iter().map(|s| s.iter().map(|&x| x as usize % a.len()).collect()).collect();
                    PolyMesh3d::from_poly_data(v, NestedVec::from(faces), NestedVec::from(cells))
                };
                if let Some(mut z) = through(&c, &poly(&c.arrays), &poly(&c.older)) {
                    let _ = catch(|| (z.find_boundary_faces(), z.compute_face_cell_connectivity(), z.triangulate().is_ok()));
                    let _ = catch(|| z.dedup_faces());
                    let _ = catch(|| z.split_edges());
                }
            }
        }
    }
}

//! A01-A06, A08: global assembly.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::nalgebra::{DMatrixViewMut, DVector, DVectorViewMut};
use fenris_nested_vec::NestedVec;
use fenris_paradis::{DisjointSubsets, ParallelIndexedCollection};
use nalgebra_sparse::pattern::SparsityPattern;
use nalgebra_sparse::CsrMatrix;
use rayon::iter::ParallelIterator;
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use std::collections::BTreeMap;

pub const REAL: &str = "fenris assembly (CsrAssembler, CsrParAssembler, VectorAssembler, VectorParAssembler, scalar assembly, adapters, color_nodes), fenris-paradis, fenris-sparse, fenris-nested-vec, rayon, rayon-core, crossbeam-deque/epoch/utils, thread_local, parking_lot, parking_lot_core, std::thread, std::sync (all unmodified, on real OS threads)";
pub const STUB: &str = "element assembler (recording callback with injected failures); OS: scheduler, futex, clock, getrandom and thread creation decided by the simulator";

pub fn entries() -> Vec<Entry> {
    let e = |id, quick_runs, thorough_runs, gen, run, valid, rule, probes| Entry { id, quick_runs, thorough_runs, gen, run, valid, rule, real: REAL, stub: STUB, probes };
    vec![
        e("A01", 12000, 600000, gen_of::<A01>, run_of::<A01>, valid_of::<A01>,
          "One case: pool (1-8 threads, caller inside or outside), element hypergraph (0-64 elements of 0-8 nodes, solution dimension 1-4), assembler form (plain, aggregate, node-mapped, transformed, with nested rayon calls), coloring, initial values, wider pattern, exact or inexact values. Non-trivial: at least two elements and a baton change.",
          &["two elements share a node", "color with three or more elements", "initial values present", "pattern wider than needed", "element without nodes", "nested rayon call", "aggregate with an empty part", "inexact values"][..]),
        e("A02", 20000, 900000, gen_of::<A02>, run_of::<A02>, valid_of::<A02>,
          "One case: pool, hypergraph, assembler form; both pattern routines against the definition. Non-trivial: at least two elements and a baton change.",
          &["two elements share a node", "", "more than one batch of elements", "no nodes", "isolated nodes"][..]),
        e("A03", 24000, 1200000, gen_of::<A03>, run_of::<A03>, valid_of::<A03>,
          "One case: pool, hypergraph, assembler form, coloring, initial vector, exact or inexact values. Non-trivial: at least two elements and a baton change.",
          &["two elements share a node", "color with three or more elements", "initial values present", "", "inexact values", "nested rayon call"][..]),
        e("A04", 60000, 3000000, gen_of::<A04>, run_of::<A04>, valid_of::<A04>,
          "One case: pool, number of elements 0-200, exact or inexact values, assembler form. Non-trivial: at least two elements and a baton change.",
          &["no elements", "more elements than 50", "inexact values"][..]),
        e("A05", 20000, 900000, gen_of::<A05>, run_of::<A05>, valid_of::<A05>,
          "One case: pool, hypergraph, routine (matrix/vector/scalar, serial/parallel), assembler form, elements that fail with Err and elements that panic, failure in the element callback or in the transformation. Non-trivial: a failure was injected and surfaced, or none was.",
          &["error surfaced from parallel call", "panic surfaced from parallel call", "both kinds injected", "call with the same assembler after the failure", "serial call", "nested rayon call", "", "", "failure in the transformation"][..]),
        e("A06", 10000, 500000, gen_of::<A06>, run_of::<A06>, valid_of::<A06>,
          "One case: pool, 1-3 caller threads sharing one matrix and one vector assembler, 1-6 calls each (pattern, matrix, matrix into, vector, vector into; serial and parallel) over different hypergraphs, some failing. Non-trivial: at least two calls and a baton change.",
          &["concurrent callers", "call after an Err", "call after a panic", "serial object reused", "larger then smaller elements"][..]),
        e("A08", 40000, 1500000, gen_of::<A08>, run_of::<A08>, valid_of::<A08>,
          "One case: connectivity of 0-64 elements (one in 80: 100-600 around one node), node indices up to 70000, pool; color_nodes or sequential_greedy_coloring, then subset iteration over a recording collection with that coloring. Non-trivial: at least two colors.",
          &["three or more colors", "no elements", "element without nodes", "a hundred colors or more"][..]),
    ]
}

// ------------------------------------------------------------------------------------------------ wrapped assemblers
pub trait Full: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64> + Sync {}
impl<X: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64> + Sync> Full for X {}
pub struct Dyn<'a> {
    a: &'a dyn Full,
    nested: bool,
}
impl<'a> Dyn<'a> {
    /// `nest(e, false)` comes before the element is evaluated, `nest(e, true)` after its output is written
    fn nest(&self, e: usize, after: bool) {
        if self.nested && (e % 2 == 1) == after {
            simrt::probe(5);
            rayon::join(
                || {
                    simrt::event(0x10_0000 + e as u64);
                    simrt::callback_point()
                },
                || simrt::callback_point(),
            );
        }
    }
}
impl<'a> ElementConnectivityAssembler for Dyn<'a> {
    fn solution_dim(&self) -> usize {
        self.a.solution_dim()
    }
    fn num_elements(&self) -> usize {
        self.a.num_elements()
    }
    fn num_nodes(&self) -> usize {
        self.a.num_nodes()
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.a.element_node_count(e)
    }
    fn populate_element_nodes(&self, o: &mut [usize], e: usize) {
        self.nest(e, false);
        self.a.populate_element_nodes(o, e);
        self.nest(e, true)
    }
}
impl<'a> ElementMatrixAssembler<f64> for Dyn<'a> {
    fn assemble_element_matrix_into(&self, e: usize, o: DMatrixViewMut<f64>) -> eyre::Result<()> {
        self.nest(e, false);
        let r = self.a.assemble_element_matrix_into(e, o);
        self.nest(e, true);
        r
    }
}
impl<'a> ElementVectorAssembler<f64> for Dyn<'a> {
    fn assemble_element_vector_into(&self, e: usize, o: DVectorViewMut<f64>) -> eyre::Result<()> {
        self.nest(e, false);
        let r = self.a.assemble_element_vector_into(e, o);
        self.nest(e, true);
        r
    }
}
impl<'a> ElementScalarAssembler<f64> for Dyn<'a> {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.nest(e, false);
        let r = self.a.assemble_element_scalar(e);
        self.nest(e, true);
        r
    }
}

/// How the elements reach the assembly routine.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Wrap {
    Plain,
    /// parts cut at these element numbers (equal cuts give empty parts)
    Agg(Vec<usize>),
    Map(u64),
    /// multiplies by two; fails at these elements (found through a marker value)
    Trans(bool),
}
impl Wrap {
    pub fn gen(r: &mut Rng, ne: usize) -> Wrap {
        match r.below(10) {
            0..=4 => Wrap::Plain,
            5 | 6 => {
                let k = r.urange(0, 4);
                let mut c: Vec<usize> = (0..k).map(|_| if r.chance(1, 4) { *r.pick(&[0, ne]) } else { r.urange(0, ne) }).collect();
                if k > 0 && r.chance(1, 3) {
                    c.push(c[0]);
                }
                c.sort_unstable();
                Wrap::Agg(c)
            }
            7 | 8 => Wrap::Map(r.below(1 << 30)),
            _ => Wrap::Trans(r.chance(1, 2)),
        }
    }
    /// factor the transformation applies to all values
    pub fn factor(&self) -> f64 {
        match self {
            Wrap::Trans(_) => 2.0,
            _ => 1.0,
        }
    }
}
/// Calls `f` with the assembler and a function that tells how often each element was evaluated.
pub fn with_asm<R>(hg: &Hg, wrap: &Wrap, nested: bool, salt: u64, inexact: bool, faults: &Faults, f: impl FnOnce(&Dyn, &dyn Fn(usize) -> u32) -> R) -> R {
    let ne = hg.elems.len();
    match wrap {
        Wrap::Plain => {
            let a = Asm::new(hg, salt, inexact).with_faults(faults);
            f(&Dyn { a: &a, nested }, &|e| a.count(e))
        }
        Wrap::Agg(cuts) => {
            let mut b = vec![0];
            b.extend(cuts.iter().map(|&c| c.min(ne)));
            b.push(ne);
            b.sort_unstable();
            let hgs: Vec<Hg> = b.windows(2).map(|w| Hg { nodes: hg.nodes, sdim: hg.sdim, elems: hg.elems[w[0]..w[1]].to_vec() }).collect();
            let asms: Vec<Asm> = hgs
                .iter()
                .zip(&b)
                .map(|(h, &base)| {
                    if h.elems.is_empty() {
                        simrt::probe(6);
                    }
                    let mut a = Asm::new(h, salt, inexact).with_faults(faults);
                    a.base = base;
                    a
                })
                .collect();
            let agg = AggregateElementAssembler::from_assemblers(&asms);
            f(&Dyn { a: &agg, nested }, &|e| {
                let k = (0..asms.len()).find(|&k| b[k] <= e && e < b[k + 1]).unwrap();
                asms[k].count(e - b[k])
            })
        }
        Wrap::Map(s) => {
            // the inner assembler numbers nodes differently, and has more of them
            let mut r = Rng::new(*s);
            let extra = r.usize(5);
            let mut p: Vec<usize> = (0..hg.nodes + extra).collect();
            r.shuffle(&mut p);
            let mut inv = vec![usize::MAX; hg.nodes + extra];
            for (i, &x) in p.iter().enumerate() {
                inv[x] = i;
            }
            let inner = Hg { nodes: hg.nodes + extra, sdim: hg.sdim, elems: hg.elems.iter().map(|e| e.iter().map(|&x| p[x]).collect()).collect() };
            let counts;
            let a = Asm::new(&inner, salt, inexact).with_faults(faults);
            counts = &a.calls as *const _ as usize;
            // the adapter takes the assembler by value; its counters stay where they are
            let boxed = Box::new(Keep(a));
            let inner_ref: &Keep = &boxed;
            let _ = counts;
            let m = Fwd(inner_ref).map_element_nodes(hg.nodes, move |x| inv[x]);
            f(&Dyn { a: &m, nested }, &|e| inner_ref.0.count(e))
        }
        Wrap::Trans(_) => {
            let a = Keep(Asm::new(hg, salt, inexact).with_faults(faults));
            let m = Fwd(&a)
                .transform_element_matrix(|mut o: DMatrixViewMut<f64>| {
                    simrt::callback_point();
                    for x in o.iter_mut() {
                        *x *= 2.0
                    }
                    Ok(())
                })
                .transform_element_vector(|mut o: DVectorViewMut<f64>| {
                    simrt::callback_point();
                    for x in o.iter_mut() {
                        *x *= 2.0
                    }
                    Ok(())
                })
                .transform_element_scalar(|x: f64| {
                    simrt::callback_point();
                    Ok(2.0 * x)
                });
            f(&Dyn { a: &m, nested }, &|e| a.0.count(e))
        }
    }
}
/// An assembler by reference.
pub struct Keep<'a>(pub Asm<'a>);
pub struct Fwd<'a, 'b>(pub &'b Keep<'a>);
impl<'a, 'b> ElementConnectivityAssembler for Fwd<'a, 'b> {
    fn solution_dim(&self) -> usize {
        self.0 .0.solution_dim()
    }
    fn num_elements(&self) -> usize {
        self.0 .0.num_elements()
    }
    fn num_nodes(&self) -> usize {
        self.0 .0.num_nodes()
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.0 .0.element_node_count(e)
    }
    fn populate_element_nodes(&self, o: &mut [usize], e: usize) {
        self.0 .0.populate_element_nodes(o, e)
    }
}
impl<'a, 'b> ElementMatrixAssembler<f64> for Fwd<'a, 'b> {
    fn assemble_element_matrix_into(&self, e: usize, o: DMatrixViewMut<f64>) -> eyre::Result<()> {
        self.0 .0.assemble_element_matrix_into(e, o)
    }
}
impl<'a, 'b> ElementVectorAssembler<f64> for Fwd<'a, 'b> {
    fn assemble_element_vector_into(&self, e: usize, o: DVectorViewMut<f64>) -> eyre::Result<()> {
        self.0 .0.assemble_element_vector_into(e, o)
    }
}
impl<'a, 'b> ElementScalarAssembler<f64> for Fwd<'a, 'b> {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.0 .0.assemble_element_scalar(e)
    }
}

// ------------------------------------------------------------------------------------------------ checks against the model
pub fn check_pattern(p: &SparsityPattern, hg: &Hg, what: &str) {
    let want = hg.pattern();
    let n = hg.nodes * hg.sdim;
    ensure!(p.major_dim() == n && p.minor_dim() == n, "pattern-shape", "{}: {}x{} instead of {}", what, p.major_dim(), p.minor_dim(), n);
    ensure!(p.major_offsets().len() == n + 1, "pattern-shape", "{}: {} offsets", what, p.major_offsets().len());
    for i in 0..n {
        let (a, b) = (p.major_offsets()[i], p.major_offsets()[i + 1]);
        ensure!(a <= b && b <= p.minor_indices().len(), "pattern-offsets", "{}: row {} has offsets {}..{}", what, i, a, b);
        let row = &p.minor_indices()[a..b];
        ensure!(row == want[i].as_slice(), "pattern-row", "{}: row {} is {:?}, by definition {:?}", what, i, row, want[i]);
    }
    ensure!(*p.major_offsets().last().unwrap() == p.minor_indices().len(), "pattern-offsets", "{}: {} indices", what, p.minor_indices().len());
}
/// Every stored entry of `m` has exactly the bits of the model, which has an entry for each.
pub fn check_matrix(m: &CsrMatrix<f64>, want: &BTreeMap<(usize, usize), f64>, what: &str) {
    let mut seen = 0;
    for (i, j, v) in m.triplet_iter() {
        seen += 1;
        match want.get(&(i, j)) {
            None => simrt::fail("matrix-entry-unexpected", &format!("{}: entry ({},{}) = {:e}", what, i, j, v)),
            Some(w) => ensure!(same(*v, *w), "matrix-entry-wrong", "{}: entry ({},{}) is {:e}, sum of contributions is {:e}", what, i, j, v, w),
        }
    }
    ensure!(seen == want.len(), "matrix-entries-missing", "{}: {} entries, expected {}", what, seen, want.len());
}
/// A matrix whose pattern contains that of `hg`, with values, and its model
pub fn start_matrix(hg: &Hg, salt: u64, values: bool, extra: usize) -> (CsrMatrix<f64>, BTreeMap<(usize, usize), f64>) {
    let n = hg.nodes * hg.sdim;
    let mut rows = hg.pattern();
    let mut r = Rng::new(mix(salt, 0xE7));
    if n > 0 {
        for _ in 0..extra {
            let (i, j) = (r.usize(n), r.usize(n));
            if let Err(k) = rows[i].binary_search(&j) {
                rows[i].insert(k, j);
            }
        }
    }
    let mut off = vec![0];
    let mut cols = vec![];
    let mut vals = vec![];
    let mut map = BTreeMap::new();
    for (i, row) in rows.iter().enumerate() {
        for &j in row {
            let v = if values { value(salt ^ 0x55, false, 9999, i, j) } else { 0.0 };
            cols.push(j);
            vals.push(v);
            map.insert((i, j), v);
        }
        off.push(cols.len());
    }
    (CsrMatrix::try_from_csr_data(n, n, off, cols, vals).expect("csr"), map)
}
fn probes_elems(hg: &Hg, colors: &[DisjointSubsets]) {
    simrt::quiet(|| {
        let mut cnt = vec![0usize; hg.nodes];
        for e in &hg.elems {
            for &n in e {
                cnt[n] += 1;
            }
        }
        if cnt.iter().any(|&c| c > 1) {
            simrt::probe(0);
        }
        if colors.iter().any(|c| c.labels().len() >= 3) {
            simrt::probe(1);
        }
    })
}
fn nontrivial_if(c: bool) {
    if c {
        nontrivial()
    }
}

// ------------------------------------------------------------------------------------------------ A01
pub struct A01;
#[derive(Serialize, Deserialize)]
pub struct A01Case {
    env: Env,
    hg: Hg,
    wrap: Wrap,
    nested: bool,
    salt: u64,
    inexact: bool,
    col: Coloring,
    /// also assemble into a matrix that has values
    into: bool,
    extra: usize,
}
impl Property for A01 {
    type Case = A01Case;
    fn gen(r: &mut Rng, c: GenCtx) -> A01Case {
        let hg = Hg::gen(r, if c.thorough { 64 } else { 44 });
        let wrap = Wrap::gen(r, hg.elems.len());
        A01Case { env: Env::gen(r), wrap, nested: r.chance(1, 8), salt: r.below(1 << 40), inexact: r.chance(1, 4), col: Coloring::gen(r), into: r.chance(1, 2), extra: if r.chance(1, 3) { r.urange(1, 20) } else { 0 }, hg }
    }
    fn valid(c: &A01Case) -> bool {
        c.hg.ok() && c.env.ok()
    }
    fn run(c: A01Case) {
        let hg = &c.hg;
        hg.thin();
        let f = c.wrap.factor();
        if hg.elems.iter().any(|e| e.is_empty()) {
            simrt::probe(4);
        }
        let colors = c.col.build(hg);
        probes_elems(hg, &colors);
        nontrivial_if(hg.elems.len() >= 2);
        let run = |what: &str| {
            with_asm(hg, &c.wrap, c.nested, c.salt, c.inexact, &Faults::none(), |a, _| {
                let asm = CsrParAssembler::default();
                lib_call();
                let m = asm.assemble(&colors, a);
                let m = m.unwrap_or_else(|e| simrt::fail("unexpected-err", &format!("{}: {:?}", what, e)));
                let mut n = None;
                if c.into {
                    simrt::probe(2);
                    if c.extra > 0 {
                        simrt::probe(3);
                    }
                    let (mut mm, _) = simrt::quiet(|| start_matrix(hg, c.salt, true, c.extra));
                    lib_call();
                    if let Err(e) = asm.assemble_into_csr(&mut mm, &colors, a) {
                        simrt::fail("unexpected-err", &format!("{}: {:?}", what, e));
                    }
                    n = Some(mm);
                }
                (m, n)
            })
        };
        let (m, n) = c.env.with(|| run("parallel"));
        simrt::quiet(|| {
            check_pattern(m.pattern(), hg, "assemble");
            if !c.inexact {
                let mut want = model_matrix(hg, c.salt, false);
                want.values_mut().for_each(|v| *v *= f);
                check_matrix(&m, &want, "assemble");
                let ser = with_asm(hg, &c.wrap, false, c.salt, false, &Faults::none(), |a, _| CsrAssembler::default().assemble(a));
                check_matrix(&ser.unwrap(), &want, "serial assemble");
                if let Some(n) = n {
                    let (mut s, mut w) = start_matrix(hg, c.salt, true, c.extra);
                    for (k, v) in &want {
                        *w.get_mut(k).unwrap() += v;
                    }
                    ensure!(n.pattern() == s.pattern(), "pattern-changed", "assemble_into_csr changed the pattern");
                    check_matrix(&n, &w, "assemble_into_csr");
                    with_asm(hg, &c.wrap, false, c.salt, false, &Faults::none(), |a, _| CsrAssembler::default().assemble_into_csr(&mut s, a)).unwrap();
                    check_matrix(&s, &w, "serial assemble_into_csr");
                }
            } else {
                simrt::probe(7);
                let abs = model_matrix_abs(hg, c.salt);
                let sum = model_matrix(hg, c.salt, true);
                let ser = with_asm(hg, &c.wrap, false, c.salt, true, &Faults::none(), |a, _| CsrAssembler::default().assemble(a)).unwrap();
                for (name, x) in [("assemble", &m), ("serial assemble", &ser)] {
                    ensure!(x.nnz() == sum.len(), "matrix-entries-missing", "{}: {} entries", name, x.nnz());
                    for (i, j, v) in x.triplet_iter() {
                        let (w, a) = (f * sum[&(i, j)], f * abs[&(i, j)]);
                        ensure!(close(*v, w, a), "matrix-entry-wrong", "{}: entry ({},{}) is {:e}, sum of contributions is {:e}", name, i, j, v, w);
                    }
                }
                let (m1, n1) = in_pool(1, || run("one thread"));
                for ((i, j, v), (_, _, w)) in m.triplet_iter().zip(m1.triplet_iter()) {
                    ensure!(v.to_bits() == w.to_bits(), "matrix-depends-on-schedule", "entry ({},{}): {:e} on {} threads, {:e} on one", i, j, v, c.env.threads, w);
                }
                if let (Some(n), Some(n1)) = (n, n1) {
                    for ((i, j, v), (_, _, w)) in n.triplet_iter().zip(n1.triplet_iter()) {
                        ensure!(v.to_bits() == w.to_bits(), "matrix-depends-on-schedule", "into: entry ({},{}): {:e} on {} threads, {:e} on one", i, j, v, c.env.threads, w);
                    }
                }
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------ A02
pub struct A02;
#[derive(Serialize, Deserialize)]
pub struct A02Case {
    env: Env,
    hg: Hg,
    wrap: Wrap,
    nested: bool,
    again: bool,
}
impl Property for A02 {
    type Case = A02Case;
    fn gen(r: &mut Rng, c: GenCtx) -> A02Case {
        let hg = Hg::gen(r, if c.thorough { 80 } else { 64 });
        A02Case { env: Env::gen(r), wrap: Wrap::gen(r, hg.elems.len()), nested: r.chance(1, 8), again: r.chance(1, 4), hg }
    }
    fn valid(c: &A02Case) -> bool {
        c.hg.ok() && c.env.ok()
    }
    fn run(c: A02Case) {
        let hg = &c.hg;
        hg.thin();
        if hg.elems.len() > 10 {
            simrt::probe(2);
        }
        if hg.nodes == 0 {
            simrt::probe(3);
        }
        simrt::quiet(|| {
            let mut used = vec![false; hg.nodes];
            hg.elems.iter().flatten().for_each(|&n| used[n] = true);
            if used.contains(&false) {
                simrt::probe(4);
            }
        });
        probes_elems(hg, &[]);
        nontrivial_if(hg.elems.len() >= 2);
        let ps = c.env.with(|| {
            with_asm(hg, &c.wrap, c.nested, 1, false, &Faults::none(), |a, _| {
                let asm = CsrParAssembler::<f64>::default();
                lib_call();
                let p = asm.assemble_pattern(a);
                let q = if c.again { Some(asm.assemble_pattern(a)) } else { None };
                (p, q)
            })
        });
        simrt::quiet(|| {
            check_pattern(&ps.0, hg, "parallel pattern");
            if let Some(q) = &ps.1 {
                check_pattern(q, hg, "second parallel pattern");
            }
            let s = with_asm(hg, &c.wrap, false, 1, false, &Faults::none(), |a, _| CsrAssembler::<f64>::default().assemble_pattern(a));
            check_pattern(&s, hg, "serial pattern");
        });
    }
}

// ------------------------------------------------------------------------------------------------ A03
pub struct A03;
#[derive(Serialize, Deserialize)]
pub struct A03Case {
    env: Env,
    hg: Hg,
    wrap: Wrap,
    nested: bool,
    salt: u64,
    inexact: bool,
    col: Coloring,
    into: bool,
}
fn start_vector(hg: &Hg, salt: u64) -> DVector<f64> {
    DVector::from_fn(hg.nodes * hg.sdim, |i, _| value(salt ^ 0x77, false, 8888, i, 0))
}
pub fn check_vector(v: &DVector<f64>, want: &[f64], what: &str) {
    ensure!(v.len() == want.len(), "vector-length", "{}: {} instead of {}", what, v.len(), want.len());
    for (i, w) in want.iter().enumerate() {
        ensure!(same(v[i], *w), "vector-entry-wrong", "{}: entry {} is {:e}, sum of contributions is {:e}", what, i, v[i], w);
    }
}
impl Property for A03 {
    type Case = A03Case;
    fn gen(r: &mut Rng, c: GenCtx) -> A03Case {
        let hg = Hg::gen(r, if c.thorough { 80 } else { 64 });
        A03Case { env: Env::gen(r), wrap: Wrap::gen(r, hg.elems.len()), nested: r.chance(1, 8), salt: r.below(1 << 40), inexact: r.chance(1, 4), col: Coloring::gen(r), into: r.chance(1, 2), hg }
    }
    fn valid(c: &A03Case) -> bool {
        c.hg.ok() && c.env.ok()
    }
    fn run(c: A03Case) {
        let hg = &c.hg;
        hg.thin();
        let f = c.wrap.factor();
        let colors = c.col.build(hg);
        probes_elems(hg, &colors);
        nontrivial_if(hg.elems.len() >= 2);
        let run = || {
            with_asm(hg, &c.wrap, c.nested, c.salt, c.inexact, &Faults::none(), |a, _| {
                let asm = VectorParAssembler::default();
                lib_call();
                let v = asm.assemble_vector(&colors, a).unwrap_or_else(|e| simrt::fail("unexpected-err", &format!("{:?}", e)));
                let mut w = None;
                if c.into {
                    simrt::probe(2);
                    let mut x = simrt::quiet(|| start_vector(hg, c.salt));
                    lib_call();
                    asm.assemble_vector_into(&mut x, &colors, a).unwrap_or_else(|e| simrt::fail("unexpected-err", &format!("{:?}", e)));
                    w = Some(x);
                }
                (v, w)
            })
        };
        let (v, w) = c.env.with(run);
        simrt::quiet(|| {
            let ser = with_asm(hg, &c.wrap, false, c.salt, c.inexact, &Faults::none(), |a, _| VectorAssembler::default().assemble_vector(a)).unwrap();
            let mut want = model_vector(hg, c.salt, c.inexact, false);
            want.iter_mut().for_each(|x| *x *= f);
            if !c.inexact {
                check_vector(&v, &want, "assemble_vector");
                check_vector(&ser, &want, "serial assemble_vector");
                if let Some(w) = w {
                    let mut s = start_vector(hg, c.salt);
                    let sum: Vec<f64> = s.iter().zip(&want).map(|(a, b)| a + b).collect();
                    check_vector(&w, &sum, "assemble_vector_into");
                    with_asm(hg, &c.wrap, false, c.salt, false, &Faults::none(), |a, _| VectorAssembler::default().assemble_vector_into(&mut s, a)).unwrap();
                    check_vector(&s, &sum, "serial assemble_vector_into");
                }
            } else {
                simrt::probe(4);
                let abs = model_vector(hg, c.salt, true, true);
                for (n, x) in [("assemble_vector", &v), ("serial assemble_vector", &ser)] {
                    ensure!(x.len() == want.len(), "vector-length", "{}: {}", n, x.len());
                    for i in 0..want.len() {
                        ensure!(close(x[i], want[i], f * abs[i]), "vector-entry-wrong", "{}: entry {} is {:e}, sum of contributions is {:e}", n, i, x[i], want[i]);
                    }
                }
                let (v1, w1) = in_pool(1, run);
                let bits = |x: &DVector<f64>| x.iter().map(|a| a.to_bits()).collect::<Vec<_>>();
                ensure!(bits(&v) == bits(&v1), "vector-depends-on-schedule", "{} threads: {:?}, one: {:?}", c.env.threads, v, v1);
                ensure!(w.as_ref().map(bits) == w1.as_ref().map(bits), "vector-depends-on-schedule", "into: {} threads: {:?}, one: {:?}", c.env.threads, w, w1);
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------ A04
pub struct A04;
#[derive(Serialize, Deserialize)]
pub struct A04Case {
    env: Env,
    n: usize,
    wrap: Wrap,
    nested: bool,
    salt: u64,
    inexact: bool,
    old: bool,
}
impl Property for A04 {
    type Case = A04Case;
    fn gen(r: &mut Rng, c: GenCtx) -> A04Case {
        let n = match r.below(5) {
            0 if r.chance(1, 40) => r.urange(300, 6000),
            0 => r.urange(0, 3),
            1 => r.urange(0, if c.thorough { 400 } else { 200 }),
            _ => elem_count(r, 100),
        };
        A04Case { env: Env::gen(r), n, wrap: Wrap::gen(r, n), nested: r.chance(1, 8), salt: r.below(1 << 40), inexact: r.chance(1, 3), old: r.chance(1, 4) }
    }
    fn valid(c: &A04Case) -> bool {
        c.n <= 10000 && c.env.ok()
    }
    #[allow(deprecated)]
    fn run(c: A04Case) {
        let hg = Hg { nodes: 4, sdim: 1, elems: (0..c.n).map(|e| vec![e % 4]).collect() };
        hg.thin();
        let f = c.wrap.factor();
        nontrivial_if(c.n >= 2);
        if c.n == 0 {
            simrt::probe(0)
        }
        if c.n > 50 {
            simrt::probe(1)
        }
        if c.inexact {
            simrt::probe(2)
        }
        let (v, counts) = c.env.with(|| {
            with_asm(&hg, &c.wrap, c.nested, c.salt, c.inexact, &Faults::none(), |a, cnt| {
                lib_call();
                let v = if c.old { par_compute_global_potential(a) } else { par_assemble_scalar(a) };
                (v.unwrap_or_else(|e| simrt::fail("unexpected-err", &format!("{:?}", e))), (0..c.n).map(|e| cnt(e)).collect::<Vec<_>>())
            })
        });
        simrt::quiet(|| {
            for (e, k) in counts.iter().enumerate() {
                ensure!(*k == 1, "element-call-count", "element {} evaluated {} times", e, k);
            }
            let (ser, sc) = with_asm(&hg, &c.wrap, false, c.salt, c.inexact, &Faults::none(), |a, cnt| {
                let v = if c.old { compute_global_potential(a) } else { assemble_scalar(a) };
                (v.unwrap(), (0..c.n).map(|e| cnt(e)).collect::<Vec<_>>())
            });
            ensure!(sc.iter().all(|&k| k == 1), "element-call-count", "serial: {:?}", sc);
            let vals: Vec<f64> = (0..c.n).map(|e| f * value(c.salt, c.inexact, e, 0, 0)).collect();
            let sum: f64 = vals.iter().sum();
            let abs: f64 = vals.iter().map(|x| x.abs()).sum();
            if c.inexact {
                ensure!(close(v, sum, abs), "scalar-wrong", "parallel {:e}, sum {:e}", v, sum);
                ensure!(close(ser, sum, abs), "scalar-wrong", "serial {:e}, sum {:e}", ser, sum);
            } else {
                ensure!(same(v, sum), "scalar-wrong", "parallel {:e}, sum {:e}", v, sum);
                ensure!(same(ser, sum), "scalar-wrong", "serial {:e}, sum {:e}", ser, sum);
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------ A05
pub struct A05;
#[derive(Serialize, Deserialize)]
pub struct A05Case {
    env: Env,
    hg: Hg,
    wrap: Wrap,
    nested: bool,
    salt: u64,
    col: Coloring,
    /// 0 matrix, 1 matrix into, 2 vector, 3 vector into, 4 scalar
    routine: u8,
    parallel: bool,
    faults: Faults,
    /// failures come from the transformation instead of the element callback
    in_transform: bool,
    after: bool,
}
/// A transformed assembler whose transformation fails for given elements.
fn with_failing_transform<R>(hg: &Hg, salt: u64, faults: &Faults, f: impl FnOnce(&Dyn, &dyn Fn(usize) -> u32) -> R) -> R {
    let a = Keep(Asm::new(hg, salt, false));
    // entry (0,0) tells which element it is
    let by_value: BTreeMap<u64, usize> = (0..hg.elems.len()).map(|e| (value(salt, false, e, 0, 0).to_bits(), e)).collect();
    let check = |x: Option<f64>| -> eyre::Result<()> {
        simrt::callback_point();
        if let Some(e) = x.and_then(|x| by_value.get(&x.to_bits()).copied()) {
            if faults.panic.contains(&e) {
                simrt::note_fault(FK_PANIC);
                std::panic::panic_any(InjectedPanic(e));
            }
            if faults.err.contains(&e) {
                simrt::note_fault(FK_ERR);
                return Err(eyre::eyre!("injected e={}.", e));
            }
        }
        Ok(())
    };
    let m = Fwd(&a)
        .transform_element_matrix(|o: DMatrixViewMut<f64>| check(o.iter().next().copied()))
        .transform_element_vector(|o: DVectorViewMut<f64>| check(o.iter().next().copied()))
        .transform_element_scalar(|x: f64| check(Some(x)).map(|_| x));
    f(&Dyn { a: &m, nested: false }, &|e| a.0.count(e))
}
enum Res {
    Matrix(CsrMatrix<f64>),
    Vector(DVector<f64>),
    Scalar(f64),
}
#[allow(clippy::too_many_arguments)]
fn call(routine: u8, parallel: bool, hg: &Hg, salt: u64, colors: &[DisjointSubsets], a: &Dyn, mat: &CsrParAssembler<f64>, smat: &CsrAssembler<f64>, vec: &VectorParAssembler<f64>, svec: &VectorAssembler<f64>) -> eyre::Result<Res> {
    lib_call();
    Ok(match routine {
        0 => Res::Matrix(if parallel { mat.assemble(colors, a)? } else { smat.assemble(a)? }),
        1 => {
            let (mut m, _) = simrt::quiet(|| start_matrix(hg, salt, true, 3));
            if parallel {
                mat.assemble_into_csr(&mut m, colors, a)?
            } else {
                smat.assemble_into_csr(&mut m, a)?
            }
            Res::Matrix(m)
        }
        2 => Res::Vector(if parallel { vec.assemble_vector(colors, a)? } else { svec.assemble_vector(a)? }),
        3 => {
            let mut v = simrt::quiet(|| start_vector(hg, salt));
            if parallel {
                vec.assemble_vector_into(&mut v, colors, a)?
            } else {
                svec.assemble_vector_into(&mut v, a)?
            }
            Res::Vector(v)
        }
        _ => Res::Scalar(if parallel { par_assemble_scalar(a)? } else { assemble_scalar(a)? }),
    })
}
/// Compares an Ok result with the model.
fn check_res(r: &Res, routine: u8, hg: &Hg, salt: u64, f: f64, what: &str) {
    match r {
        Res::Matrix(m) => {
            let mut want = model_matrix(hg, salt, false);
            want.values_mut().for_each(|v| *v *= f);
            if routine == 1 {
                let (_, mut w) = start_matrix(hg, salt, true, 3);
                for (k, v) in &want {
                    *w.get_mut(k).unwrap() += v;
                }
                want = w;
            }
            check_matrix(m, &want, what);
        }
        Res::Vector(v) => {
            let mut want = model_vector(hg, salt, false, false);
            want.iter_mut().for_each(|x| *x *= f);
            if routine == 3 {
                for (a, b) in want.iter_mut().zip(start_vector(hg, salt).iter()) {
                    *a += b;
                }
            }
            check_vector(v, &want, what);
        }
        Res::Scalar(s) => {
            let want: f64 = (0..hg.elems.len()).map(|e| f * value(salt, false, e, 0, 0)).sum();
            ensure!(same(*s, want), "scalar-wrong", "{}: {:e}, sum {:e}", what, s, want);
        }
    }
}
pub fn gen_faults(r: &mut Rng, ne: usize) -> Faults {
    let mut f = Faults::none();
    if ne == 0 {
        return f;
    }
    let k = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => r.urange(1, 4),
        _ => ne.min(20),
    };
    let kind = r.below(5);
    for _ in 0..k {
        let e = if r.chance(1, 5) { *r.pick(&[0, ne - 1]) } else { r.usize(ne) };
        if f.err.contains(&e) || f.panic.contains(&e) {
            continue;
        }
        if kind < 3 || kind == 3 && r.chance(1, 2) {
            f.err.push(e)
        } else {
            f.panic.push(e)
        }
    }
    f
}
/// Judges the outcome of a call under faults. Returns whether it failed as it had to.
#[allow(clippy::too_many_arguments)]
fn judge(out: Result<eyre::Result<Res>, Box<dyn std::any::Any + Send>>, faults: &Faults, parallel: bool, routine: u8, hg: &Hg, salt: u64, f: f64, cnt: &[u32], what: &str) {
    let any = faults.first();
    match out {
        Ok(Ok(r)) => {
            if let Some(e) = any {
                simrt::fail("failure-lost", &format!("{}: Ok although element {} fails", what, e));
            }
            check_res(&r, routine, hg, salt, f, what);
        }
        Ok(Err(e)) => match injected(&e) {
            Some(i) if faults.err.contains(&i) => {
                if parallel {
                    simrt::probe(0)
                } else {
                    ensure!(Some(i) == any, "serial-not-first-error", "{}: error of element {} although {:?} fails first", what, i, any);
                }
            }
            _ => simrt::fail("wrong-error", &format!("{}: {:?}, injected {:?}", what, e, faults)),
        },
        Err(p) => match p.downcast_ref::<InjectedPanic>() {
            Some(InjectedPanic(i)) if faults.panic.contains(i) => {
                if parallel {
                    simrt::probe(1)
                } else {
                    ensure!(Some(*i) == any, "serial-not-first-error", "{}: panic of element {} although {:?} fails first", what, i, any);
                }
            }
            _ => {
                let ps = simrt::take_panics();
                simrt::fail("wrong-panic", &format!("{}: {} {:?}, injected {:?}", what, payload(&*p), ps, faults))
            }
        },
    }
    if !parallel {
        if let Some(k) = any {
            for e in k + 1..cnt.len() {
                ensure!(cnt[e] == 0, "evaluated-after-failure", "{}: element {} evaluated after element {} failed", what, e, k);
            }
        }
    }
}
impl Property for A05 {
    type Case = A05Case;
    fn gen(r: &mut Rng, c: GenCtx) -> A05Case {
        let hg = Hg::gen(r, if c.thorough { 60 } else { 40 });
        let in_transform = r.chance(1, 6) && hg.elems.iter().all(|e| !e.is_empty());
        let faults = gen_faults(r, hg.elems.len());
        A05Case {
            env: Env::gen(r), wrap: Wrap::gen(r, hg.elems.len()), nested: r.chance(1, 8), salt: r.below(1 << 40), col: Coloring::gen(r),
            routine: r.below(5) as u8, parallel: r.chance(3, 4), faults, in_transform, after: r.chance(1, 2), hg,
        }
    }
    fn valid(c: &A05Case) -> bool {
        c.hg.ok() && c.env.ok() && c.faults.err.iter().chain(&c.faults.panic).all(|&e| e < c.hg.elems.len() && (!c.in_transform || !c.hg.elems[e].is_empty()))
            && c.faults.err.iter().all(|e| !c.faults.panic.contains(e))
    }
    fn run(c: A05Case) {
        let hg = &c.hg;
        hg.thin();
        let colors = c.col.build(hg);
        if !c.faults.err.is_empty() && !c.faults.panic.is_empty() {
            simrt::probe(2)
        }
        if !c.parallel {
            simrt::probe(4)
        }
        if c.in_transform {
            simrt::probe(8)
        }
        nontrivial();
        let (mat, smat, vec, svec) = (CsrParAssembler::default(), CsrAssembler::default(), VectorParAssembler::default(), VectorAssembler::default());
        let what = format!("{} routine {}", if c.parallel { "parallel" } else { "serial" }, c.routine);
        // serial assemblers are not Sync: with a pool of its own the caller moves them in
        let body = move || {
            let go = |a: &Dyn, cnt: &dyn Fn(usize) -> u32| {
                let o = catch(|| call(c.routine, c.parallel, hg, c.salt, &colors, a, &mat, &smat, &vec, &svec));
                (o, (0..hg.elems.len()).map(|e| cnt(e)).collect::<Vec<_>>())
            };
            let (out, cnt) = if c.in_transform {
                with_failing_transform(hg, c.salt, &c.faults, go)
            } else {
                with_asm(hg, &c.wrap, c.nested, c.salt, false, &c.faults, go)
            };
            let f = if c.in_transform { 1.0 } else { c.wrap.factor() };
            simrt::quiet(|| judge(out, &c.faults, c.parallel, c.routine, hg, c.salt, f, &cnt, &what));
            if c.after {
                simrt::probe(3);
                let out = with_asm(hg, &c.wrap, false, c.salt, false, &Faults::none(), |a, _| catch(|| call(c.routine, c.parallel, hg, c.salt, &colors, a, &mat, &smat, &vec, &svec)));
                simrt::quiet(|| judge(out, &Faults::none(), c.parallel, c.routine, hg, c.salt, c.wrap.factor(), &[], "call after the failure"));
            }
        };
        c.env.clone_with(body);
    }
}
impl Env {
    fn clone_with(&self, f: impl FnOnce() + Send) {
        self.with(f)
    }
}

// ------------------------------------------------------------------------------------------------ A06
pub struct A06;
#[derive(Serialize, Deserialize, Clone)]
pub struct A06Op {
    hg: usize,
    /// 0..=4 as in A05, 5 pattern
    routine: u8,
    parallel: bool,
    salt: u64,
    faults: Faults,
    col: usize,
    /// the elements give NaN (and the result is of no interest)
    #[serde(default)]
    nan: bool,
}
#[derive(Serialize, Deserialize)]
pub struct A06Case {
    env: Env,
    hgs: Vec<Hg>,
    cols: Vec<Coloring>,
    callers: Vec<Vec<A06Op>>,
    /// callers are tasks of the pool instead of threads outside of it
    as_tasks: bool,
}
impl Property for A06 {
    type Case = A06Case;
    fn gen(r: &mut Rng, c: GenCtx) -> A06Case {
        let k = r.urange(1, 3);
        let mut hgs: Vec<Hg> = (0..k).map(|_| Hg::gen(r, if c.thorough { 40 } else { 24 })).collect();
        for i in 1..k {
            if r.chance(1, 2) {
                hgs[i] = hgs[0].variant(r)
            }
        }
        let cols: Vec<Coloring> = (0..r.urange(1, 2)).map(|_| Coloring::gen(r)).collect();
        let nc = *r.pick(&[1usize, 1, 1, 2, 2, 3]);
        let callers = (0..nc)
            .map(|_| {
                let n = if nc == 1 { r.urange(2, 6) } else { r.urange(1, 4) };
                (0..n)
                    .map(|_| {
                        let hg = r.usize(k);
                        let faults = if r.chance(1, 4) { gen_faults(r, hgs[hg].elems.len()) } else { Faults::none() };
                        A06Op { hg, routine: r.below(6) as u8, parallel: r.chance(3, 5), salt: r.below(1 << 40), faults, col: r.usize(cols.len()), nan: r.chance(1, 8) }
                    })
                    .collect()
            })
            .collect();
        A06Case { env: Env::gen(r), hgs, cols, callers, as_tasks: r.chance(1, 3) }
    }
    fn valid(c: &A06Case) -> bool {
        c.env.ok() && c.hgs.iter().all(|h| h.ok()) && c.callers.len() <= 4 && !c.hgs.is_empty()
            && c.callers.iter().flatten().all(|o| o.hg < c.hgs.len() && o.col < c.cols.len() && o.faults.err.iter().chain(&o.faults.panic).all(|&e| e < c.hgs[o.hg].elems.len()) && o.faults.err.iter().all(|e| !o.faults.panic.contains(e)))
    }
    fn run(c: A06Case) {
        if let Some(h) = c.hgs.iter().max_by_key(|h| h.elems.len() + h.nodes) {
            h.thin()
        }
        let colors: Vec<Vec<Vec<DisjointSubsets>>> = c.cols.iter().map(|k| c.hgs.iter().map(|h| k.build(h)).collect()).collect();
        nontrivial_if(c.callers.iter().map(|x| x.len()).sum::<usize>() >= 2);
        if c.callers.len() > 1 {
            simrt::probe(0);
            simrt::note_fault(FK_CONCURRENT);
        }
        let mat = CsrParAssembler::<f64>::default();
        let vec = VectorParAssembler::<f64>::default();
        let (mat, vec, colors) = (&mat, &vec, &colors);
        let caller = |k: usize| {
            let smat = CsrAssembler::<f64>::default();
            let svec = VectorAssembler::<f64>::default();
            let mut before: Option<bool> = None;
            for (i, o) in c.callers[k].iter().enumerate() {
                let hg = &c.hgs[o.hg];
                let cols = &colors[o.col][o.hg];
                match before {
                    Some(true) => {
                        simrt::probe(2);
                        simrt::note_fault(FK_FAILED_BEFORE)
                    }
                    Some(false) => {
                        simrt::probe(1);
                        simrt::note_fault(FK_FAILED_BEFORE)
                    }
                    None => {}
                }
                if i > 0 {
                    if !o.parallel {
                        simrt::probe(3)
                    }
                    let p = &c.hgs[c.callers[k][i - 1].hg];
                    if p.elems.iter().map(|e| e.len() * p.sdim).max() > hg.elems.iter().map(|e| e.len() * hg.sdim).max() {
                        simrt::probe(4)
                    }
                }
                before = None;
                let what = format!("caller {} call {}", k, i);
                let mut a = Asm::new(hg, o.salt, false).with_faults(&o.faults);
                a.nan = o.nan;
                let d = Dyn { a: &a, nested: false };
                if o.routine == 5 {
                    lib_call();
                    let p = if o.parallel { mat.assemble_pattern(&d) } else { smat.assemble_pattern(&d) };
                    simrt::quiet(|| check_pattern(&p, hg, &what));
                    continue;
                }
                let out = catch(|| call(o.routine, o.parallel, hg, o.salt, cols, &d, mat, &smat, vec, &svec));
                match &out {
                    Err(_) => before = Some(true),
                    Ok(Err(_)) => before = Some(false),
                    _ => {}
                }
                if o.nan {
                    continue;
                }
                let cnt: Vec<u32> = (0..hg.elems.len()).map(|e| a.count(e)).collect();
                simrt::quiet(|| judge(out, &o.faults, o.parallel, o.routine, hg, o.salt, 1.0, &cnt, &what));
            }
        };
        let caller = &caller;
        let n = c.callers.len();
        if c.as_tasks {
            // callers are tasks inside the pool
            c.env.with(|| {
                rayon::scope(|s| {
                    for k in 0..n {
                        s.spawn(move |_| caller(k));
                    }
                })
            });
        } else if c.env.global {
            c.env.with(|| {
                std::thread::scope(|s| {
                    for k in 1..n {
                        s.spawn(move || caller(k));
                    }
                    caller(0);
                })
            });
        } else {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(c.env.threads).build().expect("pool");
            std::thread::scope(|s| {
                for k in 1..n {
                    let pool = &pool;
                    s.spawn(move || pool.install(|| caller(k)));
                }
                if n > 0 {
                    pool.install(|| caller(0));
                }
            });
        }
    }
}

// ------------------------------------------------------------------------------------------------ A08
pub struct A08;
#[derive(Serialize, Deserialize)]
pub struct A08Case {
    env: Env,
    hg: Hg,
    direct: bool,
}
impl Property for A08 {
    type Case = A08Case;
    fn gen(r: &mut Rng, c: GenCtx) -> A08Case {
        let mut hg = Hg::gen(r, if c.thorough { 100 } else { 64 });
        if r.chance(1, 8) && !hg.elems.is_empty() {
            // far larger node indices
            let k = if r.chance(1, 8) { r.urange(60000, 70000) } else { r.urange(50, 900) };
            for e in &mut hg.elems {
                for x in e {
                    *x += k;
                }
            }
            hg.nodes += k;
        }
        if r.chance(1, 80) {
            // a fan: every element needs a color of its own
            let n = if r.chance(1, 4) { r.urange(250, 600) } else { r.urange(100, 300) };
            let rim = r.urange(1, 2 * n);
            let hub = r.usize(rim + 1);
            let k = r.urange(0, 3);
            hg.nodes = rim + 1;
            hg.elems = (0..n)
                .map(|e| {
                    let mut v = vec![hub];
                    v.extend((0..k).map(|i| (e + i) % (rim + 1)).filter(|&x| x != hub));
                    v.sort_unstable();
                    v.dedup();
                    r.shuffle(&mut v);
                    v
                })
                .collect();
        }
        A08Case { env: Env::gen(r), hg, direct: r.chance(1, 2) }
    }
    fn valid(c: &A08Case) -> bool {
        c.hg.ok() && c.env.ok()
    }
    fn run(c: A08Case) {
        let hg = &c.hg;
        hg.thin();
        lib_call();
        let colors = if c.direct {
            let mut nv = NestedVec::new();
            for e in &hg.elems {
                nv.push(e);
            }
            fenris_paradis::coloring::sequential_greedy_coloring(&nv)
        } else {
            color_nodes(&Conn(&hg.elems, hg.nodes))
        };
        if colors.len() >= 3 {
            simrt::probe(0)
        }
        if colors.len() >= 100 {
            simrt::probe(3)
        }
        if hg.elems.is_empty() {
            simrt::probe(1)
        }
        if hg.elems.iter().any(|e| e.is_empty()) {
            simrt::probe(2)
        }
        nontrivial_if(colors.len() >= 2);
        simrt::quiet(|| {
            let mut seen = vec![0; hg.elems.len()];
            for (k, col) in colors.iter().enumerate() {
                let mut used: BTreeMap<usize, usize> = BTreeMap::new();
                ensure!(col.labels().len() == col.subsets().len(), "coloring-labels", "color {}: {} labels for {} subsets", k, col.labels().len(), col.subsets().len());
                for (l, s) in col.labels().iter().zip(col.subsets().iter()) {
                    ensure!(*l < hg.elems.len(), "coloring-labels", "color {}: label {}", k, l);
                    seen[*l] += 1;
                    ensure!(s == hg.elems[*l].as_slice(), "coloring-indices", "color {}: element {} has indices {:?}, its nodes are {:?}", k, l, s, hg.elems[*l]);
                    for n in s {
                        if let Some(o) = used.insert(*n, *l) {
                            simrt::fail("coloring-conflict", &format!("color {}: elements {} and {} share node {}", k, o, l, n));
                        }
                    }
                }
            }
            for (e, s) in seen.iter().enumerate() {
                ensure!(*s == 1, "coloring-coverage", "element {} appears {} times", e, s);
            }
        });
        // drive it: every element once, no node twice at the same time
        let hits = c.env.with(|| {
            let mut data = super::paradis::Tracked::new(hg.nodes);
            let hits: Vec<std::sync::atomic::AtomicU32> = (0..hg.elems.len()).map(|_| Default::default()).collect();
            for col in &colors {
                lib_call();
                col.subsets_par_iter(&mut data).for_each(|mut s| {
                    let e = s.label();
                    hits[e].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    for i in 0..s.len() {
                        let g = s.get_mut(i);
                        g.set(e);
                        simrt::callback_point();
                    }
                });
            }
            ensure!(ParallelIndexedCollection::len(&data) == hg.nodes, "tracked", "length");
            hits.iter().map(|h| h.load(std::sync::atomic::Ordering::Relaxed)).collect::<Vec<_>>()
        });
        for (e, h) in hits.iter().enumerate() {
            ensure!(*h == 1, "coloring-coverage", "element {} was handed out {} times", e, h);
        }
    }
}

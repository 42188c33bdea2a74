//! Things several scenarios share: pools, hypergraphs, a recording element assembler with faults, the model.
use fenris::assembly::local::*;
use fenris::nalgebra::{DMatrixViewMut, DVectorViewMut};
use fenris::space::FiniteElementConnectivity;
use fenris_nested_vec::NestedVec;
use fenris_paradis::DisjointSubsets;
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($f:tt)*) => {
        if !$c {
            simrt::fail($class, &format!($($f)*));
        }
    };
}

pub fn nontrivial() {
    unsafe { (*simrt::shm::SHM).nontrivial = 1 }
}
pub fn lib_call() {
    unsafe { (*simrt::shm::SHM).lib_calls += 1 }
}
pub const FK_ERR: usize = 4;
pub const FK_PANIC: usize = 5;
pub const FK_CONCURRENT: usize = 28;
pub const FK_FAILED_BEFORE: usize = 29;
pub const FK_THREAD_RESTART: usize = 19;
pub const FK_HASH: usize = 18;
pub const FK_CORRUPT: usize = 16;
pub const FK_TRUNC: usize = 17;
pub const FK_TOKEN: usize = 21;
pub const FK_TOKEN_DROP: usize = 24;
pub const FK_TOKEN_DUP: usize = 25;

// ------------------------------------------------------------------------------------------------ pools
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Env {
    pub threads: usize,
    /// global pool and a caller outside of it, or a caller inside a pool of its own
    pub global: bool,
}
impl Env {
    pub fn gen(r: &mut Rng) -> Env {
        let threads = *r.pick(&[1usize, 2, 2, 2, 3, 3, 4, 4, 5, 6, 8]);
        Env { threads, global: r.chance(1, 2) }
    }
    pub fn ok(&self) -> bool {
        (1..=16).contains(&self.threads)
    }
    /// Runs `f` with this pool as the current one. A global pool can be made once per run.
    pub fn with<R: Send>(&self, f: impl FnOnce() -> R + Send) -> R {
        if self.global {
            rayon::ThreadPoolBuilder::new().num_threads(self.threads).build_global().expect("global pool");
            f()
        } else {
            in_pool(self.threads, f)
        }
    }
}
pub fn in_pool<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
    p.install(f)
}

// ------------------------------------------------------------------------------------------------ hypergraphs
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Hg {
    pub nodes: usize,
    pub sdim: usize,
    pub elems: Vec<Vec<usize>>,
}
pub fn elem_count(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(8) {
        0 => r.urange(0, 2),
        1 => *r.pick(&[9usize, 10, 11]),
        2 => *r.pick(&[19usize, 20, 21]),
        3 => *r.pick(&[29usize, 30, 31, 39, 40, 41]),
        4 => r.urange(1, 64),
        _ => r.urange(2, 30),
    };
    n.min(max)
}
impl Hg {
    pub fn gen(r: &mut Rng, max_elems: usize) -> Hg {
        match r.below(240) {
            0 | 1 if max_elems >= 24 => Hg::gen_large(r, 2000, 60_000),
            2 if max_elems >= 24 => Hg::gen_far(r),
            3 if max_elems >= 24 => Hg::gen_wide(r),
            _ => Hg::gen_small(r, max_elems),
        }
    }
    /// many elements (`work` bounds the number of matrix entries they have)
    pub fn gen_large(r: &mut Rng, max: usize, work: usize) -> Hg {
        let ne = if r.chance(1, 2) { r.urange(100, 400.min(max)) } else { r.urange(100, max) };
        let sdim = *r.pick(&[1usize, 1, 2, 3]);
        let mut h = Hg::gen_with(r, ne, sdim);
        let mut w = 0;
        let keep = h.elems.iter().take_while(|e| { w += 1 + (e.len() * sdim).pow(2); w < work }).count();
        h.elems.truncate(keep);
        h
    }
    /// few elements with large node numbers
    pub fn gen_far(r: &mut Rng) -> Hg {
        let ne = elem_count(r, 40);
        let mut h = Hg::gen_with(r, ne, 1);
        let k = if r.chance(1, 2) { 70_000 } else { r.urange(300, 3000) };
        let stride = if r.chance(1, 2) { (k / h.nodes.max(1)).max(1) } else { 1 };
        let shift = if stride == 1 { k } else { 0 };
        h.elems.iter_mut().flatten().for_each(|x| *x = *x * stride + shift);
        h.nodes = h.nodes * stride + shift;
        h
    }
    /// few elements of very many nodes
    pub fn gen_wide(r: &mut Rng) -> Hg {
        let ne = r.urange(1, 12);
        let nodes = r.urange(28, 200);
        let elems = (0..ne)
            .map(|_| {
                let k = if r.chance(1, 2) { *r.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129]) } else { r.urange(1, 130) };
                let mut p: Vec<usize> = (0..nodes).collect();
                r.shuffle(&mut p);
                p.truncate(k);
                if r.chance(1, 2) {
                    p.sort_unstable()
                }
                p
            })
            .collect();
        Hg { nodes, sdim: 1, elems }
    }
    /// Makes voluntary switches rarer in large cases.
    pub fn thin(&self) {
        let work: usize = self.elems.iter().map(|e| 1 + e.len() * self.sdim).sum::<usize>() + self.nodes / 4;
        if work > 1000 {
            simrt::thin(work as u64 / 400)
        }
    }
    pub fn gen_small(r: &mut Rng, max_elems: usize) -> Hg {
        let ne = elem_count(r, max_elems);
        let sdim = *r.pick(&[1usize, 1, 1, 2, 2, 3, 4]);
        Hg::gen_with(r, ne, sdim)
    }
    pub fn gen_with(r: &mut Rng, ne: usize, sdim: usize) -> Hg {
        let style = r.below(6);
        let fixed = if r.chance(1, 2) { Some(r.urange(1, 5)) } else { None };
        // as many nodes as the largest elements have
        let big = r.chance(1, 10);
        let fixed = if big && r.chance(1, 2) { Some(*r.pick(&[8usize, 9, 10, 16, 20, 27])) } else { fixed };
        let allow_empty = r.chance(1, 6);
        let nodes0 = match style {
            0 => r.urange(1, 12),
            1 => ne * 2 + 2,
            2 => r.urange(6, 60),
            3 => ne * 4 + 4,
            4 => r.urange(2, 8),
            _ => r.urange(8, 30),
        };
        let nodes0 = if big { nodes0 + r.urange(10, 60) } else { nodes0 };
        let mut elems: Vec<Vec<usize>> = Vec::new();
        let hub = r.usize(nodes0);
        // neighbours in real meshes list their nodes in nearly the same order
        let similar = r.chance(1, 5);
        for e in 0..ne {
            if similar && e > 0 && r.chance(3, 4) && !elems[e - 1].is_empty() {
                let mut ns = elems[e - 1].clone();
                for _ in 0..r.urange(0, 3) {
                    let i = r.usize(ns.len());
                    let x = if r.chance(1, 2) { r.usize(nodes0) } else { (ns[i] + 2 * nodes0 + r.urange(0, 4) - 2) % nodes0 };
                    match ns.iter().position(|&y| y == x) {
                        Some(j) => ns.swap(i, j),
                        None => ns[i] = x,
                    }
                }
                elems.push(ns);
                continue;
            }
            let mut k = fixed.unwrap_or_else(|| if big && r.chance(1, 2) { r.urange(8, 27) } else { r.urange(1, 8) }).min(nodes0);
            if allow_empty && r.chance(1, 4) {
                k = 0;
            }
            let mut ns: Vec<usize> = match style {
                // strip: neighbours share nodes
                1 => (0..k).map(|i| (2 * e + i) % nodes0).collect(),
                // blocks that share nothing
                3 => (0..k.min(4)).map(|i| 4 * e + i).collect(),
                _ => {
                    let mut v = Vec::new();
                    while v.len() < k {
                        let x = r.usize(nodes0);
                        if !v.contains(&x) {
                            v.push(x)
                        }
                    }
                    v
                }
            };
            if style == 5 && !ns.is_empty() && !ns.contains(&hub) {
                ns[0] = hub;
            }
            ns.sort_unstable();
            ns.dedup();
            if r.chance(3, 4) {
                r.shuffle(&mut ns);
            }
            elems.push(ns);
        }
        let mut nodes = nodes0.max(elems.iter().flatten().map(|x| x + 1).max().unwrap_or(0));
        // nodes in no element, at the end or in between
        if r.chance(1, 3) {
            nodes += r.urange(1, 12);
        }
        if r.chance(1, 2) {
            let mut p: Vec<usize> = (0..nodes).collect();
            r.shuffle(&mut p);
            for e in &mut elems {
                for x in e {
                    *x = p[*x];
                }
            }
        }
        if ne == 0 && r.chance(1, 3) {
            nodes = 0;
        }
        Hg { nodes, sdim, elems }
    }
    /// another hypergraph of the same sizes
    pub fn variant(&self, r: &mut Rng) -> Hg {
        let mut h = self.clone();
        match r.below(5) {
            0 if h.nodes > 0 => {
                let mut p: Vec<usize> = (0..h.nodes).collect();
                r.shuffle(&mut p);
                h.elems.iter_mut().flatten().for_each(|x| *x = p[*x]);
            }
            1 => h.elems.reverse(),
            2 => {
                for e in &mut h.elems {
                    r.shuffle(e)
                }
            }
            3 if h.nodes > 0 => {
                for e in &mut h.elems {
                    if r.chance(1, 3) && !e.is_empty() {
                        let (i, x) = (r.usize(e.len()), r.usize(h.nodes));
                        if !e.contains(&x) {
                            e[i] = x
                        }
                    }
                }
            }
            _ => {
                let k = (h.elems.len() > 1) as usize;
                h.elems.rotate_left(k)
            }
        }
        h
    }
    pub fn ok(&self) -> bool {
        if self.sdim == 0 || self.sdim > 8 || self.nodes > 100_000 {
            return false;
        }
        self.elems.iter().all(|e| {
            let mut s = e.clone();
            s.sort_unstable();
            s.dedup();
            s.len() == e.len() && e.iter().all(|&x| x < self.nodes)
        })
    }
    /// rows of the pattern, by definition
    pub fn pattern(&self) -> Vec<Vec<usize>> {
        let mut nb: Vec<std::collections::BTreeSet<usize>> = vec![Default::default(); self.nodes];
        for e in &self.elems {
            for &a in e {
                for &b in e {
                    nb[a].insert(b);
                }
            }
        }
        let mut rows = Vec::new();
        for n in nb {
            for _ in 0..self.sdim {
                rows.push(n.iter().flat_map(|&m| (0..self.sdim).map(move |j| m * self.sdim + j)).collect());
            }
        }
        rows
    }
}

// ------------------------------------------------------------------------------------------------ values
/// Values: `inexact` 0 gives integers (sums exact in any order), otherwise doubles of widely different size.
pub fn value(salt: u64, inexact: bool, e: usize, i: usize, j: usize) -> f64 {
    let h = mix(mix(salt, e as u64), ((i as u64) << 32) | j as u64);
    if !inexact {
        ((h >> 40) as i64 - (1 << 23)) as f64
    } else {
        let m = ((h >> 12) as f64) / (1u64 << 52) as f64 - 0.5;
        m * 2f64.powi((h & 63) as i32 - 32)
    }
}

// ------------------------------------------------------------------------------------------------ element assembler
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Faults {
    pub err: Vec<usize>,
    pub panic: Vec<usize>,
}
impl Faults {
    pub fn none() -> Faults {
        Faults::default()
    }
    pub fn first(&self) -> Option<usize> {
        self.err.iter().chain(&self.panic).copied().min()
    }
}
/// The payload of an injected panic
pub struct InjectedPanic(pub usize);

pub struct Asm<'a> {
    pub hg: &'a Hg,
    pub salt: u64,
    pub inexact: bool,
    pub faults: Faults,
    /// evaluations of each element's matrix, vector or scalar
    pub calls: Vec<AtomicU32>,
    /// added to the element number in values, errors and faults (for aggregates)
    pub base: usize,
    /// every value is not a number
    pub nan: bool,
}
impl<'a> Asm<'a> {
    pub fn new(hg: &'a Hg, salt: u64, inexact: bool) -> Asm<'a> {
        Asm { hg, salt, inexact, faults: Faults::none(), calls: (0..hg.elems.len()).map(|_| AtomicU32::new(0)).collect(), base: 0, nan: false }
    }
    pub fn with_faults(mut self, f: &Faults) -> Self {
        self.faults = f.clone();
        self
    }
    /// what a failing element leaves in its output
    fn fails(&self, e: usize) -> bool {
        self.faults.err.contains(&(e + self.base)) || self.faults.panic.contains(&(e + self.base))
    }
    fn value(&self, e: usize, i: usize, j: usize) -> f64 {
        if self.nan {
            return f64::NAN;
        }
        value(self.salt, self.inexact, e + self.base, i, j)
    }
    pub fn count(&self, e: usize) -> u32 {
        self.calls[e].load(Ordering::Relaxed)
    }
    fn enter(&self, e: usize) -> eyre::Result<()> {
        simrt::event(0x100 + e as u64);
        simrt::callback_point();
        assert!(e < self.hg.elems.len(), "element index out of bounds");
        self.calls[e].fetch_add(1, Ordering::Relaxed);
        let g = e + self.base;
        if self.faults.panic.contains(&g) {
            simrt::note_fault(FK_PANIC);
            std::panic::panic_any(InjectedPanic(g));
        }
        if self.faults.err.contains(&g) {
            simrt::note_fault(FK_ERR);
            return Err(eyre::eyre!("injected e={}.", g));
        }
        Ok(())
    }
}
impl<'a> ElementConnectivityAssembler for Asm<'a> {
    fn solution_dim(&self) -> usize {
        self.hg.sdim
    }
    fn num_elements(&self) -> usize {
        self.hg.elems.len()
    }
    fn num_nodes(&self) -> usize {
        self.hg.nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.hg.elems[e].len()
    }
    fn populate_element_nodes(&self, out: &mut [usize], e: usize) {
        simrt::callback_point();
        out.copy_from_slice(&self.hg.elems[e]);
    }
}
impl<'a> ElementMatrixAssembler<f64> for Asm<'a> {
    fn assemble_element_matrix_into(&self, e: usize, mut out: DMatrixViewMut<f64>) -> eyre::Result<()> {
        let n = self.hg.elems[e].len() * self.hg.sdim;
        if out.nrows() != n || out.ncols() != n {
            simrt::fail("element-buffer-shape", &format!("element {} got a {}x{} buffer, needs {}", e, out.nrows(), out.ncols(), n));
        }
        if self.fails(e) {
            out.fill(f64::NAN);
        }
        self.enter(e)?;
        simrt::quiet(|| {
            for i in 0..n {
                for j in 0..n {
                    out[(i, j)] = self.value(e, i, j);
                }
            }
        });
        simrt::callback_point();
        Ok(())
    }
}
impl<'a> ElementVectorAssembler<f64> for Asm<'a> {
    fn assemble_element_vector_into(&self, e: usize, mut out: DVectorViewMut<f64>) -> eyre::Result<()> {
        let n = self.hg.elems[e].len() * self.hg.sdim;
        if out.len() != n {
            simrt::fail("element-buffer-shape", &format!("element {} got a buffer of {}, needs {}", e, out.len(), n));
        }
        if self.fails(e) {
            out.fill(f64::NAN);
        }
        self.enter(e)?;
        simrt::quiet(|| {
            for i in 0..n {
                out[i] = self.value(e, i, 0);
            }
        });
        simrt::callback_point();
        Ok(())
    }
}
impl<'a> ElementScalarAssembler<f64> for Asm<'a> {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.enter(e)?;
        let v = self.value(e, 0, 0);
        simrt::callback_point();
        Ok(v)
    }
}
pub struct Conn<'a>(pub &'a [Vec<usize>], pub usize);
impl<'a> FiniteElementConnectivity for Conn<'a> {
    fn num_elements(&self) -> usize {
        self.0.len()
    }
    fn num_nodes(&self) -> usize {
        self.1
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.0[e].len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], e: usize) {
        nodes.copy_from_slice(&self.0[e]);
    }
}

// ------------------------------------------------------------------------------------------------ models
pub fn model_matrix(hg: &Hg, salt: u64, inexact: bool) -> BTreeMap<(usize, usize), f64> {
    let mut m = BTreeMap::new();
    for (e, ns) in hg.elems.iter().enumerate() {
        for (a, &na) in ns.iter().enumerate() {
            for i in 0..hg.sdim {
                for (b, &nb) in ns.iter().enumerate() {
                    for j in 0..hg.sdim {
                        *m.entry((na * hg.sdim + i, nb * hg.sdim + j)).or_insert(0.0) += value(salt, inexact, e, a * hg.sdim + i, b * hg.sdim + j);
                    }
                }
            }
        }
    }
    m
}
/// sum of absolute values of the contributions, for tolerances
pub fn model_matrix_abs(hg: &Hg, salt: u64) -> BTreeMap<(usize, usize), f64> {
    let mut m = BTreeMap::new();
    for (e, ns) in hg.elems.iter().enumerate() {
        for (a, &na) in ns.iter().enumerate() {
            for i in 0..hg.sdim {
                for (b, &nb) in ns.iter().enumerate() {
                    for j in 0..hg.sdim {
                        *m.entry((na * hg.sdim + i, nb * hg.sdim + j)).or_insert(0.0) += value(salt, true, e, a * hg.sdim + i, b * hg.sdim + j).abs();
                    }
                }
            }
        }
    }
    m
}
pub fn model_vector(hg: &Hg, salt: u64, inexact: bool, abs: bool) -> Vec<f64> {
    let mut v = vec![0.0; hg.nodes * hg.sdim];
    for (e, ns) in hg.elems.iter().enumerate() {
        for (a, &na) in ns.iter().enumerate() {
            for i in 0..hg.sdim {
                let x: f64 = value(salt, inexact, e, a * hg.sdim + i, 0);
                v[na * hg.sdim + i] += if abs { x.abs() } else { x };
            }
        }
    }
    v
}
pub fn close(a: f64, b: f64, abs_sum: f64) -> bool {
    (a - b).abs() <= 1e-12 * abs_sum
}
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a == 0.0 && b == 0.0
}

// ------------------------------------------------------------------------------------------------ colorings
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Coloring {
    /// 0: color_nodes; 1: random conflict-free; 2: one element per color, random order
    pub mode: u8,
    pub salt: u64,
    /// put colors without any element in between
    pub empties: bool,
}
impl Coloring {
    pub fn gen(r: &mut Rng) -> Coloring {
        Coloring { mode: *r.pick(&[0u8, 0, 0, 1, 1, 1, 1, 2]), salt: r.below(1 << 32), empties: r.chance(1, 5) }
    }
    pub fn build(&self, hg: &Hg) -> Vec<DisjointSubsets> {
        simrt::quiet(|| {
            let mut r = Rng::new(mix(self.salt, 77));
            let mut out = match self.mode {
                0 => fenris::assembly::global::color_nodes(&Conn(&hg.elems, hg.nodes)),
                m => {
                    let mut order: Vec<usize> = (0..hg.elems.len()).collect();
                    r.shuffle(&mut order);
                    let mut classes: Vec<Vec<usize>> = Vec::new();
                    let mut used: Vec<std::collections::BTreeSet<usize>> = Vec::new();
                    for e in order {
                        let free: Vec<usize> = if m == 2 {
                            vec![]
                        } else {
                            (0..classes.len()).filter(|&c| hg.elems[e].iter().all(|n| !used[c].contains(n))).collect()
                        };
                        let c = if free.is_empty() || r.chance(1, 12) {
                            classes.push(vec![]);
                            used.push(Default::default());
                            classes.len() - 1
                        } else if r.chance(3, 4) {
                            free[0]
                        } else {
                            *r.pick(&free)
                        };
                        classes[c].push(e);
                        used[c].extend(hg.elems[e].iter().copied());
                    }
                    r.shuffle(&mut classes);
                    classes.iter().map(|c| disjoint(c.iter().map(|&e| hg.elems[e].as_slice()), c.clone())).collect()
                }
            };
            if self.empties {
                let k = r.urange(1, 3);
                for _ in 0..k {
                    let at = r.urange(0, out.len());
                    out.insert(at, disjoint(std::iter::empty(), vec![]));
                }
            }
            out
        })
    }
}
pub fn disjoint<'a>(subsets: impl Iterator<Item = &'a [usize]>, labels: Vec<usize>) -> DisjointSubsets {
    let mut nv = NestedVec::new();
    for s in subsets {
        nv.push(s);
    }
    DisjointSubsets::try_from_disjoint_subsets(nv, labels).unwrap_or_else(|_| simrt::fail("disjoint-family-rejected", "try_from_disjoint_subsets rejected a disjoint family"))
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}
pub fn payload(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(i) = p.downcast_ref::<InjectedPanic>() {
        format!("InjectedPanic({})", i.0)
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "<other payload>".into()
    }
}
/// element named by an injected error anywhere in the error chain
pub fn injected(e: &eyre::Report) -> Option<usize> {
    for c in e.chain() {
        let s = c.to_string();
        if let Some(i) = s.find("injected e=") {
            let t = &s[i + 11..];
            let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
            return d.parse().ok();
        }
    }
    None
}

//! F01: fixed interpolators. R01: mesh reordering.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris::assembly::global::CsrAssembler;
use fenris::connectivity::{Connectivity, ConnectivityMut};
use fenris::mesh::procedural::*;
use fenris::mesh::reorder::*;
use fenris::mesh::*;
use fenris::nalgebra::{DVector, DVectorView, Dyn, MatrixViewMut, OMatrix, OVector, Point2, U1, U2, U3};
use fenris::space::*;
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use std::collections::BTreeMap;

const REAL: &str = "fenris: FixedInterpolator, SpatiallyIndexed (R-tree), interpolate_at_points and gradients, Tri3 and Tet4 spaces, mesh reordering, Mesh, pattern assembly; fenris-geometry; davenport, rstar, rayon, std (all unmodified, on real OS threads)";
const STUB: &str = "a synthetic space with elements of 1-7 nodes whose closest-element query yields to other threads or panics; cells with any number of vertices (reordering); OS: scheduler, futex, clock, getrandom and thread creation decided by the simulator";

pub fn entries() -> Vec<Entry> {
    vec![
        Entry {
            id: "F01", quick_runs: 10000, thorough_runs: 1000000, gen: gen_of::<F01>, run: run_of::<F01>, valid: valid_of::<F01>,
            rule: "One case: pool, space (synthetic, triangles, tetrahedra; also without elements), 0-70 points inside and outside, values/gradients/both, solution dimension 1-3, 1-3 callers using space and interpolator at once, points without a closest element, a query that panics. Non-trivial: at least two points and a baton change.",
            real: REAL, stub: STUB,
            probes: &["no elements", "no points", "elements of different size", "several callers", "closest-element query panics", "more than 32 points", "triangles or tetrahedra", "a point without a closest element"][..],
        },
        Entry {
            id: "R01", quick_runs: 16000, thorough_runs: 1000000, gen: gen_of::<R01>, run: run_of::<R01>, valid: valid_of::<R01>,
            rule: "One case: two pools, a mesh (cells of any size over any vertices, unused vertices, several components, no cells), 1-2 callers. Non-trivial: at least two cells and a baton change.",
            real: REAL, stub: STUB,
            probes: &["several components", "unused vertices", "no cells", "cells without vertices", "several callers"][..],
        },
    ]
}
fn num(h: u64) -> f64 {
    (h >> 12) as f64 / (1u64 << 52) as f64
}

// ------------------------------------------------------------------------------------------------ F01
/// Elements with any number of nodes; which element is closest to a point is a hash of the point.
struct Synth<'a> {
    hg: &'a Hg,
    salt: u64,
    panic_at: Option<u64>,
    /// eighths of the points that have no closest element
    lost: u64,
}
fn ph(p: &Point2<f64>) -> u64 {
    mix(p.x.to_bits(), p.y.to_bits())
}
impl<'a> FiniteElementConnectivity for Synth<'a> {
    fn num_elements(&self) -> usize {
        self.hg.elems.len()
    }
    fn num_nodes(&self) -> usize {
        self.hg.nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.hg.elems[e].len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], e: usize) {
        nodes.copy_from_slice(&self.hg.elems[e])
    }
}
impl<'a> FiniteElementSpace<f64> for Synth<'a> {
    type GeometryDim = U2;
    type ReferenceDim = U2;
    fn populate_element_basis(&self, e: usize, v: &mut [f64], p: &Point2<f64>) {
        simrt::callback_point();
        assert_eq!(v.len(), self.hg.elems[e].len());
        for (i, x) in v.iter_mut().enumerate() {
            *x = num(mix(mix(self.salt ^ e as u64, i as u64), ph(p)));
        }
    }
    fn populate_element_gradients(&self, e: usize, mut g: MatrixViewMut<f64, U2, Dyn>, p: &Point2<f64>) {
        simrt::callback_point();
        assert_eq!(g.ncols(), self.hg.elems[e].len());
        for i in 0..g.ncols() {
            for k in 0..2 {
                g[(k, i)] = num(mix(mix(self.salt ^ 77 ^ e as u64, (2 * i + k) as u64), ph(p))) - 0.5;
            }
        }
    }
    fn element_reference_jacobian(&self, e: usize, p: &Point2<f64>) -> OMatrix<f64, U2, U2> {
        simrt::callback_point();
        let h = |k| num(mix(mix(self.salt ^ 99, e as u64 * 8 + k), ph(p)));
        OMatrix::<f64, U2, U2>::new(1.0 + h(0), h(1) * 0.3, h(2) * 0.3, 1.0 + h(3))
    }
    fn map_element_reference_coords(&self, _: usize, p: &Point2<f64>) -> Point2<f64> {
        *p
    }
    fn diameter(&self, _: usize) -> f64 {
        1.0
    }
}
impl<'a> FindClosestElement<f64> for Synth<'a> {
    fn find_closest_element_and_reference_coords(&self, p: &Point2<f64>) -> Option<(usize, Point2<f64>)> {
        simrt::event(0x300 + (ph(p) & 0xff));
        simrt::callback_point();
        let h = mix(self.salt, ph(p));
        if self.panic_at == Some(ph(p)) {
            simrt::note_fault(FK_PANIC);
            std::panic::panic_any(InjectedPanic(1));
        }
        if self.hg.elems.is_empty() {
            return None;
        }
        if mix(h, 9) % 8 < self.lost {
            simrt::probe(7);
            return None;
        }
        Some(((h % self.hg.elems.len() as u64) as usize, Point2::new(num(mix(h, 1)), num(mix(h, 2)))))
    }
}

pub struct F01;
#[derive(Serialize, Deserialize)]
pub struct F01Case {
    env: Env,
    /// 0 synthetic, 1 triangles, 2 tetrahedra
    kind: u8,
    hg: Hg,
    salt: u64,
    /// seeds of the points (equal seeds: equal points)
    points: Vec<u64>,
    what: u8,
    sdim: u8,
    callers: usize,
    /// the query for this point panics (synthetic space)
    panic: Vec<usize>,
    #[serde(default)]
    lost: u64,
}
/// All a scenario needs, for any space.
fn f01_go<S, D, SD>(c: &F01Case, space: &S, pts: &[fenris::nalgebra::OPoint<f64, D>], panics: bool)
where
    D: fenris::SmallDim,
    SD: fenris::SmallDim,
    S: FindClosestElement<f64> + VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D> + InterpolateGradientInSpace<f64, SD> + Sync,
    fenris::nalgebra::DefaultAllocator: fenris::allocators::TriDimAllocator<f64, D, D, SD> + fenris::allocators::BiDimAllocator<f64, D, SD>,
    fenris::nalgebra::OPoint<f64, D>: Sync + Send,
    <fenris::nalgebra::DefaultAllocator as fenris::nalgebra::allocator::Allocator<f64, D>>::Buffer: Copy,
{
    let what = match c.what {
        0 => ValuesOrGradients::Both,
        1 => ValuesOrGradients::OnlyValues,
        _ => ValuesOrGradients::OnlyGradients,
    };
    lib_call();
    let par = catch(|| FixedInterpolator::from_space_and_points_par(space, pts, what));
    lib_call();
    let ser = catch(|| FixedInterpolator::from_space_and_points(space, pts, what));
    let (par, ser) = match (par, ser) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) if panics => {
            simrt::probe(4);
            ensure!(a.is::<InjectedPanic>() && b.is::<InjectedPanic>(), "interpolator-wrong-panic", "parallel {}, serial {}", payload(&*a), payload(&*b));
            return;
        }
        (a, b) => {
            let m = [a.err(), b.err()].into_iter().map(|p| p.map(|p| payload(&*p)));
            simrt::fail("interpolator-panic", &format!("[parallel, serial] panicked with {:?}", m.collect::<Vec<_>>()))
        }
    };
    ensure!(!panics, "failure-lost", "an interpolator was made although the query for a point panicked");
    simrt::quiet(|| {
        let (a, b) = (serde_json::to_string(&par).unwrap(), serde_json::to_string(&ser).unwrap());
        ensure!(a == b && par == ser, "interpolator-differs", "parallel {}\nserial {}", a, b);
    });
    // as many callers as wanted use both at once
    let nd = space.num_nodes() * SD::dim();
    let caller = |k: usize| {
        let u = DVector::from_fn(nd, |i, _| num(mix(c.salt ^ k as u64, i as u64)) - 0.5);
        let uv = DVectorView::from(&u);
        if what.compute_values() {
            lib_call();
            let got: Vec<OVector<f64, SD>> = par.interpolate(uv);
            let mut want = vec![OVector::<f64, SD>::zeros(); pts.len()];
            interpolate_at_points(space, pts, uv, &mut want);
            // one by one, or all into a vector
            lib_call();
            let again: Vec<OVector<f64, SD>> = match (c.salt ^ k as u64) % 3 {
                0 => pts.iter().map(|p| space.interpolate_at_point(p, uv)).collect(),
                1 => space.interpolate_at_points(pts, uv),
                _ => want.clone(),
            };
            simrt::quiet(|| {
                ensure!(again.len() == want.len() && again.iter().zip(&want).all(|(a, b)| a.iter().zip(b.iter()).all(|(a, b)| a.to_bits() == b.to_bits())), "interpolated-differs", "caller {}: interpolated by the space: {:?}, with interpolate_at_points {:?}", k, again, want);
                ensure!(got.len() == pts.len(), "interpolator-length", "{} values for {} points", got.len(), pts.len());
                for i in 0..got.len() {
                    for s in 0..SD::dim() {
                        ensure!((got[i][s] - want[i][s]).abs() <= 1e-9 * (1.0 + want[i][s].abs()), "interpolated-value", "caller {} point {} component {}: {:e}, directly {:e}", k, i, s, got[i][s], want[i][s]);
                    }
                }
            });
        }
        if what.compute_gradients() {
            lib_call();
            let got: Vec<OMatrix<f64, D, SD>> = par.interpolate_gradients(uv);
            let mut want = vec![OMatrix::<f64, D, SD>::zeros(); pts.len()];
            interpolate_gradient_at_points(space, pts, uv, &mut want);
            lib_call();
            let again: Vec<OMatrix<f64, D, SD>> = match (c.salt ^ k as u64) % 3 {
                0 => pts.iter().map(|p| space.interpolate_gradient_at_point(p, uv)).collect(),
                1 => space.interpolate_gradient_at_points(pts, uv),
                _ => want.clone(),
            };
            simrt::quiet(|| {
                ensure!(again.len() == want.len() && again.iter().zip(&want).all(|(a, b)| a.iter().zip(b.iter()).all(|(a, b)| a.to_bits() == b.to_bits())), "interpolated-differs", "caller {}: gradients interpolated by the space: {:?}, with interpolate_gradient_at_points {:?}", k, again, want);
                ensure!(got.len() == pts.len(), "interpolator-length", "{} gradients for {} points", got.len(), pts.len());
                for i in 0..got.len() {
                    for (a, b) in got[i].iter().zip(want[i].iter()) {
                        ensure!((a - b).abs() <= 1e-8 * (1.0 + b.abs()), "interpolated-gradient", "caller {} point {}: {:e}, directly {:e}", k, i, a, b);
                    }
                }
            });
        }
    };
    let caller = &caller;
    if c.callers > 1 {
        simrt::probe(3);
        simrt::note_fault(FK_CONCURRENT);
    }
    std::thread::scope(|s| {
        for k in 1..c.callers {
            s.spawn(move || caller(k));
        }
        caller(0);
    });
}
fn f01_dim<S, D>(c: &F01Case, space: &S, pts: &[fenris::nalgebra::OPoint<f64, D>], panics: bool)
where
    D: fenris::SmallDim,
    S: FindClosestElement<f64> + VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D> + InterpolateGradientInSpace<f64, U1> + InterpolateGradientInSpace<f64, U2> + InterpolateGradientInSpace<f64, U3> + Sync,
    fenris::nalgebra::DefaultAllocator: fenris::allocators::TriDimAllocator<f64, D, D, U1> + fenris::allocators::TriDimAllocator<f64, D, D, U2> + fenris::allocators::TriDimAllocator<f64, D, D, U3>,
    fenris::nalgebra::OPoint<f64, D>: Sync + Send,
    <fenris::nalgebra::DefaultAllocator as fenris::nalgebra::allocator::Allocator<f64, D>>::Buffer: Copy,
{
    match c.sdim {
        1 => f01_go::<S, D, U1>(c, space, pts, panics),
        2 => f01_go::<S, D, U2>(c, space, pts, panics),
        _ => f01_go::<S, D, U3>(c, space, pts, panics),
    }
}
impl Property for F01 {
    type Case = F01Case;
    fn gen(r: &mut Rng, c: GenCtx) -> F01Case {
        let kind = *r.pick(&[0u8, 0, 0, 0, 1, 2]);
        let mut hg = Hg::gen_small(r, 16);
        hg.sdim = 1;
        if r.chance(1, 20) {
            hg.elems.clear();
        }
        let n = match r.below(8) {
            0 => r.urange(0, 2),
            1 => r.urange(1, if c.thorough { 150 } else { 70 }),
            _ => r.urange(2, 30),
        };
        let n = if kind > 0 { n.min(16) } else { n };
        // now and then many points (fewer switches each)
        let n = if r.chance(1, 40) { r.urange(100, if kind > 0 { 200 } else { 1500 }) } else { n };
        let mut points: Vec<u64> = (0..n).map(|_| r.below(1 << 40)).collect();
        if r.chance(1, 6) && n > 2 {
            let k = r.usize(n);
            points[0] = points[k];
        }
        let panic = if kind == 0 && n > 0 && r.chance(1, 8) { vec![r.usize(n)] } else { vec![] };
        F01Case { env: Env::gen(r), kind, hg, salt: r.below(1 << 30), points, what: r.below(3) as u8, sdim: r.urange(1, 3) as u8, callers: if n > 150 { 1 } else { *r.pick(&[1usize, 1, 2, 3]) }, panic, lost: *r.pick(&[0u64, 0, 0, 1, 4, 8]) }
    }
    fn valid(c: &F01Case) -> bool {
        c.hg.ok() && c.env.ok() && c.kind <= 2 && (1..=4).contains(&c.callers) && (1..=3).contains(&c.sdim) && c.panic.iter().all(|&p| p < c.points.len() && c.kind == 0)
    }
    fn run(c: F01Case) {
        if c.points.is_empty() {
            simrt::probe(1)
        }
        if c.points.len() > 32 {
            simrt::probe(5)
        }
        if c.points.len() >= 2 && c.env.threads >= 2 {
            nontrivial()
        }
        if c.points.len() > 150 {
            simrt::thin(c.points.len() as u64 / 50)
        }
        let c = &c;
        let co = |p: u64, k: u64| -0.3 + 1.6 * num(mix(p, k));
        match c.kind {
            0 => {
                if c.hg.elems.is_empty() {
                    simrt::probe(0)
                }
                if c.hg.elems.iter().any(|e| e.len() != c.hg.elems[0].len()) {
                    simrt::probe(2)
                }
                let pts: Vec<Point2<f64>> = c.points.iter().map(|&p| Point2::new(co(p, 1), co(p, 2))).collect();
                let s = Synth { hg: &c.hg, salt: c.salt, panic_at: c.panic.first().map(|&i| ph(&pts[i])), lost: c.lost };
                let panics = !c.panic.is_empty();
                c.env.with(|| f01_dim(c, &s, &pts, panics));
            }
            1 => {
                simrt::probe(6);
                let pts: Vec<Point2<f64>> = c.points.iter().map(|&p| Point2::new(co(p, 1), co(p, 2))).collect();
                let space = simrt::quiet(|| {
                    let mut m = create_unit_square_uniform_tri_mesh_2d::<f64>(1 + (c.salt % 3) as usize);
                    for (i, v) in m.vertices_mut().iter_mut().enumerate() {
                        v.x += 0.1 * num(mix(c.salt, i as u64));
                    }
                    SpatiallyIndexed::from_space(m)
                });
                c.env.with(|| f01_dim(c, &space, &pts, false));
            }
            _ => {
                simrt::probe(6);
                let pts: Vec<fenris::nalgebra::Point3<f64>> = c.points.iter().map(|&p| fenris::nalgebra::Point3::new(co(p, 1), co(p, 2), co(p, 3))).collect();
                let space = simrt::quiet(|| SpatiallyIndexed::from_space(create_unit_box_uniform_tet_mesh_3d::<f64>(1)));
                c.env.with(|| f01_dim(c, &space, &pts, false));
            }
        }
    }
}
impl<'a, SD> InterpolateInSpace<f64, SD> for Synth<'a>
where
    SD: fenris::SmallDim,
    fenris::nalgebra::DefaultAllocator: fenris::allocators::TriDimAllocator<f64, U2, U2, SD>,
{
    fn interpolate_at_points_into(&self, points: &[Point2<f64>], u: DVectorView<f64>, out: &mut [OVector<f64, SD>]) {
        interpolate_at_points(self, points, u, out)
    }
}
impl<'a, SD> InterpolateGradientInSpace<f64, SD> for Synth<'a>
where
    SD: fenris::SmallDim,
    fenris::nalgebra::DefaultAllocator: fenris::allocators::TriDimAllocator<f64, U2, U2, SD>,
{
    fn interpolate_gradient_at_points_into(&self, points: &[Point2<f64>], u: DVectorView<f64>, out: &mut [OMatrix<f64, U2, SD>]) {
        interpolate_gradient_at_points(self, points, u, out)
    }
}

// ------------------------------------------------------------------------------------------------ R01
#[derive(Clone, Debug, PartialEq)]
pub struct Cell(Vec<usize>);
impl Connectivity for Cell {
    type FaceConnectivity = ();
    fn num_faces(&self) -> usize {
        0
    }
    fn get_face_connectivity(&self, _: usize) -> Option<()> {
        None
    }
    fn vertex_indices(&self) -> &[usize] {
        simrt::callback_point();
        &self.0
    }
}
impl ConnectivityMut for Cell {
    fn vertex_indices_mut(&mut self) -> &mut [usize] {
        &mut self.0
    }
}
pub struct R01;
#[derive(Serialize, Deserialize)]
pub struct R01Case {
    threads: Vec<usize>,
    hg: Hg,
    callers: usize,
}
fn perm_ok(p: &Permutation, n: usize, what: &str) {
    ensure!(p.len() == n, "permutation-size", "{}: {} entries for {}", what, p.len(), n);
    let mut seen = vec![false; n];
    for &i in p.perm() {
        ensure!(i < n && !seen[i], "not-a-permutation", "{}: {:?}", what, p.perm());
        seen[i] = true;
    }
}
/// `order` is a Cuthill-McKee order of the graph.
fn is_cuthill_mckee(nb: &[Vec<usize>], order: &[usize]) -> Result<(), String> {
    let n = nb.len();
    let mut visited = vec![false; n];
    let mut i = 0;
    while i < n {
        let min = (0..n).filter(|&v| !visited[v]).map(|v| nb[v].len()).min().unwrap();
        if nb[order[i]].len() != min {
            return Err(format!("vertex {} starts a component although degree {} is not the least ({})", order[i], nb[order[i]].len(), min));
        }
        visited[order[i]] = true;
        let (mut head, mut tail) = (i, i + 1);
        while head < tail {
            let mut next: Vec<usize> = nb[order[head]].iter().copied().filter(|&w| !visited[w]).collect();
            if tail + next.len() > n {
                return Err("component larger than what is left".into());
            }
            let mut got: Vec<usize> = order[tail..tail + next.len()].to_vec();
            if got.windows(2).any(|w| nb[w[0]].len() > nb[w[1]].len()) {
                return Err(format!("neighbours of {} not by increasing degree: {:?}", order[head], got));
            }
            tail += next.len();
            next.sort_unstable();
            got.sort_unstable();
            if got != next {
                return Err(format!("after {} come {:?}, its unvisited neighbours are {:?}", order[head], got, next));
            }
            for v in next {
                visited[v] = true;
            }
            head += 1;
        }
        i = tail;
    }
    Ok(())
}
impl Property for R01 {
    type Case = R01Case;
    fn gen(r: &mut Rng, c: GenCtx) -> R01Case {
        let mut hg = if r.chance(1, 80) { Some(Hg::gen_large(r, 700, 30_000)).filter(|h| h.nodes <= 800).unwrap_or_else(|| Hg::gen_small(r, 36)) } else { Hg::gen_small(r, if c.thorough { 60 } else { 36 }) };
        hg.sdim = 1;
        if r.chance(1, 6) {
            // several components
            let k = hg.nodes;
            let more: Vec<Vec<usize>> = hg.elems.iter().map(|e| e.iter().map(|x| x + k).collect()).collect();
            if k < 60 {
                hg.elems.extend(more);
                hg.nodes *= 2;
            }
        }
        let t = *r.pick(&[2usize, 2, 3, 4, 6]);
        R01Case { threads: if r.chance(1, 2) { vec![t] } else { vec![t, r.urange(1, 4)] }, hg, callers: *r.pick(&[1usize, 1, 1, 2]) }
    }
    fn valid(c: &R01Case) -> bool {
        c.hg.ok() && c.threads.len() <= 3 && c.threads.iter().all(|t| (1..=16).contains(t)) && (1..=3).contains(&c.callers)
    }
    fn run(c: R01Case) {
        let hg = &c.hg;
        hg.thin();
        let n = hg.nodes;
        let mesh: Mesh<f64, U2, Cell> = simrt::quiet(|| {
            Mesh::from_vertices_and_connectivity((0..n).map(|i| Point2::new(i as f64, num(mix(7, i as u64)))).collect(), hg.elems.iter().map(|e| Cell(e.clone())).collect())
        });
        if hg.elems.is_empty() {
            simrt::probe(2)
        }
        if hg.elems.iter().any(|e| e.is_empty()) {
            simrt::probe(3)
        }
        if hg.elems.len() >= 2 {
            nontrivial()
        }
        // the definition: adjacency, and the permutation of the serial pattern
        let (nb, want) = simrt::quiet(|| {
            let mut g = hg.clone();
            g.sdim = 1;
            let nb: Vec<Vec<usize>> = g.pattern();
            let serial = reverse_cuthill_mckee(&CsrAssembler::<f64>::default().assemble_pattern(&mesh));
            let mut root: Vec<usize> = (0..n).collect();
            fn find(r: &mut Vec<usize>, i: usize) -> usize {
                if r[i] != i {
                    let k = find(r, r[i]);
                    r[i] = k;
                }
                r[i]
            }
            for e in &hg.elems {
                for w in e.windows(2) {
                    let (a, b) = (find(&mut root, w[0]), find(&mut root, w[1]));
                    root[a] = b;
                }
            }
            let comps = (0..n).filter(|&i| find(&mut root, i) == i && !nb[i].is_empty()).count();
            if comps > 1 {
                simrt::probe(0)
            }
            if nb.iter().any(|x| x.is_empty()) {
                simrt::probe(1)
            }
            (nb, serial)
        });
        let first: std::sync::Mutex<Option<(Vec<usize>, Vec<usize>)>> = std::sync::Mutex::new(None);
        let one = |k: usize| {
            lib_call();
            let p = reorder_mesh_par(&mesh);
            simrt::quiet(|| {
                let what = format!("caller {}", k);
                perm_ok(p.vertex_permutation(), n, &what);
                perm_ok(p.connectivity_permutation(), hg.elems.len(), &what);
                ensure!(p.vertex_permutation() == &want, "reorder-not-serial", "{}: vertices {:?}, serial {:?}", what, p.vertex_permutation().perm(), want.perm());
                let order: Vec<usize> = p.vertex_permutation().perm().iter().rev().copied().collect();
                if let Err(e) = is_cuthill_mckee(&nb, &order) {
                    simrt::fail("not-cuthill-mckee", &format!("{}: {} in {:?}", what, e, order));
                }
                let now = (p.vertex_permutation().perm().to_vec(), p.connectivity_permutation().perm().to_vec());
                let mut f = first.lock().unwrap();
                match &*f {
                    None => *f = Some(now),
                    Some(f) => ensure!(*f == now, "reorder-differs", "{}: {:?}, before {:?}", what, now, f),
                }
                drop(f);
                let m = p.apply(&mesh);
                ensure!(m.vertices().len() == n && m.connectivity().len() == hg.elems.len(), "reorder-apply", "sizes changed");
                // every vertex keeps its point; every cell names the same points in the same order
                let mut pts: Vec<usize> = m.vertices().iter().map(|v| v.x as usize).collect();
                let named: BTreeMap<usize, usize> = pts.iter().copied().enumerate().collect();
                for (v, pt) in m.vertices().iter().zip(&pts) {
                    ensure!(*pt < n && v == &mesh.vertices()[*pt], "reorder-apply", "a vertex moved");
                }
                pts.sort_unstable();
                ensure!(pts == (0..n).collect::<Vec<_>>(), "reorder-apply", "vertices lost or doubled");
                let mut cells: Vec<Vec<usize>> = m.connectivity().iter().map(|c| c.0.iter().map(|i| *named.get(i).unwrap_or(&usize::MAX)).collect()).collect();
                cells.sort();
                let mut old = hg.elems.clone();
                old.sort();
                ensure!(cells == old, "reorder-apply", "cells changed: {:?}, were {:?}", cells, old);
            });
        };
        if c.callers > 1 {
            simrt::probe(4);
            simrt::note_fault(FK_CONCURRENT);
        }
        let one = &one;
        for &t in &c.threads {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().expect("pool");
            let pool = &pool;
            std::thread::scope(|s| {
                for k in 1..c.callers {
                    s.spawn(move || pool.install(|| one(k)));
                }
                pool.install(|| one(0));
            });
        }
    }
}

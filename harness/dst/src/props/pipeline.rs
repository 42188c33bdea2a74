//! E01: whole analyses, from the mesh file to the result file, several at once on one pool, with faults on the way.
use super::export::{read_vtk, read_vtu};
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::element::ClosestPoint;
use fenris::connectivity::*;
use fenris::error::*;
use fenris::io::msh::load_msh_from_file;
use fenris::io::vtk::FiniteElementMeshDataSetBuilder;
use fenris::mesh::procedural::*;
use fenris::mesh::reorder::reorder_mesh_par;
use fenris::mesh::*;
use fenris::nalgebra::{DefaultAllocator, DMatrixViewMut, DVector, DVectorView, DVectorViewMut, OMatrix, OPoint, OVector, U1, U2, U3};
use fenris::quadrature::{tensor, total_order};
use fenris::space::*;
use fenris_optimize::calculus::VectorFunctionBuilder;
use fenris_optimize::newton::*;
use fenris_solid::materials::{LameParameters, LinearElasticMaterial, NeoHookeanMaterial, StVKMaterial};
use fenris_solid::MaterialEllipticOperator;
use fenris_sparse::cg::{CgWorkspace, ConjugateGradient, LinearOperator, RelativeResidualCriterion};
use nalgebra_sparse::CsrMatrix;
use serde::{Deserialize, Serialize};
use simrt::fs::FaultPlan;
use simrt::rng::{mix, Rng};
use std::cell::RefCell;
use std::error::Error;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub fn entries() -> Vec<Entry> {
    vec![Entry {
        id: "E01", quick_runs: 1500, thorough_runs: 200000, gen: gen_of::<E01>, run: run_of::<E01>, valid: valid_of::<E01>,
        rule: "One case: 1-3 analyses (mesh file of triangles, quadrilaterals, tetrahedra or hexahedra, warped and shuffled, perhaps raised to second order or renumbered; Laplace, linear elastic, StVK or Neo-Hookean; .vtk or .vtu), run once alone on one thread and then by 1-4 callers at the same time, over and over with the same tools, on a pool of 1-8 threads, as its tasks or from outside; element assemblers fail or panic at a chosen call, the disk has short reads and writes, EINTR, EIO, ENOSPC, failing opens. Non-trivial: two or more callers or threads, or a fault.",
        real: "fenris: io::msh, mesh conversions, renumbering, boundary, coloring, pattern, matrix, vector and scalar assembly, elliptic and source assemblers, boundary conditions, spatially indexed interpolation, io::vtk; fenris-solid materials; fenris-sparse CG; fenris-optimize Newton; fenris-paradis, fenris-nested-vec, davenport, mshio, vtkio, rstar, rayon, std (all unmodified, on real OS threads)",
        stub: "the caller's glue (element assemblers that fail at a chosen call, Jacobi preconditioner), disk: an in-memory file system behind libc; OS: scheduler, futex, clock, getrandom and thread creation decided by the simulator; the readers of .vtk and .vtu are the scenario's own",
        probes: &["analysis repeated after a failed one", "element error", "panic in an element", "disk error", "several callers", "callers are pool tasks", "second order", "nonlinear", "source term", "interpolated at points", "renumbered", "mass matrix and error estimates"][..],
    }]
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Analysis {
    /// 0 triangles, 1 quadrilaterals, 2 tetrahedra, 3 hexahedra
    kind: u8,
    n: usize,
    salt: u64,
    warp: bool,
    /// 1: to Tri6, Quad9, Tet10 or Hex27, 2: to Hex20
    raise: u8,
    /// 0 Laplace, 1 linear elastic, 2 StVK, 3 Neo-Hookean
    physics: u8,
    /// quadratic solution with a source term (Laplace, second order, affine elements)
    source: bool,
    reorder: bool,
    vtu: bool,
    jacobi: bool,
    /// mass matrix and error estimates
    post: bool,
}
impl Analysis {
    fn dim(&self) -> usize {
        if self.kind < 2 { 2 } else { 3 }
    }
    fn s(&self) -> usize {
        if self.physics == 0 { 1 } else { self.dim() }
    }
    fn input(&self, k: usize) -> String {
        format!("/simfs/in/{}_{}.msh", k, self.kind)
    }
    /// the solution, by construction
    fn exact(&self, x: &[f64]) -> Vec<f64> {
        (0..self.s()).map(|c| {
            let mut v = 0.01 * num(mix(self.salt, 900 + c as u64));
            for (i, &xi) in x.iter().enumerate() {
                v += self.a(c, i) * xi;
                if self.source {
                    v += self.q(i) * xi * xi
                }
            }
            if self.source {
                v += 0.3 * x[0] * x[1]
            }
            v
        }).collect()
    }
    /// derivative of component c along i
    fn slope(&self, x: &[f64], c: usize, i: usize) -> f64 {
        let mut v = self.a(c, i);
        if self.source {
            v += 2.0 * self.q(i) * x[i] + if i < 2 { 0.3 * x[1 - i] } else { 0.0 }
        }
        v
    }
    fn density(&self) -> f64 {
        0.5 + num(mix(self.salt, 710))
    }
    /// integral of density times the square of the solution
    fn square(&self) -> f64 {
        self.density() * self.integral(|x| self.exact(x).iter().map(|v| v * v).sum())
    }
    /// integral of the square of the gradient of the solution
    fn steepness(&self) -> f64 {
        self.integral(|x| (0..self.s()).map(|c| (0..self.dim()).map(|i| self.slope(x, c, i).powi(2)).sum::<f64>()).sum())
    }
    fn integral(&self, f: impl Fn(&[f64]) -> f64) -> f64 {
        let k = (0.6f64).sqrt() / 2.0;
        let (p, w) = ([0.5 - k, 0.5, 0.5 + k], [5.0 / 18.0, 8.0 / 18.0, 5.0 / 18.0]);
        let mut sum = 0.0;
        for i in 0..3usize.pow(self.dim() as u32) {
            let d: Vec<usize> = (0..self.dim()).map(|j| i / 3usize.pow(j as u32) % 3).collect();
            let x: Vec<f64> = d.iter().map(|&j| p[j]).collect();
            sum += d.iter().map(|&j| w[j]).product::<f64>() * f(&x);
        }
        sum
    }
    fn amp(&self) -> f64 {
        if self.physics < 2 { 1.0 } else { 0.04 }
    }
    fn a(&self, c: usize, i: usize) -> f64 {
        self.amp() * (2.0 * num(mix(self.salt, 10 * c as u64 + i as u64)) - 1.0)
    }
    fn q(&self, i: usize) -> f64 {
        num(mix(self.salt, 500 + i as u64)) - 0.5
    }
    /// minus the Laplacian of the solution
    fn load(&self) -> f64 {
        (0..self.dim()).map(|i| -2.0 * self.q(i)).sum()
    }
    fn lame(&self) -> LameParameters<f64> {
        LameParameters { mu: 0.5 + num(mix(self.salt, 700)), lambda: 0.5 + num(mix(self.salt, 701)) }
    }
    /// energy per volume of the affine solution, None with a source
    fn energy(&self) -> Option<f64> {
        if self.source {
            return None;
        }
        let d = self.dim();
        let LameParameters { mu, lambda } = self.lame();
        let a = |i: usize, j: usize| self.a(i, j);
        let sum2 = |f: &dyn Fn(usize, usize) -> f64| (0..d).flat_map(|i| (0..d).map(move |j| (i, j))).map(|(i, j)| f(i, j).powi(2)).sum::<f64>();
        Some(match self.physics {
            0 => 0.5 * (0..d).map(|i| a(0, i).powi(2)).sum::<f64>(),
            1 => {
                let tr: f64 = (0..d).map(|i| a(i, i)).sum();
                mu * sum2(&|i, j| 0.5 * (a(i, j) + a(j, i))) + 0.5 * lambda * tr * tr
            }
            2 => {
                let e = |i: usize, j: usize| 0.5 * (a(i, j) + a(j, i) + (0..d).map(|k| a(k, i) * a(k, j)).sum::<f64>());
                let tr: f64 = (0..d).map(|i| e(i, i)).sum();
                mu * sum2(&e) + 0.5 * lambda * tr * tr
            }
            _ => {
                let f = |i: usize, j: usize| a(i, j) + (i == j) as u8 as f64;
                let det = if d == 2 {
                    f(0, 0) * f(1, 1) - f(0, 1) * f(1, 0)
                } else {
                    (0..3).map(|i| f(0, i) * (f(1, (i + 1) % 3) * f(2, (i + 2) % 3) - f(1, (i + 2) % 3) * f(2, (i + 1) % 3))).sum()
                };
                0.5 * mu * (sum2(&f) - d as f64) - mu * det.ln() + 0.5 * lambda * det.ln().powi(2)
            }
        })
    }
    fn ok(&self) -> bool {
        let top = match (self.kind, self.raise) {
            (0, _) | (1, 0) => 5,
            (1, _) => 3,
            (_, 0) => 2,
            _ => 2,
        };
        self.kind < 4 && (1..=top).contains(&self.n) && self.raise <= if self.kind == 3 { 2 } else { 1 } && self.physics < 4 && (!self.source || self.physics == 0 && self.raise > 0 && (!self.warp || self.kind % 2 == 0))
    }
    fn gen(r: &mut Rng) -> Analysis {
        let kind = *r.pick(&[0u8, 0, 1, 1, 2, 3]);
        let raise = if r.chance(1, 2) { 0 } else if kind == 3 { r.range(1, 2) as u8 } else { 1 };
        let n = match (kind, raise) {
            (0, 0) | (1, 0) => r.urange(1, 5),
            (0, _) | (1, _) => r.urange(1, 3),
            (_, 0) => r.urange(1, 2),
            _ => 1 + r.chance(1, 40) as usize,
        };
        let physics = r.below(4) as u8;
        let mut a = Analysis { kind, n, salt: r.next(), warp: r.chance(2, 3), raise, physics, source: false, reorder: r.chance(1, 2), vtu: r.chance(1, 2), jacobi: r.chance(1, 2), post: r.chance(1, 2) };
        a.source = raise > 0 && physics == 0 && (!a.warp || kind % 2 == 0) && r.chance(1, 2);
        a
    }
    /// roughly how long it takes
    fn cost(&self) -> usize {
        let (cells, nodes, quad) = match (self.kind, self.raise) {
            (0, 0) => (2 * self.n.pow(2), 3, 3),
            (0, _) => (2 * self.n.pow(2), 6, 6),
            (1, 0) => (self.n.pow(2), 4, 4),
            (1, _) => (self.n.pow(2), 9, 9),
            (2, 0) => (12 * self.n.pow(3), 4, 1),
            (2, _) => (12 * self.n.pow(3), 10, 6),
            (_, 0) => (self.n.pow(3), 8, 8),
            (_, 1) => (self.n.pow(3), 27, 27),
            _ => (self.n.pow(3), 20, 27),
        };
        cells * (nodes * self.s()).pow(2) * (quad + 2) * if self.physics < 2 { 1 } else { 3 } * (3 + self.post as usize) / 3 + 3000
    }
    /// vertices, and cells as lists of them, with everything in an order of its own
    fn geometry(&self) -> (Vec<[f64; 3]>, Vec<Vec<usize>>) {
        let (d, n) = (self.dim(), self.n);
        macro_rules! take {
            ($m:expr) => {{
                let m = $m;
                let v: Vec<[f64; 3]> = m.vertices().iter().map(|p| { let mut x = [0.0; 3]; x[..d].copy_from_slice(p.coords.as_slice()); x }).collect();
                (v, m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect::<Vec<_>>())
            }};
        }
        let (v, cells) = match self.kind {
            0 => take!(create_unit_square_uniform_tri_mesh_2d::<f64>(n)),
            1 => take!(create_unit_square_uniform_quad_mesh_2d::<f64>(n)),
            2 => take!(create_unit_box_uniform_tet_mesh_3d::<f64>(n)),
            _ => take!(create_unit_box_uniform_hex_mesh_3d::<f64>(n)),
        };
        let mut r = Rng::new(self.salt ^ 0x9e0);
        let grid = |x: f64| (x * 4096.0).round() / 4096.0;
        let mut v: Vec<[f64; 3]> = v.iter().map(|x| x.map(grid)).collect();
        if self.warp {
            for x in &mut v {
                if x[..d].iter().all(|&c| c > 0.0 && c < 1.0) {
                    for c in &mut x[..d] {
                        *c = grid(*c + 0.2 * (num(r.next()) - 0.5) / n as f64);
                    }
                }
            }
        }
        let mut p: Vec<usize> = (0..v.len()).collect();
        r.shuffle(&mut p);
        let mut w = v.clone();
        for (i, &j) in p.iter().enumerate() {
            w[j] = v[i];
        }
        let mut cells: Vec<Vec<usize>> = cells.iter().map(|c| c.iter().map(|&i| p[i]).collect()).collect();
        r.shuffle(&mut cells);
        (w, cells)
    }
    fn msh(&self) -> Vec<u8> {
        let (v, cells) = self.geometry();
        let d = self.dim();
        let ty = [2, 3, 4, 5][self.kind as usize];
        let mut s = String::from("$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Nodes\n");
        s += &format!("1 {} 1 {}\n{} 1 0 {}\n", v.len(), v.len(), d, v.len());
        for i in 0..v.len() {
            s += &format!("{}\n", i + 1);
        }
        for x in &v {
            s += &format!("{} {} {}\n", x[0], x[1], x[2]);
        }
        s += &format!("$EndNodes\n$Elements\n1 {} 1 {}\n{} 1 {} {}\n", cells.len(), cells.len(), d, ty, cells.len());
        for (i, c) in cells.iter().enumerate() {
            s += &format!("{} {}\n", i + 1, c.iter().map(|k| (k + 1).to_string()).collect::<Vec<_>>().join(" "));
        }
        s += "$EndElements\n";
        s.into_bytes()
    }
}
fn num(h: u64) -> f64 {
    (h >> 12) as f64 / (1u64 << 52) as f64
}
/// Coordinate `i` of the `k`th interpolation point; the last point is the same in every analysis.
fn probe(a: &Analysis, k: u64, i: usize) -> f64 {
    if k == 2 {
        [0.375, 0.40625, 0.71875][i]
    } else {
        num(mix(a.salt ^ 0x1111, 10 * k + i as u64))
    }
}

// ------------------------------------------------------------------------------------------------ the caller's code
/// An element assembler that fails at one of its calls.
struct Flaky<'a, A> {
    a: &'a A,
    trip: &'a Trip,
}
#[derive(Default)]
struct Trip {
    at: Option<(usize, bool)>,
    calls: AtomicUsize,
    fired: AtomicBool,
}
impl Trip {
    fn hit(&self) -> eyre::Result<()> {
        simrt::callback_point();
        let k = self.calls.fetch_add(1, Ordering::Relaxed);
        match self.at {
            Some((n, panic)) if n == k => {
                self.fired.store(true, Ordering::Relaxed);
                if panic {
                    simrt::note_fault(FK_PANIC);
                    simrt::probe(2);
                    std::panic::panic_any(InjectedPanic(7))
                }
                simrt::note_fault(FK_ERR);
                simrt::probe(1);
                Err(eyre::eyre!("injected e=7"))
            }
            _ => Ok(()),
        }
    }
}
impl<'a, A: ElementConnectivityAssembler> ElementConnectivityAssembler for Flaky<'a, A> {
    fn solution_dim(&self) -> usize {
        self.a.solution_dim()
    }
    fn num_elements(&self) -> usize {
        self.a.num_elements()
    }
    fn num_nodes(&self) -> usize {
        self.a.num_nodes()
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.a.element_node_count(e)
    }
    fn populate_element_nodes(&self, out: &mut [usize], e: usize) {
        self.a.populate_element_nodes(out, e)
    }
}
impl<'a, A: ElementMatrixAssembler<f64>> ElementMatrixAssembler<f64> for Flaky<'a, A> {
    fn assemble_element_matrix_into(&self, e: usize, out: DMatrixViewMut<f64>) -> eyre::Result<()> {
        self.trip.hit()?;
        self.a.assemble_element_matrix_into(e, out)
    }
}
impl<'a, A: ElementVectorAssembler<f64>> ElementVectorAssembler<f64> for Flaky<'a, A> {
    fn assemble_element_vector_into(&self, e: usize, out: DVectorViewMut<f64>) -> eyre::Result<()> {
        self.trip.hit()?;
        self.a.assemble_element_vector_into(e, out)
    }
}
impl<'a, A: ElementScalarAssembler<f64>> ElementScalarAssembler<f64> for Flaky<'a, A> {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.trip.hit()?;
        self.a.assemble_element_scalar(e)
    }
}
/// What a caller keeps from one analysis to the next.
#[derive(Default)]
struct Tools {
    csr: CsrParAssembler<f64>,
    vec: VectorParAssembler<f64>,
    cg: CgWorkspace<f64>,
    /// check what the boundary conditions did to matrices and right-hand sides
    judge: bool,
}
struct Jacobi(Option<DVector<f64>>);
impl LinearOperator<f64> for Jacobi {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        y.copy_from(&x);
        if let Some(d) = &self.0 {
            y.component_div_assign(d);
        }
        Ok(())
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Done {
    u: Vec<f64>,
    energy: f64,
    at_points: Vec<f64>,
    post: Vec<f64>,
    boundary: Vec<usize>,
    vertices: Vec<Vec<f64>>,
    cells: Vec<Vec<usize>>,
    file: Option<Vec<u8>>,
}
const TOL: f64 = 1e-11;

macro_rules! dim_impl {
    ($m:ident, $D:ty, $d:expr) => {
        mod $m {
            use super::*;
            pub type Dim = $D;
            struct Load(f64);
            impl Operator<f64, $D> for Load {
                type SolutionDim = U1;
                type Parameters = ();
            }
            impl SourceFunction<f64, $D> for Load {
                fn evaluate(&self, _x: &OPoint<f64, $D>, _: &()) -> OVector<f64, U1> {
                    OVector::<f64, U1>::new(self.0)
                }
            }
            /// nodal values, and the energy
            pub fn solve<S>(space: &S, points: &[OPoint<f64, $D>], boundary: &[usize], quad: (Vec<f64>, Vec<OPoint<f64, $D>>), a: &Analysis, tools: &mut Tools, trip: &Trip) -> eyre::Result<(Vec<f64>, f64)>
            where
                S: FiniteElementSpace<f64, GeometryDim = $D, ReferenceDim = $D> + Send + Sync,
            {
                let s = a.s();
                let colors = color_nodes(space);
                let mut x = simrt::quiet(|| DVector::zeros(s * points.len()));
                simrt::quiet(|| {
                    for &i in boundary {
                        let g = a.exact(points[i].coords.as_slice());
                        (0..s).for_each(|c| x[s * i + c] = g[c]);
                    }
                });
                let Tools { csr, vec, cg, judge } = tools;
                let judge = *judge;
                let (csr, vec) = (&*csr, &*vec);
                let t0 = UniformQuadratureTable::from_quadrature(quad.clone());
                let source = if a.source {
                    let load = Load(a.load());
                    let b = ElementSourceAssemblerBuilder::new().with_finite_element_space(space).with_source(&load).with_quadrature_table(&t0).build::<f64>();
                    Some(vec.assemble_vector(&colors, &Flaky { a: &b, trip })?)
                } else {
                    None
                };
                macro_rules! run {
                    ($op:expr, $t:expr) => {{
                        let op = $op;
                        let t = $t;
                        macro_rules! asm {
                            ($u:expr) => {
                                ElementEllipticAssemblerBuilder::new().with_finite_element_space(space).with_operator(&op).with_quadrature_table(&t).with_u($u).build()
                            };
                        }
                        let failed: RefCell<Option<eyre::Report>> = RefCell::new(None);
                        let mut k = {
                            let b = asm!(DVectorView::from(&x));
                            csr.assemble(&colors, &Flaky { a: &b, trip })?
                        };
                        let mut first = true;
                        let f = |f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| {
                            let b = asm!(x.as_view());
                            f.fill(0.0);
                            match vec.assemble_vector_into(f.as_view_mut(), &colors, &Flaky { a: &b, trip }) {
                                Ok(()) => {
                                    if let Some(b) = &source {
                                        *f -= b;
                                    }
                                    let before = judge.then(|| f.clone_owned());
                                    apply_homogeneous_dirichlet_bc_rhs(f.as_view_mut(), boundary, s);
                                    if let Some(b) = before {
                                        simrt::quiet(|| judge_rhs(&b, f, boundary, s));
                                    }
                                }
                                Err(e) => {
                                    f.fill(f64::NAN);
                                    failed.borrow_mut().get_or_insert(e);
                                }
                            }
                        };
                        let j = |sol: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, rhs: &DVectorView<f64>| -> Result<(), Box<dyn Error>> {
                            if failed.borrow().is_some() {
                                return Err("residual failed".into());
                            }
                            if !std::mem::replace(&mut first, false) {
                                let b = asm!(x.as_view());
                                k.values_mut().fill(0.0);
                                if let Err(e) = csr.assemble_into_csr(&mut k, &colors, &Flaky { a: &b, trip }) {
                                    failed.borrow_mut().get_or_insert(e);
                                    return Err("Jacobian failed".into());
                                }
                            }
                            let before = judge.then(|| k.clone());
                            apply_homogeneous_dirichlet_bc_csr(&mut k, boundary, s);
                            if let Some(b) = before {
                                simrt::quiet(|| {
                                    judge_matrix(&b, &k, boundary, s);
                                    some_nodes(&b, s, a.salt);
                                });
                            }
                            let p = Jacobi(a.jacobi.then(|| k.diagonal_as_csr().values().to_vec().into()));
                            sol.fill(0.0);
                            ConjugateGradient::with_workspace(&mut *cg)
                                .with_operator(&k)
                                .with_preconditioner(p)
                                .with_stopping_criterion(RelativeResidualCriterion::new(1e-10))
                                .with_max_iter(20 * rhs.len() + 100)
                                .solve_with_guess(rhs, &mut *sol)
                                .map_err(|e| format!("{}", e))?;
                            Ok(())
                        };
                        let n = x.len();
                        let function = VectorFunctionBuilder::with_dimension(n).with_function(f).with_jacobian_solver(j);
                        let (mut fv, mut dx) = (DVector::zeros(n), DVector::zeros(n));
                        let settings = NewtonSettings { max_iterations: Some(12), tolerance: TOL };
                        let r = newton_line_search(function, &mut x, &mut fv, &mut dx, settings, &mut BacktrackingLineSearch {});
                        if let Some(e) = failed.into_inner() {
                            return Err(e);
                        }
                        r.map_err(|e| eyre::eyre!("newton: {}", e))?;
                        let b = asm!(DVectorView::from(&x));
                        let e = par_assemble_scalar(&Flaky { a: &b, trip })?;
                        Ok((x.as_slice().to_vec(), e))
                    }};
                }
                let tl = |q| UniformQuadratureTable::from_quadrature_and_uniform_data(q, a.lame());
                match a.physics {
                    0 => run!(LaplaceOperator, t0),
                    1 => run!(MaterialEllipticOperator::new(&LinearElasticMaterial), tl(quad)),
                    2 => run!(MaterialEllipticOperator::new(&StVKMaterial), tl(quad)),
                    _ => run!(MaterialEllipticOperator::new(&NeoHookeanMaterial), tl(quad)),
                }
            }
            /// M g . g, the errors in L2 and H1 seminorm
            pub fn post<S>(space: &S, points: &[OPoint<f64, $D>], u: &[f64], quad: (Vec<f64>, Vec<OPoint<f64, $D>>), a: &Analysis, tools: &mut Tools, trip: &Trip) -> eyre::Result<Vec<f64>>
            where
                S: FiniteElementSpace<f64, GeometryDim = $D, ReferenceDim = $D> + Send + Sync,
            {
                let s = a.s();
                let colors = color_nodes(space);
                let t = UniformQuadratureTable::from_quadrature_and_uniform_data(quad, Density(a.density()));
                let b = ElementMassAssembler::with_solution_dim(s).with_space(space).with_quadrature_table(&t);
                let m = tools.csr.assemble(&colors, &Flaky { a: &b, trip })?;
                let g: DVector<f64> = simrt::quiet(|| points.iter().flat_map(|p| a.exact(p.coords.as_slice())).collect::<Vec<_>>().into());
                let mg = &m * &g;
                let ud = DVectorView::from_slice(u, u.len());
                macro_rules! errors {
                    ($S:ty) => {{
                        let f = |x: &OPoint<f64, $D>| OVector::<f64, $S>::from_column_slice(&a.exact(x.coords.as_slice()));
                        let df = |x: &OPoint<f64, $D>| OMatrix::<f64, $D, $S>::from_fn(|i, c| a.slope(x.coords.as_slice(), c, i));
                        let (f3, df3) = (|x: &OPoint<f64, $D>| f(x) * 3.0, |x: &OPoint<f64, $D>| df(x) * 3.0);
                        [
                            estimate_L2_error(space, &f, ud, &t)?,
                            estimate_H1_seminorm_error(space, &df, ud, &t)?,
                            estimate_L2_error(space, &f3, ud, &t)?,
                            estimate_H1_seminorm_error(space, &df3, ud, &t)?,
                        ]
                    }};
                }
                let e = if s == 1 { errors!(U1) } else { errors!($D) };
                Ok(vec![mg.dot(&g), e[0], e[1], e[2], e[3]])
            }
            /// values and gradients at the points, and the distance of the field from three times itself
            pub fn at_points<M, SD>(mesh: &M, u: DVectorView<f64>, p: &[OPoint<f64, $D>], quad: (Vec<f64>, Vec<OPoint<f64, $D>>), a: &Analysis) -> eyre::Result<Vec<f64>>
            where
                SD: fenris::SmallDim,
                M: Clone + FiniteElementSpace<f64, GeometryDim = $D, ReferenceDim = $D> + BoundsForElementInSpace<f64> + ClosestPointInElementInSpace<f64> + Send + Sync,
                DefaultAllocator: fenris::allocators::TriDimAllocator<f64, $D, $D, SD>,
            {
                let space = SpatiallyIndexed::from_space(mesh.clone());
                let mut v = vec![OVector::<f64, SD>::zeros(); p.len()];
                interpolate_at_points(&space, p, u, &mut v);
                let mut out: Vec<f64> = v.iter().flatten().copied().collect();
                for (k, q) in p.iter().enumerate() {
                    let g: OMatrix<f64, $D, SD> = if k == 0 { space.interpolate_gradient_at_point(q, u) } else { space.interpolate_gradient_at_points(std::slice::from_ref(q), u).remove(0) };
                    out.extend(g.iter());
                }
                // anywhere: no element is closer than the one found
                simrt::quiet(|| for q in p {
                    let q = OPoint::<f64, $D>::from(q.coords.map(|x| 4.0 * x - 1.5));
                    let at = |e: usize, r: &OPoint<f64, $D>| (mesh.map_element_reference_coords(e, r) - &q).norm();
                    let best = (0..mesh.num_elements()).map(|e| match mesh.closest_point_in_element(e, &q) {
                        ClosestPoint::InElement(_) => 0.0,
                        ClosestPoint::ClosestPoint(r) => at(e, &r),
                    }).fold(f64::INFINITY, f64::min);
                    let found = space.find_closest_element_and_reference_coords(&q);
                    let d = found.as_ref().map_or(f64::INFINITY, |(e, r)| at(*e, r));
                    ensure!(d <= best + 1e-9, "pipeline-closest-element", "{:?}: the element found for {:?} is {:e} away, the closest {:e}", a, q, d, best);
                });
                let fixed = FixedInterpolator::from_space_and_points_par(&space, p, ValuesOrGradients::OnlyValues);
                out.extend(fixed.interpolate::<SD>(u).iter().flatten());
                let t = UniformQuadratureTable::from_quadrature_and_uniform_data(quad, ());
                let f = SpaceInterpolationFn(&space, u);
                let u3 = u * 3.0;
                let e: f64 = if a.salt & 1 == 0 { estimate_L2_error(&space, &f, DVectorView::from(&u3), &t)? } else { estimate_L2_error(mesh, &f, DVectorView::from(&u3), &t)? };
                out.push(e);
                out.push(estimate_H1_seminorm_error(mesh, &f, DVectorView::from(&u3), &t)?);
                Ok(out)
            }
            pub fn probe_points(a: &Analysis) -> Vec<OPoint<f64, $D>> {
                (0..3).map(|k| OPoint::<f64, $D>::from(OVector::<f64, $D>::from_fn(|i, _| probe(a, k, i)))).collect()
            }
        }
    };
}
dim_impl!(d2, U2, 2);
dim_impl!(d3, U3, 3);

fn analyse(k: usize, a: &Analysis, out: &str, tools: &mut Tools, trip: &Trip) -> eyre::Result<Done> {
    lib_call();
    let input = a.input(k);
    macro_rules! rest {
        ($dm:ident, $mesh:expr, $quad:expr, $quad2:expr, |$m:ident, $u:ident, $p:ident| $interp:expr) => {{
            let mesh = $mesh;
            let mesh = if a.reorder { reorder_mesh_par(&mesh).apply(&mesh) } else { mesh };
            let boundary = mesh.find_boundary_vertices();
            let (u, energy) = $dm::solve(&mesh, mesh.vertices(), &boundary, $quad, a, tools, trip)?;
            let post = if a.post { $dm::post(&mesh, mesh.vertices(), &u, $quad2, a, tools, trip)? } else { vec![] };
            let $p = simrt::quiet(|| $dm::probe_points(a));
            let ($m, $u) = (&mesh, DVectorView::from_slice(&u, u.len()));
            let at_points: Vec<f64> = $interp;
            let b = FiniteElementMeshDataSetBuilder::from_mesh(&mesh).with_title("analysis");
            let b = if a.s() == 1 { b.with_point_scalar_attributes("u", 1, &u) } else { b.with_point_vector_attributes("u", a.s(), &u) };
            b.try_export(out)?;
            let done = simrt::quiet(|| Done {
                u: u.clone(),
                energy,
                at_points,
                post,
                boundary,
                vertices: mesh.vertices().iter().map(|p| p.coords.as_slice().to_vec()).collect(),
                cells: mesh.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect(),
                file: simrt::fs::get(out),
            });
            Ok(done)
        }};
    }
    macro_rules! simplex {
        ($dm:ident, $mesh:expr, $quad:expr, $quad2:expr) => {
            rest!($dm, $mesh, $quad, $quad2, |m, u, p| {
                if a.s() == 1 {
                    $dm::at_points::<_, U1>(m, u, &p, $quad2, a)?
                } else {
                    $dm::at_points::<_, $dm::Dim>(m, u, &p, $quad2, a)?
                }
            })
        };
    }
    macro_rules! other {
        ($dm:ident, $mesh:expr, $quad:expr, $quad2:expr) => {
            rest!($dm, $mesh, $quad, $quad2, |_m, _u, _p| vec![])
        };
    }
    match a.kind {
        0 => {
            let m = load_msh_from_file::<f64, U2, Tri3d2Connectivity, _>(&input)?;
            match a.raise {
                0 => simplex!(d2, m, total_order::triangle(2)?, total_order::triangle(2)?),
                _ => other!(d2, Tri6Mesh2d::from(m), total_order::triangle(4)?, total_order::triangle(4)?),
            }
        }
        1 => {
            let m = load_msh_from_file::<f64, U2, Quad4d2Connectivity, _>(&input)?;
            match a.raise {
                0 => other!(d2, m, tensor::quadrilateral_gauss(2), tensor::quadrilateral_gauss(2)),
                _ => other!(d2, Quad9Mesh2d::from(m), tensor::quadrilateral_gauss(3), tensor::quadrilateral_gauss(3)),
            }
        }
        2 => {
            let m = load_msh_from_file::<f64, U3, Tet4Connectivity, _>(&input)?;
            match a.raise {
                0 => simplex!(d3, m, total_order::tetrahedron(1)?, total_order::tetrahedron(2)?),
                _ => other!(d3, Tet10Mesh::from(&m), total_order::tetrahedron(3)?, total_order::tetrahedron(4)?),
            }
        }
        _ => {
            let m = load_msh_from_file::<f64, U3, Hex8Connectivity, _>(&input)?;
            match a.raise {
                0 => other!(d3, m, tensor::hexahedron_gauss(2), tensor::hexahedron_gauss(3)),
                1 => other!(d3, Hex27Mesh::from(&m), tensor::hexahedron_gauss(3), tensor::hexahedron_gauss(4)),
                _ => other!(d3, Hex20Mesh::from(&m), tensor::hexahedron_gauss(3), tensor::hexahedron_gauss(4)),
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ case
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Round {
    a: usize,
    /// the element assembler fails at this call
    fail: Vec<usize>,
    panic: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Disk {
    p_short: u64,
    p_eintr: u64,
    p_eio: u64,
    p_open: u64,
    capacity: Vec<u64>,
    fail_at: Vec<u64>,
}
#[derive(Serialize, Deserialize)]
pub struct E01Case {
    threads: usize,
    as_tasks: bool,
    analyses: Vec<Analysis>,
    callers: Vec<Vec<Round>>,
    disk: Disk,
}
pub struct E01;
fn cost(a: &[Analysis], c: &[Vec<Round>]) -> usize {
    a.iter().map(|a| a.cost()).sum::<usize>() + c.iter().flatten().map(|r| a[r.a].cost()).sum::<usize>()
}
impl Property for E01 {
    type Case = E01Case;
    fn gen(r: &mut Rng, _: GenCtx) -> E01Case {
        let n = r.urange(1, 3);
        let budget = if r.chance(1, 20) { 2_000_000 } else { 400_000 };
        let analyses: Vec<Analysis> = (0..n)
            .map(|_| loop {
                let a = Analysis::gen(r);
                if a.cost() * 4 < budget {
                    break a;
                }
            })
            .collect();
        let faults = r.chance(2, 3);
        let most = 3 + r.chance(1, 4) as usize;
        let mut callers: Vec<Vec<Round>> = (0..r.urange(1, most))
            .map(|_| {
                (0..r.urange(1, 3))
                    .map(|_| Round { a: r.usize(n), fail: if faults && r.chance(1, 3) { vec![if r.chance(1, 2) { r.usize(12) } else { r.usize(100) }] } else { vec![] }, panic: r.chance(1, 2) })
                    .collect()
            })
            .collect();
        while cost(&analyses, &callers) > budget {
            let k = r.usize(callers.len());
            callers[k].pop();
            callers.retain(|c| !c.is_empty());
        }
        let soft = faults && r.chance(1, 2);
        let hard = faults && r.chance(1, 3);
        let p = |r: &mut Rng, on: bool, hi: u64| if on && r.chance(1, 2) { r.below(hi) } else { 0 };
        let disk = Disk {
            p_short: p(r, soft, 40000),
            p_eintr: p(r, soft, 20000),
            p_eio: p(r, hard, 6000),
            p_open: p(r, hard, 6000),
            capacity: if hard && r.chance(1, 4) { vec![r.below(20000)] } else { vec![] },
            fail_at: if hard && r.chance(1, 3) { vec![r.below(40)] } else { vec![] },
        };
        E01Case { threads: Env::gen(r).threads, as_tasks: r.chance(1, 3), analyses, callers, disk }
    }
    fn valid(c: &E01Case) -> bool {
        (1..=16).contains(&c.threads)
            && !c.analyses.is_empty()
            && c.analyses.len() <= 4
            && c.analyses.iter().all(|a| a.ok())
            && c.callers.len() <= 6
            && c.callers.iter().all(|r| r.len() <= 4)
            && c.callers.iter().flatten().all(|r| r.a < c.analyses.len() && r.fail.len() < 2)
            && cost(&c.analyses, &c.callers) <= 2_500_000
            && c.disk.p_short <= 60000
            && c.disk.p_eintr <= 40000
            && c.disk.p_eio <= 60000
            && c.disk.p_open <= 60000
            && c.disk.capacity.len() < 2
            && c.disk.fail_at.len() < 2
    }
    fn run(c: E01Case) {
        simrt::thin(40);
        simrt::fs::put_dir("/simfs/in");
        for (k, a) in c.analyses.iter().enumerate() {
            simrt::quiet(|| simrt::fs::put(&a.input(k), &a.msh()));
        }
        let ext = |a: &Analysis| if a.vtu { "vtu" } else { "vtk" };
        // each analysis alone, on one thread
        let want: Vec<Done> = c
            .analyses
            .iter()
            .enumerate()
            .map(|(k, a)| {
                let out = format!("/simfs/alone/{}.{}", k, ext(a));
                let r = std::thread::scope(|s| s.spawn(|| in_pool(1, || analyse(k, a, &out, &mut Tools { judge: true, ..Default::default() }, &Trip::default()))).join());
                simrt::quiet(|| match r {
                    Ok(Ok(d)) => {
                        judge(a, &d);
                        d
                    }
                    Ok(Err(e)) => simrt::fail("pipeline-failed", &format!("analysis {} ({:?}) fails without any fault: {:#}", k, a, e)),
                    Err(p) => simrt::fail("pipeline-panicked", &format!("analysis {} ({:?}) panics without any fault: {}", k, a, payload(&*p))),
                })
            })
            .collect();
        let (mut s, mut t) = (c.disk.p_short + c.disk.p_eintr + c.disk.p_eio + c.disk.p_open, c.callers.len());
        s += (c.disk.capacity.len() + c.disk.fail_at.len()) as u64;
        t += c.threads - 1;
        if s > 0 || t > 1 || c.callers.iter().flatten().any(|r| !r.fail.is_empty()) {
            nontrivial();
        }
        simrt::quiet(|| {
            let f = simrt::fs::handle();
            f.used = 0;
            simrt::fs::set_plan(FaultPlan {
                p_short: c.disk.p_short,
                p_eintr: c.disk.p_eintr,
                p_eio_read: c.disk.p_eio,
                p_eio_write: c.disk.p_eio,
                p_open: c.disk.p_open,
                capacity: c.disk.capacity.first().map(|&k| k as usize),
                fail_at: c.disk.fail_at.first().map(|&k| (f.ops + k, libc::EIO)),
                ..Default::default()
            });
        });
        if !c.disk.fail_at.is_empty() {
            // a failing mkdir may be made good by another caller's
            ["/simfs/out", "/simfs/out/0", "/simfs/out/1"].iter().for_each(|d| simrt::fs::put_dir(d));
        }
        if c.callers.len() > 1 {
            simrt::probe(4);
            simrt::note_fault(FK_CONCURRENT);
        }
        let io_failed = AtomicUsize::new(0);
        let caller = |i: usize| {
            let mut tools = Tools::default();
            let mut before = false;
            for (j, r) in c.callers[i].iter().enumerate() {
                let a = &c.analyses[r.a];
                let out = format!("/simfs/out/{}/{}_{}.{}", j % 2, i, j, ext(a));
                let trip = Trip { at: r.fail.first().map(|&k| (k, r.panic)), ..Default::default() };
                if before {
                    simrt::probe(0);
                    simrt::note_fault(FK_FAILED_BEFORE);
                }
                let got = catch(|| analyse(r.a, a, &out, &mut tools, &trip));
                let fired = trip.fired.load(Ordering::Relaxed);
                before = !matches!(&got, Ok(Ok(_)));
                let what = format!("caller {}, round {}, analysis {}", i, j, r.a);
                let hard = simrt::fs::handle().hard_errors;
                simrt::quiet(|| match got {
                    Ok(Ok(d)) => {
                        ensure!(!fired, "pipeline-error-lost", "{}: the element assembler failed at call {:?} (panic: {}), the analysis succeeded", what, r.fail, r.panic);
                        compare(&d, &want[r.a], &what);
                    }
                    Ok(Err(e)) if fired && !r.panic => ensure!(injected(&e) == Some(7), "pipeline-error-changed", "{}: the element assembler failed, the analysis ends with {:#}", what, e),
                    Ok(Err(e)) => {
                        ensure!(!fired, "pipeline-panic-lost", "{}: the element assembler panicked, the analysis ends with {:#}", what, e);
                        ensure!(hard > 0, "pipeline-invented-error", "{}: nothing failed, the analysis ends with {:#}", what, e);
                        simrt::probe(3);
                        io_failed.fetch_add(1, Ordering::Relaxed);
                    }
                    Err(p) => ensure!(fired && r.panic && payload(&*p) == "InjectedPanic(7)", "pipeline-panicked", "{}: panic {:?} (injected: {})", what, payload(&*p), fired && r.panic),
                });
            }
        };
        let caller = &caller;
        let n = c.callers.len();
        if c.as_tasks {
            simrt::probe(5);
            in_pool(c.threads, || {
                rayon::scope(|s| {
                    for k in 0..n {
                        s.spawn(move |_| caller(k));
                    }
                })
            });
        } else {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().expect("pool");
            std::thread::scope(|s| {
                for k in 1..n {
                    let pool = &pool;
                    s.spawn(move || pool.install(|| caller(k)));
                }
                if n > 0 {
                    pool.install(|| caller(0));
                }
            });
        }
        simrt::quiet(|| {
            let hard = simrt::fs::handle().hard_errors;
            let k = io_failed.load(Ordering::Relaxed) as u64;
            ensure!((hard > 0) == (k > 0) && k <= hard, "pipeline-io-error-lost", "{} operations on the disk failed for good, {} analyses ended with an error", hard, k);
        });
    }
}
/// Homogeneous Dirichlet conditions: rows and columns of the nodes cleared but for the diagonal, the rest untouched.
fn judge_matrix(before: &CsrMatrix<f64>, after: &CsrMatrix<f64>, nodes: &[usize], s: usize) {
    let fixed = |i: usize| nodes.binary_search(&(i / s)).is_ok();
    for ((i, j, x), (k, l, y)) in before.triplet_iter().zip(after.triplet_iter()) {
        ensure!((i, j) == (k, l), "pipeline-dirichlet", "the pattern changed");
        if i == j && fixed(i) {
            ensure!(*y > 0.0 && y.is_finite(), "pipeline-dirichlet", "diagonal entry {} of a Dirichlet node is {:e}", i, y);
        } else if fixed(i) || fixed(j) {
            ensure!(*y == 0.0, "pipeline-dirichlet", "entry {} {} is {:e} (Dirichlet nodes {:?}, dimension {})", i, j, y, nodes, s);
        } else {
            ensure!(x.to_bits() == y.to_bits(), "pipeline-dirichlet", "entry {} {} changed from {:e} to {:e} (Dirichlet nodes {:?}, dimension {})", i, j, x, y, nodes, s);
        }
    }
}
/// the same with any nodes, in any order
fn some_nodes(k: &CsrMatrix<f64>, s: usize, salt: u64) {
    let mut nodes: Vec<usize> = (0..k.nrows() / s).filter(|&i| mix(salt ^ 0xd1, i as u64) % 3 == 0).collect();
    let mut order = nodes.clone();
    Rng::new(salt).shuffle(&mut order);
    // some diagonal entries zero or negative
    let mut k = k.clone();
    for i in 0..k.nrows() {
        if let Some(fenris::nalgebra_sparse::SparseEntryMut::NonZero(x)) = k.get_entry_mut(i, i) {
            match mix(salt ^ 0xd2, i as u64) % 4 {
                0 if i > 0 => *x = 0.0,
                1 => *x = -*x,
                _ => (),
            }
        }
    }
    let k = &k;
    let mut after = k.clone();
    apply_homogeneous_dirichlet_bc_csr(&mut after, &order, s);
    nodes.sort_unstable();
    judge_matrix(k, &after, &nodes, s);
    let b = DVector::from_fn(k.nrows(), |i, _| 1.0 + i as f64);
    let mut c = b.clone();
    apply_homogeneous_dirichlet_bc_rhs(&mut c, &order, s);
    judge_rhs(&b, &c.as_view_mut(), &nodes, s);
    if k.nrows() <= 60 {
        let before = fenris::nalgebra::DMatrix::from(k);
        let mut m = before.clone();
        match s {
            1 => apply_homogeneous_dirichlet_bc_matrix::<f64, U1>(&mut m, &order),
            2 => apply_homogeneous_dirichlet_bc_matrix::<f64, U2>(&mut m, &order),
            _ => apply_homogeneous_dirichlet_bc_matrix::<f64, U3>(&mut m, &order),
        }
        let fixed = |i: usize| nodes.binary_search(&(i / s)).is_ok();
        for i in 0..m.nrows() {
            for j in 0..m.nrows() {
                let (x, y) = (before[(i, j)], m[(i, j)]);
                let ok = if i == j && fixed(i) { y > 0.0 && y.is_finite() } else if fixed(i) || fixed(j) { y == 0.0 } else { x.to_bits() == y.to_bits() };
                ensure!(ok, "pipeline-dirichlet", "dense entry {} {} became {:e} from {:e} (Dirichlet nodes {:?}, dimension {})", i, j, y, x, nodes, s);
            }
        }
    }
}
fn judge_rhs(before: &DVector<f64>, after: &DVectorViewMut<f64>, nodes: &[usize], s: usize) {
    for (i, (x, y)) in before.iter().zip(after.iter()).enumerate() {
        let want = if nodes.binary_search(&(i / s)).is_ok() { 0.0 } else { *x };
        ensure!(want.to_bits() == y.to_bits(), "pipeline-dirichlet", "right-hand side {} became {:e} from {:e} (Dirichlet nodes {:?}, dimension {})", i, y, x, nodes, s);
    }
}
fn be(v: impl Iterator<Item = f64>) -> Vec<u8> {
    v.flat_map(|x| x.to_be_bytes()).collect()
}
/// The reference run against what is known about the analysis.
fn judge(a: &Analysis, d: &Done) {
    if a.raise > 0 {
        simrt::probe(6)
    }
    if a.physics > 1 {
        simrt::probe(7)
    }
    if a.source {
        simrt::probe(8)
    }
    if !d.at_points.is_empty() {
        simrt::probe(9)
    }
    if a.reorder {
        simrt::probe(10)
    }
    let (dim, s) = (a.dim(), a.s());
    let (v, cells) = a.geometry();
    ensure!(d.cells.len() == cells.len(), "pipeline-mesh", "{:?}: {} cells of {}", a, d.cells.len(), cells.len());
    if a.raise == 0 {
        if !a.reorder {
            ensure!(d.cells == cells && d.vertices.iter().zip(&v).all(|(x, y)| x[..] == y[..dim]), "pipeline-mesh", "{:?}: the mesh is not the one in the file", a);
        }
        // cells as lists of points are what they were, in any numbering
        let key = |c: &Vec<usize>, at: &dyn Fn(usize) -> Vec<u64>| c.iter().map(|&i| at(i)).collect::<Vec<_>>();
        let mut x: Vec<_> = d.cells.iter().map(|c| key(c, &|i| d.vertices[i].iter().map(|x| x.to_bits()).collect())).collect();
        let mut y: Vec<_> = cells.iter().map(|c| key(c, &|i| v[i][..dim].iter().map(|x| x.to_bits()).collect())).collect();
        x.sort();
        y.sort();
        ensure!(x == y && d.vertices.len() == v.len(), "pipeline-mesh", "{:?}: the renumbered mesh is not the one in the file", a);
    }
    let outside: Vec<usize> = (0..d.vertices.len()).filter(|&i| d.vertices[i].iter().any(|&x| x.abs() < 1e-9 || (x - 1.0).abs() < 1e-9)).collect();
    ensure!(d.boundary == outside, "pipeline-boundary", "{:?}: boundary {:?} instead of {:?}", a, d.boundary, outside);
    let scale = a.amp() * (1.0 + a.source as u8 as f64);
    for (i, x) in d.vertices.iter().enumerate() {
        for (k, g) in a.exact(x).iter().enumerate() {
            ensure!((d.u[s * i + k] - g).abs() <= 1e-7 * scale, "pipeline-solution", "{:?}: component {} at {:?} is {:e}, the exact solution is {:e}", a, k, x, d.u[s * i + k], g);
        }
    }
    if let Some(e) = a.energy() {
        ensure!((d.energy - e).abs() <= 1e-7 * (e.abs() + scale * scale), "pipeline-energy", "{:?}: energy {:e}, of the exact solution {:e}", a, d.energy, e);
    }
    if !d.at_points.is_empty() {
        let pts: Vec<Vec<f64>> = (0..3u64).map(|k| (0..dim).map(|i| probe(a, k, i)).collect()).collect();
        for (k, x) in pts.iter().enumerate() {
            for (j, g) in a.exact(x).iter().enumerate() {
                ensure!((d.at_points[s * k + j] - g).abs() <= 1e-7 * scale, "pipeline-interpolation", "{:?}: component {} interpolated at {:?} is {:e}, the exact solution is {:e}", a, j, x, d.at_points[s * k + j], g);
                ensure!((d.at_points[3 * s * (1 + dim) + s * k + j] - g).abs() <= 1e-7 * scale, "pipeline-interpolation", "{:?}: component {} at {:?} is {:e} by a fixed interpolator, the exact solution is {:e}", a, j, x, d.at_points[3 * s * (1 + dim) + s * k + j], g);
                for i in 0..dim {
                    let (got, want) = (d.at_points[3 * s + k * s * dim + j * dim + i], a.slope(x, j, i));
                    ensure!((got - want).abs() <= 1e-6 * scale * a.n as f64, "pipeline-interpolation", "{:?}: derivative {} of component {} interpolated at {:?} is {:e}, of the exact solution {:e}", a, i, j, x, got, want);
                }
            }
        }
        let e = &d.at_points[3 * s * (2 + dim)..];
        for (e, want) in [(e[0], 2.0 * (a.square() / a.density()).sqrt()), (e[1], 2.0 * a.steepness().sqrt())] {
            ensure!((e - want).abs() <= 1e-6 * a.n as f64 * scale, "pipeline-error-estimate", "{:?}: the estimated distance of three times the solution from the interpolated solution is {:e} instead of {:e}", a, e, want);
        }
    }
    if a.post {
        simrt::probe(11);
        let want = a.square();
        ensure!((d.post[0] - want).abs() <= 1e-10 * want, "pipeline-mass", "{:?}: the squared norm of the solution by the mass matrix is {:e}, by integration {:e}", a, d.post[0], want);
        ensure!(d.post[1] <= 1e-7 * scale && d.post[2] <= 1e-6 * scale * a.n as f64, "pipeline-error-estimate", "{:?}: estimated errors {:e} and {:e} of an exact solution", a, d.post[1], d.post[2]);
        // the distance from three times the solution is twice its norm
        for (i, want) in [(3, 2.0 * (want / a.density()).sqrt()), (4, 2.0 * a.steepness().sqrt())] {
            ensure!((d.post[i] - want).abs() <= 1e-6 * a.n as f64 * scale, "pipeline-error-estimate", "{:?}: the estimated distance from three times the solution is {:e} instead of {:e}", a, d.post[i], want);
        }
    }
    let Some(b) = &d.file else { simrt::fail("pipeline-file-missing", &format!("{:?}: no file after a successful export", a)) };
    let ds = match if a.vtu { read_vtu(b) } else { read_vtk(b) } {
        Ok(d) => d,
        Err(e) => simrt::fail("pipeline-file", &format!("{:?}: the result file cannot be read: {}", a, e)),
    };
    let pad = |v: &[f64]| (0..3).map(|i| v.get(i).copied().unwrap_or(0.0)).collect::<Vec<_>>();
    ensure!(ds.points.bytes == be(d.vertices.iter().flat_map(|x| pad(x))), "pipeline-file", "{:?}: points in the file differ", a);
    ensure!(ds.cells.len() == d.cells.len() && ds.attrs.len() == 1, "pipeline-file", "{:?}: {} cells and {} attributes in the file", a, ds.cells.len(), ds.attrs.len());
    let want = if s == 1 { be(d.u.iter().copied()) } else { be(d.u.chunks(s).flat_map(|x| pad(x))) };
    ensure!(ds.attrs[0].name == "u" && ds.attrs[0].bytes == want, "pipeline-file", "{:?}: the solution in the file differs", a);
    if a.raise == 0 {
        ensure!(ds.cells.iter().zip(&d.cells).all(|(x, y)| x.1.iter().map(|&i| i as usize).eq(y.iter().copied())), "pipeline-file", "{:?}: cells in the file differ", a);
    }
}
fn compare(got: &Done, want: &Done, what: &str) {
    ensure!(got.vertices == want.vertices && got.cells == want.cells && got.boundary == want.boundary, "pipeline-mesh-schedule", "{}: another mesh or boundary than alone on one thread", what);
    for (i, (x, y)) in got.u.iter().zip(&want.u).enumerate() {
        ensure!(same(*x, *y), "pipeline-schedule", "{}: value {} is {:e}, alone on one thread {:e}", what, i, x, y);
    }
    ensure!(got.u.len() == want.u.len(), "pipeline-schedule", "{}: {} values instead of {}", what, got.u.len(), want.u.len());
    ensure!(got.at_points.len() == want.at_points.len() && got.at_points.iter().zip(&want.at_points).all(|(x, y)| same(*x, *y)), "pipeline-schedule", "{}: interpolated values {:?}, alone on one thread {:?}", what, got.at_points, want.at_points);
    ensure!(got.post.len() == want.post.len() && got.post.iter().zip(&want.post).all(|(x, y)| same(*x, *y)), "pipeline-schedule", "{}: mass and errors {:?}, alone on one thread {:?}", what, got.post, want.post);
    ensure!((got.energy - want.energy).abs() <= 1e-12 * (1e-6 + want.energy.abs()), "pipeline-schedule", "{}: energy {:e}, alone on one thread {:e}", what, got.energy, want.energy);
    ensure!(got.file == want.file, "pipeline-file-schedule", "{}: another file than alone on one thread ({:?} bytes instead of {:?})", what, got.file.as_ref().map(|f| f.len()), want.file.as_ref().map(|f| f.len()));
}

//! A07: local element assemblers, on whatever thread and after whatever else ran there.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris::assembly::global::{par_assemble_scalar, assemble_scalar, color_nodes, CsrAssembler, CsrParAssembler, VectorAssembler, VectorParAssembler};
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::element::*;
use fenris::error::*;
use fenris::integrate::*;
use fenris::mesh::*;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorView, DVectorViewMut, Dyn, MatrixViewMut, OMatrix, OPoint, OVector, Point2, U1, U2, U3};
use fenris::space::*;
use fenris::Symmetry;
use fenris_nested_vec::NestedVec;
use fenris_solid::materials::{LameParameters, LinearElasticMaterial, NeoHookeanMaterial, StVKMaterial};
use fenris_solid::{GravitySource, MaterialEllipticOperator};
use rayon::iter::{IntoParallelIterator, ParallelIterator};
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use std::sync::atomic::{AtomicUsize, Ordering};

const REAL: &str = "fenris: local elliptic, mass, source and integral assemblers, interpolation at points, error estimates, quadrature tables and buffers, finite element spaces (Tri3, Tri6, Quad4, Quad9, Tet4, Tet10, Hex8, Hex27 meshes), global assemblers on top of them; fenris-solid materials and gravity; davenport workspaces, thread_local, rayon, std (all unmodified, on real OS threads)";
const STUB: &str = "user-supplied operators, sources and integrands, some of which panic; a space mixing triangles and quadrilaterals; OS: scheduler, futex, clock, getrandom and thread creation decided by the simulator";

pub fn entries() -> Vec<Entry> {
    vec![Entry {
        id: "A07", quick_runs: 12000, thorough_runs: 600000, gen: gen_of::<A07>, run: run_of::<A07>, valid: valid_of::<A07>,
        rule: "One case: 1-3 spaces, 2-12 jobs (28 routines: elliptic, mass, source, integral, interpolation at points and error estimates; any element, table and data; some panic or meet a singular element), which threads or pool tasks run them and in which order, output buffers full of garbage; each result compared bitwise with the same job on a thread that ran nothing else. Non-trivial: two jobs on one thread.",
        real: REAL, stub: STUB,
        probes: &["panicking callback", "singular element", "job after a panic on the same thread", "job after an error on the same thread", "smaller element after a larger one", "several spaces", "pool decides the thread", "global assembly", "interleaved threads"][..],
    }]
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Par(pub f64);
#[derive(Clone, Debug)]
pub struct CustomOp<const S: usize> {
    sym: bool,
}
fn check_poison(p: f64) {
    if p == POISON {
        simrt::note_fault(FK_PANIC);
        simrt::probe(0);
        std::panic::panic_any(InjectedPanic(0))
    }
}
const POISON: f64 = 12345.5;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SpaceSpec {
    kind: u8,
    n: usize,
    warp: u64,
    /// this element (if any) has a singular Jacobian
    flat: Vec<usize>,
    tables: Vec<TableSpec>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TableSpec {
    /// 0 uniform, 1 general, 2 compact
    kind: u8,
    max: usize,
    salt: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Job {
    space: usize,
    routine: u8,
    elem: usize,
    table: usize,
    salt: u64,
    /// the data of this quadrature point (of any element) makes the callback panic
    poison: Vec<usize>,
    /// assemble the whole space instead of one element
    global: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Ok(Vec<u64>),
    Err(String),
    Panic(String),
}
trait Sp: Send + Sync {
    fn elements(&self) -> usize;
    fn nodes_of(&self, e: usize) -> usize;
    fn call(&self, j: &Job, garbage: u64) -> eyre::Result<Vec<u64>>;
    fn global(&self, j: &Job, parallel: bool) -> eyre::Result<Vec<u64>>;
}
fn num(h: u64) -> f64 {
    (h >> 12) as f64 / (1u64 << 52) as f64
}
fn garb(g: u64, i: usize) -> f64 {
    match g {
        0 => 0.0,
        _ => match mix(g, i as u64) % 4 {
            0 => f64::NAN,
            1 => f64::INFINITY,
            _ => num(mix(g, i as u64 + 1)) * 1e6,
        },
    }
}
fn bits(v: impl IntoIterator<Item = f64>) -> Vec<u64> {
    v.into_iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect()
}
/// what every assembler kind can be asked for
fn go_matrix<A: ElementMatrixAssembler<f64> + Sync>(a: &A, how: &How) -> eyre::Result<Vec<u64>> {
    lib_call();
    match *how {
        How::Element(e, g) => {
            let n = a.element_node_count(e) * a.solution_dim();
            if g % 8 == 1 {
                let m = a.assemble_element_matrix(e)?;
                ensure!(m.shape() == (n, n), "element-matrix-shape", "{:?} instead of {} squared", m.shape(), n);
                return Ok(simrt::quiet(|| bits(m.iter().copied())));
            }
            let mut m = simrt::quiet(|| DMatrix::from_fn(n, n, |i, j| garb(g, i * n + j)));
            a.assemble_element_matrix_into(e, DMatrixViewMut::from(&mut m))?;
            Ok(simrt::quiet(|| bits(m.iter().copied())))
        }
        How::Global(par) => {
            let m = if par {
                let colors = color_nodes(&ConnOf(a));
                CsrParAssembler::default().assemble(&colors, a)?
            } else {
                CsrAssembler::default().assemble(a)?
            };
            Ok(simrt::quiet(|| m.triplet_iter().flat_map(|(i, j, v)| [i as u64, j as u64, bits([*v])[0]]).collect()))
        }
    }
}
fn go_vector<A: ElementVectorAssembler<f64> + Sync>(a: &A, how: &How) -> eyre::Result<Vec<u64>> {
    lib_call();
    match *how {
        How::Element(e, g) => {
            let n = a.element_node_count(e) * a.solution_dim();
            if g % 8 == 1 {
                let v = a.assemble_element_vector(e)?;
                ensure!(v.len() == n, "element-vector-length", "{} instead of {}", v.len(), n);
                return Ok(bits(v.iter().copied()));
            }
            let mut m = simrt::quiet(|| DVector::from_fn(n, |i, _| garb(g, i)));
            a.assemble_element_vector_into(e, DVectorViewMut::from(&mut m))?;
            Ok(bits(m.iter().copied()))
        }
        How::Global(par) => {
            let v = if par {
                let colors = color_nodes(&ConnOf(a));
                VectorParAssembler::default().assemble_vector(&colors, a)?
            } else {
                VectorAssembler::default().assemble_vector(a)?
            };
            Ok(bits(v.iter().copied()))
        }
    }
}
fn go_scalar<A: ElementScalarAssembler<f64> + Sync>(a: &A, how: &How) -> eyre::Result<Vec<u64>> {
    lib_call();
    match *how {
        How::Element(e, _) => Ok(bits([a.assemble_element_scalar(e)?])),
        // a parallel sum has no fixed order
        How::Global(par) => {
            let s = if par { par_assemble_scalar(a)? } else { assemble_scalar(a)? };
            let _ = s;
            Ok(vec![])
        }
    }
}
enum How {
    Element(usize, u64),
    Global(bool),
}
struct ConnOf<'a, A>(&'a A);
impl<'a, A: ElementConnectivityAssembler> FiniteElementConnectivity for ConnOf<'a, A> {
    fn num_elements(&self) -> usize {
        self.0.num_elements()
    }
    fn num_nodes(&self) -> usize {
        self.0.num_nodes()
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.0.element_node_count(e)
    }
    fn populate_element_nodes(&self, out: &mut [usize], e: usize) {
        self.0.populate_element_nodes(out, e)
    }
}
pub const N_ROUTINES: u8 = 28;
thread_local! {
    /// the workspace a caller keeps for integration element by element
    static KEPT: std::cell::RefCell<IntegrationWorkspace<f64>> = Default::default();
}

macro_rules! dim_impl {
    ($m:ident, $D:ty, $d:expr) => {
        mod $m {
            use super::*;
            pub enum Table<X: Clone + Default> {
                Uniform(UniformQuadratureTable<f64, $D, X>),
                General(GeneralQuadratureTable<f64, $D, X>),
                Compact(CompactQuadratureTable<f64, $D, X>),
            }
            impl<X: Clone + Default> QuadratureTable<f64, $D> for Table<X> {
                type Data = X;
                fn element_quadrature_size(&self, e: usize) -> usize {
                    match self {
                        Table::Uniform(t) => t.element_quadrature_size(e),
                        Table::General(t) => t.element_quadrature_size(e),
                        Table::Compact(t) => t.element_quadrature_size(e),
                    }
                }
                fn populate_element_data(&self, e: usize, data: &mut [X]) {
                    match self {
                        Table::Uniform(t) => t.populate_element_data(e, data),
                        Table::General(t) => t.populate_element_data(e, data),
                        Table::Compact(t) => t.populate_element_data(e, data),
                    }
                }
                fn populate_element_quadrature(&self, e: usize, p: &mut [OPoint<f64, $D>], w: &mut [f64]) {
                    match self {
                        Table::Uniform(t) => t.populate_element_quadrature(e, p, w),
                        Table::General(t) => t.populate_element_quadrature(e, p, w),
                        Table::Compact(t) => t.populate_element_quadrature(e, p, w),
                    }
                }
                fn populate_element_quadrature_and_data(&self, e: usize, p: &mut [OPoint<f64, $D>], w: &mut [f64], d: &mut [X]) {
                    match self {
                        Table::Uniform(t) => t.populate_element_quadrature_and_data(e, p, w, d),
                        Table::General(t) => t.populate_element_quadrature_and_data(e, p, w, d),
                        Table::Compact(t) => t.populate_element_quadrature_and_data(e, p, w, d),
                    }
                }
            }
            pub fn table<X: Clone + Default>(ts: &TableSpec, ne: usize, mk: impl Fn(usize, usize) -> X) -> Table<X> {
                let pt = |k: usize, q: usize| OPoint::<f64, $D>::from(OVector::<f64, $D>::from_fn(|i, _| -0.9 + 1.8 * num(mix(mix(ts.salt, k as u64), (q * 4 + i) as u64))));
                let w = |k: usize, q: usize| 0.1 + num(mix(mix(ts.salt ^ 5, k as u64), q as u64));
                let size = |k: usize| (mix(ts.salt ^ 9, k as u64) % (ts.max as u64 + 1)) as usize;
                let nested = |n: usize| {
                    let (mut p, mut ww, mut d) = (NestedVec::new(), NestedVec::new(), NestedVec::new());
                    for k in 0..n {
                        let s = size(k);
                        p.push(&(0..s).map(|q| pt(k, q)).collect::<Vec<_>>());
                        ww.push(&(0..s).map(|q| w(k, q)).collect::<Vec<_>>());
                        d.push(&(0..s).map(|q| mk(k, q)).collect::<Vec<_>>());
                    }
                    (p, ww, d)
                };
                match ts.kind {
                    0 => {
                        let n = ts.max;
                        Table::Uniform(UniformQuadratureTable::from_points_weights_and_data((0..n).map(|q| pt(0, q)).collect(), (0..n).map(|q| w(0, q)).collect(), (0..n).map(|q| mk(0, q)).collect()))
                    }
                    1 => {
                        let (p, w, d) = nested(ne);
                        Table::General(GeneralQuadratureTable::from_points_weights_and_data(p, w, d))
                    }
                    _ => {
                        let rules = 1 + (ts.salt % 3) as usize;
                        let (p, w, d) = nested(rules);
                        Table::Compact(CompactQuadratureTable::from_quadrature_rules_and_map(p, w, d, (0..ne).map(|e| (mix(ts.salt, e as u64) % rules as u64) as usize).collect()))
                    }
                }
            }
            macro_rules! op {
                ($S:ty, $s:expr) => {
                    impl Operator<f64, $D> for CustomOp<$s> {
                        type SolutionDim = $S;
                        type Parameters = Par;
                    }
                    impl EllipticEnergy<f64, $D> for CustomOp<$s> {
                        fn compute_energy(&self, g: &OMatrix<f64, $D, $S>, p: &Par) -> f64 {
                            simrt::callback_point();
                            check_poison(p.0);
                            g.iter().enumerate().map(|(i, x)| x * x * (i as f64 + p.0) + x).sum()
                        }
                    }
                    impl EllipticOperator<f64, $D> for CustomOp<$s> {
                        fn compute_elliptic_operator(&self, g: &OMatrix<f64, $D, $S>, p: &Par) -> OMatrix<f64, $D, $S> {
                            simrt::callback_point();
                            check_poison(p.0);
                            g.map(|x| x * x * p.0 - x) + OMatrix::<f64, $D, $S>::from_fn(|i, j| (i * 3 + j) as f64 * p.0)
                        }
                    }
                    impl EllipticContraction<f64, $D> for CustomOp<$s> {
                        fn contract(&self, g: &OMatrix<f64, $D, $S>, a: &OVector<f64, $D>, b: &OVector<f64, $D>, p: &Par) -> OMatrix<f64, $S, $S> {
                            simrt::callback_point();
                            check_poison(p.0);
                            let k = a.dot(b) * p.0 + if self.sym { 0.0 } else { a[0] * b[$d - 1] };
                            let c = g.iter().sum::<f64>();
                            OMatrix::<f64, $S, $S>::from_fn(|i, j| if self.sym { k * (1.0 + (i + j) as f64) + c * a.dot(b) } else { k * (1.0 + i as f64 - 2.0 * j as f64) + c })
                        }
                        fn symmetry(&self) -> Symmetry {
                            if self.sym {
                                Symmetry::Symmetric
                            } else {
                                Symmetry::NonSymmetric
                            }
                        }
                    }
                    impl SourceFunction<f64, $D> for CustomOp<$s> {
                        fn evaluate(&self, x: &OPoint<f64, $D>, p: &Par) -> OVector<f64, $S> {
                            simrt::callback_point();
                            check_poison(p.0);
                            OVector::<f64, $S>::from_fn(|i, _| x[i % $d] * p.0 + i as f64)
                        }
                    }
                };
            }
            op!(U1, 1);
            op!(U2, 2);
            op!(U3, 3);

            /// A space with a closest-element query: the answer depends on the point only, and a query may panic.
            pub struct Find<'a, S>(&'a S, u64, Option<usize>, AtomicUsize);
            impl<'a, S: FiniteElementConnectivity> FiniteElementConnectivity for Find<'a, S> {
                fn num_elements(&self) -> usize {
                    self.0.num_elements()
                }
                fn num_nodes(&self) -> usize {
                    self.0.num_nodes()
                }
                fn element_node_count(&self, e: usize) -> usize {
                    self.0.element_node_count(e)
                }
                fn populate_element_nodes(&self, nodes: &mut [usize], e: usize) {
                    self.0.populate_element_nodes(nodes, e)
                }
            }
            impl<'a, S: FiniteElementSpace<f64, GeometryDim = $D, ReferenceDim = $D>> FiniteElementSpace<f64> for Find<'a, S> {
                type GeometryDim = $D;
                type ReferenceDim = $D;
                fn populate_element_basis(&self, e: usize, v: &mut [f64], p: &OPoint<f64, $D>) {
                    self.0.populate_element_basis(e, v, p)
                }
                fn populate_element_gradients(&self, e: usize, g: MatrixViewMut<f64, $D, Dyn>, p: &OPoint<f64, $D>) {
                    self.0.populate_element_gradients(e, g, p)
                }
                fn element_reference_jacobian(&self, e: usize, p: &OPoint<f64, $D>) -> OMatrix<f64, $D, $D> {
                    self.0.element_reference_jacobian(e, p)
                }
                fn map_element_reference_coords(&self, e: usize, p: &OPoint<f64, $D>) -> OPoint<f64, $D> {
                    self.0.map_element_reference_coords(e, p)
                }
                fn diameter(&self, e: usize) -> f64 {
                    self.0.diameter(e)
                }
            }
            impl<'a, S: FiniteElementSpace<f64, GeometryDim = $D, ReferenceDim = $D>> FindClosestElement<f64> for Find<'a, S> {
                fn find_closest_element_and_reference_coords(&self, p: &OPoint<f64, $D>) -> Option<(usize, OPoint<f64, $D>)> {
                    simrt::callback_point();
                    check_poison(if Some(self.3.fetch_add(1, Ordering::Relaxed)) == self.2 { POISON } else { 0.0 });
                    let h = p.iter().fold(self.1, |h, x| mix(h, x.to_bits()));
                    let e = h % (self.0.num_elements() as u64 + 1);
                    // the reference coordinates are often those of the point before
                    let q = |i: u64| match h >> 20 & 3 {
                        0 => 0.0,
                        1 => 0.25,
                        _ => -0.9 + 1.8 * num(mix(h, i)),
                    };
                    (e < self.0.num_elements() as u64).then(|| (e as usize, OPoint::<f64, $D>::from(OVector::<f64, $D>::from_fn(|i, _| q(i as u64)))))
                }
            }

            pub struct H<S> {
                pub space: S,
                pub tables: Vec<TableSpec>,
            }
            impl<S> H<S>
            where
                S: FiniteElementSpace<f64, GeometryDim = $D, ReferenceDim = $D> + Send + Sync,
            {
                fn go(&self, j: &Job, how: How) -> eyre::Result<Vec<u64>> {
                    let ne = self.space.num_elements();
                    let ts = &self.tables[j.table];
                    let pois = j.poison.first().copied();
                    let val = |k: usize, q: usize| if Some(q) == pois { POISON } else { 0.5 + num(mix(mix(ts.salt ^ j.salt, k as u64 + 100), q as u64)) };
                    let s = match j.routine {
                        0..=2 => 1,
                        3..=5 => 2,
                        6 => 3,
                        7..=11 => $d,
                        12..=14 => j.routine as usize - 11,
                        15 => 1,
                        16 => 2,
                        17 => $d,
                        18 | 19 => 1,
                        22 | 24 | 26 => 1,
                        _ => 2,
                    };
                    let nd = self.space.num_nodes() * s;
                    let u = simrt::quiet(|| {
                        // one in six: the undeformed state
                        let a = if mix(j.salt, 77) % 6 == 0 { 0.0 } else { 0.1 };
                        // one in eight: some of it is not a number
                        let bad = mix(j.salt, 78) % 8 == 0;
                        DVector::from_fn(nd, |i, _| if bad && mix(j.salt ^ 1, i as u64) % 3 == 0 { f64::NAN } else { a * num(mix(j.salt, i as u64)) - 0.5 * a })
                    });
                    let ud = DVectorView::from(&u);
                    let tp = || simrt::quiet(|| table(ts, ne, |k, q| Par(val(k, q))));
                    let tl = || simrt::quiet(|| table(ts, ne, |k, q| LameParameters { lambda: val(k, q), mu: val(k, q + 50) }));
                    let td = || simrt::quiet(|| table(ts, ne, |k, q| Density(val(k, q))));
                    let t0 = || simrt::quiet(|| table(ts, ne, |_, _| ()));
                    macro_rules! elliptic {
                        ($op:expr, $t:expr, $go:ident) => {{
                            let t = $t;
                            let op = $op;
                            let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&self.space).with_operator(&op).with_quadrature_table(&t).with_u(ud).build();
                            $go(&a, &how)
                        }};
                    }
                    match j.routine {
                        0 => elliptic!(LaplaceOperator, t0(), go_matrix),
                        1 => elliptic!(LaplaceOperator, t0(), go_vector),
                        2 => elliptic!(LaplaceOperator, t0(), go_scalar),
                        3 => elliptic!(CustomOp::<2> { sym: false }, tp(), go_matrix),
                        4 => elliptic!(CustomOp::<2> { sym: false }, tp(), go_vector),
                        5 => elliptic!(CustomOp::<2> { sym: false }, tp(), go_scalar),
                        6 => elliptic!(CustomOp::<3> { sym: true }, tp(), go_matrix),
                        7 => elliptic!(MaterialEllipticOperator::new(&LinearElasticMaterial), tl(), go_matrix),
                        8 => elliptic!(MaterialEllipticOperator::new(&StVKMaterial), tl(), go_vector),
                        9 => elliptic!(MaterialEllipticOperator::new(&LinearElasticMaterial), tl(), go_scalar),
                        10 => elliptic!(MaterialEllipticOperator::new(&NeoHookeanMaterial), tl(), go_matrix),
                        11 => elliptic!(MaterialEllipticOperator::new(&NeoHookeanMaterial), tl(), go_vector),
                        12..=14 => {
                            let t = td();
                            go_matrix(&ElementMassAssembler::with_solution_dim(s).with_space(&self.space).with_quadrature_table(&t), &how)
                        }
                        15 => {
                            let t = tp();
                            go_vector(&ElementSourceAssemblerBuilder::new().with_finite_element_space(&self.space).with_source(&CustomOp::<1> { sym: false }).with_quadrature_table(&t).build::<f64>(), &how)
                        }
                        16 => {
                            let t = tp();
                            go_vector(&ElementSourceAssemblerBuilder::new().with_finite_element_space(&self.space).with_source(&CustomOp::<2> { sym: false }).with_quadrature_table(&t).build::<f64>(), &how)
                        }
                        17 => {
                            let t = td();
                            let g = GravitySource::from_acceleration(OVector::<f64, $D>::from_fn(|i, _| i as f64 - 0.3));
                            go_vector(&ElementSourceAssemblerBuilder::new().with_finite_element_space(&self.space).with_source(&g).with_quadrature_table(&t).build::<f64>(), &how)
                        }
                        18 | 20 => {
                            let t = t0();
                            let k = AtomicUsize::new(0);
                            // panics at a given evaluation instead, as it sees no data
                            macro_rules! integral {
                                ($S:ty) => {{
                                    let f = FnFunction::new(|x: &OPoint<f64, $D>, u: &OVector<f64, $S>| {
                                        simrt::callback_point();
                                        check_poison(if Some(k.fetch_add(1, Ordering::Relaxed)) == pois { POISON } else { 0.0 });
                                        OVector::<f64, U1>::new(x.coords.sum() * u.sum() + u[0] * u[0])
                                    });
                                    let a = ElementIntegralAssemblerBuilder::<f64, _, $S, _, _>::new().with_space(&self.space).with_quadrature_table(&t).with_interpolation_weights(ud).with_integrand(f).build_integrator();
                                    go_scalar(&a, &how)
                                }};
                            }
                            if j.routine == 18 { integral!(U1) } else { integral!(U2) }
                        }
                        22..=27 => {
                            let find = Find(&self.space, j.salt, pois, AtomicUsize::new(0));
                            let pts: Vec<OPoint<f64, $D>> = simrt::quiet(|| (0..1 + j.elem % 4).map(|q| OPoint::<f64, $D>::from(OVector::<f64, $D>::from_fn(|i, _| num(mix(j.salt ^ 3, (q * 4 + i) as u64))))).collect());
                            let t = t0();
                            let k = AtomicUsize::new(0);
                            let bad = || check_poison(if Some(k.fetch_add(1, Ordering::Relaxed)) == pois { POISON } else { 0.0 });
                            let nested = j.salt & 2 == 0;
                            macro_rules! run {
                                ($S:ty) => {{
                                    // the reference solution: a function, or an interpolation in the middle of the integration
                                    let u_ref = |x: &OPoint<f64, $D>| -> OVector<f64, $S> {
                                        simrt::callback_point();
                                        if nested {
                                            let mut r = [OVector::<f64, $S>::zeros()];
                                            interpolate_at_points(&find, &[*x], ud, &mut r);
                                            r[0]
                                        } else {
                                            bad();
                                            OVector::<f64, $S>::from_fn(|i, _| x[i % $d] * 0.3 + i as f64)
                                        }
                                    };
                                    let g_ref = |x: &OPoint<f64, $D>| -> OMatrix<f64, $D, $S> {
                                        simrt::callback_point();
                                        if nested {
                                            let mut r = [OMatrix::<f64, $D, $S>::zeros()];
                                            interpolate_gradient_at_points(&find, &[*x], ud, &mut r);
                                            r[0]
                                        } else {
                                            bad();
                                            OMatrix::<f64, $D, $S>::from_fn(|i, q| x[i % $d] * 0.3 + q as f64)
                                        }
                                    };
                                    lib_call();
                                    match j.routine {
                                        22 | 23 => {
                                            let mut v = vec![OVector::<f64, $S>::repeat(f64::NAN); pts.len()];
                                            interpolate_at_points(&find, &pts, ud, &mut v);
                                            let mut g = vec![OMatrix::<f64, $D, $S>::repeat(f64::NAN); pts.len()];
                                            if j.salt & 4 == 0 {
                                                interpolate_gradient_at_points(&find, &pts, ud, &mut g);
                                            }
                                            Ok(bits(v.iter().flatten().chain(g.iter().flatten()).copied()))
                                        }
                                        24 | 25 => match () {
                                            _ if j.salt & 4 == 0 => Ok(bits([estimate_L2_error(&self.space, &u_ref, ud, &t)?])),
                                            _ => Ok(bits([estimate_H1_seminorm_error(&self.space, &g_ref, ud, &t)?])),
                                        },
                                        _ => {
                                            let e = j.elem % ne;
                                            let el = ElementInSpace::from_space_and_element_index(&self.space, e);
                                            let (ul, p, w) = simrt::quiet(|| {
                                                let mut ul = DVector::zeros(self.space.element_node_count(e) * s);
                                                let mut nodes = vec![0; self.space.element_node_count(e)];
                                                self.space.populate_element_nodes(&mut nodes, e);
                                                fenris::assembly::global::gather_global_to_local(&u, &mut ul, &nodes, s);
                                                let n = t.element_quadrature_size(e);
                                                let (mut p, mut w) = (vec![OPoint::<f64, $D>::origin(); n], vec![0.0; n]);
                                                t.populate_element_quadrature(e, &mut p, &mut w);
                                                (ul, p, w)
                                            });
                                            KEPT.with(|ws| {
                                                let mut ws = ws.borrow_mut();
                                                let a = estimate_element_L2_error(&el, &u_ref, DVectorView::from(&ul), &w, &p, &mut ws);
                                                let b = if j.salt & 4 == 0 { estimate_element_H1_seminorm_error(&el, &g_ref, DVectorView::from(&ul), &w, &p, &mut ws) } else { 0.0 };
                                                Ok(bits([a, b]))
                                            })
                                        }
                                    }
                                }};
                            }
                            if s == 1 { run!(U1) } else { run!(U2) }
                        }
                        _ => {
                            let t = t0();
                            let k = AtomicUsize::new(0);
                            macro_rules! integral {
                                ($S:ty) => {{
                                    let f = FnFunction::new(|x: &OPoint<f64, $D>, u: &OVector<f64, $S>, g: &OMatrix<f64, $D, $S>| {
                                        simrt::callback_point();
                                        check_poison(if Some(k.fetch_add(1, Ordering::Relaxed)) == pois { POISON } else { 0.0 });
                                        OVector::<f64, U1>::new(x.coords.sum() * u.sum() + g.sum() * g[(0, 0)])
                                    });
                                    let a = ElementIntegralAssemblerBuilder::<f64, _, $S, _, _>::new().with_space(&self.space).with_quadrature_table(&t).with_interpolation_weights(ud).with_integrand(f).build_volume_integrator();
                                    go_scalar(&a, &how)
                                }};
                            }
                            if j.routine == 19 { integral!(U1) } else { integral!(U2) }
                        }
                    }
                }
            }
            impl<S> Sp for H<S>
            where
                S: FiniteElementSpace<f64, GeometryDim = $D, ReferenceDim = $D> + Send + Sync,
            {
                fn elements(&self) -> usize {
                    self.space.num_elements()
                }
                fn nodes_of(&self, e: usize) -> usize {
                    self.space.element_node_count(e)
                }
                fn call(&self, j: &Job, garbage: u64) -> eyre::Result<Vec<u64>> {
                    self.go(j, How::Element(j.elem % self.space.num_elements(), garbage))
                }
                fn global(&self, j: &Job, parallel: bool) -> eyre::Result<Vec<u64>> {
                    self.go(j, How::Global(parallel))
                }
            }
        }
    };
}
dim_impl!(d2, U2, 2);
dim_impl!(d3, U3, 3);

/// Triangles and quadrilaterals side by side: elements of different size within one space.
struct Mixed {
    vertices: Vec<Point2<f64>>,
    elems: Vec<Vec<usize>>,
}
impl Mixed {
    fn tri(&self, e: usize) -> Option<Tri3d2Element<f64>> {
        let n = &self.elems[e];
        (n.len() == 3).then(|| Tri3d2Element::from_vertices([self.vertices[n[0]], self.vertices[n[1]], self.vertices[n[2]]]))
    }
    fn quad(&self, e: usize) -> Quad4d2Element<f64> {
        let n = &self.elems[e];
        Quad4d2Element::from_vertices([self.vertices[n[0]], self.vertices[n[1]], self.vertices[n[2]], self.vertices[n[3]]])
    }
}
impl FiniteElementConnectivity for Mixed {
    fn num_elements(&self) -> usize {
        self.elems.len()
    }
    fn num_nodes(&self) -> usize {
        self.vertices.len()
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.elems[e].len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], e: usize) {
        nodes.copy_from_slice(&self.elems[e])
    }
}
impl FiniteElementSpace<f64> for Mixed {
    type GeometryDim = U2;
    type ReferenceDim = U2;
    fn populate_element_basis(&self, e: usize, v: &mut [f64], p: &Point2<f64>) {
        match self.tri(e) {
            Some(t) => t.populate_basis(v, p),
            None => self.quad(e).populate_basis(v, p),
        }
    }
    fn populate_element_gradients(&self, e: usize, g: MatrixViewMut<f64, U2, Dyn>, p: &Point2<f64>) {
        match self.tri(e) {
            Some(t) => t.populate_basis_gradients(g, p),
            None => self.quad(e).populate_basis_gradients(g, p),
        }
    }
    fn element_reference_jacobian(&self, e: usize, p: &Point2<f64>) -> OMatrix<f64, U2, U2> {
        match self.tri(e) {
            Some(t) => t.reference_jacobian(p),
            None => self.quad(e).reference_jacobian(p),
        }
    }
    fn map_element_reference_coords(&self, e: usize, p: &Point2<f64>) -> Point2<f64> {
        match self.tri(e) {
            Some(t) => t.map_reference_coords(p),
            None => self.quad(e).map_reference_coords(p),
        }
    }
    fn diameter(&self, e: usize) -> f64 {
        match self.tri(e) {
            Some(t) => t.diameter(),
            None => self.quad(e).diameter(),
        }
    }
}

fn build_space(s: &SpaceSpec) -> Box<dyn Sp> {
    use fenris::mesh::procedural::*;
    fn warp<D: fenris::nalgebra::DimName, C: fenris::connectivity::Connectivity>(m: &mut Mesh<f64, D, C>, s: &SpaceSpec)
    where
        fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
    {
        for (i, v) in m.vertices_mut().iter_mut().enumerate() {
            for k in 0..D::dim() {
                v[k] += 0.05 * (num(mix(mix(s.warp, i as u64), k as u64)) - 0.5);
            }
        }
        if let Some(&f) = s.flat.first() {
            if !m.connectivity().is_empty() {
                let c = m.connectivity()[f % m.connectivity().len()].vertex_indices().to_vec();
                for i in c {
                    m.vertices_mut()[i][0] = 0.0;
                }
            }
        }
    }
    simrt::quiet(|| {
        let t = s.tables.clone();
        macro_rules! mk {
            ($d:ident, $m:expr) => {{
                let mut m = $m;
                warp(&mut m, s);
                Box::new($d::H { space: m, tables: t }) as Box<dyn Sp>
            }};
        }
        let n = s.n;
        match s.kind {
            0 => mk!(d2, create_unit_square_uniform_tri_mesh_2d::<f64>(n)),
            1 => mk!(d2, Tri6Mesh2d::from(create_unit_square_uniform_tri_mesh_2d::<f64>(n))),
            2 => mk!(d2, create_unit_square_uniform_quad_mesh_2d::<f64>(n)),
            3 => mk!(d2, Quad9Mesh2d::from(create_unit_square_uniform_quad_mesh_2d::<f64>(n))),
            4 => mk!(d3, create_unit_box_uniform_tet_mesh_3d::<f64>(1)),
            5 => mk!(d3, Tet10Mesh::from(&create_unit_box_uniform_tet_mesh_3d::<f64>(1))),
            6 => mk!(d3, create_unit_box_uniform_hex_mesh_3d::<f64>(n.min(2))),
            7 => mk!(d3, Hex27Mesh::from(&create_unit_box_uniform_hex_mesh_3d::<f64>(1))),
            _ => {
                let mut q = create_unit_square_uniform_quad_mesh_2d::<f64>(n);
                warp(&mut q, s);
                let mut elems = Vec::new();
                for (i, c) in q.connectivity().iter().enumerate() {
                    let c = c.0;
                    if mix(s.warp, 1000 + i as u64) % 2 == 0 {
                        elems.push(c.to_vec());
                    } else {
                        elems.push(vec![c[0], c[1], c[2]]);
                        elems.push(vec![c[0], c[2], c[3]]);
                    }
                }
                Box::new(d2::H { space: Mixed { vertices: q.vertices().to_vec(), elems }, tables: t })
            }
        }
    })
}

pub struct A07;
#[derive(Serialize, Deserialize)]
pub struct A07Case {
    threads: usize,
    spaces: Vec<SpaceSpec>,
    jobs: Vec<Job>,
    /// what each thread runs, in order
    plan: Vec<Vec<usize>>,
    /// jobs are tasks of a pool of `threads`; the plan is the order of submission
    pool: bool,
}
fn outcome(r: Result<eyre::Result<Vec<u64>>, Box<dyn std::any::Any + Send>>) -> Out {
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(p) => Out::Panic(payload(&*p)),
    }
}
impl Property for A07 {
    type Case = A07Case;
    fn gen(r: &mut Rng, c: GenCtx) -> A07Case {
        let ns = *r.pick(&[1usize, 2, 2, 3]);
        let flat = r.chance(1, 3);
        let spaces: Vec<SpaceSpec> = (0..ns)
            .map(|_| SpaceSpec {
                kind: r.below(9) as u8,
                n: r.urange(1, 2),
                warp: r.below(1 << 30),
                flat: if flat && r.chance(1, 2) { vec![r.usize(8)] } else { vec![] },
                tables: (0..r.urange(1, 2)).map(|_| TableSpec { kind: r.below(3) as u8, max: r.urange(1, 5), salt: r.below(1 << 30) }).collect(),
            })
            .collect();
        let nj = r.urange(2, if c.thorough { 14 } else { 9 });
        let poison = r.chance(1, 2);
        // few routines: the same workspace is used again
        let palette: Vec<u8> = (0..r.urange(1, 4)).map(|_| r.below(N_ROUTINES as u64) as u8).collect();
        let jobs: Vec<Job> = (0..nj)
            .map(|_| {
                let space = r.usize(ns);
                let routine = if r.chance(3, 4) { *r.pick(&palette) } else { r.below(N_ROUTINES as u64) as u8 };
                Job {
                    space, routine, elem: r.usize(16), table: r.usize(spaces[space].tables.len()), salt: r.below(1 << 30),
                    poison: if poison && r.chance(1, 4) { vec![r.usize(3)] } else { vec![] },
                    global: r.chance(1, 12) && (spaces[space].kind < 5 || spaces[space].kind == 8),
                }
            })
            .collect();
        let threads = *r.pick(&[1usize, 1, 2, 2, 3, 4]);
        let pool = r.chance(1, 3);
        let reps = r.urange(1, 2);
        let mut plan: Vec<Vec<usize>> = vec![vec![]; threads];
        for _ in 0..reps {
            let mut order: Vec<usize> = (0..nj).collect();
            r.shuffle(&mut order);
            for j in order {
                let k = r.usize(threads);
                plan[k].push(j);
            }
        }
        A07Case { threads, spaces, jobs, plan, pool }
    }
    fn valid(c: &A07Case) -> bool {
        (1..=8).contains(&c.threads)
            && c.spaces.iter().all(|s| s.kind <= 8 && (1..=3).contains(&s.n) && s.tables.iter().all(|t| (1..=8).contains(&t.max)))
            && c.jobs.iter().all(|j| j.space < c.spaces.len() && j.routine < N_ROUTINES && j.table < c.spaces[j.space].tables.len())
            && c.plan.len() <= 8
            && c.plan.iter().flatten().all(|&j| j < c.jobs.len())
    }
    fn run(c: A07Case) {
        let spaces: Vec<Box<dyn Sp>> = c.spaces.iter().map(build_space).collect();
        let used: Vec<bool> = (0..c.jobs.len()).map(|j| c.plan.iter().flatten().any(|&k| k == j)).collect();
        // the same job on a thread that has run nothing else
        let want: Vec<Option<Out>> = c.jobs.iter().zip(&used).map(|(j, u)| {
            if !u {
                return None;
            }
            let sp = &spaces[j.space];
            Some(std::thread::scope(|s| s.spawn(|| outcome(catch(|| if j.global { in_pool(1, || sp.global(j, is_par(j))) } else { sp.call(j, 0) }))).join().unwrap()))
        }).collect();
        simrt::take_panics();
        if c.spaces.len() > 1 {
            simrt::probe(5)
        }
        for p in &c.plan {
            if p.len() >= 2 {
                nontrivial();
            }
        }
        let one = |i: usize, before: &mut Option<usize>, what: &str| {
            let j = &c.jobs[i];
            let sp = &spaces[j.space];
            if let Some(b) = *before {
                let b = &c.jobs[b];
                match want[*before.as_ref().unwrap()].as_ref().unwrap() {
                    Out::Panic(_) => {
                        simrt::probe(2);
                        simrt::note_fault(FK_FAILED_BEFORE)
                    }
                    Out::Err(_) => {
                        simrt::probe(3);
                        simrt::note_fault(FK_FAILED_BEFORE)
                    }
                    _ => {}
                }
                if spaces[b.space].nodes_of(b.elem % spaces[b.space].elements()) > sp.nodes_of(j.elem % sp.elements()) {
                    simrt::probe(4)
                }
            }
            *before = Some(i);
            if j.global {
                simrt::probe(7)
            }
            let got = outcome(catch(|| if j.global { sp.global(j, is_par(j)) } else { sp.call(j, mix(j.salt, 7) | 1) }));
            let want = want[i].as_ref().unwrap();
            if let Out::Err(_) = want {
                simrt::probe(1);
                simrt::note_fault(FK_ERR);
            }
            simrt::quiet(|| compare(&got, want, &format!("{}, job {} (routine {}, element {} of space {})", what, i, j.routine, j.elem, j.space)));
        };
        if c.pool {
            simrt::probe(6);
            let flat: Vec<usize> = c.plan.iter().flatten().copied().collect();
            in_pool(c.threads, || {
                flat.into_par_iter().for_each(|i| one(i, &mut None, "pool task"));
            });
        } else {
            if c.plan.len() > 1 {
                simrt::probe(8);
                simrt::note_fault(FK_CONCURRENT);
            }
            let one = &one;
            std::thread::scope(|s| {
                for (t, p) in c.plan.iter().enumerate() {
                    s.spawn(move || {
                        let mut before = None;
                        for &i in p {
                            one(i, &mut before, &format!("thread {}", t));
                        }
                    });
                }
            });
        }
    }
}
fn is_par(j: &Job) -> bool {
    j.salt % 2 == 0
}
fn compare(got: &Out, want: &Out, what: &str) {
    match (got, want) {
        (Out::Ok(a), Out::Ok(b)) => {
            ensure!(a.len() == b.len(), "local-size", "{}: {} values, on a fresh thread {}", what, a.len(), b.len());
            for k in 0..a.len() {
                ensure!(a[k] == b[k] || f64::from_bits(a[k]) == f64::from_bits(b[k]), "local-history", "{}: value {} is {:e}, on a fresh thread {:e}", what, k, f64::from_bits(a[k]), f64::from_bits(b[k]));
            }
        }
        (Out::Err(a), Out::Err(b)) => ensure!(a == b, "local-error", "{}: error {:?}, on a fresh thread {:?}", what, a, b),
        (Out::Panic(a), Out::Panic(b)) if a == b => {}
        (a, b) => simrt::fail("local-outcome", &format!("{}: {:?}, on a fresh thread {:?}", what, short(a), short(b))),
    }
}
fn short(o: &Out) -> String {
    match o {
        Out::Ok(v) => format!("Ok({} values)", v.len()),
        o => format!("{:?}", o),
    }
}

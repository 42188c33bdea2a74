//! H01: mesh operations under hash seeds, threads and histories.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris::assembly::global::{color_nodes, CsrAssembler};
use fenris::connectivity::*;
use fenris::geometry::polymesh::{PolyMesh, PolyMesh3d};
use fenris::geometry::{HalfSpace, Hexahedron, Tetrahedron};
use fenris::mesh::procedural::*;
use fenris::mesh::refinement::{refine_uniformly, refine_uniformly_repeat};
use fenris::mesh::*;
use fenris::nalgebra::{Point2, Point3, Unit, Vector2, Vector3, U2};
use serde::{Deserialize, Serialize};
use simrt::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{BuildHasher, Hasher};

pub fn entries() -> Vec<Entry> {
    vec![Entry {
        id: "H01", quick_runs: 12000, thorough_runs: 1000000, gen: gen_of::<H01>, run: run_of::<H01>, valid: valid_of::<H01>,
        rule: "One case: 1-3 pipelines (a base mesh, renumbered, warped and thinned out, and 1-5 operations: conversions, refinement, sub-meshes, boundaries, polyhedral mesh operations, coloring, pattern), 1-4 threads, each with its own hash seed, number of maps made before and order of pipelines, all at once; everything produced is compared byte by byte with the same on a thread that did nothing else, and with a model of the operation. Non-trivial: a pipeline ran on two or more threads.",
        real: "fenris (Mesh, conversions, refinement, procedural meshes, coloring, pattern assembly), fenris-geometry (PolyMesh, half spaces), fenris-nested-vec, std hash maps, unmodified, on real OS threads",
        stub: "OS: scheduler, futex, clock, thread creation and getrandom (hash seeds) decided by the simulator",
        probes: &["threads with different hash seeds", "several threads", "sub-mesh", "failed before", "conversion to higher order", "refinement", "polyhedral mesh", "cut by half spaces", "repeated on a thread", "weird topology", "cut by a half space checked by volume", "cut by a polyhedron checked by volume", "triangulated checked by volume", "tetrahedra from polyhedral mesh"][..],
    }]
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Base {
    /// 0 quads, 1 triangles, 2 hexahedra, 3 tetrahedra, 4 sphere, 5 any triangles, 6 any tetrahedra, 7 any quads, 8 and 9 any polyhedral mesh (2D, 3D)
    kind: u8,
    n: usize,
    seed: u64,
    renumber: bool,
    thin: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Keep(u64, usize),
    KeepBad(usize),
    Boundary,
    Surface,
    Convert(u8),
    Refine(usize),
    Poly,
    Triangulate,
    Dedup,
    Split(usize),
    Half(u64),
    Cut(u64, bool),
    Concat(u64),
    Move(u64),
    Tet,
    Graph,
    FaceCells,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pipe {
    base: Base,
    ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Th {
    maps: usize,
    order: Vec<usize>,
}
#[derive(Serialize, Deserialize)]
pub struct H01Case {
    pipes: Vec<Pipe>,
    threads: Vec<Th>,
}
struct H01;

enum M {
    Tri(TriangleMesh2d<f64>),
    Quad(QuadMesh2d<f64>),
    Tri6(Tri6Mesh2d<f64>),
    Quad9(Quad9Mesh2d<f64>),
    Tet(Tet4Mesh<f64>),
    Hex(HexMesh<f64>),
    Tet10(Tet10Mesh<f64>),
    Tet20(Tet20Mesh<f64>),
    Hex20(Hex20Mesh<f64>),
    Hex27(Hex27Mesh<f64>),
    P2(PolyMesh<f64, U2>),
    P3(PolyMesh3d<f64>),
}
macro_rules! fe {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            M::Tri($x) => Some($e),
            M::Quad($x) => Some($e),
            M::Tri6($x) => Some($e),
            M::Quad9($x) => Some($e),
            M::Tet($x) => Some($e),
            M::Hex($x) => Some($e),
            M::Tet10($x) => Some($e),
            M::Tet20($x) => Some($e),
            M::Hex20($x) => Some($e),
            M::Hex27($x) => Some($e),
            _ => None,
        }
    };
}
macro_rules! fe_wrap {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            M::Tri($x) => Some(M::Tri($e)),
            M::Quad($x) => Some(M::Quad($e)),
            M::Tri6($x) => Some(M::Tri6($e)),
            M::Quad9($x) => Some(M::Quad9($e)),
            M::Tet($x) => Some(M::Tet($e)),
            M::Hex($x) => Some(M::Hex($e)),
            M::Tet10($x) => Some(M::Tet10($e)),
            M::Tet20($x) => Some(M::Tet20($e)),
            M::Hex20($x) => Some(M::Hex20($e)),
            M::Hex27($x) => Some(M::Hex27($e)),
            _ => None,
        }
    };
}
macro_rules! poly {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            M::P2($x) => Some($e),
            M::P3($x) => Some($e),
            _ => None,
        }
    };
}
macro_rules! poly_wrap {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            M::P2($x) => Some(M::P2($e)),
            M::P3($x) => Some(M::P3($e)),
            _ => None,
        }
    };
}
fn bytes<T: Serialize>(x: &T) -> Vec<u8> {
    bincode::serialize(x).expect("serialise")
}
fn whole(m: &M) -> Vec<u8> {
    fe!(m, x => bytes(x)).or_else(|| poly!(m, x => bytes(x))).unwrap()
}
fn cells(m: &M) -> usize {
    fe!(m, x => x.connectivity().len()).or_else(|| poly!(m, x => x.num_cells())).unwrap()
}
fn u(h: u64) -> f64 {
    (h >> 12) as f64 / (1u64 << 52) as f64
}
fn scramble<T: fenris::nalgebra::Scalar, D, C>(m: &Mesh<T, D, C>, b: &Base) -> Mesh<T, D, C>
where
    D: fenris::nalgebra::DimName,
    C: ConnectivityMut,
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<T, D>,
{
    let mut r = Rng::new(b.seed);
    let mut v = m.vertices().to_vec();
    let mut c = m.connectivity().to_vec();
    if b.renumber {
        let mut p: Vec<usize> = (0..v.len()).collect();
        r.shuffle(&mut p);
        for (i, &j) in p.iter().enumerate() {
            v[j] = m.vertices()[i].clone();
        }
        c.iter_mut().for_each(|c| c.vertex_indices_mut().iter_mut().for_each(|i| *i = p[*i]));
        r.shuffle(&mut c);
    }
    if b.thin && c.len() > 1 {
        let k = r.urange(1, c.len() - 1);
        c.truncate(c.len() - k.min(c.len() / 2));
    }
    Mesh::from_vertices_and_connectivity(v, c)
}
fn any_cells<const K: usize>(b: &Base, r: &mut Rng) -> (usize, Vec<[usize; K]>) {
    let nv = r.urange(K, K + 2 + 4 * b.n);
    let nc = r.urange(0, 3 + 6 * b.n);
    let c = (0..nc)
        .map(|_| {
            let mut p: Vec<usize> = (0..nv).collect();
            r.shuffle(&mut p);
            let mut a = [0; K];
            a.copy_from_slice(&p[..K]);
            a
        })
        .collect();
    (nv, c)
}
/// Faces nobody uses, at either end, cells without faces, vertices without faces.
fn any_poly<D: fenris::nalgebra::DimName>(seed: u64, n: usize, p: impl Fn(usize) -> fenris::nalgebra::OPoint<f64, D>) -> PolyMesh<f64, D>
where
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    let mut r = Rng::new(mix(seed, 6));
    let nv = r.urange(5, 6 + 4 * n);
    let nf = r.urange(0, 4 + 6 * n);
    let some = |r: &mut Rng, of: usize, k: usize| {
        let mut p: Vec<usize> = (0..of).collect();
        r.shuffle(&mut p);
        p.truncate(k);
        p
    };
    let faces: Vec<Vec<usize>> = (0..nf)
        .map(|_| {
            let k = r.urange(if D::dim() == 2 { 2 } else { 3 }, 5);
            some(&mut r, nv, if D::dim() == 2 { k.min(3) } else { k })
        })
        .collect();
    let cells: Vec<Vec<usize>> = (0..r.urange(0, 2 + 3 * n))
        .map(|_| {
            let k = r.urange(0, 6);
            some(&mut r, nf, k)
        })
        .collect();
    PolyMesh::from_poly_data((0..nv).map(p).collect(), fenris_nested_vec::NestedVec::from(&faces), fenris_nested_vec::NestedVec::from(&cells))
}
/// the meshes that are put together
fn parts<D: fenris::nalgebra::DimName>(x: &PolyMesh<f64, D>, seed: u64) -> Vec<PolyMesh<f64, D>>
where
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    let mut r = Rng::new(seed);
    (0..r.urange(0, 3))
        .map(|k| match r.below(4) {
            0 | 1 => x.clone(),
            2 => any_poly(mix(seed, k as u64), 1, |k| fenris::nalgebra::OPoint::from(fenris::nalgebra::OVector::<f64, D>::from_fn(|i, _| u(mix(seed, (k * 4 + i) as u64))))),
            _ => PolyMesh::new_empty(),
        })
        .collect()
}
fn build(b: &Base) -> M {
    let mut r = Rng::new(mix(b.seed, 5));
    let seed = b.seed;
    let n = b.n.max(1);
    let few = if n > 4 { n / 2 } else { n.min(2) };
    let w = |i: u64| 0.1 * (u(mix(seed, i)) - 0.5);
    let p2 = |k: usize| Point2::new(u(mix(seed, 100 + k as u64)), u(mix(seed, 1100 + k as u64)));
    let p3 = |k: usize| Point3::new(u(mix(seed, 100 + k as u64)), u(mix(seed, 1100 + k as u64)), u(mix(seed, 2100 + k as u64)));
    match b.kind {
        0 | 1 => {
            let mut m = create_unit_square_uniform_quad_mesh_2d::<f64>(n);
            let h = 1.0 / n as f64;
            let mut i = 0;
            m.transform_vertices(|p| {
                *p = Point2::new(p.x + h * w(2 * i), p.y + h * w(2 * i + 1));
                i += 1
            });
            if b.kind == 0 { M::Quad(scramble(&m, b)) } else { M::Tri(scramble(&m.split_into_triangles(), b)) }
        }
        2 => {
            let mut m = create_unit_box_uniform_hex_mesh_3d::<f64>(few);
            let mut i = 0;
            if b.seed % 2 == 0 {
                m.transform_vertices(|p| {
                    *p = Point3::new(p.x + w(3 * i), p.y + w(3 * i + 1), p.z + w(3 * i + 2));
                    i += 1
                });
            }
            M::Hex(scramble(&m, b))
        }
        3 => M::Tet(scramble(&create_rectangular_uniform_tet_mesh(1.0, 1, 1, few, 1), b)),
        4 => M::P3(create_simple_stupid_sphere(&Point3::new(0.5, 0.25, 0.0), 1.0 + w(1), n.min(2))),
        5 => {
            let (nv, c) = any_cells::<3>(b, &mut r);
            M::Tri(Mesh::from_vertices_and_connectivity((0..nv).map(p2).collect(), c.into_iter().map(Tri3d2Connectivity).collect()))
        }
        6 => {
            let (nv, c) = any_cells::<4>(b, &mut r);
            M::Tet(Mesh::from_vertices_and_connectivity((0..nv).map(p3).collect(), c.into_iter().map(Tet4Connectivity).collect()))
        }
        8 => M::P2(any_poly(b.seed, b.n, p2)),
        9 => M::P3(any_poly(b.seed, b.n, p3)),
        _ => {
            // (two cells on the same corners have a midpoint each)
            let (nv, mut c) = any_cells::<4>(b, &mut r);
            let mut seen = BTreeSet::new();
            c.retain(|c| seen.insert(set(c)));
            M::Quad(Mesh::from_vertices_and_connectivity((0..nv).map(p2).collect(), c.into_iter().map(Quad4d2Connectivity).collect()))
        }
    }
}
fn picks(n: usize, seed: u64, k: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    let mut r = Rng::new(seed);
    match seed % 4 {
        0 => (),
        _ => r.shuffle(&mut p),
    }
    p.truncate(k.min(n));
    p
}
fn face_list<F: Connectivity>(f: Vec<(F, usize, usize)>) -> Vec<(Vec<usize>, usize, usize)> {
    f.into_iter().map(|(f, c, l)| (f.vertex_indices().to_vec(), c, l)).collect()
}
fn point_normal(seed: u64) -> (Point3<f64>, Vector3<f64>) {
    let x = |i| u(mix(seed, i));
    let n = Vector3::new(x(1) - 0.5, x(2) - 0.5, x(3) - 0.5 + 1e-3);
    // some planes through vertices
    let p = if seed % 3 == 0 { Point3::new(0.5, 0.5, 0.5) } else { Point3::new(x(4), x(5), x(6)) };
    let n = if seed % 5 == 0 { Vector3::new(1.0, 0.0, 0.0) } else { n };
    (p, n)
}
fn plane(seed: u64) -> HalfSpace<f64> {
    let (p, n) = point_normal(seed);
    HalfSpace::from_point_and_normal(p, Unit::new_normalize(n))
}
/// corners of the convex body a mesh is cut with
fn cutter(s: u64, hex: bool) -> Vec<Point3<f64>> {
    let y = |k: u64| 0.2 * u(mix(s, k));
    if hex {
        let (x0, y0, z0, l) = (y(1), y(2), y(3), 0.5 + y(4));
        let c = |a: f64, b: f64, c: f64| Point3::new(x0 + a * l, y0 + b * l, z0 + c * l);
        vec![c(0.0, 0.0, 0.0), c(1.0, 0.0, 0.0), c(1.0, 1.0, 0.0), c(0.0, 1.0, 0.0), c(0.0, 0.0, 1.0), c(1.0, 0.0, 1.0), c(1.0, 1.0, 1.0), c(0.0, 1.0, 1.0)]
    } else {
        let p = |a: f64, b: f64, c: f64, k: u64| Point3::new(a + y(3 * k), b + y(3 * k + 1), c + y(3 * k + 2));
        vec![p(0.0, 0.0, 0.0, 1), p(1.0, 0.0, 0.0, 2), p(0.0, 1.0, 0.0, 3), p(0.0, 0.0, 1.0, 4)]
    }
}
type V3 = Vector3<f64>;
fn det(t: &[V3; 4]) -> f64 {
    (t[1] - t[0]).cross(&(t[2] - t[0])).dot(&(t[3] - t[0]))
}
/// the part of a tetrahedron where n x <= d
fn clip(t: &[V3; 4], n: &V3, d: f64, out: &mut Vec<[V3; 4]>) {
    let h = |p: &V3| n.dot(p) - d;
    let (i, o): (Vec<V3>, Vec<V3>) = t.iter().partition(|p| h(p) <= 0.0);
    let m = |a: &V3, b: &V3| a + (b - a) * (h(a) / (h(a) - h(b)));
    let mut prism = |a: V3, b: V3, c: V3, x: V3, y: V3, z: V3| out.extend([[a, b, c, z], [a, b, y, z], [a, x, y, z]]);
    match i.len() {
        0 => (),
        1 => out.push([i[0], m(&i[0], &o[0]), m(&i[0], &o[1]), m(&i[0], &o[2])]),
        2 => prism(i[0], m(&i[0], &o[0]), m(&i[0], &o[1]), i[1], m(&i[1], &o[0]), m(&i[1], &o[1])),
        3 => prism(i[0], i[1], i[2], m(&i[0], &o[0]), m(&i[1], &o[0]), m(&i[2], &o[0])),
        _ => out.push(*t),
    }
}
/// The cells as tetrahedra about their middle, and whether they are convex with plane faces that close.
fn solids(p: &PFlat) -> (Vec<Vec<[V3; 4]>>, bool) {
    let at = |v: usize| V3::new(p.v[v][0], p.v[v][1], p.v[v][2]);
    let mut good = true;
    let cells = p.c.iter().map(|c| {
        let vs: BTreeSet<usize> = c.iter().flat_map(|&f| p.f[f].iter().copied()).collect();
        let mid = vs.iter().map(|&v| at(v)).sum::<V3>() / vs.len().max(1) as f64;
        let mut edges: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
        let mut out = vec![];
        for f in c.iter().map(|&f| &p.f[f]) {
            let a: V3 = (0..f.len()).map(|i| at(f[i]).cross(&at(f[(i + 1) % f.len()]))).sum();
            good &= f.len() > 2 && a.norm() > 1e-9;
            let n = a / a.norm().max(1e-300);
            let side = n.dot(&(mid - at(f[0])));
            good &= vs.iter().all(|&v| (n.dot(&(at(v) - at(f[0]))) * side.signum()) > -1e-10) && f.iter().all(|&v| n.dot(&(at(v) - at(f[0]))).abs() < 1e-10) && side.abs() > 1e-7;
            for i in 0..f.len() {
                *edges.entry(set(&[f[i], f[(i + 1) % f.len()]])).or_insert(0) += 1;
                // a convex face turns one way
                let (x, y, z) = (at(f[i]), at(f[(i + 1) % f.len()]), at(f[(i + 2) % f.len()]));
                good &= (y - x).cross(&(z - y)).dot(&n) > -1e-10;
            }
            out.extend((2..f.len()).map(|i| [at(f[0]), at(f[i - 1]), at(f[i]), mid]));
        }
        good &= edges.values().all(|k| *k == 2);
        out
    }).collect();
    (cells, good)
}
fn volume(t: &[[V3; 4]]) -> f64 {
    t.iter().map(|t| det(t).abs()).sum::<f64>() / 6.0
}
/// The cells of `y` against those of `x` cut by the half spaces, by volume; false if the cells are not simple enough to tell.
fn judge_cut(what: &str, x: &PFlat, y: &PFlat, planes: &[(V3, f64)]) -> bool {
    let (mut want, good) = solids(x);
    if !good || x.c.len() > 400 {
        return false;
    }
    for (n, d) in planes {
        for p in &y.v {
            ensure!(n.dot(&V3::new(p[0], p[1], p[2])) - d <= 1e-9, "mesh-points", "{}: {:?} is outside", what, p);
        }
        for c in &mut want {
            let mut out = vec![];
            c.iter().for_each(|t| clip(t, n, *d, &mut out));
            out.retain(|t| det(t).abs() > 1e-13);
            *c = out;
        }
    }
    let a: Vec<f64> = want.iter().map(|c| volume(c)).collect();
    let b: Vec<f64> = solids(y).0.iter().map(|c| volume(c)).collect();
    let (s, t) = (a.iter().sum::<f64>(), b.iter().sum::<f64>());
    ensure!((s - t).abs() <= 1e-8, "mesh-volume", "{}: the volume is {} instead of {}", what, t, s);
    if a.iter().all(|v| *v < 1e-9 || *v > 1e-7) {
        let big = |v: Vec<f64>| v.into_iter().filter(|v| *v > 1e-8).collect::<Vec<f64>>();
        let (a, b) = (big(a), big(b));
        ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| (a - b).abs() < 1e-8), "mesh-volume", "{}: cells of volumes {:?} instead of {:?}", what, b, a);
    }
    true
}
fn shift(s: u64) -> [f64; 3] {
    [1, 2, 3].map(|k| 0.2 * (u(mix(s, k)) - 0.5))
}
/// The operation, with what else it yields. None: not for this kind of mesh.
fn step(m: &M, op: &Op) -> Option<(Option<M>, Vec<u8>)> {
    let e = Vec::new;
    match op {
        Op::Keep(seed, k) => {
            let p = picks(cells(m), *seed, *k);
            fe_wrap!(m, x => x.keep_cells(&p)).or_else(|| match m {
                M::P3(x) => Some(M::P3(x.keep_cells(&p))),
                _ => None,
            }).map(|m| (Some(m), e()))
        }
        Op::KeepBad(i) => {
            let p = [0, cells(m) + i];
            let r = catch(|| {
                fe!(m, x => bytes(&x.keep_cells(&p))).or_else(|| match m {
                    M::P3(x) => Some(bytes(&x.keep_cells(&p))),
                    _ => None,
                })
            });
            simrt::note_fault(FK_FAILED_BEFORE);
            Some((None, match r {
                Ok(b) => b?,
                Err(p) => payload(&*p).into_bytes(),
            }))
        }
        Op::Boundary => match m {
            M::Tet20(_) => None,
            _ => fe!(m, x => {
                let f = x.find_boundary_faces();
                bytes(&(face_list(f), x.find_boundary_cells(), x.find_boundary_vertices()))
            }),
        }.or_else(|| poly!(m, x => bytes(&x.find_boundary_faces()))).map(|b| (None, b)),
        Op::Surface => match m {
            M::Tri(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            M::Quad(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            M::Tri6(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            M::Quad9(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            M::Tet(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            M::Hex(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            M::Tet10(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            M::Hex20(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            M::Hex27(x) => Some(bytes(&faces_of(&x.extract_surface_mesh()))),
            _ => None,
        }.map(|b| (None, b)),
        Op::Convert(k) => match (m, k % 3) {
            (M::Tri(x), _) => Some(M::Tri6(Tri6Mesh2d::from(x.clone()))),
            (M::Quad(x), 0) => Some(M::Tri(x.clone().split_into_triangles())),
            (M::Quad(x), _) => Some(M::Quad9(Quad9Mesh2d::from(x.clone()))),
            (M::Tet(x), 0) => Some(M::Tet20(Tet20Mesh::from(x))),
            (M::Tet(x), _) => Some(M::Tet10(Tet10Mesh::from(x))),
            (M::Tet10(x), _) => Some(M::Tet(Tet4Mesh::from(x))),
            (M::Hex(x), 0) => Some(M::Hex20(Hex20Mesh::from(x))),
            (M::Hex(x), 1) => Some(M::Hex27(Hex27Mesh::from(x))),
            (M::Hex(x), _) => Some(M::Tet(Tet4Mesh::from(x))),
            _ => None,
        }.map(|m| (Some(m), e())),
        Op::Refine(k) => match m {
            M::Tri(x) if x.connectivity().len() << (2 * k) < 600 => {
                let y = if *k == 1 { refine_uniformly(x) } else { refine_uniformly_repeat(x, *k) };
                Some((Some(M::Tri(y)), e()))
            }
            _ => None,
        },
        Op::Poly => match m {
            M::Tri(x) => Some(M::P2(PolyMesh::from(x))),
            M::Quad(x) => Some(M::P2(PolyMesh::from(x))),
            M::Tet(x) => Some(M::P3(PolyMesh::from(x))),
            M::Hex(x) => Some(M::P3(PolyMesh::from(x))),
            _ => None,
        }.map(|m| (Some(m), e())),
        Op::Triangulate => match m {
            M::P3(x) => match x.triangulate() {
                Ok(y) => Some((Some(M::P3(y)), e())),
                Err(r) => Some((None, r.to_string().into_bytes())),
            },
            _ => None,
        },
        Op::Dedup => poly_wrap!(m, x => {
            let mut y = x.clone();
            y.dedup_faces();
            y
        }).map(|m| (Some(m), e())),
        Op::Split(k) => poly_wrap!(m, x => {
            let mut y = x.clone();
            if *k == 1 { y.split_edges() } else { y.split_edges_n_times(*k) }
            y
        }).map(|m| (Some(m), e())),
        Op::Half(s) => match m {
            M::P3(x) => Some((Some(M::P3(x.intersect_half_space(&plane(*s)))), e())),
            _ => None,
        },
        Op::Cut(s, hex) => match m {
            M::P3(x) => {
                let p = cutter(*s, *hex);
                let z = if *hex {
                    x.intersect_convex_polyhedron(&Hexahedron::from_vertices(p.try_into().unwrap()))
                } else {
                    x.intersect_convex_polyhedron(&Tetrahedron::from_vertices(p.try_into().unwrap()))
                };
                Some((Some(M::P3(z)), e()))
            }
            _ => None,
        },
        Op::Concat(s) => poly_wrap!(m, x => PolyMesh::concatenate(&parts(x, *s))).map(|m| (Some(m), e())),
        Op::Move(s) => {
            let t = shift(*s);
            let (a, b) = (Vector2::new(t[0], t[1]), V3::from(t));
            Some((Some(match m {
                M::Tri(x) => M::Tri(x.clone().translated(&a)),
                M::Quad(x) => {
                    let mut y = x.clone();
                    y.transform_all_vertices(|v| v.iter_mut().for_each(|v| *v += a));
                    M::Quad(y)
                }
                M::Tri6(x) => M::Tri6(x.clone().translated(&a)),
                M::Quad9(x) => M::Quad9(x.clone().translated(&a)),
                M::Tet(x) => M::Tet(x.clone().translated(&b)),
                M::Hex(x) => M::Hex(x.clone().translated(&b)),
                M::Tet10(x) => M::Tet10(x.clone().translated(&b)),
                M::Tet20(x) => M::Tet20(x.clone().translated(&b)),
                M::Hex20(x) => M::Hex20(x.clone().translated(&b)),
                M::Hex27(x) => M::Hex27(x.clone().translated(&b)),
                M::P3(x) => M::P3(x.clone().translated(&b)),
                M::P2(_) => return None,
            }), e()))
        }
        Op::Tet => match m {
            M::P3(x) if (0..x.num_faces()).all(|i| x.get_face_connectivity(i).unwrap().len() == 3) || x.num_cells() == 0 => match Tet4Mesh::try_from(x) {
                Ok(y) => Some((Some(M::Tet(y)), e())),
                Err(r) => Some((None, r.to_string().into_bytes())),
            },
            _ => None,
        },
        Op::Graph => fe!(m, x => {
            let c = color_nodes(x);
            let p = CsrAssembler::<f64>::default().assemble_pattern(x);
            bytes(&(c, p.major_offsets().to_vec(), p.minor_indices().to_vec()))
        }).map(|b| (None, b)),
        Op::FaceCells => poly!(m, x => {
            let r = catch(|| match m {
                M::P3(x) => x.compute_volume(),
                _ => 0.0,
            });
            bytes(&(x.compute_face_cell_connectivity(), r.ok().map(|v| v.to_bits())))
        }).map(|b| (None, b)),
    }
}
type Faces = (Vec<Vec<u64>>, Vec<Vec<usize>>);
fn faces_of<D, C: Connectivity>(m: &Mesh<f64, D, C>) -> Faces
where
    D: fenris::nalgebra::DimName,
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    (m.vertices().iter().map(|p| p.coords.iter().map(|x| x.to_bits()).collect()).collect(), m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect())
}
/// vertices, and cells as vertices
struct Flat {
    v: Vec<Vec<f64>>,
    c: Vec<Vec<usize>>,
}
fn flat(m: &M) -> Option<Flat> {
    fe!(m, x => {
        let (v, c) = faces_of(x);
        Flat { v: v.into_iter().map(|p| p.into_iter().map(f64::from_bits).collect()).collect(), c }
    })
}
/// faces as vertices, and cells as faces
struct PFlat {
    v: Vec<Vec<f64>>,
    f: Vec<Vec<usize>>,
    c: Vec<Vec<usize>>,
}
fn pflat(m: &M) -> Option<PFlat> {
    poly!(m, x => pflat_of(x))
}
fn pflat_of<D: fenris::nalgebra::DimName>(x: &PolyMesh<f64, D>) -> PFlat
where
    fenris::nalgebra::DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    PFlat {
        v: x.vertices().iter().map(|p| p.coords.iter().copied().collect()).collect(),
        f: x.face_connectivity_iter().map(|f| f.to_vec()).collect(),
        c: x.cell_connectivity_iter().map(|f| f.to_vec()).collect(),
    }
}
fn near(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-12 * (1.0 + a.abs() + b.abs()))
}
fn set(v: &[usize]) -> Vec<usize> {
    let mut s = v.to_vec();
    s.sort_unstable();
    s
}
/// nodes of a converted cell: corners with their weights
fn nodes(from: &M, to: &M) -> Option<Vec<Vec<(usize, usize)>>> {
    let c = |l: &[&[usize]]| l.iter().map(|p| p.iter().map(|&i| (i, 1)).collect()).collect::<Vec<Vec<(usize, usize)>>>();
    let hex: [&[usize]; 20] = [&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7], &[0, 1], &[0, 3], &[0, 4], &[1, 2], &[1, 5], &[2, 3], &[2, 6], &[3, 7], &[4, 5], &[4, 7], &[5, 6], &[6, 7]];
    Some(match (from, to) {
        (M::Tri(_), M::Tri6(_)) => c(&[&[0], &[1], &[2], &[0, 1], &[1, 2], &[2, 0]]),
        (M::Quad(_), M::Quad9(_)) => c(&[&[0], &[1], &[2], &[3], &[0, 1], &[1, 2], &[2, 3], &[3, 0], &[0, 1, 2, 3]]),
        (M::Tet(_), M::Tet10(_)) => c(&[&[0], &[1], &[2], &[3], &[0, 1], &[1, 2], &[0, 2], &[0, 3], &[2, 3], &[1, 3]]),
        (M::Hex(_), M::Hex20(_)) => c(&hex),
        (M::Hex(_), M::Hex27(_)) => {
            let mut l = hex.to_vec();
            l.extend([&[0, 1, 2, 3][..], &[0, 1, 4, 5], &[0, 3, 4, 7], &[1, 2, 5, 6], &[2, 3, 6, 7], &[4, 5, 6, 7], &[0, 1, 2, 3, 4, 5, 6, 7]]);
            c(&l)
        }
        (M::Tet(_), M::Tet20(_)) => {
            let mut l = c(&[&[0], &[1], &[2], &[3]]);
            for (a, b) in [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] {
                l.push(vec![(a, 2), (b, 1)]);
                l.push(vec![(a, 1), (b, 2)]);
            }
            l.extend(c(&[&[0, 1, 2], &[0, 1, 3], &[0, 2, 3], &[1, 2, 3]]));
            l
        }
        (M::Tet10(_), M::Tet(_)) => c(&[&[0], &[1], &[2], &[3]]),
        _ => return None,
    })
}
/// The new cells must have these points, and share a node exactly where the keys are equal.
fn shared(what: &str, a: &Flat, want: &[Vec<Vec<(usize, usize)>>], b: &Flat, unused_kept: bool) {
    ensure!(b.c.len() == want.len(), "mesh-cells", "{}: {} cells instead of {}", what, b.c.len(), want.len());
    let mut by_key: BTreeMap<Vec<(usize, usize)>, usize> = BTreeMap::new();
    let mut by_node: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new();
    for (i, (c, w)) in b.c.iter().zip(want).enumerate() {
        ensure!(c.len() == w.len(), "mesh-cells", "{}: cell {} has {} nodes", what, i, c.len());
        for (k, (&n, key)) in c.iter().zip(w).enumerate() {
            let mut key = key.clone();
            key.sort_unstable();
            ensure!(n < b.v.len(), "mesh-cells", "{}: cell {} has node {} of {}", what, i, n, b.v.len());
            let total: usize = key.iter().map(|x| x.1).sum();
            let p: Vec<f64> = (0..a.v[0].len()).map(|d| key.iter().map(|&(j, w)| a.v[j][d] * w as f64).sum::<f64>() / total as f64).collect();
            ensure!(near(&p, &b.v[n]), "mesh-points", "{}: node {} of cell {} is at {:?} instead of {:?}", what, k, i, b.v[n], p);
            ensure!(*by_key.entry(key.clone()).or_insert(n) == n, "mesh-not-conforming", "{}: node {} of cell {} is not shared", what, k, i);
            ensure!(*by_node.entry(n).or_insert(key.clone()) == key, "mesh-not-conforming", "{}: node {} of cell {} is shared with another place", what, k, i);
        }
    }
    let used: BTreeSet<usize> = a.c.iter().flatten().copied().collect();
    let n = by_node.len() + if unused_kept { a.v.len() - used.len() } else { 0 };
    ensure!(b.v.len() == n, "mesh-vertices", "{}: {} vertices instead of {}", what, b.v.len(), n);
}
fn poly_cells(p: &PFlat) -> Vec<Vec<Vec<usize>>> {
    p.c.iter().map(|c| c.iter().map(|&f| set(&p.f[f])).collect()).collect()
}
/// The operation by definition
fn check(a: &M, op: &Op, b: Option<&M>, extra: &[u8]) {
    let what = format!("{:?}", op);
    match (op, b) {
        (Op::Keep(seed, k), Some(b)) => {
            simrt::probe(2);
            let p = picks(cells(a), *seed, *k);
            if let (Some(x), Some(y)) = (flat(a), flat(b)) {
                ensure!(y.c.len() == p.len(), "mesh-cells", "{}: {} cells instead of {}", what, y.c.len(), p.len());
                let used: Vec<usize> = p.iter().flat_map(|&i| x.c[i].iter().copied()).collect::<BTreeSet<usize>>().into_iter().collect();
                let v: Vec<Vec<f64>> = used.iter().map(|&i| x.v[i].clone()).collect();
                ensure!(y.v == v, "mesh-vertices", "{}: vertices {:?}, expected {:?}", what, y.v, v);
                for (i, &j) in p.iter().enumerate() {
                    let w: Vec<usize> = x.c[j].iter().map(|n| used.binary_search(n).unwrap()).collect();
                    ensure!(y.c[i] == w, "mesh-cells", "{}: cell {} is {:?} instead of {:?}", what, i, y.c[i], w);
                }
            } else if let (Some(x), Some(y)) = (pflat(a), pflat(b)) {
                ensure!(y.c.len() == p.len(), "mesh-cells", "{}: {} cells instead of {}", what, y.c.len(), p.len());
                let faces: BTreeSet<usize> = p.iter().flat_map(|&i| x.c[i].iter().copied()).collect();
                let verts: BTreeSet<usize> = faces.iter().flat_map(|&i| x.f[i].iter().copied()).collect();
                ensure!(y.f.len() == faces.len() && y.v.len() == verts.len(), "mesh-vertices", "{}: {} faces and {} vertices instead of {} and {}", what, y.f.len(), y.v.len(), faces.len(), verts.len());
                let at = |m: &PFlat, c: usize| m.c[c].iter().map(|&f| m.f[f].iter().map(|&v| m.v[v].clone()).collect::<Vec<_>>()).collect::<Vec<_>>();
                for (i, &j) in p.iter().enumerate() {
                    ensure!(at(&y, i) == at(&x, j), "mesh-cells", "{}: cell {} differs from cell {} before", what, i, j);
                }
            }
        }
        (Op::KeepBad(_), _) => simrt::probe(3),
        (Op::Boundary, _) => {
            if let Some(x) = flat(a) {
                let all: Vec<(Vec<usize>, usize, usize)> = fe!(a, x => x.connectivity().iter().enumerate().flat_map(|(i, c)| (0..c.num_faces()).map(move |l| (c.get_face_connectivity(l).unwrap().vertex_indices().to_vec(), i, l)).collect::<Vec<_>>()).collect()).unwrap();
                let mut count: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
                all.iter().for_each(|f| *count.entry(set(&f.0)).or_insert(0) += 1);
                let mut want: Vec<_> = all.into_iter().filter(|f| count[&set(&f.0)] == 1).collect();
                let (mut got, c, v): (Vec<(Vec<usize>, usize, usize)>, Vec<usize>, Vec<usize>) = bincode::deserialize(extra).unwrap();
                want.sort();
                got.sort();
                ensure!(got == want, "mesh-boundary", "{}: {:?} instead of {:?} (cells {:?})", what, got, want, x.c);
                let bc: BTreeSet<usize> = want.iter().map(|f| f.1).collect();
                let bv: BTreeSet<usize> = want.iter().flat_map(|f| f.0.iter().copied()).collect();
                ensure!(c == bc.into_iter().collect::<Vec<_>>() && v == bv.into_iter().collect::<Vec<_>>(), "mesh-boundary", "{}: cells {:?}, vertices {:?} for faces {:?}", what, c, v, want);
            } else if let Some(x) = pflat(a) {
                let got: Vec<usize> = bincode::deserialize(extra).unwrap();
                let want: Vec<usize> = (0..x.f.len()).filter(|f| x.c.iter().flatten().filter(|g| *g == f).count() <= 1).collect();
                ensure!(got == want, "mesh-boundary", "{}: {:?} instead of {:?}", what, got, want);
            }
        }
        (Op::Convert(_), Some(b)) => {
            if let (Some(l), Some(x), Some(y)) = (nodes(a, b), flat(a), flat(b)) {
                simrt::probe(4);
                let want: Vec<Vec<Vec<(usize, usize)>>> = x.c.iter().map(|c| l.iter().map(|n| n.iter().map(|&(i, w)| (c[i], w)).collect()).collect()).collect();
                shared(&what, &x, &want, &y, matches!(b, M::Tri6(_) | M::Quad9(_)));
            } else if let (M::Hex(m), M::Tet(_)) = (a, b) {
                let (x, y) = (pflat_of(&PolyMesh3d::from(m)), flat(b).unwrap());
                ensure!(x.v == y.v, "mesh-vertices", "{}: other vertices", what);
                let p = |i: usize| V3::new(y.v[i][0], y.v[i][1], y.v[i][2]);
                let (t, good) = solids(&x);
                if good {
                    let (s, t) = (t.iter().map(|c| volume(c)).sum::<f64>(), y.c.iter().map(|t| det(&[p(t[0]), p(t[1]), p(t[2]), p(t[3])])).sum::<f64>() / 6.0);
                    ensure!((s - t).abs() <= 1e-9 * (1.0 + s), "mesh-volume", "{}: the volume is {} instead of {}", what, t, s);
                }
            } else if let (M::Quad(_), M::Tri(_)) = (a, b) {
                let (x, y) = (flat(a).unwrap(), flat(b).unwrap());
                ensure!(x.v == y.v && y.c.len() == 2 * x.c.len(), "mesh-cells", "{}: other vertices or {} cells", what, y.c.len());
                for (i, q) in x.c.iter().enumerate() {
                    let t: BTreeSet<usize> = y.c[2 * i].iter().chain(&y.c[2 * i + 1]).copied().collect();
                    ensure!(t.into_iter().collect::<Vec<_>>() == set(q), "mesh-cells", "{}: quadrilateral {} splits in {:?} and {:?}", what, i, y.c[2 * i], y.c[2 * i + 1]);
                }
            }
        }
        (Op::Refine(1), Some(b)) => {
            simrt::probe(5);
            let (x, y) = (flat(a).unwrap(), flat(b).unwrap());
            // any order of the four, any start within a triangle
            let mut want = vec![];
            ensure!(y.c.len() == 4 * x.c.len(), "mesh-cells", "{}: {} cells from {}", what, y.c.len(), x.c.len());
            for (i, t) in x.c.iter().enumerate() {
                let [p, q, r] = [t[0], t[1], t[2]];
                let n = |a: usize| vec![(a, 1)];
                let e = |a: usize, b: usize| vec![(a, 1), (b, 1)];
                let mut open = vec![[n(p), e(p, q), e(p, r)], [e(p, q), n(q), e(q, r)], [e(p, r), e(q, r), n(r)], [e(p, q), e(q, r), e(p, r)]];
                for k in 0..4 {
                    let c = &y.c[4 * i + k];
                    let pos = |key: &Vec<(usize, usize)>| -> Vec<f64> {
                        let s = key.len() as f64;
                        (0..2).map(|d| key.iter().map(|k| x.v[k.0][d]).sum::<f64>() / s).collect()
                    };
                    let hit = (0..open.len()).flat_map(|o| (0..3).map(move |s| (o, s))).find(|&(o, s)| (0..3).all(|j| c[j] < y.v.len() && near(&y.v[c[j]], &pos(&open[o][(j + s) % 3]))));
                    match hit {
                        Some((o, s)) => {
                            let t = open.remove(o);
                            want.push((0..3).map(|j| t[(j + s) % 3].clone()).collect::<Vec<_>>());
                        }
                        None => simrt::fail("mesh-cells", &format!("{}: triangle {} of {} is not a quarter of it", what, k, i)),
                    }
                }
            }
            shared(&what, &x, &want, &y, false);
        }
        (Op::Poly, Some(b)) => {
            simrt::probe(6);
            let (x, y) = (flat(a).unwrap(), pflat(b).unwrap());
            let want: Vec<Vec<Vec<usize>>> = fe!(a, x => x.connectivity().iter().map(|c| (0..c.num_faces()).map(|l| set(c.get_face_connectivity(l).unwrap().vertex_indices())).collect()).collect()).unwrap();
            ensure!(x.v == y.v && poly_cells(&y) == want, "mesh-cells", "{}: cells {:?} instead of {:?}", what, poly_cells(&y), want);
            let f: BTreeSet<Vec<usize>> = y.f.iter().map(|f| set(f)).collect();
            let used: BTreeSet<usize> = y.c.iter().flatten().copied().collect();
            ensure!(f.len() == y.f.len() && used.len() == f.len(), "mesh-faces", "{}: {} faces, {} of them different, {} used", what, y.f.len(), f.len(), used.len());
        }
        (Op::Dedup, Some(b)) => {
            let (x, y) = (pflat(a).unwrap(), pflat(b).unwrap());
            ensure!(x.v == y.v && poly_cells(&y) == poly_cells(&x), "mesh-cells", "{}: cells {:?} instead of {:?}", what, poly_cells(&y), poly_cells(&x));
            let f: BTreeSet<Vec<usize>> = y.f.iter().map(|f| set(f)).collect();
            let g: BTreeSet<Vec<usize>> = x.f.iter().map(|f| set(f)).collect();
            ensure!(f == g && f.len() == y.f.len(), "mesh-faces", "{}: {} faces, {} of them different, {} before", what, y.f.len(), f.len(), g.len());
        }
        (Op::Split(1), Some(b)) => {
            let (x, y) = (pflat(a).unwrap(), pflat(b).unwrap());
            ensure!(x.c == y.c && y.f.len() == x.f.len() && y.v[..x.v.len()] == x.v[..], "mesh-cells", "{}: other cells or vertices", what);
            let mut mid: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
            for (i, (f, g)) in x.f.iter().zip(&y.f).enumerate() {
                ensure!(g.len() == 2 * f.len(), "mesh-faces", "{}: face {} has {} vertices", what, i, g.len());
                for k in 0..f.len() {
                    let (p, q) = (f[k], f[(k + 1) % f.len()]);
                    let e: Vec<f64> = x.v[p].iter().zip(&x.v[q]).map(|(a, b)| (a + b) / 2.0).collect();
                    ensure!(g[2 * k] == p && g[2 * k + 1] < y.v.len() && near(&y.v[g[2 * k + 1]], &e), "mesh-points", "{}: face {} is {:?}", what, i, g);
                    ensure!(*mid.entry(set(&[p, q])).or_insert(g[2 * k + 1]) == g[2 * k + 1], "mesh-not-conforming", "{}: edge {:?} is split twice", what, (p, q));
                }
            }
            let d: BTreeSet<usize> = mid.values().copied().collect();
            ensure!(d.len() == mid.len() && y.v.len() == x.v.len() + d.len(), "mesh-vertices", "{}: {} vertices, {} edges", what, y.v.len(), mid.len());
        }
        (Op::Concat(s), Some(b)) => {
            let all: Vec<PFlat> = poly!(a, x => parts(x, *s).into_iter().map(|x| pflat_of(&x)).collect()).unwrap();
            let y = pflat(b).unwrap();
            let mut want = PFlat { v: vec![], f: vec![], c: vec![] };
            for x in all {
                let sh = |l: &[Vec<usize>], o: usize| l.iter().map(|f| f.iter().map(|i| i + o).collect()).collect::<Vec<Vec<usize>>>();
                want.c.extend(sh(&x.c, want.f.len()));
                want.f.extend(sh(&x.f, want.v.len()));
                want.v.extend(x.v);
            }
            ensure!(y.v == want.v && y.f == want.f && y.c == want.c, "mesh-cells", "{}: not the meshes put together: cells {:?} instead of {:?}", what, y.c, want.c);
        }
        (Op::Half(s), Some(b)) => {
            simrt::probe(7);
            let (x, y) = (pflat(a).unwrap(), pflat(b).unwrap());
            let h = plane(*s);
            let used: BTreeSet<usize> = x.f.iter().flatten().copied().collect();
            for p in &y.v {
                let d = h.signed_distance_to_point(&Point3::new(p[0], p[1], p[2]));
                ensure!(d <= 1e-9, "mesh-points", "{}: {:?} is {} outside", what, p, d);
            }
            let inside = |p: &Vec<f64>| h.contains_point(&Point3::new(p[0], p[1], p[2]));
            for &i in used.iter().filter(|&&i| inside(&x.v[i])) {
                ensure!(y.v.contains(&x.v[i]), "mesh-points", "{}: vertex {} at {:?} is inside and was lost", what, i, x.v[i]);
            }
            let (p, n) = point_normal(*s);
            let n = n.normalize();
            if judge_cut(&what, &x, &y, &[(n, n.dot(&p.coords))]) {
                simrt::probe(10);
            }
            // nothing removed: the same cells
            if used.iter().all(|&i| inside(&x.v[i])) {
                let at = |m: &PFlat| m.c.iter().filter(|c| !c.is_empty()).map(|c| c.iter().map(|&f| m.f[f].iter().map(|&v| m.v[v].clone()).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>();
                if x.f.iter().all(|f| !f.is_empty()) {
                    ensure!(at(&x) == at(&y), "mesh-cells", "{}: all is inside, but cells changed", what);
                }
            }
        }
        (Op::Cut(s, hex), Some(b)) => {
            let p: Vec<V3> = cutter(*s, *hex).iter().map(|p| p.coords).collect();
            let f: &[[usize; 3]] = if *hex { &[[0, 1, 2], [4, 5, 6], [0, 1, 5], [2, 3, 7], [0, 3, 7], [1, 2, 6]] } else { &[[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]] };
            let mid = p.iter().sum::<V3>() / p.len() as f64;
            let planes: Vec<(V3, f64)> = f.iter().map(|f| {
                let n = (p[f[1]] - p[f[0]]).cross(&(p[f[2]] - p[f[0]])).normalize();
                let n = if n.dot(&(mid - p[f[0]])) > 0.0 { -n } else { n };
                (n, n.dot(&p[f[0]]))
            }).collect();
            if judge_cut(&what, &pflat(a).unwrap(), &pflat(b).unwrap(), &planes) {
                simrt::probe(11);
            }
        }
        (Op::Triangulate, Some(b)) => {
            let (x, y) = (pflat(a).unwrap(), pflat(b).unwrap());
            ensure!(x.v == y.v, "mesh-vertices", "{}: other vertices", what);
            ensure!(y.f.iter().all(|f| f.len() == 3), "mesh-faces", "{}: faces {:?}", what, y.f);
            ensure!(y.f.iter().map(|f| set(f)).collect::<BTreeSet<_>>().len() == y.f.len(), "mesh-faces", "{}: a face is there twice", what);
            // (cuts through faces that are no polygons leave points repeated)
            let plain = x.f.iter().all(|f| f.iter().collect::<BTreeSet<_>>().len() == f.len());
            for c in poly_cells(&y) {
                let v: BTreeSet<usize> = c.iter().flatten().copied().collect();
                ensure!(!plain || c.len() == 4 && v.len() == 4, "mesh-cells", "{}: a cell has faces {:?}", what, c);
            }
            let (t, good) = solids(&x);
            if good {
                simrt::probe(12);
                let (s, t) = (t.iter().map(|c| volume(c)).sum::<f64>(), solids(&y).0.iter().map(|c| volume(c)).sum::<f64>());
                ensure!((s - t).abs() <= 1e-9 * (1.0 + s), "mesh-volume", "{}: the volume is {} instead of {}", what, t, s);
            }
            // a face between two cells stays one, whatever its shape
            let once = |p: &PFlat| {
                let mut n: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
                p.c.iter().flatten().for_each(|&f| *n.entry(set(&p.f[f])).or_insert(0) += 1);
                n.into_iter().filter(|x| x.1 == 1).map(|x| x.0).collect::<Vec<_>>()
            };
            let at = |v: usize| V3::new(y.v[v][0], y.v[v][1], y.v[v][2]);
            let flat = |f: &Vec<usize>| (at(f[1]) - at(f[0])).cross(&(at(f[2]) - at(f[0]))).norm() < 1e-9;
            // (the flat triangles on a split edge belong to several faces)
            if (good || (x.f.iter().all(|f| f.len() == 4) && x.c.iter().all(|c| c.len() == 6))) && !y.f.iter().any(flat) {
                let alone = once(&x);
                let inside = |f: &Vec<usize>| alone.iter().any(|g| f.iter().all(|v| g.contains(v)));
                let kept = once(&y);
                ensure!(kept.iter().all(inside) && (!good || kept.len() == alone.iter().map(|f| f.len() - 2).sum::<usize>()), "mesh-not-conforming", "{}: faces {:?} of one cell only, {:?} before", what, kept, alone);
            }
        }
        (Op::Tet, Some(b)) => {
            simrt::probe(13);
            let (x, y) = (pflat(a).unwrap(), flat(b).unwrap());
            ensure!(x.v == y.v && y.c.len() == x.c.len(), "mesh-cells", "{}: other vertices or {} cells instead of {}", what, y.c.len(), x.c.len());
            for (c, t) in poly_cells(&x).iter().zip(&y.c) {
                let v: BTreeSet<usize> = c.iter().flatten().copied().collect();
                if v.len() != 4 || c.iter().any(|f| f.len() != 3 || f[0] == f[1] || f[1] == f[2]) {
                    continue;
                }
                ensure!(set(t) == v.into_iter().collect::<Vec<_>>(), "mesh-cells", "{}: cell {:?} for faces {:?}", what, t, c);
                let p = |i: usize| V3::new(y.v[t[i]][0], y.v[t[i]][1], y.v[t[i]][2]);
                ensure!(det(&[p(0), p(1), p(2), p(3)]) > -1e-12, "mesh-cells", "{}: cell {:?} is inside out", what, t);
            }
        }
        (Op::Refine(k), Some(b)) => {
            let M::Tri(x) = a else { unreachable!() };
            let mut m = x.clone();
            (0..*k).for_each(|_| m = refine_uniformly(&m));
            ensure!(whole(b) == whole(&M::Tri(m)), "mesh-cells", "{}: not the refinement repeated", what);
        }
        (Op::Split(k), Some(b)) => {
            let m = poly_wrap!(a, x => {
                let mut y = x.clone();
                (0..*k).for_each(|_| y.split_edges());
                y
            }).unwrap();
            ensure!(whole(b) == whole(&m), "mesh-cells", "{}: not the splitting repeated", what);
        }
        (Op::Move(s), Some(b)) => {
            let t = shift(*s);
            let want = |v: Vec<Vec<f64>>| v.into_iter().map(|p| p.into_iter().zip(t).map(|(a, b)| a + b).collect()).collect::<Vec<Vec<f64>>>();
            if let (Some(x), Some(y)) = (flat(a), flat(b)) {
                ensure!(x.c == y.c && y.v == want(x.v), "mesh-points", "{}: not moved by {:?}", what, t);
            } else if let (Some(x), Some(y)) = (pflat(a), pflat(b)) {
                ensure!(x.c == y.c && x.f == y.f && y.v == want(x.v), "mesh-points", "{}: not moved by {:?}", what, t);
            }
        }
        (Op::FaceCells, _) => {
            if let Some(x) = pflat(a) {
                let (got, _): (fenris_nested_vec::NestedVec<usize>, Option<u64>) = bincode::deserialize(extra).unwrap();
                let want: Vec<Vec<usize>> = (0..x.f.len()).map(|f| x.c.iter().enumerate().flat_map(|(i, c)| c.iter().filter(move |&&g| g == f).map(move |_| i)).collect()).collect();
                let got: Vec<Vec<usize>> = got.into();
                ensure!(got == want, "mesh-faces", "{}: {:?} instead of {:?}", what, got, want);
            }
        }
        _ => {}
    }
}
fn run_pipe(p: &Pipe, verify: bool) -> Vec<Vec<u8>> {
    let mut m = build(&p.base);
    let mut out = vec![whole(&m)];
    for op in &p.ops {
        simrt::event(2);
        simrt::callback_point();
        if cells(&m) > 1100 {
            out.push(b"large".to_vec());
            continue;
        }
        lib_call();
        match catch(|| step(&m, op)) {
            Ok(None) => out.push(vec![]),
            Ok(Some((new, extra))) => {
                if verify {
                    check(&m, op, new.as_ref(), &extra);
                }
                out.push(extra);
                if let Some(n) = new {
                    out.push(whole(&n));
                    m = n;
                }
            }
            Err(e) => {
                // meshes with any cells need not be convertible, but have to fail alike
                ensure!(!verify || !regular(p), "mesh-operation-panicked", "{:?}: {}", op, payload(&*e));
                out.push(format!("panic: {}", payload(&*e)).into_bytes());
            }
        }
    }
    out
}
/// a mesh every operation has to handle
fn regular(p: &Pipe) -> bool {
    p.base.kind < 4 && !p.ops.iter().any(|o| matches!(o, Op::Half(_) | Op::Cut(..) | Op::Split(_)))
}
fn fresh<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    })
}
impl Property for H01 {
    type Case = H01Case;
    fn gen(r: &mut Rng, ctx: GenCtx) -> H01Case {
        let np = *r.pick(&[1usize, 1, 2, 3]);
        let pipes: Vec<Pipe> = (0..np)
            .map(|_| {
                let kind = r.below(10) as u8;
                let n = if r.chance(1, 40) { r.urange(5, 8) } else { r.urange(1, if ctx.thorough { 5 } else { 4 }) };
                let base = Base { kind, n, seed: r.next() >> 1, renumber: r.chance(2, 3), thin: r.chance(1, 3) };
                let no = r.urange(1, 5);
                let ops: Vec<Op> = (0..no)
                    .map(|_| match r.below(20) {
                        0 | 1 => Op::Keep(r.next() >> 1, r.urange(0, 12)),
                        2 => Op::Keep(r.next() >> 1, r.urange(10, 200)),
                        3 => Op::KeepBad(r.usize(3)),
                        4 => Op::Boundary,
                        5 => Op::Surface,
                        6..=8 => Op::Convert(r.below(3) as u8),
                        9 => Op::Refine(*r.pick(&[0usize, 1, 1, 2])),
                        10 | 11 => Op::Poly,
                        12 => Op::Triangulate,
                        13 => Op::Dedup,
                        14 => Op::Split(*r.pick(&[1usize, 1, 2])),
                        15 => Op::Half(r.next() >> 1),
                        16 => if r.chance(1, 2) { Op::Cut(r.next() >> 1, r.chance(1, 2)) } else { Op::Half(r.next() >> 1) },
                        17 => if r.chance(1, 3) { Op::Move(r.next() >> 1) } else { Op::Concat(r.next() >> 1) },
                        18 => if r.chance(1, 2) { Op::Tet } else { Op::FaceCells },
                        _ => Op::Graph,
                    })
                    .collect();
                let ops = ops
                    .into_iter()
                    .flat_map(|o| match o {
                        Op::Triangulate if r.chance(1, 2) => vec![o, Op::Tet],
                        Op::Poly if r.chance(1, 8) => vec![o, Op::Triangulate, Op::Tet],
                        _ => vec![o],
                    })
                    .collect();
                Pipe { base, ops }
            })
            .collect();
        let nt = *r.pick(&[1usize, 2, 2, 3, 4]);
        let threads = (0..nt)
            .map(|_| {
                let k = r.urange(1, 3);
                Th { maps: *r.pick(&[0usize, 0, 1, 2, 7]), order: (0..k).map(|_| r.usize(np)).collect() }
            })
            .collect();
        H01Case { pipes, threads }
    }
    fn valid(c: &H01Case) -> bool {
        !c.threads.is_empty() && c.threads.len() <= 8 && c.pipes.len() <= 8 && c.threads.iter().all(|t| t.maps < 100 && t.order.len() < 20 && t.order.iter().all(|&p| p < c.pipes.len()))
            && c.pipes.iter().all(|p| p.base.kind < 10 && (1..=8).contains(&p.base.n) && p.ops.len() < 20 && p.ops.iter().all(|o| match o {
                Op::Refine(k) | Op::Split(k) => *k <= 3,
                _ => true,
            }))
    }
    fn run(c: H01Case) {
        let want: Vec<Vec<Vec<u8>>> = c.pipes.iter().map(|p| fresh(|| run_pipe(p, true))).collect();
        if c.pipes.iter().any(|p| p.base.kind >= 5) {
            simrt::probe(9);
        }
        let seen: Vec<u64> = std::thread::scope(|s| {
            let hs: Vec<_> = c.threads.iter().enumerate().map(|(k, t)| {
                let (c, want) = (&c, &want);
                s.spawn(move || {
                    let h = std::collections::hash_map::RandomState::new().build_hasher().finish();
                    for _ in 0..t.maps {
                        std::hint::black_box(std::collections::HashMap::<u32, u32>::new());
                    }
                    simrt::note_fault(FK_HASH);
                    for (n, &p) in t.order.iter().enumerate() {
                        if t.order[..n].contains(&p) {
                            simrt::probe(8);
                        }
                        let got = run_pipe(&c.pipes[p], false);
                        if got != want[p] {
                            let i = got.iter().zip(&want[p]).position(|(a, b)| a != b).unwrap_or(0);
                            simrt::fail("mesh-depends-on-history", &format!("thread {}, pipeline {} (call {} there): result {} of {:?} differs from that of another thread", k, p, n, i, c.pipes[p]));
                        }
                    }
                    h
                })
            }).collect();
            hs.into_iter().map(|h| match h.join() {
                Ok(r) => r,
                Err(e) => std::panic::resume_unwind(e),
            }).collect()
        });
        nontrivial();
        if seen.len() > 1 {
            simrt::probe(1);
            note_concurrent();
            if seen[1..].iter().any(|h| *h != seen[0]) {
                simrt::probe(0);
            }
        }
    }
}
fn note_concurrent() {
    simrt::note_fault(FK_CONCURRENT)
}

//! I01: loading MSH files from a faulty disk, and damaged MSH files.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris::connectivity::*;
use fenris::io::msh::{load_msh_from_bytes, load_msh_from_file, MshConnectivity};
use fenris::mesh::Mesh;
use fenris::nalgebra::{allocator::Allocator, DefaultAllocator, DimName, RealField, U2, U3};
use serde::{Deserialize, Serialize};
use simrt::fs::FaultPlan;
use simrt::rng::{mix, Rng};
use std::collections::BTreeMap;

const REAL: &str = "fenris::io::msh (all of it), mshio 0.4 and nom, std::fs (all unmodified)";
const STUB: &str = "disk: an in-memory file system behind libc whose faults the seed decides; the writer of the MSH files (ASCII, little- and big-endian binary) is the scenario's own";

pub fn entries() -> Vec<Entry> {
    vec![Entry {
        id: "I01", quick_runs: 40000, thorough_runs: 2000000, gen: gen_of::<I01>, run: run_of::<I01>, valid: valid_of::<I01>,
        rule: "One case: an MSH 4.1 file (ASCII or binary of either byte order, 1-4 node blocks, 1-5 element blocks of eleven types, further sections), the element type asked for (nine), up to two semantic alterations out of 24, a truncation, byte flips, and a disk that gives short reads, EINTR, EIO, failing opens. Non-trivial: a fault, an alteration or more than one block.",
        real: REAL, stub: STUB,
        probes: &["loaded", "rejected", "binary", "several node blocks", "truncated", "bytes flipped", "semantic alteration", "read or open failed", "reference to a node that is not there", "flips left a readable file"][..],
    }]
}

/// Gmsh element type, nodes, dimension
const TYPES: [(i64, usize, i64); 11] = [(2, 3, 2), (9, 6, 2), (3, 4, 2), (10, 9, 2), (4, 4, 3), (11, 10, 3), (5, 8, 3), (12, 27, 3), (1, 2, 1), (15, 1, 0), (8, 3, 1)];
/// index into TYPES of the nine element types that can be asked for
const TARGETS: [usize; 9] = [0, 0, 1, 2, 3, 4, 5, 6, 7];

#[derive(Serialize, Deserialize, Clone)]
pub struct EB {
    ty: usize,
    n: usize,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Mutation {
    kind: u64,
    a: u64,
    b: u64,
}
#[derive(Serialize, Deserialize)]
pub struct I01Case {
    /// 0 ASCII, 1 little endian, 2 big endian
    format: u8,
    small_size: bool,
    crlf: bool,
    target: usize,
    f32s: bool,
    nblocks: Vec<usize>,
    eblocks: Vec<EB>,
    /// sections that are not the mesh, at these places
    extra: Vec<u8>,
    elements_first: bool,
    salt: u64,
    mutations: Vec<Mutation>,
    /// 65536ths of the file that are kept (0 or 1 entry)
    truncate: Vec<u64>,
    flips: Vec<(u64, u8)>,
    /// 0 file, 1 bytes, 2 no such file, 3 a directory
    source: u8,
    p_short: u64,
    p_eintr: u64,
    p_eio: u64,
    p_open: u64,
    p_stat: u64,
    fail_at: Vec<u64>,
}

// ------------------------------------------------------------------------------------------------ the file
#[derive(Clone)]
struct NBlock {
    dim: i64,
    tag: i64,
    param: i64,
    count: u64,
    tags: Vec<u64>,
    xyz: Vec<[f64; 3]>,
}
#[derive(Clone)]
struct EBlock {
    dim: i64,
    tag: i64,
    ty: i64,
    count: u64,
    elems: Vec<(u64, Vec<u64>)>,
}
#[derive(Clone)]
struct File {
    version: &'static str,
    size: usize,
    nhead: [u64; 4],
    nodes: Vec<NBlock>,
    ehead: [u64; 4],
    elems: Vec<EBlock>,
    node_sections: usize,
    elem_sections: usize,
}
struct W {
    out: Vec<u8>,
    fmt: u8,
    size: usize,
    nl: &'static str,
}
impl W {
    fn text(&mut self, s: &str) {
        self.out.extend_from_slice(s.as_bytes());
        self.out.extend_from_slice(self.nl.as_bytes());
    }
    fn line(&mut self) {
        self.out.extend_from_slice(self.nl.as_bytes());
    }
    fn raw(&mut self, le: &[u8]) {
        if self.fmt == 1 {
            self.out.extend_from_slice(le);
        } else {
            self.out.extend(le.iter().rev());
        }
    }
    fn u(&mut self, v: u64) {
        match self.fmt {
            0 => self.out.extend_from_slice(format!("{} ", v).as_bytes()),
            _ => {
                let b = v.to_le_bytes();
                self.raw(&b[..self.size.min(8)]);
            }
        }
    }
    fn i(&mut self, v: i64) {
        match self.fmt {
            0 => self.out.extend_from_slice(format!("{} ", v).as_bytes()),
            _ => self.raw(&(v as i32).to_le_bytes()),
        }
    }
    fn f(&mut self, v: f64, style: u64) {
        match self.fmt {
            0 => {
                let s = match style % 3 {
                    0 => format!("{:?} ", v),
                    1 => format!("{:e} ", v),
                    _ => format!("{} ", v),
                };
                self.out.extend_from_slice(s.as_bytes())
            }
            _ => self.raw(&v.to_le_bytes()),
        }
    }
    fn eol(&mut self) {
        if self.fmt == 0 {
            self.line();
        }
    }
}
impl File {
    fn write(&self, c: &I01Case) -> Vec<u8> {
        let mut w = W { out: Vec::new(), fmt: c.format, size: self.size, nl: if c.crlf { "\r\n" } else { "\n" } };
        w.text("$MeshFormat");
        w.text(&format!("{} {} {}", self.version, (c.format != 0) as u8, self.size));
        if c.format != 0 {
            w.i(1);
            w.line();
        }
        w.text("$EndMeshFormat");
        for step in 0..3u8 {
            for &x in &c.extra {
                if x % 3 == step {
                    let name = ["Comments", "PhysicalNames", "Periodic"][(x / 3) as usize % 3];
                    w.text(&format!("${}", name));
                    w.text("1 2 \"$Nodes\" $x");
                    w.text(&format!("$End{}", name));
                }
            }
            if step == 2 {
                break;
            }
            if (step == 0) != c.elements_first {
                for _ in 0..self.node_sections {
                    self.write_nodes(&mut w, c.salt);
                }
            } else {
                for _ in 0..self.elem_sections {
                    self.write_elements(&mut w);
                }
            }
        }
        w.out
    }
    fn write_nodes(&self, w: &mut W, salt: u64) {
        w.text("$Nodes");
        for k in self.nhead {
            w.u(k);
        }
        w.eol();
        for b in &self.nodes {
            w.i(b.dim);
            w.i(b.tag);
            w.i(b.param);
            w.u(b.count);
            w.eol();
            for t in &b.tags {
                w.u(*t);
                w.eol();
            }
            for (i, p) in b.xyz.iter().enumerate() {
                for k in 0..3 {
                    w.f(p[k], mix(salt, (i * 3 + k) as u64));
                }
                w.eol();
            }
        }
        if w.fmt != 0 {
            w.line();
        }
        w.text("$EndNodes");
    }
    fn write_elements(&self, w: &mut W) {
        w.text("$Elements");
        for k in self.ehead {
            w.u(k);
        }
        w.eol();
        for b in &self.elems {
            w.i(b.dim);
            w.i(b.tag);
            w.i(b.ty);
            w.u(b.count);
            w.eol();
            for (t, ns) in &b.elems {
                w.u(*t);
                for n in ns {
                    w.u(*n);
                }
                w.eol();
            }
        }
        if w.fmt != 0 {
            w.line();
        }
        w.text("$EndElements");
    }
}
fn coord(h: u64) -> f64 {
    match h % 9 {
        0 => (h >> 8) as f64 / (1u64 << 56) as f64,
        1 => -((h >> 8) as f64) / (1u64 << 52) as f64,
        2 => (h >> 40) as f64,
        3 => -0.5,
        4 => 0.0,
        5 => f64::from_bits(0x3ff0000000000000 | (h >> 12)),
        6 => ((h >> 20) % 1000) as f64 * 1e-3,
        7 => ((h >> 20) % 97) as f64 * 1e-17,
        _ => ((h >> 20) % 97) as f64 * 1e20,
    }
}
fn build(c: &I01Case) -> File {
    let n: usize = c.nblocks.iter().sum();
    let mut r = Rng::new(mix(c.salt, 0x3517));
    let mut nodes = Vec::new();
    let mut tag = 0;
    for (i, &k) in c.nblocks.iter().enumerate() {
        let mut b = NBlock { dim: r.below(4) as i64, tag: i as i64 + 1, param: 0, count: k as u64, tags: vec![], xyz: vec![] };
        for _ in 0..k {
            tag += 1;
            b.tags.push(tag);
            b.xyz.push([coord(r.next()), coord(r.next()), coord(r.next())]);
        }
        nodes.push(b);
    }
    let mut elems = Vec::new();
    let mut et = 0;
    for (i, e) in c.eblocks.iter().enumerate() {
        let (ty, nn, dim) = TYPES[e.ty];
        let mut b = EBlock { dim, tag: i as i64 + 1, ty, count: e.n as u64, elems: vec![] };
        for _ in 0..e.n {
            et += 1;
            b.elems.push((et, (0..nn).map(|_| 1 + r.below(n as u64)).collect()));
        }
        elems.push(b);
    }
    File {
        version: "4.1",
        size: if c.format != 0 && c.small_size { 4 } else { 8 },
        nhead: [nodes.len() as u64, n as u64, 1, n as u64],
        nodes,
        ehead: [elems.len() as u64, et, 1, et],
        elems,
        node_sections: 1,
        elem_sections: 1,
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Raw {
    vertices: Vec<[f64; 3]>,
    cells: Vec<Vec<usize>>,
}
#[derive(Debug)]
enum Want {
    Mesh(Raw),
    Error(String),
    /// a mesh or an error
    Either(Raw),
}
/// Applies the alterations and says what must come out of loading the file.
fn alter(f: &mut File, c: &I01Case) -> (Want, bool) {
    let tt = TARGETS[c.target];
    let (tty, tnn, tdim) = TYPES[tt];
    let mut must: Option<String> = None;
    let mut may = false;
    let mut permuted = false;
    let target_elems = |f: &File| -> Vec<(usize, usize)> { f.elems.iter().enumerate().filter(|(_, b)| b.ty == tty && b.dim == tdim).flat_map(|(i, b)| (0..b.elems.len()).map(move |j| (i, j))).collect() };
    let n = f.nhead[1];
    for m in &c.mutations {
        match m.kind {
            // references of an element of the requested type to nodes that are not there
            0 | 1 => {
                let t = target_elems(f);
                if t.is_empty() {
                    continue;
                }
                let (i, j) = t[m.a as usize % t.len()];
                let hi = f.nodes.iter().flat_map(|b| b.tags.iter()).max().copied().unwrap_or(n);
                f.elems[i].elems[j].1[m.b as usize % tnn] = if m.kind == 0 { 0 } else { hi + 1 + m.b % 5 * (m.b % 1000) };
                simrt::probe(8);
            }
            // the same in an element of another type
            2 => {
                let t: Vec<(usize, usize)> = f.elems.iter().enumerate().filter(|(_, b)| !(b.ty == tty && b.dim == tdim)).flat_map(|(i, b)| (0..b.elems.len()).map(move |j| (i, j))).collect();
                if t.is_empty() {
                    continue;
                }
                let (i, j) = t[m.a as usize % t.len()];
                let k = f.elems[i].elems[j].1.len();
                f.elems[i].elems[j].1[m.b as usize % k] = if m.a % 2 == 0 { 0 } else { n + 7 };
                may = true;
            }
            3 => {
                f.nhead[1] = if m.a % 2 == 0 { f.nhead[1] + 1 + m.b % 3 } else { f.nhead[1].saturating_sub(1 + m.b % 3) };
                must = Some("the number of nodes in the header is wrong".into());
            }
            4 | 5 => {
                let h = if m.kind == 4 { &mut f.nhead } else { &mut f.ehead };
                h[0] = if m.a % 2 == 0 { h[0] + 1 } else { h[0] - 1 };
                must = Some("the number of blocks in the header is wrong".into());
            }
            6 => {
                let i = m.a as usize % f.nodes.len();
                let b = &mut f.nodes[i];
                b.count = if m.b % 2 == 0 { b.count + 1 } else { b.count.saturating_sub(1) };
                if b.count as usize != b.tags.len() {
                    must = Some("the number of nodes of a block is wrong".into());
                }
            }
            7 => {
                // gaps in the node tags
                let by = 1 + m.b % 4;
                let from = 1 + m.a % n;
                for b in &mut f.nodes {
                    for t in &mut b.tags {
                        if *t >= from {
                            *t += by;
                        }
                    }
                }
                for b in &mut f.elems {
                    for (_, ns) in &mut b.elems {
                        for t in ns {
                            if *t >= from {
                                *t += by;
                            }
                        }
                    }
                }
                f.nhead[3] += by;
                if from == 1 {
                    f.nhead[2] += by;
                }
                may = true;
            }
            8 => {
                // the nodes are listed in another order than their tags
                let mut tags: Vec<u64> = f.nodes.iter().flat_map(|b| b.tags.iter().copied()).collect();
                Rng::new(m.a).shuffle(&mut tags);
                let mut it = tags.into_iter();
                for b in &mut f.nodes {
                    for t in &mut b.tags {
                        *t = it.next().unwrap();
                    }
                }
                permuted = true;
                may = true;
            }
            9 | 10 => {
                let k = if m.a % 3 == 0 { 2 } else { 0 };
                if m.kind == 9 {
                    f.node_sections = k
                } else {
                    f.elem_sections = k
                }
                if k == 0 {
                    must = Some("a section is missing".into());
                } else {
                    may = true;
                }
            }
            11 => {
                let i = m.a as usize % f.elems.len();
                let was_target = f.elems[i].ty == tty && f.elems[i].dim == tdim;
                f.elems[i].dim = if m.b % 2 == 0 { -1 - (m.b % 7) as i64 } else { (f.elems[i].dim + 1) % 4 };
                let _ = was_target;
                may = true;
            }
            12 => {
                let i = m.a as usize % f.elems.len();
                f.elems[i].ty = [0, -1, 999, 200, 1 << 30][m.b as usize % 5];
                must = Some("an element type is unknown".into());
            }
            13 => {
                let i = m.a as usize % f.nodes.len();
                f.nodes[i].param = [1, 2, -1][m.b as usize % 3];
                must = Some("a node block is declared parametric".into());
            }
            14 => {
                f.version = ["4.0", "2.2", "4.2", "41", "5"][m.a as usize % 5];
                must = Some("the format version is not 4.1".into());
            }
            15 => {
                f.ehead[1] = if m.a % 2 == 0 { f.ehead[1] + 1 + m.b % 9 } else { f.ehead[1].saturating_sub(1 + m.b % 3) };
                may = true;
            }
            16 => {
                // element tags with gaps
                let by = 1 + m.b % 9;
                for b in &mut f.elems {
                    for e in &mut b.elems {
                        e.0 += by;
                    }
                }
                f.ehead[3] += by;
                if m.a % 2 == 0 {
                    f.ehead[2] += by;
                }
                may = true;
            }
            17 => {
                f.nhead[2] = 0;
                must = Some("node tag 0".into());
            }
            18 => {
                f.nhead[3] = if m.a % 2 == 0 { f.nhead[3] + 1 + m.b % 50 } else { f.nhead[3].saturating_sub(1 + m.b % 2).max(1) };
                may = true;
            }
            19 => {
                // an element of a type that is asked for, with the number of another type
                let i = m.a as usize % f.elems.len();
                f.elems[i].count = if m.b % 2 == 0 { f.elems[i].count + 1 } else { f.elems[i].count.saturating_sub(1) };
                may = true;
                // the bytes no longer say what the model does; the parsed file decides
                must = must.or(None);
                f.ehead[1] = f.ehead[1];
            }
            20 => {
                f.nhead[1] = 0;
                must = Some("zero nodes in the header".into());
            }
            21 => {
                f.ehead[1] = 0;
                may = true;
            }
            22 => {
                f.size = [0, 3, 5, 16][m.a as usize % 4];
                if c.format == 0 {
                    may = true;
                } else {
                    must = Some("an impossible size of integers".into());
                }
            }
            _ => {
                // all blocks of the requested type turned into another type
                let mut none = true;
                for b in &mut f.elems {
                    if b.ty == tty {
                        b.dim = (b.dim + 1) % 4;
                        none = false;
                    }
                }
                let _ = none;
            }
        }
    }
    // the mesh that the file describes
    let mut by_tag: BTreeMap<u64, usize> = BTreeMap::new();
    let mut vertices = Vec::new();
    for b in &f.nodes {
        for (t, p) in b.tags.iter().zip(&b.xyz) {
            by_tag.insert(*t, vertices.len());
            vertices.push(*p);
        }
    }
    let mut cells = Vec::new();
    let mut any = false;
    for b in &f.elems {
        if b.ty == tty && b.dim == tdim {
            any = true;
            for (_, ns) in &b.elems {
                match ns.iter().map(|t| by_tag.get(t).copied()).collect::<Option<Vec<usize>>>() {
                    Some(v) => cells.push(v),
                    None => must = Some("an element refers to a node that is not there".into()),
                }
            }
        }
    }
    if !any {
        must = Some("no block of the requested type".into());
    }
    let raw = Raw { vertices, cells };
    (
        match must {
            Some(e) => Want::Error(e),
            None if may => Want::Either(raw),
            None => Want::Mesh(raw),
        },
        permuted,
    )
}
/// What the bytes say, going by mshio alone. None: mshio itself panics.
fn reference(bytes: &[u8], target: usize) -> Option<Want> {
    let (_, tnn, tdim) = TYPES[TARGETS[target]];
    let tty = TYPES[TARGETS[target]].0;
    let parsed = match catch(|| mshio::parse_msh_bytes(bytes).map_err(|e| e.to_string())) {
        Ok(p) => p,
        Err(_) => return None,
    };
    let mut f = match parsed {
        Ok(f) => f,
        Err(_) => return Some(Want::Error("the file cannot be parsed".into())),
    };
    let (Some(nodes), Some(elems)) = (f.data.nodes.take(), f.data.elements.take()) else { return Some(Want::Error("a section is missing".into())) };
    let mut may = false;
    let mut vertices = Vec::new();
    for b in &nodes.node_blocks {
        if b.node_tags.is_some() {
            return Some(Want::Error("sparse node tags".into()));
        }
        vertices.extend(b.nodes.iter().map(|p| [p.x, p.y, p.z]));
    }
    if vertices.len() as u64 != nodes.num_nodes {
        return Some(Want::Error("wrong number of nodes".into()));
    }
    if nodes.min_node_tag != 1 || nodes.max_node_tag != nodes.num_nodes {
        may = true;
    }
    if nodes.min_node_tag != 1 {
        // tags count from elsewhere
        return Some(Want::Either(Raw { vertices: vec![], cells: vec![vec![usize::MAX]] }));
    }
    let mut cells = Vec::new();
    let mut any = false;
    let mut total = 0;
    for b in &elems.element_blocks {
        if b.element_tags.is_some() {
            return Some(Want::Error("sparse element tags".into()));
        }
        total += b.elements.len() as u64;
        if b.element_type as i64 == tty && b.entity_dim as i64 == tdim {
            any = true;
            for e in &b.elements {
                if e.nodes.len() != tnn || e.nodes.iter().any(|&t| t == 0 || t as usize > vertices.len()) {
                    return Some(Want::Error("a reference to a node that is not there".into()));
                }
                cells.push(e.nodes.iter().map(|&t| t as usize - 1).collect());
            }
        } else if b.entity_dim < 0 || b.elements.iter().any(|e| e.nodes.iter().any(|&t| t == 0 || t as usize > vertices.len())) {
            may = true;
        }
    }
    if total != elems.num_elements {
        may = true;
    }
    if !any {
        return Some(Want::Error("no block of the requested type".into()));
    }
    let raw = Raw { vertices, cells };
    Some(if may { Want::Either(raw) } else { Want::Mesh(raw) })
}

// ------------------------------------------------------------------------------------------------ loading
fn to_raw<T: RealField + Copy, D: DimName, C: Connectivity>(m: &Mesh<T, D, C>, f: impl Fn(T) -> f64) -> Raw
where
    DefaultAllocator: Allocator<T, D>,
{
    Raw {
        vertices: m
            .vertices()
            .iter()
            .map(|p| {
                let mut v = [0.0; 3];
                for i in 0..D::dim() {
                    v[i] = f(p[i].clone());
                }
                v
            })
            .collect(),
        cells: m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect(),
    }
}
fn load_as<D: DimName, C: MshConnectivity + Connectivity>(path: Option<&str>, bytes: &[u8], f32s: bool) -> eyre::Result<Raw>
where
    DefaultAllocator: Allocator<f64, D> + Allocator<f32, D>,
{
    lib_call();
    if f32s {
        let m: Mesh<f32, D, C> = match path {
            Some(p) => load_msh_from_file(p)?,
            None => load_msh_from_bytes(bytes)?,
        };
        Ok(to_raw(&m, |x| x as f64))
    } else {
        let m: Mesh<f64, D, C> = match path {
            Some(p) => load_msh_from_file(p)?,
            None => load_msh_from_bytes(bytes)?,
        };
        Ok(to_raw(&m, |x| x))
    }
}
fn dim_of(target: usize) -> usize {
    match target {
        0 | 2 | 3 | 4 => 2,
        _ => 3,
    }
}
fn load(target: usize, path: Option<&str>, bytes: &[u8], f32s: bool) -> eyre::Result<Raw> {
    match target {
        0 => load_as::<U2, Tri3d2Connectivity>(path, bytes, f32s),
        1 => load_as::<U3, Tri3d3Connectivity>(path, bytes, f32s),
        2 => load_as::<U2, Tri6d2Connectivity>(path, bytes, f32s),
        3 => load_as::<U2, Quad4d2Connectivity>(path, bytes, f32s),
        4 => load_as::<U2, Quad9d2Connectivity>(path, bytes, f32s),
        5 => load_as::<U3, Tet4Connectivity>(path, bytes, f32s),
        6 => load_as::<U3, Tet10Connectivity>(path, bytes, f32s),
        7 => load_as::<U3, Hex8Connectivity>(path, bytes, f32s),
        _ => load_as::<U3, Hex27Connectivity>(path, bytes, f32s),
    }
}
/// the mesh as it looks through the dimension and number type of the target
fn view(r: &Raw, target: usize, f32s: bool) -> Raw {
    let mut r = r.clone();
    for v in &mut r.vertices {
        if dim_of(target) == 2 {
            v[2] = 0.0;
        }
        if f32s {
            for x in v {
                *x = *x as f32 as f64;
            }
        }
    }
    r
}
fn equal(a: &Raw, b: &Raw) -> bool {
    a.cells == b.cells && a.vertices.len() == b.vertices.len() && a.vertices.iter().zip(&b.vertices).all(|(x, y)| (0..3).all(|k| x[k].to_bits() == y[k].to_bits() || x[k] == y[k] || x[k].is_nan() && y[k].is_nan()))
}

/// No two alterations of the same numbers, which could cancel.
fn compatible(m: &[Mutation]) -> bool {
    let mut g: Vec<u64> = m
        .iter()
        .map(|m| match m.kind {
            20 => 3,
            8 | 17 | 18 => 7,
            16 | 21 | 19 => 15,
            12 => 11,
            k => k,
        })
        .collect();
    g.sort();
    g.windows(2).all(|w| w[0] != w[1])
}
pub struct I01;
impl Property for I01 {
    type Case = I01Case;
    fn gen(r: &mut Rng, _: GenCtx) -> I01Case {
        let target = r.usize(9);
        let big = r.chance(1, 12);
        let huge = big && r.chance(1, 15);
        let nb = r.urange(1, 4);
        let mut nblocks: Vec<usize> = (0..nb).map(|_| if huge { r.urange(300, 1000) } else if big { r.urange(20, 200) } else { r.urange(0, 8) }).collect();
        if nblocks.iter().sum::<usize>() == 0 {
            nblocks[0] = 1;
        }
        let ne = r.urange(1, 5);
        let mut eblocks: Vec<EB> = (0..ne)
            .map(|_| EB { ty: if r.chance(1, 2) { TARGETS[target] } else { r.usize(11) }, n: if huge { r.urange(200, 900) } else if big { r.urange(5, 60) } else { r.urange(0, 5) } })
            .collect();
        if eblocks.iter().all(|e| e.n == 0) {
            eblocks[0].n = 1;
        }
        let damage = r.below(10);
        let mut mutations: Vec<Mutation> = if (3..7).contains(&damage) { (0..r.urange(1, 2)).map(|_| Mutation { kind: r.below(24), a: r.below(1 << 20), b: r.below(1 << 20) }).collect() } else { vec![] };
        if !compatible(&mutations) {
            mutations.truncate(1);
        }
        let truncate = if damage == 7 { vec![r.below(65536)] } else { vec![] };
        let flips = if damage >= 8 { (0..r.urange(1, 3)).map(|_| (r.below(1 << 20), if r.chance(2, 3) { *r.pick(b"0123456789-+.eE $\n\tN") } else { r.below(256) as u8 })).collect() } else { vec![] };
        let faults = r.chance(1, 2);
        let p = |r: &mut Rng, hi: u64| if faults && r.chance(1, 2) { r.below(hi) } else { 0 };
        I01Case {
            format: r.below(3) as u8,
            small_size: r.chance(1, 4),
            crlf: r.chance(1, 6),
            target,
            f32s: r.chance(1, 6),
            nblocks,
            eblocks,
            extra: (0..r.below(3)).map(|_| r.below(9) as u8).collect(),
            elements_first: r.chance(1, 8),
            salt: r.below(1 << 32),
            mutations,
            truncate,
            flips,
            source: *r.pick(&[0u8, 0, 0, 0, 0, 0, 1, 1, 2, 3]),
            p_short: p(r, 60000),
            p_eintr: p(r, 30000),
            p_eio: p(r, 20000),
            p_open: p(r, 20000),
            p_stat: p(r, 30000),
            fail_at: if faults && r.chance(1, 4) { vec![r.below(8)] } else { vec![] },
        }
    }
    fn valid(c: &I01Case) -> bool {
        c.format < 3
            && c.target < 9
            && !c.nblocks.is_empty()
            && c.nblocks.iter().sum::<usize>() > 0
            && c.nblocks.iter().all(|&n| n <= 1000)
            && !c.eblocks.is_empty()
            && c.eblocks.iter().all(|e| e.ty < 11 && e.n <= 1000)
            && c.eblocks.iter().any(|e| e.n > 0)
            && c.source < 4
            && compatible(&c.mutations)
            && c.truncate.len() < 2
            && c.fail_at.len() < 2
            && [c.p_short, c.p_eintr, c.p_eio, c.p_open, c.p_stat].iter().all(|&p| p <= 60000)
            && c.p_eintr <= 40000
    }
    fn run(c: I01Case) {
        let (bytes, mut want, permuted) = simrt::quiet(|| {
            let mut f = build(&c);
            let (want, permuted) = alter(&mut f, &c);
            (f.write(&c), want, permuted)
        });
        let mut bytes = bytes;
        // counts of single blocks: what is in the file decides
        let by_bytes = c.mutations.iter().any(|m| m.kind == 19 || m.kind == 6 && c.format != 0) || !c.flips.is_empty();
        if !c.mutations.is_empty() {
            simrt::probe(6);
            simrt::note_fault(FK_TOKEN);
            nontrivial();
        }
        for t in &c.truncate {
            let n = (bytes.len() as u64 * t / 65536) as usize;
            bytes.truncate(n);
            simrt::probe(4);
            simrt::note_fault(FK_TRUNC);
            nontrivial();
            want = match want {
                Want::Mesh(r) => Want::Either(r),
                w => w,
            };
        }
        for (p, b) in &c.flips {
            if !bytes.is_empty() {
                let k = *p as usize % bytes.len();
                bytes[k] = *b;
                simrt::probe(5);
                simrt::note_fault(FK_CORRUPT);
                nontrivial();
            }
        }
        if c.format != 0 {
            simrt::probe(2);
        }
        if c.nblocks.len() > 1 {
            simrt::probe(3);
            nontrivial();
        }
        let by_mshio = simrt::quiet(|| reference(&bytes, c.target));
        simrt::take_panics();

        let path = match c.source {
            0 => Some("/simfs/mesh.msh"),
            1 => None,
            2 => Some("/simfs/other.msh"),
            _ => Some("/simfs/dir.msh"),
        };
        simrt::fs::put("/simfs/mesh.msh", &bytes);
        simrt::fs::put_dir("/simfs/dir.msh");
        simrt::fs::set_plan(FaultPlan {
            p_short: c.p_short,
            p_eintr: c.p_eintr,
            p_eio_read: c.p_eio,
            p_open: c.p_open,
            p_stat: c.p_stat,
            fail_at: c.fail_at.first().map(|&k| (k, libc::EIO)),
            ..Default::default()
        });
        let got = catch(|| load(c.target, path, &bytes, c.f32s));
        let hard = path.is_some() && simrt::fs::handle().hard_errors > 0;
        simrt::fs::set_plan(FaultPlan::default());
        let got = match got {
            Ok(g) => g,
            Err(p) => {
                let at = simrt::take_panics().last().map(|x| x.1.clone()).unwrap_or_default();
                let loc = at.rsplit(" @ ").next().unwrap_or("").to_string();
                if by_mshio.is_none() && loc.contains("mshio") {
                    // the parser of the third party gives up with a panic, for the reference as well
                    let site = loc.rsplit("mshio-").next().unwrap_or("").replace(['/', ':'], "-");
                    simrt::fail(&format!("msh-parser-panic-{}", site), &at);
                }
                simrt::fail("msh-load-panics", &format!("{} ({})", payload(&*p), at))
            }
        };
        if hard {
            simrt::probe(7);
            ensure!(got.is_err(), "msh-io-error-lost", "a read or open failed but loading returned a mesh; {:?}", simrt::fs::handle().log);
        }
        if c.source >= 2 {
            ensure!(got.is_err(), "msh-no-file", "loading something that is not a file returned a mesh");
        }
        match &got {
            Ok(_) => simrt::probe(0),
            Err(_) => simrt::probe(1),
        }
        if hard || c.source >= 2 {
            return;
        }
        let check = |w: &Want, who: &str| match (w, &got) {
            (Want::Error(e), Ok(g)) => simrt::fail("msh-bad-file-accepted", &format!("{}: {}, but loading gave {} vertices and {} elements", who, e, g.vertices.len(), g.cells.len())),
            (Want::Error(_), Err(_)) | (Want::Either(_), Err(_)) => {}
            (Want::Mesh(_), Err(e)) => simrt::fail("msh-good-file-rejected", &format!("{}: {:#}", who, e)),
            (Want::Mesh(w), Ok(g)) | (Want::Either(w), Ok(g)) => {
                let w = view(w, c.target, c.f32s);
                if !equal(&w, g) {
                    if permuted && who == "file" && !by_bytes {
                        if let Some(Want::Mesh(b) | Want::Either(b)) = &by_mshio {
                            if equal(&view(b, c.target, c.f32s), g) {
                                simrt::fail("msh-node-tag-order", "node tags that are not in ascending order are ignored: the mesh is wrong");
                            }
                        }
                    }
                    simrt::fail("msh-wrong-mesh", &format!("{}: {} vertices and {} elements, expected {} and {}; first difference at vertex {:?}, element {:?}", who, g.vertices.len(), g.cells.len(), w.vertices.len(), w.cells.len(), g.vertices.iter().zip(&w.vertices).position(|(a, b)| a != b), g.cells.iter().zip(&w.cells).position(|(a, b)| a != b)))
                }
            }
        };
        if let Some(w) = &by_mshio {
            if !c.flips.is_empty() && matches!(w, Want::Mesh(_)) {
                simrt::probe(9);
            }
        }
        if !by_bytes {
            check(&want, "file");
        }
        if let Some(w) = &by_mshio {
            check(w, "bytes");
        }
    }
}

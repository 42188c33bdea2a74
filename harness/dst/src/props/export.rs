//! I02: VTK export. I03: matrix and connectivity dumps. Both onto a disk that fails, and read back by own readers.
use crate::common::*;
use crate::driver::*;
use crate::ensure;
use fenris::connectivity::*;
use fenris::io::vtk::{FiniteElementMeshDataSetBuilder, VtkCellConnectivity};
use fenris::mesh::Mesh;
use fenris::nalgebra::{allocator::Allocator, DMatrix, DMatrixView, DefaultAllocator, DimName, OPoint, U1, U2, U3};
use fenris::util::*;
use nalgebra_sparse::{pattern::SparsityPattern, CsrMatrix};
use serde::{Deserialize, Serialize};
use simrt::fs::FaultPlan;
use simrt::rng::{mix, Rng};
use std::collections::BTreeSet;

const REAL: &str = "fenris: io::vtk, util::dump_*, mesh connectivity and parallel pattern assembly behind dump_mesh_connectivity_matrices; vtkio writer, std::fs, rayon, std (all unmodified)";
const STUB: &str = "disk: an in-memory file system behind libc whose faults the seed decides; the readers of .vtk, .vtu, MatrixMarket and plain matrix files are the scenario's own";

pub fn entries() -> Vec<Entry> {
    vec![
        Entry {
            id: "I02", quick_runs: 40000, thorough_runs: 2000000, gen: gen_of::<I02>, run: run_of::<I02>, valid: valid_of::<I02>,
            rule: "One case: a mesh of one of thirteen cell types (also without cells or points), 0-4 attributes of ten number types, .vtk or .vtu, a path (missing parents, existing file, directory, unknown extension), and a disk with short writes, EINTR, EIO, ENOSPC after any number of bytes, failing open/mkdir/stat. Non-trivial: a fault or an attribute.",
            real: REAL, stub: STUB,
            probes: &["exported", "failed", "disk full", "short or interrupted writes", "one operation failed for good", "no cells", "with attributes", "parents created", "file existed", "vtu"][..],
        },
        Entry {
            id: "I03", quick_runs: 40000, thorough_runs: 2000000, gen: gen_of::<I03>, run: run_of::<I03>, valid: valid_of::<I03>,
            rule: "One case: a dense matrix, a CSR matrix, or a mesh (pattern assembly on a pool of 1-8 threads), number type, and a disk with short writes, EINTR, EIO, ENOSPC after any number of bytes, failing opens. Non-trivial: a fault, or a mesh on more than one thread.",
            real: REAL, stub: STUB,
            probes: &["written", "failed", "disk full", "dense matrix", "CSR matrix", "mesh", "no rows or no columns", "second file failed", "file existed"][..],
        },
    ]
}

// ------------------------------------------------------------------------------------------------ faults
#[derive(Serialize, Deserialize, Clone)]
pub struct Disk {
    p_short: u64,
    p_eintr: u64,
    p_eio: u64,
    p_open: u64,
    p_mkdir: u64,
    p_stat: u64,
    p_close: u64,
    /// 0 or 1 entry
    capacity: Vec<u64>,
    fail_at: Vec<u64>,
    nospc: bool,
}
impl Disk {
    fn gen(r: &mut Rng, bytes: u64, ops: u64) -> Disk {
        let faults = r.chance(3, 4);
        let p = |r: &mut Rng, hi: u64| if faults && r.chance(1, 3) { r.below(hi) } else { 0 };
        Disk {
            p_short: p(r, 60000),
            p_eintr: p(r, 30000),
            p_eio: p(r, 8000),
            p_open: p(r, 8000),
            p_mkdir: p(r, 8000),
            p_stat: p(r, 8000),
            p_close: p(r, 30000),
            capacity: if faults && r.chance(1, 3) { vec![r.below(bytes)] } else { vec![] },
            fail_at: if faults && r.chance(1, 4) { vec![r.below(ops)] } else { vec![] },
            nospc: r.chance(1, 2),
        }
    }
    fn ok(&self) -> bool {
        [self.p_short, self.p_eio, self.p_open, self.p_mkdir, self.p_stat, self.p_close].iter().all(|&p| p <= 60000) && self.p_eintr <= 40000 && self.capacity.len() < 2 && self.fail_at.len() < 2
    }
    fn set(&self) {
        if self.capacity.len() + self.fail_at.len() > 0 || self.p_short + self.p_eintr + self.p_eio + self.p_open + self.p_mkdir + self.p_stat > 0 {
            nontrivial();
        }
        simrt::fs::handle().used = 0;
        simrt::fs::set_plan(FaultPlan {
            p_short: self.p_short,
            p_eintr: self.p_eintr,
            p_eio_write: self.p_eio,
            p_open: self.p_open,
            p_mkdir: self.p_mkdir,
            p_stat: self.p_stat,
            p_close: self.p_close,
            capacity: self.capacity.first().map(|&k| k as usize),
            fail_at: self.fail_at.first().map(|&k| (k, if self.nospc { libc::ENOSPC } else { libc::EIO })),
            ..Default::default()
        });
    }
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned()
}

// ------------------------------------------------------------------------------------------------ I02: reading back
/// An array as it stands in the file: number type, components, values in big-endian bytes.
#[derive(Clone, Debug, PartialEq)]
pub(super) struct Arr {
    pub place: &'static str,
    pub name: String,
    pub ty: &'static str,
    pub comps: usize,
    pub bytes: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub(super) struct Ds {
    pub title: Option<String>,
    pub points: Arr,
    pub cells: Vec<(u8, Vec<u64>)>,
    pub attrs: Vec<Arr>,
}
fn width(ty: &str) -> usize {
    match ty {
        "f64" | "i64" | "u64" => 8,
        "f32" | "i32" | "u32" => 4,
        "i16" | "u16" => 2,
        _ => 1,
    }
}
fn legacy_type(s: &str) -> Option<&'static str> {
    Some(match s {
        "unsigned_char" => "u8",
        "char" => "i8",
        "unsigned_short" => "u16",
        "short" => "i16",
        "unsigned_int" => "u32",
        "int" => "i32",
        "unsigned_long" | "vtktypeuint64" => "u64",
        "long" | "vtktypeint64" => "i64",
        "float" => "f32",
        "double" => "f64",
        _ => return None,
    })
}
struct Cur<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> Cur<'a> {
    fn line(&mut self) -> Result<String, String> {
        let rest = &self.b[self.at..];
        let n = rest.iter().position(|&c| c == b'\n').ok_or_else(|| format!("file ends in a line at {}", self.at))?;
        self.at += n + 1;
        String::from_utf8(rest[..n].to_vec()).map_err(|_| "text expected".into())
    }
    /// next line that is not empty; None at the end
    fn word_line(&mut self) -> Result<Option<Vec<String>>, String> {
        loop {
            if self.at == self.b.len() {
                return Ok(None);
            }
            let l = self.line()?;
            let w: Vec<String> = l.split_whitespace().map(|s| s.to_string()).collect();
            if !w.is_empty() {
                return Ok(Some(w));
            }
        }
    }
    fn need(&mut self) -> Result<Vec<String>, String> {
        self.word_line()?.ok_or_else(|| "file ends early".to_string())
    }
    fn data(&mut self, n: usize) -> Result<Vec<u8>, String> {
        if self.b.len() < self.at + n + 1 {
            return Err(format!("{} bytes of data at {} expected, file ends at {}", n, self.at, self.b.len()));
        }
        let d = self.b[self.at..self.at + n].to_vec();
        self.at += n;
        if self.b[self.at] != b'\n' {
            return Err(format!("no line break after data at {}", self.at));
        }
        self.at += 1;
        Ok(d)
    }
}
fn num_of(s: &str) -> Result<usize, String> {
    s.parse().map_err(|_| format!("number expected, found {:?}", s))
}
pub(super) fn read_vtk(b: &[u8]) -> Result<Ds, String> {
    let mut c = Cur { b, at: 0 };
    let l = c.line()?;
    if !l.starts_with("# vtk DataFile Version ") {
        return Err(format!("first line {:?}", l));
    }
    let title = c.line()?;
    if c.need()? != ["BINARY"] {
        return Err("not BINARY".into());
    }
    if c.need()? != ["DATASET", "UNSTRUCTURED_GRID"] {
        return Err("not an UNSTRUCTURED_GRID".into());
    }
    let w = c.need()?;
    if w.len() != 3 || w[0] != "POINTS" {
        return Err("POINTS expected".into());
    }
    let np = num_of(&w[1])?;
    let ty = legacy_type(&w[2]).ok_or("type of points")?;
    let bytes = c.data(np * 3 * width(ty))?;
    let points = Arr { place: "points", name: String::new(), ty, comps: 3, bytes };
    let w = c.need()?;
    if w.len() != 3 || w[0] != "CELLS" {
        return Err(format!("CELLS expected, found {:?}", w));
    }
    let (nc, size) = (num_of(&w[1])?, num_of(&w[2])?);
    let d = c.data(size * 4)?;
    let v: Vec<u64> = d.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap()) as u64).collect();
    let mut cells = Vec::new();
    let mut at = 0;
    while at < v.len() {
        let k = v[at] as usize;
        if at + k >= v.len() {
            return Err("cell list ends within a cell".into());
        }
        cells.push((0, v[at + 1..at + 1 + k].to_vec()));
        at += k + 1;
    }
    if cells.len() != nc {
        return Err(format!("{} cells declared, {} listed", nc, cells.len()));
    }
    let w = c.need()?;
    if w.len() != 2 || w[0] != "CELL_TYPES" || num_of(&w[1])? != nc {
        return Err(format!("CELL_TYPES {} expected, found {:?}", nc, w));
    }
    let d = c.data(nc * 4)?;
    for (i, x) in d.chunks(4).enumerate() {
        cells[i].0 = u8::try_from(i32::from_be_bytes(x.try_into().unwrap())).map_err(|_| "cell type")?;
    }
    let mut attrs = Vec::new();
    let mut place = "";
    let mut count = 0;
    let mut seen = BTreeSet::new();
    while let Some(w) = c.word_line()? {
        match w[0].as_str() {
            "POINT_DATA" | "CELL_DATA" => {
                place = if w[0] == "POINT_DATA" { "point" } else { "cell" };
                seen.insert(place);
                count = num_of(&w[1])?;
                let is = if place == "point" { np } else { nc };
                if count != is {
                    return Err(format!("{} for {} of {}", w[0], count, is));
                }
            }
            "SCALARS" if w.len() >= 3 => {
                let ty = legacy_type(&w[2]).ok_or("type of scalars")?;
                let comps = if w.len() > 3 { num_of(&w[3])? } else { 1 };
                if c.need()?[0] != "LOOKUP_TABLE" {
                    return Err("LOOKUP_TABLE expected".into());
                }
                attrs.push(Arr { place, name: w[1].clone(), ty, comps, bytes: c.data(count * comps * width(ty))? });
            }
            "VECTORS" if w.len() == 3 => {
                let ty = legacy_type(&w[2]).ok_or("type of vectors")?;
                attrs.push(Arr { place, name: w[1].clone(), ty, comps: 3, bytes: c.data(count * 3 * width(ty))? });
            }
            _ => return Err(format!("unexpected {:?}", w)),
        }
    }
    if seen.len() != 2 {
        return Err("POINT_DATA or CELL_DATA missing".into());
    }
    Ok(Ds { title: Some(title), points, cells, attrs })
}
fn base64(s: &str) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut acc = 0u32;
    let mut bits = 0;
    let mut n = 0;
    for c in s.bytes().filter(|c| !c.is_ascii_whitespace()) {
        n += 1;
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            b'=' => continue,
            _ => return Err(format!("byte {} in base64", c)),
        };
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
    }
    if n % 4 != 0 {
        return Err("base64 cut off".into());
    }
    Ok(out)
}
fn xml_type(s: &str) -> Option<&'static str> {
    Some(match s {
        "UInt8" => "u8",
        "Int8" => "i8",
        "UInt16" => "u16",
        "Int16" => "i16",
        "UInt32" => "u32",
        "Int32" => "i32",
        "UInt64" => "u64",
        "Int64" => "i64",
        "Float32" => "f32",
        "Float64" => "f64",
        _ => return None,
    })
}
fn attr<'a>(tag: &'a str, key: &str) -> Option<&'a str> {
    let k = format!(" {}=\"", key);
    let i = tag.find(&k)? + k.len();
    let e = tag[i..].find('"')?;
    Some(&tag[i..i + e])
}
fn to_u64(a: &Arr) -> Vec<u64> {
    a.bytes.chunks(width(a.ty)).map(|c| c.iter().fold(0u64, |x, &b| x << 8 | b as u64)).collect()
}
pub(super) fn read_vtu(b: &[u8]) -> Result<Ds, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not text")?;
    let mut stack: Vec<String> = Vec::new();
    let mut at = 0;
    let (mut big, mut head) = (true, 4);
    let (mut np, mut nc) = (None, None);
    let mut arrays: Vec<Arr> = Vec::new();
    let mut closed_root = false;
    while let Some(i) = s[at..].find('<') {
        let start = at + i;
        let end = start + s[start..].find('>').ok_or("file ends in a tag")?;
        let tag = &s[start + 1..end];
        let next = end + 1;
        at = next;
        if tag.starts_with('?') || tag.starts_with('!') {
            continue;
        }
        if let Some(n) = tag.strip_prefix('/') {
            if stack.pop().as_deref() != Some(n.trim()) {
                return Err(format!("closing {:?} does not match", n));
            }
            closed_root = stack.is_empty();
            continue;
        }
        if closed_root {
            return Err("content after the end".into());
        }
        let empty = tag.ends_with('/');
        let name = tag.trim_end_matches('/').split_whitespace().next().unwrap_or("").to_string();
        match name.as_str() {
            "VTKFile" => {
                if attr(tag, "type") != Some("UnstructuredGrid") {
                    return Err("not an UnstructuredGrid".into());
                }
                big = attr(tag, "byte_order") == Some("BigEndian");
                head = if attr(tag, "header_type") == Some("UInt64") { 8 } else { 4 };
                if attr(tag, "compressor").map_or(false, |c| !c.is_empty()) {
                    return Err("compressed".into());
                }
            }
            "Piece" => {
                np = Some(attr(tag, "NumberOfPoints").map_or(Ok(0), num_of)?);
                nc = Some(attr(tag, "NumberOfCells").map_or(Ok(0), num_of)?);
            }
            "DataArray" => {
                let place = match stack.last().map(|s| s.as_str()) {
                    Some("Points") => "points",
                    Some("Cells") => "cells",
                    Some("PointData") => "point",
                    Some("CellData") => "cell",
                    o => return Err(format!("DataArray in {:?}", o)),
                };
                let ty = xml_type(attr(tag, "type").ok_or("type")?).ok_or("type")?;
                let comps = attr(tag, "NumberOfComponents").map_or(Ok(1), num_of)?;
                let text = if empty { "" } else { &s[next..next + s[next..].find('<').ok_or("file ends in data")?] };
                if attr(tag, "format") != Some("binary") {
                    return Err("format".into());
                }
                let mut d = base64(text)?;
                if d.len() < head {
                    if d.is_empty() {
                        d = vec![0; head];
                    } else {
                        return Err("data without a header".into());
                    }
                }
                let h: Vec<u8> = if big { d[..head].to_vec() } else { d[..head].iter().rev().copied().collect() };
                let n = h.iter().fold(0usize, |x, &b| x << 8 | b as usize);
                let mut bytes = d[head..].to_vec();
                if bytes.len() != n {
                    return Err(format!("{} bytes declared, {} there", n, bytes.len()));
                }
                if !big {
                    for c in bytes.chunks_mut(width(ty)) {
                        c.reverse();
                    }
                }
                arrays.push(Arr { place, name: attr(tag, "Name").unwrap_or("").to_string(), ty, comps, bytes });
            }
            _ => {}
        }
        if !empty {
            stack.push(name);
        }
    }
    if !closed_root {
        return Err("file ends before the closing tag".into());
    }
    if !s[at..].trim().is_empty() {
        return Err("text after the end".into());
    }
    let (np, nc) = (np.ok_or("no Piece")?, nc.ok_or("no Piece")?);
    let mut points = None;
    let (mut conn, mut offs, mut types) = (None, None, None);
    let mut attrs = Vec::new();
    for a in arrays {
        match (a.place, a.name.as_str()) {
            ("points", _) => points = Some(Arr { name: String::new(), ..a }),
            ("cells", "connectivity") => conn = Some(to_u64(&a)),
            ("cells", "offsets") => offs = Some(to_u64(&a)),
            ("cells", "types") => types = Some(to_u64(&a)),
            ("cells", n) => return Err(format!("cells array {:?}", n)),
            (p, _) => {
                let is = if p == "point" { np } else { nc };
                if a.bytes.len() != is * a.comps * width(a.ty) {
                    return Err(format!("array {:?} has {} bytes for {} items", a.name, a.bytes.len(), is));
                }
                attrs.push(a)
            }
        }
    }
    let points = points.ok_or("no points")?;
    if points.bytes.len() != np * 3 * width(points.ty) {
        return Err("wrong number of points".into());
    }
    let (conn, offs, types) = (conn.ok_or("no connectivity")?, offs.ok_or("no offsets")?, types.ok_or("no types")?);
    if offs.len() != nc || types.len() != nc || offs.last().copied().unwrap_or(0) as usize != conn.len() {
        return Err(format!("{} cells, {} offsets, {} types, {} indices", nc, offs.len(), types.len(), conn.len()));
    }
    let mut cells = Vec::new();
    let mut from = 0;
    for (o, t) in offs.iter().zip(&types) {
        let o = *o as usize;
        if o < from || o > conn.len() {
            return Err("offsets".into());
        }
        cells.push((*t as u8, conn[from..o].to_vec()));
        from = o;
    }
    Ok(Ds { title: None, points, cells, attrs })
}

// ------------------------------------------------------------------------------------------------ I02: the mesh
/// nodes, dimension, VTK cell types that describe it, order of the nodes in VTK
fn cell_model(kind: usize) -> (usize, usize, &'static [u8], Vec<usize>) {
    let id = |n: usize| (0..n).collect::<Vec<_>>();
    // edges of the hexahedron by end points, in fenris' order of the nodes 8-19 and in VTK's
    let fe = [(0, 1), (0, 3), (0, 4), (1, 2), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 7), (5, 6), (6, 7)];
    let ve = [(0, 1), (1, 2), (2, 3), (0, 3), (4, 5), (5, 6), (6, 7), (4, 7), (0, 4), (1, 5), (2, 6), (3, 7)];
    let hex20 = || (0..8).chain(ve.iter().map(|e| 8 + fe.iter().position(|f| f == e).unwrap())).collect::<Vec<_>>();
    match kind {
        0 => (2, 2, &[3], id(2)),
        1 => (2, 3, &[3], id(2)),
        2 => (3, 2, &[5], id(3)),
        3 => (6, 2, &[22], id(6)),
        4 => (4, 2, &[9], id(4)),
        5 => (9, 2, &[23, 28], id(9)),
        6 => (4, 3, &[10], id(4)),
        7 => (8, 3, &[12], id(8)),
        8 => (3, 3, &[5], id(3)),
        9 => (10, 3, &[24], vec![0, 1, 2, 3, 4, 5, 6, 7, 9, 8]),
        10 => (20, 3, &[10], id(4)),
        11 => (20, 3, &[25], hex20()),
        _ => (27, 3, &[25], hex20()),
    }
}
#[derive(Serialize, Deserialize, Clone)]
pub struct At {
    /// 0 scalars at points, 1 vectors at points, 2 scalars at cells
    kind: u8,
    ty: u8,
    comps: usize,
}
#[derive(Serialize, Deserialize)]
pub struct I02Case {
    kind: usize,
    f32s: bool,
    points: usize,
    cells: usize,
    salt: u64,
    attrs: Vec<At>,
    title: Vec<u8>,
    vtu: bool,
    /// 0 plain, 1 two missing parents, 2 existing file, 3 existing longer file, 4 a directory, 5 parent is a file, 6 unknown extension
    place: u8,
    disk: Disk,
    /// exported a second time to the same path, after the faults are gone
    again: bool,
}
fn fval(h: u64) -> f64 {
    match h % 8 {
        0 => 0.0,
        1 => -1.5,
        2 => f64::from_bits(0x3ff0000000000000 | (h >> 12)),
        3 => -f64::from_bits(0x4050000000000000 | (h >> 12)),
        4 => 1e-310,
        5 => 1e300,
        6 => ((h >> 30) % 1000) as f64,
        _ => (h >> 11) as f64 * 1e-9,
    }
}
const TYPES: [&str; 10] = ["f64", "f32", "i32", "u32", "i64", "u64", "u8", "i8", "u16", "i16"];
/// the value as big-endian bytes
fn vbytes(ty: &str, h: u64) -> Vec<u8> {
    match ty {
        "f64" => fval(h).to_be_bytes().to_vec(),
        "f32" => (fval(h) as f32).to_be_bytes().to_vec(),
        _ => h.to_be_bytes()[8 - width(ty)..].to_vec(),
    }
}
fn go<T, D: DimName, C: VtkCellConnectivity>(c: &I02Case, make: impl Fn(&[usize]) -> C, conv: impl Fn(f64) -> T, path: &str) -> Result<(), String>
where
    T: fenris::Real + fenris::nalgebra::Scalar + num_traits::ToPrimitive,
    DefaultAllocator: Allocator<T, D>,
{
    let mesh: Mesh<T, D, C> = simrt::quiet(|| {
        let (nn, ..) = cell_model(c.kind);
        let vs = (0..c.points).map(|i| OPoint::<T, D>::from(fenris::nalgebra::OVector::<T, D>::from_fn(|k, _| conv(fval(mix(c.salt, (3 * i + k) as u64)))))).collect();
        let cs = (0..c.cells).map(|e| make(&(0..nn).map(|k| node(c, e, k)).collect::<Vec<_>>())).collect();
        Mesh::from_vertices_and_connectivity(vs, cs)
    });
    let mut b = FiniteElementMeshDataSetBuilder::from_mesh(&mesh);
    if !c.title.is_empty() {
        b = b.with_title(title(c));
    }
    for (i, a) in c.attrs.iter().enumerate() {
        let items = if a.kind == 2 { c.cells } else { c.points };
        macro_rules! add {
            ($t:ty, $f:expr) => {{
                let v: Vec<$t> = (0..items * a.comps).map(|k| $f(mix(c.salt ^ 0xa77, (i * 100000 + k) as u64))).collect();
                match a.kind {
                    0 => b.with_point_scalar_attributes(format!("a{}", i), a.comps, &v),
                    1 => b.with_point_vector_attributes(format!("a{}", i), a.comps, &v),
                    _ => b.with_cell_scalar_attributes(format!("a{}", i), a.comps, &v),
                }
            }};
        }
        b = match a.ty {
            0 => add!(f64, fval),
            1 => add!(f32, |h| fval(h) as f32),
            2 => add!(i32, |h: u64| h as i32),
            3 => add!(u32, |h: u64| h as u32),
            4 => add!(i64, |h: u64| h as i64),
            5 => add!(u64, |h: u64| h),
            6 => add!(u8, |h: u64| h as u8),
            7 => add!(i8, |h: u64| h as i8),
            8 => add!(u16, |h: u64| h as u16),
            _ => add!(i16, |h: u64| h as i16),
        };
    }
    lib_call();
    b.try_export(path).map_err(|e| format!("{:#}", e))
}
fn title(c: &I02Case) -> String {
    c.title.iter().map(|&x| (b'a' + x % 26) as char).collect()
}
fn node(c: &I02Case, e: usize, k: usize) -> usize {
    (mix(c.salt ^ 0xce11, (e * 32 + k) as u64) % c.points as u64) as usize
}
fn export(c: &I02Case, path: &str) -> Result<(), String> {
    fn arr<const N: usize>(v: &[usize]) -> [usize; N] {
        v.try_into().unwrap()
    }
    macro_rules! by {
        ($($k:literal => $d:ty, $t:ident;)*) => {
            match (c.kind, c.f32s) {
                $(($k, true) => go::<f32, $d, $t>(c, |v| $t(arr(v)), |x| x as f32, path),
                  ($k, false) => go::<f64, $d, $t>(c, |v| $t(arr(v)), |x| x, path),)*
                _ => unreachable!(),
            }
        };
    }
    by! {
        0 => U2, Segment2d2Connectivity; 1 => U3, Segment2d3Connectivity; 2 => U2, Tri3d2Connectivity; 3 => U2, Tri6d2Connectivity;
        4 => U2, Quad4d2Connectivity; 5 => U2, Quad9d2Connectivity; 6 => U3, Tet4Connectivity; 7 => U3, Hex8Connectivity;
        8 => U3, Tri3d3Connectivity; 9 => U3, Tet10Connectivity; 10 => U3, Tet20Connectivity; 11 => U3, Hex20Connectivity; 12 => U3, Hex27Connectivity;
    }
}
fn expected(c: &I02Case, stem: &str) -> Ds {
    let (_, dim, types, order) = cell_model(c.kind);
    let ty = if c.f32s { "f32" } else { "f64" };
    let mut pb = Vec::new();
    for i in 0..c.points {
        for k in 0..3 {
            let h = mix(c.salt, (3 * i + k) as u64);
            let x = if k < dim { fval(h) } else { 0.0 };
            if c.f32s {
                pb.extend((x as f32).to_be_bytes())
            } else {
                pb.extend(x.to_be_bytes())
            }
        }
    }
    let cells = (0..c.cells).map(|e| (types[0], order.iter().map(|&k| node(c, e, k) as u64).collect())).collect();
    let mut attrs: Vec<Arr> = Vec::new();
    for pass in 0..2 {
        for (i, a) in c.attrs.iter().enumerate() {
            if (a.kind == 2) != (pass == 1) {
                continue;
            }
            let items = if a.kind == 2 { c.cells } else { c.points };
            let ty = TYPES[a.ty as usize];
            let mut bytes = Vec::new();
            for it in 0..items {
                for k in 0..a.comps {
                    bytes.extend(vbytes(ty, mix(c.salt ^ 0xa77, (i * 100000 + it * a.comps + k) as u64)));
                }
                if a.kind == 1 {
                    for _ in a.comps..3 {
                        bytes.extend(vec![0; width(ty)]);
                    }
                }
            }
            attrs.push(Arr { place: if a.kind == 2 { "cell" } else { "point" }, name: format!("a{}", i), ty, comps: if a.kind == 1 { 3 } else { a.comps }, bytes });
        }
    }
    Ds {
        title: if c.vtu { None } else { Some(if c.title.is_empty() { stem.to_string() } else { title(c) }) },
        points: Arr { place: "points", name: String::new(), ty, comps: 3, bytes: pb },
        cells,
        attrs,
    }
}

pub struct I02;
impl Property for I02 {
    type Case = I02Case;
    fn gen(r: &mut Rng, _: GenCtx) -> I02Case {
        let points = match r.below(8) {
            0 => 0,
            1 if r.chance(1, 20) => r.urange(600, 4000),
            1 => r.urange(100, 500),
            _ => r.urange(1, 30),
        };
        let cells = if points == 0 || r.chance(1, 10) { 0 } else if points > 90 { r.urange(50, points.max(400)) } else { r.urange(1, 20) };
        let na = if r.chance(1, 3) { 0 } else { r.urange(1, 4) };
        let attrs: Vec<At> = (0..na)
            .map(|_| {
                let kind = r.below(3) as u8;
                At { kind, ty: r.below(10) as u8, comps: if kind == 1 { r.urange(1, 3) } else { r.urange(1, 4) } }
            })
            .collect();
        let size = 200 + (points * 24 + cells * 60) as u64 * (1 + na as u64);
        I02Case {
            kind: r.usize(13),
            f32s: r.chance(1, 3),
            points,
            cells,
            salt: r.below(1 << 32),
            attrs,
            title: if r.chance(1, 3) { (0..r.urange(1, 20)).map(|_| r.below(26) as u8).collect() } else { vec![] },
            vtu: r.chance(1, 2),
            place: *r.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6]),
            disk: Disk::gen(r, size, 14),
            again: r.chance(1, 8),
        }
    }
    fn valid(c: &I02Case) -> bool {
        c.kind < 13 && c.points <= 5000 && c.cells <= 5000 && (c.points > 0 || c.cells == 0) && c.attrs.len() < 10 && c.attrs.iter().all(|a| a.kind < 3 && a.ty < 10 && a.comps >= 1 && a.comps <= if a.kind == 1 { 3 } else { 4 }) && c.place < 7 && c.disk.ok() && c.title.len() < 100
    }
    fn run(c: I02Case) {
        let ext = if c.vtu { "vtu" } else { "vtk" };
        let path = match c.place {
            1 => format!("/simfs/some/where/mesh.{}", ext),
            5 => format!("/simfs/afile/mesh.{}", ext),
            6 => "/simfs/mesh.foo".to_string(),
            _ => format!("/simfs/mesh.{}", ext),
        };
        simrt::fs::put("/simfs/afile", b"x");
        match c.place {
            2 => simrt::fs::put(&path, b"old"),
            3 => simrt::fs::put(&path, &vec![b'<'; 100000]),
            4 => simrt::fs::put_dir(&path),
            _ => {}
        }
        if c.cells == 0 {
            simrt::probe(5);
        }
        if !c.attrs.is_empty() {
            simrt::probe(6);
            nontrivial();
        }
        if c.place == 2 || c.place == 3 {
            simrt::probe(8);
        }
        if c.vtu {
            simrt::probe(9);
        }
        for round in 0..1 + c.again as u32 {
            if round == 0 {
                c.disk.set();
            } else {
                simrt::fs::set_plan(FaultPlan::default());
                simrt::fs::handle().hard_errors = 0;
            }
            let got = export(&c, &path);
            let f = simrt::fs::handle();
            let hard = f.hard_errors > 0;
            if f.enospc {
                simrt::probe(2);
            }
            if f.soft_faults > 0 {
                simrt::probe(3);
            }
            if hard && !c.disk.fail_at.is_empty() {
                simrt::probe(4);
            }
            simrt::fs::set_plan(FaultPlan::default());
            let impossible = c.place >= 4;
            match got {
                Err(e) => {
                    simrt::probe(1);
                    ensure!(hard || impossible, "export-fails-without-reason", "{}; operations {:?}", e, simrt::fs::handle().log);
                }
                Ok(()) => {
                    ensure!(!impossible, "export-to-nowhere-succeeds", "{} reported as written", path);
                    simrt::probe(0);
                    if c.place == 1 {
                        simrt::probe(7);
                    }
                    let Some(b) = simrt::fs::get(&path) else { simrt::fail("export-without-file", &format!("{} is not there; operations {:?}", path, simrt::fs::handle().log)) };
                    let ds = simrt::quiet(|| if c.vtu { read_vtu(&b) } else { read_vtk(&b) });
                    let mut ds = match ds {
                        Ok(d) => d,
                        Err(e) => simrt::fail("export-incomplete-file", &format!("reported as written, but the file of {} bytes does not read: {}; faults {}; operations {:?}; file {}", b.len(), e, hard, simrt::fs::handle().log, show(&b))),
                    };
                    let want = simrt::quiet(|| expected(&c, "mesh"));
                    let types = cell_model(c.kind).2;
                    for x in &mut ds.cells {
                        if types.contains(&x.0) {
                            x.0 = types[0];
                        }
                    }
                    ensure!(ds.title == want.title, "export-wrong-title", "{:?} instead of {:?}", ds.title, want.title);
                    ensure!(ds.points == want.points, "export-wrong-points", "type {} with {} bytes, expected {} with {}", ds.points.ty, ds.points.bytes.len(), want.points.ty, want.points.bytes.len());
                    ensure!(ds.cells == want.cells, "export-wrong-cells", "first difference at {:?}: {:?} instead of {:?}", ds.cells.iter().zip(&want.cells).position(|(a, b)| a != b), ds.cells.iter().zip(&want.cells).find(|(a, b)| a != b).map(|x| x.0), ds.cells.iter().zip(&want.cells).find(|(a, b)| a != b).map(|x| x.1));
                    let key = |a: &Arr| format!("{} {} {} {} {}", a.place, a.name, a.ty, a.comps, a.bytes.len());
                    ensure!(ds.attrs == want.attrs, "export-wrong-attributes", "{:?} instead of {:?}", ds.attrs.iter().map(key).collect::<Vec<_>>(), want.attrs.iter().map(key).collect::<Vec<_>>());
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ I03
#[derive(Serialize, Deserialize)]
pub struct I03Case {
    env: Env,
    /// 0 dense, 1 CSR, 2 mesh
    what: u8,
    /// 0 f64, 1 f32, 2 i64, 3 u32
    ty: u8,
    rows: usize,
    cols: usize,
    salt: u64,
    density: u64,
    hg: Hg,
    existing: bool,
    /// dense: a view with strides into a bigger matrix
    strided: bool,
    disk: Disk,
}
fn mm(b: &[u8]) -> Result<(usize, usize, Vec<(usize, usize, String)>), String> {
    let s = std::str::from_utf8(b).map_err(|_| "not text")?;
    if !s.ends_with('\n') {
        return Err("the last line is cut off".into());
    }
    let mut l = s.lines();
    let h: Vec<&str> = l.next().unwrap_or("").split_whitespace().collect();
    if h.len() != 5 || h[0] != "%%MatrixMarket" || h[1] != "matrix" || h[2] != "coordinate" || h[4] != "general" {
        return Err(format!("header {:?}", h));
    }
    let mut l = l.filter(|x| !x.starts_with('%') && !x.trim().is_empty());
    let d: Vec<usize> = l.next().ok_or("no sizes")?.split_whitespace().map(num_of).collect::<Result<_, _>>()?;
    if d.len() != 3 {
        return Err("sizes".into());
    }
    let mut e = Vec::new();
    for x in l {
        let w: Vec<&str> = x.split_whitespace().collect();
        if w.len() != 3 {
            return Err(format!("entry {:?}", x));
        }
        let (i, j) = (num_of(w[0])?, num_of(w[1])?);
        if i == 0 || j == 0 || i > d[0] || j > d[1] {
            return Err(format!("entry {:?} outside of {} x {}", x, d[0], d[1]));
        }
        e.push((i - 1, j - 1, w[2].to_string()));
    }
    if e.len() != d[2] {
        return Err(format!("{} entries declared, {} there", d[2], e.len()));
    }
    Ok((d[0], d[1], e))
}
fn dense(b: &[u8]) -> Result<Vec<Vec<String>>, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not text")?;
    if !s.is_empty() && !s.ends_with('\n') {
        return Err("the last line is cut off".into());
    }
    Ok(s.lines().map(|l| l.split_whitespace().map(|x| x.to_string()).collect()).collect())
}
/// value of an entry by type, and whether a text denotes it
trait Entryish: fenris::nalgebra::Scalar + std::fmt::Display + std::fmt::LowerExp {
    fn of(h: u64) -> Self;
    fn is(&self, s: &str) -> bool;
}
impl Entryish for f64 {
    fn of(h: u64) -> f64 {
        match h % 23 {
            0 => f64::INFINITY,
            1 => f64::NAN,
            2 => f64::MAX,
            3 => f64::MIN_POSITIVE / 3.0,
            4 => -0.0,
            5 => f64::from_bits(h) .abs().min(f64::MAX),
            _ => fval(h >> 5),
        }
    }
    fn is(&self, s: &str) -> bool {
        s.parse::<f64>().map_or(false, |x| x == *self || x.is_nan() && self.is_nan())
    }
}
impl Entryish for f32 {
    fn of(h: u64) -> f32 {
        match h % 23 {
            0 => f32::INFINITY,
            1 => f32::NAN,
            2 => f32::MAX,
            3 => f32::MIN_POSITIVE / 3.0,
            _ => fval(h >> 5) as f32,
        }
    }
    fn is(&self, s: &str) -> bool {
        s.parse::<f32>().map_or(false, |x| x == *self || x.is_nan() && self.is_nan())
    }
}
/// exact reading of an integer that may be written with an exponent
fn int_of(s: &str) -> Option<i128> {
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], s[i + 1..].parse::<u32>().ok()?),
        None => (s, 0),
    };
    let (m, frac) = match m.find('.') {
        Some(i) => (format!("{}{}", &m[..i], &m[i + 1..]), (m.len() - i - 1) as u32),
        None => (m.to_string(), 0),
    };
    if frac > e {
        return None;
    }
    m.parse::<i128>().ok()?.checked_mul(10i128.checked_pow(e - frac)?)
}
impl Entryish for i64 {
    fn of(h: u64) -> i64 {
        match h % 4 {
            0 => h as i64,
            1 => 0,
            _ => (h >> 50) as i64 - 4000,
        }
    }
    fn is(&self, s: &str) -> bool {
        int_of(s) == Some(*self as i128)
    }
}
impl Entryish for u32 {
    fn of(h: u64) -> u32 {
        (h >> (h % 32)) as u32
    }
    fn is(&self, s: &str) -> bool {
        int_of(s) == Some(*self as i128)
    }
}
/// What the file at `path` must be if the dump succeeded
fn check_dense<T: Entryish>(c: &I03Case, m: &DMatrix<T>, path: &str, got: Result<(), String>) {
    let hard = simrt::fs::handle().hard_errors > 0;
    verdict(got, hard, || {
        let b = simrt::fs::get(path).ok_or("there is no file")?;
        let d = dense(&b)?;
        if d.len() != c.rows || d.iter().any(|r| r.len() != c.cols) {
            return Err(format!("{} rows of {:?} entries instead of {} x {}; file {:?}", d.len(), d.first().map(|r| r.len()), c.rows, c.cols, show(&b)));
        }
        for i in 0..c.rows {
            for j in 0..c.cols {
                if !m[(i, j)].is(&d[i][j]) {
                    return Err(format!("entry ({}, {}) is written as {} instead of {}", i, j, d[i][j], m[(i, j)]));
                }
            }
        }
        Ok(())
    });
}
fn verdict(got: Result<(), String>, hard: bool, check: impl FnOnce() -> Result<(), String>) {
    if simrt::fs::handle().enospc {
        simrt::probe(2);
    }
    simrt::fs::set_plan(FaultPlan::default());
    match got {
        Err(e) => {
            simrt::probe(1);
            ensure!(hard, "dump-fails-without-reason", "{}; operations {:?}", e, simrt::fs::handle().log);
        }
        Ok(()) => {
            simrt::probe(0);
            if let Err(e) = simrt::quiet(check) {
                simrt::fail(if hard { "dump-io-error-lost" } else { "dump-wrong-file" }, &format!("{}; operations {:?}", e, simrt::fs::handle().log));
            }
        }
    }
}
fn run_matrix<T: Entryish>(c: &I03Case) {
    let path = "/simfs/matrix";
    if c.what == 0 {
        simrt::probe(3);
        let pad = if c.strided { 2 } else { 0 };
        let big = simrt::quiet(|| DMatrix::<T>::from_fn(c.rows + pad, c.cols, |i, j| T::of(mix(c.salt, (i * 1000 + j) as u64))));
        let m = simrt::quiet(|| big.view((pad / 2, 0), (c.rows, c.cols)).into_owned());
        c.disk.set();
        lib_call();
        let got = if c.strided {
            // a view whose columns are not contiguous cannot be passed as DMatrixView; its owned copy can
            dump_matrix_to_file(path, DMatrixView::from(&m)).map_err(|e| e.to_string())
        } else {
            dump_matrix_to_file(path, &m).map_err(|e| e.to_string())
        };
        check_dense(c, &m, path, got);
    } else {
        simrt::probe(4);
        let (m, want) = simrt::quiet(|| {
            let (mut offs, mut idx, mut val, mut want) = (vec![0], vec![], vec![], vec![]);
            for i in 0..c.rows {
                for j in 0..c.cols {
                    let h = mix(c.salt ^ 0x5ba, (i * 1000 + j) as u64);
                    if h % 65536 < c.density {
                        idx.push(j);
                        let v = T::of(mix(c.salt, (i * 1000 + j) as u64));
                        want.push((i, j, v.clone()));
                        val.push(v);
                    }
                }
                offs.push(idx.len());
            }
            let p = SparsityPattern::try_from_offsets_and_indices(c.rows, c.cols, offs, idx).unwrap();
            (CsrMatrix::try_from_pattern_and_values(p, val).unwrap(), want)
        });
        c.disk.set();
        lib_call();
        let got = dump_csr_matrix_to_mm_file(path, &m).map_err(|e| e.to_string());
        let hard = simrt::fs::handle().hard_errors > 0;
        verdict(got, hard, || {
            let b = simrt::fs::get(path).ok_or("there is no file")?;
            let (r, cc, e) = mm(&b)?;
            if (r, cc, e.len()) != (c.rows, c.cols, want.len()) {
                return Err(format!("{} x {} with {} entries instead of {} x {} with {}", r, cc, e.len(), c.rows, c.cols, want.len()));
            }
            let mut e = e;
            e.sort_by_key(|x| (x.0, x.1));
            for (x, w) in e.iter().zip(&want) {
                if (x.0, x.1) != (w.0, w.1) || !w.2.is(&x.2) {
                    return Err(format!("entry ({}, {}) {} instead of ({}, {}) {}", x.0, x.1, x.2, w.0, w.1, w.2));
                }
            }
            Ok(())
        });
    }
}
#[derive(Clone, Debug)]
struct Poly(Vec<usize>);
impl Connectivity for Poly {
    type FaceConnectivity = ();
    fn num_faces(&self) -> usize {
        0
    }
    fn get_face_connectivity(&self, _: usize) -> Option<()> {
        None
    }
    fn vertex_indices(&self) -> &[usize] {
        &self.0
    }
}
fn check_pattern(b: Option<Vec<u8>>, rows: usize, cols: usize, want: &BTreeSet<(usize, usize)>) -> Result<(), String> {
    let b = b.ok_or("there is no file")?;
    let (r, c, e) = mm(&b)?;
    if (r, c) != (rows, cols) {
        return Err(format!("{} x {} instead of {} x {}", r, c, rows, cols));
    }
    let got: BTreeSet<(usize, usize)> = e.iter().map(|x| (x.0, x.1)).collect();
    if got.len() != e.len() {
        return Err("an entry is listed twice".into());
    }
    if &got != want {
        return Err(format!("{} entries instead of {}", got.len(), want.len()));
    }
    if e.iter().any(|x| x.2.parse::<f64>().map_or(true, |v| v == 0.0)) {
        return Err("an entry is zero".into());
    }
    Ok(())
}
pub struct I03;
impl Property for I03 {
    type Case = I03Case;
    fn gen(r: &mut Rng, _: GenCtx) -> I03Case {
        let what = *r.pick(&[0u8, 0, 1, 1, 2]);
        let dim = |r: &mut Rng| match r.below(8) {
            0 => 0,
            1 if r.chance(1, 20) => r.urange(100, 300),
            1 => r.urange(20, 70),
            _ => r.urange(1, 12),
        };
        let (rows, cols) = (dim(r), dim(r));
        let n = if what == 2 { elem_count(r, 40) } else { 0 };
        let hg = if what == 2 && r.chance(1, 100) { Hg { sdim: 1, ..Hg::gen_large(r, 2000, 60_000) } } else { Hg::gen_with(r, n, 1) };
        let size = 60 + match what {
            0 => (rows * cols * 12) as u64,
            1 => (rows * cols * 12) as u64,
            _ => hg.elems.len() as u64 * 60,
        };
        I03Case {
            env: Env::gen(r),
            what,
            ty: r.below(4) as u8,
            rows,
            cols,
            salt: r.below(1 << 32),
            density: *r.pick(&[0u64, 10000, 30000, 65536]),
            hg,
            existing: r.chance(1, 4),
            strided: r.chance(1, 4),
            disk: Disk::gen(r, size, 12),
        }
    }
    fn valid(c: &I03Case) -> bool {
        c.env.ok() && c.what < 3 && c.ty < 4 && c.rows <= 400 && c.cols <= 400 && c.hg.elems.len() <= 3000 && c.hg.ok() && c.disk.ok() && c.density <= 65536
    }
    fn run(c: I03Case) {
        if c.existing {
            simrt::probe(8);
            for p in ["/simfs/matrix", "/simfs/nodes", "/simfs/elements"] {
                simrt::fs::put(p, &vec![b'7'; 50000]);
            }
        }
        if c.what < 2 {
            if c.rows == 0 || c.cols == 0 {
                simrt::probe(6);
            }
            match c.ty {
                0 => run_matrix::<f64>(&c),
                1 => run_matrix::<f32>(&c),
                2 => run_matrix::<i64>(&c),
                _ => run_matrix::<u32>(&c),
            }
            return;
        }
        simrt::probe(5);
        if c.env.threads > 1 {
            nontrivial();
        }
        let mesh: Mesh<f64, U1, Poly> = simrt::quiet(|| Mesh::from_vertices_and_connectivity((0..c.hg.nodes).map(|i| OPoint::<f64, U1>::new(i as f64)).collect(), c.hg.elems.iter().map(|e| Poly(e.clone())).collect()));
        c.env.with(|| {
            c.disk.set();
            lib_call();
            let got = dump_mesh_connectivity_matrices("/simfs/nodes", "/simfs/elements", &mesh).map_err(|e| e.to_string());
            let hard = simrt::fs::handle().hard_errors > 0;
            if got.is_err() && simrt::fs::get("/simfs/elements").map_or(false, |b| b.first() != Some(&b'7')) {
                simrt::probe(7);
            }
            verdict(got, hard, || {
                let mut nn = BTreeSet::new();
                let mut en = BTreeSet::new();
                for (e, ns) in c.hg.elems.iter().enumerate() {
                    for &i in ns {
                        en.insert((e, i));
                        for &j in ns {
                            nn.insert((i, j));
                        }
                    }
                }
                check_pattern(simrt::fs::get("/simfs/nodes"), c.hg.nodes, c.hg.nodes, &nn).map_err(|e| format!("node file: {}", e))?;
                check_pattern(simrt::fs::get("/simfs/elements"), c.hg.elems.len(), c.hg.nodes, &en).map_err(|e| format!("element file: {}", e))
            });
        });
    }
}

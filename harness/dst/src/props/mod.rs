use crate::driver::Entry;
pub mod assembly;
pub mod data;
pub mod export;
pub mod history;
pub mod local;
pub mod meshes;
pub mod msh;
pub mod paradis;
pub mod pipeline;
pub mod solvers;

pub fn all() -> Vec<Entry> {
    let mut v = Vec::new();
    v.extend(assembly::entries());
    v.extend(data::entries());
    v.extend(export::entries());
    v.extend(history::entries());
    v.extend(local::entries());
    v.extend(meshes::entries());
    v.extend(msh::entries());
    v.extend(paradis::entries());
    v.extend(pipeline::entries());
    v.extend(solvers::entries());
    v
}

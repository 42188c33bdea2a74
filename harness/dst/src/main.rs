//! dst: deterministic simulation checks for fenris. See /verif/DESIGN.md.
mod common;
mod driver;
mod props;

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn main() {
    driver::main();
}

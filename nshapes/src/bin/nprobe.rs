//! the sizes of the types only: still builds where the driver no longer does
#[path = "../probe.rs"]
mod probe;
fn main() {
    println!("{}", probe::probe());
}

//! The contracts. Compiled twice by /verif/engine: with `sym` (f64 -> symbolic real: every path, every
//! input, proof) and with `real` (the repository's f64 code, sampled inputs: counterexamples).
#![allow(unused_imports, clippy::all)]
#[cfg(feature = "sym")]
mod vc {
    pub use vcx::api::*;
    pub use vcx::shim;
}
#[cfg(not(feature = "sym"))]
mod vc {
    pub use vcx::*;
}
mod util;
mod core_point;
mod core_pose;
mod core_lie;
mod pinhole;
mod geom;
mod minimal;
mod three_point;
mod epipolar;
mod optimize;
use vc::Harness;
fn main() {
    let mut hs: Vec<Harness> = vec![];
    hs.extend(core_point::table());
    hs.extend(core_pose::table());
    hs.extend(core_lie::table());
    hs.extend(pinhole::table());
    hs.extend(geom::table());
    hs.extend(minimal::table());
    hs.extend(three_point::table());
    hs.extend(epipolar::table());
    hs.extend(optimize::table());
    vc::main(&hs);
}

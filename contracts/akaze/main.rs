//! Contracts of the `akaze` crate (f32 code on images), built apart from the others: see engine/gen.py `images`.
#![allow(unused_imports, clippy::all)]
#[cfg(feature = "sym")]
mod vc {
    pub use vcx::api::*;
    pub use vcx::shim;
}
#[cfg(not(feature = "sym"))]
mod vc {
    pub use vcx::*;
}
#[path = "../util.rs"]
mod util;
mod img;
mod fed;
mod filters;
mod diffusion;
mod keypoints;
use vc::Harness;
fn main() {
    let mut hs: Vec<Harness> = vec![];
    hs.extend(fed::table());
    hs.extend(filters::table());
    hs.extend(diffusion::table());
    hs.extend(keypoints::table());
    vc::main(&hs);
}

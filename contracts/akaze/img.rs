//! Images: the numbers of the crate are f32 on the real side, symbolic reals on the proof side.
pub use crate::util::*;
pub use akaze::{evolution::EvolutionStep, image::*, Akaze, KeyPoint};
pub use image::{ImageBuffer, Luma, F};
#[cfg(feature = "sym")]
pub fn f(x: R) -> F {
    x
}
#[cfg(feature = "sym")]
pub fn r(x: F) -> R {
    x
}
#[cfg(not(feature = "sym"))]
pub fn f(x: R) -> F {
    x as f32
}
#[cfg(not(feature = "sym"))]
pub fn r(x: F) -> R {
    x as f64
}
pub fn fl(x: f64) -> F {
    f(lit(x))
}
/// any pixel value (sampled in [-2, 2], among the numbers of the type)
pub fn px(name: &str) -> R {
    r(f(any_in(name, -2.0, 2.0)))
}
/// an image as its pixels, row by row
#[derive(Clone)]
pub struct Im {
    pub w: usize,
    pub h: usize,
    pub v: Vec<R>,
}
impl Im {
    pub fn any(name: &str, w: usize, h: usize) -> Im {
        if w * h > 4000 {
            // (large images only in the runs: pixels spread by one drawn number)
            let n = pick(&format!("{}: pixels", name), 1 << 16) as u64 + 1;
            return Im::of(w, h, |x, y| {
                let z = (n << 40 | (x as u64) << 20 | y as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                let z = (z ^ z >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ z >> 32;
                r(fl((z >> 44) as f64 / 262144.0 - 2.0))
            });
        }
        Im::of(w, h, |x, y| px(&format!("{}{}_{}", name, x, y)))
    }
    pub fn of(w: usize, h: usize, g: impl Fn(usize, usize) -> R) -> Im {
        Im { w, h, v: (0..w * h).map(|i| g(i % w, i / w)).collect() }
    }
    pub fn at(&self, x: usize, y: usize) -> R {
        assert!(x < self.w && y < self.h);
        self.v[y * self.w + x]
    }
    /// outside: the nearest pixel
    pub fn near(&self, x: i64, y: i64) -> R {
        self.at(x.clamp(0, self.w as i64 - 1) as usize, y.clamp(0, self.h as i64 - 1) as usize)
    }
    pub fn code(&self) -> GrayFloatImage {
        GrayFloatImage(ImageBuffer::from_raw(self.w as u32, self.h as u32, self.v.iter().map(|x| f(*x)).collect()).unwrap())
    }
    pub fn read(i: &ImageBuffer<Luma<F>, Vec<F>>) -> Im {
        Im { w: i.width() as usize, h: i.height() as usize, v: i.as_raw().iter().map(|x| r(*x)).collect() }
    }
    /// filtered along x with one kernel and along y with the other
    pub fn filtered(&self, h: &[R], v: &[R]) -> Im {
        let a = Im::of(self.w, self.h, |x, y| (0..h.len()).fold(lit(0.0), |s, i| s + h[i] * self.near(x as i64 + i as i64 - (h.len() / 2) as i64, y as i64)));
        Im::of(self.w, self.h, |x, y| (0..v.len()).fold(lit(0.0), |s, i| s + v[i] * a.near(x as i64, y as i64 + i as i64 - (v.len() / 2) as i64)))
    }
    pub fn sum(&self) -> R {
        self.v.iter().fold(lit(0.0), |a, b| a + *b)
    }
}
pub fn ensure_image(label: &str, got: &ImageBuffer<Luma<F>, Vec<F>>, want: &Im) {
    ensure(&format!("{}: size", label), (got.width() as usize, got.height() as usize) == (want.w, want.h));
    ensure_eqs(label, &Im::read(got).v, &want.v);
}
pub fn empty() -> GrayFloatImage {
    Im { w: 0, h: 0, v: vec![] }.code()
}
pub fn step(octave: u32, sublevel: u32, esigma: f64) -> EvolutionStep {
    EvolutionStep { etime: lit(esigma * esigma / 2.0), esigma: lit(esigma), octave, sublevel, sigma_size: esigma.round() as u32, Lt: empty(), Lsmooth: empty(), Lx: empty(), Ly: empty(), Lxx: empty(), Lyy: empty(), Lxy: empty(), Lflow: empty(), Ldet: empty(), fed_tau_steps: vec![] }
}
/// one of the sizes of the proof, and in the runs of the code any size as well
pub fn size(sizes: &[(usize, usize)]) -> (usize, usize) {
    if !PROOF && pick("large", 100) == 0 {
        return (1 + pick("w - 1", 500), 1 + pick("h - 1", 500));
    }
    let k = pick("size", if PROOF { sizes.len() } else { 2 * sizes.len().max(1) });
    if k < sizes.len() {
        sizes[k]
    } else {
        (1 + pick("w - 1", 40), 1 + pick("h - 1", 40))
    }
}

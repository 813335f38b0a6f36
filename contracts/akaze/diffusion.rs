//! A03: the nonlinear scale space and the detector response.
use super::filters::{gauss, scharr};
use super::img::*;
use akaze::{contrast_factor::compute_contrast_factor, nonlinear_diffusion::*};
const STEP: &str = "akaze::nonlinear_diffusion::calculate_step";
const G2: &str = "akaze::nonlinear_diffusion::pm_g2";
const RESPONSE: &str = "akaze::Akaze::detector_response akaze::Akaze::compute_multiscale_derivatives akaze::detector_response::compute_multiscale_derivatives_for_evolution";
const CONTRAST: &str = "akaze::contrast_factor::compute_contrast_factor";
const SPACE: &str = "akaze::Akaze::create_nonlinear_scale_space";
/// one explicit step of dL = div(c grad L): what a pixel gains its neighbour loses
fn diffused(l: &Im, c: &Im, t: R) -> Im {
    Im::of(l.w, l.h, |x, y| {
        let mut v = l.at(x, y);
        for (dx, dy) in [(-1i64, 0i64), (1, 0), (0, -1), (0, 1)] {
            // (a neighbour outside is the pixel itself: no flow)
            let (i, j) = (x as i64 + dx, y as i64 + dy);
            v = v + t * (c.at(x, y) + c.near(i, j)) / lit(2.0) * (l.near(i, j) - l.at(x, y));
        }
        v
    })
}
fn conductivity(x: &Im, y: &Im, k: R) -> Im {
    Im::of(x.w, x.h, |i, j| lit(1.0) / (lit(1.0) + (x.at(i, j) * x.at(i, j) + y.at(i, j) * y.at(i, j)) / (k * k)))
}
const SIZES: [(usize, usize); 6] = [(1, 1), (1, 4), (5, 1), (2, 2), (4, 3), (3, 5)];
fn diffusion_step() {
    set_tol(1e-4);
    let (w, h) = size(&SIZES);
    let (l, c, t) = (Im::any("l", w, h), Im::any("c", w, h), px("t"));
    let mut e = step(0, 0, 2.0);
    e.Lt = l.code();
    e.Lflow = c.code();
    calculate_step(&mut e, f(t));
    ensure_image("one step of the diffusion", &e.Lt.0, &diffused(&l, &c, t));
    ensure_eq("the sum of the pixels stays", Im::read(&e.Lt.0).sum(), l.sum());
    ensure_image("the conductivities stay", &e.Lflow.0, &c);
}
fn conductivities() {
    set_tol(1e-4);
    let (w, h) = size(&SIZES);
    let (x, y, k) = (Im::any("x", w, h), Im::any("y", w, h), pos_in("k", 0.1, 3.0));
    let got = pm_g2(&x.code(), &y.code(), k);
    ensure_image("1 / (1 + |gradient|^2 / k^2)", &got.0, &conductivity(&x, &y, k));
    for v in Im::read(&got.0).v {
        ensure_pos("conductivities are positive", v);
        ensure_le("conductivities are at most one", v, lit(1.0));
    }
}
fn response() {
    set_tol(2e-2);
    let (o, s) = (pick("octave", 3) as u32, 1 + pick("scale - 1", 3));
    // round(esigma * factor / 2^octave) = s
    let esigma = (s as f64 * (1u32 << o) as f64 / 1.5 * 64.0).round() / 64.0;
    let a = Akaze { derivative_factor: lit(1.5), ..Akaze::default() };
    let im = Im::any("p", 4, 3);
    let mut e = [step(o, 0, esigma), step(o, 1, esigma - 1.0 / 64.0)];
    e[0].Lsmooth = im.code();
    e[1].Lsmooth = Im::of(2, 2, |_, _| lit(0.25)).code();
    a.detector_response(&mut e);
    let (x, y) = (scharr(&im, s, true), scharr(&im, s, false));
    let (xx, yy, xy) = (scharr(&x, s, true), scharr(&y, s, false), scharr(&x, s, false));
    ensure_image("Lx", &e[0].Lx.0, &x);
    ensure_image("Ly", &e[0].Ly.0, &y);
    ensure_image("Lxx", &e[0].Lxx.0, &xx);
    ensure_image("Lyy", &e[0].Lyy.0, &yy);
    ensure_image("Lxy", &e[0].Lxy.0, &xy);
    let s4 = lit((s * s * s * s) as f64);
    // (the smallest kernel is not normalised: its values are 1024 times larger)
    let unit = lit(if s == 1 { 1.0 / 1048576.0 } else { 1.0 });
    let want = Im::of(4, 3, |i, j| (xx.at(i, j) * yy.at(i, j) - xy.at(i, j) * xy.at(i, j)) * s4 * unit);
    ensure("size of the response", (e[0].Ldet.width(), e[0].Ldet.height()) == (4, 3));
    ensure_eqs("determinant of the Hessian, times scale^4", &Im::read(&e[0].Ldet.0).v.iter().map(|v| *v * unit).collect::<Vec<_>>(), &want.v);
    ensure_eqs("no response of a constant image", &Im::read(&e[1].Ldet.0).v, &[lit(0.0); 4]);
}
#[cfg(feature = "sym")]
fn contrast() {}
#[cfg(feature = "sym")]
fn scale_space() {}
#[cfg(not(feature = "sym"))]
fn contrast() {
    let (w, h) = (3 + pick("w", 22), 3 + pick("h", 12));
    let im = Im::any("p", w, h);
    // (a black part: its gradient is exactly zero)
    let im = if flag("flat part") { Im::of(w, h, |x, y| if x < w * 2 / 3 { 0.0 } else { im.at(x, y) }) } else { im };
    let level = if flag("black") { 0.0 } else { 0.25 };
    let im = if flag("flat") && flag("all") { Im::of(w, h, |_, _| level) } else { im };
    let (p, s, bins) = (pos_in("percentile", 0.05, 0.95), pos_in("scale", 0.5, 2.0), 1 + pick("bins", 300));
    let got = compute_contrast_factor(&im.code(), p, s, bins);
    let k = gauss(2 * (2.0 * (s as f32)).ceil() as usize + 1, s);
    let g = im.filtered(&k, &k);
    let (x, y) = (scharr(&g, 1, true), scharr(&g, 1, false));
    let mut m = vec![];
    for j in 1..h - 1 {
        for i in 1..w - 1 {
            m.push((x.at(i, j) * x.at(i, j) + y.at(i, j) * y.at(i, j)).sqrt());
        }
    }
    let top = m.iter().fold(0.0f64, |a, b| a.max(*b));
    if top < 1e-3 {
        // no gradient, up to rounding
        return ensure("no gradient: a constant or next to nothing, but not zero", got > 0.0 && (got == 0.03 || got < 1e-3));
    }
    // a gradient that is zero is left out (one that is zero up to rounding only may be)
    m.retain(|v| *v != 0.0);
    sample_if(|| m.iter().all(|v| *v > 1e-3 * top));
    let want = (m.len() as f64 * p) as usize;
    if want == 0 {
        return ensure("too few gradients: still not zero", got > 0.0);
    }
    // the first bin up to which there are that many, whatever way a gradient on the edge of a bin is rounded
    let upto = |e: f64| (0..=bins).find(|k| m.iter().filter(|v| (((**v / top + e) * bins as f64).floor().max(0.0) as usize).min(bins - 1) < *k).count() >= want).unwrap();
    let (lo, hi) = (upto(-1e-4), upto(1e-4));
    ensure("at least the percentile of the gradients", got >= top * lo as f64 / bins as f64 * (1.0 - 1e-3) - 1e-6);
    ensure("no larger than needed", got <= top * hi as f64 / bins as f64 * (1.0 + 1e-3) + 1e-6);
}
#[cfg(all(not(feature = "sym"), feature = "has_scale_space"))]
fn scale_space() {
    samples(400);
    set_tol(2e-3);
    let a = Akaze { num_sublevels: 1 + pick("sublevels", 3) as u32, max_octave_evolution: 1 + pick("octaves", 2) as u32, ..Akaze::default() };
    // the levels of the configuration, or fewer and smaller ones with any steps
    let small = pick("small", 4) > 0;
    let (w, h) = if small { (24 + pick("w", 20), 24 + pick("h", 20)) } else { (80 + pick("w", 10), 80 + pick("h", 10)) };
    let (c, d) = ((0..6).map(|i| any_in(&format!("c{}", i), -1.0, 1.0)).collect::<Vec<_>>(), (0..6).map(|i| any_in(&format!("d{}", i), 0.05, 0.7)).collect::<Vec<_>>());
    let im = Im::of(w, h, |x, y| r(f(0.5 + 0.2 * (c[0] * (x as f64 * d[0] + c[1]).sin() + c[2] * (y as f64 * d[1] + c[3]).cos() + c[4] * ((x as f64 * d[2] + y as f64 * d[3]).sin().signum()) + c[5] * (x as f64 * d[4]).sin() * (y as f64 * d[5]).sin()))));
    let mut e = if small { vec![] } else { a.allocate_evolutions(w as u32, h as u32) };
    if small {
        let mut o = 0;
        for i in 0..2 + pick("levels - 2", 4) {
            let mut l = step(o, i as u32, 1.6);
            for j in 0..if i > 0 { 1 + pick(&format!("steps{}", i), 3) } else { 0 } {
                l.fed_tau_steps.push(any_in(&format!("t{}_{}", i, j), 0.02, 0.25));
            }
            e.push(l);
            o += if o < 3 { pick(&format!("next{}", i), 2) as u32 } else { 0 };
        }
    }
    ensure("levels", !e.is_empty());
    a.create_nonlinear_scale_space(&mut e, &im.code());
    let k = gauss(9, 1.6f32 as f64);
    let base = im.filtered(&k, &k);
    ensure_image("first level: the blurred image", &e[0].Lt.0, &base);
    ensure_image("first level: smooth", &e[0].Lsmooth.0, &base);
    let mut contrast = compute_contrast_factor(&im.code(), 0.7, 1.0, 300);
    let k = gauss(5, 1.0);
    for i in 1..e.len() {
        // each level from the one before it, as it was found
        let mut l = Im::read(&e[i - 1].Lt.0);
        if e[i].octave > e[i - 1].octave {
            l = Im::read(&e[i - 1].Lt.half_size().0);
            contrast *= 0.75;
        }
        let smooth = l.filtered(&k, &k);
        ensure_image("smoothed level", &e[i].Lsmooth.0, &smooth);
        let c = conductivity(&scharr(&smooth, 1, true), &scharr(&smooth, 1, false), contrast);
        ensure_image("conductivities of the level", &e[i].Lflow.0, &c);
        let before = l.sum();
        for t in &e[i].fed_tau_steps {
            l = diffused(&l, &c, *t);
        }
        ensure_image("diffused level", &e[i].Lt.0, &l);
        ensure("diffusion keeps the sum", (Im::read(&e[i].Lt.0).sum() - before).abs() <= 1e-4 * (1.0 + before.abs()));
    }
}
pub fn table() -> Vec<Harness> {
    vec![
        hb("A03", "diffusion_step", STEP, "bounded: six image sizes, any pixels, conductivities and step", diffusion_step),
        hb("A03", "conductivities", G2, "bounded: six image sizes, any gradients and contrast", conductivities),
        hb("A03", "response", RESPONSE, "bounded: 4x3 images of any pixels, three octaves, three scales", response),
        hf("A03", "contrast", CONTRAST, contrast),
        #[cfg(feature = "has_scale_space")]
        hf("A03", "scale_space", SPACE, scale_space),
    ]
}

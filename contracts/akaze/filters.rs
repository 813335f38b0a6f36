//! A02: images and filters.
use super::img::*;
use akaze::derivatives::*;
const FILTER: &str = "akaze::image::horizontal_filter akaze::image::vertical_filter akaze::image::separable_filter";
const SCHARR: &str = "akaze::derivatives::scharr_horizontal akaze::derivatives::scharr_vertical akaze::derivatives::computer_scharr_kernel akaze::image::separable_filter";
const GAUSS: &str = "akaze::image::gaussian_kernel akaze::image::gaussian_blur akaze::image::gaussian";
const HALF: &str = "akaze::image::GrayFloatImage::half_size";
const LOAD: &str = "akaze::image::GrayFloatImage::from_dynamic";
const PIXEL: &str = "akaze::image::GrayFloatImage::get akaze::image::GrayFloatImage::put akaze::image::GrayFloatImage::from_array2 akaze::image::GrayFloatImage::ref_array2 akaze::image::GrayFloatImage::mut_array2 akaze::image::GrayFloatImage::zero_array akaze::image::GrayFloatImage::new";
fn kernel(name: &str, n: usize) -> Vec<R> {
    (0..n).map(|i| px(&format!("{}{}", name, i))).collect()
}
fn fs(v: &[R]) -> Vec<F> {
    v.iter().map(|x| f(*x)).collect()
}
const SIZES: [(usize, usize); 9] = [(1, 1), (1, 3), (3, 1), (2, 2), (4, 3), (5, 2), (17, 2), (33, 1), (2, 9)];
fn filters() {
    set_tol(1e-4);
    let (w, h) = size(&SIZES);
    let n = 2 * pick("half", if PROOF { 6 } else { 10 }) + 1;
    let (im, k) = (Im::any("p", w, h), kernel("k", n));
    let one = [lit(1.0)];
    ensure_image("horizontal filter", &horizontal_filter(&im.code().0, &fs(&k)), &im.filtered(&k, &one));
    ensure_image("vertical filter", &vertical_filter(&im.code().0, &fs(&k)), &im.filtered(&one, &k));
}
fn separable() {
    set_tol(1e-3);
    let (w, h) = size(&SIZES[..6]);
    let (n, m) = (2 * pick("half h", 3) + 1, 2 * pick("half v", 3) + 1);
    let (im, k, l) = (Im::any("p", w, h), kernel("k", n), kernel("l", m));
    ensure_image("separable filter", &separable_filter(&im.code().0, &fs(&k), &fs(&l)), &im.filtered(&k, &l));
}
/// on a linear image the derivative is the slope (32 times the slope for the smallest kernel)
fn scharr_slope() {
    set_tol(1e-3);
    let s = 1 + pick("sigma - 1", 8);
    let (a, b, c) = (px("a"), px("b"), px("c"));
    let (w, h) = (2 * s + 3, 2 * s + 2);
    let im = Im::of(w, h, |x, y| a + b * lit(x as f64) + c * lit(y as f64)).code();
    let (dx, dy) = (scharr_horizontal(&im, s as u32), scharr_vertical(&im, s as u32));
    let k = lit(if s == 1 { 32.0 } else { 1.0 });
    for y in s..h - s {
        for x in s..w - s {
            ensure_eq("slope along x", r(dx.get(x, y)), k * b);
            ensure_eq("slope along y", r(dy.get(x, y)), k * c);
        }
    }
}
/// the Scharr kernel of any scale: difference of the two sides, weighted 3 10 3 over the other axis
pub fn scharr(im: &Im, s: usize, along_x: bool) -> Im {
    let mut d = vec![lit(0.0); 2 * s + 1];
    let mut o = d.clone();
    let unit = if s == 1 { lit(1.0) } else { lit(1.0) / lit(32.0 * s as f64) };
    d[0] = lit(-1.0);
    d[2 * s] = lit(1.0);
    o[0] = lit(3.0);
    o[s] = lit(10.0);
    o[2 * s] = lit(3.0);
    let u = if along_x { im.filtered(&d, &o) } else { im.filtered(&o, &d) };
    Im { v: u.v.iter().map(|x| *x * unit).collect(), ..u }
}
fn scharr_any() {
    set_tol(1e-3);
    let s = 1 + pick("sigma - 1", if PROOF { 5 } else { 9 });
    let (w, h) = size(&SIZES[3..6]);
    let im = Im::any("p", w, h);
    // (10 / 3 is the f64 nearest to it in the code)
    ensure_image("derivative along x", &scharr_horizontal(&im.code(), s as u32).0, &scharr(&im, s, true));
    ensure_image("derivative along y", &scharr_vertical(&im.code(), s as u32).0, &scharr(&im, s, false));
    ensure_image("simple derivative along x", &simple_scharr_horizontal(&im.code()).0, &scharr(&im, 1, true));
    ensure_image("simple derivative along y", &simple_scharr_vertical(&im.code()).0, &scharr(&im, 1, false));
}
pub fn gauss(n: usize, s: R) -> Vec<R> {
    let e: Vec<R> = (0..n).map(|i| (-lit((i as f64 - (n / 2) as f64).powi(2)) / (lit(2.0) * s * s)).exp()).collect();
    let t = e.iter().fold(lit(0.0), |a, b| a + *b);
    e.iter().map(|x| *x / t).collect()
}
fn gaussian_kernels() {
    set_tol(1e-4);
    let s = r(f(pos_in("sigma", 0.4, 5.0)));
    let n = 2 * pick("half", 8) + 1;
    let k: Vec<R> = gaussian_kernel(f(s), n).iter().map(|x| r(*x)).collect();
    ensure_eqs("Gaussian of the kernel's size", &k, &gauss(n, s));
    ensure_eq("the kernel adds up to one", k.iter().fold(lit(0.0), |a, b| a + *b), lit(1.0));
    for i in 0..n {
        ensure_eq("the kernel is symmetric", k[i], k[n - 1 - i]);
        ensure_pos("the kernel is positive", k[i]);
    }
}
const SIGMAS: [f64; 6] = [0.5, 0.75, 1.0, 1.5, 2.0, 2.25];
fn blur() {
    set_tol(1e-3);
    let s = SIGMAS[pick("sigma", if PROOF { 3 } else { 6 })];
    let k = gauss(2 * (2.0 * s).ceil() as usize + 1, lit(s));
    let (w, h) = size(&SIZES[..if PROOF { 5 } else { 9 }]);
    let im = Im::any("p", w, h);
    ensure_image("blur", &gaussian_blur(&im.code(), fl(s)).0, &im.filtered(&k, &k));
}
fn blur_constant() {
    set_tol(1e-3);
    let s = SIGMAS[pick("sigma", 6)];
    let c = px("c");
    let im = Im::of(4, 3, |_, _| c);
    ensure_image("a constant image stays", &gaussian_blur(&im.code(), fl(s)).0, &im);
}
fn half_size() {
    set_tol(1e-4);
    let (w, h) = if PROOF { (1 + pick("w", 5), 1 + pick("h", 5)) } else { size(&[]) };
    let (w, h) = (w + 1, h + 1);
    let im = Im::any("p", w, h);
    let got = im.code().half_size();
    let (a, b) = (w / 2, h / 2);
    let want = Im::of(a, b, |x, y| {
        // the last column (row) of an odd image is the source of the last column (row)
        let xs = if w % 2 == 1 && x == a - 1 { w - 1..w } else { 2 * x..2 * x + 2 };
        let ys = if h % 2 == 1 && y == b - 1 { h - 1..h } else { 2 * y..2 * y + 2 };
        let n = lit((xs.len() * ys.len()) as f64);
        ys.fold(lit(0.0), |t, y| xs.clone().fold(t, |t, x| t + im.at(x, y))) / n
    });
    ensure_image("means of tiles", &got.0, &want);
}
/// every 8-bit and every 16-bit grey value
fn load() {
    samples(60);
    let bits = pick("kind", 6);
    use image::*;
    let eight = |i: u32| (i % 256) as u8;
    let sixteen = |i: u32| (i * if PROOF { 257 } else { 1 }) as u16;
    let (w, h) = if bits == 1 || bits == 3 { if PROOF { (32, 8) } else { (512, 128) } } else { (32, 8) };
    let at = |x: u32, y: u32| y * w + x;
    let im = match bits {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_fn(w, h, |x, y| Luma([eight(at(x, y))]))),
        1 => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([sixteen(at(x, y))]))),
        2 => DynamicImage::ImageLumaA8(ImageBuffer::from_fn(w, h, |x, y| LumaA([eight(at(x, y)), 7]))),
        3 => DynamicImage::ImageLumaA16(ImageBuffer::from_fn(w, h, |x, y| LumaA([sixteen(at(x, y)), 7]))),
        4 => DynamicImage::ImageRgb32F(ImageBuffer::from_fn(w, h, |x, y| Rgb([fl(at(x, y) as f64 / 256.0); 3]))),
        _ => DynamicImage::ImageRgba32F(ImageBuffer::from_fn(w, h, |x, y| Rgba([fl(at(x, y) as f64 / 256.0); 4]))),
    };
    let got = Im::read(&GrayFloatImage::from_dynamic(&im).0);
    ensure("size", (got.w, got.h) == (w as usize, h as usize));
    let want: Vec<R> = (0..w * h)
        .map(|i| match bits {
            0 | 2 => lit(eight(i) as f64) / lit(255.0),
            1 | 3 => lit(sixteen(i) as f64) / lit(65535.0),
            _ => lit(i as f64 / 256.0),
        })
        .collect();
    ensure_eqs("grey value over the largest one", &got.v, &want);
}
fn pixels() {
    let (w, h) = (1 + pick("w", 4), 1 + pick("h", 4));
    let (x, y) = (pick("x", w), pick("y", h));
    let (a, b) = (Im::any("p", w, h), px("q"));
    let mut im = a.code();
    ensure("size", (im.width(), im.height()) == (w, h));
    im.put(x, y, f(b));
    for j in 0..h {
        for i in 0..w {
            let want = if (i, j) == (x, y) { b } else { a.at(i, j) };
            ensure_eq("a pixel is what was put there", r(im.get(i, j)), want);
            ensure_eq("as an array: row, then column", r(im.ref_array2()[(j, i)]), want);
            ensure_eq("as a mutable array: row, then column", r(im.mut_array2()[(j, i)]), want);
        }
    }
    let mut arr = im.zero_array();
    ensure("shape of the zero array", arr.dim() == (h, w));
    arr[(y, x)] = f(b);
    ensure_image("image of an array", &GrayFloatImage::from_array2(arr).0, &Im::of(w, h, |i, j| if (i, j) == (x, y) { b } else { lit(0.0) }));
    ensure_image("new image", &GrayFloatImage::new(w, h).0, &Im::of(w, h, |_, _| lit(0.0)));
}
pub fn table() -> Vec<Harness> {
    vec![
        hb("A02", "filters", FILTER, "bounded: nine image sizes up to 33 wide, kernels of 1 to 11, any pixels and weights", filters),
        hb("A02", "separable", FILTER, "bounded: six image sizes, kernels of 1 to 5, any pixels and weights", separable),
        hb("A02", "scharr_slope", SCHARR, "bounded: scales 1 to 8, any linear image", scharr_slope),
        hb("A02", "scharr_any", SCHARR, "bounded: scales 1 to 5, three image sizes, any pixels", scharr_any),
        hb("A02", "gaussian_kernels", GAUSS, "bounded: kernels of 1 to 15, any sigma", gaussian_kernels),
        hb("A02", "blur", GAUSS, "bounded: three sigmas, five image sizes, any pixels", blur),
        hb("A02", "blur_constant", GAUSS, "bounded: six sigmas, one image size, any grey", blur_constant),
        hb("A02", "half_size", HALF, "bounded: images of 2x2 to 6x6, any pixels", half_size),
        hb("A02", "load", LOAD, "bounded: every 8-bit value, every 16-bit value on the f32 side (256 of them in the proof)", load),
        hb("A02", "pixels", PIXEL, "bounded: images of 1x1 to 4x4, any pixels", pixels),
    ]
}

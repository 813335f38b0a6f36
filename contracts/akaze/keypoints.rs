//! A04: keypoints and descriptors.
use super::img::*;
use cv_core::ImagePoint;
const DETECT: &str = "akaze::Akaze::detect_keypoints akaze::Akaze::find_scale_space_extrema akaze::scale_space_extrema::do_subpixel_refinement";
const REFINE: &str = "akaze::scale_space_extrema::do_subpixel_refinement";
const ANGLE: &str = "akaze::scale_space_extrema::compute_main_orientation";
const BITS: &str = "akaze::descriptors::mldb_binary_comparisons";
const DESCRIBE: &str = "akaze::Akaze::extract_descriptors akaze::Akaze::get_mldb_descriptor akaze::Akaze::mldb_fill_values";
const EXTRACT: &str = "akaze::Akaze::extract_from_gray_float_image akaze::Akaze::extract akaze::Akaze::find_image_keypoints";
const POINT: &str = "<akaze::KeyPoint as ImagePoint>::image_point";
/// Newton's step of the quadratic through the 3x3 neighbourhood (central differences): q, and whether it stays within one pixel
fn newton(l: &dyn Fn(i64, i64) -> R) -> ([R; 2], [R; 2], [R; 3]) {
    let half = lit(0.5);
    let d = [(l(1, 0) - l(-1, 0)) * half, (l(0, 1) - l(0, -1)) * half];
    let two = lit(2.0);
    let h = [l(1, 0) - two * l(0, 0) + l(-1, 0), (l(1, 1) - l(1, -1) - l(-1, 1) + l(-1, -1)) * half * half, l(0, 1) - two * l(0, 0) + l(0, -1)];
    // H step = -d, by Cramer's rule
    let det = h[0] * h[2] - h[1] * h[1];
    (d, [(h[1] * d[1] - h[2] * d[0]) / det, (h[1] * d[0] - h[0] * d[1]) / det], h)
}
fn keypoint(x: f64, y: f64, octave: usize, class_id: usize, size: f64) -> KeyPoint {
    KeyPoint { point: (fl(x), fl(y)), response: fl(1.0), size: fl(size), octave, class_id, angle: fl(0.0) }
}
#[cfg(feature = "has_do_subpixel")]
fn refinement() {
    set_tol(2e-2);
    let o = pick("octave", 3) as u32;
    let (cx, cy) = (7 + pick("x", 2), 7 + pick("y", 2));
    let near = Im::any("l", 3, 3);
    let mut e = vec![step(o, 0, 2.0), step(o, 1, 2.0)];
    let zero = || Im::of(16, 16, |_, _| lit(0.0)).code();
    for e in &mut e {
        e.Lx = zero();
        e.Ly = zero();
        e.Ldet = zero();
    }
    for y in 0..3 {
        for x in 0..3 {
            e[1].Ldet.put(cx + x - 1, cy + y - 1, f(near.at(x, y)));
        }
    }
    let at = |x: i64, y: i64| near.at((x + 1) as usize, (y + 1) as usize);
    let (d, s, h) = newton(&at);
    assume_apart(h[0] * h[2] - h[1] * h[1], 0.05);
    // (far from the decision whether the step is within a pixel)
    sample_if(|| (s[0].abs() - lit(1.0)).abs() > lit(0.02) && (s[1].abs() - lit(1.0)).abs() > lit(0.02));
    let p = (1u32 << o) as f64;
    let up = |i: usize| i as f64 * p + 0.5 * (p - 1.0);
    let kp = keypoint(up(cx), up(cy), o as usize, 1, p);
    assumption("proof of the refinement: compute_main_orientation changes only the angle (sampled on the f32 code)");
    substitute("compute_main_orientation", |_: (KeyPoint, ())| ());
    let got = akaze::scale_space_extrema::do_subpixel_refinement(&[kp], &e);
    unsubstitute("compute_main_orientation");
    let one = lit(1.0);
    let inside = s[0].abs() <= one && s[1].abs() <= one;
    ensure("kept exactly when the step is within a pixel", got.len() == inside as usize);
    if let Some(k) = got.get(0) {
        // the gradient of the quadratic vanishes at the refined point
        let q = [(r(k.point.0) - lit(up(cx))) / lit(p), (r(k.point.1) - lit(up(cy))) / lit(p)];
        ensure_zero("gradient along x", h[0] * q[0] + h[1] * q[1] + d[0]);
        ensure_zero("gradient along y", h[1] * q[0] + h[2] * q[1] + d[1]);
        ensure_eq("the size is twice the scale", r(k.size), lit(2.0 * p));
        ensure_eq("the response stays", r(k.response), one);
        ensure("octave and level stay", (k.octave, k.class_id) == (o as usize, 1));
    }
}
#[cfg(feature = "has_mldb_bits")]
fn bits() {
    let (count, channels) = if PROOF { (2 + pick("count", 2), 1 + pick("channels", 2)) } else { (2 + pick("count", 15), 1 + pick("channels", 3)) };
    let v: Vec<R> = (0..count * channels).map(|i| px(&format!("v{}", i))).collect();
    let first = pick("first bit", 11);
    let mut out = [0u8; 64];
    let mut pos = first;
    akaze::descriptors::mldb_binary_comparisons(&v.iter().map(|x| f(*x)).collect::<Vec<_>>(), &mut out, count, &mut pos, channels);
    let mut k = first;
    for c in 0..channels {
        for i in 0..count {
            for j in i + 1..count {
                ensure("bit of a pair of cells", (out[k / 8] >> (k % 8) & 1 == 1) == (v[channels * i + c] > v[channels * j + c]));
                k += 1;
            }
        }
    }
    ensure("next bit", pos == k);
    ensure("no other bits", (0..512).all(|b| b >= first && b < k || out[b / 8] >> (b % 8) & 1 == 0));
}
fn image_point() {
    let (x, y) = (px("x"), px("y"));
    let p = KeyPoint { point: (f(x), f(y)), ..keypoint(0.0, 0.0, 0, 0, 1.0) }.image_point();
    ensure_eqs("the point", &[p.x, p.y], &[x, y]);
}
#[cfg(not(feature = "sym"))]
mod runs {
    use super::*;
    fn turn(a: f64) -> f64 {
        a.rem_euclid(std::f64::consts::TAU)
    }
    /// a response with peaks on a background of noise
    fn level(name: &str, o: u32, sub: u32, esigma: f64, w: usize, h: usize) -> EvolutionStep {
        let mut e = step(o, sub, esigma);
        let noise = Im::of(w, h, |_, _| unif(0.0, 0.01));
        let mut d = noise;
        for i in 0..pick("peaks", 6) {
            let c = |a: &str, n: usize| (n / 6 + pick(&format!("{}{}{}", name, a, i), n - n / 3)) as i64;
            let (x, y, top) = (c("x", w), c("y", h), unif(0.02, 1.0));
            let (a, b) = (unif(-0.3, 0.3), unif(-0.3, 0.3));
            for j in -2..=2i64 {
                for i in -2..=2i64 {
                    let v = top * (1.0 - 0.1 * ((i as f64 - a).powi(2) + (j as f64 - b).powi(2)));
                    let k = ((y + j).clamp(0, h as i64 - 1) as usize) * w + (x + i).clamp(0, w as i64 - 1) as usize;
                    d.v[k] = d.v[k].max(v);
                }
            }
        }
        e.Ldet = d.code();
        e.Lt = Im::of(w, h, |_, _| unif(0.0, 1.0)).code();
        e.Lx = Im::of(w, h, |_, _| unif(-1.0, 1.0)).code();
        e.Ly = Im::of(w, h, |_, _| unif(-1.0, 1.0)).code();
        e
    }
    pub fn detection() {
        samples(300);
        let o = pick("octave", 3) as u32;
        let (w, h) = (40 + pick("w", 20), 40 + pick("h", 20));
        let n = 1 + pick("levels - 1", 3);
        let p = (1u32 << o) as f64;
        let e: Vec<EvolutionStep> = (0..n).map(|i| level(&format!("e{}", i), o, i as u32, p * (0.7 + 0.15 * i as f64), w, h)).collect();
        let a = Akaze { detector_threshold: if flag("low") { 0.005 } else { 0.05 }, ..Akaze::default() };
        let got = a.detect_keypoints(&e);
        let size = |i: usize| (e[i].esigma * 1.5) as f32 as f64;
        let margin = |i: usize| (10.0 * 2f64.sqrt() * (size(i) / p).round()).round() + 1.0;
        // every strict maximum of a level that is above the threshold, in reach of the descriptor
        let mut peaks = vec![];
        for (i, l) in e.iter().enumerate() {
            let d = Im::read(&l.Ldet.0);
            for y in 1..h - 1 {
                for x in 1..w - 1 {
                    let v = d.at(x, y);
                    let top = (0..9).all(|k| k == 4 || v > d.at(x + k % 3 - 1, y + k / 3 - 1));
                    let m = margin(i);
                    let inside = x as f64 >= m && y as f64 >= m && x as f64 + m < w as f64 && y as f64 + m < h as f64;
                    if top && v > (a.detector_threshold as f32) as f64 && inside {
                        peaks.push((i, x, y, v));
                    }
                }
            }
        }
        let up = |x: usize| x as f64 * p + 0.5 * (p - 1.0);
        let mut found = vec![false; peaks.len()];
        for k in &got {
            let i = k.class_id;
            ensure("level", i < n && k.octave == o as usize);
            ensure("size: twice the scale of the level", (k.size as f64 - 2.0 * size(i)).abs() < 1e-4 * size(i));
            ensure("angle in a turn", (0.0..=6.2832).contains(&(k.angle as f64)));
            let at = |v: f32| (v as f64 - 0.5 * (p - 1.0)) / p;
            let (x, y) = (at(k.point.0), at(k.point.1));
            // the peak it is a refinement of
            let from = peaks.iter().position(|q| {
                let d = Im::read(&e[i].Ldet.0);
                let s = newton(&|a, b| d.at((q.1 as i64 + a) as usize, (q.2 as i64 + b) as usize)).1;
                q.0 == i && (q.1 as f64 + s[0] - x).abs() < 1e-2 && (q.2 as f64 + s[1] - y).abs() < 1e-2 && (q.3 - k.response as f64).abs() < 1e-6
            });
            ensure("a keypoint is the refinement of a maximum of the response", from.is_some());
            if let Some(j) = from {
                ensure("no keypoint twice", !found[j]);
                found[j] = true;
            }
        }
        for (j, q) in peaks.iter().enumerate() {
            let d = Im::read(&e[q.0].Ldet.0);
            let s = newton(&|a, b| d.at((q.1 as i64 + a) as usize, (q.2 as i64 + b) as usize)).1;
            // alone: no other maximum of this or a neighbouring level anywhere near
            let alone = peaks.iter().enumerate().all(|(k, o)| k == j || (o.0 as i64 - q.0 as i64).abs() > 1 || p * ((o.1 as f64 - q.1 as f64).hypot(o.2 as f64 - q.2 as f64) - 2.0) > size(q.0).max(size(o.0)));
            if alone && s[0].abs() < 0.99 && s[1].abs() < 0.99 {
                ensure("a maximum that stands alone is found", found[j]);
            }
            // and the largest response of all is always found
            if peaks.iter().all(|o| o.3 <= q.3) && peaks.iter().filter(|o| o.3 == q.3).count() == 1 && s[0].abs() < 0.99 && s[1].abs() < 0.99 {
                ensure("the strongest maximum is found", found[j]);
            }
        }
        // of two keypoints of one level within its size, only one is kept
        for (a, k) in got.iter().enumerate() {
            for l in &got[a + 1..] {
                let d = (k.point.0 as f64 - l.point.0 as f64).hypot(k.point.1 as f64 - l.point.1 as f64);
                let s = 0.5 * (k.size as f64).max(l.size as f64);
                if o == 0 && k.class_id == l.class_id && got.len() == 2 {
                    ensure("two keypoints of a level are apart", d > s - 3.0);
                }
            }
        }
    }
    /// two maxima, of one level or of two: within the size of the later one only the stronger stays
    pub fn suppression() {
        samples(400);
        let o = pick("octave", 4) as u32;
        let octaves = [[o, o, o], [o, o, o + 1], [o, o + 1, o + 1]][pick("octaves", 3)];
        let last = octaves[2];
        let levels: Vec<(u32, f64, usize)> = octaves.iter().map(|&o| (o, (1u32 << o) as f64 * unif(1.2, 2.6), 150usize << (last - o))).collect();
        let mut e: Vec<EvolutionStep> = levels.iter().enumerate().map(|(i, l)| step(l.0, i as u32, l.1)).collect();
        let full = |l: usize, x: usize| {
            let p = (1u32 << levels[l].0) as f64;
            x as f64 * p + 0.5 * (p - 1.0)
        };
        // (level, row, column, response), in the order of the levels
        let mut peaks: Vec<(usize, usize, usize, f64)> = (0..2)
            .map(|i| {
                let l = pick(&format!("level{}", i), 3);
                let mut at = |c: &str| levels[l].2 / 2 - 5 + pick(&format!("{}{}", c, i), 11);
                let (y, x) = (at("y"), at("x"));
                (l, y, x, f(unif(0.1, 1.0)) as f64)
            })
            .collect();
        peaks.sort_by(|a, b| (a.0, a.1, a.2).cmp(&(b.0, b.1, b.2)));
        let (a, b) = (peaks[0], peaks[1]);
        assume((a.3 - b.3).abs() > 1e-3);
        assume(a.0 != b.0 || a.1.abs_diff(b.1).max(a.2.abs_diff(b.2)) >= 3);
        for (i, l) in levels.iter().enumerate() {
            let zero = || Im::of(l.2, l.2, |_, _| 0.0);
            let mut d = zero();
            for q in peaks.iter().filter(|q| q.0 == i) {
                for k in 0..9 {
                    let (u, v) = (k % 3, k / 3);
                    d.v[(q.1 + v - 1) * l.2 + q.2 + u - 1] = q.3 * (1.0 - 0.3 * ((u as f64 - 1.0).powi(2) + (v as f64 - 1.0).powi(2)));
                }
            }
            e[i].Ldet = d.code();
            e[i].Lt = zero().code();
            e[i].Lx = zero().code();
            e[i].Ly = zero().code();
        }
        let got = Akaze { detector_threshold: 0.01, ..Akaze::default() }.detect_keypoints(&e);
        let d = (full(a.0, a.1) - full(b.0, b.1)).hypot(full(a.0, a.2) - full(b.0, b.2));
        let size = |q: (usize, usize, usize, f64)| 1.5 * levels[q.0].1;
        // (the code compares the corner of the later pixel with the centre of the earlier one)
        let slack = 0.71 * ((1u32 << levels[b.0].0) as f64 - 1.0) + 1e-3;
        let is = |k: &KeyPoint, q: (usize, usize, usize, f64)| k.class_id == q.0 && (k.point.0 as f64 - full(q.0, q.2)).abs() < 1e-2 && (k.point.1 as f64 - full(q.0, q.1)).abs() < 1e-2;
        let kept = |q| got.iter().filter(|k| is(k, q)).count();
        ensure("only the two maxima", got.iter().all(|k| is(k, a) || is(k, b)));
        if b.0 - a.0 < 2 && d + slack < size(b) {
            let (strong, weak) = if a.3 > b.3 { (a, b) } else { (b, a) };
            ensure("close together: the stronger stays", kept(strong) == 1);
            ensure("close together: the weaker does not", kept(weak) == 0);
        } else if b.0 - a.0 == 2 || d - slack > size(a).max(size(b)) {
            ensure("apart: both stay", kept(a) == 1 && kept(b) == 1);
        }
    }
    pub fn orientation() {
        samples(2000);
        let o = pick("octave", 3) as u32;
        let p = (1u32 << o) as f64;
        let s = 1 + pick("scale - 1", 3);
        let n = 14 * s + 12;
        let mut e = level("e", o, 0, s as f64 * p / 1.5, n, n);
        let c = n / 2;
        // one isolated maximum
        let mut det = Im::of(n, n, |_, _| 0.0);
        for (k, v) in [(0i64, 1.0), (1, 0.9), (-1, 0.9)] {
            for (l, u) in [(0i64, 1.0), (1, 0.9), (-1, 0.9)] {
                det.v[(c as i64 + k) as usize * n + (c as i64 + l) as usize] = u + v;
            }
        }
        e.Ldet = det.code();
        let main = unif(0.0, std::f64::consts::TAU);
        if flag("one direction") {
            e.Lx = Im::of(n, n, |_, _| main.cos()).code();
            e.Ly = Im::of(n, n, |_, _| main.sin()).code();
        }
        // (the margin of detection is wider than the image needed here: the maximum is refined directly)
        let size = s as f64 * p;
        let up = |x: usize| x as f64 * p + 0.5 * (p - 1.0);
        let mut k = vec![keypoint(up(c), up(c), o as usize, 0, size)];
        #[cfg(feature = "has_do_subpixel")]
        {
            k = akaze::scale_space_extrema::do_subpixel_refinement(&k, &[e.clone_fields()]);
        }
        #[cfg(not(feature = "has_do_subpixel"))]
        discard();
        ensure("kept", k.len() == 1);
        let (lx, ly) = (Im::read(&e.Lx.0), Im::read(&e.Ly.0));
        // 109 responses within 6 steps, weighted by a Gaussian of 2.5 steps
        let mut v = vec![];
        for j in -6..=6i64 {
            for i in -6..=6i64 {
                if i * i + j * j < 36 {
                    let g = (-((i * i + j * j) as f64) / 12.5).exp() / (std::f64::consts::PI * 12.5);
                    // (for octave 1 and up the sampled point is off by a fraction below one half)
                    let (x, y) = ((c as i64 + i * s as i64) as usize, (c as i64 + j * s as i64) as usize);
                    v.push((g * lx.at(x, y), g * ly.at(x, y)));
                }
            }
        }
        // a window of a third of a turn slides in steps of 0.15
        let third = std::f64::consts::TAU / 6.0;
        let mut best: Vec<(f64, f64)> = vec![];
        let mut a = 0.0f32;
        while a < 2.0 * std::f32::consts::PI {
            let (mut x, mut y) = (0.0, 0.0);
            for q in &v {
                let d = turn(q.1.atan2(q.0) - a as f64);
                // near the edge of a window the decision is a matter of rounding
                sample_if(|| (d - third).abs() > 1e-5 && d > 1e-5 && d < std::f64::consts::TAU - 1e-5);
                if d < third {
                    x += q.0;
                    y += q.1;
                }
            }
            best.push((x * x + y * y, turn(y.atan2(x))));
            a += 0.15;
        }
        let top = best.iter().fold(0.0f64, |a, b| a.max(b.0));
        let got = k[0].angle as f64;
        ensure("the direction of the strongest window", best.iter().any(|b| b.0 >= top * (1.0 - 1e-4) && (turn(b.1 - got + 0.5) - 0.5).abs() < 1e-3));
        if lx.v.iter().all(|x| *x == lx.v[0]) {
            ensure("gradients of one direction: that direction", (turn(main - got + 0.5) - 0.5).abs() < 1e-3);
        }
    }
    /// mean of Lt, and of the gradient in the frame of the keypoint, over the cells of the 2x2, 3x3 and 4x4 grids
    pub fn descriptors() {
        samples(500);
        let channels = 1 + pick("channels", 3);
        let pattern = if flag("usual") { 10 } else { 6 + pick("pattern", 5) };
        let a = Akaze { descriptor_channels: channels, descriptor_pattern_size: pattern, ..Akaze::default() };
        let o = pick("octave", 3) as u32;
        let p = (1u32 << o) as f64;
        let (w, h) = (30 + pick("w", 40), 30 + pick("h", 40));
        let e = [level("e", o, 0, 2.0 * p, w, h), level("f", o, 1, 2.0 * p, w, h)];
        let mut kps = vec![];
        for i in 0..3 {
            let mut k = keypoint((unif(0.2, 0.8) * w as f64) * p, (unif(0.2, 0.8) * h as f64) * p, o as usize, pick("level", 2), (1.0 + pick("s", 3) as f64) * 2.0 * p * unif(0.8, 1.1));
            k.angle = unif(0.0, 6.28) as f32;
            k.response = i as f32;
            kps.push(k);
        }
        let (got, bits) = a.extract_descriptors(&e, &kps);
        ensure("a descriptor for each keypoint", got.len() == bits.len());
        let mut at = 0;
        for k in &kps {
            let (s, c) = (k.angle as f64).sin_cos();
            let scale = (0.5 * k.size as f64 / p).round();
            let (cx, cy) = (k.point.0 as f64 / p, k.point.1 as f64 / p);
            let e = &e[k.class_id];
            let im = [Im::read(&e.Lt.0), Im::read(&e.Lx.0), Im::read(&e.Ly.0)];
            let mut sure = (0.5 * k.size as f64 / p - scale).abs() < 0.49;
            let mut out = false;
            let mut values: Vec<Vec<Vec<f64>>> = vec![];
            for grid in 2..=4usize {
                let cell = (pattern as f64 * 2.0 / grid as f64 - 1e-6).ceil() as i64;
                let lo = -(pattern as i64);
                let mut cells = vec![vec![]; channels];
                let mut starts = vec![];
                let mut x = lo;
                while x < pattern as i64 {
                    starts.push(x);
                    x += cell;
                }
                for &i in &starts {
                    for &j in &starts {
                        let mut m = [0.0; 3];
                        for k in i..i + cell {
                            for l in j..j + cell {
                                let (k, l) = (k as f64 * scale, l as f64 * scale);
                                // along the direction of the keypoint, and across
                                let (x, y) = (cx + k * c - l * s, cy + k * s + l * c);
                                sure &= (x - x.floor() - 0.5).abs() > 1e-4 && (y - y.floor() - 0.5).abs() > 1e-4;
                                let (x, y) = (x.round(), y.round());
                                if x < 0.0 || y < 0.0 || x >= w as f64 || y >= h as f64 {
                                    out = true;
                                    continue;
                                }
                                let (x, y) = (x as usize, y as usize);
                                let (gx, gy) = (im[1].at(x, y), im[2].at(x, y));
                                m[0] += im[0].at(x, y);
                                if channels == 2 {
                                    m[1] += gx.hypot(gy);
                                } else {
                                    m[1] += gy * c - gx * s;
                                    m[2] += gx * c + gy * s;
                                }
                            }
                        }
                        for (ch, m) in m.iter().enumerate().take(channels) {
                            cells[ch].push(m / (cell * cell) as f64);
                        }
                    }
                }
                if cells[0].len() != grid * grid {
                    // (some pattern sizes do not divide into the grid)
                    discard()
                }
                values.push(cells);
            }
            if !sure {
                discard()
            }
            let kept = at < got.len() && got[at].response == k.response;
            ensure("kept exactly when every sample is inside the image", kept == !out);
            if !kept {
                continue;
            }
            let d = bits[at].bytes();
            let mut b = 0;
            for cells in &values {
                for v in cells {
                    for i in 0..v.len() {
                        for j in i + 1..v.len() {
                            if (v[i] - v[j]).abs() > 1e-5 {
                                ensure("bit of a pair of cells", (d[b / 8] >> (b % 8) & 1 == 1) == (v[i] > v[j]));
                            }
                            b += 1;
                        }
                    }
                }
            }
            ensure("no other bits", (b..512).all(|b| d[b / 8] >> (b % 8) & 1 == 0));
            at += 1;
        }
        ensure("no other keypoints", at == got.len());
    }
    pub fn extraction() {
        samples(12);
        let (w, h) = (100 + pick("w", 40), 100 + pick("h", 40));
        let blobs: Vec<[f64; 4]> = (0..12).map(|_| [unif(25.0, w as f64 - 25.0), unif(25.0, h as f64 - 25.0), unif(2.0, 6.0), unif(0.2, 0.8)]).collect();
        let im = Im::of(w, h, |x, y| blobs.iter().map(|b| b[3] * (-((x as f64 - b[0]).powi(2) + (y as f64 - b[1]).powi(2)) / (2.0 * b[2] * b[2])).exp()).sum::<f64>().min(1.0));
        let all = Akaze { maximum_features: usize::MAX, ..Akaze::new(0.001) };
        let (k, d) = all.extract_from_gray_float_image(&im.code());
        ensure("a descriptor for each keypoint", k.len() == d.len());
        ensure("strongest first", k.windows(2).all(|p| p[0].response >= p[1].response));
        ensure("inside the image", k.iter().all(|k| k.point.0 >= 0.0 && k.point.1 >= 0.0 && k.point.0 < w as f32 && k.point.1 < h as f32));
        ensure("above the threshold", k.iter().all(|k| k.response > 0.001));
        // the steps by hand
        let mut e = all.allocate_evolutions(w as u32, h as u32);
        #[cfg(feature = "has_scale_space")]
        {
            all.create_nonlinear_scale_space(&mut e, &im.code());
            let mut kp = all.find_image_keypoints(&mut e);
            let n = kp.len();
            let max = pick("maximum", 8);
            kp.sort_by(|a, b| b.response.total_cmp(&a.response));
            let key = |k: &KeyPoint| (k.response.to_bits(), k.point.0.to_bits(), k.point.1.to_bits(), k.class_id);
            let (want, bits) = all.extract_descriptors(&e, &kp);
            ensure("all keypoints with a descriptor", k.iter().map(key).collect::<Vec<_>>() == want.iter().map(key).collect::<Vec<_>>());
            ensure("their descriptors", d.iter().zip(&bits).all(|(a, b)| a.bytes() == b.bytes()) && d.len() == bits.len());
            let (want, _) = all.extract_descriptors(&e, &kp[..max.min(n)]);
            let (few, _) = Akaze { maximum_features: max, ..all }.extract_from_gray_float_image(&im.code());
            ensure("the strongest are kept", few.iter().map(key).collect::<Vec<_>>() == want.iter().map(key).collect::<Vec<_>>());
        }
    }
    trait Fields {
        fn clone_fields(&self) -> EvolutionStep;
    }
    impl Fields for EvolutionStep {
        fn clone_fields(&self) -> EvolutionStep {
            EvolutionStep { Lx: self.Lx.clone(), Ly: self.Ly.clone(), Ldet: self.Ldet.clone(), ..step(self.octave, self.sublevel, self.esigma) }
        }
    }
}
#[cfg(feature = "sym")]
mod runs {
    pub fn detection() {}
    pub fn orientation() {}
    pub fn suppression() {}
    pub fn descriptors() {}
    pub fn extraction() {}
}
pub fn table() -> Vec<Harness> {
    vec![
        #[cfg(feature = "has_do_subpixel")]
        hb("A04", "refinement", REFINE, "bounded: three octaves, four places, any 3x3 neighbourhood of responses; no gradients", refinement),
        #[cfg(feature = "has_mldb_bits")]
        hb("A04", "bits", BITS, "bounded: 2 to 3 cells of 1 to 2 channels, any values", bits),
        h("A04", "image_point", POINT, image_point),
        hf("A04", "detection", DETECT, runs::detection),
        hf("A04", "suppression", DETECT, runs::suppression),
        hf("A04", "orientation", ANGLE, runs::orientation),
        hf("A04", "descriptors", DESCRIBE, runs::descriptors),
        hf("A04", "extraction", EXTRACT, runs::extraction),
    ]
}

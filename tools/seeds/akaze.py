
F = 'akaze/src/'
A('A01-prime', 'A01', [(F + 'fed_tau.rs', """        while !primal::is_prime(prime as u64) {""", """        while prime % 2 == 0 || prime % 3 == 0 {""")],
"""fn main() {
    for n in 2..=40usize {
        let t = 0.25 * (n * (n + 1)) as f64 / 3.0 - 0.01;
        let v = akaze::fed_tau::fed_tau_by_process_time(t, 1, 0.25, true);
        check(v.len() == n, "number of steps");
        near(v.iter().sum(), t, 1e-9 * t, "time of the cycle");
    }
}
""", 'a diffusion cycle of 31 steps (time between 77.5 and 82.7), the first whose odd successor 35 is a multiple of neither 2 nor 3 but shares a factor with half the length', 'steps are taken twice or left out by the reordering')
A('A01-eighty', 'A01', [(F + 'evolution.rs', """                    let sublevels = if smallest_dim < 80 {""", """                    let sublevels = if smallest_dim <= 80 {""")],
"""fn main() {
    for (w, h, n) in [(80, 120, 5), (79, 120, 1), (161, 400, 9), (200, 160, 9), (300, 81, 5)] {
        let e = Akaze::default().allocate_evolutions(w, h);
        check(e.len() == n, "number of levels");
    }
}
""", 'an image (or an octave of it) whose smaller side is exactly 80 pixels', 'the octave has one sublevel in place of the configured number')
A('A02-strip', 'A02', [(F + 'image.rs', """                scratch[scratch_end_col_start + i] = image[image_last_row_start + x];""", """                scratch[scratch_end_col_start + i] = image[image_last_row_start + x - x_s];""")],
"""fn main() {
    let im = of(21, 9, |x, y| (x * x) as f32 + y as f32);
    let f = vertical_filter(&im.0, &[0.25, 0.5, 0.25]);
    for x in 0..21 {
        let want = (x * x) as f64 + 0.25 * 7.0 + 0.75 * 8.0;
        near(f.as_raw()[8 * 21 + x] as f64, want, 1e-3, "last row");
    }
}
""", 'an image wider than 16 pixels: pixels below the image in a strip after the first', 'the lower border repeats pixels of another column')
A('A02-odd', 'A02', [(F + 'image.rs', """        if width * 2 != self.width() && height * 2 != self.height() {""", """        if width * 2 != self.width() || height * 2 != self.height() {""")],
"""fn main() {
    let h = of(6, 5, |x, y| (x + 10 * y * y) as f32).half_size();
    near(h.get(2, 1) as f64, 0.5 * (164.0 + 165.0), 1e-3, "odd height");
    let h = of(7, 4, |x, y| (x + 10 * y * y) as f32).half_size();
    near(h.get(2, 1) as f64, 0.5 * (46.0 + 96.0), 1e-3, "odd width");
    let h = of(7, 5, |x, y| (x + 10 * y * y) as f32).half_size();
    near(h.get(2, 1) as f64, 166.0, 1e-3, "both odd");
}
""", 'halving an image with exactly one odd side, in its last pixel', 'the corner pixel is a copy of one pixel and not the mean of the last two')
A('A03-late', 'A03', [(F + 'lib.rs', """                contrast_factor *= 0.75;
""", """"""), (F + 'lib.rs', """            trace!("Lflow finished.");
""", """            trace!("Lflow finished.");
            if evolutions[i].octave > evolutions[i - 1].octave {
                contrast_factor *= 0.75;
            }
""")],
"""fn main() {
    let blobs = [(150.0, 150.0, 0.5), (128.0, 140.0, -0.4), (168.0, 130.0, 0.3), (140.0, 172.0, -0.5), (160.0, 170.0, 0.4)];
    let im = of(340, 330, |x, y| (0.5 + blobs.iter().map(|b| b.2 * (-((x as f64 - b.0).powi(2) + (y as f64 - b.1).powi(2)) / 60.0).exp().powi(2).min(0.5)).sum::<f64>()) as f32);
    let a = Akaze { detector_threshold: 1e-6, num_sublevels: 3, ..Akaze::default() };
    // conductivities of the third octave, from the features' own scale space: rebuild it from the parts
    let mut e = a.allocate_evolutions(340, 330);
    e[0].Lt = gaussian_blur(&im, 1.6);
    let mut k = akaze::contrast_factor::compute_contrast_factor(&im, a.contrast_percentile, 1.0, a.contrast_factor_num_bins);
    e[0].Lsmooth = e[0].Lt.clone();
    for i in 1..e.len() {
        if e[i].octave > e[i - 1].octave { e[i].Lt = e[i - 1].Lt.half_size(); k *= 0.75; } else { e[i].Lt = e[i - 1].Lt.clone(); }
        e[i].Lsmooth = gaussian_blur(&e[i].Lt, 1.0);
        let (x, y) = (akaze::derivatives::simple_scharr_horizontal(&e[i].Lsmooth), akaze::derivatives::simple_scharr_vertical(&e[i].Lsmooth));
        e[i].Lflow = akaze::nonlinear_diffusion::pm_g2(&x, &y, k);
        for t in e[i].fed_tau_steps.clone() { akaze::nonlinear_diffusion::calculate_step(&mut e[i], t as f32); }
    }
    let mut want = a.find_image_keypoints(&mut e);
    want.sort_by(|a, b| b.response.total_cmp(&a.response));
    let (want, _) = a.extract_descriptors(&e, &want);
    let (got, _) = a.extract_from_gray_float_image(&im);
    check(e.iter().any(|l| l.octave == 2), "three octaves");
    check(want.iter().any(|l| l.octave == 2), "keypoints of the third octave");
    check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| (a.response - b.response).abs() <= 1e-5 * b.response), "keypoints of the scale space");
}
""", 'an image with a second octave of more than one level (its smaller side at least 160 pixels)', 'the first level of an octave is diffused with the contrast factor of the octave before')
A('A03-flat', 'A03', [(F + 'contrast_factor.rs', """                histogram[bin_number] += 1;
                num_points += 1f64;
            }""", """                histogram[bin_number] += 1;
            }
            num_points += 1f64;""")],
"""fn main() {
    // a step edge on a flat background, steeper towards the bottom
    let im = of(60, 40, |x, y| if x < 30 { 0.0 } else { 0.01 * y as f32 });
    let k = akaze::contrast_factor::compute_contrast_factor(&im, 0.7, 1.0, 300);
    let g = gaussian_blur(&im, 1.0);
    let (lx, ly) = (akaze::derivatives::simple_scharr_horizontal(&g), akaze::derivatives::simple_scharr_vertical(&g));
    let mut v = vec![];
    for y in 1..39 { for x in 1..59 { v.push((lx.get(x, y) as f64).hypot(ly.get(x, y) as f64)); } }
    let max = v.iter().fold(0.0f64, |a, b| a.max(*b));
    v.retain(|x| *x != 0.0);
    let below = v.iter().filter(|x| **x < k).count() as f64 / v.len() as f64;
    let before = v.iter().filter(|x| **x < k - 1.01 * max / 300.0).count() as f64 / v.len() as f64;
    check(below >= 0.695 && before <= 0.705, "the contrast factor is not the 70 % point of the nonzero gradients");
}
""", 'an image with areas of no gradient at all', 'flat pixels count among the gradients and shift the contrast factor')
A('A04-wrap', 'A04', [(F + 'scale_space_extrema.rs', """                || (ang2 < ang1 && ((ang > 0f32 && ang < ang2) || (ang > ang1 && ang < 2.0 * PI)))""", """                || (ang2 < ang1 && ang > ang1 && ang < 2.0 * PI)""")],
"""fn main() {
    let mut e = Akaze::default().allocate_evolutions(96, 96);
    e.truncate(1);
    let z = || of(96, 96, |_, _| 0.0);
    e[0].Lt = z(); e[0].Ldet = of(96, 96, |x, y| { let d = (x as f32 - 48.0).powi(2) + (y as f32 - 48.0).powi(2); (1.0 - 0.1 * d).max(0.0) });
    // gradients of 20 degrees on both sides of the x axis, as many of either
    let a = 20f32.to_radians();
    e[0].Lx = of(96, 96, |_, _| a.cos());
    e[0].Ly = of(96, 96, |x, y| if y < 48 || (y == 48 && x < 48) { a.sin() } else { -a.sin() });
    let k = Akaze::default().detect_keypoints(&e);
    check(k.len() == 1, "one keypoint");
    let t = k[0].angle as f64;
    check(t < 0.05 || t > 6.23, "orientation between the two directions");
}
""", 'gradients on both sides of the positive x axis', 'a window across the axis holds only the gradients below it, and the orientation is off')
A('A04-weakest', 'A04', [(F + 'lib.rs', """        keypoints.sort_unstable_by_key(|kp| Reverse(FloatOrd(kp.response)));
        keypoints.truncate(self.maximum_features);""", """        keypoints.truncate(self.maximum_features);
        keypoints.sort_unstable_by_key(|kp| Reverse(FloatOrd(kp.response)));""")],
"""fn main() {
    let blobs = [(30.0, 30.0, 0.2), (70.0, 30.0, 0.4), (110.0, 34.0, 0.9), (40.0, 75.0, 0.6), (80.0, 80.0, 0.8), (118.0, 90.0, 0.3)];
    let im = of(150, 120, |x, y| blobs.iter().map(|b| b.2 * (-((x as f64 - b.0).powi(2) + (y as f64 - b.1).powi(2)) / 18.0).exp()).sum::<f64>() as f32);
    let all = Akaze { maximum_features: usize::MAX, ..Akaze::new(1e-4) };
    let (k, _) = all.extract_from_gray_float_image(&im);
    check(k.len() > 4, "keypoints");
    let (few, _) = Akaze { maximum_features: 3, ..all }.extract_from_gray_float_image(&im);
    check(few.len() == 3 && (0..3).all(|i| few[i].response == k[i].response), "the three strongest");
}
""", 'more keypoints than the configured maximum', 'the first found are kept in place of the strongest')
A('A04-octave', 'A04', [(F + 'scale_space_extrema.rs', """                            || (keypoint.class_id != 0
                                && keypoint.class_id - 1 == prev_keypoint.class_id)""", """                            || (keypoint.class_id != 0
                                && keypoint.octave == prev_keypoint.octave
                                && keypoint.class_id - 1 == prev_keypoint.class_id)""")],
"""fn main() {
    let mut e = Akaze { num_sublevels: 1, ..Akaze::default() }.allocate_evolutions(300, 300);
    e.truncate(2);
    for (i, (n, top)) in [(300usize, 0.8f32), (150, 0.5)].iter().enumerate() {
        let c = (*n / 2) as f32;
        e[i].Ldet = of(*n, *n, |x, y| (top * (1.0 - 0.3 * ((x as f32 - c).powi(2) + (y as f32 - c).powi(2)))).max(0.0));
        let z = || of(*n, *n, |_, _| 0.0);
        e[i].Lt = z(); e[i].Lx = z(); e[i].Ly = z();
    }
    let k = Akaze::default().detect_keypoints(&e);
    check(k.len() == 1 && k[0].class_id == 0, "one blob seen in two octaves gives its stronger keypoint only");
}
""", 'a blob with a maximum in the last level of one octave and a weaker one in the first level of the next', 'both maxima become keypoints')
A('A02-long', 'A02', [(F + 'image.rs', """                    .zip(kernel_simd.iter())
                    .fold(f32x4::splat(0.), |acc, (a, b)| a.mul_add(*b, acc))
                    .reduce_add()
            });""", """                    .zip(kernel_simd.iter().take(4))
                    .fold(f32x4::splat(0.), |acc, (a, b)| a.mul_add(*b, acc))
                    .reduce_add()
            });""")],
"""fn main() {
    let im = of(30, 3, |_, _| 1.0);
    for n in [1usize, 5, 15, 17, 19] {
        let f = horizontal_filter(&im.0, &vec![1.0 / n as f32; n]);
        for v in f.as_raw() { near(*v as f64, 1.0, 1e-3, "mean of a constant image"); }
    }
}
""", 'a horizontal kernel of more than 16 weights (scales above 8)', 'the last weights are left out')

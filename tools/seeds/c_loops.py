S('O01-late', 'O01', [(SVO, 'let delta = tangent.scale(optimization_rate);', 'let delta = tangent.scale(if iteration < 500 {\n            optimization_rate\n        } else {\n            0.5 * optimization_rate\n        });')],
 LAND + '''fn main() { let p = WorldToCamera::from_parts(Vector3::new(0.3, -0.2, 0.1), Rotation3::new(Vector3::new(0.1, 0.05, 0.0))); let l = lands(9, 0.01); let run = |p, n| single_view_simple_optimize_l2(p, 1e-4, n, &l);
 let mut q = p; for _ in 0..600 { q = run(q, 1); } let r = run(p, 600); let d = (q.homogeneous() - r.homogeneous()).norm(); eprintln!("{:e} {:e}", d, (p.homogeneous() - r.homogeneous()).norm()); check(d < 1e-9, "the iterations are not alike"); }''',
 'more than five hundred iterations', 'the later steps are half as long as the rate says')
S('O01-drift', 'O01', [(SVO, '        if best_rot > r {\n            best_rot = r;\n            no_improve_for = 0;\n        }\n', '        if best_rot > r {\n            no_improve_for = 0;\n        }\n        best_rot = r;\n', 'first')],
 LAND + '''fn main() { let (eps, rate) = (0.1, 0.9); let mut bad = 0; let mut stops = 0; for k in 0..200 { let f = k as f64; let p = WorldToCamera::from_parts(0.5 * Vector3::new(f.sin(), (2.0 * f).cos(), (3.0 * f).sin()), Rotation3::new(0.3 * Vector3::new((5.0 * f).sin(), (7.0 * f).cos(), f.cos()))); let l = lands(2 + k % 6, 0.2); let one = |q, n| single_view_simple_optimize_l1(q, eps, rate, n, &l);
 let sums = |q: WorldToCamera| { let mut t = Vector3::zeros(); let mut r = Vector3::zeros(); for m in &l { let y = q.transform(m.1).point().unwrap().coords; let g = cv_geom::epipolar::world_pose_gradient(y, m.0).l1(); t += g.translation; r += g.rotation; } (t.norm(), r.norm()) };
 let mut q = p; let (mut bt, mut br, mut stale) = (f64::INFINITY, f64::INFINITY, 0); let mut close = false; for _ in 0..150 { let (t, r) = sums(q); stale += 1; if (t - bt).abs() < 1e-9 || (r - br).abs() < 1e-9 { close = true; } if t < bt { bt = t; stale = 0; } if r < br { br = r; stale = 0; } if stale >= 50 { stops += 1; break; } q = one(q, 1); }
 let d = (one(p, 150).homogeneous() - q.homogeneous()).norm(); if !close && d > 1e-6 { bad += 1; } } eprintln!("{} {}", bad, stops); check(bad == 0, "went on although nothing improved on the best"); }''',
 'a run whose rotation sum goes up and down without a new best for fifty iterations', 'the optimizer does not stop after fifty iterations without improvement')
S('O02-first', 'O02', [(TVO, 'for ([best_t, best_r], l2sum) in bests.iter_mut().zip(nets.iter()) {', 'for ([best_t, best_r], l2sum) in bests.iter_mut().zip(nets.iter()).take(1) {')],
 THREE_ + '''fn main() { let mut bad = 0; for k in 0..200 { let f = k as f64; let (l, p) = obs(2 + k % 6, [0.0, 0.02, 0.1][k % 3], 1.0); let rate = [0.003, 0.01, -0.003, 0.03][k % 4]; let mut size = [0.0, 0.5]; let p = p.map(|p| { size.reverse(); CameraToCamera(Se3TangentSpace { translation: size[0] * Vector3::new(f.sin(), f.cos(), (2.0 * f).sin()), rotation: size[0] * Vector3::new((3.0 * f).sin(), (2.0 * f).cos(), 0.1) }.isometry() * p.isometry()) }); let run = |p, n| three_view_simple_optimize_l2(p, rate, n, &l);
 let sums = |p: [CameraToCamera; 2]| { let q = p.map(|p| p.isometry().inverse()); let mut s = [Se3TangentSpace::identity(); 2]; for o in &l { let g = cv_geom::epipolar::three_view_gradients(o[0], q[0] * o[1], q[0].translation.vector, q[1] * o[2], q[1].translation.vector); for j in 0..2 { s[j] += g[j]; } } [s[0].translation.norm(), s[0].rotation.norm(), s[1].translation.norm(), s[1].rotation.norm()] };
 let chain = |p: [CameraToCamera; 2]| { let mut q = p; let mut best = [f64::INFINITY; 4]; let (mut stale, mut close) = (0, false); for _ in 0..150 { let s = sums(q); stale += 1; for j in 0..4 { if (s[j] - best[j]).abs() < 1e-9 { close = true; } if s[j] < best[j] { best[j] = s[j]; stale = 0; } } if stale >= 50 { break; } q = run(q, 1); } (q, close) };
 let nudged = p.map(|p| CameraToCamera(Se3TangentSpace { translation: Vector3::new(1e-11, 0.0, 0.0), rotation: Vector3::new(0.0, 1e-11, 0.0) }.isometry() * p.isometry())); let ((q, close), (q2, _)) = (chain(p), chain(nudged)); let chaotic = (0..2).map(|j| (q2[j].homogeneous() - q[j].homogeneous()).norm()).sum::<f64>() > 1e-8; let close = close || chaotic;
 let r = run(p, 150); let d: f64 = (0..2).map(|j| (r[j].homogeneous() - q[j].homogeneous()).norm()).sum(); if !close && d > 1e-7 { bad += 1; } } eprintln!("{}", bad); check(bad == 0, "stopped although the second view still improved"); }''',
 'a run of more than fifty iterations in which only the second view improves', 'the optimizer stops too early')
S('O02-quiet', 'O02', [(TVO, '        // Update the poses using the delta.\n', '        if gradients\n            .iter()\n            .all(|g| g.translation.norm() < 1e-3 && g.rotation.norm() < 1e-3)\n        {\n            break;\n        }\n\n        // Update the poses using the delta.\n')],
 THREE_ + '''fn main() { let (o, p) = obs(5, 0.0, 1.0); let p = p.map(|p| CameraToCamera(Se3TangentSpace { translation: Vector3::zeros(), rotation: Vector3::new(4e-4, -2e-4, 1e-4) }.isometry() * p.isometry())); let mut q = p; for _ in 0..200 { q = three_view_adaptive_optimize_l2(q, 1, &o); }
 let q0 = three_view_adaptive_optimize_l2(p, 1, &o); let moved: f64 = (0..2).map(|j| (q0[j].homogeneous() - p[j].homogeneous()).norm()).sum(); eprintln!("{:e}", moved); check(moved > 1e-9, "no step is made"); }''',
 'poses whose step is shorter than a thousandth', 'the adaptive optimizer stops short of the requested number of steps')
S('G05-decay', 'G05', [(GEO, 'let scale = self.optimization_rate / pairs', 'let mut scale = self.optimization_rate / pairs'), (GEO, '            point += delta;\n', '            point += delta;\n            scale *= 0.9999;\n')],
 '''use cv_geom::triangulation::*;
fn main() { let x = WorldPoint::from_point(Point3::new(0.2, 0.1, 4.0)); let mut o = vec![]; for k in 0..4 { let p = WorldToCamera::from_parts(Vector3::new(0.5 * k as f64, (k as f64).sin(), 0.0), Rotation3::identity()); let b = p.transform(x).bearing().into_inner(); o.push((p, Unit::new_normalize(b + Vector3::new(0.1 * (k as f64).cos(), 0.06, 0.0)))); }
 let (rate, n) = (0.002, 900); let r = SineL1Triangulator::new().optimization_rate(rate).max_iterations(n).triangulate_observations(o.iter().copied()).unwrap().point().unwrap().coords;
 let mut q = LinearEigenTriangulator::new().triangulate_observations(o.iter().copied()).unwrap().point().unwrap().coords; for _ in 0..n { let d: Vector3<f64> = o.iter().map(|(p, b)| { let i = p.isometry().inverse(); cv_geom::epipolar::point_gradient(i.translation.vector - q, i * b) }).sum::<Vector3<f64>>() * (rate / 4.0); q += d; if d.norm() < 1e-12 * q.norm() { break; } }
 eprintln!("{:e}", (r - q).norm()); check((r - q).norm() < 1e-9, "the steps shrink"); }''',
 'a run of many iterations', 'the steps get shorter from one iteration to the next, so the refinement stops short of the minimum')
S('G03-parallel', 'G03', [(GEO, 'q.scale(q.norm_squared().recip())\n                    .dot(&(bearing.cross(&trans)))', 'if q.norm_squared() < 1e-9 {\n                    // Parallel to the average bearing.\n                    return 0.0;\n                }\n                q.scale(q.norm_squared().recip())\n                    .dot(&(bearing.cross(&trans)))')],
 '''use cv_geom::triangulation::*;
fn main() { for &z in &[10.0, 1e3, 2e5] { let x = WorldPoint::from_point(Point3::new(0.1, 0.2, z)); let o: Vec<_> = [-1.0, 1.0].iter().map(|&c| { let p = WorldToCamera::from_parts(Vector3::new(c, 0.0, 0.0), Rotation3::identity()); (p, p.transform(x).bearing()) }).collect();
 let r = MeanMeanTriangulator.triangulate_observations(o.iter().copied()).and_then(|p| p.point()); check(r.is_some(), "no point"); let d = r.unwrap().z / z; check((d - 1.0).abs() < 1e-3, "distance"); } }''',
 'observations whose rays differ from the mean ray by less than 3e-5 (a far point)', 'their distance counts as zero')

EIG='eight-point/src/lib.rs'; LT='lambda-twist/src/lib.rs'; NST='nister-stewenius/src/lib.rs'
SVO='cv-optimize/src/single_view_optimizer.rs'; TVO='cv-optimize/src/three_view_optimizer.rs'
SCENE = '''use cv_core::sample_consensus::Estimator;
fn found(t: Vector3<f64>, r: Rotation3<f64>, c: impl IntoIterator<Item = CameraToCamera>) -> bool {
 let t = t.normalize(); c.into_iter().any(|p| { let i = p.isometry(); (i.rotation.matrix() - r.matrix()).norm() < 1e-5 && (i.translation.vector.normalize() - t).norm() < 1e-5 }) }
'''
S('M01-wide', 'M01', [(EIG, 'let ap = a.into_inner() / a.z;', 'if a.z < 0.2 {\n            // Nearly perpendicular to the optical axis.\n            continue;\n        }\n        let ap = a.into_inner() / a.z;')],
 SCENE + '''fn main() { let (t, r) = (Vector3::new(0.5, -0.2, 0.3), Rotation3::new(Vector3::new(0.1, -0.2, 0.15))); let p = CameraToCamera::from_parts(t, r);
 let m: Vec<FeatureMatch> = [(0.3, 0.2, 3.0), (-0.8, 0.5, 2.0), (1.0, -1.0, 4.0), (0.2, 1.4, 3.3), (-1.5, -0.7, 2.6), (0.9, 0.8, 1.9), (-0.4, -1.2, 2.4), (3.0, 0.7, 0.5)].iter().map(|&(x, y, z)| { let x = CameraPoint::from_point(Point3::new(x, y, z)); FeatureMatch(x.bearing(), p.transform(x).bearing()) }).collect();
 check(found(t, r, eight_point::EightPoint::new().estimate(m.iter().copied())), "the pose is not among the estimates"); }''',
 'a match whose bearing is nearly perpendicular to the optical axis (wide field of view)', 'its epipolar equation is left out, so the essential matrix is not determined')
FIVE = '''fn five(s: f64) -> usize { let mut hit = 0; for k in 0..100 { let f = k as f64 * 1.37; let (t, r) = (Vector3::new(f.sin(), f.cos(), 0.3), Rotation3::new(Vector3::new((2.0 * f).sin(), -0.2 + f.cos(), 1.5 * (3.0 * f).cos()))); let p = CameraToCamera::from_parts(t, r);
 let m: Vec<FeatureMatch> = (0..5).map(|i| { let g = f + 10.3 * i as f64; let x = CameraPoint::from_point(Point3::new(s * (1.7 * g).sin(), s * (2.9 * g).cos(), 3.0 + (4.3 * g).sin())); FeatureMatch(x.bearing(), p.transform(x).bearing()) }).collect();
 if found(t, r, nister_stewenius::NisterStewenius::new().estimate(m.iter().copied())) { hit += 1; } } eprintln!("{} of 100", hit); hit }
'''
S('M02-narrow', 'M02', [(NST, '.find(|&(_, e)| e > EIGEN_THRESHOLD)', '.find(|&(_, e)| e > 100.0 * SVD_NULL_THRESHOLD.sqrt())')],
 SCENE + FIVE + '''fn main() { let h = five(0.3); check(h >= 90, "the pose is almost never among the estimates"); }''',
 'a sample whose smallest nonzero eigenvalue is below 1e-4', 'such samples are treated as degenerate and give no pose')
S('M03-deep', 'M03', [(LT, 'if tau > 0.0 {', 'if tau > 0.05 {')],
 SCENE + '''fn main() { let (t, r) = (Vector3::new(0.1, -0.2, 0.3), Rotation3::new(Vector3::new(0.1, -0.2, 0.15))); let p = WorldToCamera::from_parts(t, r); let i = p.isometry().inverse();
 let m: Vec<FeatureWorldMatch> = [(0.4, 0.1, 1.0), (12.0, 9.0, 40.0), (-0.3, 0.2, 0.9)].iter().map(|&(x, y, z)| { let c = Point3::new(x, y, z); FeatureWorldMatch(CameraPoint::from_point(c).bearing(), WorldPoint::from_point(i * c)) }).collect();
 check(lambda_twist::LambdaTwist::new().estimate(m.iter().copied()).into_iter().any(|q| (q.homogeneous() - p.homogeneous()).norm() < 1e-5), "the pose is not among the estimates"); }''',
 'a second point more than twenty times farther than the third', 'the depth ratio is rejected, so the true pose is not returned')
S('M03-close', 'M03', [(LT, 'if valid && l1 >= 0.0 {', 'if valid && l1 >= f64::EPSILON.powf(0.25) {')],
 SCENE + '''fn main() { let s = 1e-5; let (t, r) = (s * Vector3::new(0.1, -0.2, 0.3), Rotation3::new(Vector3::new(0.1, -0.2, 0.15))); let p = WorldToCamera::from_parts(t, r); let i = p.isometry().inverse();
 let m: Vec<FeatureWorldMatch> = [(0.4, 0.1, 1.0), (-0.5, 0.9, 4.0), (-0.3, 0.2, 2.1)].iter().map(|&(x, y, z)| { let c = Point3::new(s * x, s * y, s * z); FeatureWorldMatch(CameraPoint::from_point(c).bearing(), WorldPoint::from_point(i * c)) }).collect();
 check(lambda_twist::LambdaTwist::new().estimate(m.iter().copied()).into_iter().any(|q| (q.isometry().rotation.matrix() - r.matrix()).norm() < 1e-3), "the pose is not among the estimates"); }''',
 'a scene measured in units so large that the first point is closer than 1e-4', 'depths below a hidden absolute limit are rejected')
S('G05-relative', 'G05', [(GEO, 'if delta.norm_squared() / point.coords.norm_squared() < epsilon_squared {', 'if delta.norm_squared() < epsilon_squared {')],
 '''use cv_geom::triangulation::*;
fn main() { let s = 0.1; let eps = 1e-4; let x = WorldPoint::from_point(Point3::new(0.2 * s, 0.1 * s, 4.0 * s)); let mut o = vec![]; for k in 0..4 { let p = WorldToCamera::from_parts(s * Vector3::new(0.5 * k as f64, (k as f64).sin(), 0.0), Rotation3::identity()); let b = p.transform(x).bearing().into_inner(); o.push((p, Unit::new_normalize(b + Vector3::new(0.1 * (k as f64).cos(), 0.06, 0.0)))); }
 let r = SineL1Triangulator::new().epsilon(eps).triangulate_observations(o.iter().copied()).unwrap().point().unwrap().coords;
 let mut q = LinearEigenTriangulator::new().epsilon(eps).triangulate_observations(o.iter().copied()).unwrap().point().unwrap().coords; let mut n = 0; loop { n += 1; let d: Vector3<f64> = o.iter().map(|(p, b)| { let i = p.isometry().inverse(); cv_geom::epipolar::point_gradient(i.translation.vector - q, i * b) }).sum::<Vector3<f64>>() / 4.0; q += d; if d.norm() < eps * q.norm() || n == 1000 { break; } }
 eprintln!("{} {:e}", n, (r - q).norm() / s); check((r - q).norm() < 1e-7 * s, "stopped at another step than the tolerance says"); }''',
 'a scene in units much larger than it is', 'the iteration stops by the absolute size of the step')
S('G05-many', 'G05', [(GEO, 'let scale = self.optimization_rate / pairs.clone().count() as f64;', 'let scale = self.optimization_rate / pairs.clone().count().min(24) as f64;')],
 '''use cv_geom::triangulation::*;
fn main() { let x = WorldPoint::from_point(Point3::new(0.2, 0.1, 4.0)); let mut o = vec![]; for k in 0..80 { let f = k as f64; let p = WorldToCamera::from_parts(Vector3::new(2.0 * f.sin(), 2.0 * f.cos(), 0.1 * f), Rotation3::identity()); let b = p.transform(x).bearing().into_inner(); o.push((p, Unit::new_normalize(b + Vector3::new(0.02 * (3.0 * f).cos(), 0.01 * f.sin(), 0.0)))); }
 let r = SineL1Triangulator::new().triangulate_observations(o.iter().copied()).unwrap().point().unwrap(); check((r.coords - Vector3::new(0.2, 0.1, 4.0)).norm() < 0.5, "the refinement diverges"); }''',
 'more than 24 observations', 'the step is too long for many observations and the refinement diverges')
S('G06-signed', 'G06', [(EPI, 'b.dot(&cross_a.scale(cross_a_norm_squared.sqrt().recip()))\n            .abs()', 'b.dot(&cross_a.scale(cross_a_norm_squared.sqrt().recip()))')],
 '''use cv_geom::epipolar::loss;
fn main() { let t = Vector3::new(1.0, 0.0, 0.0); for &(y, z) in &[(0.1, 0.3), (-0.1, 0.3), (0.2, -0.1)] { let l = loss(t, unit(0.1, 0.0, 1.0), unit(0.4 + z, y, 1.0)); check(l >= 0.0, "a negative loss"); let l = loss(t, unit(-0.8, y, 1.0), unit(0.1, 0.0, 1.0)); check(l >= 0.0, "a negative loss"); } }''',
 'the second ray nearer the baseline and on one side of the epipolar plane', 'the loss is negative there')
S('G06-missing', 'G06', [(EPI, 'let second_translation = trans_s * (2.0 / 3.0) + trans_c * (1.0 / 3.0);', 'let second_translation = if trans_s.x == 0.0 && trans_s.y == 0.0 {\n        trans_c\n    } else {\n        trans_s * (2.0 / 3.0) + trans_c * (1.0 / 3.0)\n    };')],
 '''use cv_geom::epipolar::three_view_gradients;
fn main() { let mut seen = 0; for k in 0..300 { let f = k as f64; let u = |a: f64| unit((a * f).sin(), (1.3 * a * f + 1.0).cos(), (1.7 * a * f).sin()); let (c, g, s) = (u(1.1), u(2.3), u(3.7)); let (x, y) = (u(4.1).into_inner(), 2.0 * u(5.3).into_inner());
 let d = three_view_gradients(c, g, x, s, y); let (u, v) = (d[0].translation, d[1].translation); /* only the centre camera is corrected */ if u.norm() > 1e-3 && u.cross(&v).norm() < 1e-9 * u.norm() * v.norm() && (u - v).norm() > 1e-6 * u.norm() { seen += 1; } } check(seen == 0, "the two cameras share the correction of the centre camera unequally"); }''',
 'landmarks whose first two rays do not meet in front of the cameras', 'the correction of the second camera is three times too long for them')
LAND = '''use cv_optimize::*;
fn lands(n: usize, noise: f64) -> Vec<FeatureWorldMatch> { (0..n).map(|k| { let f = k as f64; let x = Point3::new(2.0 * (1.7 * f).sin(), 1.5 * (2.9 * f).cos(), 5.0 + (4.3 * f).sin()); let b = x.coords.normalize() + noise * Vector3::new((5.0 * f).sin(), (7.0 * f).cos(), 0.0); FeatureWorldMatch(Unit::new_normalize(b), WorldPoint::from_point(x)) }).collect() }
'''
S('O01-hoist', 'O01', [(SVO, '    for iteration in 0..iterations {\n        let tscale = pose.isometry().translation.vector.norm();', '    let tscale = pose.isometry().translation.vector.norm();\n    for iteration in 0..iterations {', 'first')],
 LAND + '''fn main() { let p = WorldToCamera::from_parts(Vector3::new(3.0, -2.0, 1.0), Rotation3::new(Vector3::new(0.1, 0.05, 0.0))); let l = lands(9, 0.01); let one = |p| single_view_simple_optimize_l1(p, 0.1, 0.3, 1, &l); let two = single_view_simple_optimize_l1(p, 0.1, 0.3, 2, &l); check((one(one(p)).homogeneous() - two.homogeneous()).norm() < 1e-12, "two iterations are not one after another"); }''',
 'more than one iteration', 'the translation scale of the first pose is used in all iterations')
S('O01-stale', 'O01', [(SVO, '        if best_rot > r {\n            best_rot = r;\n            no_improve_for = 0;\n        }\n\n        if no_improve_for >= 50 {\n            log::info!(\n                "terminating single-view optimization due to stabilizing on iteration {}",\n                iteration\n            );\n            log::info!("tangent rotation magnitude: {}", tangent.rotation.norm());', '        if best_rot > r {\n            best_rot = r;\n        }\n\n        if no_improve_for >= 50 {\n            log::info!(\n                "terminating single-view optimization due to stabilizing on iteration {}",\n                iteration\n            );\n            log::info!("tangent rotation magnitude: {}", tangent.rotation.norm());')],
 LAND + '''fn main() { let mut bad = 0; for k in 0..300 { let f = k as f64; let p = WorldToCamera::from_parts(0.5 * Vector3::new(f.sin(), (2.0 * f).cos(), (3.0 * f).sin()), Rotation3::new(0.8 * Vector3::new((5.0 * f).sin(), (7.0 * f).cos(), f.cos()))); let l: Vec<_> = lands(3 + k % 5, 0.3); let p = { let i = p.isometry(); let (mut a, mut c) = (Matrix3::zeros(), Vector3::zeros()); for m in &l { let w = m.0.into_inner() * m.0.transpose() - Matrix3::identity(); a += w; c -= w * (i.rotation * m.1.point().unwrap().coords); } WorldToCamera::from_parts(a.try_inverse().unwrap() * c, i.rotation) }; let rate = [0.002, 0.02, -0.003][k % 3];
 let run = |n| single_view_simple_optimize_l2(p, rate, n, &l); let s = |q: WorldToCamera| { let mut t = Vector3::zeros(); let mut r = Vector3::zeros(); for m in &l { let y = q.transform(m.1).point().unwrap().coords; let g = cv_geom::epipolar::world_pose_gradient(y, m.0); t += g.translation; r += g.rotation; } (t.norm(), r.norm()) };
 let mut q = p; let (mut bt, mut br, mut stale) = (f64::INFINITY, f64::INFINITY, 0); let mut close = false; for _ in 0..90 { let (t, r) = s(q); stale += 1; if (t - bt).abs() < 1e-9 || (r - br).abs() < 1e-9 { close = true; } if t < bt { bt = t; stale = 0; } if r < br { br = r; stale = 0; } if stale >= 50 { break; } q = single_view_simple_optimize_l2(q, rate, 1, &l); }
 if !close && (run(90).homogeneous() - q.homogeneous()).norm() > 1e-9 { bad += 1; } } eprintln!("{}", bad); check(bad == 0, "stopped although the rotation still improved"); }''',
 'a run of more than fifty iterations in which the rotation improves and the translation does not', 'the optimizer stops too early')
THREE_ = '''use cv_optimize::*;
fn obs(n: usize, noise: f64, side: f64) -> (Vec<[UnitVector3<f64>; 3]>, [CameraToCamera; 2]) { let p = [CameraToCamera::from_parts(Vector3::new(0.8, 0.1, 0.0), Rotation3::new(Vector3::new(0.0, 0.1, 0.0))), CameraToCamera::from_parts(Vector3::new(-0.2, 1.4, 0.1), Rotation3::new(Vector3::new(0.1, 0.0, 0.05)))];
 ((0..n).map(|k| { let f = k as f64; let x = CameraPoint::from_point(Point3::new(2.0 * (1.7 * f).sin(), 1.5 * (2.9 * f).cos(), 5.0 + (4.3 * f).sin())); let w = |b: UnitVector3<f64>, g: f64| Unit::new_normalize(side * b.into_inner() + noise * Vector3::new((5.0 * f + g).sin(), (7.0 * f + g).cos(), 0.0)); [w(x.bearing(), 1.0), w(p[0].transform(x).bearing(), 2.0), w(p[1].transform(x).bearing(), 3.0)] }).collect(), p) }
'''
S('O02-own', 'O02', [(TVO, 'let tscale = poses\n            .iter()\n            .map(|pose| pose.translation.vector.norm())\n            .sum::<f64>();', 'let tscale = poses\n            .iter()\n            .map(|pose| pose.translation.vector.norm())\n            .fold(0.0, |a: f64, b| a.max(b) + 0.5 * a.min(b));')],
 THREE_ + '''fn main() { let (o, p) = obs(1, 0.05, -1.0); let (e, rate) = (0.5, 0.4); let r = three_view_simple_optimize_l1(p, e, rate, 1, &o);
 let q = p.map(|p| p.isometry().inverse()); let g = cv_geom::epipolar::three_view_gradients(o[0][0], q[0] * o[0][1], q[0].translation.vector, q[1] * o[0][2], q[1].translation.vector);
 let ts = q[0].translation.vector.norm() + q[1].translation.vector.norm(); let d = |g: Se3TangentSpace| Se3TangentSpace { translation: if g.translation.norm() > 0.0 { rate * g.translation.normalize() * (g.translation.norm() + ts * e) } else { Vector3::zeros() }, rotation: rate * g.rotation.normalize() * (g.rotation.norm() + e) };
 for k in 0..2 { let w = (d(g[k]).isometry() * q[k]).inverse(); check((w.to_homogeneous() - r[k].homogeneous()).norm() < 1e-9, "the step is not the weighted one"); } }''',
 'two poses with different translation lengths, L1 form', 'the translation scale depends on which of the two is longer')
S('O02-agree', 'O02', [(TVO, 'let rrate = if rrate.is_finite() { rrate } else { 0.0 };', 'let rrate = if rrate.is_finite() && rrate <= 1.0 { rrate } else { 0.0 };')],
 THREE_ + '''fn main() { let mut bad = 0; for k in 0..60 { let f = k as f64; let (o, p) = obs(1, 0.02 + 0.002 * f, 1.0); let o = vec![o[0]; 3]; let p = p.map(|p| CameraToCamera(Se3TangentSpace { translation: Vector3::zeros(), rotation: Vector3::new(0.01 * f.sin(), 0.02 * f.cos(), 0.01) }.isometry() * p.isometry())); let r = three_view_adaptive_optimize_l2(p, 1, &o); for j in 0..2 { if (r[j].isometry().rotation.matrix() - p[j].isometry().rotation.matrix()).norm() < 1e-9 { bad += 1; } } } check(bad < 4, "a rotation does not move although all landmarks agree"); }''',
 'landmarks that agree completely, where the ratio rounds to just above one', 'the rotation is not corrected then')

S('M02-far', 'M02', [(NST, 'if e.im == 0.0 {', 'if e.im == 0.0 && e.re.abs() < 3.0 {')],
 SCENE + FIVE + """fn main() { let h = five(1.0); check(h >= 95, "the pose is missed too often"); }""",
 'an essential matrix with a large first coordinate in the null space basis', 'its eigenvalue is taken for an artefact and the pose is missed')
S('M02-dup', 'M02', [(NST, '.map(|(ix, _)| ix)?;\n            if nullity != 4 {', '.map(|(ix, _)| ix)?;\n            if nullity < 4 {')],
 SCENE + """fn main() { let (t, r) = (Vector3::new(0.5, 0.2, 0.3), Rotation3::new(Vector3::new(0.3, -0.2, 0.5))); let p = CameraToCamera::from_parts(t, r); let m: Vec<FeatureMatch> = [(0.3, 0.2, 3.0), (-0.8, 0.5, 2.0), (1.0, -1.0, 4.0), (0.2, 1.4, 3.3), (0.2, 1.4, 3.3)].iter().map(|&(x, y, z)| { let x = CameraPoint::from_point(Point3::new(x, y, z)); FeatureMatch(x.bearing(), p.transform(x).bearing()) }).collect();
 check(nister_stewenius::NisterStewenius::new().estimate(m.iter().copied()).is_empty(), "poses from a degenerate sample"); }""",
 'a sample that contains the same match twice', 'meaningless poses are returned for it')

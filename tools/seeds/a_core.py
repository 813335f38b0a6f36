POINT='cv-core/src/point.rs'; POSE='cv-core/src/pose.rs'; SO3='cv-core/src/so3.rs'; TRI='cv-core/src/triangulation.rs'
PIN='cv-pinhole/src/lib.rs'; ESS='cv-pinhole/src/essential.rs'; GEO='cv-geom/src/triangulation.rs'; EPI='cv-geom/src/epipolar.rs'
S('C01-threshold', 'C01', [(POINT, 'if point.w.is_sign_negative() {', 'if point.w < -f64::EPSILON {')],
 'fn main() { let p = WorldPoint::from_homogeneous(Vector4::new(0.1, 0.2, -1.0, -1e-17)); check(p.homogeneous().w >= 0.0, "fourth coordinate is negative"); near(p.bearing().z, 1.0/(1.05f64).sqrt(), 1e-9, "direction of a far point"); }',
 'a point so far away that its fourth coordinate is a tiny negative number', 'the sign is no longer normalised for points near infinity, so they appear behind the camera')
S('C01-far', 'C01', [(POINT, 'Point3::from_homogeneous(self.homogeneous())', 'let h = self.homogeneous();\n        if h.w <= 1e-9 {\n            return None;\n        }\n        Point3::from_homogeneous(h)')],
 'fn main() { let p = CameraPoint::from_point(Point3::new(3e9, 1e9, 5e9)); check(p.point().is_some(), "a far point has no Euclidean form"); }',
 'a finite point farther than 1e9 units', 'the Euclidean form of a far but finite point is lost')
S('C02-negscale', 'C02', [(POSE, 'isometry.translation.vector *= scale;', 'isometry.translation.vector *= scale.abs();')],
 'fn main() { let p = CameraToCamera::from_parts(Vector3::new(1.0, 2.0, 3.0), Rotation3::identity()).scale(-2.0); near(p.isometry().translation.vector.x, -2.0, 1e-12, "scaled translation"); }',
 'a negative scale', 'scaling a pose by a negative factor keeps the direction of the translation')
S('C02-far', 'C02', [(POSE, 'pose.isometry().to_homogeneous() * input.homogeneous()\n}\n\n/// Retrieves the rotated', 'let input = input.homogeneous();\n    if input.w < 1e-6 {\n        // The translation does not matter at infinity.\n        return pose.isometry().rotation.to_homogeneous() * input;\n    }\n    pose.isometry().to_homogeneous() * input\n}\n\n/// Retrieves the rotated')],
 'fn main() { let p = CameraToCamera::from_parts(Vector3::new(1e6, 0.0, 0.0), Rotation3::identity()); let q = p.transform(CameraPoint::from_point(Point3::new(0.0, 0.0, 5e6))).point().unwrap(); near(q.x, 1e6, 1.0, "transformed far point"); }',
 'a point more than a million units away and a translation of that order', 'far points are transformed as if they were at infinity')
S('C03-near', 'C03', [(POSE, 'let dp_dt = Matrix4::<f64>::identity() * output.w;', 'let dp_dt = Matrix4::<f64>::identity() * output.w.min(1.0);')],
 'fn main() { let p = WorldPoint::from_point(Point3::new(0.1, 0.2, 0.3)); let (_, j) = WorldToCamera::identity().transform_jacobian_self(p); near(j[(0, 0)], p.homogeneous().w, 1e-12, "derivative of the output in the translation"); }',
 'a point closer than one unit (fourth coordinate above one)', 'the translation block of the pose Jacobian is wrong for near points')
S('C04-beyond', 'C04', [(SO3, 'let theta = theta2.sqrt();\n            let axis = Unit::new_unchecked(w.0 / theta);', 'let theta = theta2.sqrt();\n            let axis = Unit::new_unchecked(w.0 / theta);\n            let theta = theta.min(core::f64::consts::PI);')],
 'fn main() { let r: Rotation3<f64> = Skew3(Vector3::new(0.0, 0.0, 4.0)).into(); near(r[(0, 0)], 4f64.cos(), 1e-9, "rotation by four radians"); near(r[(1, 0)], 4f64.sin(), 1e-9, "rotation by four radians"); }',
 'a rotation vector longer than half a turn', 'the exponential map saturates at half a turn')
S('C05-short', 'C05', [(SO3, 'Self::new(self.translation.normalize(), self.rotation.normalize())', 'Self::new(self.translation.cap_magnitude(1.0), self.rotation.cap_magnitude(1.0))')],
 'fn main() { let t = Se3TangentSpace::new(Vector3::new(0.1, 0.2, 0.2), Vector3::new(0.0, 0.3, 0.4)).l1(); near(t.translation.norm(), 1.0, 1e-9, "length"); near(t.rotation.norm(), 1.0, 1e-9, "length"); }',
 'an increment shorter than one', 'the unit-length form leaves short increments as they are')
S('C06-negative', 'C06', [(POSE, 'min_by_key(|&(_, &n)| n.abs().to_bits())', 'min_by_key(|&(_, &n)| n.to_bits())')],
 '''fn main() { let mut worst = 0f64; for k in 0..400 { let f = k as f64; let x = CameraPoint::from_point(Point3::new((f * 0.37).sin(), (f * 0.73).cos(), 2.0 + (f * 0.11).sin()));
 let p = CameraToCamera::from_parts(Vector3::new(0.3 * (f * 0.3).cos(), 0.2, 0.1 * (f * 0.7).sin()), Rotation3::new(Vector3::new(0.1 * (f * 0.9).sin(), 0.05, -0.1)));
 worst = worst.max(p.residual(&FeatureMatch(x.bearing(), p.transform(x).bearing())).abs()); } check(worst < 1e-6, "exact match with a residual"); }''',
 'an exact match whose smallest computed eigenvalue is a tiny negative number', 'the wrong eigenvector is used as the point, so exact matches get a large residual')
S('C06-behind', 'C06', [(POSE, '- b.dot(&self.transform(point).bearing()))', '- b.dot(&self.transform(point).bearing()).abs())')],
 '''fn main() { let x = Point3::new(0.1, 0.2, 2.0); let p = CameraToCamera::from_parts(Vector3::new(0.0, 0.3, -4.0), Rotation3::identity());
 let q = p.transform(CameraPoint::from_point(x)); let b = -q.bearing().into_inner(); let m = FeatureMatch(CameraPoint::from_point(x).bearing(), Unit::new_normalize(b)); check(p.residual(&m) > 0.5, "a point behind the second camera has no residual"); }''',
 'a match whose point lies behind the second camera only', 'the residual no longer rejects points behind the second camera')
S('C07-inverse', 'C07', [(TRI, '.chain(pairs.map(|(pose, bearing)| (WorldToCamera(pose.0), bearing))),', '.chain(\n                    pairs\n                        .filter(|(pose, _)| pose.0.translation.vector.norm() > 1e-2)\n                        .map(|(pose, bearing)| (WorldToCamera(pose.0), bearing)),\n                ),')],
 '''use cv_geom::triangulation::*;
fn main() { let x = CameraPoint::from_point(Point3::new(0.001, 0.002, 0.02)); let p = CameraToCamera::from_parts(Vector3::new(0.005, 0.0, 0.0), Rotation3::identity());
 check(LinearEigenTriangulator::new().triangulate_relative(p, x.bearing(), p.transform(x).bearing()).is_some(), "a short baseline does not triangulate"); }''',
 'a baseline shorter than 0.01 units (a small scene)', 'observations from nearby cameras are dropped before triangulation')
S('P01-skew', 'P01', [(PIN, 'let y = projection.y * self.focals.y;\n        let x = projection.x * self.focals.x + self.skew * projection.y;', 'let y = projection.y * self.focals.y;\n        let x = projection.x * self.focals.x + self.skew.abs() * projection.y;')],
 '''use cv_pinhole::*;
fn main() { let k = CameraIntrinsics { focals: Vector2::new(800.0, 900.0), principal_point: Point2::new(500.0, 600.0), skew: -1.7 }; let p = Point2::new(471.0, 322.0); let q = k.uncalibrate(k.calibrate(KeyPoint(p))).unwrap(); near(q.0.x, p.x, 1e-6, "pixel after a round trip"); }''',
 'a negative skew', 'projection uses the magnitude of the skew')
S('P02-barrel', 'P02', [(PIN, 'let undistorted = Point2::from(distorted / (1.0 + self.k1 * r2));', 'let undistorted = Point2::from(distorted / (1.0 + self.k1 * r2.min(1.0)));')],
 '''use cv_pinhole::*;
fn main() { let k = CameraIntrinsicsK1Distortion::new(CameraIntrinsics { focals: Vector2::new(400.0, 400.0), principal_point: Point2::new(500.0, 500.0), skew: 0.0 }, -0.1); let b = k.calibrate(KeyPoint(Point2::new(1000.0, 900.0))); let r2 = 1.25f64 * 1.25 + 1.0; near(b.x / b.z, 1.25 / (1.0 - 0.1 * r2), 1e-9, "undistorted point"); }''',
 'a pixel more than one focal length from the principal point', 'the distortion stops growing outside the unit radius')
S('P03-portrait', 'P03', [(PIN, 'sensor_dimensions.y / pixels.y as f64,', 'sensor_dimensions.y / pixels.y.min(pixels.x) as f64,')],
 '''use cv_pinhole::*;
fn main() { let s = CameraSpecification::from_sensor(Vector2::new(300, 400), Vector2::new(6.0, 8.0)); near(s.pixel_dimensions.y, 0.02, 1e-12, "height of a pixel"); }''',
 'an image taller than wide', 'the pixel height of a portrait sensor is wrong')
S('P04-mean', 'P04', [(PIN, '.map(|errors| errors.iter().map(|v| v.norm()).sum::<f64>() * 0.5)', '.map(|errors| errors.iter().sum::<Vector2<f64>>().norm() * 0.5)')],
 '''use cv_pinhole::*;
struct T(CameraPoint); impl TriangulatorRelative for T { fn triangulate_relative(&self, _: CameraToCamera, _: UnitVector3<f64>, _: UnitVector3<f64>) -> Option<CameraPoint> { Some(self.0) } }
fn main() { let x = CameraPoint::from_point(Point3::new(0.0, 0.0, 1.0)); let m = FeatureMatch(unit(0.1, 0.0, 1.0), unit(-0.1, 0.0, 1.0)); near(average_pose_reprojection_error(CameraToCamera::identity(), m, T(x)).unwrap(), 0.1, 1e-9, "average error"); }''',
 'displacements of opposite direction in the two images', 'errors of the two images cancel in the average')
S('E01-sign', 'E01', [(ESS, 'Float::abs((normalized(b).transpose() * mat * normalized(a))[0])', 'Float::max((normalized(b).transpose() * mat * normalized(a))[0], 0.0)')],
 '''use cv_pinhole::*;
fn main() { let e = EssentialMatrix::from(CameraToCamera::from_parts(Vector3::new(1.0, 0.0, 0.0), Rotation3::identity())); let m = |y: f64| FeatureMatch(unit(0.0, 0.0, 1.0), unit(0.0, y, 1.0)); near(e.residual(&m(0.1)), 0.1, 1e-9, "residual"); near(e.residual(&m(-0.1)), 0.1, 1e-9, "residual"); }''',
 'a mismatch on the negative side of the epipolar line', 'mismatches on one side of the epipolar line count as exact')
S('E02-fourth', 'E02', [(ESS, 'CameraToCamera::from_parts(-t, rot_b),', 'CameraToCamera::from_parts(-t, rot_a),')],
 '''use cv_pinhole::*;
fn main() { for k in 0..40 { let f = k as f64; let p = CameraToCamera::from_parts(Vector3::new(f.sin(), f.cos(), (2.0 * f).sin()).normalize(), Rotation3::new(Vector3::new((3.0 * f).cos(), 0.3, (5.0 * f).sin()))); let c = EssentialMatrix::from(p).possible_unscaled_poses(1e-10, 1000).unwrap();
 for i in 0..4 { for j in 0..i { check((c[i].homogeneous() - c[j].homogeneous()).norm() > 1e-3, "two candidates are the same"); } } } }''',
 'a pose whose decomposition is the fourth candidate', 'one of the four candidate poses is missing')
S('E03-near', 'E03', [(ESS, 'svd.singular_values[0] = new_singular;\n        svd.singular_values[1] = new_singular;\n        // Cannot', 'if svd.singular_values[0] > 1.001 * svd.singular_values[1] {\n            svd.singular_values[0] = new_singular;\n            svd.singular_values[1] = new_singular;\n        }\n        // Cannot')],
 '''use cv_pinhole::*;
fn main() { let e = EssentialMatrix(Matrix3::new(1.0, 0.0, 0.0, 0.0, 0.9995, 0.0, 0.0, 0.0, 0.1)).recondition(1e-10, 1000).unwrap(); near(e[(0, 0)], e[(1, 1)], 1e-9, "singular values"); }''',
 'two singular values within a thousandth of each other', 'almost equal singular values are left unequal')
S('G01-many', 'G01', [(GEO, 'let mut a: Matrix4<f64> = zero();\n        for (pose, bearing) in pairs.clone() {', 'let mut a: Matrix4<f64> = zero();\n        for (pose, bearing) in pairs.clone().take(8) {')],
 '''use cv_geom::triangulation::*;
fn main() { let x = WorldPoint::from_point(Point3::new(0.2, 0.1, 4.0)); let mut o = vec![]; for k in 0..12 { let p = WorldToCamera::from_parts(Vector3::new(0.1 * k as f64, 0.05 * (k as f64).sin(), 0.0), Rotation3::identity()); let b = p.transform(x).bearing(); o.push((p, if k < 8 { Unit::new_normalize(b.into_inner() + Vector3::new(0.0, 0.01, 0.0)) } else { b })); }
 let all = LinearEigenTriangulator::new().triangulate_observations(o.iter().copied()).unwrap(); let mut back = o.clone(); back.reverse(); let rev = LinearEigenTriangulator::new().triangulate_observations(back.iter().copied()).unwrap(); check((all.point().unwrap() - rev.point().unwrap()).norm() < 1e-9, "the order of the observations matters"); }''',
 'more than eight observations', 'observations after the eighth are ignored in the least squares problem')
S('G02-back', 'G02', [(GEO, '.copy_from(&RowVector4::new(0.0, -a.z, a.y, 0.0));\n        design\n            .row_mut(2)\n            .copy_from(&(b.x * pose.row(2) - b.z * pose.row(0)));', '.copy_from(&RowVector4::new(0.0, -a.z.abs(), a.y, 0.0));\n        design\n            .row_mut(2)\n            .copy_from(&(b.x * pose.row(2) - b.z * pose.row(0)));', 'first')],
 '''use cv_geom::triangulation::*;
fn main() { let x = CameraPoint::from_point(Point3::new(0.4, 0.5, -2.0)); let p = CameraToCamera::from_parts(Vector3::new(0.5, 0.1, 0.0), Rotation3::identity()); let r = RelativeDltTriangulator::new().triangulate_relative(p, x.bearing(), p.transform(x).bearing()); check(r.is_some(), "no point"); check((r.unwrap().point().unwrap() - x.point().unwrap()).norm() < 1e-6, "another point"); }''',
 'a bearing with negative z (cameras with a field of view above half a turn)', 'one collinearity equation has the wrong sign for such bearings')
S('G03-mean', 'G03', [(GEO, 'let average_center = sum_center / total;', 'let average_center = sum_center / total.min(4.0);')],
 '''use cv_geom::triangulation::*;
fn main() { let x = WorldPoint::from_point(Point3::new(0.0, 0.0, 4.0)); let mut o = vec![]; for k in 0..6 { let f = k as f64 * std::f64::consts::PI / 3.0; let p = WorldToCamera::from_parts(Vector3::new(0.4 + f.cos(), f.sin(), 0.0), Rotation3::identity()); o.push((p, p.transform(x).bearing())); }
 let r = MeanMeanTriangulator.triangulate_observations(o.iter().copied()).unwrap(); let c = Vector3::new(-0.4, 0.0, 0.0); let mut m = Vector3::zeros(); for (_, b) in &o { m += b.into_inner(); } let m = m.normalize(); let d = r.point().unwrap().coords - c; check(d.cross(&m).norm() < 1e-9, "not on the mean ray"); }''',
 'more than four observations', 'the centre of the mean ray is wrong for many observations')
S('G04-order', 'G04', [(GEO, 'if cross_a_norm < cross_b_norm {', 'if a.dot(&normalized_translation).abs() < b.dot(&normalized_translation).abs() {')],
 '''use cv_geom::triangulation::*;
fn main() { let p = CameraToCamera::from_parts(Vector3::new(-1.0, 0.0, 0.0), Rotation3::identity()); let (a, b) = (unit(0.5, 0.05, 1.0), unit(0.1, -0.02, 1.0));
 let q = AngularL1Triangulator.triangulate_relative(p, a, b).unwrap(); let (u, v) = (q.bearing(), p.transform(q).bearing()); let s = |x: UnitVector3<f64>, y: UnitVector3<f64>| x.cross(&y).norm(); check(s(u, a) < 1e-9 || s(v, b) < 1e-9, "both rays were corrected");
 let best = |t: UnitVector3<f64>| t.cross(&Vector3::x()).norm(); if best(a) < best(b) { check(s(v, b) < 1e-9, "the wrong ray was corrected"); } else { check(s(u, a) < 1e-9, "the wrong ray was corrected"); } }''',
 'an inexact match (for an exact one both choices give the same point)', 'the ray farther from the baseline is corrected, which is not the smallest correction')

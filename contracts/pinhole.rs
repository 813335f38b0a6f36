use crate::util::*;
use cv_core::*;
use cv_pinhole::*;
pub fn table() -> Vec<Harness> {
    vec![
        h("P01", "calibrate", "CameraIntrinsics::calibrate", calibrate),
        h("P01", "uncalibrate", "CameraIntrinsics::uncalibrate", uncalibrate),
        h("P01", "round_trip_pixel", "CameraIntrinsics::calibrate; CameraIntrinsics::uncalibrate", round_pixel),
        h("P01", "round_trip_bearing", "CameraIntrinsics::calibrate; CameraIntrinsics::uncalibrate", round_bearing),
        h("P02", "k1_calibrate", "CameraIntrinsicsK1Distortion::calibrate", k1_calibrate),
        h("P02", "k1_uncalibrate", "CameraIntrinsicsK1Distortion::uncalibrate", k1_uncalibrate),
        h("P02", "k1_round_trip_pixel", "CameraIntrinsicsK1Distortion::calibrate; CameraIntrinsicsK1Distortion::uncalibrate", k1_round_pixel),
        h("P02", "k1_round_trip_bearing", "CameraIntrinsicsK1Distortion::calibrate; CameraIntrinsicsK1Distortion::uncalibrate", k1_round_bearing),
        h("P02", "k1_none", "CameraIntrinsicsK1Distortion::uncalibrate", k1_none),
        h("P03", "intrinsics_builders", "CameraIntrinsics::{identity; focal; focals; principal_point; skew; matrix}", builders),
        h("P03", "specification", "CameraSpecification::{from_sensor; from_sensor_square; intrinsics_centered}", specification),
        h("P04", "reprojection_error", "pose_reprojection_error; average_pose_reprojection_error", reprojection),
        h("P04", "reprojection_exact", "pose_reprojection_error", reprojection_exact),
        h("E01", "essential_from_pose", "EssentialMatrix::from(CameraToCamera)", essential_from_pose),
        h("E01", "essential_residual", "EssentialMatrix::residual", essential_residual),
        h("E01", "epipolar_constraint", "EssentialMatrix::from(CameraToCamera); EssentialMatrix::residual", epipolar_constraint),
        h("E02", "decomposition", "EssentialMatrix::possible_rotations_unscaled_translation", decomposition),
        h("E02", "decomposition_views", "EssentialMatrix::{possible_rotations; possible_unscaled_poses; possible_unscaled_poses_bearing}", decomposition_views),
        h("E02", "decomposition_recovers_pose", "EssentialMatrix::possible_unscaled_poses; EssentialMatrix::from(CameraToCamera)", decomposition_pose),
        h("E03", "recondition", "EssentialMatrix::recondition", recondition),
        h("E03", "recondition_nearest", "EssentialMatrix::recondition", recondition_nearest),
        h("E03", "recondition_essential", "EssentialMatrix::recondition", recondition_essential),
    ]
}
fn intr(n: &str) -> CameraIntrinsics {
    let s = |x: &str| format!("{}.{}", n, x);
    CameraIntrinsics { focals: Vector2::new(nonzero(&s("fx")), nonzero(&s("fy"))), principal_point: Point2::new(any(&s("cx")), any(&s("cy"))), skew: any(&s("skew")) }
}
/// pixel of the normalised image point (x, y): K (x, y, 1)
fn project(c: &CameraIntrinsics, x: R, y: R) -> [R; 2] {
    [c.focals.x * x + c.skew * y + c.principal_point.x, c.focals.y * y + c.principal_point.y]
}
fn kp(n: &str) -> KeyPoint {
    KeyPoint(Point2::new(any(&format!("{}.x", n)), any(&format!("{}.y", n))))
}
fn pix(k: &KeyPoint) -> [R; 2] {
    [k.0.x, k.0.y]
}
fn calibrate() {
    let c = intr("c");
    let k = kp("k");
    let b = c.calibrate(k);
    ensure_finites("finite", &sv(&b));
    ensure_eq("unit length", nsq(&b), lit(1.0));
    ensure_pos("in front of the camera", b.z);
    ensure_eqs("K (b / b.z) is the pixel", &project(&c, b.x / b.z, b.y / b.z), &pix(&k));
}
fn uncalibrate() {
    let c = intr("c");
    let b = unit3("b");
    assume_apart(b.z, 1e-3);
    match c.uncalibrate(b) {
        Some(k) => {
            ensure_pos("only bearings in front have a pixel", b.z);
            ensure_eqs("the pixel is K (b / b.z)", &pix(&k), &project(&c, b.x / b.z, b.y / b.z));
        }
        None => ensure_pos("only bearings behind have none", -b.z),
    }
}
fn round_pixel() {
    let c = intr("c");
    let k = kp("k");
    match c.uncalibrate(c.calibrate(k)) {
        Some(q) => ensure_eqs("uncalibrate undoes calibrate", &pix(&q), &pix(&k)),
        None => ensure("every pixel has a bearing in front", false),
    }
}
fn round_bearing() {
    let c = intr("c");
    let b = unit3_front("b");
    match c.uncalibrate(b) {
        Some(q) => ensure_eqs("calibrate undoes uncalibrate", &sv(&c.calibrate(q)), &sv(&b)),
        None => ensure("a bearing in front has a pixel", false),
    }
}
fn k1(n: &str) -> CameraIntrinsicsK1Distortion {
    CameraIntrinsicsK1Distortion::new(intr(n), any_in("k1", -0.3, 0.3))
}
/// distorted normalised coordinates of a pixel
fn distorted(c: &CameraIntrinsics, k: &KeyPoint) -> [R; 2] {
    let y = (k.0.y - c.principal_point.y) / c.focals.y;
    [(k.0.x - c.principal_point.x - c.skew * y) / c.focals.x, y]
}
fn near(n: &str, c: &CameraIntrinsics) -> KeyPoint {
    let (x, y) = (any_in(&format!("{}.dx", n), -1.2, 1.2), any_in(&format!("{}.dy", n), -1.2, 1.2));
    KeyPoint(Point2::from(project(c, x, y)))
}
fn k1_calibrate() {
    let c = k1("c");
    let s = c.simple_intrinsics;
    let k = near("k", &s);
    let d = distorted(&s, &k);
    let f = lit(1.0) + c.k1 * (d[0] * d[0] + d[1] * d[1]);
    assume_apart(f, 1e-2);
    let b = c.calibrate(k);
    ensure_eq("unit length", nsq(&b), lit(1.0));
    ensure_pos("in front of the camera", b.z);
    ensure_eqs("undistorted by 1 + k1 r^2", &[b.x * f, b.y * f], &[d[0] * b.z, d[1] * b.z]);
}
fn k1_uncalibrate() {
    let c = k1("c");
    let s = c.simple_intrinsics;
    let b = unit3_front("b");
    let (ux, uy) = (b.x / b.z, b.y / b.z);
    // bearings that some pixel maps to: 1 - 4 k1 |u|^2 >= 0
    assume_pos_by(lit(1.0) - lit(4.0) * c.k1 * (ux * ux + uy * uy), 1e-3);
    match c.uncalibrate(b) {
        Some(k) => {
            ensure_finites("finite", &pix(&k));
            let d = distorted(&s, &k);
            let f = lit(1.0) + c.k1 * (d[0] * d[0] + d[1] * d[1]);
            ensure_eqs("its undistortion is the bearing", &[ux * f, uy * f], &d);
            ensure_nonneg("on the branch through the principal point", lit(1.0) - c.k1 * (d[0] * d[0] + d[1] * d[1]));
        }
        None => ensure("a bearing in front has a pixel", false),
    }
}
fn k1_round_pixel() {
    let c = k1("c");
    let s = c.simple_intrinsics;
    let k = near("k", &s);
    let d = distorted(&s, &k);
    let q = c.k1 * (d[0] * d[0] + d[1] * d[1]);
    // the monotone range of the distortion
    assume_pos_by(lit(1.0) - q, 1e-2);
    assume_pos_by(lit(1.0) + q, 1e-2);
    match c.uncalibrate(c.calibrate(k)) {
        Some(r) => {
            ensure_finites("finite", &pix(&r));
            ensure_eqs("uncalibrate undoes calibrate", &pix(&r), &pix(&k))
        }
        None => ensure("every pixel has a bearing in front", false),
    }
}
fn k1_round_bearing() {
    let c = k1("c");
    let b = unit3_front("b");
    let (ux, uy) = (b.x / b.z, b.y / b.z);
    assume_pos_by(lit(1.0) - lit(4.0) * c.k1 * (ux * ux + uy * uy), 1e-3);
    match c.uncalibrate(b) {
        Some(k) => ensure_eqs("calibrate undoes uncalibrate", &sv(&c.calibrate(k)), &sv(&b)),
        None => ensure("a bearing in front has a pixel", false),
    }
}
fn k1_none() {
    let c = k1("c");
    let b = unit3("b");
    assume_apart(b.z, 1e-3);
    let some = c.uncalibrate(b).is_some();
    ensure("a pixel exactly for the bearings in front", some == (b.z > lit(0.0)));
}
fn all5(c: &CameraIntrinsics) -> Vec<R> {
    vec![c.focals.x, c.focals.y, c.principal_point.x, c.principal_point.y, c.skew]
}
fn builders() {
    let c = intr("c");
    let (z, o) = (lit(0.0), lit(1.0));
    let v = all5(&c);
    ensure_eqs("identity", &all5(&CameraIntrinsics::identity()), &[o, o, z, z, z]);
    let (a, b) = (any("a"), any("b"));
    ensure_eqs("focals", &all5(&c.focals(Vector2::new(a, b))), &[a, b, v[2], v[3], v[4]]);
    ensure_eqs("focal", &all5(&c.focal(a)), &[a, a, v[2], v[3], v[4]]);
    ensure_eqs("principal point", &all5(&c.principal_point(Point2::new(a, b))), &[v[0], v[1], a, b, v[4]]);
    ensure_eqs("skew", &all5(&c.skew(a)), &[v[0], v[1], v[2], v[3], a]);
    let m = c.matrix();
    let x = vec3("x");
    ensure_eqs("matrix", &sv(&(m * x)), &[v[0] * x.x + v[4] * x.y + v[2] * x.z, v[1] * x.y + v[3] * x.z, x.z]);
    let k = CameraIntrinsicsK1Distortion::new(c, a);
    ensure_eqs("distorted intrinsics keep their parts", &all5(&k.simple_intrinsics), &v);
    ensure_eq("k1", k.k1, a);
}
fn specification() {
    // one axis is an arbitrary positive number of pixels
    let other = [1usize, 3, 640][pick("pixels on the other axis", 3)];
    let n = if PROOF { MAGIC_COUNT as usize } else { [1usize, 2, 479, 480, 4000][pick("pixels", 5)] };
    let along_x = flag("x");
    let p = if along_x { Vector2::new(n, other) } else { Vector2::new(other, n) };
    let val = |u: usize| symbolic_count(u as f64).unwrap_or(lit(u as f64));
    let (px, py) = (val(p.x), val(p.y));
    let (w, hh) = (pos("w"), pos("h"));
    let s = CameraSpecification::from_sensor(p, Vector2::new(w, hh));
    ensure_eqs("pixel size times pixels is the sensor", &[s.pixel_dimensions.x * px, s.pixel_dimensions.y * py], &[w, hh]);
    ensure("pixels are kept", s.pixels == p);
    let q = CameraSpecification::from_sensor_square(p, w);
    ensure_eqs("square pixels spanning the width", &[q.pixel_dimensions.x * px, q.pixel_dimensions.y], &[w, q.pixel_dimensions.x]);
    ensure("pixels are kept", q.pixels == p);
    let f = pos("f");
    for sp in [s, q] {
        let c = sp.intrinsics_centered(f);
        let two = lit(2.0);
        let o = lit(1.0);
        // the middle of the pixel centres 0 .. n-1
        ensure_eqs("centred", &[c.principal_point.x * two, c.principal_point.y * two], &[px - o, py - o]);
        ensure_eqs("focal, no skew", &[c.focals.x, c.focals.y, c.skew], &[f, f, lit(0.0)]);
    }
}
struct Tri(Option<CameraPoint>);
impl TriangulatorRelative for Tri {
    fn triangulate_relative(&self, _: CameraToCamera, _: UnitVector3<R>, _: UnitVector3<R>) -> Option<CameraPoint> {
        self.0
    }
}
fn reprojection() {
    let i = isometry("pose");
    let pose = CameraToCamera(i);
    let (a, b) = (unit3_front("a"), unit3_front("b"));
    let u = unit3("x");
    let v = Vector4::new(u.x, u.y, u.z, pos("w"));
    let e = act(&i, &v);
    assume_apart(v.z, 1e-2);
    assume_apart(e.z, 1e-2);
    let m = FeatureMatch(a, b);
    ensure("no triangulation, no error", pose_reprojection_error(pose, m, Tri(None)).is_none());
    ensure("no triangulation, no average", average_pose_reprojection_error(pose, m, Tri(None)).is_none());
    let p = CameraPoint::from_homogeneous_unchecked(v);
    let got = pose_reprojection_error(pose, m, Tri(Some(p)));
    let front = v.z > lit(0.0) && e.z > lit(0.0);
    ensure("an error exactly for points in front of both cameras", got.is_some() == front);
    if let Some([ea, eb]) = got {
        ensure_eqs("error in the first image", &sv(&ea), &[a.x / a.z - v.x / v.z, a.y / a.z - v.y / v.z]);
        ensure_eqs("error in the second image", &sv(&eb), &[b.x / b.z - e.x / e.z, b.y / b.z - e.y / e.z]);
        if flag("average") {
            match average_pose_reprojection_error(pose, m, Tri(Some(p))) {
                Some(r) => {
                    let (na, nb) = (ea.norm(), eb.norm());
                    ensure_eq("average is the mean length", r + r, na + nb)
                }
                None => ensure("an average when there are errors", false),
            }
        }
    }
}
fn dir(v: &V3) -> UnitVector3<R> {
    let n = nsq(v).sqrt();
    Unit::new_unchecked(Vector3::new(v.x / n, v.y / n, v.z / n))
}
/// An exact match: the linear triangulation gives the point (G01 `linear_exact_2`, as a homogeneous vector of any length)
fn reprojection_exact() {
    if PROOF {
        let (q, a, b, d, e) = (rotation("pose"), unit3_front("a"), unit3_front("b"), pos("d"), pos("e"));
        let x = a.into_inner() * d;
        let t = b.into_inner() * e - mv(q.matrix(), &x);
        let w = pos("w");
        let p = CameraPoint::from_homogeneous_unchecked(Vector4::new(x.x * w, x.y * w, x.z * w, w));
        assume(a.z > lit(0.0) && b.z > lit(0.0));
        let pose = CameraToCamera(IsometryMatrix3::from_parts(t.into(), q));
        match pose_reprojection_error(pose, FeatureMatch(a, b), Tri(Some(p))) {
            Some([ea, eb]) => {
                ensure_eqs("no error in the first image", &sv(&ea), &[lit(0.0); 2]);
                ensure_eqs("no error in the second image", &sv(&eb), &[lit(0.0); 2]);
            }
            None => ensure("a point in front of both cameras has an error", false),
        }
        return;
    }
    let i = isometry("pose");
    let x = vec3("x");
    let y = act(&i, &Vector4::new(x.x, x.y, x.z, lit(1.0))).xyz();
    assume(x.z > lit(0.1) && y.z > lit(0.1));
    sample_if(|| nsq(&x) < lit(100.0) && nsq(&i.translation.vector) < lit(100.0));
    let (a, b) = (dir(&x), dir(&y));
    let rb = mv(&tr(i.rotation.matrix()), &b);
    assume_pos_by(nsq(&cross3(&a, &rb)), 0.01);
    let tri = cv_geom::triangulation::LinearEigenTriangulator::new();
    match pose_reprojection_error(CameraToCamera(i), FeatureMatch(a, b), tri) {
        Some([ea, eb]) => {
            ensure_eqs("no error in the first image", &sv(&ea), &[lit(0.0); 2]);
            ensure_eqs("no error in the second image", &sv(&eb), &[lit(0.0); 2]);
        }
        None => ensure("exact matches triangulate", false),
    }
}
fn essential_from_pose() {
    let i = isometry("pose");
    let e = EssentialMatrix::from(CameraToCamera(i)).0;
    let x = vec3("x");
    ensure_eqs("E x = t x (R x)", &sv(&(e * x)), &sv(&cross3(&i.translation.vector, &mv(i.rotation.matrix(), &x))));
}
fn essential_residual() {
    let e = mat3("e");
    let (a, b) = (unit3("a"), unit3("b"));
    assume_apart(a.z, 1e-2);
    assume_apart(b.z, 1e-2);
    let r = EssentialMatrix(e).residual_(&FeatureMatch(a, b));
    let v = dot3(&b.into_inner(), &mv(&e, &a.into_inner())) / (a.z * b.z);
    ensure_finite("finite", r);
    ensure_nonneg("not negative", r);
    ensure_eq("magnitude of b^T E a in image coordinates", r * r, v * v);
}
trait Residual {
    fn residual_(&self, m: &FeatureMatch) -> R;
}
impl Residual for EssentialMatrix {
    fn residual_(&self, m: &FeatureMatch) -> R {
        use sample_consensus::Model;
        self.residual(m)
    }
}
fn epipolar_constraint() {
    let i = isometry("pose");
    let u = unit3("x");
    let v = Vector4::new(u.x, u.y, u.z, nonneg("w"));
    let e = act(&i, &v).xyz();
    assume_apart(u.z, 1e-2);
    assume_apart(e.z, 1e-2);
    let m = FeatureMatch(u, dir(&e));
    ensure_zero("a point both cameras see satisfies the constraint", EssentialMatrix::from(CameraToCamera(i)).residual_(&m));
}
fn diag110(u: &[R], vt: &[R]) -> Vec<R> {
    // U diag(1,1,0) V^T, column-major
    let mut o = vec![];
    for c in 0..3 {
        for r in 0..3 {
            o.push(u[r] * vt[c * 3] + u[3 + r] * vt[c * 3 + 1]);
        }
    }
    o
}
fn proper(label: &str, m: &Matrix3<R>) {
    ensure_eqs(&format!("{} is orthonormal", label), &sm(&mm(m, &tr(m))), &sm(&Matrix3::identity()));
    ensure_eq(&format!("{} is not a reflection", label), shim::det(&sm(m)), lit(1.0));
}
/// f64 side: the essential matrices of random poses; proof side: U diag(s1,s2,s3) V^T of the SVD contract
fn some_essential() -> (EssentialMatrix, IsometryMatrix3<R>) {
    let i = isometry("pose");
    if PROOF {
        return (EssentialMatrix(mat3("e")), i);
    }
    assume_pos_by(nsq(&i.translation.vector), 0.01);
    (EssentialMatrix::from(CameraToCamera(i)), i)
}
fn decomposition() {
    let (e, _) = some_essential();
    let got = e.possible_rotations_unscaled_translation(lit(1e-9), 1000);
    let (ra, rb, t) = match got {
        Some(x) => x,
        None => {
            if !PROOF {
                ensure("a decomposition", false)
            }
            return;
        }
    };
    let d = if PROOF {
        let c = shim::calls("svd");
        ensure("one decomposition", c.len() == 1);
        ensure_eqs("of the matrix itself", &c[0].ins, &sm(&e.0));
        diag110(&c[0].outs, &c[0].outs2)
    } else {
        let n = nsq(&e.0.column(0).into_owned()) + nsq(&e.0.column(1).into_owned()) + nsq(&e.0.column(2).into_owned());
        let s = (n / lit(2.0)).sqrt();
        sm(&e.0).into_iter().map(|x| x / s).collect()
    };
    let neg: Vec<R> = d.iter().map(|x| -*x).collect();
    ensure_eq("unit translation", nsq(&t), lit(1.0));
    for (n, r) in [("first rotation", ra), ("second rotation", rb)] {
        proper(n, r.matrix());
        let p = sm(&mm(&crossm(&t), r.matrix()));
        ensure(&format!("{}: t x R is the essential matrix up to sign", n), same(&p, &d) || same(&p, &neg));
    }
    // the two differ by a half turn (about t)
    let m = mm(ra.matrix(), &tr(rb.matrix()));
    ensure_eq("the two rotations differ by a half turn", m[(0, 0)] + m[(1, 1)] + m[(2, 2)], lit(-1.0));
}
fn decomposition_views() {
    let (e, _) = some_essential();
    shim::config("may_fail", 0);
    let (ra, rb, t) = e.possible_rotations_unscaled_translation(lit(1e-9), 1000).unwrap();
    if PROOF {
        // the same decomposition again
        let c = shim::calls("svd").remove(0);
        shim::replay_svd(c);
    }
    let want = |t: &V3, r: &Rotation3<R>| {
        let mut o = sm(r.matrix());
        o.extend(sv(t));
        o
    };
    let has = |l: &[Vec<R>], w: &[R]| l.iter().filter(|x| same(x, w)).count() == 1;
    let four = [want(&t, &ra), want(&t, &rb), want(&-t, &ra), want(&-t, &rb)];
    if let Some(p) = e.possible_unscaled_poses(lit(1e-9), 1000) {
        let l: Vec<_> = p.iter().map(|p| iso(&p.0)).collect();
        for (k, w) in four.iter().enumerate() {
            ensure(&format!("the four poses contain combination {} once", k), has(&l, w));
        }
    } else {
        ensure("four poses", false)
    }
    if let Some(p) = e.possible_unscaled_poses_bearing(lit(1e-9), 1000) {
        let l: Vec<_> = p.iter().map(|p| iso(&p.0)).collect();
        for k in 0..2 {
            ensure(&format!("one pose for rotation {}", k), l.iter().filter(|x| same(x, &four[k]) || same(x, &four[k + 2])).count() == 1);
        }
    } else {
        ensure("two poses", false)
    }
    if let Some(p) = e.possible_rotations(lit(1e-9), 1000) {
        let l: Vec<_> = p.iter().map(|r| sm(r.matrix())).collect();
        ensure("both rotations", has(&l, &sm(ra.matrix())) && has(&l, &sm(rb.matrix())));
    } else {
        ensure("two rotations", false)
    }
}
/// Every singular value decomposition of the essential matrix n [q1 x q2] R with ordered singular values: any basis q1, q2 of
/// the plane, the third factors either way.
#[derive(Clone)]
pub struct Decomposed {
    pub e: Matrix3<R>,
    u: Matrix3<R>,
    v: Matrix3<R>,
    pub norm: R,
    pub pose: Vec<R>,
}
pub fn some_decomposition() -> Decomposed {
    let (q, r, n) = (rotation("u"), rotation("r"), pos("n"));
    let q = q.matrix();
    let col = |k: usize| q.column(k).into_owned();
    let side = |name: &str| if flag(name) { lit(-1.0) } else { lit(1.0) };
    let t = col(2) * side("other direction");
    let i = IsometryMatrix3::from_parts((t * n).into(), r);
    let e = EssentialMatrix::from(CameraToCamera(i)).0;
    let u3 = col(2) * side("other third column");
    let (v1, v2) = (mv(&tr(&e), &col(0)) / n, mv(&tr(&e), &col(1)) / n);
    let v3 = v1.cross(&v2) * side("other third row");
    let u = Matrix3::from_columns(&[col(0), col(1), u3]);
    let v = Matrix3::from_columns(&[v1, v2, v3]);
    ensure_eqs("V is orthogonal", &sm(&mm(&v, &tr(&v))), &sm(&Matrix3::identity()));
    let mut pose = sm(r.matrix());
    pose.extend(sv(&t));
    Decomposed { e, u, v, norm: n, pose }
}
impl Decomposed {
    /// this decomposition of the matrix times k, for a negative factor with the other sign of V
    pub fn call(&self, k: R, negative: bool) -> shim::Call {
        let s = if negative { lit(-1.0) } else { lit(1.0) };
        let n = self.norm * k;
        let m = sm(&self.e).into_iter().map(|x| x * k * s).collect();
        shim::Call { what: "svd", ins: m, outs: sm(&self.u), outs2: sm(&tr(&(self.v * s))), vals: vec![n, n, lit(0.0)], index: 0 }
    }
    pub fn replay(&self, k: R, negative: bool) {
        let c = self.call(k, negative);
        let d: Vec<R> = diag110(&c.outs, &c.outs2).into_iter().map(|x| x * c.vals[0]).collect();
        ensure_eqs("U diag(n, n, 0) V^T is the matrix", &d, &c.ins);
        shim::replay_svd(c);
    }
}
fn decomposition_of_pose() {
    let d = some_decomposition();
    d.replay(lit(1.0), false);
    let want = d.pose.clone();
    shim::config("may_fail", 0);
    let p = EssentialMatrix(d.e).possible_unscaled_poses(lit(1e-12), 1000);
    if !shim::replayed() {
        not_checked("possible_unscaled_poses", "another decomposition");
    }
    ensure("exactly one of the four poses is the true one", p.map(|p| p.iter().filter(|p| same(&iso(&p.0), &want)).count() == 1) == Some(true));
}
fn decomposition_pose() {
    if PROOF {
        return decomposition_of_pose();
    }
    set_tol(1e-5);
    let (e, i) = some_essential();
    let n = nsq(&i.translation.vector).sqrt();
    let mut want = sm(i.rotation.matrix());
    want.extend(i.translation.vector.iter().map(|x| *x / n));
    let ok = e.possible_unscaled_poses(lit(1e-12), 1000).map(|p| p.iter().filter(|p| same(&iso(&p.0), &want)).count() == 1);
    ensure("exactly one of the four poses is the true one", ok == Some(true));
}
fn recondition() {
    let e = EssentialMatrix(mat3("e"));
    let r = e.recondition(lit(1e-12), 1000);
    if !PROOF {
        if let Some(r) = r {
            // singular values of the result: m, m, 0
            let m = r.0;
            ensure_zero("singular", shim::det(&sm(&m)));
            let g = mm(&m, &tr(&m));
            let t = g[(0, 0)] + g[(1, 1)] + g[(2, 2)];
            // 2 E E^T E = tr(E E^T) E
            let l = mm(&g, &m);
            ensure_eqs("an essential matrix", &sm(&(l * lit(2.0))), &sm(&(m * t)));
        } else {
            ensure("a result", false)
        }
        return;
    }
    if let Some(r) = r {
        let c = shim::calls("svd");
        ensure_eqs("decomposes the matrix itself", &c[0].ins, &sm(&e.0));
        let m = (c[0].vals[0] + c[0].vals[1]) / lit(2.0);
        let d: Vec<R> = diag110(&c[0].outs, &c[0].outs2).into_iter().map(|x| x * m).collect();
        ensure_eqs("mean of the two large singular values, zero for the small one", &sm(&r.0), &d);
    }
}
fn fro(m: &Matrix3<R>) -> R {
    sm(m).into_iter().fold(lit(0.0), |a, x| a + x * x)
}
/// n times the sum of the first two columns of a, each with the same column of b
fn of_columns(n: R, a: &Matrix3<R>, b: &Matrix3<R>) -> Matrix3<R> {
    let c = |m: &Matrix3<R>, k: usize| m.column(k).into_owned();
    (c(a, 0) * c(b, 0).transpose() + c(a, 1) * c(b, 1).transpose()) * n
}
/// No essential matrix is nearer to the given one. Every essential matrix is n A diag(1, 1, 0) B^T (proved for
/// every pose by some_decomposition); with A = U P and B = V Q its distance from U S V^T is that of n P diag(1, 1, 0) Q^T
/// from S, and the difference of the two squared distances is a sum of squares.
fn recondition_nearest() {
    if !PROOF {
        let e = EssentialMatrix(mat3("e"));
        let (x, _) = some_essential();
        let k = pos("scale");
        return match e.recondition(lit(1e-12), 1000) {
            Some(r) => ensure_le("no essential matrix is nearer", fro(&(e.0 - r.0)), fro(&(e.0 - x.0 * k))),
            None => ensure("a result", false),
        };
    }
    match pick("step", 3) {
        0 => {
            let d = some_decomposition();
            let z = |m: &Matrix3<R>| Matrix3::from_columns(&[m.column(0).into_owned(), m.column(1).into_owned(), Vector3::zeros()]);
            ensure_eqs("every essential matrix is n A diag(1, 1, 0) B^T", &sm(&d.e), &sm(&of_columns(d.norm, &z(&d.u), &d.v)));
        }
        1 => {
            let (u, m) = (rotation("u"), mat3("m"));
            ensure_eq("lengths stay under a rotation from the left", fro(&mm(u.matrix(), &m)), fro(&m));
            ensure_eq("and from the right", fro(&mm(&m, u.matrix())), fro(&m));
        }
        _ => {
            let e = EssentialMatrix(mat3("e"));
            let Some(r) = e.recondition(lit(1e-12), 1000) else { return };
            let c = &shim::calls("svd")[0];
            let s = &c.vals;
            let (p, q) = (rotation("p"), rotation("q"));
            let (p, q) = (p.matrix(), q.matrix());
            let n = pos("n");
            let k = (s[0] + s[1]) / lit(2.0);
            let d: Vec<R> = diag110(&c.outs, &c.outs2).into_iter().map(|x| x * k).collect();
            ensure_eqs("the result is U diag(k, k, 0) V^T", &sm(&r.0), &d);
            let diag = |a: R, b: R, c: R| Matrix3::from_diagonal(&Vector3::new(a, b, c));
            let sing = diag(s[0], s[1], s[2]);
            let (other, result) = (fro(&(sing - of_columns(n, p, q))), fro(&(sing - diag(k, k, lit(0.0)))));
            let mut terms: Vec<Vec<R>> = vec![vec![lit(2.0), n - k, n - k]];
            for i in 0..3 {
                for j in 0..2 {
                    let x = p[(i, j)] - q[(i, j)];
                    terms.push(vec![n, s[i], x, x]);
                }
            }
            for i in 0..2 {
                for m in [p, q] {
                    terms.push(vec![n, s[i] - s[2], m[(i, 2)], m[(i, 2)]]);
                }
            }
            let terms: Vec<&[R]> = terms.iter().map(|t| &t[..]).collect();
            lemma_sign("the difference of the two distances", other - result, &terms);
            ensure_nonneg("no essential matrix is nearer", other - result);
        }
    }
}
fn recondition_essential() {
    set_tol(1e-5);
    let (e, kept) = if PROOF {
        let d = some_decomposition();
        d.replay(lit(1.0), false);
        shim::config("may_fail", 0);
        (EssentialMatrix(d.e), true)
    } else {
        (some_essential().0, false)
    };
    let r = e.recondition(lit(1e-12), 1000);
    if kept && !shim::replayed() {
        not_checked("recondition", "another decomposition");
    }
    match r {
        Some(r) => ensure_eqs("an essential matrix is left alone", &sm(&r.0), &sm(&e.0)),
        None => ensure("a result", false),
    }
}

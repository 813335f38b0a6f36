use crate::util::*;
use cv_core::*;
pub fn table() -> Vec<Harness> {
    vec![
        h("C02", "transform_w2c", "Pose::transform (WorldToCamera)", transform::<WorldToCamera>),
        h("C02", "transform_c2w", "Pose::transform (CameraToWorld)", transform::<CameraToWorld>),
        h("C02", "transform_c2c", "Pose::transform (CameraToCamera)", transform::<CameraToCamera>),
        h("C02", "transform_w2w", "Pose::transform (WorldToWorld)", transform::<WorldToWorld>),
        h("C02", "inverse_undoes", "Pose::inverse; Pose::transform (all four)", inverse_all),
        h("C02", "identity", "Pose::identity", identity),
        h("C02", "parts_and_matrix", "Pose::from_parts; Pose::homogeneous; Pose::isometry; Pose::scale", parts),
        h("C02", "world_to_world", "WorldToWorld::from_camera_poses", w2w),
        h("C03", "jacobian_input_c2c", "Pose::transform_jacobian_input; pose_jacobian_input", jac_input::<CameraToCamera>),
        h("C03", "jacobian_input_w2c", "Pose::transform_jacobian_input", jac_input::<WorldToCamera>),
        h("C03", "jacobian_self_w2c", "Pose::transform_jacobian_self; pose_jacobian_self", jac_self::<WorldToCamera>),
        h("C03", "jacobian_self_c2w", "Pose::transform_jacobian_self; pose_jacobian_self", jac_self::<CameraToWorld>),
        h("C03", "jacobians_agree", "Pose::transform_jacobians", jac_both),
        h("C03", "skew_jacobian_self", "Skew3::jacobian_self", skew_jac),
    ]
}
fn mk<P: Pose>(n: &str) -> (P, IsometryMatrix3<R>) {
    let i = isometry(n);
    (P::from(i), i)
}
fn pt<P: Projective>(n: &str) -> (P, V4) {
    let b = unit3(n);
    let w = nonneg("w");
    let v = Vector4::new(b.x, b.y, b.z, w);
    (P::from_homogeneous_unchecked(v), v)
}
/// transform(x) is the normalised point with homogeneous direction R x + w t
fn transform<P: Pose>() {
    let (p, i) = mk::<P>("pose");
    let (x, v) = pt::<P::InputPoint>("x");
    let e = act(&i, &v);
    let n2 = nsq(&e.xyz());
    assume_pos_by(n2, 1e-3);
    let y = p.transform(x).homogeneous();
    ensure_finites("finite", &sv(&y));
    ensure_eq("unit bearing", nsq(&y.xyz()), lit(1.0));
    for (a, b) in [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] {
        ensure_zero("proportional to R x + w t", y[a] * e[b] - y[b] * e[a]);
    }
    if v.w > lit(0.0) {
        ensure_pos("same side", y.x * e.x + y.y * e.y + y.z * e.z);
        ensure_nonneg("w", y.w);
    }
}
fn inverse_of<P: Pose, Q: Pose>()
where
    P: Pose<Inverse = Q>,
    Q: Pose<InputPoint = P::OutputPoint, OutputPoint = P::InputPoint>,
{
    let (p, i) = mk::<P>("pose");
    let inv = p.inverse();
    let j = inv.isometry();
    let z = lit(0.0);
    let o = lit(1.0);
    ensure_eqs("inverse after pose", &iso(&(j * i)), &[o, z, z, z, o, z, z, z, o, z, z, z]);
    ensure_eqs("pose after inverse", &iso(&(i * j)), &[o, z, z, z, o, z, z, z, o, z, z, z]);
    // through the points themselves
    let x = vec3("x");
    assume_pos_by(nsq(&x), 1e-2);
    let e = act(&i, &Vector4::new(x.x, x.y, x.z, o));
    assume_pos_by(nsq(&e.xyz()), 1e-2);
    let back = inv.transform(p.transform(P::InputPoint::from_point(Point3::from(x))));
    match back.point() {
        Some(q) => ensure_eqs("round trip of a point", &sv(&q.coords), &sv(&x)),
        None => ensure("a finite point stays finite", false),
    }
}
fn inverse_all() {
    match pick("kind", 4) {
        0 => inverse_of::<WorldToCamera, CameraToWorld>(),
        1 => inverse_of::<CameraToWorld, WorldToCamera>(),
        2 => inverse_of::<CameraToCamera, CameraToCamera>(),
        _ => inverse_of::<WorldToWorld, WorldToWorld>(),
    }
}
fn identity_of<P: Pose>() {
    let z = lit(0.0);
    let o = lit(1.0);
    ensure_eqs("identity isometry", &iso(&P::identity().isometry()), &[o, z, z, z, o, z, z, z, o, z, z, z]);
    let b = unit3("b");
    let w = pos("w");
    let v = Vector4::new(b.x, b.y, b.z, w);
    let y = P::identity().transform(P::InputPoint::from_homogeneous_unchecked(v)).homogeneous();
    ensure_eqs("identity leaves points", &sv(&y), &sv(&v));
}
fn identity() {
    match pick("kind", 4) {
        0 => identity_of::<WorldToCamera>(),
        1 => identity_of::<CameraToWorld>(),
        2 => identity_of::<CameraToCamera>(),
        _ => identity_of::<WorldToWorld>(),
    }
}
fn parts_of<P: Pose>() {
    let t = vec3("t");
    let r = rotation("r");
    let p = P::from_parts(t, r);
    ensure_eqs("rotation", &sm(p.isometry().rotation.matrix()), &sm(r.matrix()));
    ensure_eqs("translation", &sv(&p.isometry().translation.vector), &sv(&t));
    let m = p.homogeneous();
    for i in 0..3 {
        for j in 0..3 {
            ensure_eq("matrix rotation block", m[(i, j)], r.matrix()[(i, j)]);
        }
        ensure_eq("matrix translation column", m[(i, 3)], t[i]);
        ensure_zero("matrix bottom row", m[(3, i)]);
    }
    ensure_eq("matrix corner", m[(3, 3)], lit(1.0));
    let s = any("s");
    let q = p.scale(s);
    ensure_eqs("scaled translation", &sv(&q.isometry().translation.vector), &[t.x * s, t.y * s, t.z * s]);
    ensure_eqs("rotation unscaled", &sm(q.isometry().rotation.matrix()), &sm(r.matrix()));
}
fn parts() {
    match pick("kind", 4) {
        0 => parts_of::<WorldToCamera>(),
        1 => parts_of::<CameraToWorld>(),
        2 => parts_of::<CameraToCamera>(),
        _ => parts_of::<WorldToWorld>(),
    }
}
/// If both cameras see the same scene, the transform maps world a to world b.
fn w2w() {
    let a = isometry("a");
    let b = isometry("b");
    let w = WorldToWorld::from_camera_poses(WorldToCamera(a), WorldToCamera(b));
    // b after w is a
    ensure_eqs("b o w == a", &iso(&(b * w.isometry())), &iso(&a));
}
fn jac_input<P: Pose>() {
    let (p, i) = mk::<P>("pose");
    let (x, v) = pt::<P::InputPoint>("x");
    assume_pos_by(nsq(&act(&i, &v).xyz()), 1e-3);
    let (y, j) = p.transform_jacobian_input(x);
    ensure_eqs("output", &sv(&y.homogeneous()), &sv(&p.transform(x).homogeneous()));
    // the output is linear in the input: derivative in direction d is act(d)
    let d = vec4("d");
    ensure_eqs("derivative in the input", &sv(&(j * d)), &sv(&act(&i, &d)));
}
/// d/ds of exp(s dw) R x + w (t + s dt): (dw x (R x) + w dt, 0)
fn spec_self(i: &IsometryMatrix3<R>, v: &V4, dt: &V3, dw: &V3) -> V4 {
    let rot = mv(i.rotation.matrix(), &v.xyz());
    let c = cross3(dw, &rot);
    Vector4::new(c.x + v.w * dt.x, c.y + v.w * dt.y, c.z + v.w * dt.z, lit(0.0))
}
fn jac_self<P: Pose>() {
    let (p, i) = mk::<P>("pose");
    let (x, v) = pt::<P::InputPoint>("x");
    assume_pos_by(nsq(&act(&i, &v).xyz()), 1e-3);
    let (y, j) = p.transform_jacobian_self(x);
    ensure_eqs("output", &sv(&y.homogeneous()), &sv(&p.transform(x).homogeneous()));
    let dt = vec3("dt");
    let dw = vec3("dw");
    let d = Vector6::new(dt.x, dt.y, dt.z, dw.x, dw.y, dw.z);
    ensure_eqs("derivative in the pose", &sv(&(j * d)), &sv(&spec_self(&i, &v, &dt, &dw)));
}
fn jac_both() {
    let (p, i) = mk::<CameraToCamera>("pose");
    let (x, v) = pt::<CameraPoint>("x");
    assume_pos_by(nsq(&act(&i, &v).xyz()), 1e-3);
    let (y, ji, js) = p.transform_jacobians(x);
    ensure_eqs("output", &sv(&y.homogeneous()), &sv(&p.transform(x).homogeneous()));
    let d = vec4("d");
    ensure_eqs("derivative in the input", &sv(&(ji * d)), &sv(&act(&i, &d)));
    let dt = vec3("dt");
    let dw = vec3("dw");
    let d = Vector6::new(dt.x, dt.y, dt.z, dw.x, dw.y, dw.z);
    ensure_eqs("derivative in the pose", &sv(&(js * d)), &sv(&spec_self(&i, &v, &dt, &dw)));
}
/// d/dw of exp(w) y at 0 is -hat(y)
fn skew_jac() {
    let y = vec3("y");
    let d = vec3("d");
    ensure_eqs("d(exp(d) y) = d x y", &sv(&(Skew3::jacobian_self(y) * d)), &sv(&cross3(&d, &y)));
}

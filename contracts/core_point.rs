use crate::util::*;
use cv_core::{CameraPoint, Projective, WorldPoint};
pub fn table() -> Vec<Harness> {
    vec![
        h("C01", "from_homogeneous_camera", "Projective::from_homogeneous; Projective::bearing (CameraPoint)", from_homogeneous::<CameraPoint>),
        h("C01", "from_homogeneous_world", "Projective::from_homogeneous; Projective::bearing (WorldPoint)", from_homogeneous::<WorldPoint>),
        h("C01", "point_round_trip_camera", "Projective::from_point; Projective::point (CameraPoint)", point_round_trip::<CameraPoint>),
        h("C01", "point_round_trip_world", "Projective::from_point; Projective::point (WorldPoint)", point_round_trip::<WorldPoint>),
        h("C01", "point_at_infinity", "Projective::point", infinity),
        h("C01", "unchecked_is_identity", "Projective::from_homogeneous_unchecked; Projective::homogeneous", unchecked),
        h("C01", "scale_invariance", "Projective::from_homogeneous", scale_invariance),
    ]
}
/// The stored vector is the positive multiple of +-v with unit xyz and w >= 0.
fn from_homogeneous<P: Projective>() {
    let v = vec4("v");
    assume_pos_by(v.x * v.x + v.y * v.y + v.z * v.z, 1e-4);
    let p = P::from_homogeneous(v);
    let q = p.homogeneous();
    ensure_finites("finite", &sv(&q));
    ensure_eq("unit bearing", nsq(&q.xyz()), lit(1.0));
    ensure_nonneg_exact("w nonnegative", q.w);
    // parallel to v
    parallel("parallel to the argument", &sv(&q), &sv(&v));
    // on the same side as v when w > 0, opposite when w < 0
    let d = q.x * v.x + q.y * v.y + q.z * v.z;
    if v.w > lit(0.0) {
        ensure_pos("keeps the direction", d);
    } else if v.w < lit(0.0) {
        ensure_pos("flips the direction", -d);
    }
    ensure_eqs("bearing is the stored direction", &sv(&p.bearing().into_inner()), &[q.x, q.y, q.z]);
}
fn point_round_trip<P: Projective>() {
    let x = vec3("x");
    assume_pos_by(nsq(&x), 1e-4);
    let p = P::from_point(Point3::from(x));
    let q = p.homogeneous();
    ensure_eq("unit bearing", nsq(&q.xyz()), lit(1.0));
    ensure_pos("finite point has positive w", q.w);
    match p.point() {
        Some(y) => {
            ensure_finites("finite", &sv(&y.coords));
            ensure_eqs("point(from_point(x)) == x", &sv(&y.coords), &sv(&x));
        }
        None => ensure("a finite point has coordinates", false),
    }
}
fn infinity() {
    let b = unit3("b");
    let z = lit(0.0);
    let p = WorldPoint::from_homogeneous(Vector4::new(b.x, b.y, b.z, z));
    ensure("a point at infinity has no coordinates", p.point().is_none());
    let q = p.homogeneous();
    ensure_zero("w", q.w);
    ensure_eq("unit", nsq(&q.xyz()), lit(1.0));
    ensure_zero("parallel", nsq(&cross3(&q.xyz(), &b.into_inner())));
    let w = nonzero("w");
    let p = CameraPoint::from_homogeneous_unchecked(Vector4::new(b.x, b.y, b.z, w));
    match p.point() {
        Some(y) => ensure_eqs("dehomogenised", &sv(&y.coords), &[b.x / w, b.y / w, b.z / w]),
        None => ensure("a finite point has coordinates", false),
    }
}
fn unchecked() {
    let v = vec4("v");
    ensure_eqs("camera", &sv(&CameraPoint::from_homogeneous_unchecked(v).homogeneous()), &sv(&v));
    ensure_eqs("world", &sv(&WorldPoint::from_homogeneous_unchecked(v).homogeneous()), &sv(&v));
}
fn scale_invariance() {
    let v = vec3("v");
    let w = pos("w");
    let s = nonzero("s");
    assume_pos_by(nsq(&v), 1e-4);
    let a = CameraPoint::from_homogeneous(Vector4::new(v.x, v.y, v.z, w));
    let b = CameraPoint::from_homogeneous(Vector4::new(v.x * s, v.y * s, v.z * s, w * s));
    ensure_eqs("proportional homogeneous vectors are one point", &sv(&a.homogeneous()), &sv(&b.homogeneous()));
}

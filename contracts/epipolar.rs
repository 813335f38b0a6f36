use crate::util::*;
use cv_core::*;
use cv_geom::epipolar;
pub fn table() -> Vec<Harness> {
    vec![
        h("G06", "ep_point", "epipolar::point_gradient", point),
        h("G06", "ep_world", "epipolar::world_pose_gradient", world),
        h("G06", "ep_loss", "epipolar::loss", loss),
        h("G06", "ep_loss_range", "epipolar::loss", loss_range),
        h("G06", "ep_loss_exact", "epipolar::loss", loss_exact),
        h("G06", "ep_three_rotation", "epipolar::three_view_gradients; epipolar::two_view_rotation_gradient", three_rotation),
        h("G06", "ep_three_translation", "epipolar::three_view_gradients", three_translation),
        h("G06", "ep_three_meet", "epipolar::two_view_same_space_triangulate_sine_l1", three_meet),
        hk("G06", "finding_three_front", "epipolar::three_view_gradients", finding_front),
    ]
}
fn add(a: &V3, b: &V3) -> V3 {
    Vector3::new(a.x + b.x, a.y + b.y, a.z + b.z)
}
fn sub(a: &V3, b: &V3) -> V3 {
    Vector3::new(a.x - b.x, a.y - b.y, a.z - b.z)
}
fn mul(a: &V3, k: R) -> V3 {
    Vector3::new(a.x * k, a.y * k, a.z * k)
}
fn neg(a: &V3) -> V3 {
    mul(a, lit(-1.0))
}
/// the part of v perpendicular to the unit vector b
fn reject(v: &V3, b: &V3) -> V3 {
    sub(v, &mul(b, dot3(v, b)))
}
fn point() {
    let (c, p, b) = (vec3("centre"), vec3("point"), unit3("b"));
    let g = epipolar::point_gradient(sub(&c, &p), b);
    ensure_zero("perpendicular to the ray", dot3(&g, &b));
    // the moved point is on the ray's line
    let q = sub(&add(&p, &g), &c);
    ensure_eqs("the moved point is on the ray", &sv(&cross3(&q, &b)), &[lit(0.0), lit(0.0), lit(0.0)]);
}
fn world() {
    let (t, b) = (vec3("t"), unit3("b"));
    let g = epipolar::world_pose_gradient(t, b);
    ensure_eqs("moves the point onto the bearing by the shortest way", &sv(&g.translation), &sv(&neg(&reject(&t, &b))));
    let n = nsq(&t);
    if n == lit(0.0) {
        return ensure_eqs("no rotation of a point at the camera", &sv(&g.rotation), &[lit(0.0), lit(0.0), lit(0.0)]);
    }
    sample_if(|| n > lit(1e-200));
    let u = mul(&t, lit(1.0) / n.sqrt());
    ensure_eqs("rotates the point towards the bearing by the sine of the angle between them", &sv(&g.rotation), &sv(&cross3(&u, &b)));
}
/// the sine of the angle between the ray nearer the baseline and the epipolar plane of the other
fn loss() {
    let (t, a, b) = (vec3("t"), unit3("a"), unit3("b"));
    // perpendicular bearings count either way (the sign of a zero)
    assume_nonzero(dot3(&a, &b));
    let l = epipolar::loss(t, a, b);
    if dot3(&a, &b) < lit(0.0) {
        return ensure_eq("the worst loss for opposite bearings", l, lit(1.0));
    }
    let (p, q) = (nsq(&cross3(&a, &t)), nsq(&cross3(&b, &t)));
    let d = if p < q { q } else { p };
    sample_if(|| d == lit(0.0) || d > lit(1e-12));
    if d == lit(0.0) {
        return ensure_eq("the worst loss when no plane is defined", l, lit(1.0));
    }
    assume_nonzero(d);
    ensure_eq("the sine of the angle to the epipolar plane", l * d.sqrt(), dot3(&t, &cross3(&a, &b)).abs());
}
fn loss_range() {
    let (t, a, b) = (vec3("t"), unit3("a"), unit3("b"));
    let (p, q) = (cross3(&a, &t), cross3(&b, &t));
    let (n, m) = (nsq(&p), nsq(&q));
    sample_if(|| n > lit(1e-12) && m > lit(1e-12));
    assume_nonzero(dot3(&a, &b));
    let l = epipolar::loss(t, a, b);
    ensure_nonneg("not negative", l);
    let one = lit(1.0);
    if dot3(&a, &b) < lit(0.0) {
        return ensure_eq("one", l, one);
    }
    let (big, v, w) = if n < m { (m, q, a.into_inner()) } else { (n, p, b.into_inner()) };
    if big == lit(0.0) {
        return ensure_eq("one", l, one);
    }
    // sine and cosine of one angle
    let c = cross3(&w, &v);
    let s = lit(1.0) / big;
    lemma_sign("the cosine", one - l * l, &[&[s, c.x, c.x], &[s, c.y, c.y], &[s, c.z, c.z]]);
    ensure_nonneg("at most one", one - l * l);
}
/// both bearings point at x; t joins the centres
fn loss_exact() {
    let (c, x) = (vec3("c"), vec3("x"));
    let y = sub(&x, &c);
    assume_pos_by(nsq(&x), 1e-2);
    assume_pos_by(nsq(&y), 1e-2);
    assume_pos_by(dot3(&x, &y), 1e-2);
    assume_pos_by(nsq(&cross3(&x, &c)), 1e-3);
    let unit = |v: &V3| Unit::new_unchecked(mul(v, lit(1.0) / nsq(v).sqrt()));
    let k = nonzero("scale");
    sample_if(|| nsq(&x) < lit(1e4) && nsq(&y) < lit(1e4));
    ensure_zero("no loss for rays that meet in front of both cameras", epipolar::loss(mul(&c, k), unit(&x), unit(&y)));
}
fn rot(t: &V3, a: &V3, b: &V3) -> V3 {
    let (na, nb) = (cross3(a, t), cross3(b, t));
    let k = lit(1.0) / (nsq(&na).sqrt() * nsq(&nb).sqrt());
    mul(&cross3(&nb, &na), k)
}
struct Three {
    c: UnitVector3<R>,
    f: UnitVector3<R>,
    s: UnitVector3<R>,
    ftoc: V3,
    stoc: V3,
}
impl Three {
    fn any() -> Self {
        Three { c: unit3("c"), f: unit3("f"), s: unit3("s"), ftoc: vec3("ftoc"), stoc: vec3("stoc") }
    }
    fn stof(&self) -> V3 {
        sub(&self.stoc, &self.ftoc)
    }
    fn run(&self) -> [Se3TangentSpace; 2] {
        epipolar::three_view_gradients(self.c, self.f, self.ftoc, self.s, self.stoc)
    }
}
const MEET: &str = "two_view_same_space_triangulate_sine_l1";
fn third() -> R {
    lit(1.0) / lit(3.0)
}
fn three_rotation() {
    let g = Three::any();
    let stof = g.stof();
    let pairs = [(g.ftoc, g.c, g.f), (g.stoc, g.c, g.s), (stof, g.f, g.s)];
    if PROOF {
        need_hooks(&[MEET]);
        substitute(MEET, |_: (V3, UnitVector3<R>, UnitVector3<R>)| -> Option<Point3<R>> { None });
    }
    let mut planes = vec![];
    for (t, a, b) in &pairs {
        planes.push(nsq(&cross3(a, t)));
        planes.push(nsq(&cross3(b, t)));
    }
    for p in &planes {
        assume_pos_by(*p, 1e-6);
    }
    let got = g.run();
    let r: Vec<V3> = pairs.iter().map(|(t, a, b)| rot(t, a, b)).collect();
    let k = third();
    let two = lit(2.0) * k;
    ensure_eqs("first: two thirds from the centre, one third from the second", &sv(&got[0].rotation), &sv(&sub(&mul(&r[0], two), &mul(&r[2], k))));
    ensure_eqs("second: two thirds from the centre, one third from the first", &sv(&got[1].rotation), &sv(&add(&mul(&r[1], two), &mul(&r[2], k))));
}
/// where the triangulation of two of the rays is any point or none, the third camera is moved onto it
fn three_translation() {
    let g = Three::any();
    if !PROOF {
        return three_translation_run(&g);
    }
    need_hooks(&[MEET]);
    // the points of the pairs (c, s), (c, f), (f, s), in the frame of the first of each
    let pts: Vec<Option<V3>> = ["cs", "cf", "fs"].iter().map(|n| if flag(n) { Some(vec3(n)) } else { None }).collect();
    let (stof, p2) = (g.stof(), pts.clone());
    let keys = [(g.stoc, g.c, g.s), (g.ftoc, g.c, g.f), (stof, g.f, g.s)];
    substitute(MEET, move |(t, a, b): (V3, UnitVector3<R>, UnitVector3<R>)| -> Option<Point3<R>> {
        for (k, p) in keys.iter().zip(&p2) {
            let eq = |u: &V3, v: &V3| same(&sv(u), &sv(v));
            if eq(&a, &k.1) && eq(&b, &k.2) && (eq(&t, &k.0) || eq(&t, &neg(&k.0))) {
                return p.map(|p| p.into());
            }
        }
        not_checked(MEET, "called with arguments the contract does not know")
    });
    let got = g.run();
    let want = three_moves(&g, &pts);
    ensure_eqs("first: its ray moves onto the point of the others", &sv(&got[0].translation), &sv(&want[0]));
    ensure_eqs("second: its ray moves onto the point of the others", &sv(&got[1].translation), &sv(&want[1]));
}
/// the translations of the two cameras for the points of the pairs (c, s), (c, f), (f, s)
fn three_moves(g: &Three, pts: &[Option<V3>]) -> [V3; 2] {
    let z: V3 = Vector3::zeros();
    let tf = pts[0].map(|p| reject(&sub(&p, &g.ftoc), &g.f)).unwrap_or(z);
    let ts = pts[1].map(|p| reject(&sub(&p, &g.stoc), &g.s)).unwrap_or(z);
    let tc = pts[2].map(|p| neg(&reject(&add(&p, &g.ftoc), &g.c))).unwrap_or(z);
    let k = third();
    let two = lit(2.0) * k;
    [add(&mul(&tf, two), &mul(&tc, k)), add(&mul(&ts, two), &mul(&tc, k))]
}
/// the same on a run: the points are those of the real function, for either direction of the translation
#[cfg(feature = "has_two_view_meet")]
fn three_translation_run(g: &Three) {
    let keys = [(g.stoc, g.c, g.s), (g.ftoc, g.c, g.f), (g.stof(), g.f, g.s)];
    let meet = |back: bool, k: &(V3, UnitVector3<R>, UnitVector3<R>)| {
        let t = if back { neg(&k.0) } else { k.0 };
        epipolar::two_view_same_space_triangulate_sine_l1(t, k.1, k.2).map(|p| p.coords)
    };
    let got = g.run();
    let ok = [false, true].iter().any(|&back| {
        let pts: Vec<Option<V3>> = keys.iter().map(|k| meet(back, k)).collect();
        let want = three_moves(g, &pts);
        // far points lose digits
        let big = pts.iter().flatten().map(|p| nsq(p).sqrt()).fold(lit(1.0), |a, b| if a > b { a } else { b });
        (0..2).all(|i| nsq(&sub(&got[i].translation, &want[i])).sqrt() < lit(1e-6) * big)
    });
    ensure("each ray moves onto the point of the others", ok);
}
#[cfg(not(feature = "has_two_view_meet"))]
fn three_translation_run(_: &Three) {}
/// Rays in one plane with the baseline after the correction of the ray nearer the baseline: the point is on both.
#[cfg(feature = "has_two_view_meet")]
fn three_meet() {
    // a from the origin, b from t; t = rho a - sigma b in the plane of the rotation
    let (t, a, b) = (vec3("t"), unit3("a"), unit3("b"));
    let (p, q) = (cross3(&a, &t), cross3(&b, &t));
    let (n, m) = (nsq(&p), nsq(&q));
    assume_pos_by(n, 1e-3);
    assume_pos_by(m, 1e-3);
    sample_if(|| (n - m).abs() > lit(1e-6));
    let (fixed, plane) = if n < m { (b, q) } else { (a, p) };
    if let Some(x) = epipolar::two_view_same_space_triangulate_sine_l1(t, a, b) {
        let x = x.coords;
        sample_if(|| nsq(&x) < lit(1e4) && nsq(&t) < lit(1e4));
        let shift = if n < m { t } else { Vector3::zeros() };
        let y = sub(&x, &shift);
        if n == m {
            // a tie: either ray may be the corrected one
            let z = lit(0.0);
            let on = |r: &V3, y: &V3, plane: &V3| same(&sv(&cross3(y, r)), &[z, z, z]) && same(&[dot3(&x, plane)], &[z]);
            return ensure("on one of the rays and in its plane", on(&a, &x, &p) || on(&b, &sub(&x, &t), &q));
        }
        ensure_zero("in the plane of the uncorrected ray and the baseline", dot3(&x, &plane));
        ensure_eqs("on the uncorrected ray", &sv(&cross3(&y, &fixed)), &[lit(0.0), lit(0.0), lit(0.0)]);
    }
}
#[cfg(not(feature = "has_two_view_meet"))]
fn three_meet() {
    not_checked(MEET, "no function of this name and type")
}
/// listed finding: rays that meet in front of the cameras give no translation
fn finding_front() {
    let x = Vector3::new(lit(0.3), lit(0.1), lit(4.0));
    let (f, s, off) = (Vector3::new(lit(1.0), lit(0.0), lit(0.0)), Vector3::new(lit(0.0), lit(1.0), lit(0.0)), Vector3::new(lit(0.2), lit(0.0), lit(0.0)));
    // the first camera is not where its ray to x would put it
    let g = Three { c: Unit::new_normalize(x), f: Unit::new_normalize(sub(&x, &f)), s: Unit::new_normalize(sub(&x, &s)), ftoc: add(&f, &off), stoc: s };
    let d = g.run()[0].translation;
    ensure("the camera moves towards the point of the other two", dot3(&d, &off) < lit(0.0));
}

use crate::util::*;
use cv_core::*;
use std::cell::RefCell;
use std::rc::Rc;
pub fn table() -> Vec<Harness> {
    vec![
        h("C04", "hat_vee", "Skew3::hat; Skew3::vee; Skew3::hat2; Skew3::bracket", hat_vee),
        h("C04", "exp_map", "Rotation3::from(Skew3); Skew3::rotation", exp_map),
        h("C04", "exp_jacobian_input", "Skew3::jacobian_input", exp_jac),
        h("C04", "log_map", "Skew3::from(Rotation3)", log_map),
        h("C04", "exp_log_round_trip", "Skew3::from(Rotation3); Rotation3::from(Skew3)", exp_log),
        h("C04", "se3_coordinates", "Pose::se3; Pose::from_se3", se3),
        h("C05", "tangent_linear", "Se3TangentSpace::{identity; scale; scale_translation; scale_rotation; to_vec; from_vec; add; add_assign; sum; inverse}", linear),
        h("C05", "tangent_isometry", "Se3TangentSpace::isometry; Se3TangentSpace::rotations", tangent_isometry),
        h("C05", "tangent_l1", "Se3TangentSpace::l1; Se3TangentSpace::new", tangent_l1),
        h("C05", "tangent_new_nan", "Se3TangentSpace::new", tangent_nan),
        hk("C05", "finding_tangent_inverse", "Se3TangentSpace::inverse", tangent_inverse),
        h("C06", "world_residual", "WorldToCamera::residual", world_residual),
        h("C06", "relative_residual", "CameraToCamera::residual", relative_residual),
        h("C06", "relative_residual_exact", "CameraToCamera::residual", relative_exact),
        h("C07", "to_camera_any", "TriangulatorObservations::triangulate_observations_to_camera", to_camera_any),
        h("C07", "to_camera", "TriangulatorObservations::triangulate_observations_to_camera; TriangulatorRelative::triangulate_relative", to_camera),
    ]
}
fn hat_vee() {
    let a = vec3("a");
    let b = vec3("b");
    let s = Skew3(a);
    ensure_eqs("hat(a) b = a x b", &sv(&(s.hat() * b)), &sv(&cross3(&a, &b)));
    ensure_eqs("vee undoes hat", &sv(&Skew3::vee(s.hat()).0), &sv(&a));
    ensure_eqs("hat2 = hat hat", &sm(&s.hat2()), &sm(&mm(&crossm(&a), &crossm(&a))));
    ensure_eqs("bracket is the cross product", &sv(&s.bracket(Skew3(b)).0), &sv(&cross3(&a, &b)));
}
/// The map is Rodrigues' formula; where the code approximates instead it does so only for tiny angles
/// and hands I + hat(v), which is within |v|^2 of it, to the orthonormalisation.
fn check_exp(v: V3, r: &Rotation3<R>) {
    check_exp_is(v, r, None)
}
fn check_exp_is(v: V3, r: &Rotation3<R>, want: Option<&Matrix3<R>>) {
    let t2 = nsq(&v);
    if PROOF {
        let c = shim::calls("from_matrix");
        if let Some(c) = c.last() {
            ensure_le("first-order step only below 1e-5 rad", t2, lit(1e-10));
            ensure_eqs("first-order step is I + hat(v)", &c.ins, &sm(&(Matrix3::identity() + crossm(&v))));
            ensure_eqs("and its orthonormalisation is returned", &sm(r.matrix()), &c.outs);
            if let Some(want) = want {
                ensure_le("where the rotation is by no more than the vector", lit(3.0) - want.trace(), t2);
            }
            return;
        }
    }
    match want {
        Some(want) => ensure_eqs("the rotation itself", &sm(r.matrix()), &sm(want)),
        None => ensure_eqs("Rodrigues' formula", &sm(r.matrix()), &sm(&rodrigues(&v))),
    }
}
fn exp_map() {
    let v = if flag("small") { Vector3::new(any_in("s.x", -2e-8, 2e-8), any_in("s.y", -2e-8, 2e-8), any_in("s.z", -2e-8, 2e-8)) } else { vec3("v") };
    check_exp(v, &Rotation3::from(Skew3(v)));
    if flag("method") {
        shim::reset();
        check_exp(v, &Skew3(v).rotation());
    }
}
fn exp_jac() {
    let v = vec3("v");
    let j = Skew3(v).jacobian_input();
    let z = lit(0.0);
    let r = j.fixed_slice::<3, 3>(0, 0).into_owned();
    check_exp(v, &Rotation3::from_matrix_unchecked(r));
    for i in 0..3 {
        ensure_eq("no translation", j[(i, 3)], z);
        ensure_eq("constant row", j[(3, i)], z);
    }
    ensure_eq("corner", j[(3, 3)], lit(1.0));
}
/// log: the axis-angle logarithm when it is a number, zero otherwise
fn log_map() {
    let r = rotation("r");
    shim::config("log_nan", 1);
    let s = Skew3::from(r).0;
    ensure_finites("log is finite", &sv(&s));
    if PROOF {
        let c = shim::calls("scaled_axis");
        ensure("the logarithm is taken", c.len() == 1);
        if let Some(c) = c.last() {
            ensure_eqs("of this rotation", &c.ins, &sm(r.matrix()));
            if c.outs.iter().any(|x| x.is_nan()) {
                ensure_eqs("no logarithm: zero", &sv(&s), &[lit(0.0); 3]);
            } else {
                ensure_eqs("and returned", &sv(&s), &c.outs);
            }
        }
    }
}
/// nalgebra's logarithm is executed as well, with the sine and cosine of an arc tangent
fn exp_log() {
    let r = rotation("r");
    if PROOF {
        shim::config("log_executed", 1);
        let s: Skew3 = r.into();
        ensure_le("angle at most pi", nsq(&s.0), lit(9.8697));
        return check_exp_is(s.0, &Rotation3::from(s), Some(r.matrix()));
    }
    set_tol(1e-5);
    let s: Skew3 = r.into();
    ensure_eqs("exp(log R) = R", &sm(Rotation3::from(s).matrix()), &sm(r.matrix()));
    ensure_le("angle at most pi", nsq(&s.0), lit(9.8697));
    let v = vec3("v");
    sample_if(|| nsq(&v) < lit(9.0));
    let back: Skew3 = Rotation3::from(Skew3(v)).into();
    ensure_eqs("log(exp v) = v", &sv(&back.0), &sv(&v));
}
fn se3_of<P: Pose>() {
    let t = vec3("t");
    let w = vec3("w");
    let p = P::from_se3(Vector6::new(t.x, t.y, t.z, w.x, w.y, w.z));
    ensure_eqs("translation", &sv(&p.isometry().translation.vector), &sv(&t));
    check_exp(w, &p.isometry().rotation);
    let i = isometry("p");
    shim::reset();
    let s = P::from(i).se3();
    ensure_eqs("translation coordinates", &[s[0], s[1], s[2]], &sv(&i.translation.vector));
    if PROOF {
        let c = shim::calls("scaled_axis");
        ensure("the logarithm is taken", c.len() == 1);
        if let Some(c) = c.last() {
            ensure_eqs("of this rotation", &c.ins, &sm(i.rotation.matrix()));
            ensure_eqs("rotation coordinates", &[s[3], s[4], s[5]], &c.outs);
        }
    } else {
        set_tol(1e-5);
        ensure_eqs("rotation coordinates", &sm(&rodrigues(&Vector3::new(s[3], s[4], s[5]))), &sm(i.rotation.matrix()));
    }
}
fn se3() {
    match pick("kind", 4) {
        0 => se3_of::<WorldToCamera>(),
        1 => se3_of::<CameraToWorld>(),
        2 => se3_of::<CameraToCamera>(),
        _ => se3_of::<WorldToWorld>(),
    }
}
fn tg(n: &str) -> Se3TangentSpace {
    Se3TangentSpace { translation: vec3(&format!("{}.t", n)), rotation: vec3(&format!("{}.r", n)) }
}
fn six(a: &Se3TangentSpace) -> Vec<R> {
    let mut o = sv(&a.translation);
    o.extend(sv(&a.rotation));
    o
}
fn map6(a: &[R], f: impl Fn(usize, R) -> R) -> Vec<R> {
    a.iter().enumerate().map(|(i, x)| f(i, *x)).collect()
}
fn linear() {
    let (a, b, c) = (tg("a"), tg("b"), tg("c"));
    let s = any("s");
    let (va, vb, vc) = (six(&a), six(&b), six(&c));
    ensure_eqs("new keeps numbers", &six(&Se3TangentSpace::new(a.translation, a.rotation)), &va);
    ensure_eqs("identity is zero", &six(&Se3TangentSpace::identity()), &[lit(0.0); 6]);
    ensure_eqs("to_vec", &sv(&a.to_vec()), &va);
    ensure_eqs("from_vec", &six(&Se3TangentSpace::from_vec(a.to_vec())), &va);
    ensure_eqs("scale", &six(&a.scale(s)), &map6(&va, |_, x| x * s));
    ensure_eqs("scale_translation", &six(&a.scale_translation(s)), &map6(&va, |i, x| if i < 3 { x * s } else { x }));
    ensure_eqs("scale_rotation", &six(&a.scale_rotation(s)), &map6(&va, |i, x| if i < 3 { x } else { x * s }));
    ensure_eqs("sum", &six(&(a + b)), &map6(&va, |i, x| x + vb[i]));
    let mut d = a;
    d += b;
    ensure_eqs("add_assign", &six(&d), &map6(&va, |i, x| x + vb[i]));
    let z: Se3TangentSpace = [a, b, c].into_iter().sum();
    ensure_eqs("sum of an iterator", &six(&z), &map6(&va, |i, x| x + vb[i] + vc[i]));
    let e: Se3TangentSpace = Vec::<Se3TangentSpace>::new().into_iter().sum();
    ensure_eqs("empty sum", &six(&e), &[lit(0.0); 6]);
    ensure_eqs("inverse adds to zero", &six(&(a + a.inverse())), &[lit(0.0); 6]);
}
/// isometry: x -> R (x + t); rotations: exp of each half
fn tangent_isometry() {
    let a = tg("a");
    let i = a.isometry();
    let r = rodrigues(&a.rotation);
    ensure_eqs("rotation of the isometry", &sm(i.rotation.matrix()), &sm(&r));
    ensure_eqs("translation of the isometry", &sv(&i.translation.vector), &sv(&mv(&r, &a.translation)));
    let (rt, rr) = a.rotations();
    ensure_eqs("translation rotation", &sm(rt.matrix()), &sm(&rodrigues(&a.translation)));
    ensure_eqs("rotation", &sm(rr.matrix()), &sm(&r));
    // and the inverse element inverts both rotations
    let (it, ir) = a.inverse().rotations();
    ensure_eqs("inverse translation rotation", &sm(&(it * rt).matrix()), &sm(&Matrix3::identity()));
    ensure_eqs("inverse rotation", &sm(&(ir * rr).matrix()), &sm(&Matrix3::identity()));
}
fn tangent_inverse() {
    let a = tg("a");
    ensure_eqs("inverse().isometry() = isometry().inverse()", &iso(&(a.inverse().isometry() * a.isometry())), &iso(&IsometryMatrix3::identity()));
}
fn tangent_l1() {
    let a = tg("a");
    let l = a.l1();
    let (tz, rz) = (nsq(&a.translation) > lit(0.0), nsq(&a.rotation) > lit(0.0));
    prune();
    ensure_finites("finite", &six(&l));
    for (name, x, y, nz) in [("translation", a.translation, l.translation, tz), ("rotation", a.rotation, l.rotation, rz)] {
        if nz {
            ensure_eq(&format!("{} has length one", name), nsq(&y), lit(1.0));
            ensure_eqs(&format!("{} keeps its direction", name), &sv(&cross3(&x, &y)), &[lit(0.0); 3]);
            ensure_pos(&format!("{} keeps its sense", name), dot3(&x, &y));
        } else {
            ensure_eqs(&format!("zero {} stays zero", name), &sv(&y), &[lit(0.0); 3]);
        }
    }
}
fn tangent_nan() {
    let a = tg("a");
    let k = pick("component", 6);
    let nan = lit(f64::NAN);
    let mut v = six(&a);
    v[k] = nan;
    let n = Se3TangentSpace::new(Vector3::new(v[0], v[1], v[2]), Vector3::new(v[3], v[4], v[5]));
    let z = lit(0.0);
    let w = six(&a);
    if k < 3 {
        ensure_eqs("a NaN translation becomes zero", &six(&n), &[z, z, z, w[3], w[4], w[5]]);
    } else {
        ensure_eqs("a NaN rotation becomes zero", &six(&n), &[w[0], w[1], w[2], z, z, z]);
    }
}
fn dir(v: &V3) -> V3 {
    let n = nsq(v).sqrt();
    Vector3::new(v.x / n, v.y / n, v.z / n)
}
fn world_residual() {
    use sample_consensus::Model;
    let i = isometry("pose");
    let b = unit3("b");
    let u = unit3("x");
    let w = nonneg("w");
    let v = Vector4::new(u.x, u.y, u.z, w);
    let e = act(&i, &v).xyz();
    assume_pos_by(nsq(&e), 1e-3);
    let r = WorldToCamera(i).residual(&FeatureWorldMatch(b, WorldPoint::from_homogeneous_unchecked(v)));
    ensure_finite("finite", r);
    let d = dir(&e);
    let m = b.into_inner() - d;
    // 1 - cos: half the squared chord, so in [0, 2] and zero exactly when the bearings agree
    ensure_eq("residual is half the squared chord between the bearings", r * lit(2.0), nsq(&m));
    let p = b.into_inner() + d;
    ensure_eq("and 2 minus half the squared sum", (lit(2.0) - r) * lit(2.0), nsq(&p));
}
/// design matrix of the two rays: sum of P^T (I - b b^T) P
pub fn design(views: &[(IsometryMatrix3<R>, UnitVector3<R>)]) -> Matrix4<R> {
    let mut d = Matrix4::zeros();
    for (i, b) in views {
        let m = i.rotation.matrix();
        let t = i.translation.vector;
        let b = b.into_inner();
        let p = |r: usize, c: usize| if c < 3 { m[(r, c)] } else { t[r] };
        for a in 0..4 {
            for c in 0..4 {
                let (mut s, mut u, mut v) = (lit(0.0), lit(0.0), lit(0.0));
                for r in 0..3 {
                    s = s + p(r, a) * p(r, c);
                    u = u + b[r] * p(r, a);
                    v = v + b[r] * p(r, c);
                }
                d[(a, c)] = d[(a, c)] + s - u * v;
            }
        }
    }
    d
}
fn relative_residual() {
    use sample_consensus::Model;
    let i = isometry("pose");
    let (a, b) = (unit3("a"), unit3("b"));
    shim::config("eigen_ordered", 1);
    let r = CameraToCamera(i).residual(&FeatureMatch(a, b));
    if PROOF {
        let c = shim::calls("eigen");
        if c.is_empty() {
            ensure_eq("worst residual when there is no decomposition", r, lit(2.0));
            return;
        }
        let c = &c[0];
        ensure_eqs("the design matrix of the two rays", &c.ins, &sm(&design(&[(IsometryMatrix3::identity(), a), (i, b)])));
        let k = c.index * 4;
        let v = Vector4::new(c.outs[k], c.outs[k + 1], c.outs[k + 2], c.outs[k + 3]);
        // the point of the smallest eigenvalue, on the side where w >= 0 (either side of a point at infinity)
        let s = |n: bool| if n { lit(-1.0) } else { lit(1.0) };
        let x = |n: bool| Vector4::new(v.x * s(n), v.y * s(n), v.z * s(n), v.w * s(n));
        let zero = nsq(&v.xyz()) == lit(0.0);
        if zero {
            ensure_eq("no direction: worst residual", r, lit(2.0));
            return;
        }
        assume_nonzero(nsq(&act(&i, &v).xyz()));
        let value = |n: bool| {
            let (da, db) = (a.into_inner() - dir(&x(n).xyz()), b.into_inner() - dir(&act(&i, &x(n)).xyz()));
            nsq(&da) + nsq(&db)
        };
        if v.w == lit(0.0) {
            ensure_one_of("mean of the half squared chords at infinity", r * lit(4.0), &[value(true), value(false)]);
        } else {
            ensure_eq("mean of the half squared chords", r * lit(4.0), value(v.w < lit(0.0)));
        }
    } else if r.is_finite_() {
        ensure_le("at most two", r, lit(2.0));
        ensure_nonneg("not negative", r);
    }
}
trait Fin {
    fn is_finite_(&self) -> bool;
}
impl Fin for R {
    fn is_finite_(&self) -> bool {
        !is_special(*self)
    }
}
/// A point in front of both cameras: it is in the null space of the design matrix (and with parallax it is the only
/// one: the eigenvector, of either sign).
fn relative_exact() {
    if PROOF {
        return relative_seen();
    }
    use sample_consensus::Model;
    let i = isometry("pose");
    let x = vec3("x");
    let y = act(&i, &Vector4::new(x.x, x.y, x.z, lit(1.0))).xyz();
    assume_pos_by(nsq(&x), 0.01);
    assume_pos_by(nsq(&y), 0.01);
    let (a, b) = (dir(&x), dir(&y));
    // parallax
    let rb = mv(&tr(i.rotation.matrix()), &b);
    assume_pos_by(nsq(&cross3(&a, &rb)), 0.01);
    assume_pos_by(nsq(&i.translation.vector), 0.01);
    sample_if(|| nsq(&x) < lit(1e4) && nsq(&i.translation.vector) < lit(1e4));
    let ua = Unit::new_unchecked(a);
    let ub = Unit::new_unchecked(b);
    let r = CameraToCamera(i).residual(&FeatureMatch(ua, ub));
    ensure_finite("finite", r);
    ensure_zero("a point both cameras see has residual zero", r);
    // a flipped bearing disagrees completely with the ray of that camera
    let (fa, fb) = (flag("flip a"), flag("flip b"));
    let (sa, sb) = (lit(if fa { -1.0 } else { 1.0 }), lit(if fb { -1.0 } else { 1.0 }));
    let both = CameraToCamera(i).residual(&FeatureMatch(Unit::new_unchecked(a * sa), Unit::new_unchecked(b * sb)));
    ensure_eq("residual of flipped bearings", both, lit((fa as u8 + fb as u8) as f64));
    // a bearing off the epipolar plane by more than 0.2 cannot be explained by any point
    let c = unit3("c");
    let e = dot3(&cross3(&dir(&i.translation.vector), &mv(i.rotation.matrix(), &a)), &c);
    if e > lit(0.2) {
        ensure_le("an inconsistent pair has a residual", lit(1e-3), CameraToCamera(i).residual(&FeatureMatch(ua, c)));
    }
}
fn relative_seen() {
    use sample_consensus::Model;
    let (q, a, b, d, e) = (rotation("pose"), unit3("a"), unit3("b"), pos("d"), pos("e"));
    let x = Vector4::new(a.x * d, a.y * d, a.z * d, lit(1.0));
    // the camera whose bearing b at distance e is this point
    let t = b.into_inner() * e - mv(q.matrix(), &x.xyz());
    let i = IsometryMatrix3::from_parts(t.into(), q);
    let b = b.into_inner();
    let (fa, fb) = (flag("flip a"), flag("flip b"));
    let (sa, sb) = (lit(if fa { -1.0 } else { 1.0 }), lit(if fb { -1.0 } else { 1.0 }));
    let n = (lit(1.0) + d * d).sqrt();
    let side = if flag("other eigenvector") { lit(-1.0) / n } else { lit(1.0) / n };
    shim::config("may_fail", 0);
    shim::config("eigen_ordered", 1);
    shim::config("eigen_null", 1);
    shim::config("eigen_min", 1);
    shim::set_eigenvector((0..4).map(|k| x[k] * side).collect());
    let r = CameraToCamera(i).residual(&FeatureMatch(Unit::new_unchecked(a.into_inner() * sa), Unit::new_unchecked(b * sb)));
    let c = shim::calls("eigen");
    ensure("one decomposition", c.len() == 1);
    if let Some(c) = c.first() {
        let m = |j: usize, k: usize| c.ins[4 * k + j];
        let image: Vec<R> = (0..4).map(|j| (0..4).fold(lit(0.0), |s, k| s + m(j, k) * x[k])).collect();
        ensure_eqs("the point is in the null space of the design matrix", &image, &[lit(0.0); 4]);
    }
    ensure_eq("zero for a point both cameras see, one for each flipped bearing", r, lit((fa as u8 + fb as u8) as f64));
}
type Seen = Rc<RefCell<Vec<(WorldToCamera, UnitVector3<R>)>>>;
struct Mock(Seen, Option<V4>);
impl TriangulatorObservations for Mock {
    fn triangulate_observations(&self, pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<R>)> + Clone) -> Option<WorldPoint> {
        self.0.borrow_mut().extend(pairs.clone());
        let again: Vec<_> = pairs.collect();
        ensure("the observations can be read twice", again.len() == self.0.borrow().len());
        self.1.map(WorldPoint::from_homogeneous_unchecked)
    }
}
/// the entries of an observation and the products of each two of its parts
type Traits = nalgebra::SVector<R, 54>;
fn traits(pose: &WorldToCamera, b: &UnitVector3<R>) -> Traits {
    let p = iso(&pose.0);
    let mut o = p.clone();
    o.extend(sv(b));
    o.push(lit(1.0));
    for x in sv(b) {
        o.extend(p.iter().map(|y| *y * x));
    }
    Traits::from_iterator(o.into_iter().chain((0..2).map(|_| lit(0.0))))
}
struct Total(Rc<RefCell<Vec<Traits>>>, Option<V4>);
impl TriangulatorObservations for Total {
    fn triangulate_observations(&self, pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<R>)> + Clone) -> Option<WorldPoint> {
        for it in [pairs.clone(), pairs] {
            self.0.borrow_mut().push(it.fold(Traits::zeros(), |s, (p, b)| s + traits(&p, &b)));
        }
        self.1.map(WorldPoint::from_homogeneous_unchecked)
    }
}
/// For any number of other cameras: the same sum over the observations, of every product of parts of one of them
fn to_camera_any() {
    let c = unit3("c");
    let ret = if flag("found") { Some(vec4_w_nonneg("x")) } else { None };
    let obs = Seq::any(|i| (CameraToCamera(isometry(&format!("p{}", i))), unit3(&format!("b{}", i))));
    let seen: Rc<RefCell<Vec<Traits>>> = Default::default();
    let r = Total(seen.clone(), ret).triangulate_observations_to_camera(c, obs.iter());
    let own = traits(&WorldToCamera(IsometryMatrix3::identity()), &c);
    let rest = obs.sum(|(p, b)| traits(&WorldToCamera(p.0), b).iter().copied().collect());
    let want: Vec<R> = own.iter().zip(&rest).map(|(a, b)| *a + *b).collect();
    for s in seen.borrow().iter() {
        ensure_eqs("the camera itself and the other observations", &s.iter().copied().collect::<Vec<_>>(), &want);
    }
    ensure("one triangulation", seen.borrow().len() == 2);
    match (r, ret) {
        (Some(p), Some(v)) => ensure_eqs("the camera point is the world point", &sv(&p.homogeneous()), &sv(&v)),
        (None, None) => {}
        _ => ensure("a point exactly when the triangulation succeeds", false),
    }
}
fn vec4_w_nonneg(n: &str) -> V4 {
    let u = unit3(n);
    Vector4::new(u.x, u.y, u.z, nonneg("w"))
}
/// The centre camera is the world: its pose is the identity, the other poses are passed on in order, and
/// the triangulated world point is the camera point.
fn to_camera() {
    let n = pick("views", 4);
    let c = unit3("c");
    let obs: Vec<_> = (0..n).map(|k| (CameraToCamera(isometry(&format!("p{}", k))), unit3(&format!("b{}", k)))).collect();
    let seen: Seen = Default::default();
    let ret = if flag("found") {
        let u = unit3("x");
        Some(Vector4::new(u.x, u.y, u.z, nonneg("w")))
    } else {
        None
    };
    let m = Mock(seen.clone(), ret);
    let relative = n == 1 && flag("relative");
    let r = if relative { m.triangulate_relative(obs[0].0, c, obs[0].1) } else { m.triangulate_observations_to_camera(c, obs.iter().copied()) };
    let s = seen.borrow();
    ensure("every observation is used once", s.len() == n + 1);
    if s.len() == n + 1 {
        ensure_eqs("the centre pose is the identity", &iso(&s[0].0 .0), &iso(&IsometryMatrix3::identity()));
        ensure_eqs("the centre bearing", &sv(&s[0].1), &sv(&c));
        for k in 0..n {
            ensure_eqs("the other poses", &iso(&s[k + 1].0 .0), &iso(&obs[k].0 .0));
            ensure_eqs("the other bearings", &sv(&s[k + 1].1), &sv(&obs[k].1));
        }
    }
    match (r, ret) {
        (Some(p), Some(v)) => ensure_eqs("the camera point is the world point", &sv(&p.homogeneous()), &sv(&v)),
        (None, None) => {}
        _ => ensure("a point exactly when the triangulation succeeds", false),
    }
}

//! Lambda Twist: pose from three world points and their bearings.
use crate::util::*;
use cv_core::sample_consensus::Estimator;
use cv_core::*;
use lambda_twist::LambdaTwist;
pub fn table() -> Vec<Harness> {
    vec![
        h("M03", "p3p_depths", "LambdaTwist::compute_poses_nordberg; lambda_twist::root2real", depths),
        h("M03", "p3p_complete", "LambdaTwist::compute_poses_nordberg", complete),
        h("M03", "p3p_true_depths", "LambdaTwist::compute_poses_nordberg", true_depths),
        h("M03", "p3p_cubic", "LambdaTwist::compute_poses_nordberg", cubic),
        h("M03", "p3p_lemma", "(lemma over the contracts of p3p_depths and p3p_cubic)", lemma),
        h("M03", "p3p_pose", "LambdaTwist::compute_poses_nordberg", pose),
        h("M03", "p3p_eigen", "lambda_twist::eigen_decomposition_singular; lambda_twist::root2real", eigen),
        h("M03", "p3p_roots", "lambda_twist::root2real", root),
        h("M03", "p3p_newton_step", "lambda_twist::gauss_newton_refine_lambda", gauss_step),
        hs("M03", "p3p_newton", "lambda_twist::gauss_newton_refine_lambda", "bounded: one iteration", "p3p_newton_step", gauss),
        h("M03", "p3p_cube_step", "lambda_twist::cube_root", cube_step),
        h("M03", "p3p_cube_lemma", "(lemma over the contract of p3p_cube_step)", cube_lemma),
        hf("M03", "p3p_cube_root", "lambda_twist::cube_root", cube),
        h("M03", "p3p_infinite", "LambdaTwist::estimate", infinite),
        hk("M03", "finding_isosceles", "LambdaTwist::estimate", isosceles),
        hf("M03", "p3p_exact", "LambdaTwist::estimate", exact),
    ]
}
struct Scene {
    ms: Vec<FeatureWorldMatch>,
    p: Vec<V3>,
    y: Vec<V3>,
}
impl Scene {
    /// Every scene: the triangle of the points in a frame of its own (the first edge along the first axis), and so
    /// for the bearings. The frames are arbitrary rotations.
    fn any() -> Self {
        let p0 = vec3("p");
        let (al, be, ga) = (any("alpha"), any("beta"), any("gamma"));
        let fr = rotation("points");
        let d = mv(fr.matrix(), &Vector3::new(al, lit(0.0), lit(0.0)));
        let f = mv(fr.matrix(), &Vector3::new(be, ga, lit(0.0)));
        let p = vec![p0, p0 - d, p0 - f];
        let fy = rotation("bearings");
        let [c, s] = unit2("y0");
        let y: Vec<V3> = [Vector3::new(c, s, lit(0.0)), Vector3::new(lit(1.0), lit(0.0), lit(0.0)), unit3("y2").into_inner()].iter().map(|v| mv(fy.matrix(), v)).collect();
        Scene { ms: (0..3).map(|i| FeatureWorldMatch(Unit::new_unchecked(y[i]), WorldPoint::from_point(p[i].into()))).collect(), p, y }
    }
    /// squared distance of two of the points
    fn a(&self, i: usize, j: usize) -> R {
        nsq(&(self.p[i - 1] - self.p[j - 1]))
    }
    /// cosine of two of the bearings
    fn c(&self, i: usize, j: usize) -> R {
        dot3(&self.y[i - 1], &self.y[j - 1])
    }
    /// squared distance of the points at depths l along two bearings
    fn q(&self, i: usize, j: usize, l: &V3) -> R {
        l[i - 1] * l[i - 1] + l[j - 1] * l[j - 1] - lit(2.0) * self.c(i, j) * l[i - 1] * l[j - 1]
    }
}
type Gn = (V3, usize, R, R, R, R, R, R);
/// every candidate: its depths satisfy the distance equations, given the eigenvectors of the singular pencil
fn depths() {
    need_hooks(&["cube_root", "eigen_decomposition_singular", "gauss_newton_refine_lambda", "root2real"]);
    if !PROOF {
        return;
    }
    let s = std::rc::Rc::new(Scene::any());
    substitute("cube_root", |_: (R, R, R)| any("g"));
    let v = mat3("v");
    // a singular form that some depths annihilate is indefinite (or of rank one)
    let e0 = nonzero("e0");
    let ratio = if flag("rank two") { pos("ratio") } else { lit(0.0) };
    let e = Vector3::new(e0, -ratio * ratio * e0, lit(0.0));
    assumption("p3p_depths: the singular matrix of the pencil is not definite on the plane of its nonzero eigenvalues (it is not when the problem has a solution)");
    substitute("eigen_decomposition_singular", move |_: (Matrix3<R>,)| (v, e));
    let roots = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let rs2 = roots.clone();
    let (t, rs) = (s.clone(), roots.clone());
    // contract of root2real: the roots of t^2 + b t + c; here only which equation that is
    substitute("root2real", move |(b, c): (R, R)| {
        // the coefficients of the equation on the depths (l1, 1, tau) with v1.l = r v2.l
        let quad = |r: R| {
            let f = |tau: R| {
                let l1 = (v.m21 - r * v.m22 + (v.m31 - r * v.m32) * tau) / (r * v.m12 - v.m11);
                let l = Vector3::new(l1, lit(1.0), tau);
                t.a(1, 3) * t.q(1, 2, &l) - t.a(1, 2) * t.q(1, 3, &l)
            };
            let (f0, f1, f2) = (f(lit(0.0)), f(lit(1.0)), f(lit(-1.0)));
            [(f1 + f2) / lit(2.0) - f0, (f1 - f2) / lit(2.0), f0]
        };
        let mut r = ratio;
        let mut q = quad(r);
        if !same(&[q[0] * b, q[0] * c], &[q[1], q[2]]) {
            r = -ratio;
            q = quad(r);
        }
        ensure_eq("the quadratic equation of the ratio of the distances: linear term", q[0] * b, q[1]);
        ensure_eq("the quadratic equation of the ratio of the distances: constant term", q[0] * c, q[2]);
        let (x, y) = (any("root"), any("root"));
        rs.borrow_mut().push((r, [x, y]));
        (true, x, y)
    });
    let t = s.clone();
    substitute("gauss_newton_refine_lambda", move |(l, _, a12, a13, a23, b12, b13, b23): Gn| {
        ensure_eq("the squared distances of the points", a12, t.a(1, 2));
        ensure_eq("the squared distances of the points", a13, t.a(1, 3));
        ensure_eq("the squared distances of the points", a23, t.a(2, 3));
        ensure_eq("minus twice the cosines of the bearings", b12, lit(-2.0) * t.c(1, 2));
        ensure_eq("minus twice the cosines of the bearings", b13, lit(-2.0) * t.c(1, 3));
        ensure_eq("minus twice the cosines of the bearings", b23, lit(-2.0) * t.c(2, 3));
        ensure_eq("the distance of points 2 and 3", t.q(2, 3, &l), t.a(2, 3));
        // for one of the two equations: its line through the null space, and one of its roots
        let col = |k: usize| v[(0, k)] * l[0] + v[(1, k)] * l[1] + v[(2, k)] * l[2];
        let fit = rs2.borrow().iter().any(|(q, r)| {
            same(&[col(0)], &[*q * col(1)]) && (same(&[l[2]], &[r[0] * l[1]]) || same(&[l[2]], &[r[1] * l[1]]))
        });
        ensure("the depths annihilate the singular form, and their ratio is a root of the quadratic equation", fit);
        V3::zeros()
    });
    let _ = LambdaTwist::new().estimate(s.ms.iter().copied());
}
/// no root is lost: every root of the two quadratic equations that gives positive depths is refined
fn complete() {
    need_hooks(&["cube_root", "eigen_decomposition_singular", "gauss_newton_refine_lambda", "root2real"]);
    if !PROOF {
        return;
    }
    let s = std::rc::Rc::new(Scene::any());
    // the points are not on one line
    assume_nonzero(nsq(&cross3(&(s.p[0] - s.p[1]), &(s.p[0] - s.p[2]))));
    substitute("cube_root", |_: (R, R, R)| any("g"));
    // eigenvectors that make the plane of the candidates l1 = w0 l2 + w1 l3, with any w0 and w1, for both signs
    let (z, w) = (lit(0.0), [any("w0"), any("w1")]);
    let v = Matrix3::new(lit(-1.0), z, z, w[0], z, z, w[1], z, z);
    substitute("eigen_decomposition_singular", move |_: (Matrix3<R>,)| (v, Vector3::new(lit(1.0), lit(-1.0), lit(0.0))));
    let roots = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let found: std::rc::Rc<std::cell::RefCell<Vec<V3>>> = Default::default();
    let (fd, rs, t) = (found.clone(), roots.clone(), s.clone());
    // one root at a time, or all of them with positive depths
    let which = pick("the root", 5);
    substitute("root2real", move |(_, _): (R, R)| {
        let mut rs = rs.borrow_mut();
        for _ in 0..2 {
            let x = if which == 4 { pos("root") } else if which == rs.len() { any("root") } else { lit(-1.0) };
            if which == 4 {
                let l = Vector3::new(w[0] + w[1] * x, lit(1.0), x);
                assume_pos(l[0]);
                assume_pos(t.q(2, 3, &l));
            }
            rs.push(x);
        }
        (true, rs[rs.len() - 2], rs[rs.len() - 1])
    });
    substitute("gauss_newton_refine_lambda", move |g: Gn| {
        fd.borrow_mut().push(g.0);
        V3::zeros()
    });
    let _ = LambdaTwist::new().estimate(s.ms.iter().copied());
    let roots = roots.borrow();
    if roots.len() < 4 {
        // an equation was not solved: it has no real root
        let quad = |tau: R| {
            let l = Vector3::new(w[0] + w[1] * tau, lit(1.0), tau);
            s.a(1, 3) * s.q(1, 2, &l) - s.a(1, 2) * s.q(1, 3, &l)
        };
        let (f0, f1, f2) = (quad(lit(0.0)), quad(lit(1.0)), quad(lit(-1.0)));
        let (a, b) = ((f1 + f2) / lit(2.0) - f0, (f1 - f2) / lit(2.0));
        ensure("only equations without real roots are left out", b * b - lit(4.0) * a * f0 < lit(0.0));
    }
    for tau in roots.iter() {
        let l = Vector3::new(w[0] + w[1] * *tau, lit(1.0), *tau);
        let some = found.borrow().iter().any(|f| same(&[f[2], f[0]], &[*tau * f[1], l[0] * f[1]]));
        if !some && l[2] > lit(0.0) && l[0] > lit(0.0) && s.q(2, 3, &l) > lit(0.0) {
            ensure("every root with positive depths is a candidate", false);
        }
    }
}
/// the true depths are among the candidates: for every scene, every root of the cubic and every pair of eigenvectors
fn true_depths() {
    need_hooks(&["cube_root", "eigen_decomposition_singular", "gauss_newton_refine_lambda", "root2real"]);
    if !PROOF {
        return;
    }
    let l = Vector3::new(pos("l1"), pos("l2"), pos("l3"));
    let fy = rotation("bearings");
    let [c, s] = unit2("y0");
    let y: Vec<V3> = [Vector3::new(c, s, lit(0.0)), Vector3::new(lit(1.0), lit(0.0), lit(0.0)), unit3("y2").into_inner()].iter().map(|v| mv(fy.matrix(), v)).collect();
    // the points where the camera sees them, in a frame of the world
    let (p0, r) = (vec3("p"), rotation("world"));
    let p: Vec<V3> = (0..3).map(|i| p0 + mv(r.matrix(), &(y[i] * l[i] - y[0] * l[0]))).collect();
    let s = Scene { ms: (0..3).map(|i| FeatureWorldMatch(Unit::new_unchecked(y[i]), WorldPoint::from_point(p[i].into()))).collect(), p, y };
    assume_nonzero(nsq(&cross3(&(s.p[0] - s.p[1]), &(s.p[0] - s.p[2]))));
    substitute("cube_root", |_: (R, R, R)| any("g"));
    // the singular form vanishes on the true depths, so they are on one of its two planes (p3p_lemma); the ratio is scaled
    // to one here (p3p_depths has any), and the other plane has no positive depths
    let w1 = any("w1");
    let w0 = (l.x - w1 * l.z) / l.y;
    let (mine, other) = ([lit(-1.0), w0, w1], [lit(-1.0), lit(-2.0), lit(-3.0)]);
    let other_plane = flag("other plane");
    let v = Matrix3::from_fn(|i, k| match (k, other_plane) {
        (0, _) => (mine[i] + other[i]) / lit(2.0),
        (1, false) => (other[i] - mine[i]) / lit(2.0),
        (1, true) => (mine[i] - other[i]) / lit(2.0),
        _ => lit(0.0),
    });
    let e = Vector3::new(lit(1.0), lit(-1.0), lit(0.0));
    substitute("eigen_decomposition_singular", move |_: (Matrix3<R>,)| (v, e));
    // on that plane the ratio of the true depths is a root of the quadratic equation
    let tau = l.z / l.y;
    let quad = |tau: R| {
        let l = Vector3::new(w0 + w1 * tau, lit(1.0), tau);
        s.a(1, 3) * s.q(1, 2, &l) - s.a(1, 2) * s.q(1, 3, &l)
    };
    let (f0, f1, f2) = (quad(lit(0.0)), quad(lit(1.0)), quad(lit(-1.0)));
    let (qa, qb) = ((f1 + f2) / lit(2.0) - f0, (f1 - f2) / lit(2.0));
    assume_nonzero(qa);
    ensure_zero("the ratio of the true depths is a root", quad(tau));
    let k = lit(2.0) * qa * tau + qb;
    lemma_sign("the equation has real roots", qb * qb - lit(4.0) * qa * f0, &[&[k, k]]);
    let first = flag("the first root");
    substitute("root2real", move |(b, c): (R, R)| {
        if !same(&[qa * b, qa * c], &[qb, f0]) {
            return (true, lit(-1.0), lit(-1.0));
        }
        // the other root is not positive here (p3p_complete has any)
        if first { (true, tau, lit(-1.0)) } else { (true, lit(-1.0), tau) }
    });
    let found: std::rc::Rc<std::cell::RefCell<Vec<V3>>> = Default::default();
    let fd = found.clone();
    substitute("gauss_newton_refine_lambda", move |g: Gn| {
        fd.borrow_mut().push(g.0);
        V3::zeros()
    });
    let _ = LambdaTwist::new().estimate(s.ms.iter().copied());
    let found = found.borrow().iter().any(|f| same(&sv(f), &sv(&l)));
    ensure("the true depths are a candidate", found);
}
/// the singular pencil: D1 + g D2, and the cubic whose root makes it singular
fn cubic() {
    need_hooks(&["cube_root", "eigen_decomposition_singular"]);
    if !PROOF {
        return;
    }
    let s = std::rc::Rc::new(Scene::any());
    let g = any("g");
    let co = std::rc::Rc::new(std::cell::RefCell::new(None));
    let c2 = co.clone();
    substitute("cube_root", move |bcd: (R, R, R)| {
        *co.borrow_mut() = Some(bcd);
        g
    });
    let t = s.clone();
    substitute("eigen_decomposition_singular", move |(d0,): (Matrix3<R>,)| -> (Matrix3<R>, V3) {
        let Some((b, c, d)) = *c2.borrow() else { not_checked("cube_root", "not called before the decomposition") };
        let (a12, a13, a23) = (t.a(1, 2), t.a(1, 3), t.a(2, 3));
        // L^T M_ij L = squared distance of the points at depths l along bearings i and j
        let m = |i: usize, j: usize| {
            Matrix3::from_fn(|p, q| if p == q && (p + 1 == i || p + 1 == j) { lit(1.0) } else if (p + 1, q + 1) == (i, j) || (q + 1, p + 1) == (i, j) { -t.c(i, j) } else { lit(0.0) })
        };
        let (m12, m13, m23) = (m(1, 2), m(1, 3), m(2, 3));
        let d1 = Matrix3::from_fn(|p, q| a23 * m12[(p, q)] - a12 * m23[(p, q)]);
        let d2 = Matrix3::from_fn(|p, q| a13 * m23[(p, q)] - a23 * m13[(p, q)]);
        for p in 0..3 {
            for q in 0..3 {
                ensure_eq("the matrix of the pencil", d0[(p, q)], d1[(p, q)] + g * d2[(p, q)]);
            }
        }
        ensure_eq("the cubic is the determinant of the pencil", det(&d0), det(&d2) * (((g + b) * g + c) * g + d));
        path_stop()
    });
    let _ = LambdaTwist::new().estimate(s.ms.iter().copied());
}
fn det(m: &Matrix3<R>) -> R {
    let r = |i: usize| Vector3::new(m[(i, 0)], m[(i, 1)], m[(i, 2)]);
    dot3(&r(0), &cross3(&r(1), &r(2)))
}
/// Why the candidates solve the problem, from the contracts above.
fn lemma() {
    if !PROOF {
        return;
    }
    let l = vec3("l");
    let (a12, a13, a23, c12, c13, c23, g) = (pos("a12"), pos("a13"), pos("a23"), any("c12"), any("c13"), any("c23"), any("g"));
    let two = lit(2.0);
    let (q12, q13, q23) = (l.x * l.x + l.y * l.y - two * c12 * l.x * l.y, l.x * l.x + l.z * l.z - two * c13 * l.x * l.z, l.y * l.y + l.z * l.z - two * c23 * l.y * l.z);
    // the quadratic form of the pencil D1 + g D2
    let form = a23 * q12 - a12 * q23 + g * (a13 * q23 - a23 * q13);
    // 1. the form vanishes on v1.l = s v2.l when s^2 = -e2/e1
    let (e1, e2, m) = (nonzero("e1"), any("e2"), any("v2.l"));
    let r = -e2 / e1;
    if r >= lit(0.0) {
        let s = r.sqrt();
        for sg in [s, -s] {
            ensure_zero("the form vanishes on the candidates", e1 * (sg * m) * (sg * m) + e2 * m * m);
        }
        let x = any("v1.l");
        ensure_eq("and only on them", e1 * x * x + e2 * m * m, e1 * (x - s * m) * (x + s * m));
    }
    // 2. with q23 = a23 it is a23 ((q12 - a12) - g (q13 - a13))
    ensure_eq("the form on depths of the right third distance", form, a23 * ((q12 - a12) - g * (q13 - a13)) + (a12 - g * a13) * (a23 - q23));
    ensure_zero("it vanishes on the true depths", (a12 - a12) - g * (a13 - a13));
    // 3. with the ratio right as well, q12 = a12 (unless g = a12/a13)
    let e = any("excess");
    let (x12, x13) = (a12 * (lit(1.0) + e), a13 * (lit(1.0) + e));
    ensure_eq("every pair of distances of the right ratio", a13 * x12, a12 * x13);
    ensure_eq("only the right one remains", (x12 - a12) - g * (x13 - a13), e * (a12 - g * a13));
    // 4. equal distances from the first point and between the others: equal Gram matrices, so the matrix that maps
    // the edges and their cross product is a rotation
    let (u, v) = (vec3("u"), vec3("v"));
    ensure_eq("the product of two edges from the three distances", two * dot3(&u, &v), nsq(&u) + nsq(&v) - nsq(&(u - v)));
    let w = cross3(&u, &v);
    ensure_zero("the cross product is orthogonal to the edges", dot3(&u, &w));
    ensure_zero("the cross product is orthogonal to the edges", dot3(&v, &w));
    ensure_eq("its length from the Gram matrix", nsq(&w), nsq(&u) * nsq(&v) - dot3(&u, &v) * dot3(&u, &v));
    ensure_eq("its volume from the Gram matrix", dot3(&u, &cross3(&v, &w)), nsq(&w));
}
/// the pose made from refined depths
fn pose() {
    need_hooks(&["cube_root", "eigen_decomposition_singular", "gauss_newton_refine_lambda", "root2real"]);
    if !PROOF {
        return;
    }
    let p0 = vec3("p");
    let (d, f) = (vec3("d12"), vec3("d13"));
    let p = [p0, p0 - d, p0 - f];
    let y = [vec3("y0"), vec3("y1"), vec3("y2")];
    let which = pick("index of the solution", 4);
    substitute("cube_root", |_: (R, R, R)| any("g"));
    // any candidates: the roots below are arbitrary, and so are the refined depths
    let z = lit(0.0);
    let v = Matrix3::new(lit(-1.0), z, z, lit(2.0), z, z, lit(3.0), z, z);
    let e = Vector3::new(lit(1.0), lit(-1.0), z);
    substitute("eigen_decomposition_singular", move |_: (Matrix3<R>,)| (v, e));
    let n = std::cell::Cell::new(0);
    substitute("root2real", |(_, _): (R, R)| (true, any("t"), any("t")));
    let l = vec3("depth");
    let calls = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let c2 = calls.clone();
    substitute("gauss_newton_refine_lambda", move |g: Gn| {
        c2.borrow_mut().push(g.1);
        n.set(n.get() + 1);
        if n.get() == which + 1 { l } else { V3::zeros() }
    });
    let ms = (0..3).map(|i| FeatureWorldMatch(Unit::new_unchecked(y[i]), WorldPoint::from_point(p[i].into())));
    let mut lt = LambdaTwist::new();
    lt.gauss_newton_iterations = 7;
    let got = lt.estimate(ms);
    let calls = calls.borrow();
    ensure("one refinement for each pose", got.len() == calls.len());
    ensure("as many iterations as asked for", calls.iter().all(|n| *n == 7));
    if which >= got.len() {
        return;
    }
    for i in 0..3 {
        let q = act(&got[which].0, &Vector4::new(p[i].x, p[i].y, p[i].z, lit(1.0)));
        for k in 0..3 {
            ensure_eq("the pose puts the point at its depth along its bearing", q[k], l[i] * y[i][k]);
        }
    }
    let w = cross3(&d, &f);
    let img = mv(got[which].0.rotation.matrix(), &w);
    let want = cross3(&(y[0] * l[0] - y[1] * l[1]), &(y[0] * l[0] - y[2] * l[2]));
    for k in 0..3 {
        ensure_eq("and keeps the orientation of the triangle", img[k], want[k]);
    }
}
fn infinite() {
    let inf = pick("the point at infinity", 3);
    let ms: Vec<_> = (0..3).map(|i| {
        let v = vec3(&format!("p{}", i));
        let w = if i == inf { lit(0.0) } else { lit(1.0) };
        FeatureWorldMatch(unit3(&format!("y{}", i)), WorldPoint::from_homogeneous(Vector4::new(v.x, v.y, v.z, w)))
    }).collect();
    ensure("no pose from a point at infinity", LambdaTwist::new().estimate(ms.into_iter()).is_empty());
}
fn exact() {
    set_tol(1e-4);
    let q = unit_quat("pose");
    let half = flag("a half turn");
    let r = if half {
        // the rotation by half a turn about an axis
        let a = unit3("axis").into_inner();
        a * a.transpose() * lit(2.0) - Matrix3::identity()
    } else {
        quat_matrix(q)
    };
    // a scene of any scale, with points at very different distances from the camera
    let scale = lit([1.0, 1e-3, 1e-5, 1e3][pick("scale of the scene", 4)]);
    let t = Vector3::new(any_in("t.x", -2.0, 2.0), any_in("t.y", -2.0, 2.0), any_in("t.z", -2.0, 2.0)) * scale;
    let c: Vec<V3> = (0..3).map(|i| {
        let far = scale * lit([1.0, 1.0, 10.0, 50.0][pick("distance", 4)]);
        Vector3::new(any_in(&format!("c{}.x", i), -2.0, 2.0), any_in(&format!("c{}.y", i), -2.0, 2.0), any_in(&format!("c{}.z", i), -2.0, 2.0)) * far
    }).collect();
    let p: Vec<V3> = c.iter().map(|c| mv(&r.transpose(), &(c - t))).collect();
    let (d12, d13) = (p[0] - p[1], p[0] - p[2]);
    let sine = cross3(&d12, &d13).norm() / (d12.norm() * d13.norm());
    // in general position: the camera centre is away from the plane of the points and the directions differ
    // (the world origin has no projective form of unit direction)
    sample_if(|| p.iter().all(|x| x.norm() > scale * lit(1e-2)) && d12.norm() > scale * lit(0.3) && d13.norm() > scale * lit(0.3) && (p[1] - p[2]).norm() > scale * lit(0.3));
    sample_if(|| sine > lit(0.1) && c.iter().all(|x| x.norm() > scale * lit(0.3)));
    let vol = dot3(&c[0].normalize(), &cross3(&c[1].normalize(), &c[2].normalize())).abs();
    sample_if(|| vol > lit(0.05));
    // and the three distance equations determine the depths well (no double solution)
    let y: Vec<V3> = c.iter().map(|x| x.normalize()).collect();
    let e = |i: usize, j: usize| dot3(&y[i], &(c[i] - c[j])) / (c[i] - c[j]).norm();
    let jac = e(0, 1) * e(1, 2) * e(2, 0) + e(1, 0) * e(2, 1) * e(0, 2);
    sample_if(|| jac.abs() > lit(0.05));
    // no two viewing directions at a right angle (the eigenvectors of the pencil then have zero components)
    sample_if(|| [(0, 1), (0, 2), (1, 2)].iter().all(|(i, j)| dot3(&y[*i], &y[*j]).abs() > lit(0.01)));
    let ms: Vec<_> = (0..3).map(|i| FeatureWorldMatch(Unit::new_normalize(c[i]), WorldPoint::from_point(p[i].into()))).collect();
    let got = LambdaTwist::new().estimate(ms.iter().copied());
    let mut best = lit(100.0);
    for w in &got {
        let d = (w.0.rotation.matrix() - r).norm() + (w.0.translation.vector - t).norm() / c[0].norm().max(c[1].norm()).max(c[2].norm());
        if d < best {
            best = d
        }
    }
    ensure("the true pose is among the estimates", best < lit(1e-3));
}
#[cfg(feature = "has_eigen_singular")]
fn eigen() {
    let q = rotation("v");
    let col = |k: usize| Vector3::new(q.matrix()[(0, k)], q.matrix()[(1, k)], q.matrix()[(2, k)]);
    let (a, b) = (col(0), col(1));
    let (e, f) = (nonzero("e"), nonzero("f"));
    assume_nonzero(e - f);
    assume_nonzero(e + f);
    let x = Matrix3::from_fn(|i, j| e * a[i] * a[j] + f * b[i] * b[j]);
    // the method takes the last component of the vectors for nonzero
    sample_if(|| (e - f).abs() > lit(0.05) && (e + f).abs() > lit(0.05) && a[2].abs() > lit(0.1) && b[2].abs() > lit(0.1));
    let (v, w) = lambda_twist::eigen_decomposition_singular(x);
    ensure("the larger eigenvalue first", w[0].abs() >= w[1].abs());
    ensure_eq("the sum of the eigenvalues", w[0] + w[1], e + f);
    ensure_eq("the product of the eigenvalues", w[0] * w[1], e * f);
    for k in 0..2 {
        let c = Vector3::new(v[(0, k)], v[(1, k)], v[(2, k)]);
        let xc = mv(&x, &c);
        ensure_eq("a unit vector", nsq(&c), lit(1.0));
        for i in 0..3 {
            ensure_eq("an eigenvector", xc[i], w[k] * c[i]);
        }
    }
}
#[cfg(not(feature = "has_eigen_singular"))]
fn eigen() {
    not_checked("eigen_decomposition_singular", "no function of this name and type")
}
#[cfg(feature = "has_root2real")]
fn root() {
    let (b, c) = (any("b"), any("c"));
    let (real, r, s) = lambda_twist::root2real(b, c);
    let d = b * b - lit(4.0) * c;
    if d < lit(0.0) {
        return ensure("no real roots", !real);
    }
    sample_if(|| d > lit(1e-3) && c.abs() > lit(1e-3));
    assume_nonzero(c);
    ensure("real roots", real);
    ensure_eq("the sum of the roots", r + s, -b);
    ensure_eq("the product of the roots", r * s, c);
}
#[cfg(not(feature = "has_root2real"))]
fn root() {
    not_checked("root2real", "no function of this name and type")
}
/// one step: the depths stay, or move by the Newton step of the three distance equations without a larger residual
#[cfg(feature = "has_gauss_newton")]
fn gauss() {
    let l = vec3("l");
    let a = [any("a12"), any("a13"), any("a23")];
    let b = [any("b12"), any("b13"), any("b23")];
    let res = |l: &V3| {
        let f = |i: usize, j: usize, k: usize| l[i] * l[i] + l[j] * l[j] + b[k] * l[i] * l[j] - a[k];
        Vector3::new(f(0, 1, 0), f(0, 2, 1), f(1, 2, 2))
    };
    let norm = |v: &V3| v.x.abs() + v.y.abs() + v.z.abs();
    let same0 = lambda_twist::gauss_newton_refine_lambda(l, 0, a[0], a[1], a[2], b[0], b[1], b[2]);
    ensure_eqs("no iteration", &sv(&same0), &sv(&l));
    let n = lambda_twist::gauss_newton_refine_lambda(l, 1, a[0], a[1], a[2], b[0], b[1], b[2]);
    if !PROOF {
        let (r0, r1) = (norm(&res(&l)), norm(&res(&n)));
        return ensure("the residual does not grow", !(r1 > r0));
    }
    if same(&sv(&n), &sv(&l)) {
        return;
    }
    let d = n - l;
    let r = res(&l);
    let two = lit(2.0);
    for (k, (i, j)) in [(0, 1), (0, 2), (1, 2)].into_iter().enumerate() {
        let di = two * l[i] + b[k] * l[j];
        let dj = two * l[j] + b[k] * l[i];
        ensure_eq("a Newton step", di * d[i] + dj * d[j], -r[k]);
    }
}
/// any iteration: the depths move by a Newton step, or the iteration ends with a small residual or one that would grow
#[cfg(feature = "has_gauss_newton")]
fn gauss_step() {
    if !PROOF {
        return;
    }
    const F: &str = "gauss_newton_refine_lambda";
    let at = [At::Start, At::Middle, At::Last][pick("iteration", 3)];
    let l = vec3("l");
    let a = [any("a12"), any("a13"), any("a23")];
    let b = [any("b12"), any("b13"), any("b23")];
    let res = move |l: &V3| {
        let f = |i: usize, j: usize, k: usize| l[i] * l[i] + l[j] * l[j] + b[k] * l[i] * l[j] - a[k];
        Vector3::new(f(0, 1, 0), f(0, 2, 1), f(1, 2, 2))
    };
    let norm = |v: &V3| v.x.abs() + v.y.abs() + v.z.abs();
    let r = res(&l);
    let newton = move |d: &V3| {
        for (k, (i, j)) in [(0, 1), (0, 2), (1, 2)].into_iter().enumerate() {
            let di = lit(2.0) * l[i] + b[k] * l[j];
            let dj = lit(2.0) * l[j] + b[k] * l[i];
            ensure_eq("a Newton step", di * d[i] + dj * d[j], -r[k]);
        }
    };
    watch_loop(F, at, vec![("l1", value(l.x)), ("l2", value(l.y)), ("l3", value(l.z)), ("res", value(r))], move |c| {
        let n = Vector3::new(c.get::<R>("l1"), c.get::<R>("l2"), c.get::<R>("l3"));
        newton(&(n - l));
        let rn = res(&n);
        ensure_eqs("the residual of the depths", &sv(&c.get::<V3>("res")), &sv(&rn));
        ensure("the residual does not grow", !(norm(&rn) > norm(&r)));
    });
    let given = if at == At::Start { l } else { vec3("given") };
    let n = lambda_twist::gauss_newton_refine_lambda(given, 1_000_000, a[0], a[1], a[2], b[0], b[1], b[2]);
    loop_watched(F);
    let d = n - l;
    if same(&sv(&d), &sv(&Vector3::zeros())) {
        if norm(&r) < lit(1e-6) {
            return;
        }
        // the Newton step would enlarge the residual
        let j = |k: usize, i: usize, j: usize| (lit(2.0) * l[i] + b[k] * l[j], lit(2.0) * l[j] + b[k] * l[i]);
        let ((p, q), (s, t), (u, v)) = (j(0, 0, 1), j(1, 0, 2), j(2, 1, 2));
        // rows (p q 0), (s 0 t), (0 u v)
        let det = -(p * t * u) - q * s * v;
        let w = Vector3::new((-t * u) * r.x + (-q * v) * r.y + (q * t) * r.z, (-s * v) * r.x + (p * v) * r.y + (-p * t) * r.z, (s * u) * r.x + (-p * u) * r.y + (-q * s) * r.z);
        let next = l - w / det;
        ensure("stops at a small residual or one that would grow", norm(&res(&next)) > norm(&r));
    } else {
        ensure("goes on until the last iteration", at == At::Last);
        newton(&d);
        ensure("the residual does not grow", !(norm(&res(&n)) > norm(&r)));
    }
}
#[cfg(not(feature = "has_gauss_newton"))]
fn gauss_step() {
    not_checked("gauss_newton_refine_lambda", "no function of this name and type")
}
#[cfg(not(feature = "has_gauss_newton"))]
fn gauss() {
    not_checked("gauss_newton_refine_lambda", "no function of this name and type")
}
/// listed finding: the triangle and its bearings are symmetric about the first point
fn isosceles() {
    let p = [Vector3::new(0.0, 0.75, 3.0), Vector3::new(-0.5, 0.0, 2.0), Vector3::new(0.5, 0.0, 2.0)].map(|v| v.map(lit));
    let ms = p.map(|p| FeatureWorldMatch(Unit::new_normalize(p), WorldPoint::from_point(p.into())));
    let got = LambdaTwist::new().estimate(ms.into_iter());
    ensure("the true pose is among the estimates", got.iter().any(|w| (w.0.rotation.matrix() - Matrix3::identity()).norm() + w.0.translation.vector.norm() < lit(1e-3)));
}
/// The shapes of a cubic x^3 + b x^2 + c x + d and the places a Newton iteration converges from: see `cube_lemma`.
#[cfg(feature = "has_cube_root")]
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    /// two stationary points, positive at the left one: left of that
    Left,
    /// two stationary points, not positive at both: right of the right one
    Right,
    /// increasing: anywhere
    Increasing,
}
#[cfg(feature = "has_cube_root")]
#[derive(Clone, Copy)]
struct Cubic {
    s: Shape,
    b: R,
    c: R,
    d: R,
    /// the stationary point
    t: R,
    v: R,
    k: R,
}
#[cfg(feature = "has_cube_root")]
impl Cubic {
    fn any() -> Self {
        let s = [Shape::Left, Shape::Right, Shape::Increasing][pick("shape", 3)];
        let (b, v) = (any("b"), pos("v"));
        let three = lit(3.0);
        let c = match s {
            Shape::Increasing => b * b / three + v,
            _ => (b * b - v * v) / three,
        };
        let t = match s {
            Shape::Left => (-b - v) / three,
            Shape::Right => (v - b) / three,
            _ => -b / three,
        };
        let at = ((t + b) * t + c) * t;
        let k = match s {
            Shape::Left => pos("k"),
            Shape::Right => -pos("k"),
            _ => any("k"),
        };
        if s == Shape::Right {
            // at the other stationary point
            assume(!(k + lit(4.0) * v * v * v / lit(27.0) > lit(0.0)));
        }
        Cubic { s, b, c, d: k - at, t, v, k }
    }
    fn f(&self, x: R) -> R {
        ((x + self.b) * x + self.c) * x + self.d
    }
    fn df(&self, x: R) -> R {
        (lit(3.0) * x + lit(2.0) * self.b) * x + self.c
    }
    /// a point the iteration converges from
    fn good(&self) -> R {
        match self.s {
            Shape::Left => self.t - pos("delta"),
            Shape::Right => self.t + pos("delta"),
            Shape::Increasing => any("r"),
        }
    }
}
/// The iteration starts where it converges, every iteration is a Newton step, and it ends early only near a root.
#[cfg(feature = "has_cube_root")]
fn cube_step() {
    if !PROOF {
        return;
    }
    const F: &str = "cube_root";
    let n = loops_of(F);
    if n == 0 {
        not_checked(F, "no counted loop");
    }
    let q = Cubic::any();
    let k = pick("loop", n);
    let at = if k == 0 && flag("first iteration") { At::Start } else { At::Middle };
    let r = if at == At::Start { q.t } else { q.good() };
    let newton = move |r: R, x: R| ensure_eq("a Newton step", (x - r) * q.df(r), -q.f(r));
    watch_nth_loop(F, k, at, vec![("r0", value(r))], move |c| {
        let (r, x) = (c.before::<R>("r0"), c.get::<R>("r0"));
        if at == At::Start {
            match q.s {
                Shape::Left => ensure_pos("starts left of the left stationary point", q.t - r),
                Shape::Right => ensure_pos("starts right of the right stationary point", r - q.t),
                Shape::Increasing => ensure_finite("starts somewhere", r),
            }
        }
        newton(r, x);
    });
    let x = lambda_twist::cube_root(q.b, q.c, q.d);
    loop_watched(F);
    // the loop was left in this iteration
    if !same(&[x], &[r]) {
        not_checked(F, "goes on after the loop");
    }
    ensure("stops near a root only", q.f(r).abs() < lit(1e-6));
}
/// With two stationary points, a Newton step from the good side of them stays there, and is on the outer side of the root
/// after it, from where it does not pass the root. An increasing cubic with f(t) <= 0 at its inflection t: right of t after a step from there, with f >= 0, and so from then on
/// (the other sign of f(t): the same about the other side; a step from the wrong side goes over to the good one or
/// nearer to t). The steps are monotone and bounded: they converge, to a root.
#[cfg(feature = "has_cube_root")]
fn cube_lemma() {
    if !PROOF {
        return;
    }
    let three = lit(3.0);
    let (v, delta) = (pos("v"), pos("delta"));
    if flag("two stationary points") {
        // f(t - x) = k - v x^2 - x^3 (the other case is its mirror image)
        let k = pos("k");
        let g = |x: R| v * x * x + x * x * x;
        let dg = lit(2.0) * v * delta + three * delta * delta;
        let s = (g(delta) - k) / dg;
        let next = delta - s;
        ensure_pos("stays left of the stationary point", next);
        lemma_sign("left of the root", g(next) - k, &[&[s, s, v], &[lit(2.0), delta, s, s], &[next, s, s]]);
    } else {
        // f(t + x) = v x + x^3 - k
        let k = nonneg("k");
        let s = (v * delta + delta * delta * delta - k) / (v + three * delta * delta);
        let next = delta - s;
        ensure_nonneg("right of the inflection", next);
        lemma_sign("beyond the root", v * next + next * next * next - k, &[&[lit(2.0), delta, s, s], &[next, s, s]]);
    }
}
#[cfg(not(feature = "has_cube_root"))]
fn cube_step() {
    not_checked("cube_root", "no function of this name and type")
}
#[cfg(not(feature = "has_cube_root"))]
fn cube_lemma() {}
/// a root of the cubic with these roots
#[cfg(feature = "has_cube_root")]
fn cube() {
    let (r, u) = (any_in("r", -3.0, 3.0), any_in("u", -3.0, 3.0));
    let complex = flag("a complex pair");
    let v = any_in("v", 0.2, 3.0);
    sample_if(|| complex || ((r - u).abs() > lit(0.1) && (r - u - v).abs() > lit(0.1)));
    // (x - r) (x^2 - s x + p)
    let (s, p) = if complex { (u * lit(2.0), u * u + v * v) } else { (u + u + v, u * (u + v)) };
    let x = lambda_twist::cube_root(-(s + r), p + r * s, -(r * p));
    let d = if complex { (x - r).abs() } else { (x - r).abs().min((x - u).abs()).min((x - u - v).abs()) };
    ensure("a root of the cubic", d < lit(1e-6));
}
#[cfg(not(feature = "has_cube_root"))]
fn cube() {}

use crate::util::*;
use cv_core::*;
use cv_geom::triangulation::*;
pub fn table() -> Vec<Harness> {
    vec![
        h("G01", "linear_too_few", "LinearEigenTriangulator::triangulate_observations", too_few),
        h("G01", "linear_objective_2", "LinearEigenTriangulator::triangulate_observations", || linear_objective(2)),
        hs("G01", "linear_objective_3", "LinearEigenTriangulator::triangulate_observations", "bounded: 3 observations", "linear_objective_any", || linear_objective(3)),
        h("G01", "linear_exact_2", "LinearEigenTriangulator::triangulate_observations", || linear_exact(2)),
        hs("G01", "linear_exact_3", "LinearEigenTriangulator::triangulate_observations", "bounded: 3 observations", "linear_exact_any", || linear_exact(3)),
        h("G01", "linear_objective_any", "LinearEigenTriangulator::triangulate_observations", linear_objective_any),
        h("G01", "linear_exact_any", "LinearEigenTriangulator::triangulate_observations", linear_exact_any),
        h("G02", "dlt_exact", "RelativeDltTriangulator::triangulate_relative", dlt_exact),
        h("G02", "dlt_design", "RelativeDltTriangulator::triangulate_relative", dlt_design),
        h("G03", "mean_mean_2", "MeanMeanTriangulator::triangulate_observations", mean_mean_2),
        h("G03", "mean_mean_any", "MeanMeanTriangulator::triangulate_observations", mean_mean_any),
        hf("G03", "mean_mean_far", "MeanMeanTriangulator::triangulate_observations", mean_mean_far),
        h("G05", "sine_any_step", "SineL1Triangulator::triangulate_observations", sine_any_step),
        hs("G05", "sine_steps", "SineL1Triangulator::triangulate_observations", "bounded: 2 iterations", "sine_any_step", || sine_steps(Seq::any(any_ray))),
        hs("G05", "sine_steps_2", "SineL1Triangulator::triangulate_observations", "bounded: 2 iterations, 2 observations", "sine_any_step", || sine_steps(Seq::of((0..2).map(|i| any_ray(&format!("i{}", i))).collect()))),
        h("G05", "sine_exact", "SineL1Triangulator::triangulate_observations", sine_exact),
        h("G05", "sine_other", "SineL1Triangulator::triangulate_observations", sine_other),
        hf("G05", "sine_run", "SineL1Triangulator::triangulate_observations", sine_run),
        h("G04", "angular_exact", "AngularL1Triangulator::triangulate_relative; AngularLInfinityTriangulator::triangulate_relative", angular_exact),
        h("G04", "angular_l1", "AngularL1Triangulator::triangulate_relative", angular_l1),
        h("G04", "angular_linf", "AngularLInfinityTriangulator::triangulate_relative", angular_linf),
    ]
}
fn xyz(p: &V4) -> V3 {
    Vector3::new(p.x, p.y, p.z)
}
pub struct Obs {
    pub poses: Vec<IsometryMatrix3<R>>,
    pub b: Vec<UnitVector3<R>>,
}
impl Obs {
    fn it(&self) -> impl Iterator<Item = (WorldToCamera, UnitVector3<R>)> + Clone + '_ {
        self.poses.iter().zip(&self.b).map(|(p, b)| (WorldToCamera(*p), *b))
    }
    fn any(n: usize) -> Self {
        Obs { poses: (0..n).map(|i| isometry(&format!("pose{}", i))).collect(), b: (0..n).map(|i| unit3(&format!("b{}", i))).collect() }
    }
    /// exact observations of x at distance rho_i in front of every camera
    fn exact(n: usize, x: &V3) -> Self {
        let mut o = Obs { poses: vec![], b: vec![] };
        for i in 0..n {
            let r = rotation(&format!("R{}", i));
            let b = unit3(&format!("b{}", i));
            let d = pos_in(&format!("d{}", i), 0.3, 4.0);
            let y = mv(r.matrix(), x);
            let t = Vector3::new(b.x * d - y.x, b.y * d - y.y, b.z * d - y.z);
            o.poses.push(IsometryMatrix3::from_parts(Translation3::from(t), r));
            o.b.push(b);
        }
        o
    }
    /// observations given by the ray centre + R+ direction in world space (every pose and bearing has this form)
    pub fn rays(n: usize) -> (Self, Vec<(V3, V3)>) {
        let rays: Vec<_> = (0..n).map(|i| (vec3(&format!("c{}", i)), unit3(&format!("d{}", i)).into_inner())).collect();
        (Obs::of(&rays), rays)
    }
    pub fn of(rays: &[(V3, V3)]) -> Self {
        let mut o = Obs { poses: vec![], b: vec![] };
        for (i, (c, d)) in rays.iter().enumerate() {
            let r = rotation(&format!("R{}", i));
            let y = mv(r.matrix(), c);
            o.poses.push(IsometryMatrix3::from_parts(Translation3::from(Vector3::new(-y.x, -y.y, -y.z)), r));
            o.b.push(Unit::new_unchecked(mv(r.matrix(), d)));
        }
        o
    }
    fn parallax(&self, i: usize, j: usize) -> R {
        let u = mv(&tr(self.poses[i].rotation.matrix()), &self.b[i]);
        let v = mv(&tr(self.poses[j].rotation.matrix()), &self.b[j]);
        nsq(&cross3(&u, &v))
    }
}
/// the same point of projective space (p ~ x), with p in the form w > 0
fn same_point(label: &str, p: &V4, x: &V3) {
    ensure_eqs(label, &[p.x, p.y, p.z], &[x.x * p.w, x.y * p.w, x.z * p.w]);
    ensure_pos(&format!("{}: a finite point", label), p.w);
}
fn too_few() {
    let t = LinearEigenTriangulator::new();
    ensure("no point without observations", t.triangulate_observations(Obs::any(0).it()).is_none());
    ensure("no point from one observation", t.triangulate_observations(Obs::any(1).it()).is_none());
}
fn spd_form(o: &Obs, x: &V4) -> R {
    let mut s = lit(0.0);
    for (p, b) in o.poses.iter().zip(&o.b) {
        let y = xyz(&act(p, x));
        let d = dot3(&y, b);
        s = s + nsq(&y) - d * d;
    }
    s
}
fn linear_objective(n: usize) {
    let o = Obs::any(n);
    let got = LinearEigenTriangulator::new().triangulate_observations(o.it());
    if let Some(p) = got {
        let v = p.homogeneous();
        ensure_nonneg("normalised", v.w);
        for (p, b) in o.poses.iter().zip(&o.b) {
            ensure_nonneg("in front of every camera", dot3(&xyz(&act(p, &v)), b));
        }
    }
    if PROOF {
        let c = shim::calls("eigen");
        if c.is_empty() {
            return ensure("nothing without an eigendecomposition", got.is_none());
        }
        ensure("one eigenproblem", c.len() == 1);
        let c = &c[0];
        let a = |i: usize, j: usize| c.ins[j * 4 + i];
        let x = vec4("x");
        let mut q = lit(0.0);
        for i in 0..4 {
            for j in 0..4 {
                ensure_eq("symmetric", a(i, j), a(j, i));
                q = q + a(i, j) * x[i] * x[j];
            }
        }
        ensure_eq("the form is the squared distance of the transformed point from every bearing ray", q, spd_form(&o, &x));
        let v: Vec<R> = c.outs[c.index * 4..c.index * 4 + 4].to_vec();
        if let Some(p) = got {
            parallel("the minimiser of the form", &sv(&p.homogeneous()), &v);
        }
    }
}
fn linear_exact(n: usize) {
    set_tol(1e-5);
    let x = vec3("x");
    let o = Obs::exact(n, &x);
    // the origin has no homogeneous representation with unit xyz
    assume_pos_by(nsq(&x), 1e-4);
    sample_if(|| o.parallax(0, 1) > lit(0.02) && nsq(&x) < lit(25.0));
    if PROOF {
        assumption("the null space of the design is one-dimensional (the rays are not all parallel)");
        let s = (lit(1.0) + nsq(&x)).sqrt();
        let g = if flag("sign of the eigenvector") { lit(1.0) } else { lit(-1.0) };
        shim::set_eigenvector(vec![g * x.x / s, g * x.y / s, g * x.z / s, g / s]);
        shim::config("may_fail", 0);
    }
    let got = LinearEigenTriangulator::new().triangulate_observations(o.it());
    if PROOF {
        let c = &shim::calls("eigen")[0];
        let h = [x.x, x.y, x.z, lit(1.0)];
        for i in 0..4 {
            let mut s = lit(0.0);
            for j in 0..4 {
                s = s + c.ins[j * 4 + i] * h[j];
            }
            ensure_zero("the true point is in the null space", s);
        }
    }
    match got {
        Some(p) => same_point("the true point", &p.homogeneous(), &x),
        None => ensure("exact observations in front of every camera triangulate", false),
    }
}
pub type Ob = (IsometryMatrix3<R>, UnitVector3<R>);
pub fn obs(o: &Seq<Ob>) -> impl Iterator<Item = (WorldToCamera, UnitVector3<R>)> + Clone {
    o.map(|(p, b)| (WorldToCamera(*p), *b)).iter()
}
/// any number of observations
fn linear_objective_any() {
    let o: Seq<Ob> = Seq::any(|n| (isometry(&format!("{}.pose", n)), unit3(&format!("{}.b", n))));
    let x = vec4("x");
    let got = LinearEigenTriangulator::new().triangulate_observations(obs(&o));
    if let Some(p) = got {
        let v = p.homogeneous();
        ensure_nonneg("normalised", v.w);
        o.each(|(p, b)| ensure_nonneg("in front of every camera", dot3(&xyz(&act(p, &v)), b)));
    }
    if PROOF {
        let c = shim::calls("eigen");
        if c.is_empty() {
            return ensure("nothing without an eigendecomposition", got.is_none());
        }
        ensure("one eigenproblem", c.len() == 1);
        let c = &c[0];
        let a = |i: usize, j: usize| c.ins[j * 4 + i];
        let mut q = lit(0.0);
        for i in 0..4 {
            for j in 0..4 {
                ensure_eq("symmetric", a(i, j), a(j, i));
                q = q + a(i, j) * x[i] * x[j];
            }
        }
        let want = o.sum(|(p, b)| {
            let y = xyz(&act(p, &x));
            let d = dot3(&y, b);
            vec![nsq(&y) - d * d]
        })[0];
        ensure_eq("the form is the sum over all observations of the squared distance from the bearing ray", q, want);
        let v: Vec<R> = c.outs[c.index * 4..c.index * 4 + 4].to_vec();
        if let Some(p) = got {
            parallel("the minimiser of the form", &sv(&p.homogeneous()), &v);
        }
        return;
    }
    if let Some(p) = got {
        // sampled: no other direction has a smaller form
        let v = p.homogeneous();
        let form = |y: &V4| o.sum(|(p, b)| {
            let z = xyz(&act(p, y));
            let d = dot3(&z, b);
            vec![nsq(&z) - d * d]
        })[0];
        let scale = o.sum(|(p, _)| vec![lit(4.0) + nsq(&p.translation.vector)])[0];
        let n = |y: &V4| y.x * y.x + y.y * y.y + y.z * y.z + y.w * y.w;
        let best = form(&v) / n(&v);
        for k in 0..4 {
            for sg in [1e-3, -1e-3, 0.3] {
                let mut y = v;
                y[k] = y[k] + lit(sg);
                ensure_nonneg_near("the least-squares point over all observations", form(&y) / n(&y) - best, scale);
            }
        }
    }
}
fn exact_ob(n: &str, x: &V3) -> Ob {
    let r = rotation(&format!("{}.R", n));
    let b = unit3(&format!("{}.b", n));
    let d = pos_in(&format!("{}.d", n), 0.3, 4.0);
    let y = mv(r.matrix(), x);
    (IsometryMatrix3::from_parts(Translation3::from(Vector3::new(b.x * d - y.x, b.y * d - y.y, b.z * d - y.z)), r), b)
}
pub fn parallax(o: &Seq<Ob>) -> R {
    let v: Vec<V3> = o.items().iter().map(|(p, b)| mv(&tr(p.rotation.matrix()), b)).collect();
    nsq(&cross3(&v[0], &v[1]))
}
fn linear_exact_any() {
    set_tol(1e-5);
    let x = vec3("x");
    let o: Seq<Ob> = Seq::any(|n| exact_ob(n, &x));
    assume_pos_by(nsq(&x), 1e-4);
    sample_if(|| parallax(&o) > lit(0.02) && nsq(&x) < lit(25.0));
    if PROOF {
        assumption("the null space of the design is one-dimensional (the rays are not all parallel)");
        let s = (lit(1.0) + nsq(&x)).sqrt();
        let g = if flag("sign of the eigenvector") { lit(1.0) } else { lit(-1.0) };
        shim::set_eigenvector(vec![g * x.x / s, g * x.y / s, g * x.z / s, g / s]);
        shim::config("may_fail", 0);
    }
    let got = LinearEigenTriangulator::new().triangulate_observations(obs(&o));
    if PROOF {
        let c = &shim::calls("eigen")[0];
        let h = [x.x, x.y, x.z, lit(1.0)];
        for i in 0..4 {
            let mut s = lit(0.0);
            for j in 0..4 {
                s = s + c.ins[j * 4 + i] * h[j];
            }
            ensure_zero("the true point is in the null space", s);
        }
    }
    match got {
        Some(p) => same_point("the true point", &p.homogeneous(), &x),
        None => ensure("exact observations in front of every camera triangulate", false),
    }
}
type Ray = (V3, V3, Rotation3<R>);
/// the ray c + R+ d seen by a camera at c turned by any rotation
fn any_ray(n: &str) -> Ray {
    (vec3(&format!("{}.c", n)), unit3(&format!("{}.d", n)).into_inner(), rotation(&format!("{}.R", n)))
}
fn any_rays() -> (Seq<Ray>, Seq<Ob>) {
    let o: Seq<Ray> = Seq::any(any_ray);
    let seen = seen(&o);
    (o, seen)
}
fn seen(o: &Seq<Ray>) -> Seq<Ob> {
    o.map(|(c, d, r)| {
        let y = mv(r.matrix(), c);
        (IsometryMatrix3::from_parts(Translation3::from(Vector3::new(-y.x, -y.y, -y.z)), *r), Unit::new_unchecked(mv(r.matrix(), d)))
    })
}
/// the mean over the rays of the shortest way from p onto the ray's line, times the rate
fn sine_delta(o: &Seq<Ray>, p: &V3, rate: R) -> V3 {
    let s = o.sum(|(c, d, _)| {
        let q = Vector3::new(c.x - p.x, c.y - p.y, c.z - p.z);
        let e = dot3(&q, d);
        vec![q.x - d.x * e, q.y - d.y * e, q.z - d.z * e]
    });
    let k = rate / o.count();
    Vector3::new(s[0] * k, s[1] * k, s[2] * k)
}
fn plus(a: &V3, b: &V3) -> V3 {
    Vector3::new(a.x + b.x, a.y + b.y, a.z + b.z)
}
/// the linear method finds x (and accepts it)
fn linear_finds(x: &V3, seen: &Seq<Ob>) {
    let s = (lit(1.0) + nsq(x)).sqrt();
    let g = if flag("sign of the eigenvector") { lit(1.0) } else { lit(-1.0) };
    shim::set_eigenvector(vec![g * x.x / s, g * x.y / s, g * x.z / s, g / s]);
    shim::config("may_fail", 0);
    seen.each(|(p, b)| assume_pos(dot3(&xyz(&act(p, &Vector4::new(x.x, x.y, x.z, lit(1.0)))), b)));
}
/// any iteration, from any point; it starts at the linear method's
fn sine_any_step() {
    if !PROOF {
        return;
    }
    let f = "SineL1Triangulator::triangulate_observations";
    let none = flag("no iterations");
    let at = if none { At::Start } else { [At::Start, At::Middle, At::Last][pick("iteration", 3)] };
    let o: Seq<Ray> = Seq::any(any_ray);
    let seen = seen(&o);
    let x = vec3("x");
    assume_pos(nsq(&x));
    let (rate, eps) = (any("rate"), pos("epsilon"));
    linear_finds(&x, &seen);
    let t = SineL1Triangulator::new().epsilon(eps).max_iterations(if none { 0 } else { 1_000_000 }).optimization_rate(rate);
    let p = if at == At::Start { x } else { vec3("point") };
    if at != At::Start {
        assume_pos(nsq(&p));
    }
    let d = sine_delta(&o, &p, rate);
    let next = plus(&p, &d);
    let n = nsq(&next);
    // a step onto the world origin
    assume_pos(n);
    let stops = nsq(&d) / n < eps * eps;
    if !none {
        watch_loop(f, at, vec![("point", value(Point3::from(p)))], move |c| {
            ensure("goes on only without a reason to stop", !stops);
            ensure_eqs("the point after the step", &sv(&c.get::<Point3<R>>("point").coords), &sv(&next));
        });
    }
    let got = t.triangulate_observations(obs(&seen));
    if !none {
        loop_watched(f);
        ensure("stops for a reason", stops || at == At::Last);
    }
    match got {
        Some(q) => same_point("the point after the last step", &q.homogeneous(), if none { &x } else { &next }),
        None => ensure("a point when the linear method has one", false),
    }
    linear_sees(&seen);
}
/// the linear method's objective is the sum of the squared distances
fn linear_sees(seen: &Seq<Ob>) {
    let c = &shim::calls("eigen")[0];
    let y = vec4("y");
    let mut form = lit(0.0);
    for i in 0..4 {
        for j in 0..4 {
            form = form + c.ins[j * 4 + i] * y[i] * y[j];
        }
    }
    let want = seen.sum(|(p, b)| {
        let z = xyz(&act(p, &y));
        let d = dot3(&z, b);
        vec![nsq(&z) - d * d]
    })[0];
    ensure_eq("the linear method sees all observations", form, want);
}
/// no, one and two steps from any point the linear method finds
fn sine_steps(o: Seq<Ray>) {
    if !PROOF {
        return;
    }
    let seen = seen(&o);
    let x = vec3("x");
    assume_nonzero(nsq(&x));
    let (rate, eps) = (any("rate"), pos("epsilon"));
    linear_finds(&x, &seen);
    let steps = pick("steps", 3);
    let t = SineL1Triangulator::new().epsilon(eps).max_iterations(steps).optimization_rate(rate);
    let got = t.triangulate_observations(obs(&seen));
    let mut p = x;
    for _ in 0..steps {
        let d = sine_delta(&o, &p, rate);
        p = plus(&p, &d);
        let n = nsq(&p);
        // a step onto the world origin
        assume_pos(n);
        if nsq(&d) / n < eps * eps {
            break;
        }
    }
    match got {
        Some(q) => same_point("the point after the steps", &q.homogeneous(), &p),
        None => ensure("a point when the linear method has one", false),
    }
    linear_sees(&seen);
}
/// exact observations: the true point is not moved, whatever the settings
fn sine_exact() {
    set_tol(1e-5);
    let x = vec3("x");
    let o: Seq<Ob> = Seq::any(|n| exact_ob(n, &x));
    assume_pos_by(nsq(&x), 1e-4);
    sample_if(|| parallax(&o) > lit(0.02) && nsq(&x) < lit(25.0));
    if PROOF {
        linear_finds(&x, &o);
    }
    let mut t = SineL1Triangulator::new();
    if PROOF {
        t = t.epsilon(pos("epsilon")).optimization_rate(any("rate"));
    }
    match t.triangulate_observations(obs(&o)) {
        Some(p) => same_point("the true point", &p.homogeneous(), &x),
        None => ensure("exact observations in front of every camera triangulate", false),
    }
}
/// a point at infinity is returned as it is; no point without the linear method's
fn sine_other() {
    if !PROOF {
        return;
    }
    let (_, seen) = any_rays();
    let v = unit3("v");
    let finds = flag("the linear method has a solution");
    if finds {
        shim::set_eigenvector(vec![v.x, v.y, v.z, lit(0.0)]);
        shim::config("may_fail", 0);
    }
    let t = SineL1Triangulator::new();
    let t = if finds { t } else { t.max_iterations(0) };
    let got = t.triangulate_observations(obs(&seen));
    let c = shim::calls("eigen");
    if !finds {
        // of interest here is only the failure of the decomposition
        if c.is_empty() {
            ensure("no point", got.is_none());
        }
        return path_stop();
    }
    ensure("one eigenproblem", c.len() == 1);
    if let Some(p) = got {
        let h = p.homogeneous();
        ensure_zero("at infinity", h.w);
        parallel("the direction of the linear method", &[h.x, h.y, h.z], &sv(&v));
    }
}
/// the whole iteration against a direct simulation, from the linear method's point
fn sine_run() {
    set_tol(1e-6);
    let x = vec3("x");
    assume_pos_by(nsq(&x), 0.1);
    let o: Seq<Ray> = Seq::any(|n| {
        let d = unit3(&format!("{}.d", n)).into_inner();
        let k = pos_in(&format!("{}.k", n), 0.5, 4.0);
        let e = |i: &str| any_in(&format!("{}.e{}", n, i), -0.1, 0.1);
        (Vector3::new(x.x - k * d.x + e("x"), x.y - k * d.y + e("y"), x.z - k * d.z + e("z")), d, rotation(&format!("{}.R", n)))
    });
    let seen = seen(&o);
    sample_if(|| parallax(&seen) > lit(0.1));
    let eps = [1e-12, 1e-6, 1e-4, 1e-2, 1e-1][pick("epsilon", 5)];
    let n = [1000, 1000, 40, 15][pick("iterations", 4)];
    let rate = [1.0, 1.0, 0.3, 0.05][pick("rate", 4)];
    let start = LinearEigenTriangulator::new().epsilon(lit(eps)).max_iterations(n).triangulate_observations(obs(&seen));
    let got = SineL1Triangulator::new().epsilon(lit(eps)).max_iterations(n).optimization_rate(lit(rate)).triangulate_observations(obs(&seen));
    let mut p = match start.and_then(|s| s.point()) {
        Some(p) => p.coords,
        None => return ensure("no point without the linear method's", start.is_some() || got.is_none()),
    };
    sample_if(|| nsq(&p) < lit(1e4));
    for _ in 0..n {
        let d = sine_delta(&o, &p, lit(rate));
        p = plus(&p, &d);
        sample_if(|| nsq(&p) > lit(1e-2));
        let (a, b) = (nsq(&d), lit(eps * eps) * nsq(&p));
        // the last step is decided, or of no consequence
        sample_if(|| eps < 1e-7 || (a - b).abs() > b * lit(1e-3));
        if a < b {
            break;
        }
    }
    match got {
        Some(q) => same_point("the point after the steps", &q.homogeneous(), &p),
        None => ensure("a point when the linear method has one", false),
    }
}
/// exact two-view geometry: x = rho a in the first camera, R x + t = sigma b in the second
pub struct Two {
    pub pose: IsometryMatrix3<R>,
    pub a: UnitVector3<R>,
    pub b: UnitVector3<R>,
    pub x: V3,
    pub rho: R,
    pub sigma: R,
}
pub fn two_exact() -> Two {
    let r = rotation("R");
    // b = R d: d is the second bearing in the frame of the first camera
    let (a, d) = (unit3("a"), unit3("d").into_inner());
    let (rho, sigma) = (pos_in("rho", 0.3, 4.0), pos_in("sigma", 0.3, 4.0));
    let x = Vector3::new(a.x * rho, a.y * rho, a.z * rho);
    // centre of the second camera
    let c = Vector3::new(x.x - d.x * sigma, x.y - d.y * sigma, x.z - d.z * sigma);
    let y = mv(r.matrix(), &c);
    assume_pos_by(nsq(&cross3(&a, &d)), 0.02);
    Two { pose: IsometryMatrix3::from_parts(Translation3::from(Vector3::new(-y.x, -y.y, -y.z)), r), a, b: Unit::new_unchecked(mv(r.matrix(), &d)), x, rho, sigma }
}
fn dlt_exact() {
    set_tol(1e-5);
    let g = two_exact();
    // the linear system has two equations per view, which need b.z and a.z
    assume_apart(g.a.z, 0.1);
    assume_apart(g.b.z, 0.1);
    let x = g.x;
    if PROOF {
        assumption("the null space of the design is one-dimensional (the rays are not parallel and no bearing is in the image plane)");
        let s = (lit(1.0) + nsq(&x)).sqrt();
        let k = if flag("sign of the singular vector") { lit(1.0) } else { lit(-1.0) };
        shim::set_svd_row(vec![k * x.x / s, k * x.y / s, k * x.z / s, k / s]);
        shim::config("may_fail", 0);
    }
    let got = RelativeDltTriangulator::new().triangulate_relative(CameraToCamera(g.pose), g.a, g.b);
    if PROOF {
        let c = &shim::calls("svd")[0];
        let h = [x.x, x.y, x.z, lit(1.0)];
        for i in 0..4 {
            let mut s = lit(0.0);
            for j in 0..4 {
                s = s + c.ins[j * 4 + i] * h[j];
            }
            ensure_zero("the true point is in the null space", s);
        }
    }
    match got {
        Some(p) => same_point("the true point", &p.homogeneous(), &x),
        None => ensure("an exact match in front of both cameras triangulates", false),
    }
}
fn dlt_design() {
    let i = isometry("pose");
    let (a, b) = (unit3("a"), unit3("b"));
    let got = RelativeDltTriangulator::new().triangulate_relative(CameraToCamera(i), a, b);
    if let Some(p) = got {
        let v = p.homogeneous();
        ensure_nonneg("normalised", v.w);
        ensure_nonneg("in front of the first camera", dot3(&xyz(&v), &a));
        ensure_nonneg("in front of the second camera", dot3(&xyz(&act(&i, &v)), &b));
    }
    if PROOF {
        let c = shim::calls("svd");
        if c.is_empty() {
            return ensure("nothing without a decomposition", got.is_none());
        }
        ensure("one decomposition", c.len() == 1);
        let x = vec4("x");
        let y = xyz(&act(&i, &x));
        let want = [a.x * x.z - a.z * x.x, a.y * x.z - a.z * x.y, b.x * y.z - b.z * y.x, b.y * y.z - b.z * y.y];
        for r in 0..4 {
            let mut s = lit(0.0);
            for j in 0..4 {
                s = s + c[0].ins[j * 4 + r] * x[j];
            }
            ensure_eq("rows are the collinearity equations of both views", s, want[r]);
        }
        if let Some(p) = got {
            let v: Vec<R> = (0..4).map(|j| c[0].outs2[j * 4 + 3]).collect();
            parallel("the singular vector of the smallest singular value", &sv(&p.homogeneous()), &v);
        }
    }
}
/// columns of an arbitrary rotation
fn frame(n: &str) -> [V3; 3] {
    let w = rotation(n);
    let m = w.matrix();
    [0, 1, 2].map(|j| Vector3::new(m[(0, j)], m[(1, j)], m[(2, j)]))
}
fn comb(w: &[V3; 3], k: [R; 3]) -> V3 {
    let f = |i: usize| w[0][i] * k[0] + w[1][i] * k[1] + w[2][i] * k[2];
    Vector3::new(f(0), f(1), f(2))
}
/// two rays with a well-defined mean direction: d = k m +- s p with m, p orthonormal
fn mean_mean_2() {
    let w = frame("W");
    // s > 0 without loss: W may be turned by half a turn about m
    let [k, s] = unit2_quarter("half angle");
    assume_apart(s, 0.1);
    sample_if(|| k > lit(0.1));
    let z = lit(0.0);
    let mut rays = vec![];
    for (i, g) in [s, -s].iter().enumerate() {
        rays.push((comb(&w, [any(&format!("c{}.0", i)), any(&format!("c{}.1", i)), any(&format!("c{}.2", i))]), comb(&w, [k, *g, z])));
    }
    mean_mean(rays, Some((w[0], k)))
}
/// any number of rays with a mean direction
fn mean_mean_any() {
    let (o, seen) = any_rays();
    let k = o.count();
    let s = o.sum(|(c, d, _)| vec![d.x, d.y, d.z, c.x / k, c.y / k, c.z / k]);
    let c = Vector3::new(s[3], s[4], s[5]);
    let len = s[0] * s[0] + s[1] * s[1] + s[2] * s[2];
    assume_pos_by(len, 0.01);
    let len = len.sqrt();
    let m = Vector3::new(s[0] / len, s[1] / len, s[2] / len);
    let e = |d: &V3| dot3(&m, d);
    o.each(|(_, d, _)| assume_pos_by(lit(1.0) - e(d) * e(d), 1e-3));
    let dist = o.sum(|(p, d, _)| {
        // the point c + s m of the mean ray closest to the ray p + u d
        let q = Vector3::new(p.x - c.x, p.y - c.y, p.z - c.z);
        vec![(dot3(&q, &m) - e(d) * dot3(&q, d)) / (lit(1.0) - e(d) * e(d))]
    })[0] / k;
    assume_apart(dist, 1e-2);
    let w = lit(1.0) / dist;
    // the point is not the world origin
    let at = nsq(&Vector3::new(c.x * w + m.x, c.y * w + m.y, c.z * w + m.z));
    assume_pos_by(at, 1e-12);
    sample_if(|| at * dist * dist > lit(1e-4));
    match MeanMeanTriangulator.triangulate_observations(obs(&seen)) {
        Some(p) => {
            let v = p.homogeneous();
            ensure_nonneg("normalised", v.w);
            seen.each(|(i, b)| ensure_nonneg("in front of every camera", dot3(&xyz(&act(i, &v)), b)));
            ensure_eqs("mean distance along the mean ray", &[v.x, v.y, v.z], &[(c.x + m.x * dist) * v.w, (c.y + m.y * dist) * v.w, (c.z + m.z * dist) * v.w]);
            ensure_nonzero("finite", v.w);
        }
        None => {
            let f = if w < lit(0.0) { lit(-1.0) } else { lit(1.0) };
            let x = Vector4::new((c.x * w + m.x) * f, (c.y * w + m.y) * f, (c.z * w + m.z) * f, w * f);
            seen.some_nonneg("rejected only behind a camera", |(i, b)| -dot3(&xyz(&act(i, &x)), b));
        }
    }
}
/// exact observations from pairs of cameras on opposite sides, of points up to a million baselines away
fn mean_mean_far() {
    set_tol(1e-4);
    if PROOF {
        return;
    }
    let w = frame("W");
    let k = pos_in("log of the distance", -1.0, 6.0);
    let dist = lit(10.0).powf(k);
    let size = lit(10.0).powf(any_in("log of the size", -6.0, 6.0));
    let mut rays = vec![];
    for i in 0..1 + pick("pairs - 1", 3) {
        let (a, r) = (any_in(&format!("angle{}", i), 0.0, 7.0), pos_in(&format!("radius{}", i), 0.3, 1.0));
        for r in [r, -r] {
            let c = comb(&w, [lit(0.0), r * a.cos() * size, r * a.sin() * size]);
            let d = comb(&w, [dist * size, -r * a.cos() * size, -r * a.sin() * size]);
            let n = nsq(&d).sqrt();
            rays.push((c, Vector3::new(d.x / n, d.y / n, d.z / n)));
        }
    }
    let x = comb(&w, [dist, lit(0.0), lit(0.0)]);
    match MeanMeanTriangulator.triangulate_observations(Obs::of(&rays).it()).and_then(|p| p.point()) {
        Some(p) => ensure_eqs("the point that all rays meet in, over its distance", &[p.x / dist / size, p.y / dist / size, p.z / dist / size], &[x.x / dist, x.y / dist, x.z / dist]),
        None => ensure("a point", false),
    }
}
fn mean_mean(rays: Vec<(V3, V3)>, mean: Option<(V3, R)>) {
    let n = rays.len();
    let o = Obs::of(&rays);
    let k = lit(n as f64);
    let mut m: V3 = Vector3::zeros();
    let mut c: V3 = Vector3::zeros();
    for (p, d) in &rays {
        m = Vector3::new(m.x + d.x, m.y + d.y, m.z + d.z);
        c = Vector3::new(c.x + p.x / k, c.y + p.y / k, c.z + p.z / k);
    }
    let m = match mean {
        Some((v, e)) => {
            ensure_eqs("mean direction", &sv(&m), &[v.x * e * k, v.y * e * k, v.z * e * k]);
            v
        }
        None => {
            let len = nsq(&m);
            assume_pos_by(len, 0.01);
            let len = len.sqrt();
            Vector3::new(m.x / len, m.y / len, m.z / len)
        }
    };
    let mut dist = lit(0.0);
    for (p, d) in &rays {
        // the point c + s m of the mean ray closest to the ray p + u d
        let q = Vector3::new(p.x - c.x, p.y - c.y, p.z - c.z);
        let e = dot3(&m, d);
        let den = lit(1.0) - e * e;
        assume_pos_by(den, 1e-3);
        dist = dist + (dot3(&q, &m) - e * dot3(&q, d)) / den;
    }
    let dist = dist / k;
    assume_apart(dist, 1e-2);
    assume_pos_by(nsq(&Vector3::new(c.x + m.x * dist, c.y + m.y * dist, c.z + m.z * dist)), 1e-4);
    match MeanMeanTriangulator.triangulate_observations(o.it()) {
        Some(p) => {
            let v = p.homogeneous();
            ensure_nonneg("normalised", v.w);
            for (i, b) in o.poses.iter().zip(&o.b) {
                ensure_nonneg("in front of every camera", dot3(&xyz(&act(i, &v)), b));
            }
            ensure_eqs("mean distance along the mean ray", &[v.x, v.y, v.z], &[(c.x + m.x * dist) * v.w, (c.y + m.y * dist) * v.w, (c.z + m.z * dist) * v.w]);
            ensure_nonzero("finite", v.w);
        }
        None => {
            let w = lit(1.0) / dist;
            let f = if w < lit(0.0) { lit(-1.0) } else { lit(1.0) };
            let x = Vector4::new((c.x * w + m.x) * f, (c.y * w + m.y) * f, (c.z * w + m.z) * f, w * f);
            let mut worst = lit(1.0);
            for (i, b) in o.poses.iter().zip(&o.b) {
                let d = dot3(&xyz(&act(i, &x)), b);
                if d < worst {
                    worst = d
                }
            }
            ensure_nonneg("rejected only behind a camera", -worst);
        }
    }
}
fn angular_exact() {
    set_tol(1e-5);
    let g = two_exact();
    let p = CameraToCamera(g.pose);
    // the two directions and the baseline in the frame of the first camera
    let (a, d) = (g.a.into_inner(), mv(&tr(g.pose.rotation.matrix()), &g.b));
    let rt = mv(&tr(g.pose.rotation.matrix()), &g.pose.translation.vector);
    let c = Vector3::new(-rt.x, -rt.y, -rt.z);
    let (rho, sigma, k, e) = (g.rho, g.sigma, nsq(&cross3(&a, &d)), dot3(&a, &d));
    let off = sigma - rho * e;
    lemma_sign("baseline is not zero", nsq(&c), &[&[off, off], &[rho, rho, k]]);
    lemma_sign("baseline is not along the first ray", nsq(&cross3(&a, &c)), &[&[sigma, sigma, k]]);
    lemma_sign("baseline is not along the second ray", nsq(&cross3(&d, &c)), &[&[rho, rho, k]]);
    let l1 = flag("l1");
    if !l1 {
        let (na, nb) = (nsq(&cross3(&Vector3::new(d.x + a.x, d.y + a.y, d.z + a.z), &c)), nsq(&cross3(&Vector3::new(d.x - a.x, d.y - a.y, d.z - a.z), &c)));
        let all = na + nb;
        let two = lit(2.0);
        lemma_sign("one of the two plane normals is not zero", all, &[&[two, nsq(&cross3(&a, &c))], &[two, nsq(&cross3(&d, &c))]]);
        let half = lit(0.5);
        if na > nb {
            lemma_sign("the larger is not zero", na, &[&[half, all], &[half, na - nb]]);
        } else {
            lemma_sign("the larger is not zero", nb, &[&[half, all], &[half, nb - na]]);
        }
    }
    let got = if l1 { AngularL1Triangulator.triangulate_relative(p, g.a, g.b) } else { AngularLInfinityTriangulator.triangulate_relative(p, g.a, g.b) };
    match got {
        Some(p) => same_point("the true point", &p.homogeneous(), &g.x),
        None => ensure("an exact match in front of both cameras triangulates", false),
    }
}
/// The two corrected rays g (from the origin) and e (from c) are coplanar: g = w0, e = cos w0 + sin w1, c = rho g - sigma e.
/// Every pair of coplanar rays that are not parallel has this form.
struct Plane {
    w: [V3; 3],
    e: [R; 3],
    rho: R,
    sigma: R,
}
impl Plane {
    fn new() -> Self {
        let w = frame("W");
        let [c, s] = unit2("angle");
        assume_apart(s, 0.05);
        let (rho, sigma) = (nonzero("rho"), nonzero("sigma"));
        sample_if(|| rho * rho > lit(0.01) && sigma * sigma > lit(0.01));
        Plane { w, e: [c, s, lit(0.0)], rho, sigma }
    }
    fn g(&self) -> V3 {
        self.w[0]
    }
    fn e(&self) -> V3 {
        comb(&self.w, self.e)
    }
    fn c(&self) -> V3 {
        let z = lit(0.0);
        comb(&self.w, [self.rho - self.sigma * self.e[0], -self.sigma * self.e[1], z])
    }
    /// v with its angle out of the plane
    fn off(&self, v: &V3, k: R, s: R) -> V3 {
        let n = self.w[2];
        Vector3::new(v.x * k + n.x * s, v.y * k + n.y * s, v.z * k + n.z * s)
    }
    fn check(&self, got: Option<CameraPoint>) {
        let front = self.rho > lit(0.0) && self.sigma > lit(0.0);
        ensure("a point exactly when the corrected rays meet in front of both cameras", got.is_some() == front);
        if let Some(p) = got {
            let v = p.homogeneous();
            let g = self.g();
            ensure_pos("finite", v.w);
            ensure_eqs("the meeting point of the corrected rays", &[v.x, v.y, v.z], &[self.rho * g.x * v.w, self.rho * g.y * v.w, self.rho * g.z * v.w]);
        }
    }
    /// the two observations: first bearing f, second bearing R d
    fn run(&self, f: &V3, d: &V3, t: impl TriangulatorRelative) {
        let o = Obs::of(&[(self.c(), *d)]);
        self.check(t.triangulate_relative(CameraToCamera(o.poses[0]), Unit::new_unchecked(*f), o.b[0]))
    }
    fn baseline(&self) {
        // |c|^2 = (rho - sigma cos)^2 + (sigma sin)^2
        let (u, v) = (self.rho - self.sigma * self.e[0], self.sigma * self.e[1]);
        lemma_sign("baseline is not zero", nsq(&self.c()), &[&[u, u], &[v, v]]);
    }
}
/// the ray at the smaller angle to the baseline is rotated into the plane of the other ray and the baseline
fn angular_l1() {
    set_tol(1e-5);
    let p = Plane::new();
    p.baseline();
    let [k, s] = unit2_pos("correction");
    sample_if(|| k > lit(0.1));
    let c = p.c();
    let (f, d) = if flag("second ray is corrected") {
        let d = p.off(&p.e(), k, s);
        assume_pos_by(nsq(&cross3(&p.g(), &c)) - nsq(&cross3(&d, &c)), 1e-6);
        (p.g(), d)
    } else {
        let f = p.off(&p.g(), k, s);
        let gap = nsq(&cross3(&p.e(), &c)) - nsq(&cross3(&f, &c));
        assume_nonneg(gap);
        sample_if(|| gap > lit(1e-6));
        (f, p.e())
    };
    p.run(&f, &d, AngularL1Triangulator)
}
/// both rays are rotated by the same angle into the plane through the baseline and the further of their bisectors
fn angular_linf() {
    set_tol(1e-5);
    let p = Plane::new();
    p.baseline();
    let [k, s] = unit2_pos("correction");
    sample_if(|| k > lit(0.1));
    let f = p.off(&p.g(), k, s);
    let sum = flag("corrections in opposite directions");
    let d = p.off(&p.e(), k, if sum { -s } else { s });
    let c = p.c();
    let (a, b) = (Vector3::new(d.x + f.x, d.y + f.y, d.z + f.z), Vector3::new(d.x - f.x, d.y - f.y, d.z - f.z));
    let gap = nsq(&cross3(&a, &c)) - nsq(&cross3(&b, &c));
    if sum {
        assume_pos_by(gap, 1e-6);
    } else {
        assume_nonneg(-gap);
        sample_if(|| gap < lit(-1e-6));
    }
    p.run(&f, &d, AngularLInfinityTriangulator)
}

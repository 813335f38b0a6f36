use crate::util::*;
use cv_core::*;
use cv_geom::epipolar;
use cv_optimize::*;
const ONE1: &str = "single_view_simple_optimize_l1";
const ONE2: &str = "single_view_simple_optimize_l2";
const TH1: &str = "three_view_simple_optimize_l1";
const TH2: &str = "three_view_simple_optimize_l2";
const THA: &str = "three_view_adaptive_optimize_l2";
const THREE: &str = "three_view_simple_optimize_l1; three_view_simple_optimize_l2; three_view_adaptive_optimize_l2";
pub fn table() -> Vec<Harness> {
    vec![
        h("O01", "single_none", "single_view_simple_optimize_l1; single_view_simple_optimize_l2", single_none),
        h("O01", "single_step_l2", ONE2, || single_step(false, Seq::any(land), 1)),
        h("O01", "single_step_l1", ONE1, || single_step(true, Seq::any(land), 1)),
        hs("O01", "single_steps_l2", ONE2, "bounded: 2 iterations", "single_any_step_l2", || single_step(false, Seq::any(land), 2)),
        hs("O01", "single_steps_l1", ONE1, "bounded: 2 iterations", "single_any_step_l1", || single_step(true, Seq::any(land), 2)),
        hs("O01", "single_step2_l2", ONE2, "bounded: 2 landmarks", "single_step_l2", || single_step(false, two(land), 1)),
        hs("O01", "single_step2_l1", ONE1, "bounded: 2 landmarks", "single_step_l1", || single_step(true, two(land), 1)),
        h("O01", "single_any_step_l2", ONE2, || single_any_step(false)),
        h("O01", "single_any_step_l1", ONE1, || single_any_step(true)),
        h("O01", "single_exact", "single_view_simple_optimize_l1; single_view_simple_optimize_l2", single_exact),
        hf("O01", "single_run", "single_view_simple_optimize_l1; single_view_simple_optimize_l2", single_run),
        h("O02", "three_none", THREE, three_none),
        h("O02", "three_step_l2", TH2, || three_step(1, Seq::any(seen3), 1)),
        h("O02", "three_step_l1", TH1, || three_step(0, Seq::any(seen3), 1)),
        h("O02", "three_step_adaptive", THA, || three_step(2, Seq::any(seen3), 1)),
        hs("O02", "three_steps_l2", TH2, "bounded: 2 iterations", "three_any_step_l2", || three_step(1, Seq::any(seen3), 2)),
        hs("O02", "three_steps_l1", TH1, "bounded: 2 iterations", "three_any_step_l1", || three_step(0, Seq::any(seen3), 2)),
        hs("O02", "three_steps_adaptive", THA, "bounded: 2 iterations", "three_any_step_adaptive", || three_step(2, Seq::any(seen3), 2)),
        hs("O02", "three_step2_l2", TH2, "bounded: 2 landmarks", "three_step_l2", || three_step(1, two(seen3), 1)),
        hs("O02", "three_step2_l1", TH1, "bounded: 2 landmarks", "three_step_l1", || three_step(0, two(seen3), 1)),
        hs("O02", "three_step2_adaptive", THA, "bounded: 2 landmarks", "three_step_adaptive", || three_step(2, two(seen3), 1)),
        h("O02", "three_any_step_l2", TH2, || three_any_step(1)),
        h("O02", "three_any_step_l1", TH1, || three_any_step(0)),
        h("O02", "three_any_step_adaptive", THA, || three_any_step(2)),
        hf("O02", "three_run", THREE, three_run),
    ]
}
fn two<T: Clone>(f: impl Fn(&str) -> T) -> Seq<T> {
    Seq::of((0..2).map(|i| f(&format!("i{}", i))).collect())
}
fn vadd(a: &V3, b: &V3) -> V3 {
    Vector3::new(a.x + b.x, a.y + b.y, a.z + b.z)
}
fn vmul(a: &V3, k: R) -> V3 {
    Vector3::new(a.x * k, a.y * k, a.z * k)
}
fn v3(s: &[R]) -> V3 {
    Vector3::new(s[0], s[1], s[2])
}
/// the direction of v, zero for zero
fn dir(v: &V3) -> V3 {
    let n = nsq(v);
    if n == lit(0.0) {
        return Vector3::zeros();
    }
    vmul(v, lit(1.0) / n.sqrt())
}
fn norm(v: &V3) -> R {
    nsq(v).sqrt()
}
fn one(k: R) -> R {
    lit(1.0) / k
}
/// a after b
fn after(a: &IsometryMatrix3<R>, b: &IsometryMatrix3<R>) -> IsometryMatrix3<R> {
    let (m, n) = (a.rotation.matrix(), b.rotation.matrix());
    let t = vadd(&mv(m, &b.translation.vector), &a.translation.vector);
    IsometryMatrix3::from_parts(Translation3::from(t), Rotation3::from_matrix_unchecked(mm(m, n)))
}
/// any pose (in the proof not even a rigid one: nothing depends on it)
fn any_pose(n: &str) -> IsometryMatrix3<R> {
    if PROOF { affine(&many(n, 12)) } else { isometry(n) }
}
fn many(n: &str, k: usize) -> Vec<R> {
    (0..k).map(|i| any(&format!("{}.{}", n, i))).collect()
}
fn affine(v: &[R]) -> IsometryMatrix3<R> {
    let m = Matrix3::from_column_slice(&v[..9]);
    IsometryMatrix3::from_parts(Translation3::new(v[9], v[10], v[11]), Rotation3::from_matrix_unchecked(m))
}
/// The rigid motion of an increment. In the proof any map that is the same for the same increment stands for it.
#[derive(Clone)]
struct Motion(Uf);
impl Motion {
    fn new() -> Self {
        let m = Motion(Uf::new("motion", 12));
        if PROOF {
            need_hooks(&["Se3TangentSpace::isometry"]);
            let k = m.clone();
            substitute("Se3TangentSpace::isometry", move |(s,): (Se3TangentSpace,)| -> IsometryMatrix3<R> { k.of(s.translation, s.rotation) });
        }
        m
    }
    fn of(&self, t: V3, r: V3) -> IsometryMatrix3<R> {
        if !PROOF {
            return Se3TangentSpace { translation: t, rotation: r }.isometry();
        }
        affine(&self.0.at(&[sv(&t), sv(&r)].concat()))
    }
}
fn vector_or_zero(n: &str) -> Vec<R> {
    if flag(&format!("{}.zero", n)) {
        return vec![lit(0.0); 3];
    }
    nonzero_vector(n)
}
fn nonzero_vector(n: &str) -> Vec<R> {
    let v = vec3(n);
    assume_pos_by(nsq(&v), 1e-12);
    sv(&v)
}
/// The increment of one landmark, by the contract of G06 (in the proof any function).
#[derive(Clone)]
struct Gradient(Uf);
impl Gradient {
    fn new() -> Self {
        let g = Gradient(Uf::new("gradient", 6));
        if PROOF {
            need_hooks(&["world_pose_gradient"]);
            let k = g.clone();
            substitute("world_pose_gradient", move |(y, b): (V3, UnitVector3<R>)| -> Se3TangentSpace {
                let [t, r] = k.of(&y, &b);
                Se3TangentSpace { translation: t, rotation: r }
            });
        }
        g
    }
    fn of(&self, y: &V3, b: &V3) -> [V3; 2] {
        if !PROOF {
            let k = dot3(y, b);
            return [vadd(&vmul(b, k), &vmul(y, lit(-1.0))), cross3(&dir(y), b)];
        }
        let v = self.0.get(&[sv(y), sv(b)].concat(), |n| ["t", "r"].iter().flat_map(|k| vector_or_zero(&format!("{}.{}", n, k))).collect());
        [v3(&v), v3(&v[3..])]
    }
}
// ------------------------------------------------------------ one view
/// a landmark: where it is (None at infinity) and the bearing it was seen at
type Land = (Option<V3>, UnitVector3<R>);
fn land(n: &str) -> Land {
    let b = unit3(&format!("{}.b", n));
    if flag(&format!("{}.infinite", n)) {
        return (None, b);
    }
    let p = vec3(&format!("{}.p", n));
    // the world origin has no projective form
    assume_pos_by(nsq(&p), 1e-3);
    (Some(p), b)
}
fn matches(o: &Seq<Land>) -> Seq<FeatureWorldMatch> {
    o.map(|(p, b)| {
        let x = match p {
            Some(p) => WorldPoint::from_point((*p).into()),
            None => WorldPoint::from_homogeneous(Vector4::new(b.x, b.y, b.z, lit(0.0))),
        };
        FeatureWorldMatch(*b, x)
    })
}
/// a point in the frame of the camera; not its centre
fn seen(pose: &IsometryMatrix3<R>, p: &V3) -> V3 {
    let y = vadd(&mv(pose.rotation.matrix(), p), &pose.translation.vector);
    assume_pos_by(nsq(&y), 1e-4);
    y
}
fn single(l1: bool, pose: &IsometryMatrix3<R>, eps: R, rate: R, n: usize, o: &Seq<Land>) -> IsometryMatrix3<R> {
    let l = matches(o).slice();
    let pose = WorldToCamera(*pose);
    if l1 { single_view_simple_optimize_l1(pose, eps, rate, n, &l) } else { single_view_simple_optimize_l2(pose, rate, n, &l) }.isometry()
}
fn single_none() {
    let pose = isometry("pose");
    let (eps, rate) = (any("epsilon"), any("rate"));
    let l1 = flag("l1");
    let none = single(l1, &pose, eps, rate, 1 + pick("iterations", 3), &Seq::of(vec![]));
    ensure_eqs("without landmarks the pose stays", &iso(&none), &iso(&pose));
    let o = Seq::any(land);
    let none = single(l1, &pose, eps, rate, 0, &o);
    ensure_eqs("without iterations the pose stays", &iso(&none), &iso(&pose));
}
struct Sums {
    t: V3,
    r: V3,
    ts: R,
    rs: R,
    /// finite landmarks among them
    any: bool,
}
fn single_sums(l1: bool, g: &Gradient, pose: &IsometryMatrix3<R>, eps: R, o: &Seq<Land>) -> Sums {
    let scale = norm(&pose.translation.vector) * eps;
    let z = lit(0.0);
    let s = o.sum(|(p, b)| {
        let Some(p) = p else { return vec![z; 9] };
        let [t, r] = g.of(&seen(pose, p), b);
        if !l1 {
            return [sv(&t), sv(&r), vec![z, z, lit(1.0)]].concat();
        }
        [sv(&dir(&t)), sv(&dir(&r)), vec![one(norm(&t) + scale), one(norm(&r) + eps), lit(1.0)]].concat()
    });
    Sums { t: v3(&s), r: v3(&s[3..]), ts: s[6], rs: s[7], any: s[8] != z }
}
fn single_delta(l1: bool, s: &Sums, rate: R, n: R) -> [V3; 2] {
    if !s.any {
        return [Vector3::zeros(); 2];
    }
    if l1 {
        [vmul(&s.t, rate / s.ts), vmul(&s.r, rate / s.rs)]
    } else {
        [vmul(&s.t, rate / n), vmul(&s.r, rate / n)]
    }
}
fn single_step(l1: bool, o: Seq<Land>, n: usize) {
    set_tol(1e-7);
    let pose = any_pose("pose");
    let (eps, rate) = (pos_in("epsilon", 1e-6, 0.1), any("rate"));
    let (m, g) = (Motion::new(), Gradient::new());
    let mut p = pose;
    for _ in 0..n {
        if l1 {
            assume_pos_by(nsq(&p.translation.vector), 1e-3);
        }
        let s = single_sums(l1, &g, &p, eps, &o);
        if l1 && !s.any {
            break;
        }
        if l1 {
            assume_pos_by(s.ts, 1e-9);
            assume_pos_by(s.rs, 1e-9);
        }
        let [t, r] = single_delta(l1, &s, rate, o.count());
        p = after(&m.of(t, r), &p);
    }
    let got = single(l1, &pose, eps, rate, n, &o);
    ensure_eqs("the pose after the steps", &iso(&got), &iso(&p));
}
/// the state of the iteration the contract looks at: any, or the one the code starts with
fn any_at() -> At {
    [At::Start, At::Middle, At::Last][pick("iteration", 3)]
}
/// any iteration: from the state of the specification to its next state
fn single_any_step(l1: bool) {
    if !PROOF {
        return;
    }
    let f = if l1 { ONE1 } else { ONE2 };
    let at = any_at();
    let pose = any_pose("pose");
    let (eps, rate) = (pos("epsilon"), any("rate"));
    let o = Seq::any(land);
    let (m, g) = (Motion::new(), Gradient::new());
    let mut stop = Stop::new(2);
    if at != At::Start {
        stop = Stop { best: vec![Some(nonneg("best.t")), Some(nonneg("best.r"))], stale: pick("iterations without improvement", 50) };
    }
    let vars = vec![
        ("pose", value(WorldToCamera(pose))),
        ("best_trans", value(stop.best[0].unwrap_or(lit(0.0)))),
        ("best_rot", value(stop.best[1].unwrap_or(lit(0.0)))),
        ("no_improve_for", Value::Int(stop.stale as i64)),
    ];
    if l1 {
        assume_pos(nsq(&pose.translation.vector));
    }
    let s = single_sums(l1, &g, &pose, eps, &o);
    if l1 && s.any {
        assume_pos(s.ts);
        assume_pos(s.rs);
    }
    let stops = l1 && !s.any || stop.now(&[norm(&s.t), norm(&s.r)]);
    let [t, r] = single_delta(l1, &s, rate, o.count());
    let next = after(&m.of(t, r), &pose);
    watch_loop(f, at, vars, move |c| {
        ensure("goes on only without a reason to stop", !stops);
        ensure_eqs("the pose after the iteration", &iso(&c.get::<WorldToCamera>("pose").isometry()), &iso(&next));
        let best = [c.get::<R>("best_trans"), c.get::<R>("best_rot")];
        ensure_eqs("the smallest sums so far", &best, &stop.best.iter().map(|b| b.unwrap()).collect::<Vec<_>>());
        ensure("the iterations without improvement", c.int("no_improve_for") == stop.stale as i64);
    });
    let got = single(l1, &pose, eps, rate, 1_000_000, &o);
    loop_watched(f);
    ensure("stops for a reason", stops || at == At::Last);
    ensure_eqs("the pose after the last iteration", &iso(&got), &iso(if stops { &pose } else { &next }));
}
/// landmarks seen exactly where they are: the pose stays
fn single_exact() {
    set_tol(1e-4);
    let pose = isometry("pose");
    // rounding moves the pose by up to epsilon in each step
    let (eps, rate) = (pos_in("epsilon", 1e-9, 1e-8), any_in("rate", 0.0, 1.0));
    assume_pos_by(nsq(&pose.translation.vector), 1e-3);
    let o: Seq<Land> = Seq::any(|n| {
        let b = unit3(&format!("{}.b", n));
        let d = pos_in(&format!("{}.d", n), 0.3, 4.0);
        let y = vmul(&b, d);
        let t = pose.translation.vector;
        let p = mv(&tr(pose.rotation.matrix()), &Vector3::new(y.x - t.x, y.y - t.y, y.z - t.z));
        assume_pos_by(nsq(&p), 1e-3);
        (Some(p), b)
    });
    let l1 = flag("l1");
    let got = single(l1, &pose, eps, rate, if PROOF { 1 + pick("iterations", 2) } else { 1 + pick("iterations", 80) }, &o);
    ensure_eqs("the pose stays", &iso(&got), &iso(&pose));
}
/// the stopping rule: no iteration within fifty made a sum smaller than every earlier one
struct Stop {
    best: Vec<Option<R>>,
    stale: usize,
}
impl Stop {
    fn new(n: usize) -> Self {
        Stop { best: vec![None; n], stale: 0 }
    }
    fn now(&mut self, v: &[R]) -> bool {
        self.stale += 1;
        for (b, v) in self.best.iter_mut().zip(v) {
            // rounding must not decide
            sample_if(|| b.map_or(true, |b| (b - *v).abs() > lit(1e-9) * b) && *v > lit(1e-10));
            if b.map_or(true, |b| b > *v) {
                *b = Some(*v);
                self.stale = 0;
            }
        }
        self.stale >= 50
    }
}
/// a slightly different pose
fn nudged(p: &IsometryMatrix3<R>) -> IsometryMatrix3<R> {
    let e = lit(1e-12);
    let z = Vector3::new(lit(0.3) * e, lit(-0.5) * e, lit(0.4) * e);
    after(&Se3TangentSpace { translation: z, rotation: vmul(&z, lit(-1.0)) }.isometry(), p)
}
fn close(a: &[R], b: &[R]) -> bool {
    a.iter().zip(b).all(|(a, b)| (*a - *b).abs() < lit(1e-8))
}
/// a rate of either sign, or small enough for a long run to go on improving
fn run_rate() -> R {
    match pick("direction", 4) {
        0 | 1 => any_in("rate", 0.0, 0.5),
        2 => any_in("rate", -0.02, 0.0),
        _ => any_in("rate", -0.001, 0.001),
    }
}
/// the landmarks of a run: any, now and then all the same
fn run_marks<T: Clone + 'static>(gen: fn(&str) -> T) -> Seq<T> {
    if pick("the same", 12) == 0 {
        let x = gen("all");
        Seq::of(vec![x; 1 + pick("landmarks", 12)])
    } else {
        Seq::any(gen)
    }
}
/// now and then a long run
fn run_length() -> usize {
    1 + pick("iterations", [1200, 120, 120, 120, 120, 120, 120, 120][pick("length", 8)])
}
/// many iterations against a direct simulation, with the stopping rule
fn single_run() {
    set_tol(1e-5);
    let pose = isometry("pose");
    assume_pos_by(nsq(&pose.translation.vector), 1e-2);
    let l1 = flag("l1");
    let eps = pos_in("epsilon", 1e-3, 0.1);
    let rate = run_rate();
    let o: Seq<Land> = run_marks(land);
    let n = run_length();
    let (m, g) = (Motion::new(), Gradient::new());
    let got = single(l1, &pose, eps, rate, n, &o);
    let run = |pose: IsometryMatrix3<R>| {
        let mut p = pose;
        let mut stop = Stop::new(2);
        for _ in 0..n {
            let s = single_sums(l1, &g, &p, eps, &o);
            if !s.any && l1 || stop.now(&[norm(&s.t), norm(&s.r)]) {
                break;
            }
            let [t, r] = single_delta(l1, &s, rate, o.count());
            p = after(&m.of(t, r), &p);
            sample_if(|| nsq(&p.translation.vector) < lit(1e4) && nsq(&p.translation.vector) > lit(1e-4));
        }
        iso(&p)
    };
    let p = run(pose);
    // some trajectories are chaotic
    sample_if(|| close(&p, &run(nudged(&pose))));
    ensure_eqs("the pose after the steps", &iso(&got), &p);
}

// ---------------------------------------------------------- three views
type Seen3 = [UnitVector3<R>; 3];
fn seen3(n: &str) -> Seen3 {
    ["c", "f", "s"].map(|k| unit3(&format!("{}.{}", n, k)))
}
type Pair = [IsometryMatrix3<R>; 2];
/// of a rigid motion
fn inverse(i: &IsometryMatrix3<R>) -> IsometryMatrix3<R> {
    let m = tr(i.rotation.matrix());
    let t = vmul(&mv(&m, &i.translation.vector), lit(-1.0));
    IsometryMatrix3::from_parts(Translation3::from(t), Rotation3::from_matrix_unchecked(m))
}
fn isos(p: &Pair) -> Vec<R> {
    p.iter().flat_map(iso).collect()
}
/// The gradients of one landmark, by the contract of G06 (in the proof any function).
#[derive(Clone)]
struct Gradients {
    f: Uf,
    /// how zero increments are told apart: not at all, all four at once, each
    zeros: usize,
}
impl Gradients {
    fn new(zeros: usize) -> Self {
        let g = Gradients { f: Uf::new("gradients", 12), zeros };
        if PROOF {
            need_hooks(&["three_view_gradients"]);
            let k = g.clone();
            type Args = (UnitVector3<R>, UnitVector3<R>, V3, UnitVector3<R>, V3);
            substitute("three_view_gradients", move |(c, f, u, s, v): Args| -> [Se3TangentSpace; 2] {
                k.of(&c, &f, &u, &s, &v).map(|[t, r]| Se3TangentSpace { translation: t, rotation: r })
            });
        }
        g
    }
    fn of(&self, c: &V3, f: &V3, u: &V3, s: &V3, v: &V3) -> [[V3; 2]; 2] {
        if !PROOF {
            let [f, s] = [f, s].map(|b| UnitVector3::new_unchecked(*b));
            return epipolar::three_view_gradients(UnitVector3::new_unchecked(*c), f, *u, s, *v).map(|g| [g.translation, g.rotation]);
        }
        let x = self.f.get(&[c, f, u, s, v].map(sv).concat(), |n| match self.zeros {
            0 => many(n, 12),
            1 if flag(&format!("{}.zero", n)) => vec![lit(0.0); 12],
            1 => (0..4).flat_map(|k| nonzero_vector(&format!("{}.{}", n, k))).collect(),
            _ => (0..4).flat_map(|k| vector_or_zero(&format!("{}.{}", n, k))).collect(),
        });
        [[v3(&x), v3(&x[3..])], [v3(&x[6..]), v3(&x[9..])]]
    }
}
fn three(mode: usize, p: &Pair, eps: R, rate: R, n: usize, o: &Seq<Seen3>) -> Pair {
    let l = o.slice();
    let p = p.map(CameraToCamera);
    match mode {
        0 => three_view_simple_optimize_l1(p, eps, rate, n, &l),
        1 => three_view_simple_optimize_l2(p, rate, n, &l),
        _ => three_view_adaptive_optimize_l2(p, n, &l),
    }
    .map(|p| p.isometry())
}
fn three_none() {
    let p = [isometry("first"), isometry("second")];
    let (eps, rate) = (any("epsilon"), any("rate"));
    let mode = pick("mode", 3);
    let none = three(mode, &p, eps, rate, 1 + pick("iterations", 3), &Seq::of(vec![]));
    ensure_eqs("without landmarks the poses stay", &isos(&none), &isos(&p));
    let none = three(mode, &p, eps, rate, 0, &Seq::any(seen3));
    ensure_eqs("without iterations the poses stay", &isos(&none), &isos(&p));
}
/// the sum of the increments of each camera, and the two scales
fn three_sums(mode: usize, g: &Gradients, q: &Pair, eps: R, o: &Seq<Seen3>) -> [([V3; 2], [R; 2]); 2] {
    let scale = (norm(&q[0].translation.vector) + norm(&q[1].translation.vector)) * eps;
    let s = o.sum(|[c, f, s]| {
        let (a, b) = (mv(q[0].rotation.matrix(), f), mv(q[1].rotation.matrix(), s));
        let d = g.of(c, &a, &q[0].translation.vector, &b, &q[1].translation.vector);
        d.iter()
            .flat_map(|[t, r]| match mode {
                0 => [sv(&dir(t)), sv(&dir(r)), vec![one(norm(t) + scale), one(norm(r) + eps)]].concat(),
                1 => [sv(t), sv(r), vec![lit(0.0); 2]].concat(),
                _ => [sv(t), sv(r), vec![norm(t), norm(r)]].concat(),
            })
            .collect()
    });
    [0, 8].map(|i| ([v3(&s[i..]), v3(&s[i + 3..])], [s[i + 6], s[i + 7]]))
}
fn three_next(mode: usize, m: &Motion, q: &Pair, s: &[([V3; 2], [R; 2]); 2], rate: R, n: R) -> Pair {
    [0, 1].map(|k| {
        let [t, r] = [0, 1].map(|j| {
            let (v, z) = (&s[k].0[j], s[k].1[j]);
            match mode {
                0 => {
                    assume_pos_by(z, 1e-9);
                    vmul(v, rate / z)
                }
                1 => vmul(v, rate / n),
                // no increment at all, or the mean by how much the landmarks agree on it
                _ if (PROOF && same(&[z], &[lit(0.0)])) || (!PROOF && z == lit(0.0)) => Vector3::zeros(),
                _ => {
                    // a sum of lengths, some of them not zero
                    assume_pos_by(z, 1e-12);
                    vmul(v, norm(v) / z / n)
                }
            }
        });
        after(&m.of(t, r), &q[k])
    })
}
fn three_step(mode: usize, o: Seq<Seen3>, n: usize) {
    set_tol(1e-7);
    let p = [any_pose("first"), any_pose("second")];
    let (eps, rate) = (pos_in("epsilon", 1e-6, 0.1), any("rate"));
    let (m, g) = (Motion::new(), Gradients::new(if mode == 1 { 0 } else if n > 1 { 1 } else { 2 }));
    let run = |p: Pair| {
        let mut q = [inverse(&p[0]), inverse(&p[1])];
        for _ in 0..n {
            if mode == 0 {
                assume_pos_by(nsq(&q[0].translation.vector), 1e-3);
            }
            let s = three_sums(mode, &g, &q, eps, &o);
            q = three_next(mode, &m, &q, &s, rate, o.count());
        }
        isos(&[inverse(&q[0]), inverse(&q[1])])
    };
    let q = run(p);
    // a gradient that jumps near these poses
    sample_if(|| close(&q, &run([nudged(&p[0]), nudged(&p[1])])));
    let got = three(mode, &p, eps, rate, n, &o);
    ensure_eqs("the poses after the steps", &isos(&got), &q);
}
/// any iteration: from the state of the specification to its next state
fn three_any_step(mode: usize) {
    if !PROOF {
        return;
    }
    let f = [TH1, TH2, THA][mode];
    let at = any_at();
    let q = [any_pose("first"), any_pose("second")];
    // (only the start looks at the poses given)
    let given = if at == At::Start { [any_pose("given.first"), any_pose("given.second")] } else { [0, 1].map(|_| affine(&vec![lit(0.0); 12])) };
    let q = if at == At::Start { [inverse(&given[0]), inverse(&given[1])] } else { q };
    let (eps, rate) = (pos("epsilon"), any("rate"));
    let o: Seq<Seen3> = Seq::any(seen3);
    let (m, g) = (Motion::new(), Gradients::new([1, 0, 2][mode]));
    let mut stop = Stop::new(4);
    if at != At::Start && mode < 2 {
        stop = Stop { best: (0..4).map(|i| Some(nonneg(&format!("best.{}", i)))).collect(), stale: pick("iterations without improvement", 50) };
    }
    let mut vars = vec![("poses", value(q))];
    if mode < 2 {
        let b: Vec<R> = stop.best.iter().map(|b| b.unwrap_or(lit(0.0))).collect();
        vars.push(("bests", value([[b[0], b[1]], [b[2], b[3]]])));
        vars.push(("no_improve_for", Value::Int(stop.stale as i64)));
    }
    if mode == 0 {
        assume_pos(nsq(&q[0].translation.vector));
    }
    let s = three_sums(mode, &g, &q, eps, &o);
    let v = [norm(&s[0].0[0]), norm(&s[0].0[1]), norm(&s[1].0[0]), norm(&s[1].0[1])];
    let next = three_next(mode, &m, &q, &s, rate, o.count());
    let stops = mode < 2 && stop.now(&v);
    watch_loop(f, at, vars, move |c| {
        ensure("goes on only without a reason to stop", !stops);
        ensure_eqs("the poses after the iteration", &isos(&c.get::<Pair>("poses")), &isos(&next));
        if mode < 2 {
            let best = c.get::<[[R; 2]; 2]>("bests").concat();
            ensure_eqs("the smallest sums so far", &best, &stop.best.iter().map(|b| b.unwrap()).collect::<Vec<_>>());
            ensure("the iterations without improvement", c.int("no_improve_for") == stop.stale as i64);
        }
    });
    let got = three(mode, &given, eps, rate, 1_000_000, &o);
    loop_watched(f);
    ensure("stops for a reason", stops || at == At::Last);
    let q = if stops { q } else { next };
    ensure_eqs("the poses after the last iteration", &isos(&got), &isos(&[inverse(&q[0]), inverse(&q[1])]));
}
fn three_run() {
    set_tol(1e-5);
    let mode = pick("mode", 3);
    let p = [isometry("first"), isometry("second")];
    let eps = pos_in("epsilon", 1e-3, 0.1);
    let rate = run_rate();
    let o: Seq<Seen3> = run_marks(seen3);
    let n = run_length();
    let (m, g) = (Motion::new(), Gradients::new(2));
    let got = three(mode, &p, eps, rate, n, &o);
    let run = |p: Pair| {
        let mut q = [inverse(&p[0]), inverse(&p[1])];
        let mut stop = Stop::new(4);
        for _ in 0..n {
            let s = three_sums(mode, &g, &q, eps, &o);
            let v = [norm(&s[0].0[0]), norm(&s[0].0[1]), norm(&s[1].0[0]), norm(&s[1].0[1])];
            if mode < 2 && stop.now(&v) {
                break;
            }
            q = three_next(mode, &m, &q, &s, rate, o.count());
            sample_if(|| q.iter().all(|q| nsq(&q.translation.vector) < lit(1e4) && nsq(&q.translation.vector) > lit(1e-4)));
        }
        isos(&[inverse(&q[0]), inverse(&q[1])])
    };
    let q = run(p);
    sample_if(|| close(&q, &run([nudged(&p[0]), nudged(&p[1])])));
    ensure_eqs("the poses after the steps", &isos(&got), &q);
}

use crate::util::*;
use cv_core::sample_consensus::Estimator;
use cv_core::*;
use cv_pinhole::EssentialMatrix;
pub fn table() -> Vec<Harness> {
    vec![
        h("M01", "eight_point_equations", "EightPoint::from_matches; eight_point::encode_epipolar_equation", eight_equations),
        h("M01", "eight_point_poses", "EightPoint::estimate", eight_poses),
        h("M01", "eight_point_exact", "EightPoint::estimate", eight_exact),
        h("M02", "five_point_equations", "NisterStewenius::estimate; nister_stewenius::{encode_epipolar_equation; five_points_nullspace_basis}", five_equations),
        h("M02", "five_point_action", "nister_stewenius::{five_points_polynomial_constraints; five_points_relative_pose; essentials_from_action_ebasis; compute_eigenvector; o1; o2}; NisterStewenius::estimate", five_action),
        hf("M02", "five_point_repeated", "NisterStewenius::estimate", five_repeated),
        h("M02", "five_point_exact", "NisterStewenius::estimate; nister_stewenius::{five_points_polynomial_constraints; five_points_relative_pose; essentials_from_action_ebasis; compute_eigenvector}", five_exact),
    ]
}
/// A match with nonzero depths: both bearings are the given vectors scaled by k (any pair with a.z != 0 has this form).
fn scaled_match(i: usize) -> (FeatureMatch, V3, V3, R) {
    let k = nonzero(&format!("k{}", i));
    let a = Vector3::new(any(&format!("a{}.x", i)), any(&format!("a{}.y", i)), lit(1.0));
    let b = vec3(&format!("b{}", i));
    (FeatureMatch(Unit::new_unchecked(a * k), Unit::new_unchecked(b * k)), a, b, k)
}
/// b^T X a
fn bilinear(x: &[R], b: &V3, a: &V3) -> R {
    let mut s = lit(0.0);
    for j in 0..3 {
        for r in 0..3 {
            s = s + x[3 * j + r] * b[r] * a[j];
        }
    }
    s
}
/// How the decomposed 9x9 form q stores a matrix: the storage for which q(X) is the weighted sum of squared
/// epipolar values, for one of the usual ways to scale the equations. Column-major first.
pub fn storage(ins: &[R], ms: &[(V3, V3, R)]) -> Option<bool> {
    let x: Vec<R> = (0..9).map(|i| any(&format!("X{}", i))).collect();
    let mut q = lit(0.0);
    for i in 0..9 {
        for j in 0..9 {
            q = q + ins[9 * i + j] * x[i] * x[j];
        }
    }
    for col in [true, false] {
        let y: Vec<R> = if col { x.clone() } else { (0..9).map(|i| x[3 * (i % 3) + i / 3]).collect() };
        for w in 0..3 {
            let mut s = lit(0.0);
            for (a, b, k) in ms {
                let e = bilinear(&y, b, a);
                let f = match w {
                    0 => lit(1.0),        // both bearings over the depth in the first image
                    1 => lit(1.0) / b.z,  // both at unit depth
                    _ => *k * *k,         // the bearings themselves
                };
                s = s + (f * e) * (f * e);
            }
            if same(&[q], &[s]) {
                return Some(col);
            }
        }
    }
    None
}
fn eight_equations() {
    let mut ms: Vec<_> = (0..8).map(scaled_match).collect();
    // more matches than eight: the rest is not used
    ms.push(scaled_match(8));
    let ep = eight_point::EightPoint::new();
    let got = ep.from_matches(ms.iter().map(|m| m.0));
    if !PROOF {
        return;
    }
    let c = shim::calls("eigen");
    if c.is_empty() {
        return ensure("nothing without an eigendecomposition", got.is_none());
    }
    ensure("one eigenproblem", c.len() == 1);
    let c = &c[0];
    ensure("one unknown for each entry of the matrix", c.ins.len() == 81);
    let eq: Vec<_> = ms[..8].iter().map(|m| (m.1, m.2, m.3)).collect();
    let st = storage(&c.ins, &eq);
    ensure("the form is the sum of the squared epipolar values of the first eight matches", st.is_some());
    let (Some(col), Some(EssentialMatrix(e))) = (st, got) else {
        return ensure("a decomposition gives a matrix", got.is_some());
    };
    let v: Vec<R> = c.outs[c.index * 9..c.index * 9 + 9].to_vec();
    let m: Vec<R> = (0..9).map(|i| if col { e[(i % 3, i / 3)] } else { e[(i / 3, i % 3)] }).collect();
    parallel("the matrix is the minimiser of the form", &m, &v);
}
/// the two lists hold the same poses
pub fn same_poses(label: &str, got: &[CameraToCamera], want: &[CameraToCamera]) {
    let (g, w): (Vec<_>, Vec<_>) = (got.iter().map(|p| iso(&p.0)).collect(), want.iter().map(|p| iso(&p.0)).collect());
    ensure(&format!("{}: as many", label), g.len() == w.len());
    for (k, x) in w.iter().enumerate() {
        ensure(&format!("{}: pose {}", label, k), g.iter().filter(|y| same(x, y)).count() == w.iter().filter(|y| same(x, y)).count());
    }
}
fn eight_poses() {
    shim::config("may_fail", 0);
    let ms: Vec<_> = (0..8).map(scaled_match).collect();
    let ep = eight_point::EightPoint::new();
    shim::config("eigen_ordered", 1);
    shim::config("eigen_min", pick("column of the smallest eigenvalue", 9) as i64);
    if PROOF {
        shim::set_eigenvector(shim::fresh_unit("e", 9));
    }
    let Some(e) = ep.from_matches(ms.iter().map(|m| m.0)) else {
        return ensure("a matrix", false);
    };
    let want = e.possible_unscaled_poses(ep.epsilon, ep.iterations);
    if PROOF {
        shim::replay_svd(shim::calls("svd").remove(0));
    }
    let got = ep.estimate(ms.iter().map(|m| m.0));
    same_poses("the poses of the estimated essential matrix", &got, &want.map(|w| w.to_vec()).unwrap_or_default());
}
/// The epipolar equations of exact matches vanish at the essential matrix of the pose (E01, and `eight_point_equations`
/// for the form). In general position it is, up to its length and sign, the only such matrix: the eigenvector. For each
/// decomposition of it, the true pose is among the estimates.
fn eight_exact() {
    if !PROOF {
        return exact_matches(8);
    }
    shim::config("may_fail", 0);
    shim::config("eigen_ordered", 1);
    shim::config("eigen_min", pick("column of the smallest eigenvalue", 9) as i64);
    let ms: Vec<_> = (0..8).map(scaled_match).collect();
    let ep = eight_point::EightPoint::new();
    ep.from_matches(ms.iter().map(|m| m.0));
    let c = shim::calls("eigen").remove(0);
    let eq: Vec<_> = ms.iter().map(|m| (m.1, m.2, m.3)).collect();
    let Some(col) = storage(&c.ins, &eq) else {
        return ensure("the form is the sum of the squared epipolar values", false);
    };
    let d = crate::pinhole::some_decomposition();
    let negative = flag("the other unit eigenvector");
    let k = lit(1.0) / (lit(2.0).sqrt() * d.norm);
    let s = if negative { -k } else { k };
    let v: Vec<R> = (0..9).map(|i| s * if col { d.e[(i % 3, i / 3)] } else { d.e[(i / 3, i % 3)] }).collect();
    let mut len = lit(0.0);
    for x in &v {
        len = len + *x * *x;
    }
    ensure_eq("a unit vector", len, lit(1.0));
    shim::set_eigenvector(v);
    d.replay(k, negative);
    let got = ep.estimate(ms.iter().map(|m| m.0));
    if !shim::replayed() {
        not_checked("EightPoint::estimate", "another decomposition");
    }
    ensure("exactly one of the estimates is the true pose", got.iter().filter(|p| same(&iso(&p.0), &d.pose)).count() == 1);
}
/// exact matches in general position: the true pose (up to the length of its translation) is among the estimates
fn exact_matches(n: usize) {
    set_tol(1e-4);
    let q = unit_quat("pose");
    let t = Vector3::new(pos_in("t.x", -2.0, 2.0), pos_in("t.y", -2.0, 2.0), pos_in("t.z", -2.0, 2.0));
    let pose = CameraToCamera(IsometryMatrix3::from_parts(Translation3::from(t), Rotation3::from_matrix_unchecked(quat_matrix(q))));
    let mut ms = vec![];
    // the field of view
    let spread = lit([1.0, 1.0, 0.3][pick("spread", if n == 5 { 3 } else { 2 })]);
    let narrow = spread < lit(1.0);
    let mut g = SMatrix::<R, 9, 9>::zeros();
    for i in 0..n {
        let s = |a: &str| format!("x{}.{}", i, a);
        let x = Vector3::new(pos_in(&s("x"), -3.0, 3.0) * spread, pos_in(&s("y"), -3.0, 3.0) * spread, pos_in(&s("z"), -3.0, 3.0));
        let (a, b) = (x.normalize(), (pose.0.rotation * x + t).normalize());
        sample_if(|| a.z.abs() > lit(0.2));
        ms.push(FeatureMatch(Unit::new_unchecked(a), Unit::new_unchecked(b)));
        let r = SVector::<R, 9>::from_fn(|k, _| a[k / 3] * b[k % 3] / (a.z * a.z));
        g = g + r * r.transpose();
    }
    let gap = |k: usize| {
        let mut e: Vec<R> = g.symmetric_eigenvalues().iter().copied().collect();
        e.sort_by(|a, b| a.partial_cmp(b).unwrap());
        e[k] / e[8]
    };
    // nalgebra's iteration returns wrong eigenvectors for one matrix in 10^5
    sample_if(|| g.try_symmetric_eigen(lit(1e-12), 1000).map(|e| (e.recompose() - g).norm() < lit(1e-9) * g.norm()).unwrap_or(false));
    // the derivative of the epipolar equations for a rotation and for a change of the translation
    let mut jac = SMatrix::<R, 5, 5>::zeros();
    let u = t.cross(&Vector3::new(lit(0.3), lit(-0.5), lit(0.8))).normalize();
    let v = t.normalize().cross(&u);
    for i in 0..5 {
        let (a, b) = (pose.0.rotation * ms[i].0.into_inner(), ms[i].1.into_inner());
        let n = b.cross(&t);
        let w = a.cross(&n);
        let m = a.cross(&b);
        for (k, x) in [w.x, w.y, w.z, m.dot(&u), m.dot(&v)].iter().enumerate() {
            jac[(i, k)] = *x;
        }
    }
    sample_if(|| nsq(&t) > lit(0.1) && gap(9 - n) > lit(if n == 8 { 1e-4 } else if narrow { 1e-6 } else { 1e-5 }));
    if n == 5 {
        sample_if(|| jac.singular_values()[4] > lit(if narrow { 0.005 } else { 0.02 }));
        sample_if(|| q[0] < lit(0.98) && q.iter().all(|x| x.abs() > lit(0.05)) && t.iter().all(|x| x.abs() > lit(0.05)));
    }
    let len = nsq(&t).sqrt();
    let mut best = lit(100.0);
    // iterations break down for single inputs; so the same scene a few times, moved by rounding errors
    for k in 0..8 {
        let j = lit(1.0 + [0.0, 1e-12, -1e-11, 3e-10, -3e-10, 1e-8, -1e-7, 1e-6][k]);
        let near = ms.iter().enumerate().map(|(i, m)| if i % 2 == 0 { FeatureMatch(Unit::new_normalize(Vector3::new(m.0.x * j, m.0.y / j, m.0.z)), m.1) } else { *m });
        let got: Vec<CameraToCamera> = if n == 5 { nister_stewenius::NisterStewenius::new().estimate(near).into_iter().collect() } else { eight_point::EightPoint::new().estimate(near).into_iter().collect() };
        for p in &got {
            let dr = (p.0.rotation.matrix() - pose.0.rotation.matrix()).norm();
            let d = dr + (p.0.translation.vector - t / len).norm();
            if d < best {
                best = d
            }
            ensure_eq("a unit translation", nsq(&p.0.translation.vector), lit(1.0));
        }
        if best < lit(1e-5) {
            break;
        }
    }
    ensure("the true pose is among the estimates", best < lit(1e-2));
}

type Mono4 = [u8; 4];
type Form = std::collections::BTreeMap<Mono4, R>;
fn fadd(a: &Form, b: &Form, k: f64) -> Form {
    let mut o = a.clone();
    for (m, c) in b {
        let e = o.entry(*m).or_insert(lit(0.0));
        *e = *e + *c * lit(k);
    }
    o
}
fn fmul(a: &Form, b: &Form) -> Form {
    let mut o = Form::new();
    for (m, c) in a {
        for (n, d) in b {
            let e = o.entry([m[0] + n[0], m[1] + n[1], m[2] + n[2], m[3] + n[3]]).or_insert(lit(0.0));
            *e = *e + *c * *d;
        }
    }
    o
}
/// The ten cubic forms that vanish exactly on the essential matrices among c0 E0 + c1 E1 + c2 E2 + c3 E3:
/// det E, and the entries of 2 E E^T E - tr(E E^T) E.
fn cubic_forms(e: &[Matrix3<R>]) -> Vec<Form> {
    let ent = |i: usize, j: usize| -> Form {
        (0..4).map(|k| { let mut m = [0; 4]; m[k] = 1; (m, e[k][(i, j)]) }).collect()
    };
    let en: Vec<Vec<Form>> = (0..3).map(|i| (0..3).map(|j| ent(i, j)).collect()).collect();
    let mut out = vec![];
    let mut d = Form::new();
    for j in 0..3 {
        let (p, q) = ((j + 1) % 3, (j + 2) % 3);
        let minor = fadd(&fmul(&en[1][p], &en[2][q]), &fmul(&en[1][q], &en[2][p]), -1.0);
        d = fadd(&d, &fmul(&en[0][j], &minor), 1.0);
    }
    out.push(d);
    let eet: Vec<Vec<Form>> = (0..3).map(|i| (0..3).map(|j| (0..3).fold(Form::new(), |s, k| fadd(&s, &fmul(&en[i][k], &en[j][k]), 1.0))).collect()).collect();
    let trace = fadd(&fadd(&eet[0][0], &eet[1][1], 1.0), &eet[2][2], 1.0);
    for i in 0..3 {
        for j in 0..3 {
            let t = (0..3).fold(Form::new(), |s, k| fadd(&s, &fmul(&eet[i][k], &en[k][j]), 2.0));
            out.push(fadd(&t, &fmul(&trace, &en[i][j]), -1.0));
        }
    }
    out
}
const SCALES: [f64; 6] = [1.0, 0.5, 2.0, -1.0, -0.5, -2.0];
/// the monomial of each of the twenty columns, if the rows are these forms in some order
fn columns(row: &dyn Fn(usize) -> Vec<R>, forms: &[Form]) -> Option<Vec<Mono4>> {
    let mut cols: Option<Vec<Mono4>> = None;
    let mut used = vec![false; 10];
    for r in 0..10 {
        let v = row(r);
        let mut hit = false;
        'search: for (g, f) in forms.iter().enumerate() {
            if used[g] {
                continue;
            }
            for s in SCALES {
                match &cols {
                    Some(c) => {
                        if (0..20).all(|j| same(&[v[j]], &[f[&c[j]] * lit(s)])) {
                            hit = true;
                        }
                    }
                    None => {
                        let c: Vec<Mono4> = v.iter().filter_map(|x| f.iter().find(|(_, y)| same(&[*x], &[**y * lit(s)])).map(|(m, _)| *m)).collect();
                        let set: std::collections::BTreeSet<_> = c.iter().collect();
                        if set.len() == 20 {
                            cols = Some(c);
                            hit = true;
                        }
                    }
                }
                if hit {
                    used[g] = true;
                    break 'search;
                }
            }
        }
        if !hit {
            return None;
        }
    }
    cols
}
/// five matches, and the four null vectors of their equations as matrices
fn null_matrices(c: &shim::Call, ms: &[(FeatureMatch, V3, V3, R)]) -> Option<[Matrix3<R>; 4]> {
    let eq: Vec<_> = ms.iter().map(|m| (m.1, m.2, m.3)).collect();
    let col = storage(&c.ins, &eq)?;
    let mut o = [Matrix3::zeros(); 4];
    for k in 0..4 {
        let v = &c.outs[9 * ((c.index + k) % 9)..];
        o[k] = Matrix3::from_fn(|i, j| v[if col { 3 * j + i } else { 3 * i + j }]);
    }
    Some(o)
}
fn five_setup() -> (Vec<(FeatureMatch, V3, V3, R)>, nister_stewenius::NisterStewenius) {
    shim::config("eigen_ordered", 1);
    shim::config("eigen_any", 1);
    ((0..5).map(scaled_match).collect(), nister_stewenius::NisterStewenius::new())
}
fn five_equations() {
    let (ms, ns) = five_setup();
    let got = ns.estimate(ms.iter().map(|m| m.0));
    if !PROOF {
        return;
    }
    let c = shim::calls("eigen");
    if c.is_empty() {
        return ensure("nothing without an eigendecomposition", got.is_empty());
    }
    ensure("one eigenproblem", c.len() == 1);
    ensure("one unknown for each entry of the matrix", c[0].ins.len() == 81);
    ensure("the form is the sum of the squared epipolar values of the five matches", null_matrices(&c[0], &ms).is_some());
    let lu = shim::calls("lu");
    if lu.is_empty() {
        return ensure("nothing without a solution of the cubic system", got.is_empty());
    }
    // the eigenvalues are in ascending order from this column on
    ensure_pos("the equations have rank five", c[0].vals[(c[0].index + 4) % 9]);
}
/// a sample with a repeated match does not determine a pose
fn five_repeated() {
    let mut ms: Vec<_> = (0..5).map(|i| FeatureMatch(unit3(&format!("a{}", i)), unit3(&format!("b{}", i)))).collect();
    let (i, j) = (pick("one", 5), pick("other", 5));
    ms[i] = ms[j];
    sample_if(|| i != j);
    ensure("no pose from a repeated match", nister_stewenius::NisterStewenius::new().estimate(ms.into_iter()).is_empty());
}
fn five_action() {
    five_zero(None)
}
/// The essential matrix of the pose satisfies the equations of exact matches (E01): it is in their null space, and a
/// common zero of the ten cubic forms. The code gets a multiple of it; for each decomposition of that, the true pose
/// is among the estimates.
fn five_exact() {
    if !PROOF {
        return exact_matches(5);
    }
    let d = crate::pinhole::some_decomposition();
    for f in cubic_forms(&[d.e, Matrix3::zeros(), Matrix3::zeros(), Matrix3::zeros()]) {
        ensure_zero("an essential matrix satisfies the cubic constraints", f[&[3, 0, 0, 0]]);
    }
    five_zero(Some(d))
}
fn five_zero(exact: Option<crate::pinhole::Decomposed>) {
    let (ms, ns) = five_setup();
    // (the exact case: some column; the others are in five_action)
    shim::config("eigen_min", if exact.is_some() { 4 } else { pick("column of the smallest eigenvalue", 3) as i64 * 4 });
    shim::config("may_fail", 0);
    shim::config("svd_null", 1);
    let real = pick("index of the real eigenvalue", 3) as i64 * 4;
    shim::config("complex_real", real);
    let pt: Vec<R> = (0..4).map(|i| nonzero(&format!("c{}", i))).collect();
    let scale = nonzero("scale of the null vector");
    let mono = |m: &Mono4, pt: &[R]| -> R {
        let mut p = lit(1.0);
        for k in 0..4 {
            for _ in 0..m[k] {
                p = p * pt[k];
            }
        }
        p
    };
    if PROOF {
        let (ms, pt) = (ms.clone(), pt.clone());
        shim::on_lu(move |a, b, x| {
            let calls = shim::calls("eigen");
            let Some(e) = calls.first().and_then(|c| null_matrices(c, &ms)) else { return ensure("the null space of the equations", false) };
            if a.len() != 100 || b.len() != 100 {
                return ensure("a system of ten cubic equations", false);
            }
            let forms = cubic_forms(&e);
            let row = |r: usize| -> Vec<R> { (0..20).map(|j| if j < 10 { a[10 * j + r] } else { b[10 * (j - 10) + r] }).collect() };
            let cols = columns(&row, &forms);
            ensure("the rows are the ten cubic constraints of an essential matrix", cols.is_some());
            let Some(cols) = cols else { return };
            // a common zero of the ten forms: the solution maps its lower monomials to minus its leading ones
            let v: Vec<R> = cols.iter().map(|m| mono(m, &pt)).collect();
            for i in 0..10 {
                let mut s = v[i];
                for j in 0..9 {
                    s = s + x[10 * j + i] * v[10 + j];
                }
                x[90 + i] = -s / v[19];
            }
            shim::set_svd_row(v[10..].iter().map(|y| *y * scale).collect());
        });
    }
    if let Some(d) = &exact {
        shim::config("eigen_null", 4);
        let (ms, pt, d, negative, k) = (ms.clone(), pt.clone(), d.clone(), flag("negative multiple"), pos("multiple"));
        shim::on_svd(move |m| {
            if m.len() != 9 {
                return None;
            }
            let e = shim::calls("eigen").first().and_then(|c| null_matrices(c, &ms))?;
            parallel("a multiple of the essential matrix", m, &sm(&(e[0] * pt[0] + e[1] * pt[1] + e[2] * pt[2] + e[3] * pt[3])));
            Some(d.call(k, negative))
        });
    }
    let got = ns.estimate(ms.iter().map(|m| m.0));
    if !PROOF {
        return;
    }
    if let Some(d) = exact {
        let c = &shim::calls("eigen")[0];
        if shim::calls("lu").is_empty() && !(c.vals[(c.index + 4) % 9] > lit(1e-4)) {
            // the equations may have a lower rank
            return ensure("no pose without the null space", got.is_empty());
        }
        return ensure("exactly one of the estimates is the true pose", got.iter().filter(|p| same(&iso(&p.0), &d.pose)).count() == 1);
    }
    let (lu, ce, svd) = (shim::calls("lu"), shim::calls("complex_eigen"), shim::calls("svd"));
    if lu.is_empty() {
        return ensure("nothing without a solution of the cubic system", got.is_empty());
    }
    if ce.is_empty() || svd.is_empty() {
        return ensure("the eigenvalues of the action are asked for", false);
    }
    let row: Vec<R> = (0..10).map(|j| svd[0].outs2[10 * j + 9]).collect();
    // the action matrix multiplies by one of the unknowns
    let at = |i: usize, j: usize| ce[0].ins[10 * j + i];
    let prod: Vec<R> = (0..10).map(|i| (0..10).fold(lit(0.0), |s, j| s + at(i, j) * row[j])).collect();
    let mut ok = false;
    for k in 0..4 {
        for w in 0..4 {
            for s in [lit(1.0), lit(-1.0)] {
                ok = ok || same(&prod, &row.iter().map(|x| *x * s * pt[k] / pt[w]).collect::<Vec<_>>());
            }
        }
    }
    ensure("every common zero is an eigenvector of the action, for one of its unknowns", ok);
    ensure("the real eigenvalue is used, the others are not", svd.len() == 2);
    let shifted: Vec<R> = (0..100).map(|i| ce[0].ins[i] - if i % 11 == 0 { ce[0].vals[ce[0].index] } else { lit(0.0) }).collect();
    ensure_eqs("the null vector of the shifted action", &svd[0].ins, &shifted);
    if svd.len() != 2 {
        return;
    }
    // the matrix of the zero
    let e = null_matrices(&shim::calls("eigen")[0], &ms).unwrap();
    let want: Matrix3<R> = e[0] * pt[0] + e[1] * pt[1] + e[2] * pt[2] + e[3] * pt[3];
    parallel("the matrix of the common zero", &svd[1].ins, &sm(&want));
    shim::replay_svd(svd[1].clone());
    let em = EssentialMatrix(Matrix3::from_fn(|i, j| svd[1].ins[3 * j + i]));
    let poses = em.possible_unscaled_poses(ns.epsilon, ns.iterations);
    same_poses("its four poses", &got, &poses.map(|w| w.to_vec()).unwrap_or_default());
}

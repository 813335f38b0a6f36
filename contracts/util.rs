//! Spec functions: written from the mathematics, independently of the repository.
pub use nalgebra::*;
pub use crate::vc::*;
pub type V3 = Vector3<R>;
pub type V4 = Vector4<R>;
pub fn sv<const N: usize>(v: &SVector<R, N>) -> Vec<R> {
    v.iter().copied().collect()
}
pub fn sm<const A: usize, const B: usize>(v: &SMatrix<R, A, B>) -> Vec<R> {
    v.iter().copied().collect()
}
pub fn iso(v: &IsometryMatrix3<R>) -> Vec<R> {
    let mut o = sm(v.rotation.matrix());
    o.extend(sv(&v.translation.vector));
    o
}
/// R x + w t  (spec of the action of a rigid motion on a homogeneous point)
pub fn act(p: &IsometryMatrix3<R>, x: &V4) -> V4 {
    let m = p.rotation.matrix();
    let t = p.translation.vector;
    let f = |i: usize| m[(i, 0)] * x.x + m[(i, 1)] * x.y + m[(i, 2)] * x.z + t[i] * x.w;
    Vector4::new(f(0), f(1), f(2), x.w)
}
pub fn mv(m: &Matrix3<R>, x: &V3) -> V3 {
    let f = |i: usize| m[(i, 0)] * x.x + m[(i, 1)] * x.y + m[(i, 2)] * x.z;
    Vector3::new(f(0), f(1), f(2))
}
pub fn mm(a: &Matrix3<R>, b: &Matrix3<R>) -> Matrix3<R> {
    Matrix3::from_fn(|i, j| a[(i, 0)] * b[(0, j)] + a[(i, 1)] * b[(1, j)] + a[(i, 2)] * b[(2, j)])
}
pub fn tr(a: &Matrix3<R>) -> Matrix3<R> {
    Matrix3::from_fn(|i, j| a[(j, i)])
}
pub fn crossm(v: &V3) -> Matrix3<R> {
    let z = lit(0.0);
    Matrix3::new(z, -v.z, v.y, v.z, z, -v.x, -v.y, v.x, z)
}
pub fn cross3(a: &V3, b: &V3) -> V3 {
    Vector3::new(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)
}
pub fn dot3(a: &V3, b: &V3) -> R {
    a.x * b.x + a.y * b.y + a.z * b.z
}
pub fn nsq(a: &V3) -> R {
    dot3(a, a)
}
pub fn h(property: &'static str, name: &'static str, functions: &'static str, f: fn()) -> Harness {
    Harness { property, name, functions, kind: "proof", instead_of: "", f }
}
pub fn hb(property: &'static str, name: &'static str, functions: &'static str, bound: &'static str, f: fn()) -> Harness {
    Harness { property, name, functions, kind: bound, instead_of: "", f }
}
/// a bounded stand-in for another contract: its proof runs only when that one is not (fully) checked
pub fn hs(property: &'static str, name: &'static str, functions: &'static str, bound: &'static str, instead_of: &'static str, f: fn()) -> Harness {
    Harness { property, name, functions, kind: bound, instead_of, f }
}
/// checked by sampling on the real code only (nothing here is counted as proved)
pub fn hf(property: &'static str, name: &'static str, functions: &'static str, f: fn()) -> Harness {
    Harness { property, name, functions, kind: "f64 sampled", f: if PROOF { nothing } else { f }, instead_of: "" }
}
/// demonstration of a listed known finding
pub fn hk(property: &'static str, name: &'static str, functions: &'static str, f: fn()) -> Harness {
    Harness { property, name, functions, kind: "finding", f: if PROOF { nothing } else { f }, instead_of: "" }
}
fn nothing() {}
/// Rodrigues' rotation formula
pub fn rodrigues(v: &V3) -> Matrix3<R> {
    let t2 = nsq(v);
    let i = Matrix3::identity();
    if t2 == lit(0.0) {
        return i;
    }
    let t = t2.sqrt();
    let k = crossm(v);
    let k2 = mm(&k, &k);
    let (a, b) = (t.sin() / t, (lit(1.0) - t.cos()) / t2);
    Matrix3::from_fn(|r, c| i[(r, c)] + a * k[(r, c)] + b * k2[(r, c)])
}
/// the same point of projective space
pub fn parallel(label: &str, p: &[R], q: &[R]) {
    let (p, q) = (scale_free(p), scale_free(q));
    for i in 0..p.len() {
        for j in 0..i {
            ensure_eq(label, p[i] * q[j], p[j] * q[i]);
        }
    }
}
/// An uninterpreted function: the same values for the same arguments, arbitrary values otherwise.
#[derive(Clone)]
pub struct Uf {
    name: &'static str,
    n: usize,
    rows: std::rc::Rc<std::cell::RefCell<Vec<(Vec<R>, Vec<R>)>>>,
}
impl Uf {
    pub fn new(name: &'static str, n: usize) -> Self {
        Uf { name, n, rows: Default::default() }
    }
    pub fn get(&self, key: &[R], make: impl Fn(&str) -> Vec<R>) -> Vec<R> {
        if let Some(r) = self.rows.borrow().iter().find(|r| same(&r.0, key)) {
            return r.1.clone();
        }
        let v = make(&format!("{}{}", self.name, self.rows.borrow().len()));
        assert!(v.len() == self.n);
        self.rows.borrow_mut().push((key.to_vec(), v.clone()));
        v
    }
    pub fn at(&self, key: &[R]) -> Vec<R> {
        self.get(key, |s| (0..self.n).map(|i| any(&format!("{}.{}", s, i))).collect())
    }
}

//! Assumed contracts of the iterative linear-algebra routines of nalgebra (and of its logarithm map).
//! The transformer redirects the calls here; every call is logged so that a contract can refer to the
//! argument that reached the routine. What is assumed of each result is written next to it and noted
//! in the evidence.
use crate::api::*;
use crate::poly::*;
use crate::vc::*;
use crate::Sym;
use nalgebra::allocator::Allocator;
use nalgebra::linalg::{SymmetricEigen, SVD};
use nalgebra::*;
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct Call {
    pub what: &'static str,
    /// arguments, column-major
    pub ins: Vec<Sym>,
    /// results, column-major
    pub outs: Vec<Sym>,
    pub outs2: Vec<Sym>,
    pub vals: Vec<Sym>,
    pub index: usize,
}
thread_local! {
    static LOG: RefCell<Vec<Call>> = RefCell::new(vec![]);
    static CFG: RefCell<std::collections::HashMap<&'static str, i64>> = RefCell::new(Default::default());
}
pub fn reset() {
    LOG.with(|l| l.borrow_mut().clear());
    CFG.with(|l| l.borrow_mut().clear());
}
pub fn calls(what: &str) -> Vec<Call> {
    LOG.with(|l| l.borrow().iter().filter(|c| c.what == what).cloned().collect())
}
/// Harness choices: which result of an underdetermined contract to explore.
pub fn config(key: &'static str, v: i64) {
    CFG.with(|c| {
        c.borrow_mut().insert(key, v);
    })
}
fn cfg(key: &'static str) -> Option<i64> {
    CFG.with(|c| c.borrow().get(key).copied())
}
fn push(c: Call) {
    LOG.with(|l| l.borrow_mut().push(c))
}
fn fails(what: &str) -> bool {
    match cfg("may_fail") {
        Some(0) => false,
        _ => choose(&format!("{} does not converge", what)),
    }
}
/// a fresh unit vector of length n
pub fn fresh_unit(name: &str, n: usize) -> Vec<Sym> {
    let vs: Vec<VarId> = (0..n).map(|i| new_var(&format!("{}{}", name, i), ANY)).collect();
    let mut p = Poly::one();
    for x in &vs[..n - 1] {
        p = p.sub(&Poly::mono(Mono::pow_var(*x, 2), Q::ONE));
    }
    with(|c| c.vars[vs[n - 1] as usize].rule = Some((p, Poly::one())));
    vs.into_iter().map(sym_var).collect()
}
pub trait EigenC {
    type Out;
    fn try_symmetric_eigen_c(self, eps: Sym, n: usize) -> Option<Self::Out>;
    fn symmetric_eigen_c(self) -> Self::Out;
}
impl<D: Dim> EigenC for OMatrix<Sym, D, D>
where
    DefaultAllocator: Allocator<Sym, D, D> + Allocator<Sym, D>,
{
    type Out = SymmetricEigen<Sym, D>;
    fn try_symmetric_eigen_c(self, _eps: Sym, _n: usize) -> Option<Self::Out> {
        if fails("symmetric eigendecomposition") {
            return None;
        }
        Some(self.symmetric_eigen_c())
    }
    fn symmetric_eigen_c(self) -> Self::Out {
        note_assumption("nalgebra symmetric_eigen: eigenvalues of a positive semidefinite argument are nonnegative, pairwise distinct, and its eigenvectors are unit vectors (iteration not verified)");
        let n = self.nrows();
        let (d, d2) = self.shape_generic();
        let k = match cfg("eigen_min") {
            Some(k) if k >= 0 => k as usize % n,
            _ => pick("index of the smallest eigenvalue", n),
        };
        let null = cfg("eigen_null").unwrap_or(0) as usize;
        let lk = if null > 0 { lit(0.0) } else { nonneg("lambda_min") };
        let mut vals = vec![];
        let ordered = cfg("eigen_ordered").is_some();
        let mut run = lk;
        for j in 0..n {
            vals.push(if j == k {
                lk
            } else if ordered {
                // a total order: increasing after k, cyclically
                run
            } else if (j + n - k) % n < null {
                lk
            } else {
                lk + pos(&format!("gap{}", j))
            });
        }
        if ordered {
            for s in null.max(1)..n {
                run = run + pos("gap");
                vals[(k + s) % n] = run;
            }
        }
        let mut m = OMatrix::<Sym, D, D>::zeros_generic(d, d2);
        let mut cols = vec![];
        for j in 0..n {
            let c = if let Some(v) = with(|c| c.scratch.get("eigenvector").and_then(|b| b.downcast_ref::<Vec<Sym>>().cloned())).filter(|_| j == k) {
                v
            } else if cfg("eigen_any").is_some() {
                (0..n).map(|i| any(&format!("ev{}_{}", j, i))).collect()
            } else {
                fresh_unit(&format!("ev{}_", j), n)
            };
            for i in 0..n {
                m[(i, j)] = c[i];
            }
            cols.extend(c);
        }
        push(Call { what: "eigen", ins: self.iter().copied().collect(), outs: cols, outs2: vec![], vals: vals.clone(), index: k });
        SymmetricEigen { eigenvectors: m, eigenvalues: OVector::<Sym, D>::from_iterator_generic(d, nalgebra::Const::<1>, vals.into_iter()) }
    }
}
/// Let the eigenvector of the smallest eigenvalue be this one.
pub fn set_eigenvector(v: Vec<Sym>) {
    with(|c| {
        c.scratch.insert("eigenvector".into(), Box::new(v));
    })
}
fn det3(m: &[Sym]) -> Sym {
    m[0] * (m[4] * m[8] - m[7] * m[5]) - m[3] * (m[1] * m[8] - m[7] * m[2]) + m[6] * (m[1] * m[5] - m[4] * m[2])
}
fn svd_of<Rw: DimMin<C>, C: Dim>(m: OMatrix<Sym, Rw, C>, cu: bool, cv: bool, sorted: bool) -> SVD<Sym, Rw, C>
where
    DefaultAllocator: Allocator<Sym, Rw, C> + Allocator<Sym, Rw, DimMinimum<Rw, C>> + Allocator<Sym, DimMinimum<Rw, C>, C> + Allocator<Sym, DimMinimum<Rw, C>>,
{
    if let Some(c0) = with(|c| c.scratch.get("svd_replay").and_then(|b| b.downcast_ref::<Call>().cloned())) {
        let (r, c) = m.shape_generic();
        let k = r.min(c);
        if c0.ins.len() == m.len() && m.iter().zip(&c0.ins).all(|(a, b)| (*a - *b).rat().num.is_zero()) {
            with(|c| {
                c.scratch.insert("svd_replayed".into(), Box::new(()));
            });
            return SVD {
                u: if cu { Some(OMatrix::<Sym, Rw, DimMinimum<Rw, C>>::from_iterator_generic(r, k, c0.outs.clone().into_iter())) } else { None },
                v_t: if cv { Some(OMatrix::<Sym, DimMinimum<Rw, C>, C>::from_iterator_generic(k, c, c0.outs2.clone().into_iter())) } else { None },
                singular_values: OVector::<Sym, DimMinimum<Rw, C>>::from_iterator_generic(k, nalgebra::Const::<1>, c0.vals.clone().into_iter()),
            };
        }
    }
    let hook = with(|c| c.scratch.get("on_svd").and_then(|b| b.downcast_ref::<std::rc::Rc<dyn Fn(&[Sym]) -> Option<Call>>>().cloned()));
    if let Some(c0) = hook.and_then(|f| f(&m.iter().copied().collect::<Vec<_>>())) {
        let (r, c) = m.shape_generic();
        let k = r.min(c);
        push(c0.clone());
        return SVD {
            u: if cu { Some(OMatrix::<Sym, Rw, DimMinimum<Rw, C>>::from_iterator_generic(r, k, c0.outs.into_iter())) } else { None },
            v_t: if cv { Some(OMatrix::<Sym, DimMinimum<Rw, C>, C>::from_iterator_generic(k, c, c0.outs2.into_iter())) } else { None },
            singular_values: OVector::<Sym, DimMinimum<Rw, C>>::from_iterator_generic(k, nalgebra::Const::<1>, c0.vals.into_iter()),
        };
    }
    note_assumption("nalgebra SVD: U, V orthogonal, singular values nonnegative (sorted when ordered), A = U S V^T (iteration not verified)");
    let (r, c) = m.shape_generic();
    let k = r.min(c);
    let (rn, cn, kn) = (r.value(), c.value(), k.value());
    let last = match cfg("svd_null") {
        Some(_) => lit(0.0),
        None => nonneg("sigma_min"),
    };
    let mut vals = vec![last];
    for i in 1..kn {
        let p = *vals.last().unwrap();
        vals.push(if cfg("svd_equal").is_some() && i == 2 { p } else { p + pos(&format!("sgap{}", i)) });
    }
    vals.reverse();
    let _ = sorted;
    let mut u = OMatrix::<Sym, Rw, DimMinimum<Rw, C>>::zeros_generic(r, k);
    let mut vt = OMatrix::<Sym, DimMinimum<Rw, C>, C>::zeros_generic(k, c);
    if rn == 3 && cn == 3 {
        let (su, sv) = (choose("det U > 0"), choose("det V > 0"));
        let mu = quat_matrix(unit_quat("U"));
        let mv = quat_matrix(unit_quat("V"));
        for i in 0..3 {
            for j in 0..3 {
                u[(i, j)] = if su { mu[(i, j)] } else { -mu[(i, j)] };
                vt[(i, j)] = if sv { mv[(i, j)] } else { -mv[(i, j)] };
            }
        }
    } else {
        for i in 0..kn {
            let row = match with(|c| c.scratch.get("svd_row").and_then(|b| b.downcast_ref::<Vec<Sym>>().cloned())).filter(|_| i == kn - 1) {
                Some(v) => v,
                None => fresh_unit(&format!("vt{}_", i), cn),
            };
            for j in 0..cn {
                vt[(i, j)] = row[j];
            }
        }
        for i in 0..rn {
            for j in 0..kn {
                u[(i, j)] = any(&format!("u{}_{}", i, j));
            }
        }
    }
    push(Call { what: "svd", ins: m.iter().copied().collect(), outs: u.iter().copied().collect(), outs2: vt.iter().copied().collect(), vals: vals.clone(), index: 0 });
    SVD {
        u: if cu { Some(u) } else { None },
        v_t: if cv { Some(vt) } else { None },
        singular_values: OVector::<Sym, DimMinimum<Rw, C>>::from_iterator_generic(k, nalgebra::Const::<1>, vals.into_iter()),
    }
}
pub fn set_svd_row(v: Vec<Sym>) {
    with(|c| {
        c.scratch.insert("svd_row".into(), Box::new(v));
    })
}
pub trait SvdC {
    type Out;
    fn try_svd_c(self, cu: bool, cv: bool, eps: Sym, n: usize) -> Option<Self::Out>;
    fn svd_c(self, cu: bool, cv: bool) -> Self::Out;
}
impl<Rw: DimMin<C>, C: Dim> SvdC for OMatrix<Sym, Rw, C>
where
    DefaultAllocator: Allocator<Sym, Rw, C> + Allocator<Sym, Rw, DimMinimum<Rw, C>> + Allocator<Sym, DimMinimum<Rw, C>, C> + Allocator<Sym, DimMinimum<Rw, C>>,
{
    type Out = SVD<Sym, Rw, C>;
    fn try_svd_c(self, cu: bool, cv: bool, _eps: Sym, _n: usize) -> Option<Self::Out> {
        if fails("SVD") {
            return None;
        }
        Some(svd_of(self, cu, cv, true))
    }
    fn svd_c(self, cu: bool, cv: bool) -> Self::Out {
        svd_of(self, cu, cv, true)
    }
}
pub fn svd_try_new<Rw: DimMin<C>, C: Dim>(m: OMatrix<Sym, Rw, C>, cu: bool, cv: bool, eps: Sym, n: usize) -> Option<SVD<Sym, Rw, C>>
where
    DefaultAllocator: Allocator<Sym, Rw, C> + Allocator<Sym, Rw, DimMinimum<Rw, C>> + Allocator<Sym, DimMinimum<Rw, C>, C> + Allocator<Sym, DimMinimum<Rw, C>>,
{
    m.try_svd_c(cu, cv, eps, n)
}
pub fn svd_new<Rw: DimMin<C>, C: Dim>(m: OMatrix<Sym, Rw, C>, cu: bool, cv: bool) -> SVD<Sym, Rw, C>
where
    DefaultAllocator: Allocator<Sym, Rw, C> + Allocator<Sym, Rw, DimMinimum<Rw, C>> + Allocator<Sym, DimMinimum<Rw, C>, C> + Allocator<Sym, DimMinimum<Rw, C>>,
{
    svd_of(m, cu, cv, true)
}
/// nalgebra Rotation3::from_matrix_eps: assumed to return its argument when that is a rotation.
pub fn rotation3_from_matrix_eps(m: &Matrix3<Sym>, _eps: Sym, _n: usize, guess: Rotation3<Sym>) -> Rotation3<Sym> {
    note_assumption("nalgebra Rotation3::from_matrix_eps(R, .., guess) = R when R is a rotation (iteration not verified; that the guess is not a half turn away from R is checked where stated)");
    push(Call { what: "from_matrix_eps", ins: m.iter().copied().collect(), outs: guess.matrix().iter().copied().collect(), outs2: vec![], vals: vec![], index: 0 });
    Rotation3::from_matrix_unchecked(*m)
}
/// nalgebra Rotation3::from_matrix: assumed to return some rotation.
pub fn rotation3_from_matrix(m: &Matrix3<Sym>) -> Rotation3<Sym> {
    note_assumption("nalgebra Rotation3::from_matrix returns a rotation (which one is left open)");
    let r = rotation("from_matrix");
    push(Call { what: "from_matrix", ins: m.iter().copied().collect(), outs: r.matrix().iter().copied().collect(), outs2: vec![], vals: vec![], index: 0 });
    r
}
pub trait ScaledAxisC {
    fn scaled_axis_c(&self) -> Vector3<Sym>;
}
fn log_vector(m: &Matrix3<Sym>) -> Vector3<Sym> {
    note_assumption("nalgebra scaled_axis: some vector or NaN (its relation to the rotation is assumed where stated)");
    let mk1 = |n: &str| {
        let v = new_var(n, ANY);
        if cfg("log_nan").is_some() {
            with(|c| c.vars[v as usize].maybe_nan = true);
        }
        sym_var(v)
    };
    let v = Vector3::new(mk1("log.x"), mk1("log.y"), mk1("log.z"));
    push(Call { what: "scaled_axis", ins: m.iter().copied().collect(), outs: v.iter().copied().collect(), outs2: vec![], vals: vec![], index: 0 });
    v
}
impl ScaledAxisC for Rotation3<Sym> {
    fn scaled_axis_c(&self) -> Vector3<Sym> {
        if cfg("log_executed").is_some() {
            return self.scaled_axis();
        }
        log_vector(self.matrix())
    }
}
impl ScaledAxisC for UnitQuaternion<Sym> {
    fn scaled_axis_c(&self) -> Vector3<Sym> {
        if cfg("log_executed").is_some() {
            return self.scaled_axis();
        }
        log_vector(self.to_rotation_matrix().matrix())
    }
}
pub struct LuC<D: Dim>
where
    DefaultAllocator: Allocator<Sym, D, D>,
{
    m: OMatrix<Sym, D, D>,
}
pub trait LuTraitC {
    type Out;
    fn full_piv_lu_c(self) -> Self::Out;
    fn lu_c(self) -> Self::Out;
}
impl<D: Dim, S: storage::Storage<Sym, D, D>> LuTraitC for Matrix<Sym, D, D, S>
where
    DefaultAllocator: Allocator<Sym, D, D>,
{
    type Out = LuC<D>;
    fn full_piv_lu_c(self) -> LuC<D> {
        LuC { m: self.into_owned() }
    }
    fn lu_c(self) -> LuC<D> {
        LuC { m: self.into_owned() }
    }
}
impl<D: Dim> LuC<D>
where
    DefaultAllocator: Allocator<Sym, D, D>,
{
    pub fn solve<C2: Dim, S2: storage::Storage<Sym, D, C2>>(&self, b: &Matrix<Sym, D, C2, S2>) -> Option<OMatrix<Sym, D, C2>>
    where
        DefaultAllocator: Allocator<Sym, D, C2>,
    {
        if fails("LU solve (singular matrix)") {
            return None;
        }
        note_assumption("nalgebra full_piv_lu().solve(b) returns X with A X = b, or None when A is singular");
        let (r, c) = b.shape_generic();
        let mut x = OMatrix::<Sym, D, C2>::zeros_generic(r, c);
        for i in 0..r.value() {
            for j in 0..c.value() {
                x[(i, j)] = any(&format!("lu{}_{}", i, j));
            }
        }
        if let Some(f) = with(|c| c.scratch.get("on_lu").and_then(|b| b.downcast_ref::<std::rc::Rc<dyn Fn(&[Sym], &[Sym], &mut [Sym])>>().cloned())) {
            let (a, bb): (Vec<Sym>, Vec<Sym>) = (self.m.iter().copied().collect(), b.iter().copied().collect());
            f(&a, &bb, x.as_mut_slice());
        }
        push(Call { what: "lu", ins: self.m.iter().copied().collect(), outs: x.iter().copied().collect(), outs2: b.iter().copied().collect(), vals: vec![], index: 0 });
        Some(x)
    }
}
/// The decomposition of the matrices for which f gives one.
pub fn on_svd(f: impl Fn(&[Sym]) -> Option<Call> + 'static) {
    let g: std::rc::Rc<dyn Fn(&[Sym]) -> Option<Call>> = std::rc::Rc::new(f);
    with(|c| {
        c.scratch.insert("on_svd".into(), Box::new(g));
    })
}
/// Constrain the solution of the next linear systems: f(matrix, right-hand side, solution), column-major.
pub fn on_lu(f: impl Fn(&[Sym], &[Sym], &mut [Sym]) + 'static) {
    let g: std::rc::Rc<dyn Fn(&[Sym], &[Sym], &mut [Sym])> = std::rc::Rc::new(f);
    with(|c| {
        c.scratch.insert("on_lu".into(), Box::new(g));
    })
}
pub trait CEigC {
    type Out;
    fn complex_eigenvalues_c(&self) -> Self::Out;
}
impl<D: Dim> CEigC for OMatrix<Sym, D, D>
where
    DefaultAllocator: Allocator<Sym, D, D> + Allocator<Complex<Sym>, D>,
{
    type Out = OVector<Complex<Sym>, D>;
    fn complex_eigenvalues_c(&self) -> Self::Out {
        note_assumption("nalgebra complex_eigenvalues: some complex numbers (that they are the eigenvalues is assumed where stated)");
        let (d, _) = self.shape_generic();
        let n = d.value();
        let keep = cfg("complex_real").unwrap_or(0) as usize;
        let mut vals = vec![];
        let v: Vec<Complex<Sym>> = (0..n)
            .map(|i| {
                let re = any(&format!("eig{}", i));
                let im = if i == keep { lit(0.0) } else { nonzero(&format!("eigim{}", i)) };
                vals.push(re);
                Complex::new(re, im)
            })
            .collect();
        push(Call { what: "complex_eigen", ins: self.iter().copied().collect(), outs: vals.clone(), outs2: vec![], vals, index: keep });
        OVector::<Complex<Sym>, D>::from_iterator_generic(d, nalgebra::Const::<1>, v.into_iter())
    }
}
/// nalgebra Schur: only its (complex) eigenvalues are looked at by the code under contract.
pub struct SchurC<D: Dim>
where
    DefaultAllocator: Allocator<Sym, D, D>,
{
    m: OMatrix<Sym, D, D>,
}
pub fn schur_new<D: Dim>(m: OMatrix<Sym, D, D>) -> SchurC<D>
where
    DefaultAllocator: Allocator<Sym, D, D>,
{
    SchurC { m }
}
pub fn schur_try_new<D: Dim>(m: OMatrix<Sym, D, D>, _eps: Sym, _n: usize) -> Option<SchurC<D>>
where
    DefaultAllocator: Allocator<Sym, D, D>,
{
    if fails("Schur decomposition") {
        return None;
    }
    Some(SchurC { m })
}
impl<D: Dim> CEigC for SchurC<D>
where
    DefaultAllocator: Allocator<Sym, D, D> + Allocator<Complex<Sym>, D>,
{
    type Out = OVector<Complex<Sym>, D>;
    fn complex_eigenvalues_c(&self) -> Self::Out {
        self.m.complex_eigenvalues_c()
    }
}
pub fn det(m: &[Sym]) -> Sym {
    det3(m)
}

/// Was the decomposition given to `replay_svd` used?
pub fn replayed() -> bool {
    with(|c| c.scratch.contains_key("svd_replayed"))
}
/// The decomposition is a function of its argument: the same argument gives the same result again.
pub fn replay_svd(c0: Call) {
    with(|c| {
        c.scratch.insert("svd_replay".into(), Box::new(c0));
    })
}

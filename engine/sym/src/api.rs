//! Contract language, proof side (exact reals, all paths). The f64 side mirrors this file in `vcf`.
use crate::poly::*;
use crate::vc::*;
use crate::Sym;
use nalgebra::{IsometryMatrix3, Matrix3, Rotation3, Translation3, Unit, UnitVector3, Vector2, Vector3, Vector4};

pub use crate::seq::{value, At, Caught, Seq, Value};
pub type R = Sym;
pub const PROOF: bool = true;

#[derive(Clone, Copy)]
pub struct Harness {
    pub property: &'static str,
    pub name: &'static str,
    /// functions of the repository whose contract this harness discharges
    pub functions: &'static str,
    /// "proof" or "bounded: <bound>"
    pub kind: &'static str,
    /// the contract this one stands in for
    pub instead_of: &'static str,
    pub f: fn(),
}

pub fn lit(x: f64) -> R {
    Sym::lit(x)
}
pub fn any(name: &str) -> R {
    sym_var(new_var(name, ANY))
}
pub fn pos(name: &str) -> R {
    sym_var(new_var(name, POS))
}
/// nonnegative; a zero is +0 (sampled f64 inputs never have a negative zero either)
pub fn nonneg(name: &str) -> R {
    let s = sym_var(new_var(name, NONNEG));
    with(|c| c.zsign.insert(s.id(), false));
    s
}
pub fn nonzero(name: &str) -> R {
    sym_var(new_var(name, NONZERO))
}
/// any real; the f64 side samples it from [lo, hi]
pub fn any_in(name: &str, _lo: f64, _hi: f64) -> R {
    any(name)
}
/// positive real; the f64 side samples it from [lo, hi]
pub fn pos_in(name: &str, _lo: f64, _hi: f64) -> R {
    pos(name)
}
pub fn pick(name: &str, n: usize) -> usize {
    for i in 0..n - 1 {
        if choose(&format!("{}=={}", name, i)) {
            return i;
        }
    }
    n - 1
}
pub fn flag(name: &str) -> bool {
    choose(name)
}
pub fn vec2(name: &str) -> Vector2<R> {
    Vector2::new(any(&format!("{}.x", name)), any(&format!("{}.y", name)))
}
pub fn vec3(name: &str) -> Vector3<R> {
    Vector3::new(any(&format!("{}.x", name)), any(&format!("{}.y", name)), any(&format!("{}.z", name)))
}
pub fn vec4(name: &str) -> Vector4<R> {
    let v = vec3(name);
    Vector4::new(v.x, v.y, v.z, any(&format!("{}.w", name)))
}
pub fn mat3(name: &str) -> Matrix3<R> {
    let mut m = Matrix3::zeros();
    for i in 0..3 {
        for j in 0..3 {
            m[(i, j)] = any(&format!("{}{}{}", name, i, j));
        }
    }
    m
}
fn rule1(v: VarId, parts: &[VarId]) {
    let mut p = Poly::one();
    for x in parts {
        p = p.sub(&Poly::mono(Mono::pow_var(*x, 2), Q::ONE));
    }
    with(|c| c.vars[v as usize].rule = Some((p, Poly::one())));
}
pub fn unit3(name: &str) -> UnitVector3<R> {
    let x = new_var(&format!("{}.x", name), ANY);
    let y = new_var(&format!("{}.y", name), ANY);
    let z = new_var(&format!("{}.z", name), ANY);
    rule1(z, &[x, y]);
    Unit::new_unchecked(Vector3::new(sym_var(x), sym_var(y), sym_var(z)))
}
/// unit vector in front of the camera (z > 0)
pub fn unit3_front(name: &str) -> UnitVector3<R> {
    let u = unit3(name);
    if let Node::Var(v) = node(u.z.id()) {
        with(|c| c.vars[v as usize].sign = POS);
    }
    u
}
/// a point of the unit circle with positive first coordinate
pub fn unit2_pos(name: &str) -> [R; 2] {
    let y = new_var(&format!("{}.s", name), ANY);
    let x = new_var(&format!("{}.c", name), POS);
    rule1(x, &[y]);
    [sym_var(x), sym_var(y)]
}
/// a point of the unit circle, both coordinates positive
pub fn unit2_quarter(name: &str) -> [R; 2] {
    let y = new_var(&format!("{}.s", name), POS);
    let x = new_var(&format!("{}.c", name), POS);
    rule1(y, &[x]);
    [sym_var(x), sym_var(y)]
}
/// a point of the unit circle
pub fn unit2(name: &str) -> [R; 2] {
    let y = new_var(&format!("{}.s", name), ANY);
    let x = new_var(&format!("{}.c", name), ANY);
    rule1(x, &[y]);
    [sym_var(x), sym_var(y)]
}
/// unit quaternion (w, x, y, z) with w >= 0
pub fn unit_quat(name: &str) -> [R; 4] {
    let x = new_var(&format!("{}.qx", name), ANY);
    let y = new_var(&format!("{}.qy", name), ANY);
    let z = new_var(&format!("{}.qz", name), ANY);
    let w = new_var(&format!("{}.qw", name), NONNEG);
    rule1(w, &[x, y, z]);
    [sym_var(w), sym_var(x), sym_var(y), sym_var(z)]
}
pub fn quat_matrix(q: [R; 4]) -> Matrix3<R> {
    let [w, x, y, z] = q;
    let (o, t) = (lit(1.0), lit(2.0));
    Matrix3::new(
        o - t * (y * y + z * z), t * (x * y - w * z), t * (x * z + w * y),
        t * (x * y + w * z), o - t * (x * x + z * z), t * (y * z - w * x),
        t * (x * z - w * y), t * (y * z + w * x), o - t * (x * x + y * y),
    )
}
/// every rotation (unit quaternion, w >= 0)
pub fn rotation(name: &str) -> Rotation3<R> {
    Rotation3::from_matrix_unchecked(quat_matrix(unit_quat(name)))
}
pub fn isometry(name: &str) -> IsometryMatrix3<R> {
    let t = vec3(&format!("{}.t", name));
    IsometryMatrix3::from_parts(Translation3::from(t), rotation(name))
}
pub fn assume(b: bool) {
    if !b {
        path_end()
    }
}
fn fact(x: R, m: u8) {
    match x.raw().0 {
        2 => {
            if m & POS == 0 {
                path_end()
            }
        }
        3 => {
            if m & NEG == 0 {
                path_end()
            }
        }
        4 => path_end(),
        _ => {
            let r = x.rat();
            let s = sign_set(&r);
            if s & m == 0 {
                path_end()
            }
            if s & !m & ANY != 0 {
                add_fact(&r, m)
            }
        }
    }
}
pub fn assume_pos(x: R) {
    fact(x, POS)
}
pub fn assume_neg(x: R) {
    fact(x, NEG)
}
pub fn assume_nonneg(x: R) {
    fact(x, NONNEG)
}
pub fn assume_nonzero(x: R) {
    fact(x, NONZERO)
}
/// Assume x is away from zero: nonzero in the proof, |x| > tol for sampled f64 inputs.
pub fn assume_apart(x: R, _tol: f64) {
    fact(x, NONZERO)
}
/// Assume x is positive: x > 0 in the proof, x > tol for sampled f64 inputs.
pub fn assume_pos_by(x: R, _tol: f64) {
    fact(x, POS)
}
/// A lemma about a sign: x is the sum of these products, whose signs are known. Proved, then available to the path.
/// A factor occurring twice counts as a square.
pub fn lemma_sign(label: &str, x: R, terms: &[&[R]]) {
    if undefined(label, x) {
        return;
    }
    let mut sum = lit(0.0);
    let mut mask: Option<u8> = None;
    for t in terms {
        let mut prod = lit(1.0);
        let mut m = POS;
        let mut odd: Vec<R> = vec![];
        for f in t.iter() {
            if undefined(label, *f) {
                return;
            }
            prod = prod * *f;
            if let Some(k) = odd.iter().position(|g| (*g - *f).rat().num.is_zero()) {
                let g = odd.remove(k);
                m = sign_mul(m, if sign_set(&g.rat()) & ZERO == 0 { POS } else { NONNEG });
            } else {
                odd.push(*f);
            }
        }
        for f in odd {
            m = sign_mul(m, sign_set(&f.rat()));
        }
        sum = sum + prod;
        mask = Some(match mask {
            None => m,
            Some(a) => sum_sign(a, m),
        });
    }
    let mask = mask.unwrap_or(ZERO);
    if mask & ANY == ANY {
        record(label, Err("the terms of the lemma have no common sign".into()));
        return;
    }
    if record(label, prove_zero(&(x - sum).rat())) {
        fact(x, mask);
    }
}
/// restrict sampled f64 inputs only (conditioning); no assumption in the proof
pub fn sample_if(_f: impl Fn() -> bool) {}
fn undefined(label: &str, a: R) -> bool {
    if a.special() {
        let inf = path_infeasible(5);
        record(label, if inf { Ok("z3:path-infeasible") } else { Err("value is not a finite real on this path".into()) });
        return true;
    }
    if crate::has_undecided_nan(a) {
        record(label, Err("value may be NaN on this path".into()));
        return true;
    }
    false
}
pub fn ensure_zero(label: &str, a: R) {
    if undefined(label, a) {
        return;
    }
    record(label, prove_zero(&a.rat()));
}
pub fn ensure_eq(label: &str, a: R, b: R) {
    if a.special() && b.special() && a.raw() == b.raw() {
        record(label, Ok("normal-form"));
        return;
    }
    if undefined(label, a) || undefined(label, b) {
        return;
    }
    ensure_zero(label, a - b)
}
/// are these identical reals (normal form); used to pick a witness in a specification
pub fn same(a: &[R], b: &[R]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| !x.special() && !y.special() && (*x - *y).rat().num.is_zero())
}
/// equal to one of several values
pub fn ensure_one_of(label: &str, a: R, bs: &[R]) {
    if undefined(label, a) {
        return;
    }
    for b in bs {
        if !b.special() && (a - *b).rat().num.is_zero() {
            record(label, Ok("normal-form"));
            return;
        }
    }
    record(label, if path_infeasible(20) { Ok("z3:path-infeasible") } else { Err("equal to none of the allowed values".into()) });
}
pub fn ensure_eqs(label: &str, a: &[R], b: &[R]) {
    if a.len() != b.len() {
        record(label, Err("lengths differ".into()));
        return;
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure_eq(&format!("{}[{}]", label, i), *x, *y)
    }
}
pub fn ensure_pos(label: &str, a: R) {
    if !undefined(label, a) {
        record(label, prove_sign(&a.rat(), POS));
    }
}
pub fn ensure_nonneg(label: &str, a: R) {
    if !undefined(label, a) {
        record(label, prove_sign(&a.rat(), NONNEG));
    }
}
pub fn ensure_nonneg_exact(label: &str, a: R) {
    ensure_nonneg(label, a)
}
pub fn ensure_nonzero(label: &str, a: R) {
    if !undefined(label, a) {
        record(label, prove_sign(&a.rat(), NONZERO));
    }
}
pub fn ensure_le(label: &str, a: R, b: R) {
    if !undefined(label, a) && !undefined(label, b) {
        record(label, prove_sign(&(b - a).rat(), NONNEG));
    }
}
pub fn ensure(label: &str, b: bool) {
    if b {
        record(label, Ok("path"));
    } else {
        let inf = path_infeasible(20);
        record(label, if inf { Ok("z3:path-infeasible") } else { Err("false on a path".into()) });
    }
}
/// The value is a finite real for all inputs of the path: no divisor is zero, no root of a negative.
pub fn ensure_finite(label: &str, a: R) {
    if undefined(label, a) {
        return;
    }
    for (i, d) in crate::divisors(a).into_iter().enumerate() {
        record(&format!("{}:divisor{}", label, i), prove_sign(&d.rat(), NONZERO));
    }
    for (i, s) in crate::sqrt_args(a).into_iter().enumerate() {
        record(&format!("{}:root{}", label, i), prove_sign(&s, NONNEG));
    }
}
pub fn ensure_finites(label: &str, a: &[R]) {
    for (i, x) in a.iter().enumerate() {
        ensure_finite(&format!("{}[{}]", label, i), *x)
    }
}
/// Is a value literally infinite / NaN on this path.
pub fn is_special(a: R) -> bool {
    a.special()
}
/// Use the solver to drop infeasible branches from here on.
pub fn solver_branches(on: bool) {
    with(|c| c.feas = on)
}
/// Drop the current path when its constraints are contradictory.
pub fn prune() {
    if path_infeasible(5) {
        with(|c| c.pruned += 1);
        path_end()
    }
}
/// rescaled for comparison in f64; here the values themselves
pub fn scale_free(p: &[R]) -> Vec<R> {
    p.to_vec()
}
pub fn ensure_nonneg_near(label: &str, a: R, _scale: R) {
    ensure_nonneg(label, a)
}
pub fn set_tol(_t: f64) {}
pub fn samples(_n: usize) {}
pub fn max_paths(n: usize) {
    with(|c| c.max_paths = n)
}
/// A claim recorded as an assumption of the proof (reported in the evidence).
pub fn assumption(s: &str) {
    note_assumption(s)
}
/// Generalise: replace an expression by a fresh variable with a proved sign (a cut).
pub fn cut(label: &str, x: R, sign: i32) -> R {
    let m = if sign > 0 { POS } else { ANY };
    if sign > 0 {
        record(label, prove_sign(&x.rat(), POS));
    }
    sym_var(new_var(label, m))
}
pub const MAGIC_COUNT: f64 = 777777.0;
pub fn symbolic_count(x: f64) -> Option<Sym> {
    if x != MAGIC_COUNT {
        return None;
    }
    if let Some(id) = with(|c| c.lets.get("count").and_then(|r| r.downcast_ref::<u32>().copied())) {
        return Some(Sym::node(id));
    }
    let s = pos("count");
    with(|c| c.lets.insert("count".into(), std::rc::Rc::new(s.id())));
    Some(s)
}

/// Called at the start of a hooked function: the callee's contract instead of its body, when the harness installed one.
pub fn hook<A: 'static, T: 'static>(name: &'static str, args: &A) -> Option<T> {
    let f = with(|c| c.contracts.get(name).cloned())?;
    let r = f(args as &dyn std::any::Any)?;
    note_called(name);
    Some(*r.downcast::<T>().unwrap_or_else(|_| limit(format!("contract of {} has another result type", name))))
}
/// From here on, calls of the function obey this contract (its body is not entered).
pub fn substitute<A: Clone + 'static, T: 'static>(name: &'static str, f: impl Fn(A) -> T + 'static) {
    let g = move |a: &dyn std::any::Any| -> Option<Box<dyn std::any::Any>> {
        let a = a.downcast_ref::<A>().unwrap_or_else(|| not_checked(name, "its arguments are not the ones of the contract"));
        Some(Box::new(f(a.clone())))
    };
    with(|c| {
        c.contracts.insert(name, std::rc::Rc::new(g));
    })
}
/// Ends the path: what follows is of no interest to the contract.
pub fn path_stop() -> ! {
    path_end()
}
/// a fresh nonnegative root of x (no case distinction on x = 0)
pub fn root_of(name: &str, x: R) -> R {
    let r = x.rat();
    let v = new_var(name, NONNEG);
    let mut d = Poly::one();
    for (p, e) in &r.den {
        d = d.mul(&p.pow(*e));
    }
    with(|c| c.vars[v as usize].rule = Some((r.num.clone(), d)));
    sym_var(v)
}
/// The contract cannot be stated for this source; recorded in the evidence, no obligation.
pub fn not_checked(what: &str, why: &str) -> ! {
    note_assumption(&format!("not checked: {}: {}", what, why));
    path_end()
}
fn hooked(name: &str) -> bool {
    hooks().iter().any(|h| h == name)
}
fn hooks() -> &'static [String] {
    static H: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let p = std::env::current_exe().ok().and_then(|p| p.parent().map(|d| d.join("../../sym/hooked.txt")));
        p.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().split_whitespace().map(|s| s.to_string()).collect()
    })
}
/// Stops the harness (not checked) unless these functions, which it replaces by their contracts, are in the source.
pub fn need_hooks(names: &[&str]) {
    for n in names {
        if !hooked(n) {
            not_checked(n, "no function of this name")
        }
    }
}
pub fn unsubstitute(name: &'static str) {
    with(|c| {
        c.contracts.remove(name);
    })
}

// ------------------------------------------------------------------ runner
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars().take(3000) {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn report_json(h: &Harness, r: &Report) -> String {
    let mut by: std::collections::BTreeMap<&str, u64> = Default::default();
    let mut fails = vec![];
    let mut labels = std::collections::BTreeSet::new();
    for o in &r.obls {
        labels.insert(o.label.clone());
        if o.ok {
            *by.entry(o.by).or_insert(0) += 1
        } else if fails.len() < 12 {
            fails.push(format!("{{\"label\":{},\"path\":{},\"detail\":{}}}", esc(&o.label), o.path, esc(&o.detail)))
        }
    }
    let ok = r.obls.iter().filter(|o| o.ok).count();
    let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    format!(
        "{{\"property\":{},\"harness\":{},\"functions\":{},\"kind\":{},\"paths\":{},\"complete\":{},\"infeasible\":{},\"obligations\":{},\"discharged\":{},\"labels\":{},\"by\":{{{}}},\"failed\":[{}],\"limits\":[{}],\"panics\":[{}],\"assumptions\":{{{}}},\"smt_time\":{:.3},\"smt_calls\":{},\"wall\":{:.3}}}",
        esc(h.property), esc(h.name), esc(h.functions), esc(h.kind), r.paths, r.complete, r.infeasible, r.obls.len(), ok, labels.len(),
        by.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
        fails.join(","),
        r.limits.iter().take(6).map(|l| esc(&l.1)).collect::<Vec<_>>().join(","),
        r.panics.iter().take(6).map(|l| esc(&l.1)).collect::<Vec<_>>().join(","),
        map(&r.assumptions), r.smt_time, r.smt_calls, r.wall
    )
}
/// usage: <bin> <property|harness|all> [--secs N] [--threads N] [--list]
pub fn main(hs: &[Harness]) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok()).unwrap_or(d);
    if args.iter().any(|a| a == "--list") {
        for h in hs {
            println!("{} {}", h.property, h.name);
        }
        return;
    }
    let want = args.get(1).cloned().unwrap_or("all".into());
    let secs = get("--secs", 120);
    unsafe { SMT_SECS = get("--smt", 20) }
    install_hook();
    let all = args.iter().any(|a| a == "--all");
    let done: std::sync::Mutex<std::collections::HashMap<&str, bool>> = Default::default();
    for standins in [false, true] {
    let todo: Vec<Harness> = hs.iter().filter(|h| want == "all" || want.split(',').any(|w| h.property == w || h.name == w)).filter(|h| (h.instead_of != "") == standins).copied().collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let lock = std::sync::Mutex::new(());
    std::thread::scope(|s| {
        for _ in 0..get("--threads", 8) {
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= todo.len() {
                    break;
                }
                let h = todo[i];
                if standins && !all && done.lock().unwrap().get(h.instead_of).copied().unwrap_or(false) {
                    let _g = lock.lock().unwrap();
                    println!("{{\"property\":{},\"harness\":{},\"functions\":{},\"kind\":\"stand-in, not needed\",\"paths\":0,\"complete\":true,\"infeasible\":0,\"obligations\":0,\"discharged\":0,\"labels\":0,\"by\":{{}},\"failed\":[],\"limits\":[],\"panics\":[],\"assumptions\":{{}},\"smt_time\":0,\"smt_calls\":0,\"wall\":0}}", esc(h.property), esc(h.name), esc(h.functions));
                    continue;
                }
                let r = explore(h.name, secs, &|| {
                    crate::shim::reset();
                    (h.f)()
                });
                let whole = r.complete && r.limits.is_empty() && !r.assumptions.keys().any(|k| k.starts_with("not checked") || k.starts_with("bounded"));
                done.lock().unwrap().insert(h.name, whole);
                let j = report_json(&h, &r);
                let _g = lock.lock().unwrap();
                println!("{}", j);
            }).unwrap();
        }
    });
    }
}

/// Look at one iteration of a counted loop of this function in its next call: its variables are given (all of them, by
/// name), and `check` gets their values when the iteration is over.  Nothing is checked when it leaves the function.
pub fn watch_loop(func: &'static str, at: At, vars: Vec<(&'static str, Value)>, check: impl FnOnce(&Caught) + 'static) {
    if !hooked(&format!("loop:{}", func)) {
        not_checked(func, "no counted loop")
    }
    crate::seq::watch(Some(crate::seq::Watch { skip: 0, func, at, vars, check: Some(Box::new(check)) }));
}
/// How many counted loops are in this function?
pub fn loops_of(func: &'static str) -> usize {
    let l = format!("loop:{}", func);
    hooks().iter().filter(|h| **h == l).count()
}
/// The same for a later loop of the function, whatever the ones before have done.
pub fn watch_nth_loop(func: &'static str, skip: usize, at: At, vars: Vec<(&'static str, Value)>, check: impl FnOnce(&Caught) + 'static) {
    crate::seq::watch(Some(crate::seq::Watch { skip, func, at, vars, check: Some(Box::new(check)) }));
}
/// After the call: not checked when there was no such loop.
pub fn loop_watched(func: &'static str) {
    if !crate::seq::reached() {
        not_checked(func, "no counted loop")
    }
}

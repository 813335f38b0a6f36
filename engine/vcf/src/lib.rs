//! Contract language, f64 side: the same contracts run on the repository's own f64 code with sampled
//! inputs. Used to look for (and replay) a concrete failing input, and as the reachability check of
//! every precondition. Nothing decided here is counted as proved.
use nalgebra::{IsometryMatrix3, Matrix3, Rotation3, Translation3, Unit, UnitVector3, Vector2, Vector3, Vector4};
use std::cell::RefCell;

pub type R = f64;
pub const PROOF: bool = false;
pub struct Discard;
#[derive(Clone, Copy)]
pub struct Harness {
    pub property: &'static str,
    pub name: &'static str,
    pub functions: &'static str,
    pub kind: &'static str,
    /// the contract this one stands in for
    pub instead_of: &'static str,
    pub f: fn(),
}
struct St {
    rng: u64,
    inputs: Vec<(String, f64)>,
    fails: Vec<(String, String, f64)>,
    /// nonzero: every continuous draw is moved by about 1e-10 of its range
    shake: u64,
    checked: u64,
    skipped: u64,
    tol: f64,
    samples: usize,
    labels: std::collections::BTreeMap<String, u64>,
}
thread_local! { static ST: RefCell<St> = RefCell::new(St { rng: 1, inputs: vec![], fails: vec![], shake: 0, checked: 0, skipped: 0, tol: 1e-6, samples: 2000, labels: Default::default() });
static PANIC_MSG: RefCell<String> = RefCell::new(String::new()); }
fn st<T>(f: impl FnOnce(&mut St) -> T) -> T {
    ST.with(|s| f(&mut s.borrow_mut()))
}
fn next() -> u64 {
    st(|s| {
        s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
pub fn unif(lo: f64, hi: f64) -> f64 {
    let x = (next() >> 11) as f64 / (1u64 << 53) as f64;
    let d = st(|s| {
        if s.shake == 0 {
            return 0.0;
        }
        s.shake = s.shake.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(0x14057B7EF767814F);
        1e-10 * ((s.shake >> 33) as f64 / (1u64 << 31) as f64 * 2.0 - 1.0)
    });
    lo + (hi - lo) * (x + d)
}
fn input(name: &str, v: f64) -> f64 {
    st(|s| s.inputs.push((name.to_string(), v)));
    v
}
pub fn discard() -> ! {
    std::panic::panic_any(Discard)
}
static WIDE: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
fn draw() -> f64 {
    // wide search: around the constants of the code (and their inverses), and all magnitudes
    if let Some(l) = WIDE.get() {
        let sg = if next() % 2 == 0 { 1.0 } else { -1.0 };
        match next() % 8 {
            0 if !l.is_empty() => {
                let c = l[next() as usize % l.len()];
                let c = if next() % 2 == 0 || 1.0 / c > 1e4 { c } else { 1.0 / c };
                if c > 1e4 {
                    return sg * 1e4;
                }
                return sg * c * if next() % 4 == 0 { 1.0 } else { 10f64.powf(unif(-1.0, 1.0)) };
            }
            1 => return sg * 10f64.powf(unif(-18.0, 4.0)),
            _ => {}
        }
    }
    match next() % 20 {
        0..=10 => unif(-2.0, 2.0),
        11..=12 => (next() % 7) as f64 - 3.0,
        13..=14 => unif(-1.0, 1.0) * 10f64.powf(unif(-2.0, 2.0)),
        15..=16 => 0.0,
        17 => 1.0,
        18 => -1.0,
        _ => {
            let n = st(|s| s.inputs.len());
            if n > 0 {
                let k = next() as usize % n;
                st(|s| s.inputs[k].1)
            } else {
                0.5
            }
        }
    }
}
pub fn lit(x: f64) -> R {
    x
}
pub fn any(name: &str) -> R {
    let v = draw();
    input(name, v)
}
pub fn pos(name: &str) -> R {
    let mut v = draw().abs();
    if v < 1e-3 {
        v = unif(0.05, 2.0)
    }
    input(name, v)
}
pub fn nonneg(name: &str) -> R {
    let v = draw().abs();
    input(name, v)
}
pub fn nonzero(name: &str) -> R {
    let mut v = draw();
    if v.abs() < 1e-3 {
        v = unif(0.05, 2.0)
    }
    input(name, v)
}
pub fn any_in(name: &str, lo: f64, hi: f64) -> R {
    let v = if next() % 12 == 0 && lo <= 0.0 && hi >= 0.0 { 0.0 } else { unif(lo, hi) };
    input(name, v)
}
pub fn pos_in(name: &str, lo: f64, hi: f64) -> R {
    let v = unif(lo, hi);
    input(name, v)
}
pub fn pick(name: &str, n: usize) -> usize {
    let v = next() as usize % n;
    input(name, v as f64);
    v
}
pub fn flag(name: &str) -> bool {
    pick(name, 2) == 0
}
pub fn vec2(name: &str) -> Vector2<R> {
    Vector2::new(any(&format!("{}.x", name)), any(&format!("{}.y", name)))
}
pub fn vec3(name: &str) -> Vector3<R> {
    Vector3::new(any(&format!("{}.x", name)), any(&format!("{}.y", name)), any(&format!("{}.z", name)))
}
pub fn vec4(name: &str) -> Vector4<R> {
    let v = vec3(name);
    Vector4::new(v.x, v.y, v.z, any(&format!("{}.w", name)))
}
pub fn mat3(name: &str) -> Matrix3<R> {
    let mut m = Matrix3::zeros();
    for i in 0..3 {
        for j in 0..3 {
            m[(i, j)] = any(&format!("{}{}{}", name, i, j));
        }
    }
    m
}
fn unit_n<const N: usize>() -> [f64; N] {
    loop {
        let mut a = [0.0; N];
        let axis = next() % 10 == 0;
        if axis {
            a[next() as usize % N] = if next() % 2 == 0 { 1.0 } else { -1.0 };
            return a;
        }
        for x in a.iter_mut() {
            *x = if next() % 12 == 0 { 0.0 } else { unif(-1.0, 1.0) };
        }
        let n: f64 = a.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 0.1 {
            for x in a.iter_mut() {
                *x /= n;
            }
            return a;
        }
    }
}
pub fn unit3(name: &str) -> UnitVector3<R> {
    let a = unit_n::<3>();
    let v = Vector3::new(input(&format!("{}.x", name), a[0]), input(&format!("{}.y", name), a[1]), input(&format!("{}.z", name), a[2]));
    Unit::new_unchecked(v)
}
pub fn unit3_front(name: &str) -> UnitVector3<R> {
    let v = Vector3::new(unif(-1.0, 1.0), unif(-1.0, 1.0), unif(0.4, 1.5)).normalize();
    Unit::new_unchecked(Vector3::new(input(&format!("{}.x", name), v.x), input(&format!("{}.y", name), v.y), input(&format!("{}.z", name), v.z)))
}
pub fn unit2_pos(name: &str) -> [R; 2] {
    let h: f64 = if next() % 8 == 0 { 0.0 } else { unif(-1.4, 1.4) };
    [input(&format!("{}.c", name), h.cos()), input(&format!("{}.s", name), h.sin())]
}
pub fn unit2_quarter(name: &str) -> [R; 2] {
    let h: f64 = unif(0.01, 1.55);
    [input(&format!("{}.c", name), h.cos()), input(&format!("{}.s", name), h.sin())]
}
pub fn unit2(name: &str) -> [R; 2] {
    let h: f64 = unif(-3.2, 3.2);
    [input(&format!("{}.c", name), h.cos()), input(&format!("{}.s", name), h.sin())]
}
pub fn unit_quat(name: &str) -> [R; 4] {
    let mut a = match next() % 10 {
        0 => [1.0, 0.0, 0.0, 0.0],
        1 | 2 => {
            let b = unit_n::<3>();
            let h: f64 = unif(-0.15, 0.15);
            [h.cos(), h.sin() * b[0], h.sin() * b[1], h.sin() * b[2]]
        }
        _ => unit_n::<4>(),
    };
    if a[0] < 0.0 {
        for x in a.iter_mut() {
            *x = -*x
        }
    }
    for (i, k) in ["qw", "qx", "qy", "qz"].iter().enumerate() {
        input(&format!("{}.{}", name, k), a[i]);
    }
    a
}
pub fn quat_matrix(q: [R; 4]) -> Matrix3<R> {
    let [w, x, y, z] = q;
    Matrix3::new(
        1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y),
        2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x),
        2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y),
    )
}
pub fn rotation(name: &str) -> Rotation3<R> {
    Rotation3::from_matrix_unchecked(quat_matrix(unit_quat(name)))
}
pub fn isometry(name: &str) -> IsometryMatrix3<R> {
    let t = vec3(&format!("{}.t", name));
    IsometryMatrix3::from_parts(Translation3::from(t), rotation(name))
}
pub fn assume(b: bool) {
    if !b {
        discard()
    }
}
pub fn assume_pos(x: R) {
    assume(x > 1e-6)
}
pub fn assume_neg(x: R) {
    assume(x < -1e-6)
}
pub fn assume_nonneg(x: R) {
    assume(x >= 0.0)
}
pub fn assume_nonzero(x: R) {
    assume(x.abs() > 1e-6)
}
pub fn assume_apart(x: R, tol: f64) {
    assume(x.abs() > tol)
}
pub fn assume_pos_by(x: R, tol: f64) {
    assume(x > tol)
}
pub fn sample_if(f: impl Fn() -> bool) {
    assume(f())
}
fn fail(label: &str, d: String) {
    fail_by(label, d, f64::NAN)
}
/// a failure with its size: NaN where it is not a matter of numbers
fn fail_by(label: &str, d: String, by: f64) {
    st(|s| s.fails.push((label.to_string(), d, by)))
}
fn seen(label: &str) {
    st(|s| {
        s.checked += 1;
        *s.labels.entry(label.to_string()).or_insert(0) += 1
    })
}
fn usable(xs: &[R]) -> bool {
    let ok = xs.iter().all(|x| x.is_finite());
    if !ok {
        st(|s| s.skipped += 1)
    }
    ok
}
pub fn ensure_eq(label: &str, a: R, b: R) {
    if a == b {
        return seen(label);
    }
    if a.is_infinite() && b.is_finite() || b.is_infinite() && a.is_finite() {
        // an infinite value where a finite one is required is left to ensure_finite
    }
    if !usable(&[a, b]) {
        return;
    }
    seen(label);
    let tol = st(|s| s.tol);
    if (a - b).abs() > tol * (1.0 + a.abs().max(b.abs())) {
        fail_by(label, format!("{:e} != {:e}", a, b), a - b)
    }
}
pub fn same(a: &[R], b: &[R]) -> bool {
    let tol = st(|s| s.tol);
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * (1.0 + x.abs().max(y.abs())))
}
pub const MAGIC_COUNT: f64 = 777777.0;
pub fn symbolic_count(_x: f64) -> Option<f64> {
    None
}
pub fn ensure_one_of(label: &str, a: R, bs: &[R]) {
    if !usable(&[a]) {
        return;
    }
    let d = bs.iter().map(|b| (a - b).abs()).fold(f64::INFINITY, f64::min);
    ensure_eq(label, d, 0.0)
}
pub fn ensure_zero(label: &str, a: R) {
    ensure_eq(label, a, 0.0)
}
pub fn ensure_eqs(label: &str, a: &[R], b: &[R]) {
    if a.len() != b.len() {
        return fail(label, "lengths differ".into());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure_eq(&format!("{}[{}]", label, i), *x, *y)
    }
}
pub fn ensure_pos(label: &str, a: R) {
    if !usable(&[a]) {
        return;
    }
    seen(label);
    let tol = st(|s| s.tol);
    if a < -tol {
        fail_by(label, format!("{:e} is not positive", a), a)
    }
}
pub fn ensure_nonneg(label: &str, a: R) {
    ensure_pos(label, a)
}
/// no tolerance: the sign is exact in f64
pub fn ensure_nonneg_exact(label: &str, a: R) {
    if !usable(&[a]) {
        return;
    }
    seen(label);
    if a < 0.0 {
        fail(label, format!("{:e} is negative", a))
    }
}
pub fn ensure_nonzero(_label: &str, _a: R) {}
pub fn ensure_le(label: &str, a: R, b: R) {
    if !usable(&[a, b]) {
        return;
    }
    seen(label);
    let tol = st(|s| s.tol);
    if a > b + tol * (1.0 + a.abs().max(b.abs())) {
        fail_by(label, format!("{:e} > {:e}", a, b), a - b)
    }
}
pub fn ensure(label: &str, b: bool) {
    seen(label);
    if !b {
        fail(label, "false".into())
    }
}
pub fn ensure_finite(label: &str, a: R) {
    seen(label);
    if !a.is_finite() {
        fail(label, format!("{} is not finite", a))
    }
}
pub fn ensure_finites(label: &str, a: &[R]) {
    for (i, x) in a.iter().enumerate() {
        ensure_finite(&format!("{}[{}]", label, i), *x)
    }
}
pub fn is_special(a: R) -> bool {
    !a.is_finite()
}
/// the sum of the products of a sign lemma; the f64 side checks the identity only
pub fn lemma_sign(label: &str, x: R, terms: &[&[R]]) {
    let s: f64 = terms.iter().map(|t| t.iter().product::<f64>()).sum();
    ensure_eq(label, x, s)
}
pub fn solver_branches(_on: bool) {}
pub fn prune() {}
pub fn set_tol(t: f64) {
    st(|s| s.tol = if WIDE.get().is_some() { 100.0 * t } else { t })
}
pub fn scale_free(p: &[R]) -> Vec<R> {
    let m = p.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    if m > 0.0 && m.is_finite() {
        p.iter().map(|x| x / m).collect()
    } else {
        p.to_vec()
    }
}
pub fn samples(n: usize) {
    st(|s| s.samples = n)
}
pub fn max_paths(_n: usize) {}
pub fn assumption(_s: &str) {}
pub fn cut(_label: &str, x: R, _sign: i32) -> R {
    x
}
pub fn substitute<A: Clone + 'static, T: 'static>(_name: &'static str, _f: impl Fn(A) -> T + 'static) {}
pub fn path_stop() -> ! {
    panic!("not on this side")
}
pub fn root_of(_name: &str, x: R) -> R {
    x.sqrt()
}
pub fn need_hooks(_n: &[&str]) {}
pub fn not_checked(_what: &str, _why: &str) -> ! {
    discard()
}
pub fn unsubstitute(_name: &'static str) {}
pub mod shim {
    #[derive(Clone, Debug)]
    pub struct Call {
        pub what: &'static str,
        pub ins: Vec<f64>,
        pub outs: Vec<f64>,
        pub outs2: Vec<f64>,
        pub vals: Vec<f64>,
        pub index: usize,
    }
    pub fn reset() {}
    pub fn calls(_w: &str) -> Vec<Call> {
        vec![]
    }
    pub fn config(_k: &'static str, _v: i64) {}
    pub fn set_eigenvector(_v: Vec<f64>) {}
    pub fn replay_svd(_c: Call) {}
    pub fn replayed() -> bool {
        true
    }
    pub fn on_svd(_f: impl Fn(&[f64]) -> Option<Call> + 'static) {}
    pub fn set_svd_row(_v: Vec<f64>) {}
    pub fn on_lu(_f: impl Fn(&[f64], &[f64], &mut [f64]) + 'static) {}
    pub fn fresh_unit(_name: &str, n: usize) -> Vec<f64> {
        vec![0.0; n]
    }
    pub fn det(m: &[f64]) -> f64 {
        m[0] * (m[4] * m[8] - m[7] * m[5]) - m[3] * (m[1] * m[8] - m[7] * m[2]) + m[6] * (m[1] * m[5] - m[4] * m[2])
    }
}
// ------------------------------------------------------------------ runner
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars().take(3000) {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
enum Out {
    Ok,
    Discarded,
    Rounding,
    Fail(String, String, f64),
}
/// A case that fails only through rounding is not a violation of a property of the mathematical values:
/// where a failure is a difference of numbers, the continuous inputs are moved by 1e-10 of their range, and
/// the failure counts only when the same obligation fails by about as much at eight such neighbours.
fn case(h: &Harness, seed: u64, i: u64) -> Out {
    let r = case1(h, seed, i, 0);
    if let Out::Fail(_, _, by) = &r {
        if by.is_nan() {
            return r;
        }
        let ins = st(|s| s.inputs.clone());
        let mut left = st(|s| s.fails.clone());
        for k in 1..=8u64 {
            let again = match case1(h, seed, i, k) {
                Out::Fail(_, _, by) if by.is_nan() && st(|s| s.fails.is_empty()) => vec![],
                Out::Fail(..) => st(|s| s.fails.clone()),
                _ => vec![],
            };
            left.retain(|f| again.iter().any(|g| g.0 == f.0 && (f.2.is_nan() || g.2 * f.2 > 0.0 && (g.2 / f.2).abs() > 0.3 && (g.2 / f.2).abs() < 3.0)));
        }
        st(|s| s.inputs = ins);
        return match left.into_iter().next() {
            Some((l, d, by)) => Out::Fail(l, d, by),
            None => Out::Rounding,
        };
    }
    r
}
fn case1(h: &Harness, seed: u64, i: u64, shake: u64) -> Out {
    let mut z = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in h.name.bytes() {
        z = (z ^ b as u64).wrapping_mul(0x100000001b3);
    }
    st(|s| {
        s.rng = z ^ i.wrapping_mul(0xD1342543DE82EF95);
        s.inputs.clear();
        s.fails.clear();
        s.shake = shake;
        s.tol = if WIDE.get().is_some() { 1e-4 } else { 1e-6 };
    });
    let r = std::panic::catch_unwind(|| (h.f)());
    match r {
        Ok(()) => match st(|s| s.fails.first().cloned()) {
            Some((l, d, by)) => Out::Fail(l, d, by),
            None => Out::Ok,
        },
        Err(e) => {
            if e.downcast_ref::<Discard>().is_some() {
                if let Some((l, d, by)) = st(|s| s.fails.first().cloned()) {
                    return Out::Fail(l, d, by);
                }
                Out::Discarded
            } else {
                Out::Fail("no panic".into(), format!("panicked: {}", PANIC_MSG.with(|p| p.borrow().clone())), f64::NAN)
            }
        }
    }
}
/// usage: <bin> <property|harness|all> [--n N] [--seed S] [--secs T] [--case HARNESS IDX]
pub fn main(hs: &[Harness]) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok()).unwrap_or(d);
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()));
    }));
    if args.iter().any(|a| a == "--list") {
        for h in hs {
            println!("{} {}", h.property, h.name);
        }
        return;
    }
    let seed = get("--seed", 1);
    if let Some(p) = args.iter().position(|a| a == "--wide") {
        let _ = WIDE.set(args[p + 1].split(',').filter_map(|x| x.parse::<f64>().ok()).filter(|x| *x != 0.0 && x.is_finite()).collect());
    }
    let want = args.get(1).cloned().unwrap_or("all".into());
    if let Some(p) = args.iter().position(|a| a == "--case") {
        let idx: u64 = args[p + 1].parse().unwrap();
        let h = hs.iter().find(|h| h.name == want).expect("no such harness");
        match case(h, seed, idx) {
            Out::Ok => println!("case holds"),
            Out::Discarded => println!("case is outside the precondition"),
            Out::Rounding => println!("case fails by rounding only"),
            Out::Fail(l, d, _) => println!("FAILS {}: {}", l, d),
        }
        for (n, v) in st(|s| s.inputs.clone()) {
            println!("  {} = {:e}", n, v);
        }
        return;
    }
    let secs = get("--secs", 30);
    let todo: Vec<Harness> = hs.iter().filter(|h| want == "all" || want.split(',').any(|w| h.property == w || h.name == w)).copied().collect();
    let nforce = get("--n", 0);
    let t0 = std::time::Instant::now();
    // chunks of cases are handed out to the threads, always for the harness that has had the least time
    #[derive(Default)]
    struct Run {
        next: u64,
        busy: usize,
        began: f64,
        spent: f64,
        ok: u64,
        disc: u64,
        nf: u64,
        rnd: u64,
        checked: u64,
        skipped: u64,
        labels: usize,
        samples: u64,
        fails: Vec<(u64, String)>,
        done: bool,
    }
    let runs: std::sync::Mutex<Vec<Run>> = std::sync::Mutex::new(todo.iter().map(|_| Run { samples: 2000, ..Default::default() }).collect());
    std::thread::scope(|s| {
        for _ in 0..get("--threads", 8) {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let (k, from, to, began) = {
                    let mut g = runs.lock().unwrap();
                    // time given to a harness: finished chunks and those still running
                    let now = t0.elapsed().as_secs_f64();
                    let given = |k: usize| g[k].spent + g[k].busy as f64 * (now + 0.001) - g[k].began;
                    let pick = (0..todo.len()).filter(|k| !g[*k].done).min_by(|a, b| given(*a).total_cmp(&given(*b)));
                    let Some(k) = pick else { break };
                    let r = &mut g[k];
                    let rate = if r.next > 0 { r.next as f64 / r.spent.max(1e-6) } else { 0.0 };
                    let len = if r.next == 0 { 2 } else if r.spent == 0.0 { 1 } else { ((rate * 0.05) as u64).clamp(1, 5000) };
                    let from = r.next;
                    r.next += len;
                    r.busy += 1;
                    r.began += now;
                    (k, from, from + len, now)
                };
                let h = &todo[k];
                st(|s| {
                    s.checked = 0;
                    s.skipped = 0;
                    s.samples = 2000;
                    s.labels.clear()
                });
                let c0 = std::time::Instant::now();
                let (mut ok, mut disc, mut nf, mut rnd) = (0u64, 0u64, 0u64, 0u64);
                let mut fails = vec![];
                for i in from..to {
                    match case(h, seed, i) {
                        Out::Ok => ok += 1,
                        Out::Discarded => disc += 1,
                        Out::Rounding => rnd += 1,
                        Out::Fail(l, d, _) => {
                            nf += 1;
                            if fails.len() < 3 {
                                let ins = st(|s| s.inputs.iter().map(|(n, v)| format!("[{},{}]", esc(n), esc(&format!("{:e}", v)))).collect::<Vec<_>>().join(","));
                                fails.push((i, format!("{{\"case\":{},\"label\":{},\"detail\":{},\"inputs\":[{}]}}", i, esc(&l), esc(&d), ins)));
                            }
                        }
                    }
                    if t0.elapsed().as_secs() >= secs {
                        break;
                    }
                }
                let (c, sk, nl, smp) = st(|s| (s.checked, s.skipped, s.labels.len(), s.samples as u64));
                let mut g = runs.lock().unwrap();
                let r = &mut g[k];
                r.busy -= 1;
                r.began -= began;
                r.spent += c0.elapsed().as_secs_f64();
                r.ok += ok;
                r.disc += disc;
                r.nf += nf;
                r.rnd += rnd;
                r.checked += c;
                r.skipped += sk;
                r.labels = r.labels.max(nl);
                r.fails.extend(fails);
                r.samples = smp;
                let mut n = if nforce > 0 { nforce } else { r.samples };
                if h.kind.starts_with("finding") {
                    n = n.min(1000);
                }
                if r.ok + r.nf >= n || r.next >= n * 60 || t0.elapsed().as_secs() >= secs {
                    r.done = true;
                }
            }).unwrap();
        }
    });
    for (h, r) in todo.iter().zip(runs.lock().unwrap().iter_mut()) {
        r.fails.sort();
        let fails: Vec<String> = r.fails.iter().take(3).map(|f| f.1.clone()).collect();
        println!("{{\"property\":{},\"harness\":{},\"kind\":{},\"accepted\":{},\"discarded\":{},\"nfail\":{},\"rounding\":{},\"checked\":{},\"skipped\":{},\"labels\":{},\"fails\":[{}],\"wall\":{:.3}}}", esc(h.property), esc(h.name), esc(h.kind), r.ok + r.nf, r.disc, r.nf, r.rnd, r.checked, r.skipped, r.labels, fails.join(","), r.spent);
    }
}

/// Sequences: here any number from 2 to 12 of independent elements (mostly few).
#[derive(Clone)]
pub struct Seq<T>(Vec<T>);
impl<T: Clone> Seq<T> {
    pub fn any(gen: impl Fn(&str) -> T) -> Self {
        let n = match next() % 80 {
            0 => 13 + next() as usize % 48,
            1..=40 => 2 + next() as usize % 3,
            _ => 2 + next() as usize % 11,
        };
        Seq((0..n).map(|i| gen(&format!("i{}", i))).collect())
    }
    pub fn of(v: Vec<T>) -> Self {
        Seq(v)
    }
    pub fn map<U: Clone>(&self, f: impl Fn(&T) -> U) -> Seq<U> {
        Seq(self.0.iter().map(f).collect())
    }
    pub fn iter(&self) -> std::vec::IntoIter<T> {
        self.0.clone().into_iter()
    }
    pub fn slice(&self) -> Vec<T> {
        self.0.clone()
    }
    pub fn count(&self) -> f64 {
        self.0.len() as f64
    }
    pub fn sum(&self, f: impl Fn(&T) -> Vec<f64>) -> Vec<f64> {
        let mut o: Vec<f64> = vec![];
        for t in &self.0 {
            let r = f(t);
            if o.is_empty() {
                o = r
            } else {
                o.iter_mut().zip(r).for_each(|(a, b)| *a += b)
            }
        }
        o
    }
    pub fn each(&self, f: impl FnMut(&T)) {
        self.0.iter().for_each(f)
    }
    pub fn some_nonneg(&self, label: &str, f: impl Fn(&T) -> f64) {
        ensure_nonneg(label, self.0.iter().map(f).fold(f64::NEG_INFINITY, f64::max))
    }
    pub fn generic(&self) -> bool {
        false
    }
    pub fn items(&self) -> Vec<T> {
        self.0.clone()
    }
}

/// not negative, up to rounding of terms of this magnitude
pub fn ensure_nonneg_near(label: &str, a: R, scale: R) {
    ensure_nonneg(label, a + 1e-9 * scale)
}

// one iteration of a loop: proof only
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    Start,
    Middle,
    Last,
}
pub enum Value {
    Int(i64),
}
pub fn value<T>(_: T) -> Value {
    Value::Int(0)
}
pub struct Caught;
impl Caught {
    pub fn before<T>(&self, _: &str) -> T {
        unreachable!()
    }
    pub fn get<T>(&self, _: &str) -> T {
        unreachable!()
    }
    pub fn int(&self, _: &str) -> i64 {
        unreachable!()
    }
}
pub fn watch_loop(_: &'static str, _: At, _: Vec<(&'static str, Value)>, _: impl FnOnce(&Caught) + 'static) {}
pub fn loops_of(_: &'static str) -> usize {
    0
}
pub fn watch_nth_loop(_: &'static str, _: usize, _: At, _: Vec<(&'static str, Value)>, _: impl FnOnce(&Caught) + 'static) {}
pub fn loop_watched(_: &'static str) {}

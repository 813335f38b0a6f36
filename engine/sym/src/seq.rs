//! Sequences of unbounded length. A generic sequence has one item, an arbitrary element; loops and folds
//! over it run their body once on that item, from an arbitrary accumulator, and must be additive: the
//! accumulator grows by a summand that depends on the item only. The result is the initial accumulator
//! plus the sum of the summand over all elements, an uninterpreted value that is linear in the summand.
//! Anything else (an early exit, an order-dependent body, a truncating adaptor) is the limit "loop shape".
use crate::poly::*;
use crate::vc::*;
use crate::Sym;
use std::cell::Cell;
use std::collections::HashSet;
use std::rc::Rc;

fn shape(s: &str) -> ! {
    limit(format!("loop shape: {}", s))
}
struct State {
    items: HashSet<VarId>,
    /// summands already summed on this path
    sums: Vec<(Rc<Rat>, Sym)>,
    /// uninterpreted sums of item monomials over item denominators
    basis: Vec<(Mono, Vec<(Poly, u32)>, Sym)>,
}
fn state<T>(f: impl FnOnce(&mut State) -> T) -> T {
    let mut s = with(|c| c.scratch.remove("seq")).and_then(|b| b.downcast::<State>().ok()).unwrap_or_else(|| Box::new(State { items: HashSet::new(), sums: vec![], basis: vec![] }));
    let r = f(&mut s);
    with(|c| c.scratch.insert("seq".into(), s));
    r
}
/// variables whose definition (root, function) is known
fn defs(v: VarId) -> Option<HashSet<VarId>> {
    let (rule, fun) = with(|c| {
        let id = c.cons.get(&Node::Var(v)).copied();
        (c.vars[v as usize].rule.clone(), id.and_then(|id| c.funs.iter().find(|f| f.2 == id).map(|f| f.1.clone())))
    });
    let mut o = HashSet::new();
    if let Some((n, d)) = &rule {
        o.extend(n.vars());
        o.extend(d.vars());
    }
    if let Some(a) = &fun {
        for r in a {
            o.extend(r.num.vars());
            for (p, _) in &r.den {
                o.extend(p.vars());
            }
        }
    }
    if rule.is_none() && fun.is_none() {
        return None;
    }
    Some(o)
}
fn depends(v: VarId, on: &HashSet<VarId>) -> bool {
    if on.contains(&v) {
        return true;
    }
    match defs(v) {
        Some(d) => d.into_iter().any(|w| w != v && depends(w, on)),
        None => false,
    }
}
fn poly_depends(p: &Poly, on: &HashSet<VarId>) -> bool {
    p.vars().into_iter().any(|v| depends(v, on))
}
fn rat_depends(r: &Rat, on: &HashSet<VarId>) -> bool {
    poly_depends(&r.num, on) || r.den.iter().any(|(p, _)| poly_depends(p, on))
}
/// run f; every variable it creates that is not defined by others belongs to the item
fn in_item<T>(all: bool, f: impl FnOnce() -> T) -> T {
    let n0 = with(|c| c.vars.len());
    let r = f();
    let n1 = with(|c| c.vars.len());
    for v in n0..n1 {
        let v = v as VarId;
        if with(|c| c.vars[v as usize].value.is_none()) && (all || defs(v).is_none()) {
            state(|s| s.items.insert(v));
        }
    }
    r
}
fn rat_sym(r: &Rat) -> Sym {
    let mut s = crate::poly_sym(&r.num);
    for (p, e) in &r.den {
        s = s / crate::poly_sym(p).powi(*e as i32);
    }
    s
}
/// the sum of f over all elements
fn total(f: Sym) -> Sym {
    if f.special() {
        if f.raw().0 == 4 {
            return Sym::NAN;
        }
        return f;
    }
    let r = f.rat();
    if r.num.is_zero() {
        return Sym::lit(0.0);
    }
    let have: Vec<_> = state(|s| s.sums.clone());
    for (g, s) in have {
        if req(&g, &r) {
            return s;
        }
    }
    let items = state(|s| s.items.clone());
    let (mut free, mut own): (Vec<(Poly, u32)>, Vec<(Poly, u32)>) = (vec![], vec![]);
    for (p, e) in &r.den {
        if poly_depends(p, &items) {
            own.push((p.clone(), *e))
        } else {
            free.push((p.clone(), *e))
        }
    }
    // group the numerator by its item part
    let mut groups: Vec<(Mono, Poly)> = vec![];
    for (m, q) in r.num.0.iter() {
        let (mut mi, mut mf) = (Mono::ONE, Mono::ONE);
        for (v, e) in m.iter() {
            let t = Mono::pow_var(v, e);
            if depends(v, &items) {
                mi = mi.mul(&t)
            } else {
                mf = mf.mul(&t)
            }
        }
        let c = Poly::mono(mf, *q);
        match groups.iter_mut().find(|g| g.0 == mi) {
            Some(g) => g.1 = g.1.add(&c),
            None => groups.push((mi, c)),
        }
    }
    let mut sum = Sym::lit(0.0);
    for (m, c) in groups {
        let b = if m.is_one() && own.is_empty() {
            crate::api::symbolic_count(crate::api::MAGIC_COUNT).unwrap()
        } else {
            let have = state(|s| s.basis.iter().find(|b| b.0 == m && b.1 == own).map(|b| b.2));
            match have {
                Some(s) => s,
                None => {
                    let x = sym_var(new_var("sum", ANY));
                    state(|s| s.basis.push((m.clone(), own.clone(), x)));
                    x
                }
            }
        };
        sum = sum + crate::poly_sym(&c) * b;
    }
    for (p, e) in &free {
        sum = sum / crate::poly_sym(p).powi(*e as i32);
    }
    state(|s| s.sums.push((r, sum)));
    sum
}
// ---------------------------------------------------------------- accumulators as arrays of Sym
const PLAIN: &[&str] = &[
    "sym", "Sym", "nalgebra", "base", "matrix", "Matrix", "array_storage", "ArrayStorage", "dimension", "Const", "unit", "Unit", "geometry", "point", "OPoint", "Point", "rotation", "Rotation", "isometry", "Isometry", "translation",
    "Translation", "cv_core", "so3", "Se3TangentSpace", "core", "marker", "PhantomData", "usize", "f64",
];
/// is T made of Syms only
fn plain<T>() -> bool {
    let n = std::any::type_name::<T>();
    let words: Vec<&str> = n.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect();
    let ok = words.iter().all(|w| w.chars().all(|c| c.is_ascii_digit()) || PLAIN.contains(w)) && (words.contains(&"Sym") || words.contains(&"Se3TangentSpace")) && !n.contains('&') && !n.contains('*');
    // usize only as a length
    ok && !n.contains("usize") && std::mem::size_of::<T>() % std::mem::size_of::<Sym>() == 0 && std::mem::align_of::<T>() == std::mem::align_of::<Sym>()
}
fn read<T>(x: &T) -> Vec<Sym> {
    let n = std::mem::size_of::<T>() / std::mem::size_of::<Sym>();
    (0..n).map(|i| unsafe { *(x as *const T as *const Sym).add(i) }).collect()
}
fn write<T>(x: &mut T, v: &[Sym]) {
    for (i, s) in v.iter().enumerate() {
        unsafe { *(x as *mut T as *mut Sym).add(i) = *s }
    }
}
fn arbitrary(n: usize) -> Vec<Sym> {
    (0..n).map(|_| sym_var(new_var("acc", ANY))).collect()
}
struct Body {
    hv: HashSet<VarId>,
    cons: usize,
    eqs: usize,
    dec: usize,
    vars: usize,
}
impl Body {
    fn start() -> Body {
        Body { hv: HashSet::new(), cons: with(|c| c.cons_list.len()), eqs: with(|c| c.eqs.len()), dec: with(|c| c.pos), vars: with(|c| c.vars.len()) }
    }
    fn own(&mut self, h: &[Sym]) {
        for s in h {
            if let Node::Var(v) = node(s.id()) {
                self.hv.insert(v);
            }
        }
    }
    /// what was decided in the body depends on the item only
    fn check(&self) {
        let cons: Vec<(Vec<Poly>, u8)> = with(|c| c.cons_list[self.cons..].to_vec());
        for (ps, _) in cons {
            if ps.iter().any(|p| poly_depends(p, &self.hv)) {
                shape("the body branches on the accumulator")
            }
        }
        let eqs: Vec<Poly> = with(|c| c.eqs[self.eqs..].to_vec());
        if eqs.iter().any(|p| poly_depends(p, &self.hv)) {
            shape("the body branches on the accumulator")
        }
        let _ = self.dec;
        let n1 = with(|c| c.vars.len());
        for v in self.vars..n1 {
            let v = v as VarId;
            if !self.hv.contains(&v) && with(|c| c.vars[v as usize].value.is_none()) && defs(v).is_none() {
                state(|s| s.items.insert(v));
            }
        }
    }
    /// init + sum of (after - before)
    fn result(&self, init: &[Sym], h: &[Sym], after: &[Sym]) -> Vec<Sym> {
        let mut out = vec![];
        for ((i, h), a) in init.iter().zip(h).zip(after) {
            if a.raw() == h.raw() {
                out.push(*i);
                continue;
            }
            if a.special() {
                if a.raw().0 == 4 {
                    out.push(Sym::NAN);
                    continue;
                }
                shape("an infinite accumulator")
            }
            let d = *a - *h;
            if rat_depends(&d.rat(), &self.hv) {
                shape("the accumulator is not a sum over the elements")
            }
            let d = rat_sym(&d.rat());
            let t = total(d);
            out.push(if t.is_const_zero() { *i } else { *i + t });
        }
        out
    }
}
// ---------------------------------------------------------------- sequences
thread_local! { static ARMED: Cell<bool> = Cell::new(false); static HIT: Cell<bool> = Cell::new(false); }
struct Armed(bool);
impl Armed {
    fn set(on: bool) -> Self {
        Armed(ARMED.with(|a| a.replace(on)))
    }
}
impl Drop for Armed {
    fn drop(&mut self) {
        ARMED.with(|a| a.set(self.0))
    }
}
/// `all` and `any` of the source on any adapted sequence
pub trait SeqExt: Iterator + Sized {
    fn all_c<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool {
        if !sequence::<Self>() {
            return self.all(f);
        }
        let _a = Armed::set(true);
        in_item(false, || {
            self.all(|x| {
                let _a = Armed::set(false);
                f(x)
            })
        })
    }
    fn any_c<F: FnMut(Self::Item) -> bool>(&mut self, mut f: F) -> bool {
        if !sequence::<Self>() {
            return self.any(f);
        }
        let _a = Armed::set(true);
        in_item(false, || {
            self.any(|x| {
                let _a = Armed::set(false);
                f(x)
            })
        })
    }
}
impl<I: Iterator> SeqExt for I {}
/// is it made of one of the sequences of this file
fn sequence<I>() -> bool {
    let n = std::any::type_name::<I>();
    if !n.contains("sym::seq::") {
        return false;
    }
    if !adapters_ok(n) {
        shape(n)
    }
    true
}
#[derive(Clone)]
enum Kind<T> {
    Concrete(Rc<Vec<T>>),
    Generic(Rc<T>),
}
#[derive(Clone)]
pub struct Seq<T> {
    k: Kind<T>,
}
impl<T: Clone> Seq<T> {
    /// any sequence of at least two elements
    pub fn any(gen: impl Fn(&str) -> T) -> Self {
        crate::api::need_hooks(&["@loops"]);
        if state(|s| !s.items.is_empty()) {
            limit("one generic sequence per contract")
        }
        let t = in_item(true, || gen("i"));
        Seq { k: Kind::Generic(Rc::new(t)) }
    }
    pub fn of(v: Vec<T>) -> Self {
        Seq { k: Kind::Concrete(Rc::new(v)) }
    }
    pub fn map<U: Clone>(&self, f: impl Fn(&T) -> U) -> Seq<U> {
        match &self.k {
            Kind::Concrete(v) => Seq::of(v.iter().map(f).collect()),
            Kind::Generic(t) => Seq { k: Kind::Generic(Rc::new(in_item(false, || f(t)))) },
        }
    }
    pub fn iter(&self) -> SeqIter<T> {
        SeqIter { k: self.k.clone(), i: 0 }
    }
    pub fn slice(&self) -> Slice<T> {
        Slice { k: self.k.clone() }
    }
    pub fn count(&self) -> Sym {
        match &self.k {
            Kind::Concrete(v) => Sym::lit(v.len() as f64),
            Kind::Generic(_) => crate::api::symbolic_count(crate::api::MAGIC_COUNT).unwrap(),
        }
    }
    /// specification: the sum over all elements
    pub fn sum(&self, f: impl Fn(&T) -> Vec<Sym>) -> Vec<Sym> {
        match &self.k {
            Kind::Concrete(v) => {
                let mut o: Vec<Sym> = vec![];
                for t in v.iter() {
                    let r = f(t);
                    if o.is_empty() {
                        o = r
                    } else {
                        o = o.iter().zip(&r).map(|(a, b)| *a + *b).collect()
                    }
                }
                o
            }
            Kind::Generic(t) => in_item(false, || f(t)).into_iter().map(total).collect(),
        }
    }
    /// specification: for every element (an arbitrary one)
    pub fn each(&self, mut f: impl FnMut(&T)) {
        match &self.k {
            Kind::Concrete(v) => v.iter().for_each(f),
            Kind::Generic(t) => in_item(false, || f(t)),
        }
    }
    /// specification: f is not negative for some element (the arbitrary one may be that witness)
    pub fn some_nonneg(&self, label: &str, f: impl Fn(&T) -> Sym) {
        match &self.k {
            Kind::Concrete(_) => limit("some_nonneg of a concrete sequence"),
            Kind::Generic(t) => crate::api::ensure_nonneg(label, in_item(false, || f(t))),
        }
    }
    pub fn generic(&self) -> bool {
        matches!(self.k, Kind::Generic(_))
    }
    /// some elements (all of a concrete sequence)
    pub fn items(&self) -> Vec<T> {
        match &self.k {
            Kind::Concrete(v) => v.to_vec(),
            Kind::Generic(t) => vec![(**t).clone()],
        }
    }
}
pub struct SeqIter<T> {
    k: Kind<T>,
    i: usize,
}
impl<T: Clone> Clone for SeqIter<T> {
    fn clone(&self) -> Self {
        SeqIter { k: self.k.clone(), i: self.i }
    }
}
fn pull(used: &mut usize) -> bool {
    if !ARMED.with(|a| a.get()) {
        shape("elements taken one by one")
    }
    HIT.with(|h| h.set(true));
    *used += 1;
    *used == 1
}
fn adapters_ok(n: &str) -> bool {
    n.split("core::iter::adapters::").skip(1).all(|r| ["map::", "cloned::", "copied::", "filter::", "filter_map::"].iter().any(|a| r.starts_with(a)))
}
fn gfold<T, B, F: FnMut(B, T) -> B>(t: T, init: B, mut f: F) -> B {
    let n = std::any::type_name::<F>();
    // (a chain folds its second part after the first)
    if !adapters_ok(&n.replace("core::iter::adapters::chain::", "")) {
        shape(n)
    }
    if std::any::type_name::<B>() == "usize" && n.contains("::count") && !n.contains("filter") {
        if unsafe { *(&init as *const B as *const usize) } != 0 {
            shape("a count that does not start at zero")
        }
        let mut b = init;
        unsafe { *(&mut b as *mut B as *mut usize) = crate::api::MAGIC_COUNT as usize }
        return b;
    }
    if !plain::<B>() {
        shape(std::any::type_name::<B>())
    }
    let i = read(&init);
    let mut acc = init;
    let mut b = Body::start();
    let h = arbitrary(i.len());
    b.own(&h);
    write(&mut acc, &h);
    let mut acc = f(acc, t);
    b.check();
    let a = read(&acc);
    let r = b.result(&i, &h, &a);
    write(&mut acc, &r);
    acc
}
macro_rules! generic_iter { ($it:ident, [$($g:tt)*], $item:ty, $get:expr) => {
impl<$($g)* T: Clone> Iterator for $it<$($g)* T> {
    type Item = $item;
    fn next(&mut self) -> Option<$item> {
        let get = $get;
        match &self.k {
            k if matches!(k, Kind::Concrete(_)) => {
                self.i += 1;
                get(&self.k, self.i - 1)
            }
            _ => {
                if pull(&mut self.i) { get(&self.k, 0) } else { None }
            }
        }
    }
    fn count(self) -> usize {
        match &self.k {
            Kind::Concrete(v) => v.len() - self.i.min(v.len()),
            Kind::Generic(_) => if self.i > 0 { shape("counted after elements were taken") } else { crate::api::MAGIC_COUNT as usize },
        }
    }
    fn fold<B, F: FnMut(B, $item) -> B>(mut self, init: B, mut f: F) -> B {
        if matches!(self.k, Kind::Concrete(_)) {
            let mut b = init;
            while let Some(x) = self.next() { b = f(b, x) }
            return b;
        }
        if self.i > 0 { shape("folded after elements were taken") }
        let get = $get;
        gfold(get(&self.k, 0).unwrap(), init, f)
    }
} } }
generic_iter!(SeqIter, [], T, |k: &Kind<T>, i: usize| -> Option<T> {
    match k {
        Kind::Concrete(v) => v.get(i).cloned(),
        Kind::Generic(t) => Some((**t).clone()),
    }
});
/// A slice parameter of the code under verification.
pub struct Slice<T> {
    k: Kind<T>,
}
impl<T: Clone> Slice<T> {
    pub fn len(&self) -> usize {
        match &self.k {
            Kind::Concrete(v) => v.len(),
            Kind::Generic(_) => crate::api::MAGIC_COUNT as usize,
        }
    }
    pub fn is_empty(&self) -> bool {
        matches!(&self.k, Kind::Concrete(v) if v.is_empty())
    }
    pub fn iter(&self) -> SliceIter<'_, T> {
        SliceIter { k: &self.k, i: 0 }
    }
}
impl<T> std::ops::Deref for Slice<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        match &self.k {
            Kind::Concrete(v) => v,
            Kind::Generic(_) => shape("a slice operation"),
        }
    }
}
impl<'a, T: Clone> IntoIterator for &'a Slice<T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> {
        self.iter()
    }
}
pub struct SliceIter<'a, T> {
    k: &'a Kind<T>,
    i: usize,
}
impl<'a, T> Clone for SliceIter<'a, T> {
    fn clone(&self) -> Self {
        SliceIter { k: self.k, i: self.i }
    }
}
trait KindRef<'a, T> {
    fn at(self, i: usize) -> Option<&'a T>;
}
impl<'a, T> KindRef<'a, T> for &'a Kind<T> {
    fn at(self, i: usize) -> Option<&'a T> {
        match self {
            Kind::Concrete(v) => v.get(i),
            Kind::Generic(t) => Some(&**t),
        }
    }
}
impl<'a, T: Clone> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        match self.k {
            Kind::Concrete(_) => {
                self.i += 1;
                self.k.at(self.i - 1)
            }
            Kind::Generic(_) => {
                if pull(&mut self.i) {
                    self.k.at(0)
                } else {
                    None
                }
            }
        }
    }
    fn count(self) -> usize {
        match self.k {
            Kind::Concrete(v) => v.len() - self.i.min(v.len()),
            Kind::Generic(_) => {
                if self.i > 0 {
                    shape("counted after elements were taken")
                }
                crate::api::MAGIC_COUNT as usize
            }
        }
    }
    fn fold<B, F: FnMut(B, &'a T) -> B>(mut self, init: B, mut f: F) -> B {
        if matches!(self.k, Kind::Concrete(_)) {
            let mut b = init;
            while let Some(x) = self.next() {
                b = f(b, x)
            }
            return b;
        }
        if self.i > 0 {
            shape("folded after elements were taken")
        }
        gfold(self.k.at(0).unwrap(), init, f)
    }
}
// ---------------------------------------------------------------- for loops
#[derive(Clone, Copy, PartialEq)]
enum Phase {
    Plain,
    Before,
    In,
    Out,
}
/// `for PAT in ITER { BODY }` of the source becomes a Loop; `sync` is called on every variable the body changes.
pub struct Loop<I> {
    it: I,
    phase: Phase,
    body: Option<Body>,
    saved: Vec<(Vec<Sym>, Vec<Sym>)>,
    k: usize,
    done: bool,
}
impl<I: Iterator> Loop<I> {
    pub fn new(it: I) -> Self {
        let n = std::any::type_name::<I>();
        let abs = n.contains("sym::seq::");
        let ok = n.split("core::iter::adapters::").skip(1).all(|r| ["map::", "cloned::", "copied::", "filter::", "filter_map::"].iter().any(|a| r.starts_with(a)));
        let phase = if abs { Phase::Before } else { Phase::Plain };
        Loop { it, phase: if abs && !ok { Phase::Plain } else { phase }, body: None, saved: vec![], k: 0, done: !abs }
    }
    pub fn pull(&mut self) -> Option<I::Item> {
        if self.phase == Phase::Plain {
            return self.it.next();
        }
        self.k = 0;
        if self.phase == Phase::In {
            self.body.as_ref().unwrap().check();
        }
        HIT.with(|h| h.set(false));
        let it = &mut self.it;
        let x = {
            let _a = Armed::set(true);
            in_item(false, || it.next())
        };
        if !HIT.with(|h| h.get()) {
            // a concrete sequence
            self.phase = Phase::Plain;
            self.done = true;
            return x;
        }
        match (&x, self.phase) {
            (Some(_), Phase::Before) => {
                self.phase = Phase::In;
                self.body = Some(Body::start());
            }
            (None, Phase::Before) => {
                // no element on this path passes the filter
                self.phase = Phase::Plain;
                self.done = true;
            }
            (None, Phase::In) => {
                self.phase = Phase::Out;
                self.done = true;
            }
            _ => shape("the loop does not end"),
        }
        x
    }
    pub fn sync<T>(&mut self, x: &mut T) {
        match self.phase {
            Phase::Plain | Phase::Before => {}
            Phase::In => {
                if plain::<T>() {
                    let s = read(x);
                    let h = arbitrary(s.len());
                    self.body.as_mut().unwrap().own(&h);
                    write(x, &h);
                    self.saved.push((s, h));
                } else {
                    self.saved.push((raw(x), vec![]));
                }
            }
            Phase::Out => {
                let (s, h) = self.saved[self.k].clone();
                self.k += 1;
                if plain::<T>() {
                    let a = read(x);
                    let r = self.body.as_ref().unwrap().result(&s, &h, &a);
                    write(x, &r);
                } else if raw(x).iter().map(|s| s.raw()).ne(s.iter().map(|s| s.raw())) {
                    shape(std::any::type_name::<T>())
                }
            }
        }
    }
}
/// a variable that is not made of reals: it has to stay as it is
fn raw<T>(x: &T) -> Vec<Sym> {
    let n = std::any::type_name::<T>();
    if !["usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "bool"].contains(&n) {
        shape(n)
    }
    let b = unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) };
    b.iter().map(|b| Sym::lit(*b as f64)).collect()
}
impl<I> Drop for Loop<I> {
    fn drop(&mut self) {
        if !self.done && self.phase == Phase::In && !std::thread::panicking() {
            shape("the loop is left early")
        }
    }
}

// ------------------------------------------------------------ counted loops
/// The place a contract looks at one iteration of a counted loop from.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    /// the first iteration, from the values the code starts with
    Start,
    /// any iteration but the last, from any state
    Middle,
    /// the last iteration, from any state
    Last,
}
/// A variable the loop changes.
#[derive(Clone)]
pub enum Value {
    Int(i64),
    Of(&'static str, Vec<u8>),
}
pub fn value<T: Copy + 'static>(x: T) -> Value {
    let p = &x as *const T as *const u8;
    Value::Of(std::any::type_name::<T>(), unsafe { std::slice::from_raw_parts(p, std::mem::size_of::<T>()) }.to_vec())
}
/// The variables after the iteration.
pub struct Caught(Vec<(&'static str, Value)>, Vec<(&'static str, Value)>);
impl Caught {
    pub fn get<T: Copy + 'static>(&self, name: &str) -> T {
        Self::of(&self.0, name)
    }
    /// before the iteration
    pub fn before<T: Copy + 'static>(&self, name: &str) -> T {
        Self::of(&self.1, name)
    }
    fn of<T: Copy + 'static>(l: &[(&'static str, Value)], name: &str) -> T {
        match l.iter().find(|v| v.0 == name) {
            Some((_, Value::Of(t, b))) if *t == std::any::type_name::<T>() => unsafe { std::ptr::read_unaligned(b.as_ptr() as *const T) },
            _ => crate::api::not_checked(name, "no such variable"),
        }
    }
    pub fn int(&self, name: &str) -> i64 {
        match self.0.iter().find(|v| v.0 == name) {
            Some((_, Value::Int(i))) => *i,
            _ => crate::api::not_checked(name, "no such counter"),
        }
    }
}
pub struct Watch {
    /// how many counted loops of the function come before, and are left with the variables of the contract
    pub skip: usize,
    pub func: &'static str,
    pub at: At,
    pub vars: Vec<(&'static str, Value)>,
    pub check: Option<Box<dyn FnOnce(&Caught)>>,
}
thread_local! {
    static WATCH: std::cell::RefCell<Option<Watch>> = std::cell::RefCell::new(None);
    static REACHED: Cell<bool> = Cell::new(false);
}
/// Look at one iteration of a counted loop of this function (in its next call).
pub fn watch(w: Option<Watch>) {
    REACHED.with(|r| r.set(false));
    WATCH.with(|x| *x.borrow_mut() = w);
}
pub fn reached() -> bool {
    REACHED.with(|r| r.get())
}
fn ints<T>(x: &T) -> Option<i64> {
    let p = x as *const T;
    unsafe {
        Some(match std::any::type_name::<T>() {
            "i32" => *(p as *const i32) as i64,
            "u32" => *(p as *const u32) as i64,
            "i64" => *(p as *const i64),
            "u64" => *(p as *const u64) as i64,
            "usize" => *(p as *const usize) as i64,
            "isize" => *(p as *const isize) as i64,
            _ => return None,
        })
    }
}
fn set_int<T>(x: &mut T, v: i64) {
    let p = x as *mut T;
    unsafe {
        match std::any::type_name::<T>() {
            "i32" => *(p as *mut i32) = v as i32,
            "u32" => *(p as *mut u32) = v as u32,
            "i64" => *(p as *mut i64) = v,
            "u64" => *(p as *mut u64) = v as u64,
            "usize" => *(p as *mut usize) = v as usize,
            _ => *(p as *mut isize) = v as isize,
        }
    }
}
#[derive(PartialEq)]
enum Step {
    Plain,
    Enter,
    Body,
    Leave,
}
/// `for PAT in A..B { BODY }` of the source becomes a Count; `slot` is called on every variable the body changes.
pub struct Count<I> {
    it: I,
    step: Step,
    watch: Option<Watch>,
    caught: Vec<(&'static str, Value)>,
    before: Vec<(&'static str, Value)>,
    /// further values of the index to try, when the loop uses it
    tried: Vec<u32>,
}
impl<I: Iterator> Count<I> {
    pub fn new(func: &'static str, plain_index: bool, literals: &[u32], it: I) -> Self {
        let w = WATCH.with(|x| {
            let mut x = x.borrow_mut();
            match &mut *x {
                Some(w) if w.func == func && w.skip > 0 => {
                    w.skip -= 1;
                    Some(Watch { skip: 1, func, at: At::Last, vars: w.vars.clone(), check: None })
                }
                Some(w) if w.func == func => x.take(),
                _ => None,
            }
        });
        if w.as_ref().map_or(false, |w| w.skip == 0) {
            REACHED.with(|r| r.set(true));
            if !plain_index {
                crate::vc::note_assumption(&format!("bounded: {}: the number of iterations is used otherwise than to count them; a few values tried", func));
            }
        }
        Count { it, step: if w.is_some() { Step::Enter } else { Step::Plain }, watch: w, caught: vec![], before: vec![], tried: if plain_index { vec![] } else { literals.iter().flat_map(|&l| [l.saturating_sub(1), l, l.saturating_add(1)]).collect() } }
    }
    pub fn pull(&mut self) -> Option<I::Item> {
        match self.step {
            Step::Plain | Step::Leave => self.it.next(),
            Step::Enter if self.watch.as_ref().unwrap().skip > 0 => None,
            Step::Enter => {
                let n = self.it.size_hint().0;
                match self.watch.as_ref().unwrap().at {
                    At::Start => self.it.next(),
                    At::Middle if n < 2 => crate::api::path_stop(),
                    At::Middle => {
                        let mut at: Vec<usize> = self.tried.iter().map(|&i| i as usize).filter(|&i| i > 0 && i < n - 1 && i != n / 2 - 1).collect();
                        at.sort();
                        at.dedup();
                        at.push(n / 2 - 1);
                        let k = crate::api::pick("the index", at.len());
                        self.it.nth(at[k])
                    }
                    At::Last if n < 1 => crate::api::path_stop(),
                    At::Last => self.it.nth(n - 1),
                }
            }
            Step::Body => {
                let x = self.it.next();
                self.step = if x.is_some() { Step::Leave } else { Step::Plain };
                x
            }
        }
    }
    pub fn on(&self) -> bool {
        self.step != Step::Plain
    }
    pub fn slot<T>(&mut self, name: &'static str, x: &mut T) {
        let t = std::any::type_name::<T>();
        let int = ints(x);
        if self.step == Step::Enter {
            let w = self.watch.as_ref().unwrap();
            match w.vars.iter().find(|v| v.0 == name) {
                Some((_, Value::Int(i))) if int.is_some() => {
                    if w.at != At::Start {
                        set_int(x, *i)
                    }
                }
                Some((_, Value::Of(n, b))) if *n == t && b.len() == std::mem::size_of::<T>() && !std::mem::needs_drop::<T>() => {
                    if w.at != At::Start {
                        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), x as *mut T as *mut u8, b.len()) }
                    }
                }
                _ => crate::api::not_checked(&format!("{}: {}: {}", w.func, name, t), "not a variable of the contract"),
            }
        }
        let int = ints(x);
        let v = match int {
            Some(i) => Value::Int(i),
            None => Value::Of(t, unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }.to_vec()),
        };
        self.caught.push((name, v));
    }
    pub fn ready(&mut self) {
        let caught = std::mem::take(&mut self.caught);
        if self.step == Step::Enter {
            let w = self.watch.as_ref().unwrap();
            if let Some(v) = w.vars.iter().find(|v| !caught.iter().any(|c| c.0 == v.0)) {
                crate::api::not_checked(&format!("{}: {}", w.func, v.0), "no variable of this name is changed by the loop");
            }
            self.before = caught;
            self.step = if self.watch.as_ref().unwrap().skip > 0 { Step::Plain } else { Step::Body };
            return;
        }
        if let Some(f) = self.watch.as_mut().unwrap().check.take() {
            f(&Caught(caught, std::mem::take(&mut self.before)));
        }
        crate::api::path_stop()
    }
}

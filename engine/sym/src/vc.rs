//! The verification-condition generator: path exploration, facts, obligations.
use crate::poly::*;
use crate::Sym;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

/// Thrown when a limit of the engine is hit (time, size): the path is left undecided.
pub struct EngineLimit(pub String);
/// Thrown to abandon a path whose assumptions are false.
pub struct PathEnd;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Q),
    Var(VarId),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
}
pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;
pub const NONZERO: u8 = 5;
pub const NONNEG: u8 = 6;
pub const NONPOS: u8 = 3;

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub sign: u8,
    /// v^2 = n/d
    pub rule: Option<(Poly, Poly)>,
    /// exact value for opaque constants
    pub value: Option<Q>,
    pub maybe_nan: bool,
}

#[derive(Clone, Debug)]
pub struct Obl {
    pub label: String,
    pub path: usize,
    pub ok: bool,
    pub by: &'static str,
    pub detail: String,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub cons: HashMap<Node, u32>,
    pub rats: Vec<Option<Rc<Rat>>>,
    pub vars: Vec<VarInfo>,
    pub names: HashMap<String, u32>,
    pub sqrts: Vec<(Rc<Rat>, VarId)>,
    pub funs: Vec<(String, Vec<Rc<Rat>>, u32)>,
    /// angles: the node of each inverse trigonometric value with a multiple of its sine and of its cosine (by the same positive length)
    pub angles: Vec<(u32, crate::Sym, crate::Sym)>,
    pub facts: HashMap<Vec<Poly>, u8>,
    /// the linear polynomials with a fact
    pub linear: Vec<Poly>,
    /// the products with a fact
    pub products: Vec<Vec<Poly>>,
    pub zsign: HashMap<u32, bool>,
    /// path constraints for the solver: product of polys (sign) in mask
    pub cons_list: Vec<(Vec<Poly>, u8)>,
    pub eqs: Vec<Poly>,
    pub decisions: Vec<(bool, bool)>, // (value, flipped already / forced)
    pub pos: usize,
    pub trace: Vec<String>,
    pub path: usize,
    pub obls: Vec<Obl>,
    pub limits: Vec<(usize, String)>,
    pub assumptions: BTreeMap<String, u64>,
    pub deadline: Option<Instant>,
    pub ticks: u64,
    pub smt_time: f64,
    pub smt_calls: u64,
    pub feas: bool,
    pub no_fork: u32,
    pub contracts: HashMap<&'static str, Rc<dyn Fn(&dyn std::any::Any) -> Option<Box<dyn std::any::Any>>>>,
    pub called: BTreeMap<String, u64>,
    pub pruned: u64,
    pub lets: HashMap<String, Rc<dyn std::any::Any>>,
    pub scratch: HashMap<String, Box<dyn std::any::Any>>,
    pub nan_state: HashMap<VarId, bool>,
    pub max_paths: usize,
}
impl Ctx {
    fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            cons: HashMap::new(),
            rats: vec![],
            vars: vec![],
            names: HashMap::new(),
            sqrts: vec![],
            funs: vec![],
            angles: vec![],
            facts: HashMap::new(),
            linear: vec![],
            products: vec![],
            zsign: HashMap::new(),
            cons_list: vec![],
            eqs: vec![],
            decisions: vec![],
            pos: 0,
            trace: vec![],
            path: 0,
            obls: vec![],
            limits: vec![],
            assumptions: BTreeMap::new(),
            deadline: None,
            ticks: 0,
            smt_time: 0.0,
            smt_calls: 0,
            feas: false,
            no_fork: 0,
            contracts: HashMap::new(),
            called: BTreeMap::new(),
            pruned: 0,
            lets: HashMap::new(),
            scratch: HashMap::new(),
            nan_state: HashMap::new(),
            max_paths: 4096,
        }
    }
    fn reset_path(&mut self) {
        self.nodes.clear();
        self.cons.clear();
        self.rats.clear();
        self.vars.clear();
        self.names.clear();
        self.sqrts.clear();
        self.funs.clear();
        self.angles.clear();
        self.facts.clear();
        crate::seq::watch(None);
        PRODUCT_DEPTH.with(|d| d.set(0));
        LINEAR_DEPTH.with(|d| d.set(0));
        ROOT_DEPTH.with(|d| d.set(0));
        self.linear.clear();
        self.products.clear();
        self.zsign.clear();
        self.cons_list.clear();
        self.eqs.clear();
        self.pos = 0;
        self.trace.clear();
        self.contracts.clear();
        self.lets.clear();
        self.scratch.clear();
        self.nan_state.clear();
        self.feas = false;
        ROOT_DEPTH.with(|d| d.set(0));
        self.no_fork = 0;
    }
}
thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new()); }
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}
thread_local! { static TICKS: std::cell::Cell<u64> = std::cell::Cell::new(0);
static DEADLINE: std::cell::Cell<Option<Instant>> = std::cell::Cell::new(None); }
pub fn tick(n: u64) {
    TICKS.with(|t| {
        let v = t.get() + n;
        if v > 20_000 {
            t.set(0);
            if let Some(d) = DEADLINE.with(|d| d.get()) {
                if Instant::now() > d {
                    std::panic::panic_any(EngineLimit("time limit".into()));
                }
            }
        } else {
            t.set(v);
        }
    })
}
pub fn limit(s: impl Into<String>) -> ! {
    std::panic::panic_any(EngineLimit(s.into()))
}
pub fn path_end() -> ! {
    std::panic::panic_any(PathEnd)
}
pub fn note_assumption(s: &str) {
    with(|c| *c.assumptions.entry(s.to_string()).or_insert(0) += 1)
}
pub fn note_called(s: &str) {
    with(|c| *c.called.entry(s.to_string()).or_insert(0) += 1)
}

// ---------------------------------------------------------------- nodes
pub fn mk(n: Node) -> u32 {
    with(|c| {
        if let Some(&i) = c.cons.get(&n) {
            return i;
        }
        let i = c.nodes.len() as u32;
        c.nodes.push(n);
        c.rats.push(None);
        c.cons.insert(n, i);
        i
    })
}
pub fn node(i: u32) -> Node {
    with(|c| c.nodes[i as usize])
}
pub fn new_var(name: &str, sign: u8) -> VarId {
    with(|c| {
        let k = c.names.entry(name.to_string()).or_insert(0);
        let nm = if *k == 0 { name.to_string() } else { format!("{}#{}", name, k) };
        *k += 1;
        let id = c.vars.len() as VarId;
        c.vars.push(VarInfo { name: nm, sign, rule: None, value: None, maybe_nan: false });
        id
    })
}
pub fn var_name(v: VarId) -> String {
    with(|c| c.vars[v as usize].name.clone())
}
pub fn sym_var(v: VarId) -> Sym {
    Sym::node(mk(Node::Var(v)))
}

// ---------------------------------------------------------------- rational functions
fn reduce_poly(mut p: Poly) -> (Poly, Vec<(Poly, u32)>) {
    let mut dens: Vec<(Poly, u32)> = vec![];
    loop {
        let mut changed = false;
        let vs: Vec<VarId> = p.vars().into_iter().rev().collect();
        for v in vs {
            let rule = with(|c| c.vars[v as usize].rule.clone());
            if let Some((n, d)) = rule {
                if p.deg_in(v) >= 2 {
                    let (q, k) = p.reduce_sq(v, &n, &d);
                    p = q;
                    if k > 0 {
                        add_den(&mut dens, d, k);
                    }
                    changed = true;
                    break;
                }
            }
        }
        if !changed {
            break;
        }
    }
    (p, dens)
}
fn add_den(d: &mut Vec<(Poly, u32)>, p: Poly, e: u32) {
    if e == 0 {
        return;
    }
    for x in d.iter_mut() {
        if x.0 == p {
            x.1 += e;
            return;
        }
    }
    d.push((p, e));
}
/// Normalise: constants out of dens, split monomials, cancel.
pub fn norm_rat(num: Poly, den: Vec<(Poly, u32)>) -> Rat {
    let mut num = num;
    let mut work: Vec<(Poly, u32)> = den;
    let mut out: Vec<(Poly, u32)> = vec![];
    loop {
        let (n2, extra) = reduce_poly(num);
        num = n2;
        work.extend(extra);
        if num.is_zero() {
            return Rat { num, den: vec![] };
        }
        let mut again = false;
        // flatten work into out
        for (p, e) in std::mem::take(&mut work) {
            if e == 0 {
                continue;
            }
            let (c, p) = p.primitive();
            if c != Q::ONE {
                let mut s = Q::ONE;
                for _ in 0..e {
                    s = s.mul(c);
                }
                num = num.scale(s.inv());
            }
            if p.as_const().is_some() {
                continue;
            }
            let mc = p.mono_content();
            let rest = if mc.is_one() { p } else { p.div_exact(&Poly::mono(mc, Q::ONE)).unwrap() };
            for (v, k) in mc.iter() {
                add_den(&mut out, Poly::var(v), k * e);
            }
            if rest.as_const().is_none() {
                add_den(&mut out, rest, e);
            }
        }
        // rules on single variables in the denominator: 1/v^2 = d/n
        let mut i = 0;
        while i < out.len() {
            let (p, e) = out[i].clone();
            if p.len() == 1 && e >= 2 {
                let v = p.lead().0.iter().next().unwrap().0;
                if let Some((n, d)) = with(|c| c.vars[v as usize].rule.clone()) {
                    let k = e / 2;
                    out[i].1 = e % 2;
                    if out[i].1 == 0 {
                        out.swap_remove(i);
                    }
                    if d.as_const() != Some(Q::ONE) {
                        num = num.mul(&d.pow(k));
                    }
                    work.push((n, k));
                    again = true;
                    continue;
                }
            }
            i += 1;
        }
        if again {
            continue;
        }
        // cancel
        let mut i = 0;
        while i < out.len() {
            let cost_ok = out[i].0.len() <= 4 || (num.len() as u64) * (out[i].0.len() as u64) < 40_000_000;
            while cost_ok && out[i].1 > 0 {
                match num.div_exact(&out[i].0) {
                    Some(q) => {
                        num = q;
                        out[i].1 -= 1;
                    }
                    None => break,
                }
            }
            if out[i].1 == 0 {
                out.swap_remove(i);
            } else {
                i += 1;
            }
        }
        out.sort_by(|a, b| a.0.len().cmp(&b.0.len()).then_with(|| a.0.lead().0.cmp(&b.0.lead().0)));
        return Rat { num, den: out };
    }
}
pub fn radd(a: &Rat, b: &Rat) -> Rat {
    if a.num.is_zero() {
        return b.clone();
    }
    if b.num.is_zero() {
        return a.clone();
    }
    if a.den == b.den {
        return norm_rat(a.num.add(&b.num), a.den.clone());
    }
    let mut den = a.den.clone();
    for (p, e) in &b.den {
        match den.iter_mut().find(|x| x.0 == *p) {
            Some(x) => x.1 = x.1.max(*e),
            None => den.push((p.clone(), *e)),
        }
    }
    let lift = |r: &Rat| {
        let mut n = r.num.clone();
        for (p, e) in &den {
            let have = r.den.iter().find(|x| x.0 == *p).map(|x| x.1).unwrap_or(0);
            for _ in have..*e {
                n = n.mul(p);
            }
        }
        n
    };
    let n = lift(a).add(&lift(b));
    norm_rat(n, den)
}
pub fn rmul(a: &Rat, b: &Rat) -> Rat {
    if a.num.is_zero() || b.num.is_zero() {
        return Rat::poly(Poly::zero());
    }
    // cross-cancel first
    let (mut an, mut bn) = (a.num.clone(), b.num.clone());
    let mut den: Vec<(Poly, u32)> = vec![];
    for (p, e) in &a.den {
        let mut e = *e;
        while e > 0 {
            match bn.div_exact(p) {
                Some(q) => {
                    bn = q;
                    e -= 1;
                }
                None => break,
            }
        }
        add_den(&mut den, p.clone(), e);
    }
    for (p, e) in &b.den {
        let mut e = *e;
        while e > 0 {
            match an.div_exact(p) {
                Some(q) => {
                    an = q;
                    e -= 1;
                }
                None => break,
            }
        }
        add_den(&mut den, p.clone(), e);
    }
    norm_rat(an.mul(&bn), den)
}
pub fn rinv(a: &Rat) -> Rat {
    let mut num = Poly::one();
    for (p, e) in &a.den {
        num = num.mul(&p.pow(*e));
    }
    norm_rat(num, vec![(a.num.clone(), 1)])
}
pub fn rsub(a: &Rat, b: &Rat) -> Rat {
    radd(a, &b.neg())
}
pub fn req(a: &Rat, b: &Rat) -> bool {
    if a.den == b.den {
        return a.num == b.num;
    }
    rsub(a, b).num.is_zero()
}
pub fn rat(i: u32) -> Rc<Rat> {
    if let Some(r) = with(|c| c.rats[i as usize].clone()) {
        return r;
    }
    // iterative post-order to avoid deep recursion
    let mut stack = vec![(i, false)];
    while let Some((j, done)) = stack.pop() {
        if with(|c| c.rats[j as usize].is_some()) {
            continue;
        }
        let n = node(j);
        if !done {
            stack.push((j, true));
            match n {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => {
                    stack.push((a, false));
                    stack.push((b, false));
                }
                Node::Neg(a) => stack.push((a, false)),
                _ => {}
            }
            continue;
        }
        let g = |k: u32| with(|c| c.rats[k as usize].clone().unwrap());
        let r = match n {
            Node::Const(q) => Rat::poly(Poly::cst(q)),
            Node::Var(v) => Rat::poly(Poly::var(v)),
            Node::Add(a, b) => radd(&g(a), &g(b)),
            Node::Sub(a, b) => rsub(&g(a), &g(b)),
            Node::Mul(a, b) => rmul(&g(a), &g(b)),
            Node::Div(a, b) => {
                let d = g(b);
                if d.num.is_zero() {
                    limit("division by an identically zero expression")
                }
                rmul(&g(a), &rinv(&d))
            }
            Node::Neg(a) => g(a).neg(),
        };
        with(|c| c.rats[j as usize] = Some(Rc::new(r)));
    }
    with(|c| c.rats[i as usize].clone().unwrap())
}

// ---------------------------------------------------------------- signs and facts
pub fn sign_mul(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] {
        if a & x == 0 {
            continue;
        }
        for y in [NEG, ZERO, POS] {
            if b & y == 0 {
                continue;
            }
            r |= if x == ZERO || y == ZERO {
                ZERO
            } else if x == y {
                POS
            } else {
                NEG
            };
        }
    }
    r
}
fn flip(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
/// Sign set of one canonical (primitive) polynomial from facts and structure.
fn atom_sign(p: &Poly) -> u8 {
    let mut s = ANY;
    if let Some(f) = with(|c| c.facts.get(&vec![p.clone()]).copied()) {
        s &= f;
    }
    if p.len() == 1 && p.lead().0.iter().count() == 1 {
        let (v, e) = p.lead().0.iter().next().unwrap();
        if e == 1 {
            s &= with(|c| c.vars[v as usize].sign);
            // a root is as positive as its argument
            if s & !(ZERO | POS) == 0 && s != POS && s != ZERO {
                if let Some(a) = root_arg(v) {
                    match known_sign(&a).0 {
                        POS => s &= POS,
                        ZERO => s &= ZERO,
                        _ => {}
                    }
                }
            }
        }
    }
    if s == POS || s == NEG || s == ZERO {
        return s;
    }
    if let Some(n) = numeric_sign(p) {
        return n;
    }
    // structural: all monomials with a known common sign
    let mut acc: Option<u8> = None;
    for (m, q) in p.0.iter() {
        let mut ms = if q.sign() > 0 { POS } else { NEG };
        for (v, e) in m.iter() {
            let mut vs = with(|c| c.vars[v as usize].sign);
            if let Some(f) = with(|c| c.facts.get(&vec![Poly::var(v)]).copied()) {
                vs &= f;
            }
            let mut t = if e % 2 == 0 { if vs & ZERO != 0 { NONNEG } else { POS } } else { vs };
            if t == 0 {
                t = ANY;
            }
            ms = sign_mul(ms, t);
        }
        acc = Some(match acc {
            None => ms,
            Some(a) => sum_sign(a, ms),
        });
        if acc == Some(ANY) {
            break;
        }
    }
    let mut s = s & acc.unwrap_or(ZERO);
    // a linear inequality already known plus something of known sign
    if s & (s.wrapping_sub(1)) != 0 && comparable(p) && LINEAR_DEPTH.with(|d| d.get()) == 0 {
        let fs = with(|c| c.linear.clone());
        for f in fs {
            if f == *p || (!linear(p) && (f.len() != p.len() || lead_but_constants(&f).0 != lead_but_constants(p).0)) {
                continue;
            }
            let (m, q) = lead_but_constants(&f);
            let Some((_, r)) = p.0.iter().find(|x| x.0 == m) else { continue };
            let k = r.mul(q.inv());
            let rest = p.sub(&f.scale(k));
            let fm = with(|c| c.facts.get(&vec![f.clone()]).copied()).unwrap_or(ANY);
            let fm = if k.sign() < 0 { flip(fm) } else { fm };
            LINEAR_DEPTH.with(|d| d.set(1));
            let rs = if rest.is_zero() { ZERO } else { known_sign(&Rat { num: rest, den: vec![] }).0 };
            LINEAR_DEPTH.with(|d| d.set(0));
            let t = s & sum_sign(fm, rs);
            if t != 0 {
                s = t;
            }
        }
    }
    if s & (s.wrapping_sub(1)) != 0 && p.len() >= 2 && p.len() <= 40 {
        return s & root_compare(p).unwrap_or(ANY);
    }
    s
}
/// the sign of an expression in named constants alone (pi, 1e-10), when it is far from zero compared with rounding
fn numeric_sign(p: &Poly) -> Option<u8> {
    let (mut sum, mut size) = (0.0f64, 0.0f64);
    for (m, q) in p.0.iter() {
        let mut t = q.to_f64();
        for (v, e) in m.iter() {
            let c = with(|c| {
                let name = c.vars[v as usize].name.strip_prefix("const:")?.to_string();
                if name == "PI" { Some(std::f64::consts::PI) } else { name.parse::<f64>().ok() }
            })?;
            t *= c.powi(e as i32);
        }
        sum += t;
        size += t.abs();
    }
    if !sum.is_finite() || !(sum.abs() > 1e-9 * size) || size < 1e-200 {
        return None;
    }
    Some(if sum > 0.0 { POS } else { NEG })
}
/// linear, or compared with a constant
fn comparable(p: &Poly) -> bool {
    linear(p) || (p.len() >= 2 && p.0.iter().any(|(m, _)| constant(m)))
}
fn constant(m: &Mono) -> bool {
    m.iter().all(|(v, _)| with(|c| c.vars[v as usize].name.starts_with("const:")))
}
fn lead_but_constants(p: &Poly) -> (Mono, Q) {
    p.0.iter().find(|(m, _)| !constant(m)).copied().unwrap_or_else(|| p.lead())
}
fn linear(p: &Poly) -> bool {
    (2..=12).contains(&p.len()) && p.0.iter().all(|(m, _)| m.iter().map(|x| x.1).sum::<u32>() <= 1)
}
thread_local! { static PRODUCT_DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0); }
thread_local! { static LINEAR_DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0); }
thread_local! { static ROOT_DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0); }
/// sign of a v + b where v is a square root and a, b have opposite signs: compare the squares
fn root_compare(p: &Poly) -> Option<u8> {
    let (q, up) = root_squares(p)?;
    ROOT_DEPTH.with(|d| d.set(d.get() + 1));
    let s = if q.num.is_zero() { ZERO } else { known_sign(&q).0 };
    ROOT_DEPTH.with(|d| d.set(d.get() - 1));
    Some(if up { s } else { flip(s) })
}
/// a v + b with v a square root and a, b of opposite signs: the difference of the squares, and whether it has the
/// same sign (or the opposite one)
fn root_squares(p: &Poly) -> Option<(Rat, bool)> {
    if ROOT_DEPTH.with(|d| d.get()) >= 2 {
        return None;
    }
    let vs: Vec<VarId> = p.vars().into_iter().rev().filter(|v| with(|c| c.sqrts.iter().any(|x| x.1 == *v))).collect();
    for v in vs {
        if p.deg_in(v) != 1 {
            continue;
        }
        let (mut a, mut b) = (Poly::zero(), Poly::zero());
        for (m, q) in p.0.iter() {
            if m.exp(v) == 1 {
                a = a.add(&Poly::mono(m.without(v), *q));
            } else {
                b = b.add(&Poly::mono(*m, *q));
            }
        }
        if b.is_zero() {
            continue;
        }
        ROOT_DEPTH.with(|d| d.set(d.get() + 1));
        let r = (|| {
            let sa = known_sign(&Rat::poly(a.clone())).0;
            let sb = known_sign(&Rat::poly(b.clone())).0;
            let up = sa & NEG == 0 && sb & POS == 0;
            let down = sa & POS == 0 && sb & NEG == 0;
            if !up && !down {
                return None;
            }
            let (n, d) = with(|c| c.vars[v as usize].rule.clone())?;
            let num = a.mul(&a).mul(&n).sub(&b.mul(&b).mul(&d));
            Some((norm_rat(num, vec![(d, 1)]), up))
        })();
        ROOT_DEPTH.with(|d| d.set(d.get() - 1));
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn sum_sign(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] {
        if a & x == 0 {
            continue;
        }
        for y in [NEG, ZERO, POS] {
            if b & y == 0 {
                continue;
            }
            r |= if x == ZERO {
                y
            } else if y == ZERO || x == y {
                x
            } else {
                ANY
            };
        }
    }
    r
}
/// Decompose the sign of a rational function: (constant sign, list of primitive atoms (odd), list of atoms appearing to even power in num)
fn sign_atoms(r: &Rat) -> (i32, Vec<Poly>, Vec<Poly>) {
    let (c, p) = r.num.primitive();
    let sg = c.sign();
    let mut odd: Vec<Poly> = vec![];
    let mut even: Vec<Poly> = vec![];
    let mc = p.mono_content();
    let rest = if mc.is_one() { p } else { p.div_exact(&Poly::mono(mc, Q::ONE)).unwrap() };
    for (v, e) in mc.iter() {
        if e % 2 == 1 {
            odd.push(Poly::var(v));
        } else {
            even.push(Poly::var(v));
        }
    }
    if rest.as_const().is_none() {
        // perfect square?
        if rest.len() <= 200 {
            if let Some(s) = rest.sqrt() {
                let (_, s) = s.primitive();
                even.push(s);
            } else {
                odd.push(rest);
            }
        } else {
            odd.push(rest);
        }
    }
    for (p, e) in &r.den {
        if e % 2 == 1 {
            // toggle
            if let Some(k) = odd.iter().position(|x| x == p) {
                odd.remove(k);
                even.push(p.clone());
            } else {
                odd.push(p.clone());
            }
        }
    }
    (sg, odd, even)
}
pub fn known_sign(r: &Rat) -> (u8, i32, Vec<Poly>) {
    if let Some(q) = r.as_const() {
        return (if q.sign() > 0 { POS } else if q.sign() < 0 { NEG } else { ZERO }, 1, vec![]);
    }
    let (sg, odd, even) = sign_atoms(r);
    let mut s = if sg > 0 { POS } else { NEG };
    let mut unknown = vec![];
    let dens: Vec<&Poly> = r.den.iter().map(|x| &x.0).collect();
    for e in &even {
        let mut a = atom_sign(e);
        if dens.contains(&e) {
            a &= NONZERO;
        }
        if a & ZERO != 0 {
            s = sign_mul(s, NONNEG);
        }
    }
    let mut sgn = sg;
    for o in odd {
        let mut a = atom_sign(&o);
        if dens.contains(&&o) {
            a &= NONZERO;
        }
        if a == POS {
        } else if a == NEG {
            s = flip(s);
            sgn = -sgn;
        } else {
            s = sign_mul(s, if a == 0 { ANY } else { a });
            unknown.push(o);
        }
    }
    // facts on the product
    unknown.sort_by(|a, b| a.len().cmp(&b.len()).then_with(|| a.lead().0.cmp(&b.lead().0)).then_with(|| format!("{:?}", a.0).cmp(&format!("{:?}", b.0))));
    if unknown.len() > 1 {
        if let Some(f) = with(|c| c.facts.get(&unknown).copied()) {
            let mut f = f;
            if sgn < 0 {
                f = flip(f);
            }
            s &= f;
        }
    }
    // facts on a product whose other factors are known by now
    if !unknown.is_empty() && s & s.wrapping_sub(1) != 0 && PRODUCT_DEPTH.with(|d| d.get()) == 0 {
        PRODUCT_DEPTH.with(|d| d.set(1));
        let ks = with(|c| c.products.iter().filter(|k| k.len() > unknown.len() && unknown.iter().all(|u| k.contains(u))).cloned().collect::<Vec<_>>());
        for k in ks {
            let mut f = with(|c| c.facts.get(&k).copied()).unwrap_or(ANY);
            if sgn < 0 {
                f = flip(f);
            }
            let mut known = true;
            for o in k.iter().filter(|o| !unknown.contains(o)) {
                match atom_sign(o) {
                    POS => {}
                    NEG => f = flip(f),
                    _ => known = false,
                }
            }
            if known && s & f != 0 {
                s &= f;
            }
        }
        PRODUCT_DEPTH.with(|d| d.set(0));
    }
    (s, sgn, unknown)
}
/// the sign, when some unknown factor is a multiple of a polynomial of known sign
fn split_sign(r: &Rat) -> u8 {
    let (s, sgn, unknown) = known_sign(r);
    let mut t = if sgn > 0 { POS } else { NEG };
    for u in &unknown {
        let mut a = atom_sign(u);
        let fs: Vec<Poly> = with(|c| c.facts.keys().filter(|k| k.len() == 1 && k[0].len() >= 2 && k[0].len() < u.len()).map(|k| k[0].clone()).collect());
        for f in fs {
            if let Some(q) = u.div_exact(&f) {
                a &= sign_mul(atom_sign(&f), known_sign(&Rat { num: q, den: vec![] }).0);
            }
        }
        t = sign_mul(t, a);
    }
    // (factors of even power)
    if s & t == 0 || may_vanish(r) { s } else { s & t }
}
/// may a factor of even power be zero?
fn may_vanish(r: &Rat) -> bool {
    let (_, _, even) = sign_atoms(r);
    even.iter().any(|e| !r.den.iter().any(|d| d.0 == *e) && atom_sign(e) & ZERO != 0)
}
/// the argument, when v is a square root
fn root_arg(v: VarId) -> Option<Rc<Rat>> {
    with(|c| c.sqrts.iter().find(|x| x.1 == v).map(|x| x.0.clone()))
}
/// Record that sign(r) is in mask.
pub fn add_fact(r: &Rat, mask: u8) {
    let (_, sgn, unknown) = known_sign(r);
    let even = may_vanish(r);
    add_fact0(r, mask);
    // (the rest may have any sign when another factor may vanish)
    if even && mask & ZERO != 0 {
        return;
    }
    // a fact on a comparison with a root is a fact on the squares
    if unknown.len() == 1 && unknown[0].len() >= 2 && unknown[0].len() <= 40 {
        if let Some((q, up)) = root_squares(&unknown[0]) {
            let m = if (sgn < 0) == up { flip(mask) } else { mask };
            if !q.num.is_zero() && q.as_const().is_none() {
                add_fact(&q, m);
            }
        }
    }
    // a fact on a root is a fact on its argument
    if unknown.len() == 1 && unknown[0].len() == 1 {
        let m = unknown[0].lead().0;
        let vs: Vec<_> = m.iter().collect();
        if vs.len() == 1 && vs[0].1 == 1 {
            if let Some(a) = root_arg(vs[0].0) {
                let m = if sgn < 0 { flip(mask) } else { mask };
                if m & NONNEG == ZERO {
                    add_fact(&a, ZERO);
                } else if m & NONNEG == POS {
                    add_fact(&a, POS);
                }
            }
        }
    }
}
fn add_fact0(r: &Rat, mask: u8) {
    let (_, sgn, unknown) = known_sign(r);
    if unknown.is_empty() {
        // even factors only; keep zero information
        let (_, _, even) = sign_atoms(r);
        if mask & ZERO == 0 {
            for e in even {
                let k = vec![e.clone()];
                with(|c| {
                    let o = c.facts.get(&k).copied().unwrap_or(ANY);
                    c.facts.insert(k.clone(), o & NONZERO);
                    c.cons_list.push((k, NONZERO));
                });
            }
        }
        with(|c| {
            let mut l = vec![r.num.clone()];
            for (p, e) in &r.den {
                if e % 2 == 1 {
                    l.push(p.clone());
                }
            }
            c.cons_list.push((l, mask));
        });
        return;
    }
    let (_, _, even) = sign_atoms(r);
    if mask & ZERO == 0 {
        for u in unknown.iter().chain(even.iter()) {
            let k = vec![u.clone()];
            with(|c| {
                let o = c.facts.get(&k).copied().unwrap_or(ANY);
                c.facts.insert(k.clone(), o & NONZERO);
                c.cons_list.push((k, NONZERO));
            });
        }
    }
    let m = if sgn < 0 { flip(mask) } else { mask };
    let may = may_vanish(r);
    let compared = unknown.len() == 1 && comparable(&unknown[0]);
    with(|c| {
        let evs_nonzero = !may || mask & ZERO == 0;
        if evs_nonzero {
            let o = c.facts.get(&unknown).copied().unwrap_or(ANY);
            c.facts.insert(unknown.clone(), o & m);
            if unknown.len() > 1 && !c.products.contains(&unknown) {
                c.products.push(unknown.clone());
            }
            if compared && !c.linear.contains(&unknown[0]) {
                c.linear.push(unknown[0].clone());
            }
            if unknown.len() == 1 && m == ZERO {
                c.eqs.push(unknown[0].clone());
                // a vanishing sum of squares: every term vanishes
                let p = &unknown[0];
                if p.len() > 1 && p.0.iter().all(|(mo, q)| q.sign() > 0 && mo.iter().count() == 1 && mo.iter().all(|(_, e)| e % 2 == 0)) {
                    for (mo, _) in p.0.clone().iter() {
                        let v = mo.iter().next().unwrap().0;
                        let k = vec![Poly::var(v)];
                        let o = c.facts.get(&k).copied().unwrap_or(ANY);
                        c.facts.insert(k.clone(), o & ZERO);
                        c.cons_list.push((k, ZERO));
                        c.eqs.push(Poly::var(v));
                    }
                }
            }
        }
        let mut l = vec![r.num.clone()];
        for (p, e) in &r.den {
            if e % 2 == 1 {
                l.push(p.clone());
            }
        }
        c.cons_list.push((l, mask));
    });
}
/// A boolean choice point.
pub fn choose(what: &str) -> bool {
    let forced = with(|c| {
        if c.pos < c.decisions.len() {
            let v = c.decisions[c.pos].0;
            c.pos += 1;
            c.trace.push(format!("{}={}", what, v));
            Some(v)
        } else {
            None
        }
    });
    if let Some(v) = forced {
        return v;
    }
    with(|c| {
        if c.decisions.len() > 400 {
            limit("too many branch decisions on one path");
        }
        c.decisions.push((true, false));
        c.pos += 1;
        c.trace.push(format!("{}=true", what));
        true
    })
}
/// Is sign(x) in mask? Forks when unknown.
pub fn query_rat(r: &Rat, mask: u8, what: &str) -> bool {
    let (s, _, _) = known_sign(r);
    if s & !mask & ANY == 0 {
        return true;
    }
    if s & mask == 0 {
        return false;
    }
    let s = split_sign(r);
    if s & !mask & ANY == 0 {
        return true;
    }
    if s & mask == 0 {
        return false;
    }
    if with(|c| c.feas) {
        // consult the solver
        let yes = smt_feasible(r, s & mask);
        if yes == Some(false) {
            add_fact(r, ANY & !mask);
            return false;
        }
        let no = smt_feasible(r, s & !mask & ANY);
        if no == Some(false) {
            add_fact(r, mask);
            return true;
        }
    }
    let b = choose(&format!("sign({})in{}", show_rat(r, 4), mask));
    let m = if b { s & mask } else { s & !mask & ANY };
    add_fact(r, m);
    b
}
pub fn show_rat(r: &Rat, n: usize) -> String {
    let nm = |v| with(|c| c.vars[v as usize].name.clone());
    let mut s = r.num.show(&nm, n);
    if !r.den.is_empty() {
        s = format!("({})/", s);
        for (p, e) in &r.den {
            s.push_str(&format!("({})^{}", p.show(&nm, n), e));
        }
    }
    s
}

// ---------------------------------------------------------------- solver
fn smt_poly(p: &Poly) -> String {
    if p.is_zero() {
        return "0.0".into();
    }
    let q = |x: Q| {
        let a = if x.1 == 1 { format!("{}.0", x.0.abs()) } else { format!("(/ {}.0 {}.0)", x.0.abs(), x.1) };
        if x.0 < 0 {
            format!("(- {})", a)
        } else {
            a
        }
    };
    let mut ts = vec![];
    for (m, c) in p.0.iter() {
        let mut f = vec![];
        if *c != Q::ONE || m.is_one() {
            f.push(q(*c));
        }
        for (v, e) in m.iter() {
            for _ in 0..e {
                f.push(format!("v{}", v));
            }
        }
        ts.push(if f.len() == 1 { f[0].clone() } else { format!("(* {})", f.join(" ")) });
    }
    if ts.len() == 1 {
        ts[0].clone()
    } else {
        format!("(+ {})", ts.join(" "))
    }
}
fn smt_rel(l: &[Poly], mask: u8) -> String {
    let prod = if l.len() == 1 { smt_poly(&l[0]) } else { format!("(* {})", l.iter().map(smt_poly).collect::<Vec<_>>().join(" ")) };
    match mask {
        NEG => format!("(< {} 0.0)", prod),
        ZERO => format!("(= {} 0.0)", prod),
        POS => format!("(> {} 0.0)", prod),
        NONPOS => format!("(<= {} 0.0)", prod),
        NONNEG => format!("(>= {} 0.0)", prod),
        NONZERO => format!("(not (= {} 0.0))", prod),
        0 => "false".into(),
        _ => "true".into(),
    }
}
pub fn smt_script(goal: &[(Vec<Poly>, u8)]) -> String {
    let (cons, vars) = with(|c| (c.cons_list.clone(), c.vars.clone()));
    // relevant variables: closure
    let mut rel: std::collections::BTreeSet<VarId> = Default::default();
    let mut asserts = vec![];
    for (l, m) in goal.iter() {
        for p in l {
            rel.extend(p.vars());
        }
        asserts.push(smt_rel(l, *m));
    }
    // closure over constraints sharing variables and small enough
    let mut used = vec![false; cons.len()];
    loop {
        let mut ch = false;
        // rules
        let cur: Vec<VarId> = rel.iter().copied().collect();
        for v in cur {
            if let Some((n, d)) = &vars[v as usize].rule {
                for w in n.vars().into_iter().chain(d.vars()) {
                    if rel.insert(w) {
                        ch = true;
                    }
                }
            }
        }
        for (i, (l, _)) in cons.iter().enumerate() {
            if used[i] || l.iter().map(|p| p.len()).sum::<usize>() > 3000 {
                continue;
            }
            let vs: std::collections::BTreeSet<VarId> = l.iter().flat_map(|p| p.vars()).collect();
            if vs.iter().any(|v| rel.contains(v)) {
                used[i] = true;
                ch = true;
                rel.extend(vs);
            }
        }
        if !ch {
            break;
        }
    }
    let mut s = String::from("(set-logic QF_NRA)\n");
    for v in &rel {
        s.push_str(&format!("(declare-fun v{} () Real) ; {}\n", v, vars[*v as usize].name.replace('\n', " ")));
    }
    for v in &rel {
        let info = &vars[*v as usize];
        if info.sign != ANY {
            s.push_str(&format!("(assert {})\n", smt_rel(&[Poly::var(*v)], info.sign)));
        }
        if let Some(q) = info.value {
            s.push_str(&format!("(assert (= v{} {}))\n", v, smt_poly(&Poly::cst(q))));
        }
        if let Some((n, d)) = &info.rule {
            if d.as_const() == Some(Q::ONE) {
                s.push_str(&format!("(assert (= (* v{} v{}) {}))\n", v, v, smt_poly(n)));
            } else {
                s.push_str(&format!("(assert (= (* v{} v{} {}) {}))\n(assert {})\n", v, v, smt_poly(d), smt_poly(n), smt_rel(&[d.clone()], NONZERO)));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    for (i, (l, m)) in cons.iter().enumerate() {
        if used[i] {
            let a = format!("(assert {})\n", smt_rel(l, *m));
            if seen.insert(a.clone()) {
                s.push_str(&a);
            }
        }
    }
    for a in asserts {
        s.push_str(&format!("(assert {})\n", a));
    }
    s.push_str("(check-sat)\n");
    s
}
thread_local! { static SMT_CACHE: RefCell<HashMap<String, Option<bool>>> = RefCell::new(HashMap::new()); }
pub fn smt_run(script: &str, secs: u64) -> Option<bool> {
    if let Some(r) = SMT_CACHE.with(|c| c.borrow().get(script).copied()) {
        return r;
    }
    let t0 = Instant::now();
    let mut res = None;
    if script.len() < 2_000_000 {
        use std::io::Write;
        use std::process::*;
        for (bin, args) in [("z3", vec![format!("-T:{}", secs), "-in".to_string()])] {
            if let Ok(mut ch) = Command::new(bin).args(&args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                let _ = ch.stdin.take().unwrap().write_all(script.as_bytes());
                if let Ok(out) = ch.wait_with_output() {
                    let o = String::from_utf8_lossy(&out.stdout).to_string();
                    if o.contains("unsat") {
                        res = Some(false);
                    } else if o.contains("sat") {
                        res = Some(true);
                    }
                }
            }
            if res.is_some() {
                break;
            }
        }
    }
    with(|c| {
        c.smt_time += t0.elapsed().as_secs_f64();
        c.smt_calls += 1;
    });
    SMT_CACHE.with(|c| c.borrow_mut().insert(script.to_string(), res));
    res
}
fn rat_atoms(r: &Rat) -> Vec<Poly> {
    let mut l = vec![r.num.clone()];
    for (p, e) in &r.den {
        if e % 2 == 1 {
            l.push(p.clone());
        }
    }
    l
}
fn smt_feasible(r: &Rat, mask: u8) -> Option<bool> {
    let mut goal = vec![(rat_atoms(r), mask)];
    for (p, _) in &r.den {
        goal.push((vec![p.clone()], NONZERO));
    }
    smt_run(&smt_script(&goal), 2)
}
/// The current path's constraints are contradictory.
pub fn path_infeasible(secs: u64) -> bool {
    let contradiction = with(|c| c.facts.values().any(|&m| m == 0));
    if contradiction {
        return true;
    }
    let goal: Vec<(Vec<Poly>, u8)> = with(|c| c.cons_list.clone());
    if goal.is_empty() {
        return false;
    }
    smt_run(&smt_script(&goal), secs) == Some(false)
}
pub static mut SMT_SECS: u64 = 20;
fn smt_secs() -> u64 {
    unsafe { SMT_SECS }
}
/// Prove sign(r) in mask from the facts of the path.
pub fn prove_sign(r: &Rat, mask: u8) -> Result<&'static str, String> {
    let (s, _, _) = known_sign(r);
    if s & !mask & ANY == 0 || split_sign(r) & !mask & ANY == 0 {
        return Ok("normal-form");
    }
    let mut goal = vec![(rat_atoms(r), ANY & !mask)];
    for (p, _) in &r.den {
        goal.push((vec![p.clone()], NONZERO));
    }
    let sc = smt_script(&goal);
    match smt_run(&sc, smt_secs()) {
        Some(false) => Ok("z3"),
        _ if path_infeasible(smt_secs()) => Ok("z3:path-infeasible"),
        Some(true) => Err(format!("solver finds sign({}) outside {}", show_rat(r, 6), mask)),
        None => Err(format!("solver gives no answer on sign({}) in {}", show_rat(r, 6), mask)),
    }
}
pub fn prove_zero(r: &Rat) -> Result<&'static str, String> {
    if r.num.is_zero() {
        return Ok("normal-form");
    }
    if r.as_const().is_some() {
        if path_infeasible(smt_secs()) {
            return Ok("z3:path-infeasible");
        }
        return Err(format!("value is the nonzero constant {}", show_rat(r, 3)));
    }
    // ideal membership by the equalities on the path (single-step: a multiple of one equality)
    let eqs = with(|c| c.eqs.clone());
    for e in &eqs {
        if r.num.div_exact(e).is_some() {
            return Ok("normal-form+hypothesis");
        }
    }
    let (s, _, _) = known_sign(r);
    if s == ZERO {
        return Ok("fact");
    }
    if r.num.len() <= 400 {
        let mut goal = vec![(vec![r.num.clone()], NONZERO)];
        for (p, _) in &r.den {
            goal.push((vec![p.clone()], NONZERO));
        }
        match smt_run(&smt_script(&goal), smt_secs()) {
            Some(false) => return Ok("z3"),
            Some(true) => {
                if path_infeasible(smt_secs()) {
                    return Ok("z3:path-infeasible");
                }
                return Err(format!("solver finds {} nonzero", show_rat(r, 8)));
            }
            None => {}
        }
    }
    if path_infeasible(smt_secs()) {
        return Ok("z3:path-infeasible");
    }
    Err(format!("not identically zero: {}", show_rat(r, 8)))
}
pub fn record(label: &str, res: Result<&'static str, String>) -> bool {
    let ok = res.is_ok();
    let (by, detail) = match res {
        Ok(b) => (b, String::new()),
        Err(e) => ("", e),
    };
    with(|c| {
        let tr = if ok { String::new() } else { format!(" on path [{}]", c.trace.join("; ")) };
        let path = c.path;
        c.obls.push(Obl { label: label.to_string(), path, ok, by, detail: detail + &tr });
    });
    ok
}

// ---------------------------------------------------------------- driver
pub struct Report {
    pub name: String,
    pub paths: usize,
    pub complete: bool,
    pub obls: Vec<Obl>,
    pub limits: Vec<(usize, String)>,
    pub panics: Vec<(usize, String)>,
    pub assumptions: BTreeMap<String, u64>,
    pub called: BTreeMap<String, u64>,
    pub smt_time: f64,
    pub smt_calls: u64,
    pub wall: f64,
    pub infeasible: u64,
}
thread_local! { pub static PANIC_MSG: RefCell<String> = RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()));
    }));
}
/// Run `f` on every path.
pub fn explore(name: &str, secs: u64, f: &dyn Fn()) -> Report {
    let t0 = Instant::now();
    CTX.with(|c| *c.borrow_mut() = Ctx::new());
    DEADLINE.with(|d| d.set(Some(t0 + Duration::from_secs(secs))));
    let mut panics = vec![];
    let mut complete = true;
    let mut infeasible = 0;
    loop {
        with(|c| c.reset_path());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        if let Err(e) = r {
            let path = with(|c| c.path);
            if e.downcast_ref::<PathEnd>().is_some() {
            } else if let Some(l) = e.downcast_ref::<EngineLimit>() {
                let tr = with(|c| c.trace.join("; "));
                let s = format!("{} [{}]", l.0, tr);
                with(|c| c.limits.push((path, s)));
            } else {
                let inf = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| path_infeasible(smt_secs()))).unwrap_or(false);
                if inf {
                    infeasible += 1;
                } else {
                    let tr = with(|c| c.trace.join("; "));
                    let m = PANIC_MSG.with(|p| p.borrow().clone());
                    panics.push((path, format!("{} [{}]", m, tr)));
                }
            }
        }
        // next path
        let more = with(|c| {
            c.decisions.truncate(c.pos.max(0));
            loop {
                match c.decisions.pop() {
                    None => return false,
                    Some((true, _)) => {
                        c.decisions.push((false, true));
                        return true;
                    }
                    Some((false, _)) => {}
                }
            }
        });
        with(|c| c.path += 1);
        if !more {
            break;
        }
        if t0.elapsed().as_secs() > secs || with(|c| c.path >= c.max_paths) {
            complete = false;
            break;
        }
    }
    DEADLINE.with(|d| d.set(None));
    with(|c| Report {
        name: name.to_string(),
        paths: c.path,
        complete,
        obls: std::mem::take(&mut c.obls),
        limits: std::mem::take(&mut c.limits),
        panics,
        assumptions: std::mem::take(&mut c.assumptions),
        called: std::mem::take(&mut c.called),
        smt_time: c.smt_time,
        smt_calls: c.smt_calls,
        wall: t0.elapsed().as_secs_f64(),
        infeasible,
    })
}
pub fn sign_set(r: &Rat) -> u8 {
    known_sign(r).0
}

pub mod poly;
pub mod vc;
mod traits;
pub mod shim;
pub mod api;
pub mod seq;
use poly::*;
use std::cmp::Ordering;
use std::rc::Rc;
use vc::*;

/// A symbolic real number standing for one f64 of the code under verification.
#[derive(Copy, Clone)]
pub struct Sym {
    t: u8, // 0 literal bits, 1 node, 2 +inf, 3 -inf, 4 NaN
    v: u64,
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self.t {
            0 => write!(f, "{}", f64::from_bits(self.v)),
            1 => write!(f, "{}", std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show_rat(&self.rat(), 8))).unwrap_or("?".into())),
            2 => write!(f, "inf"),
            3 => write!(f, "-inf"),
            _ => write!(f, "NaN"),
        }
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
fn qconst(x: Sym) -> Option<Q> {
    match x.t {
        0 => Q::from_f64(f64::from_bits(x.v)).filter(|q| !tiny(*q)),
        1 => match node(x.v as u32) {
            Node::Const(q) => Some(q),
            _ => None,
        },
        _ => None,
    }
}
/// Very small literals stay opaque positive constants so that exact arithmetic does not overflow.
fn tiny(q: Q) -> bool {
    q.1 > 10_000_000
}
impl Sym {
    pub const INFINITY: Sym = Sym { t: 2, v: 0 };
    pub const NEG_INFINITY: Sym = Sym { t: 3, v: 0 };
    pub const NAN: Sym = Sym { t: 4, v: 0 };
    pub const EPSILON: Sym = Sym::lit(f64::EPSILON);
    pub const MAX: Sym = Sym::lit(f64::MAX);
    pub const MIN: Sym = Sym::lit(f64::MIN);
    pub const MIN_POSITIVE: Sym = Sym::lit(f64::MIN_POSITIVE);
    pub const fn lit(x: f64) -> Sym {
        if x != x {
            Sym { t: 4, v: 0 }
        } else if x == f64::INFINITY {
            Sym { t: 2, v: 0 }
        } else if x == f64::NEG_INFINITY {
            Sym { t: 3, v: 0 }
        } else {
            Sym { t: 0, v: x.to_bits() }
        }
    }
    pub fn node(i: u32) -> Sym {
        Sym { t: 1, v: i as u64 }
    }
    pub fn q(q: Q) -> Sym {
        Sym::node(mk(Node::Const(q)))
    }
    pub fn special(self) -> bool {
        self.t >= 2
    }
    pub fn raw(self) -> (u8, u64) {
        (self.t, self.v)
    }
    pub fn pi_const() -> Sym {
        Sym::opaque_const("PI", std::f64::consts::PI)
    }
    pub fn opaque_const(name: &str, val: f64) -> Sym {
        let key = format!("const:{}", name);
        let have = with(|c| c.vars.iter().position(|v| v.name == key));
        let v = match have {
            Some(i) => i as u32,
            None => {
                let v = new_var(&key, if val > 0.0 { POS } else if val < 0.0 { NEG } else { ZERO });
                with(|c| c.vars[v as usize].value = Q::from_f64(val));
                v
            }
        };
        sym_var(v)
    }
    pub fn id(self) -> u32 {
        match self.t {
            1 => self.v as u32,
            0 => {
                let x = f64::from_bits(self.v);
                match Q::from_f64(x) {
                    Some(q) if !tiny(q) => mk(Node::Const(q)),
                    _ => {
                        let s = Sym::opaque_const(&format!("{:e}", x.abs()), x.abs());
                        if x < 0.0 {
                            mk(Node::Neg(s.v as u32))
                        } else {
                            s.v as u32
                        }
                    }
                }
            }
            _ => limit("arithmetic normal form of a non-finite value"),
        }
    }
    pub fn rat(self) -> Rc<Rat> {
        rat(self.id())
    }
    pub fn query(self, mask: u8) -> bool {
        match self.t {
            2 => mask & POS != 0,
            3 => mask & NEG != 0,
            4 => false,
            _ => query_rat(&self.rat(), mask, ""),
        }
    }
    fn opq(a: Sym, b: Sym) -> Option<(Q, Q)> {
        Some((qconst(a)?, qconst(b)?))
    }
    pub fn is_const_zero(self) -> bool {
        qconst(self).map(|q| q.is_zero()).unwrap_or(false)
    }
    pub fn add_(self, o: Sym) -> Sym {
        if self.special() || o.special() {
            return match (self.t, o.t) {
                (4, _) | (_, 4) => Sym::NAN,
                (2, 3) | (3, 2) => Sym::NAN,
                (2, _) | (_, 2) => Sym::INFINITY,
                _ => Sym::NEG_INFINITY,
            };
        }
        if let Some((a, b)) = Sym::opq(self, o) {
            return Sym::q(a.add(b));
        }
        if self.is_const_zero() {
            return o;
        }
        if o.is_const_zero() {
            return self;
        }
        Sym::node(mk(Node::Add(self.id(), o.id())))
    }
    pub fn sub_(self, o: Sym) -> Sym {
        if self.special() || o.special() {
            return self.add_(o.neg_());
        }
        if let Some((a, b)) = Sym::opq(self, o) {
            return Sym::q(a.add(b.neg()));
        }
        if self.is_const_zero() {
            return o.neg_();
        }
        if o.is_const_zero() {
            return self;
        }
        let (a, b) = (self.id(), o.id());
        if a == b {
            return Sym::lit(0.0);
        }
        Sym::node(mk(Node::Sub(a, b)))
    }
    pub fn neg_(self) -> Sym {
        match self.t {
            2 => Sym::NEG_INFINITY,
            3 => Sym::INFINITY,
            4 => Sym::NAN,
            0 => Sym::lit(-f64::from_bits(self.v)),
            _ => match node(self.v as u32) {
                Node::Const(q) => Sym::q(q.neg()),
                Node::Neg(a) => Sym::node(a),
                _ => Sym::node(mk(Node::Neg(self.v as u32))),
            },
        }
    }
    fn inf_mul(inf: Sym, o: Sym) -> Sym {
        match o.t {
            4 => Sym::NAN,
            2 => inf,
            3 => inf.neg_(),
            _ => {
                if o.query(ZERO) {
                    Sym::NAN
                } else if o.query(POS) {
                    inf
                } else {
                    inf.neg_()
                }
            }
        }
    }
    pub fn mul_(self, o: Sym) -> Sym {
        if self.special() || o.special() {
            if self.t == 4 || o.t == 4 {
                return Sym::NAN;
            }
            return if self.special() { Sym::inf_mul(self, o) } else { Sym::inf_mul(o, self) };
        }
        if let Some((a, b)) = Sym::opq(self, o) {
            return Sym::q(a.mul(b));
        }
        // 0 * x is 0 for finite x
        if self.is_const_zero() || o.is_const_zero() {
            return Sym::lit(0.0);
        }
        if qconst(self) == Some(Q::ONE) {
            return o;
        }
        if qconst(o) == Some(Q::ONE) {
            return self;
        }
        if qconst(self) == Some(Q(-1, 1)) {
            return o.neg_();
        }
        if qconst(o) == Some(Q(-1, 1)) {
            return self.neg_();
        }
        let (a, b) = (self.id(), o.id());
        Sym::node(mk(Node::Mul(a.min(b), a.max(b))))
    }
    pub fn div_(self, o: Sym) -> Sym {
        if self.t == 4 || o.t == 4 {
            return Sym::NAN;
        }
        if o.t == 2 || o.t == 3 {
            return if self.special() { Sym::NAN } else { Sym::lit(0.0) };
        }
        if self.special() {
            // inf / finite
            return if o.query(NEG) { self.neg_() } else { self };
        }
        // divisor identically zero?
        let od = if let Some(q) = qconst(o) { q.is_zero() } else { o.rat().num.is_zero() };
        if od {
            if self.query(ZERO) {
                return Sym::NAN;
            }
            return if self.query(POS) { Sym::INFINITY } else { Sym::NEG_INFINITY };
        }
        if let Some((a, b)) = Sym::opq(self, o) {
            return Sym::q(a.mul(b.inv()));
        }
        if qconst(o) == Some(Q::ONE) {
            return self;
        }
        if self.is_const_zero() {
            // 0/x is 0 for nonzero x; if x can be zero this is NaN: keep the node
            if let Some(q) = qconst(o) {
                if !q.is_zero() {
                    return Sym::lit(0.0);
                }
            }
        }
        let (a, b) = (self.id(), o.id());
        let z = with(|c| c.facts.get(&vec![]).copied());
        let _ = z;
        // on a path that already knows the divisor is zero
        if known_zero(&rat(b)) {
            if self.query(ZERO) {
                return Sym::NAN;
            }
            return if self.query(POS) { Sym::INFINITY } else { Sym::NEG_INFINITY };
        }
        Sym::node(mk(Node::Div(a, b)))
    }
    pub fn rem_(self, o: Sym) -> Sym {
        fun("rem", &[self, o], ANY)
    }
    pub fn abs(self) -> Sym {
        match self.t {
            2 | 3 => Sym::INFINITY,
            4 => Sym::NAN,
            _ => {
                if self.query(NONNEG) {
                    self
                } else {
                    self.neg_()
                }
            }
        }
    }
    pub fn signum(self) -> Sym {
        if self.t == 4 {
            return self;
        }
        if self.is_sign_negative() {
            Sym::lit(-1.0)
        } else {
            Sym::lit(1.0)
        }
    }
    pub fn sqrt(self) -> Sym {
        match self.t {
            2 => self,
            3 | 4 => Sym::NAN,
            _ => sqrt_sym(self),
        }
    }
    pub fn recip(self) -> Sym {
        Sym::lit(1.0).div_(self)
    }
    pub fn powi(self, n: i32) -> Sym {
        if n < 0 {
            return self.powi(-n).recip();
        }
        let mut r = Sym::lit(1.0);
        for _ in 0..n {
            r = r.mul_(self);
        }
        r
    }
    pub fn powf(self, n: Sym) -> Sym {
        if let Some(q) = qconst(n) {
            if q.1 == 1 && q.0.abs() < 64 {
                return self.powi(q.0 as i32);
            }
            if q == Q(1, 2) {
                return self.sqrt();
            }
        }
        fun("powf", &[self, n], ANY)
    }
    pub fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    pub fn sin(self) -> Sym {
        if self.special() {
            return Sym::NAN;
        }
        if self.rat().is_zero() {
            return Sym::lit(0.0);
        }
        if let Some((s, _)) = of_angle(self) {
            return s;
        }
        fun("sin", &[self], ANY)
    }
    pub fn cos(self) -> Sym {
        if self.special() {
            return Sym::NAN;
        }
        if self.rat().is_zero() {
            return Sym::lit(1.0);
        }
        if let Some((_, c)) = of_angle(self) {
            return c;
        }
        let s = fun("sin", &[self], ANY);
        let c = fun("cos", &[self], ANY);
        // cos^2 = 1 - sin^2
        if let (Node::Var(sv), Node::Var(cv)) = (node(s.id()), node(c.id())) {
            with(|x| {
                if x.vars[cv as usize].rule.is_none() {
                    let p = Poly::one().sub(&Poly::mono(Mono::pow_var(sv, 2), Q::ONE));
                    x.vars[cv as usize].rule = Some((p, Poly::one()));
                }
            });
        }
        c
    }
    pub fn max(self, o: Sym) -> Sym {
        if self.t == 4 {
            return o;
        }
        if o.t == 4 {
            return self;
        }
        if self >= o {
            self
        } else {
            o
        }
    }
    pub fn min(self, o: Sym) -> Sym {
        if self.t == 4 {
            return o;
        }
        if o.t == 4 {
            return self;
        }
        if self <= o {
            self
        } else {
            o
        }
    }
    pub fn clamp(self, a: Sym, b: Sym) -> Sym {
        if self < a {
            a
        } else if self > b {
            b
        } else {
            self
        }
    }
    pub fn copysign(self, s: Sym) -> Sym {
        let a = self.abs();
        if s.is_sign_negative() {
            a.neg_()
        } else {
            a
        }
    }
    pub fn to_radians(self) -> Sym {
        self * Sym::pi_const() / Sym::lit(180.0)
    }
    pub fn to_degrees(self) -> Sym {
        self / Sym::pi_const() * Sym::lit(180.0)
    }
    pub fn is_sign_negative(self) -> bool {
        match self.t {
            0 => f64::from_bits(self.v).is_sign_negative(),
            2 => false,
            3 => true,
            4 => choose("sign bit of NaN"),
            _ => {
                let r = self.rat();
                if r.as_const().map(|q| q.is_zero()).unwrap_or(false) {
                    // A computed exact zero: either signed zero.
                    return zero_bit(self.v as u32);
                }
                sign_bit(&r, self.v as u32)
            }
        }
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn is_nan(self) -> bool {
        match self.t {
            4 => true,
            0 | 2 | 3 => false,
            _ => {
                if any_nan_var(self) {
                    return true;
                }
                if defined_fork(self, "is_nan") {
                    false
                } else {
                    // undefined: NaN or infinite
                    if let Node::Div(a, b) = node(self.v as u32) {
                        let a = Sym::node(a);
                        if known_zero(&rat(b)) && undef_conditions(a).0.is_empty() {
                            return a.query(ZERO);
                        }
                    }
                    choose("undefined value is NaN")
                }
            }
        }
    }
    pub fn is_infinite(self) -> bool {
        match self.t {
            2 | 3 => true,
            0 | 4 => false,
            _ => {
                if any_nan_var(self) {
                    return false;
                }
                if defined_fork(self, "is_infinite") {
                    false
                } else {
                    choose("undefined value is infinite")
                }
            }
        }
    }
    pub fn is_finite(self) -> bool {
        match self.t {
            0 => true,
            1 => !any_nan_var(self) && defined_fork(self, "is_finite"),
            _ => false,
        }
    }
    pub fn is_normal(self) -> bool {
        self.is_finite()
    }
    pub fn to_bits(self) -> SymBits {
        SymBits(self)
    }
    pub fn total_cmp(&self, o: &Sym) -> Ordering {
        self.partial_cmp(o).unwrap_or(Ordering::Equal)
    }
    pub fn cbrt(self) -> Sym { fun("cbrt", &[self], ANY) }
    pub fn exp(self) -> Sym { fun("exp", &[self], POS) }
    pub fn exp2(self) -> Sym { fun("exp2", &[self], POS) }
    pub fn exp_m1(self) -> Sym { fun("exp_m1", &[self], ANY) }
    pub fn ln(self) -> Sym { fun("ln", &[self], ANY) }
    pub fn ln_1p(self) -> Sym { fun("ln_1p", &[self], ANY) }
    pub fn log2(self) -> Sym { fun("log2", &[self], ANY) }
    pub fn log10(self) -> Sym { fun("log10", &[self], ANY) }
    pub fn log(self, b: Sym) -> Sym { self.ln() / b.ln() }
    pub fn tan(self) -> Sym { self.sin() / self.cos() }
    pub fn asin(self) -> Sym {
        let one = Sym::lit(1.0);
        if self.special() || one - self * self < Sym::lit(0.0) {
            return Sym::NAN;
        }
        angle(fun("asin", &[self], ANY), self, (one - self * self).sqrt())
    }
    pub fn acos(self) -> Sym {
        let one = Sym::lit(1.0);
        if self.special() || one - self * self < Sym::lit(0.0) {
            return Sym::NAN;
        }
        let a = fun("acos", &[self], NONNEG);
        let y = (one - self * self).sqrt();
        add_fact(&(Sym::lit(3.1415926535897936) - a).rat(), POS);
        add_fact(&(a - y).rat(), NONNEG);
        angle(a, y, self)
    }
    pub fn atan(self) -> Sym {
        if self.special() {
            return fun("atan", &[self], ANY);
        }
        angle(fun("atan", &[self], ANY), self, Sym::lit(1.0))
    }
    /// between -pi and pi; with the sign of the first argument, and at most a quarter turn where the second is not negative
    pub fn atan2(self, o: Sym) -> Sym {
        if self.special() || o.special() {
            return fun("atan2", &[self, o], ANY);
        }
        let (y, x) = (sign_set(&self.rat()), sign_set(&o.rat()));
        if y == ZERO && x & !NONNEG & ANY == 0 {
            return Sym::lit(0.0);
        }
        let sign = if y & !POS & ANY == 0 { POS } else if y & !NONNEG & ANY == 0 { NONNEG } else { ANY };
        let a = fun("atan2", &[self, o], sign);
        if x & !NONNEG & ANY == 0 {
            let quarter = Sym::lit(1.5707963267948968);
            add_fact(&(quarter - a).rat(), POS);
            add_fact(&(quarter + a).rat(), POS);
        }
        // an angle is not less than its sine
        if y & !NONNEG & ANY == 0 && (self * self + o * o - Sym::lit(1.0)).rat().is_zero() {
            add_fact(&(a - self).rat(), NONNEG);
        }
        angle(a, self, o)
    }
    pub fn sinh(self) -> Sym { fun("sinh", &[self], ANY) }
    pub fn cosh(self) -> Sym { fun("cosh", &[self], POS) }
    pub fn tanh(self) -> Sym { fun("tanh", &[self], ANY) }
    pub fn asinh(self) -> Sym { fun("asinh", &[self], ANY) }
    pub fn acosh(self) -> Sym { fun("acosh", &[self], ANY) }
    pub fn atanh(self) -> Sym { fun("atanh", &[self], ANY) }
    pub fn floor(self) -> Sym { self.rounded("floor", f64::floor) }
    pub fn ceil(self) -> Sym { self.rounded("ceil", f64::ceil) }
    pub fn round(self) -> Sym { self.rounded("round", f64::round) }
    pub fn trunc(self) -> Sym { self.rounded("trunc", f64::trunc) }
    /// the value of a number that is a rational constant
    fn known(self) -> Option<f64> {
        match self.t {
            0 => Some(f64::from_bits(self.v)),
            1 => self.rat().as_const().map(|q| q.to_f64()),
            _ => None,
        }
    }
    fn rounded(self, name: &str, f: fn(f64) -> f64) -> Sym {
        match self.known() {
            Some(x) => Sym::lit(f(x)),
            None => fun(name, &[self], ANY),
        }
    }
    pub fn constant(self, what: &str) -> f64 {
        self.known().unwrap_or_else(|| vc::limit(&format!("{} of a symbolic real", what)))
    }
    pub fn rem_euclid(self, o: Sym) -> Sym {
        match (self.known(), o.known()) {
            (Some(a), Some(b)) => Sym::lit(a.rem_euclid(b)),
            _ => fun("rem_euclid", &[self, o], vc::NONNEG),
        }
    }
    pub fn fract(self) -> Sym { fun("fract", &[self], ANY) }
}
fn known_zero(r: &Rat) -> bool {
    if r.num.is_zero() {
        return true;
    }
    let (_, p) = r.num.primitive();
    with(|c| c.facts.get(&vec![p]).copied() == Some(ZERO))
        || with(|c| {
            r.num.len() == 1 && {
                let (m, _) = r.num.lead();
                let z = m.iter().any(|(v, _)| c.facts.get(&vec![Poly::var(v)]).copied() == Some(ZERO));
                z
            }
        })
}
/// The sign bit of a zero: either, but the same for the same expression.
fn zero_bit(id: u32) -> bool {
    if let Some(b) = with(|c| c.zsign.get(&id).copied()) {
        return b;
    }
    let known = |i: u32| match known_sign(&rat(i)).0 {
        POS => Some(false),
        NEG => Some(true),
        _ => None,
    };
    match node(id) {
        Node::Neg(a) => return !zero_bit(a),
        Node::Div(a, b) if known(b).is_some() => return zero_bit(a) ^ known(b).unwrap(),
        Node::Mul(a, b) if known(b).is_some() && known_zero(&rat(a)) => return zero_bit(a) ^ known(b).unwrap(),
        Node::Mul(a, b) if known(a).is_some() && known_zero(&rat(b)) => return zero_bit(b) ^ known(a).unwrap(),
        _ => {}
    }
    let b = choose("sign bit of zero");
    with(|c| c.zsign.insert(id, b));
    b
}
fn sign_bit(r: &Rat, id: u32) -> bool {
    // true: x <= 0, false: x >= 0; consistent on zero through the fact table plus a memo
    let (c, p) = r.num.primitive();
    let _ = (c, &p);
    if query_rat(r, NEG, "") {
        return true;
    }
    if query_rat(r, POS, "") {
        return false;
    }
    zero_bit(id)
}
/// Ordering key of f64::to_bits on values of one sign.
#[derive(Clone, Copy, Debug)]
pub struct SymBits(pub Sym);
impl PartialEq for SymBits {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for SymBits {}
impl PartialOrd for SymBits {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SymBits {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.0.is_sign_negative(), o.0.is_sign_negative()) {
            (false, false) => self.0.partial_cmp(&o.0).unwrap_or(Ordering::Less),
            (true, true) => o.0.partial_cmp(&self.0).unwrap_or(Ordering::Less),
            (true, false) => Ordering::Greater,
            (false, true) => Ordering::Less,
        }
    }
}
/// `float_ord::FloatOrd` on Sym.
#[derive(Clone, Copy, Debug)]
pub struct FloatOrd(pub Sym);
impl PartialEq for FloatOrd {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for FloatOrd {}
impl PartialOrd for FloatOrd {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for FloatOrd {
    fn cmp(&self, o: &Self) -> Ordering {
        if let (4, _) | (_, 4) = (self.0.t, o.0.t) {
            limit("ordering of a NaN")
        }
        self.0.partial_cmp(&o.0).unwrap()
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        if self.t == 4 || o.t == 4 {
            return false;
        }
        if self.special() || o.special() {
            return self.t == o.t;
        }
        if let Some((a, b)) = Sym::opq(*self, *o) {
            return a == b;
        }
        self.sub_(*o).query(ZERO)
    }
}
fn cmpmask(a: &Sym, b: &Sym, mask: u8) -> bool {
    if a.t == 4 || b.t == 4 {
        return false;
    }
    if a.t == 2 || b.t == 3 {
        if a.t == b.t {
            return mask & ZERO != 0;
        }
        return mask & POS != 0;
    }
    if a.t == 3 || b.t == 2 {
        if a.t == b.t {
            return mask & ZERO != 0;
        }
        return mask & NEG != 0;
    }
    a.sub_(*b).query(mask)
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.t == 4 || o.t == 4 {
            return None;
        }
        Some(if cmpmask(self, o, NEG) {
            Ordering::Less
        } else if cmpmask(self, o, POS) {
            Ordering::Greater
        } else {
            Ordering::Equal
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        cmpmask(self, o, NEG)
    }
    fn le(&self, o: &Sym) -> bool {
        cmpmask(self, o, NONPOS)
    }
    fn gt(&self, o: &Sym) -> bool {
        cmpmask(self, o, POS)
    }
    fn ge(&self, o: &Sym) -> bool {
        cmpmask(self, o, NONNEG)
    }
}
/// Uninterpreted function application (equal arguments give equal results).
/// remember the sine and cosine of an angle, up to a common positive factor
fn angle(a: Sym, y: Sym, x: Sym) -> Sym {
    if let Some((1, id)) = Some(a.raw()) {
        with(|c| {
            if !c.angles.iter().any(|g| g.0 == id as u32) {
                c.angles.push((id as u32, y, x))
            }
        });
    }
    a
}
/// sine and cosine of a small multiple of such an angle
fn of_angle(t: Sym) -> Option<(Sym, Sym)> {
    let known = with(|c| c.angles.clone());
    for (id, y, x) in known {
        let a = Sym::node(id);
        for k in [1.0, -1.0, 2.0, -2.0] {
            if (t - a * Sym::lit(k)).rat().is_zero() {
                let n = y * y + x * x;
                // the angle of the zero vector is zero
                if n == Sym::lit(0.0) {
                    return Some((Sym::lit(0.0), Sym::lit(1.0)));
                }
                let (s, c) = if k * k == 1.0 {
                    let h = n.sqrt();
                    (y / h, x / h)
                } else {
                    (Sym::lit(2.0) * x * y / n, (x * x - y * y) / n)
                };
                return Some((if k < 0.0 { -s } else { s }, c));
            }
        }
    }
    None
}
pub fn fun(name: &str, args: &[Sym], sign: u8) -> Sym {
    if args.iter().any(|a| a.special()) {
        return Sym::NAN;
    }
    let rs: Vec<Rc<Rat>> = args.iter().map(|a| a.rat()).collect();
    let found = with(|c| c.funs.iter().filter(|f| f.0 == name).map(|f| (f.1.clone(), f.2)).collect::<Vec<_>>());
    for (ra, id) in found {
        if ra.iter().zip(rs.iter()).all(|(a, b)| req(a, b)) {
            return Sym::node(id);
        }
    }
    let v = new_var(&format!("{}(..)", name), sign);
    let s = sym_var(v);
    with(|c| c.funs.push((name.to_string(), rs, s.v as u32)));
    s
}
fn sqrt_sym(x: Sym) -> Sym {
    let r = x.rat();
    if r.num.is_zero() {
        return Sym::lit(0.0);
    }
    if let Some(q) = r.as_const() {
        if q.sign() < 0 {
            return Sym::NAN;
        }
        if let Some(s) = q.sqrt() {
            return Sym::q(s);
        }
    }
    // pull square factors: r = num / prod den^e
    let mut outer = Sym::lit(1.0);
    let mut inner_num = r.num.clone();
    let mut inner_den: Vec<(Poly, u32)> = vec![];
    let (c, p) = inner_num.primitive();
    let mut inner_c = c;
    inner_num = p;
    let mc = inner_num.mono_content();
    let mut keep = Mono::ONE;
    for (v, e) in mc.iter() {
        if e >= 2 {
            let s = sym_var(v).abs();
            outer = outer * s.powi((e / 2) as i32);
        }
        if e % 2 == 1 {
            keep = keep.mul(&Mono::var(v));
        }
    }
    if !mc.is_one() {
        inner_num = inner_num.div_exact(&Poly::mono(mc, Q::ONE)).unwrap().mul(&Poly::mono(keep, Q::ONE));
    }
    for (p, e) in &r.den {
        if e / 2 > 0 {
            let s = poly_sym(p).abs();
            outer = outer / s.powi((e / 2) as i32);
        }
        if e % 2 == 1 {
            inner_den.push((p.clone(), 1));
        }
    }
    // constant square part
    if let Some(s) = Q(inner_c.0.abs(), inner_c.1).sqrt() {
        outer = outer * Sym::q(s);
        inner_c = Q(inner_c.0.signum(), 1);
    }
    // sqrt(n/p) = sqrt(n)/sqrt(p) where sqrt(p) already exists on this path (so p >= 0; p is a divisor)
    if inner_num.len() <= 5000 {
        let ex = with(|c| c.sqrts.clone());
        inner_den.retain(|(p, _)| {
            for (a, v) in ex.iter() {
                if a.den.is_empty() && a.num == *p {
                    outer = outer / sym_var(*v);
                    return false;
                }
            }
            true
        });
    }
    let inner = norm_rat(inner_num.scale(inner_c), inner_den);
    if let Some(q) = inner.as_const() {
        if q.sign() < 0 {
            return Sym::NAN;
        }
        if let Some(s) = q.sqrt() {
            return outer * Sym::q(s);
        }
    }
    // perfect square
    let full = inner.den.iter().fold(inner.num.clone(), |a, (p, _)| a.mul(p));
    if full.len() <= 2000 {
        if let Some(s) = full.sqrt() {
            let d = inner.den.iter().fold(Poly::one(), |a, (p, _)| a.mul(p));
            let v = poly_sym(&s).abs();
            return outer * v / poly_sym(&d).abs();
        }
    }
    let ex = with(|c| c.sqrts.clone());
    for (a, v) in ex.iter() {
        if req(a, &inner) {
            return outer * sym_var(*v);
        }
    }
    let v = new_var("sqrt", NONNEG);
    let mut n = inner.num.clone();
    let mut d = Poly::one();
    for (p, e) in &inner.den {
        d = d.mul(&p.pow(*e));
    }
    let (dc, dp) = d.primitive();
    d = dp;
    n = n.scale(dc.inv());
    let (vn, vd) = (n, d);
    with(|c| {
        c.vars[v as usize].rule = Some((vn, vd));
        c.sqrts.push((Rc::new(inner.clone()), v));
    });
    // positive argument gives a positive root
    let nz = {
        let s = Sym::node(mk(Node::Var(v)));
        let _ = s;
        sign_known(&inner)
    };
    if nz == POS {
        with(|c| c.vars[v as usize].sign = POS);
    }
    outer * sym_var(v)
}
fn sign_known(r: &Rat) -> u8 {
    vc::sign_set(r)
}
/// A polynomial back as a Sym (its normal form is itself).
pub fn poly_sym(p: &Poly) -> Sym {
    if let Some(q) = p.as_const() {
        return Sym::q(q);
    }
    if p.len() == 1 && p.lead().1 == Q::ONE {
        let mut it = p.lead().0;
        let vs: Vec<_> = it.iter().collect();
        if vs.len() == 1 && vs[0].1 == 1 {
            return sym_var(vs[0].0);
        }
        let _ = &mut it;
    }
    // build a sum of products
    let mut s = Sym::lit(0.0);
    for (m, q) in p.0.iter() {
        let mut t = Sym::q(*q);
        for (v, e) in m.iter() {
            t = t * sym_var(v).powi(e as i32);
        }
        s = s + t;
    }
    s
}
/// Collect all divisors and sqrt arguments below a node.
fn undef_conditions(x: Sym) -> (Vec<u32>, Vec<VarId>) {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![x.id()];
    let (mut divs, mut vars) = (vec![], vec![]);
    while let Some(i) = st.pop() {
        if !seen.insert(i) {
            continue;
        }
        match node(i) {
            Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => {
                st.push(a);
                st.push(b);
            }
            Node::Div(a, b) => {
                divs.push(b);
                st.push(a);
                st.push(b);
            }
            Node::Neg(a) => st.push(a),
            Node::Var(v) => vars.push(v),
            _ => {}
        }
    }
    divs.sort();
    vars.sort();
    (divs, vars)
}
/// Variables flagged as possibly NaN: fork on each.
fn any_nan_var(x: Sym) -> bool {
    let (_, vars) = undef_conditions(x);
    for v in vars {
        if with(|c| c.vars[v as usize].maybe_nan) {
            let st = with(|c| c.nan_state.get(&v).copied());
            let b = match st {
                Some(b) => b,
                None => {
                    let b = choose(&format!("{} is NaN", var_name(v)));
                    with(|c| c.nan_state.insert(v, b));
                    b
                }
            };
            if b {
                return true;
            }
        }
    }
    false
}
/// Fork on "every divisor below x is nonzero and every square root argument is nonnegative".
fn defined_fork(x: Sym, what: &str) -> bool {
    let (divs, vars) = undef_conditions(x);
    for d in divs {
        let r = rat(d);
        if query_rat(&r, ZERO, what) {
            return false;
        }
    }
    for v in vars {
        let isq = with(|c| c.sqrts.iter().find(|s| s.1 == v).map(|s| s.0.clone()));
        if let Some(a) = isq {
            if !query_rat(&a, NONNEG, what) {
                return false;
            }
            // the divisors inside the root argument
            for (p, _) in &a.den {
                if query_rat(&Rat::poly(p.clone()), ZERO, what) {
                    return false;
                }
            }
        }
    }
    true
}
/// Divisors (as Sym) whose vanishing would make x undefined.
pub fn divisors(x: Sym) -> Vec<Sym> {
    if x.special() {
        return vec![];
    }
    undef_conditions(x).0.into_iter().map(Sym::node).collect()
}
pub fn sqrt_args(x: Sym) -> Vec<Rc<Rat>> {
    if x.special() {
        return vec![];
    }
    let vs = undef_conditions(x).1;
    vs.into_iter().filter_map(|v| with(|c| c.sqrts.iter().find(|s| s.1 == v).map(|s| s.0.clone()))).collect()
}
pub fn has_undecided_nan(x: Sym) -> bool {
    if x.special() {
        return true;
    }
    let vs = undef_conditions(x).1;
    vs.into_iter().any(|v| with(|c| c.vars[v as usize].maybe_nan && c.nan_state.get(&v).copied() != Some(false)))
}

// scalar * nalgebra types (for f64 these are macro impls in nalgebra)
use nalgebra::{allocator::Allocator, storage::Storage, DefaultAllocator, Dim, Matrix, OMatrix, Point};
impl<R: Dim, C: Dim, S: Storage<Sym, R, C>> std::ops::Mul<Matrix<Sym, R, C, S>> for Sym
where
    DefaultAllocator: Allocator<Sym, R, C>,
{
    type Output = OMatrix<Sym, R, C>;
    fn mul(self, r: Matrix<Sym, R, C, S>) -> Self::Output {
        r * self
    }
}
impl<'a, R: Dim, C: Dim, S: Storage<Sym, R, C>> std::ops::Mul<&'a Matrix<Sym, R, C, S>> for Sym
where
    DefaultAllocator: Allocator<Sym, R, C>,
{
    type Output = OMatrix<Sym, R, C>;
    fn mul(self, r: &'a Matrix<Sym, R, C, S>) -> Self::Output {
        r * self
    }
}
impl<const D: usize> std::ops::Mul<Point<Sym, D>> for Sym {
    type Output = Point<Sym, D>;
    fn mul(self, r: Point<Sym, D>) -> Self::Output {
        r * self
    }
}
/// `expr as f64` in the source.
pub trait CastSym {
    fn cast_sym(self) -> Sym;
}
macro_rules! casts { ($($t:ty),*) => { $(impl CastSym for $t { fn cast_sym(self) -> Sym { cast_int(self as f64) } })* } }
casts!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
impl CastSym for Sym {
    fn cast_sym(self) -> Sym {
        self
    }
}
pub fn cast<T: CastSym>(x: T) -> Sym {
    x.cast_sym()
}
pub mod consts {
    use crate::Sym;
    macro_rules! k { ($($n:ident),*) => { $(pub const $n: Sym = Sym::lit(std::f64::consts::$n);)* } }
    k!(PI, TAU, E, SQRT_2, FRAC_1_SQRT_2, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, FRAC_1_PI, FRAC_2_PI, LN_2, LN_10);
}
/// `x as usize` and the like: of integers, and of reals that are constants on the path.
pub trait CastInt<T> {
    fn cast_int(self) -> T;
}
macro_rules! int_casts { ($f:ty => $($t:ty),*) => { $(impl CastInt<$t> for $f { fn cast_int(self) -> $t { self as $t } })* } }
macro_rules! real_casts { ($($t:ty),*) => { $(impl CastInt<$t> for Sym { fn cast_int(self) -> $t { self.constant("integer part") as $t } })* } }
macro_rules! all_int_casts { ($($f:ty),*) => { $(int_casts!($f => u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);)* } }
all_int_casts!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
real_casts!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
pub fn cast_to<T>(x: impl CastInt<T>) -> T {
    x.cast_int()
}
impl CastSym for bool {
    fn cast_sym(self) -> Sym {
        Sym::lit(self as u8 as f64)
    }
}
/// A harness may make one distinguished integer stand for a symbolic count.
fn cast_int(x: f64) -> Sym {
    if let Some(s) = api::symbolic_count(x) {
        return s;
    }
    Sym::lit(x)
}
impl From<i32> for Sym {
    fn from(x: i32) -> Sym {
        Sym::lit(x as f64)
    }
}
impl From<u32> for Sym {
    fn from(x: u32) -> Sym {
        Sym::lit(x as f64)
    }
}
impl From<u8> for Sym {
    fn from(x: u8) -> Sym {
        Sym::lit(x as f64)
    }
}
impl From<u16> for Sym {
    fn from(x: u16) -> Sym {
        Sym::lit(x as f64)
    }
}
impl From<f64> for Sym {
    fn from(x: f64) -> Sym {
        Sym::lit(x)
    }
}
impl From<f32> for Sym {
    fn from(x: f32) -> Sym {
        Sym::lit(x as f64)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        Sym::lit(0.0)
    }
}

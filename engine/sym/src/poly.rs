//! Exact arithmetic: rationals, sparse multivariate polynomials, rational functions with a
//! factored denominator, reduction modulo quadratic rules.
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Q(pub i128, pub i128);

pub fn overflow() -> ! {
    std::panic::panic_any(crate::vc::EngineLimit("coefficient overflow".into()))
}
fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Q {
    pub const ZERO: Q = Q(0, 1);
    pub const ONE: Q = Q(1, 1);
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        if g == 0 {
            return Q(0, 1);
        }
        Q(s * n / g, s * d / g)
    }
    pub fn int(n: i128) -> Q {
        Q(n, 1)
    }
    pub fn is_zero(self) -> bool {
        self.0 == 0
    }
    pub fn add(self, o: Q) -> Q {
        if self.1 == 1 && o.1 == 1 {
            return Q(self.0.checked_add(o.0).unwrap_or_else(|| overflow()), 1);
        }
        let g = gcd(self.1, o.1);
        let a = self.0.checked_mul(o.1 / g).unwrap_or_else(|| overflow());
        let b = o.0.checked_mul(self.1 / g).unwrap_or_else(|| overflow());
        let n = a.checked_add(b).unwrap_or_else(|| overflow());
        let d = self.1.checked_mul(o.1 / g).unwrap_or_else(|| overflow());
        Q::new(n, d)
    }
    pub fn neg(self) -> Q {
        Q(-self.0, self.1)
    }
    pub fn mul(self, o: Q) -> Q {
        if self.1 == 1 && o.1 == 1 {
            return Q(self.0.checked_mul(o.0).unwrap_or_else(|| overflow()), 1);
        }
        let g1 = gcd(self.0, o.1).max(1);
        let g2 = gcd(o.0, self.1).max(1);
        let n = (self.0 / g1).checked_mul(o.0 / g2).unwrap_or_else(|| overflow());
        let d = (self.1 / g2).checked_mul(o.1 / g1).unwrap_or_else(|| overflow());
        Q::new(n, d)
    }
    pub fn inv(self) -> Q {
        if self.0 < 0 {
            Q(-self.1, -self.0)
        } else {
            Q(self.1, self.0)
        }
    }
    pub fn sign(self) -> i32 {
        self.0.signum() as i32
    }
    pub fn cmp(self, o: Q) -> Ordering {
        let d = self.add(o.neg());
        d.0.cmp(&0)
    }
    pub fn sqrt(self) -> Option<Q> {
        fn isq(n: i128) -> Option<i128> {
            if n < 0 {
                return None;
            }
            let mut r = (n as f64).sqrt() as i128;
            while r * r > n {
                r -= 1;
            }
            while (r + 1) * (r + 1) <= n {
                r += 1;
            }
            if r * r == n {
                Some(r)
            } else {
                None
            }
        }
        Some(Q(isq(self.0)?, isq(self.1)?))
    }
    /// The decimal reading of a literal: the shortest decimal that prints as this f64.
    pub fn from_f64(x: f64) -> Option<Q> {
        if !x.is_finite() {
            return None;
        }
        let s = format!("{:e}", x);
        let (m, e) = s.split_once('e').unwrap();
        let e: i32 = e.parse().unwrap();
        let neg = m.starts_with('-');
        let m = m.trim_start_matches('-');
        let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
        let digits: String = format!("{}{}", ip, fp);
        if digits.len() > 25 {
            return None;
        }
        let mut n: i128 = digits.parse().ok()?;
        if neg {
            n = -n;
        }
        let exp = e - fp.len() as i32;
        if exp >= 0 {
            if exp > 30 {
                return None;
            }
            Some(Q(n.checked_mul(10i128.checked_pow(exp as u32)?)?, 1))
        } else {
            if -exp > 37 {
                return None;
            }
            Some(Q::new(n, 10i128.checked_pow((-exp) as u32)?))
        }
    }
    pub fn to_f64(self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.1 == 1 {
            write!(f, "{}", self.0)
        } else {
            write!(f, "{}/{}", self.0, self.1)
        }
    }
}

pub type VarId = u32;
const MW: usize = 22;
/// A monomial: sorted (descending variable) list of var<<8|exp, zero padded.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Mono {
    n: u8,
    e: [u32; MW],
}
impl Mono {
    pub const ONE: Mono = Mono { n: 0, e: [0; MW] };
    pub fn var(v: VarId) -> Mono {
        let mut m = Mono::ONE;
        m.e[0] = (v << 8) | 1;
        m.n = 1;
        m
    }
    pub fn is_one(&self) -> bool {
        self.n == 0
    }
    pub fn iter(&self) -> impl Iterator<Item = (VarId, u32)> + '_ {
        self.e[..self.n as usize].iter().map(|x| (x >> 8, x & 255))
    }
    pub fn exp(&self, v: VarId) -> u32 {
        self.iter().find(|&(w, _)| w == v).map(|x| x.1).unwrap_or(0)
    }
    fn push(&mut self, x: u32) {
        if self.n as usize >= MW {
            std::panic::panic_any(crate::vc::EngineLimit("monomial too wide".into()));
        }
        self.e[self.n as usize] = x;
        self.n += 1;
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        let (mut i, mut j) = (0usize, 0usize);
        let mut r = Mono::ONE;
        let (a, b) = (&self.e[..self.n as usize], &o.e[..o.n as usize]);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && (a[i] >> 8) > (b[j] >> 8)) {
                r.push(a[i]);
                i += 1;
            } else if i >= a.len() || (b[j] >> 8) > (a[i] >> 8) {
                r.push(b[j]);
                j += 1;
            } else {
                if (a[i] & 255) + (b[j] & 255) > 255 {
                    overflow();
                }
                r.push(a[i] + (b[j] & 255));
                i += 1;
                j += 1;
            }
        }
        r
    }
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        let mut r = Mono::ONE;
        let (mut i, mut j) = (0usize, 0usize);
        let (a, b) = (&self.e[..self.n as usize], &o.e[..o.n as usize]);
        while i < a.len() {
            if j < b.len() && (b[j] >> 8) > (a[i] >> 8) {
                return None;
            }
            if j < b.len() && (b[j] >> 8) == (a[i] >> 8) {
                let (x, y) = (a[i] & 255, b[j] & 255);
                if y > x {
                    return None;
                }
                if x > y {
                    r.push(a[i] - y);
                }
                j += 1;
            } else {
                r.push(a[i]);
            }
            i += 1;
        }
        if j < b.len() {
            return None;
        }
        Some(r)
    }
    pub fn without(&self, v: VarId) -> Mono {
        let mut r = Mono::ONE;
        for &x in &self.e[..self.n as usize] {
            if x >> 8 != v {
                r.push(x);
            }
        }
        r
    }
    pub fn pow_var(v: VarId, e: u32) -> Mono {
        if e == 0 {
            return Mono::ONE;
        }
        let mut m = Mono::ONE;
        m.e[0] = (v << 8) | e;
        m.n = 1;
        m
    }
    pub fn sqrt(&self) -> Option<Mono> {
        let mut r = Mono::ONE;
        for (v, e) in self.iter() {
            if e % 2 != 0 {
                return None;
            }
            r.push((v << 8) | (e / 2));
        }
        Some(r)
    }
    /// Lexicographic order with higher variable ids more significant.
    pub fn cmp(&self, o: &Mono) -> Ordering {
        let (a, b) = (&self.e[..self.n as usize], &o.e[..o.n as usize]);
        for i in 0..a.len().max(b.len()) {
            if i >= a.len() {
                return Ordering::Less;
            }
            if i >= b.len() {
                return Ordering::Greater;
            }
            if a[i] != b[i] {
                // larger var first; same var: larger exponent first
                return a[i].cmp(&b[i]);
            }
        }
        Ordering::Equal
    }
}

/// Sorted descending by `Mono::cmp`, no zero coefficients.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly(pub Rc<Vec<(Mono, Q)>>);

#[derive(Clone, Copy, Default)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.write_u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let mut v = 0u64;
        for &x in it.remainder() {
            v = (v << 8) | x as u64;
        }
        self.write_u64(v);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64);
    }
}
pub type BH = std::hash::BuildHasherDefault<FxH>;
#[derive(Clone, Copy, PartialEq, Eq)]
struct MKey(Mono);
impl std::hash::Hash for MKey {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        for &x in &self.0.e[..self.0.n as usize] {
            h.write_u32(x);
        }
    }
}
type Acc = HashMap<MKey, Q, BH>;
fn acc_add(a: &mut Acc, m: Mono, q: Q) {
    if q.is_zero() {
        return;
    }
    match a.entry(MKey(m)) {
        std::collections::hash_map::Entry::Occupied(mut e) => {
            let s = e.get().add(q);
            if s.is_zero() {
                e.remove();
            } else {
                *e.get_mut() = s;
            }
        }
        std::collections::hash_map::Entry::Vacant(e) => {
            e.insert(q);
        }
    }
}
fn acc_poly(a: Acc) -> Poly {
    let mut v: Vec<(Mono, Q)> = a.into_iter().map(|(k, q)| (k.0, q)).collect();
    v.sort_by(|x, y| y.0.cmp(&x.0));
    Poly(Rc::new(v))
}
pub static mut MAXTERMS: usize = 400_000;
impl Poly {
    pub fn zero() -> Poly {
        Poly(Rc::new(vec![]))
    }
    pub fn cst(q: Q) -> Poly {
        if q.is_zero() {
            Poly::zero()
        } else {
            Poly(Rc::new(vec![(Mono::ONE, q)]))
        }
    }
    pub fn one() -> Poly {
        Poly::cst(Q::ONE)
    }
    pub fn var(v: VarId) -> Poly {
        Poly(Rc::new(vec![(Mono::var(v), Q::ONE)]))
    }
    pub fn mono(m: Mono, q: Q) -> Poly {
        if q.is_zero() {
            return Poly::zero();
        }
        Poly(Rc::new(vec![(m, q)]))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.0.len() {
            0 => Some(Q::ZERO),
            1 if self.0[0].0.is_one() => Some(self.0[0].1),
            _ => None,
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn lead(&self) -> (Mono, Q) {
        self.0[0]
    }
    pub fn neg(&self) -> Poly {
        Poly(Rc::new(self.0.iter().map(|(m, q)| (*m, q.neg())).collect()))
    }
    pub fn scale(&self, s: Q) -> Poly {
        if s.is_zero() {
            return Poly::zero();
        }
        if s == Q::ONE {
            return self.clone();
        }
        Poly(Rc::new(self.0.iter().map(|(m, q)| (*m, q.mul(s))).collect()))
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.cmp(&b[j].0) {
                Ordering::Greater => {
                    r.push(a[i]);
                    i += 1;
                }
                Ordering::Less => {
                    r.push(b[j]);
                    j += 1;
                }
                Ordering::Equal => {
                    let s = a[i].1.add(b[j].1);
                    if !s.is_zero() {
                        r.push((a[i].0, s));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Poly(Rc::new(r))
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if let Some(c) = self.as_const() {
            return o.scale(c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(c);
        }
        if self.len() == 1 || o.len() == 1 {
            let (s, l) = if self.len() == 1 { (self, o) } else { (o, self) };
            let (m, q) = s.0[0];
            // multiplication by a monomial preserves a lex order
            return Poly(Rc::new(l.0.iter().map(|(n, r)| (n.mul(&m), r.mul(q))).collect()));
        }
        crate::vc::tick((self.len() * o.len()) as u64);
        let mut acc: Acc = HashMap::with_capacity_and_hasher(self.len() * 2 + o.len() * 2, BH::default());
        for (m, q) in self.0.iter() {
            for (n, r) in o.0.iter() {
                acc_add(&mut acc, m.mul(n), q.mul(*r));
            }
            if acc.len() > unsafe { MAXTERMS } {
                std::panic::panic_any(crate::vc::EngineLimit("polynomial too large".into()));
            }
        }
        acc_poly(acc)
    }
    pub fn pow(&self, n: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    /// Exact division by `d` (as polynomials), if it divides.
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if let Some(c) = d.as_const() {
            if c.is_zero() {
                return None;
            }
            return Some(self.scale(c.inv()));
        }
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (dm, dq) = d.lead();
        if d.len() == 1 {
            let mut r = Vec::with_capacity(self.len());
            for (m, q) in self.0.iter() {
                r.push((m.div(&dm)?, q.mul(dq.inv())));
            }
            return Some(Poly(Rc::new(r)));
        }
        // quick rejections
        let (tm, _) = self.0[self.len() - 1];
        let (dtm, _) = d.0[d.len() - 1];
        tm.div(&dtm)?;
        self.lead().0.div(&dm)?;
        let mut rem: BTreeMap<MonoOrd, Q> = self.0.iter().map(|(m, q)| (MonoOrd(*m), *q)).collect();
        let mut quo: Vec<(Mono, Q)> = vec![];
        let dqi = dq.inv();
        while let Some((m, q)) = rem.iter().next_back().map(|(m, q)| (m.0, *q)) {
            let qm = m.div(&dm)?;
            let qq = q.mul(dqi);
            crate::vc::tick(d.len() as u64);
            for (n, r) in d.0.iter() {
                let k = MonoOrd(n.mul(&qm));
                let v = r.mul(qq).neg();
                match rem.entry(k) {
                    std::collections::btree_map::Entry::Occupied(mut e) => {
                        let s = e.get().add(v);
                        if s.is_zero() {
                            e.remove();
                        } else {
                            *e.get_mut() = s;
                        }
                    }
                    std::collections::btree_map::Entry::Vacant(e) => {
                        e.insert(v);
                    }
                }
            }
            quo.push((qm, qq));
            if quo.len() > self.len() * 4 + 1000 {
                return None;
            }
        }
        quo.sort_by(|x, y| y.0.cmp(&x.0));
        Some(Poly(Rc::new(quo)))
    }
    /// Exact square root as a polynomial.
    pub fn sqrt(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (lm, lq) = self.lead();
        let rm = lm.sqrt()?;
        let rq = lq.sqrt()?;
        let (tm, tq) = self.0[self.len() - 1];
        tm.sqrt()?;
        tq.sqrt()?;
        let mut root = Poly::mono(rm, rq);
        let two_lead = (rm, rq.mul(Q::int(2)));
        let mut rem = self.sub(&root.mul(&root));
        let mut n = 0;
        while !rem.is_zero() {
            let (m, q) = rem.lead();
            let qm = m.div(&two_lead.0)?;
            let t = Poly::mono(qm, q.mul(two_lead.1.inv()));
            // (root + t)^2 = root^2 + 2 root t + t^2
            rem = rem.sub(&root.mul(&t).scale(Q::int(2))).sub(&t.mul(&t));
            root = root.add(&t);
            n += 1;
            if n > self.len() + 5 {
                return None;
            }
        }
        Some(root)
    }
    /// gcd of all monomials.
    pub fn mono_content(&self) -> Mono {
        let mut it = self.0.iter();
        let mut g: Vec<(VarId, u32)> = match it.next() {
            None => return Mono::ONE,
            Some((m, _)) => m.iter().collect(),
        };
        for (m, _) in it {
            g.retain_mut(|(v, e)| {
                *e = (*e).min(m.exp(*v));
                *e > 0
            });
            if g.is_empty() {
                break;
            }
        }
        let mut r = Mono::ONE;
        for (v, e) in g {
            r.push((v << 8) | e);
        }
        r
    }
    /// (c, p) with self = c * p, p having integer coprime coefficients and positive leading one.
    pub fn primitive(&self) -> (Q, Poly) {
        if self.is_zero() {
            return (Q::ONE, self.clone());
        }
        let mut g: i128 = 0;
        let mut l: i128 = 1;
        for (_, q) in self.0.iter() {
            g = gcd(g, q.0);
            l = (l / gcd(l, q.1)).checked_mul(q.1).unwrap_or_else(|| overflow());
        }
        let mut c = Q::new(g, l);
        if self.lead().1.sign() < 0 {
            c = c.neg();
        }
        (c, self.scale(c.inv()))
    }
    pub fn vars(&self) -> std::collections::BTreeSet<VarId> {
        let mut s = std::collections::BTreeSet::new();
        for (m, _) in self.0.iter() {
            for (v, _) in m.iter() {
                s.insert(v);
            }
        }
        s
    }
    pub fn deg_in(&self, v: VarId) -> u32 {
        self.0.iter().map(|(m, _)| m.exp(v)).max().unwrap_or(0)
    }
    /// Substitute v^2 -> n/d, pseudo: returns (p', k) with  d^k * self == p' (mod rule), deg_v(p') <= 1.
    pub fn reduce_sq(&self, v: VarId, n: &Poly, d: &Poly) -> (Poly, u32) {
        let k = self.deg_in(v) / 2;
        if k == 0 {
            return (self.clone(), 0);
        }
        // group by power j=exp/2
        let mut groups: Vec<Vec<(Mono, Q)>> = vec![vec![]; k as usize + 1];
        for (m, q) in self.0.iter() {
            let e = m.exp(v);
            let j = e / 2;
            let m2 = m.without(v).mul(&Mono::pow_var(v, e % 2));
            groups[j as usize].push((m2, *q));
        }
        let mut r = Poly::zero();
        let dconst = d.as_const();
        for (j, g) in groups.into_iter().enumerate() {
            if g.is_empty() {
                continue;
            }
            let mut acc: Acc = HashMap::default();
            for (m, q) in g {
                acc_add(&mut acc, m, q);
            }
            let mut p = acc_poly(acc);
            p = p.mul(&n.pow(j as u32));
            if let Some(c) = dconst {
                let mut s = Q::ONE;
                for _ in 0..j {
                    s = s.mul(c.inv());
                }
                p = p.scale(s);
            } else {
                p = p.mul(&d.pow(k - j as u32));
            }
            r = r.add(&p);
        }
        (r, if dconst.is_some() { 0 } else { k })
    }
    pub fn eval(&self, f: &dyn Fn(VarId) -> f64) -> f64 {
        self.0
            .iter()
            .map(|(m, q)| q.to_f64() * m.iter().map(|(v, e)| f(v).powi(e as i32)).product::<f64>())
            .sum()
    }
    pub fn show(&self, name: &dyn Fn(VarId) -> String, limit: usize) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (m, q)) in self.0.iter().enumerate() {
            if i >= limit {
                s.push_str(&format!(" + ...[{} terms]", self.len()));
                break;
            }
            if i > 0 {
                s.push_str(" + ");
            }
            s.push_str(&format!("{}", q));
            for (v, e) in m.iter() {
                s.push_str(&format!("*{}", name(v)));
                if e > 1 {
                    s.push_str(&format!("^{}", e));
                }
            }
        }
        s
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
struct MonoOrd(Mono);
impl PartialOrd for MonoOrd {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.0.cmp(&o.0))
    }
}
impl Ord for MonoOrd {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}

/// num / prod(den_i ^ e_i), den_i primitive non-constant polynomials.
#[derive(Clone, Debug)]
pub struct Rat {
    pub num: Poly,
    pub den: Vec<(Poly, u32)>,
}
impl Rat {
    pub fn poly(p: Poly) -> Rat {
        Rat { num: p, den: vec![] }
    }
    pub fn den_poly(&self) -> Poly {
        let mut r = Poly::one();
        for (p, e) in &self.den {
            r = r.mul(&p.pow(*e));
        }
        r
    }
    pub fn neg(&self) -> Rat {
        Rat { num: self.num.neg(), den: self.den.clone() }
    }
    pub fn is_zero(&self) -> bool {
        self.num.is_zero()
    }
    pub fn as_const(&self) -> Option<Q> {
        if self.num.is_zero() {
            return Some(Q::ZERO);
        }
        if self.den.is_empty() {
            self.num.as_const()
        } else {
            None
        }
    }
}

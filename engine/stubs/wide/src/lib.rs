//! Assumed contract of `wide::f32x4`: four lanes (proof side only; runs use the real crate).
use sym::Sym;
#[derive(Copy, Clone, Debug)]
#[allow(non_camel_case_types)]
pub struct f32x4([Sym; 4]);
impl f32x4 {
    pub fn new(v: [Sym; 4]) -> Self {
        f32x4(v)
    }
    pub fn splat(x: Sym) -> Self {
        f32x4([x; 4])
    }
    pub const ZERO: f32x4 = f32x4([Sym::lit(0.0); 4]);
    pub fn mul_add(self, m: f32x4, a: f32x4) -> f32x4 {
        self * m + a
    }
    pub fn mul_sub(self, m: f32x4, a: f32x4) -> f32x4 {
        self * m - a
    }
    pub fn as_array_ref(&self) -> &[Sym; 4] {
        &self.0
    }
    pub fn reduce_add(self) -> Sym {
        let v = self.0;
        v[0] + v[1] + v[2] + v[3]
    }
    pub fn to_array(self) -> [Sym; 4] {
        self.0
    }
}
impl From<[Sym; 4]> for f32x4 {
    fn from(v: [Sym; 4]) -> Self {
        f32x4(v)
    }
}
macro_rules! op { ($t:ident, $f:ident, $o:tt) => {
    impl std::ops::$t for f32x4 {
        type Output = f32x4;
        fn $f(self, b: f32x4) -> f32x4 {
            f32x4([0, 1, 2, 3].map(|i| self.0[i] $o b.0[i]))
        }
    }
} }
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
impl std::ops::AddAssign for f32x4 {
    fn add_assign(&mut self, b: f32x4) {
        *self = *self + b;
    }
}
op!(Div, div, /);
impl std::ops::MulAssign for f32x4 {
    fn mul_assign(&mut self, b: f32x4) {
        *self = *self * b;
    }
}
impl Default for f32x4 {
    fn default() -> f32x4 {
        f32x4::ZERO
    }
}

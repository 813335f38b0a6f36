// generated boilerplate: trait plumbing that lets nalgebra run on Sym
use crate::Sym; use simba::scalar::*; use simba::simd::*; use num_traits::*; use std::ops::*; use approx::*;
impl ComplexField for Sym { type RealField = Sym;
 fn from_real(re: Sym)->Sym{re} fn real(self)->Sym{self} fn imaginary(self)->Sym{Sym::lit(0.0)} fn modulus(self)->Sym{self.abs()} fn modulus_squared(self)->Sym{self*self} fn argument(self)->Sym{ if self.is_sign_negative(){Sym::pi()}else{Sym::lit(0.0)} } fn norm1(self)->Sym{self.abs()} fn scale(self,f:Sym)->Sym{self*f} fn unscale(self,f:Sym)->Sym{self/f}
 fn mul_add(self,a:Sym,b:Sym)->Sym{self*a+b} fn abs(self)->Sym{Sym::abs(self)} fn hypot(self,o:Sym)->Sym{Sym::hypot(self,o)} fn sin_cos(self)->(Sym,Sym){Sym::sin_cos(self)} fn log(self,b:Sym)->Sym{Sym::ln(self)/Sym::ln(b)} fn powi(self,n:i32)->Sym{Sym::powi(self,n)} fn powf(self,n:Sym)->Sym{Sym::powf(self,n)} fn powc(self,n:Sym)->Sym{Sym::powf(self,n)} fn is_finite(&self)->bool{Sym::is_finite(*self)} fn try_sqrt(self)->Option<Sym>{ if self>=Sym::lit(0.0){Some(Sym::sqrt(self))}else{None} }
 fn floor(self)->Sym{Sym::floor(self)}
 fn ceil(self)->Sym{Sym::ceil(self)}
 fn round(self)->Sym{Sym::round(self)}
 fn trunc(self)->Sym{Sym::trunc(self)}
 fn fract(self)->Sym{Sym::fract(self)}
 fn recip(self)->Sym{Sym::recip(self)}
 fn conjugate(self)->Sym{self}
 fn sin(self)->Sym{Sym::sin(self)}
 fn cos(self)->Sym{Sym::cos(self)}
 fn tan(self)->Sym{Sym::tan(self)}
 fn asin(self)->Sym{Sym::asin(self)}
 fn acos(self)->Sym{Sym::acos(self)}
 fn atan(self)->Sym{Sym::atan(self)}
 fn sinh(self)->Sym{Sym::sinh(self)}
 fn cosh(self)->Sym{Sym::cosh(self)}
 fn tanh(self)->Sym{Sym::tanh(self)}
 fn asinh(self)->Sym{Sym::asinh(self)}
 fn acosh(self)->Sym{Sym::acosh(self)}
 fn atanh(self)->Sym{Sym::atanh(self)}
 fn log2(self)->Sym{Sym::log2(self)}
 fn log10(self)->Sym{Sym::log10(self)}
 fn ln(self)->Sym{Sym::ln(self)}
 fn ln_1p(self)->Sym{Sym::ln_1p(self)}
 fn sqrt(self)->Sym{Sym::sqrt(self)}
 fn exp(self)->Sym{Sym::exp(self)}
 fn exp2(self)->Sym{Sym::exp2(self)}
 fn exp_m1(self)->Sym{Sym::exp_m1(self)}
 fn cbrt(self)->Sym{Sym::cbrt(self)}
}
impl RealField for Sym { fn is_sign_positive(&self)->bool{Sym::is_sign_positive(*self)} fn is_sign_negative(&self)->bool{Sym::is_sign_negative(*self)} fn copysign(self,s:Sym)->Sym{Sym::copysign(self,s)} fn max(self,o:Sym)->Sym{Sym::max(self,o)} fn min(self,o:Sym)->Sym{Sym::min(self,o)} fn clamp(self,a:Sym,b:Sym)->Sym{Sym::clamp(self,a,b)} fn atan2(self,o:Sym)->Sym{Sym::atan2(self,o)} fn min_value()->Option<Sym>{Some(Sym::lit(f64::MIN))} fn max_value()->Option<Sym>{Some(Sym::lit(f64::MAX))}
 fn pi()->Sym{Sym::pi_const()}
 fn two_pi()->Sym{Sym::pi()*Sym::lit(2.0)}
 fn frac_pi_2()->Sym{Sym::pi()/Sym::lit(2.0)}
 fn frac_pi_3()->Sym{Sym::pi()/Sym::lit(3.0)}
 fn frac_pi_4()->Sym{Sym::pi()/Sym::lit(4.0)}
 fn frac_pi_6()->Sym{Sym::pi()/Sym::lit(6.0)}
 fn frac_pi_8()->Sym{Sym::pi()/Sym::lit(8.0)}
 fn frac_1_pi()->Sym{Sym::lit(1.0)/Sym::pi()}
 fn frac_2_pi()->Sym{Sym::lit(2.0)/Sym::pi()}
 fn frac_2_sqrt_pi()->Sym{Sym::opaque_const("FRAC_2_SQRT_PI", std::f64::consts::FRAC_2_SQRT_PI)}
 fn e()->Sym{Sym::opaque_const("E", std::f64::consts::E)}
 fn log2_e()->Sym{Sym::opaque_const("LOG2_E", std::f64::consts::LOG2_E)}
 fn log10_e()->Sym{Sym::opaque_const("LOG10_E", std::f64::consts::LOG10_E)}
 fn ln_2()->Sym{Sym::opaque_const("LN_2", std::f64::consts::LN_2)}
 fn ln_10()->Sym{Sym::opaque_const("LN_10", std::f64::consts::LN_10)}
}

impl SimdValue for Sym { type Element=Sym; type SimdBool=bool; fn lanes()->usize{1} fn splat(v:Sym)->Sym{v} fn extract(&self,_:usize)->Sym{*self} unsafe fn extract_unchecked(&self,_:usize)->Sym{*self} fn replace(&mut self,_:usize,v:Sym){*self=v} unsafe fn replace_unchecked(&mut self,_:usize,v:Sym){*self=v} fn select(self,c:bool,o:Sym)->Sym{if c{self}else{o}} }
impl PrimitiveSimdValue for Sym {}
impl Field for Sym {}
impl SubsetOf<Sym> for Sym { fn to_superset(&self)->Sym{*self} fn from_superset(e:&Sym)->Option<Sym>{Some(*e)} fn from_superset_unchecked(e:&Sym)->Sym{*e} fn is_in_subset(_:&Sym)->bool{true} }
impl SupersetOf<f64> for Sym { fn is_in_subset(&self)->bool{false} fn to_subset(&self)->Option<f64>{None} fn to_subset_unchecked(&self)->f64{panic!("to f64")} fn from_subset(e:&f64)->Sym{Sym::lit(*e)} }
impl SupersetOf<f32> for Sym { fn is_in_subset(&self)->bool{false} fn to_subset(&self)->Option<f32>{None} fn to_subset_unchecked(&self)->f32{panic!("to f32")} fn from_subset(e:&f32)->Sym{Sym::lit(*e as f64)} }
impl Zero for Sym { fn zero()->Sym{Sym::lit(0.0)} fn is_zero(&self)->bool{*self==Sym::lit(0.0)} }
impl One for Sym { fn one()->Sym{Sym::lit(1.0)} }
impl Num for Sym { type FromStrRadixErr=(); fn from_str_radix(_:&str,_:u32)->Result<Sym,()> {Err(())} }
impl FromPrimitive for Sym { fn from_i64(n:i64)->Option<Sym>{Some(Sym::lit(n as f64))} fn from_u64(n:u64)->Option<Sym>{Some(Sym::lit(n as f64))} fn from_f64(n:f64)->Option<Sym>{Some(Sym::lit(n))} }
impl ToPrimitive for Sym { fn to_i64(&self)->Option<i64>{None} fn to_u64(&self)->Option<u64>{None} fn to_f64(&self)->Option<f64>{None} }
impl NumCast for Sym { fn from<T:ToPrimitive>(n:T)->Option<Sym>{n.to_f64().map(Sym::lit)} }
impl Signed for Sym { fn abs(&self)->Sym{Sym::abs(*self)} fn abs_sub(&self,o:&Sym)->Sym{ if *self<=*o {Sym::lit(0.0)} else {*self-*o} } fn signum(&self)->Sym{Sym::signum(*self)} fn is_positive(&self)->bool{*self>Sym::lit(0.0)} fn is_negative(&self)->bool{*self<Sym::lit(0.0)} }
impl Bounded for Sym { fn min_value()->Sym{Sym::lit(f64::MIN)} fn max_value()->Sym{Sym::lit(f64::MAX)} }
impl AbsDiffEq for Sym { type Epsilon=Sym; fn default_epsilon()->Sym{Sym::EPSILON} fn abs_diff_eq(&self,o:&Sym,e:Sym)->bool{ Sym::abs(*self-*o)<=e } }
impl RelativeEq for Sym { fn default_max_relative()->Sym{Sym::EPSILON} fn relative_eq(&self,o:&Sym,e:Sym,m:Sym)->bool{ if *self==*o {return true;} let d=Sym::abs(*self-*o); if d<=e {return true;} let l=Sym::max(Sym::abs(*self),Sym::abs(*o)); d<=l*m } }
impl UlpsEq for Sym { fn default_max_ulps()->u32{4} fn ulps_eq(&self,o:&Sym,e:Sym,_:u32)->bool{ Sym::abs(*self-*o)<=e } }

impl Add for Sym { type Output=Sym; fn add(self,o:Sym)->Sym{Sym::add_(self,o)} }
impl<'a> Add<&'a Sym> for Sym { type Output=Sym; fn add(self,o:&'a Sym)->Sym{Sym::add_(self,*o)} }
impl<'a> Add<Sym> for &'a Sym { type Output=Sym; fn add(self,o:Sym)->Sym{Sym::add_(*self,o)} }
impl<'a,'b> Add<&'b Sym> for &'a Sym { type Output=Sym; fn add(self,o:&'b Sym)->Sym{Sym::add_(*self,*o)} }
impl AddAssign for Sym { fn add_assign(&mut self,o:Sym){*self=Sym::add_(*self,o)} }
impl<'a> AddAssign<&'a Sym> for Sym { fn add_assign(&mut self,o:&'a Sym){*self=Sym::add_(*self,*o)} }
impl Sub for Sym { type Output=Sym; fn sub(self,o:Sym)->Sym{Sym::sub_(self,o)} }
impl<'a> Sub<&'a Sym> for Sym { type Output=Sym; fn sub(self,o:&'a Sym)->Sym{Sym::sub_(self,*o)} }
impl<'a> Sub<Sym> for &'a Sym { type Output=Sym; fn sub(self,o:Sym)->Sym{Sym::sub_(*self,o)} }
impl<'a,'b> Sub<&'b Sym> for &'a Sym { type Output=Sym; fn sub(self,o:&'b Sym)->Sym{Sym::sub_(*self,*o)} }
impl SubAssign for Sym { fn sub_assign(&mut self,o:Sym){*self=Sym::sub_(*self,o)} }
impl<'a> SubAssign<&'a Sym> for Sym { fn sub_assign(&mut self,o:&'a Sym){*self=Sym::sub_(*self,*o)} }
impl Mul for Sym { type Output=Sym; fn mul(self,o:Sym)->Sym{Sym::mul_(self,o)} }
impl<'a> Mul<&'a Sym> for Sym { type Output=Sym; fn mul(self,o:&'a Sym)->Sym{Sym::mul_(self,*o)} }
impl<'a> Mul<Sym> for &'a Sym { type Output=Sym; fn mul(self,o:Sym)->Sym{Sym::mul_(*self,o)} }
impl<'a,'b> Mul<&'b Sym> for &'a Sym { type Output=Sym; fn mul(self,o:&'b Sym)->Sym{Sym::mul_(*self,*o)} }
impl MulAssign for Sym { fn mul_assign(&mut self,o:Sym){*self=Sym::mul_(*self,o)} }
impl<'a> MulAssign<&'a Sym> for Sym { fn mul_assign(&mut self,o:&'a Sym){*self=Sym::mul_(*self,*o)} }
impl Div for Sym { type Output=Sym; fn div(self,o:Sym)->Sym{Sym::div_(self,o)} }
impl<'a> Div<&'a Sym> for Sym { type Output=Sym; fn div(self,o:&'a Sym)->Sym{Sym::div_(self,*o)} }
impl<'a> Div<Sym> for &'a Sym { type Output=Sym; fn div(self,o:Sym)->Sym{Sym::div_(*self,o)} }
impl<'a,'b> Div<&'b Sym> for &'a Sym { type Output=Sym; fn div(self,o:&'b Sym)->Sym{Sym::div_(*self,*o)} }
impl DivAssign for Sym { fn div_assign(&mut self,o:Sym){*self=Sym::div_(*self,o)} }
impl<'a> DivAssign<&'a Sym> for Sym { fn div_assign(&mut self,o:&'a Sym){*self=Sym::div_(*self,*o)} }
impl Rem for Sym { type Output=Sym; fn rem(self,o:Sym)->Sym{Sym::rem_(self,o)} }
impl<'a> Rem<&'a Sym> for Sym { type Output=Sym; fn rem(self,o:&'a Sym)->Sym{Sym::rem_(self,*o)} }
impl<'a> Rem<Sym> for &'a Sym { type Output=Sym; fn rem(self,o:Sym)->Sym{Sym::rem_(*self,o)} }
impl<'a,'b> Rem<&'b Sym> for &'a Sym { type Output=Sym; fn rem(self,o:&'b Sym)->Sym{Sym::rem_(*self,*o)} }
impl RemAssign for Sym { fn rem_assign(&mut self,o:Sym){*self=Sym::rem_(*self,o)} }
impl<'a> RemAssign<&'a Sym> for Sym { fn rem_assign(&mut self,o:&'a Sym){*self=Sym::rem_(*self,*o)} }
impl Neg for Sym { type Output=Sym; fn neg(self)->Sym{Sym::neg_(self)} } impl<'a> Neg for &'a Sym { type Output=Sym; fn neg(self)->Sym{Sym::neg_(*self)} }
impl std::iter::Sum for Sym { fn sum<I:Iterator<Item=Sym>>(i:I)->Sym{ i.fold(Sym::lit(0.0),|a,b|a+b) } } impl<'a> std::iter::Sum<&'a Sym> for Sym { fn sum<I:Iterator<Item=&'a Sym>>(i:I)->Sym{ i.fold(Sym::lit(0.0),|a,b|a+*b) } }
impl std::iter::Product for Sym { fn product<I:Iterator<Item=Sym>>(i:I)->Sym{ i.fold(Sym::lit(1.0),|a,b|a*b) } } impl<'a> std::iter::Product<&'a Sym> for Sym { fn product<I:Iterator<Item=&'a Sym>>(i:I)->Sym{ i.fold(Sym::lit(1.0),|a,b|a*(*b)) } }
impl Float for Sym { fn nan()->Sym{Sym::NAN} fn infinity()->Sym{Sym::INFINITY} fn neg_infinity()->Sym{Sym::NEG_INFINITY} fn neg_zero()->Sym{Sym::lit(-0.0)} fn min_value()->Sym{Sym::lit(f64::MIN)} fn min_positive_value()->Sym{Sym::lit(f64::MIN_POSITIVE)} fn max_value()->Sym{Sym::lit(f64::MAX)} fn epsilon()->Sym{Sym::EPSILON} fn is_nan(self)->bool{Sym::is_nan(self)} fn is_infinite(self)->bool{Sym::is_infinite(self)} fn is_finite(self)->bool{Sym::is_finite(self)} fn is_normal(self)->bool{Sym::is_finite(self)} fn classify(self)->std::num::FpCategory{panic!()} fn abs(self)->Sym{Sym::abs(self)} fn signum(self)->Sym{Sym::signum(self)} fn is_sign_positive(self)->bool{Sym::is_sign_positive(self)} fn is_sign_negative(self)->bool{Sym::is_sign_negative(self)} fn mul_add(self,a:Sym,b:Sym)->Sym{self*a+b} fn powi(self,n:i32)->Sym{Sym::powi(self,n)} fn powf(self,n:Sym)->Sym{Sym::powf(self,n)} fn log(self,b:Sym)->Sym{Sym::ln(self)/Sym::ln(b)} fn max(self,o:Sym)->Sym{Sym::max(self,o)} fn min(self,o:Sym)->Sym{Sym::min(self,o)} fn abs_sub(self,o:Sym)->Sym{Signed::abs_sub(&self,&o)} fn hypot(self,o:Sym)->Sym{Sym::hypot(self,o)} fn atan2(self,o:Sym)->Sym{Sym::atan2(self,o)} fn sin_cos(self)->(Sym,Sym){Sym::sin_cos(self)} fn integer_decode(self)->(u64,i16,i8){panic!()}
 fn floor(self)->Sym{Sym::floor(self)}
 fn ceil(self)->Sym{Sym::ceil(self)}
 fn round(self)->Sym{Sym::round(self)}
 fn trunc(self)->Sym{Sym::trunc(self)}
 fn fract(self)->Sym{Sym::fract(self)}
 fn recip(self)->Sym{Sym::recip(self)}
 fn sin(self)->Sym{Sym::sin(self)}
 fn cos(self)->Sym{Sym::cos(self)}
 fn tan(self)->Sym{Sym::tan(self)}
 fn asin(self)->Sym{Sym::asin(self)}
 fn acos(self)->Sym{Sym::acos(self)}
 fn atan(self)->Sym{Sym::atan(self)}
 fn sinh(self)->Sym{Sym::sinh(self)}
 fn cosh(self)->Sym{Sym::cosh(self)}
 fn tanh(self)->Sym{Sym::tanh(self)}
 fn asinh(self)->Sym{Sym::asinh(self)}
 fn acosh(self)->Sym{Sym::acosh(self)}
 fn atanh(self)->Sym{Sym::atanh(self)}
 fn log2(self)->Sym{Sym::log2(self)}
 fn log10(self)->Sym{Sym::log10(self)}
 fn ln(self)->Sym{Sym::ln(self)}
 fn ln_1p(self)->Sym{Sym::ln_1p(self)}
 fn sqrt(self)->Sym{Sym::sqrt(self)}
 fn exp(self)->Sym{Sym::exp(self)}
 fn exp2(self)->Sym{Sym::exp2(self)}
 fn exp_m1(self)->Sym{Sym::exp_m1(self)}
 fn cbrt(self)->Sym{Sym::cbrt(self)}
}
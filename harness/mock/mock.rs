// A stand-in for portable SIMD with the names that the translation uses: lanes in arrays.
#![allow(warnings)]
use std::ops::*;

pub struct LaneCount<const N: usize>;
pub trait SupportedLaneCount {}
impl SupportedLaneCount for LaneCount<1> {}
impl SupportedLaneCount for LaneCount<2> {}
impl SupportedLaneCount for LaneCount<4> {}
impl SupportedLaneCount for LaneCount<8> {}
impl SupportedLaneCount for LaneCount<16> {}

#[derive(Clone, Copy, Debug)]
pub struct Simd<T, const N: usize>([T; N]);
// W is the width of a lane
#[derive(Clone, Copy, Debug)]
pub struct Mask<W, const N: usize>([bool; N], std::marker::PhantomData<W>);

pub trait Lane: Copy + PartialEq + PartialOrd { type W: Copy; }
impl Lane for f32 { type W = i32; }
impl Lane for u32 { type W = i32; }
impl Lane for i32 { type W = i32; }
impl Lane for f64 { type W = i64; }
impl Lane for u64 { type W = i64; }
impl Lane for i64 { type W = i64; }
pub trait Cast<U> { fn to(self) -> U; }
macro_rules! casts { ($($t:ty),*) => { $(casts!(@ $t; f32 u32 i32 f64 u64 i64);)* }; (@ $t:ty; $($u:ty)*) => { $(impl Cast<$u> for $t { fn to(self) -> $u { self as $u } })* } }
casts!(f32, u32, i32, f64, u64, i64);

impl<T: Lane, const N: usize> Simd<T, N> {
    pub fn splat(x: T) -> Self { Simd([x; N]) }
    pub fn from_array(x: [T; N]) -> Self { Simd(x) }
    pub fn to_array(self) -> [T; N] { self.0 }
    pub fn cast<U: Lane>(self) -> Simd<U, N> where T: Cast<U> { Simd(self.0.map(|x| x.to())) }
    pub fn lanes_eq(self, o: Self) -> Mask<T::W, N> { self.test(o, |a, b| a == b) }
    pub fn lanes_ne(self, o: Self) -> Mask<T::W, N> { self.test(o, |a, b| a != b) }
    pub fn lanes_lt(self, o: Self) -> Mask<T::W, N> { self.test(o, |a, b| a < b) }
    pub fn lanes_le(self, o: Self) -> Mask<T::W, N> { self.test(o, |a, b| a <= b) }
    pub fn lanes_gt(self, o: Self) -> Mask<T::W, N> { self.test(o, |a, b| a > b) }
    pub fn lanes_ge(self, o: Self) -> Mask<T::W, N> { self.test(o, |a, b| a >= b) }
    fn test(self, o: Self, f: fn(T, T) -> bool) -> Mask<T::W, N> { Mask(std::array::from_fn(|j| f(self.0[j], o.0[j])), std::marker::PhantomData) }
    fn zip(self, o: Self, f: impl Fn(T, T) -> T) -> Self { Simd(std::array::from_fn(|j| f(self.0[j], o.0[j]))) }
    fn each(self, f: impl Fn(T) -> T) -> Self { Simd(self.0.map(f)) }
}
impl<W: Copy, const N: usize> Mask<W, N> {
    pub fn splat(x: bool) -> Self { Mask([x; N], std::marker::PhantomData) }
    pub fn select<T: Lane<W = W>>(self, a: Simd<T, N>, b: Simd<T, N>) -> Simd<T, N> { Simd(std::array::from_fn(|j| if self.0[j] { a.0[j] } else { b.0[j] })) }
}
impl<W: Copy, const N: usize> Not for Mask<W, N> { type Output = Self; fn not(self) -> Self { Mask(self.0.map(|x| !x), self.1) } }
macro_rules! mask { ($($t:ident $f:ident $ta:ident $fa:ident $op:tt),*) => { $(
    impl<W: Copy, const N: usize> $t for Mask<W, N> { type Output = Self; fn $f(self, o: Self) -> Self { Mask(std::array::from_fn(|j| self.0[j] $op o.0[j]), self.1) } }
    impl<W: Copy, const N: usize> $ta for Mask<W, N> { fn $fa(&mut self, o: Self) { *self = (*self).$f(o); } }
)* } }
mask!(BitAnd bitand BitAndAssign bitand_assign &, BitOr bitor BitOrAssign bitor_assign |, BitXor bitxor BitXorAssign bitxor_assign ^);

macro_rules! op { ($t:ty; $($o:ident $f:ident $oa:ident $fa:ident $e:expr),*) => { $(
    impl<const N: usize> $o for Simd<$t, N> { type Output = Self; fn $f(self, o: Self) -> Self { self.zip(o, $e) } }
    impl<'a, const N: usize> $o<&'a Simd<$t, N>> for Simd<$t, N> { type Output = Self; fn $f(self, o: &'a Self) -> Self { self.zip(*o, $e) } }
    impl<const N: usize> $oa for Simd<$t, N> { fn $fa(&mut self, o: Self) { *self = self.zip(o, $e); } }
)* } }
macro_rules! int { ($($t:ty),*) => { $(
op!($t; Add add AddAssign add_assign |a: $t, b: $t| a.wrapping_add(b), Sub sub SubAssign sub_assign |a: $t, b: $t| a.wrapping_sub(b),
    Mul mul MulAssign mul_assign |a: $t, b: $t| a.wrapping_mul(b), Div div DivAssign div_assign |a: $t, b: $t| a.wrapping_div(b),
    Rem rem RemAssign rem_assign |a: $t, b: $t| a.wrapping_rem(b),
    BitAnd bitand BitAndAssign bitand_assign |a, b| a & b, BitOr bitor BitOrAssign bitor_assign |a, b| a | b, BitXor bitxor BitXorAssign bitxor_assign |a, b| a ^ b,
    Shl shl ShlAssign shl_assign |a: $t, b: $t| a.wrapping_shl(b as u32), Shr shr ShrAssign shr_assign |a: $t, b: $t| a.wrapping_shr(b as u32));
impl<const N: usize> Not for Simd<$t, N> { type Output = Self; fn not(self) -> Self { self.each(|x| !x) } }
)* } }
int!(u32, i32, u64, i64);
macro_rules! signed { ($($t:ty),*) => { $(
impl<const N: usize> Neg for Simd<$t, N> { type Output = Self; fn neg(self) -> Self { self.each(|x| x.wrapping_neg()) } }
impl<const N: usize> Simd<$t, N> { pub fn abs(self) -> Self { self.each(|x| x.wrapping_abs()) } }
)* } }
signed!(i32, i64);
pub trait StdFloat {
    fn mul_add(self, a: Self, b: Self) -> Self;
    fn sqrt(self) -> Self;
    fn floor(self) -> Self;
    fn ceil(self) -> Self;
    fn round(self) -> Self;
    fn trunc(self) -> Self;
}
macro_rules! float { ($($t:ty, $u:ty);*) => { $(
op!($t; Add add AddAssign add_assign |a, b| a + b, Sub sub SubAssign sub_assign |a, b| a - b, Mul mul MulAssign mul_assign |a, b| a * b,
    Div div DivAssign div_assign |a, b| a / b, Rem rem RemAssign rem_assign |a, b| a % b);
impl<const N: usize> Neg for Simd<$t, N> { type Output = Self; fn neg(self) -> Self { self.each(|x| -x) } }
impl<const N: usize> Simd<$t, N> {
    pub fn to_bits(self) -> Simd<$u, N> { Simd(self.0.map(|x| x.to_bits())) }
    pub fn from_bits(b: Simd<$u, N>) -> Self { Simd(b.0.map(|x| <$t>::from_bits(x))) }
    pub fn abs(self) -> Self { self.each(|x| x.abs()) }
    pub fn recip(self) -> Self { self.each(|x| x.recip()) }
    pub fn min(self, o: Self) -> Self { self.zip(o, |a, b| a.min(b)) }
    pub fn max(self, o: Self) -> Self { self.zip(o, |a, b| a.max(b)) }
    pub fn copysign(self, o: Self) -> Self { self.zip(o, |a, b| a.copysign(b)) }
    pub fn signum(self) -> Self { self.each(|x| x.signum()) }
}
impl<const N: usize> StdFloat for Simd<$t, N> {
    fn mul_add(self, a: Self, b: Self) -> Self { Simd(std::array::from_fn(|j| self.0[j].mul_add(a.0[j], b.0[j]))) }
    fn sqrt(self) -> Self { self.each(|x| x.sqrt()) }
    fn floor(self) -> Self { self.each(|x| x.floor()) }
    fn ceil(self) -> Self { self.each(|x| x.ceil()) }
    fn round(self) -> Self { self.each(|x| x.round()) }
    fn trunc(self) -> Self { self.each(|x| x.trunc()) }
}
)* } }
float!(f32, u32; f64, u64);

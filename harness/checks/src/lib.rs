//! Shared helpers of the check programs: buffers as plain data, written without the library's own
//! index machinery.
#[macro_use]
extern crate aegir;
use aegir::buffers::shapes::{IndexOf, SDynamic, ShapeOf, S0, S1, S2, S3, S4, S5};
use aegir::buffers::{Buffer, Scalar, Spec};
use std::fmt::Debug;
use support::Rng;

pub mod asks;
pub mod custom;
pub mod special;
pub mod table;
pub mod trees;
pub mod wide;

pub trait Prim: Scalar + Same + PartialEq + PartialOrd + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn int(i: i64) -> Self;
    fn f(self) -> f64;
    /// Small exact values, so that every order of summation is exact; while [wild] is on, also the
    /// extremes of the field.
    fn any(r: &mut Rng) -> Self;
    /// The value as a number that tells apart everything but the undefined values of one type.
    fn key(self) -> u64;
}
thread_local! { static WILD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Whether `any` also gives infinite, undefined, negative zero, subnormal and extreme values.
pub fn wild(on: bool) { WILD.with(|w| w.set(on)) }
pub fn is_wild() -> bool { WILD.with(|w| w.get()) }

/// Equality element by element: undefined is equal to undefined; `same` tells the zeroes apart and
/// `alike` does not.
pub trait Same {
    fn eq_by(&self, o: &Self, zeroes: bool) -> bool;
    fn same(&self, o: &Self) -> bool { self.eq_by(o, true) }
    fn alike(&self, o: &Self) -> bool { self.eq_by(o, false) }
}
impl<T: Same> Same for Vec<T> { fn eq_by(&self, o: &Self, z: bool) -> bool { self.as_slice().eq_by(o, z) } }
impl<T: Same> Same for [T] { fn eq_by(&self, o: &Self, z: bool) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.eq_by(b, z)) } }
impl<A: Same, B: Same> Same for (A, B) { fn eq_by(&self, o: &Self, z: bool) -> bool { self.0.eq_by(&o.0, z) && self.1.eq_by(&o.1, z) } }
impl<A: Same, B: Same> Same for Result<A, B> {
    fn eq_by(&self, o: &Self, z: bool) -> bool { match (self, o) { (Ok(a), Ok(b)) => a.eq_by(b, z), (Err(a), Err(b)) => a.eq_by(b, z), _ => false } }
}
macro_rules! prim { ($($t:ident $lo:literal $hi:literal [$($w:expr),*] |$x:ident| $key:expr;)*) => { $(
    impl Same for $t { fn eq_by(&self, o: &Self, zeroes: bool) -> bool { self.key() == o.key() || (!zeroes && self == o) } }
    impl Prim for $t {
        const NAME: &'static str = stringify!($t);
        fn int(i: i64) -> Self { i as $t }
        fn f(self) -> f64 { self as f64 }
        fn any(r: &mut Rng) -> Self {
            if is_wild() && r.chance(1, 2) { return *r.pick(&[$($w),*]) }
            if r.chance(1, 4) { *r.pick(&[0, 1, 2]) as $t } else { r.int($lo, $hi) as $t }
        }
        fn key(self) -> u64 { let $x = self; $key }
    }
)* } }
prim! {
    f64 -9 9 [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::MIN_POSITIVE / 4.0, f64::EPSILON, 1.0 + f64::EPSILON, 0.1, -0.3] |x| if x.is_nan() { 1 } else { x.to_bits() as u64 };
    f32 -9 9 [0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, f32::MIN_POSITIVE / 4.0, f32::EPSILON, 1.0 + f32::EPSILON, 0.1, -0.3] |x| if x.is_nan() { 1 } else { x.to_bits() as u64 };
    i8 -3 3 [i8::MIN, i8::MAX, i8::MAX - 1, i8::MIN + 1, i8::MAX / 2, i8::MAX / 2 + 1] |x| x as u64;
    i16 -9 9 [i16::MIN, i16::MAX, i16::MAX - 1, i16::MIN + 1, i16::MAX / 2, i16::MAX / 2 + 1] |x| x as u64;
    i32 -9 9 [i32::MIN, i32::MAX, i32::MAX - 1, i32::MIN + 1, i32::MAX / 2, i32::MAX / 2 + 1] |x| x as u64;
    i64 -9 9 [i64::MIN, i64::MAX, i64::MAX - 1, i64::MIN + 1, i64::MAX / 2, i64::MAX / 2 + 1] |x| x as u64;
    isize -9 9 [isize::MIN, isize::MAX, isize::MAX - 1, isize::MIN + 1, isize::MAX / 2, isize::MAX / 2 + 1] |x| x as u64;
    u8 0 4 [u8::MIN, u8::MAX, u8::MAX - 1, u8::MIN + 1, u8::MAX / 2, u8::MAX / 2 + 1] |x| x as u64;
    u16 0 9 [u16::MIN, u16::MAX, u16::MAX - 1, u16::MIN + 1, u16::MAX / 2, u16::MAX / 2 + 1] |x| x as u64;
    u32 0 9 [u32::MIN, u32::MAX, u32::MAX - 1, u32::MIN + 1, u32::MAX / 2, u32::MAX / 2 + 1] |x| x as u64;
    u64 0 9 [u64::MIN, u64::MAX, u64::MAX - 1, u64::MIN + 1, u64::MAX / 2, u64::MAX / 2 + 1] |x| x as u64;
    usize 0 9 [usize::MIN, usize::MAX, usize::MAX - 1, usize::MIN + 1, usize::MAX / 2, usize::MAX / 2 + 1] |x| x as u64;
}

/// A buffer as dimensions and row-major data.
pub trait Bx: Buffer<Field = Self::P> + Clone + Debug {
    type P: Prim;
    fn dims(n: usize) -> Vec<usize>;
    fn mk(d: &[Self::P]) -> Self;
    fn mkn(_: usize, d: &[Self::P]) -> Self { Self::mk(d) }
    fn data(&self) -> Vec<Self::P>;
    fn sh(n: usize) -> ShapeOf<Self>;
    fn ix(m: &[usize]) -> IndexOf<ShapeOf<Self>>;
    fn unix(i: IndexOf<ShapeOf<Self>>) -> Vec<usize>;
    fn sdims(s: &ShapeOf<Self>) -> Vec<usize>;
    fn name(n: usize) -> String;
}
impl<F: Prim> Bx for F where F: Buffer<Field = F, Shape = S0> {
    type P = F;
    fn dims(_: usize) -> Vec<usize> { vec![] }
    fn mk(d: &[F]) -> F { d[0] }
    fn data(&self) -> Vec<F> { vec![*self] }
    fn sh(_: usize) -> S0 { S0 }
    fn ix(_: &[usize]) {}
    fn unix(_: ()) -> Vec<usize> { vec![] }
    fn sdims(_: &S0) -> Vec<usize> { vec![] }
    fn name(_: usize) -> String { F::NAME.into() }
}
impl<F: Prim> Bx for (F, F) {
    type P = F;
    fn dims(_: usize) -> Vec<usize> { vec![2] }
    fn mk(d: &[F]) -> Self { (d[0], d[1]) }
    fn data(&self) -> Vec<F> { vec![self.0, self.1] }
    fn sh(_: usize) -> S1<2> { S1 }
    fn ix(m: &[usize]) -> usize { m[0] }
    fn unix(i: usize) -> Vec<usize> { vec![i] }
    fn sdims(_: &S1<2>) -> Vec<usize> { vec![2] }
    fn name(_: usize) -> String { format!("({0},{0})", F::NAME) }
}
impl<F: Prim> Bx for Vec<F> {
    type P = F;
    fn dims(n: usize) -> Vec<usize> { vec![n] }
    fn mk(d: &[F]) -> Self { d.to_vec() }
    fn data(&self) -> Vec<F> { self.clone() }
    fn sh(n: usize) -> SDynamic<1> { SDynamic([n]) }
    fn ix(m: &[usize]) -> [usize; 1] { [m[0]] }
    fn unix(i: [usize; 1]) -> Vec<usize> { i.to_vec() }
    fn sdims(s: &SDynamic<1>) -> Vec<usize> { s.0.to_vec() }
    fn name(n: usize) -> String { format!("Vec<{}>#{}", F::NAME, n) }
}
macro_rules! arr {
    ($S:ident [$($D:ident)+] $T:ty, $ix:expr, $unix:expr, |$d:ident| $mk:expr, |$s:ident| $data:expr) => {
        impl<F: Prim, $(const $D: usize),+> Bx for $T {
            type P = F;
            fn dims(_: usize) -> Vec<usize> { vec![$($D),+] }
            fn mk($d: &[F]) -> Self { $mk }
            fn data(&self) -> Vec<F> { let $s = self; $data }
            fn sh(_: usize) -> $S<$($D),+> { $S }
            fn ix(m: &[usize]) -> IndexOf<$S<$($D),+>> { $ix(m) }
            fn unix(i: IndexOf<$S<$($D),+>>) -> Vec<usize> { $unix(i) }
            fn sdims(_: &$S<$($D),+>) -> Vec<usize> { vec![$($D),+] }
            fn name(_: usize) -> String { format!("[{};{:?}]", F::NAME, [$($D),+]) }
        }
    };
}
fn a<T, const N: usize>(f: impl FnMut(usize) -> T) -> [T; N] { std::array::from_fn(f) }
fn cp<const N: usize>(m: &[usize]) -> [usize; N] { a(|i| m[i]) }
arr!(S1 [A] [F; A], |m: &[usize]| m[0], |i| vec![i], |d| a(|i| d[i]), |s| s.to_vec());
arr!(S2 [A B] [[F; B]; A], cp, |i: [usize; 2]| i.to_vec(), |d| a(|i| a(|j| d[i * B + j])), |s| s.iter().flatten().copied().collect());
arr!(S3 [A B C] [[[F; C]; B]; A], cp, |i: [usize; 3]| i.to_vec(), |d| a(|i| a(|j| a(|k| d[(i * B + j) * C + k]))), |s| s.iter().flatten().flatten().copied().collect());
arr!(S4 [A B C D] [[[[F; D]; C]; B]; A], cp, |i: [usize; 4]| i.to_vec(), |d| a(|i| a(|j| a(|k| a(|l| d[((i * B + j) * C + k) * D + l])))),
    |s| s.iter().flatten().flatten().flatten().copied().collect());
arr!(S5 [A B C D E] [[[[[F; E]; D]; C]; B]; A], cp, |i: [usize; 5]| i.to_vec(),
    |d| a(|i| a(|j| a(|k| a(|l| a(|m| d[(((i * B + j) * C + k) * D + l) * E + m]))))),
    |s| s.iter().flatten().flatten().flatten().flatten().copied().collect());

pub fn card(d: &[usize]) -> usize { d.iter().product() }
/// All indices in row-major order.
pub fn indices(d: &[usize]) -> Vec<Vec<usize>> {
    let c = card(d);
    (0..c).map(|mut f| {
        let mut v = vec![0; d.len()];
        for a in (0..d.len()).rev() { v[a] = f % d[a]; f /= d[a]; }
        v
    }).collect()
}
pub fn diagonal(ix: &[usize]) -> bool { ix.windows(2).all(|w| w[0] == w[1]) }
pub fn random<B: Bx>(r: &mut Rng, n: usize) -> (B, Vec<B::P>) {
    let d: Vec<B::P> = (0..card(&B::dims(n))).map(|_| B::P::any(r)).collect();
    (B::mkn(n, &d), d)
}
/// Elements a lifted buffer stands for, decided without the library.
pub fn spec_elems<B: Bx>(s: &Spec<B>) -> (Vec<usize>, Vec<B::P>) {
    match s {
        Spec::Raw(b) => { let d = B::sdims(&aegir::buffers::shapes::Shaped::shape(b)); (d, b.data()) },
        Spec::Full(sh, x) => { let d = B::sdims(sh); let c = card(&d); (d, vec![*x; c]) },
        Spec::Diagonal(sh, x) => {
            let d = B::sdims(sh);
            let v = indices(&d).iter().map(|i| if diagonal(i) { *x } else { B::P::int(0) }).collect();
            (d, v)
        },
        _ => panic!("unknown lifted representation"),
    }
}
pub fn spec_rep<B: Buffer>(s: &Spec<B>) -> &'static str {
    match s { Spec::Raw(_) => "raw", Spec::Full(..) => "full", Spec::Diagonal(..) => "diag", _ => "other" }
}
/// A lifted buffer in representation `k` (0 raw, 1 homogeneous, 2 diagonal) with a random content.
pub fn lifted<B: Bx>(r: &mut Rng, n: usize, k: usize) -> Spec<B> {
    let x = if r.chance(1, 2) { B::P::int(*r.pick(&[0, 1, 2])) } else { B::P::any(r) };
    match k { 0 => Spec::Raw(random::<B>(r, n).0), 1 => Spec::Full(B::sh(n), x), _ => Spec::Diagonal(B::sh(n), x) }
}

/// Runs `$f::<T>(n, ...)` for a broad list of buffer types over field `$F`.
#[macro_export]
macro_rules! for_types {
    ($F:ty, |$T:ident, $n:ident| $body:block) => {{
        macro_rules! go { ($ty:ty, $len:expr) => {{ #[allow(dead_code)] type $T = $ty; let $n: usize = $len; $body }} }
        go!($F, 0);
        go!(($F, $F), 0);
        for len in [0usize, 1, 2, 3, 5, 8, 17, 64, 100, 257] { go!(Vec<$F>, len); }
        go!([$F; 0], 0); go!([$F; 1], 0); go!([$F; 2], 0); go!([$F; 3], 0); go!([$F; 5], 0); go!([$F; 17], 0); go!([$F; 33], 0); go!([$F; 100], 0);
        go!([[$F; 1]; 1], 0); go!([[$F; 3]; 2], 0); go!([[$F; 2]; 3], 0); go!([[$F; 4]; 4], 0); go!([[$F; 5]; 1], 0); go!([[$F; 1]; 5], 0);
        go!([[$F; 20]; 3], 0); go!([[$F; 3]; 20], 0); go!([[$F; 9]; 9], 0);
        go!([[$F; 0]; 2], 0); go!([[$F; 2]; 0], 0);
        go!([[[$F; 2]; 3]; 2], 0); go!([[[$F; 3]; 3]; 3], 0); go!([[[$F; 1]; 4]; 3], 0); go!([[[$F; 0]; 2]; 2], 0);
        go!([[[[$F; 2]; 1]; 3]; 2], 0); go!([[[[$F; 2]; 2]; 2]; 2], 0); go!([[[[$F; 4]; 3]; 2]; 1], 0);
        go!([[[[[$F; 2]; 3]; 1]; 2]; 2], 0); go!([[[[[$F; 2]; 2]; 2]; 2]; 2], 0);
    }};
}

/// Row-major position of an index.
pub fn row_major(d: &[usize], ix: &[usize]) -> usize {
    assert!(d.len() == ix.len() && d.iter().zip(ix).all(|(d, i)| i < d), "index {ix:?} is outside the shape {d:?}");
    d.iter().zip(ix).fold(0, |a, (d, i)| a * d + i)
}
/// Types of `for_types!` followed by the buffers of [custom].
#[macro_export]
macro_rules! for_buffers {
    ($F:ty, |$T:ident, $n:ident| $body:block) => {{
        $crate::for_types!($F, |$T, $n| $body);
        { #[allow(dead_code)] type $T = $crate::custom::Grid<$F>; let $n: usize = 0; $body }
        for dims in [0usize, 3, 8, 9, 10, 17, 19, 26, 36] { #[allow(dead_code)] type $T = $crate::custom::Sheet<$F>; let $n: usize = dims; $body }
    }};
}
/// Values whose sum is small, for fields of any width.
pub fn sparse<B: Bx>(r: &mut Rng, n: usize) -> Vec<B::P> {
    let mut left = 90i64;
    (0..card(&B::dims(n))).map(|_| { let v = if left > 0 && r.chance(2, 3) { r.int(0, left.min(9)) } else { 0 }; left -= v; B::P::int(v) }).collect()
}

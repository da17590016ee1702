//! C01: evaluating an expression gives the value of the mathematical function.
#[macro_use]
extern crate aegir;
use aegir::buffers::{Buffer, IntoSpec, ZipMap};
use aegir::meta::Constant;
use aegir::{ops, Context, Function};
use checks::trees::*;
use checks::*;
use dynx::gen::*;
use dynx::refr::*;
use dynx::*;
use support::*;

fn bad(n: &Node, env: &MCtx, vlen: usize) -> Option<String> {
    let v = value(n, env, vlen).ok()?;
    match build(n, vlen).value(&mut env.clone()) {
        Out::Ok((d, x)) => v.check(&d, &x).err(),
        o => Some(format!("{:?}, expected {:?}", o, v.data)),
    }
}
fn judge(k: &mut Check, n: &Node, env: &MCtx, vlen: usize, key: &str) -> bool {
    let v = match value(n, env, vlen) { Ok(v) => v, Err(s) => { k.count(&format!("skipped: {:?}", s)); return false } };
    let got = build(n, vlen).value(&mut env.clone());
    let why = match &got { Out::Ok((d, x)) => v.check(d, x).err(), o => Some(format!("{:?}", o)) };
    k.case(key, n.size() > 1);
    k.add("elements compared", v.data.len() as u64);
    if let Some(why) = why {
        let m = smallest(n, &mut |m| bad(m, env, vlen).is_some()).unwrap_or(n).clone();
        let w = bad(&m, env, vlen).unwrap_or(why.clone());
        k.violation(&format!("value: {}", m.skeleton()), &format!("expression {}\nsmallest failing part {}\nat {}\n{}\n(whole: {})", n.show(), m.show(), show_env(&m, env), w, why));
    }
    true
}

// ------------------------------------------------------------------ wide range, per operator
use support::libm::{acos, acosh, asin, asinh, atan, atanh, cos, cosh, erf, exp, lgamma, ln as log, sin, sinh, tan, tanh, tgamma};
/// Value and relative tolerance over the whole range of `f64`; `None` outside the domain.
fn wide(u: U, x: f64) -> Option<(f64, f64, f64)> {
    let e = 8.0 * f64::EPSILON;
    let big = |v: f64, t: f64| if v.is_finite() { Some((v, t, 0.0)) } else { None };
    match u {
        U::SubOne => big(x - 1.0, e), U::OneSub => big(1.0 - x, e), U::AddOne => big(x + 1.0, e), U::Square => big(x * x, e),
        U::Double => big(2.0 * x, e), U::Negate => big(-x, 0.0), U::Dirac => if x == 0.0 { None } else { Some((0.0, 0.0, 0.0)) },
        U::Sign => Some((if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 }, 0.0, 0.0)), U::Abs => big(x.abs(), 0.0),
        U::Ln => if x > 0.0 { big(log(x), e) } else { None },
        U::XLnX => if x > 0.0 { big(x * log(x), e) } else if x == 0.0 { Some((0.0, 0.0, 0.0)) } else { None },
        U::Exp => big(exp(x), 1e-13), U::Rabbit => if x.abs() < 1e150 { Some((x * (1.0 - x), e, 0.0)) } else { None },
        U::Sigmoid => big(if x >= 0.0 { 1.0 / (1.0 + exp(-x)) } else { exp(x) / (1.0 + exp(x)) }, 1e-12),
        U::Gamma => if x > 0.0 && x < 170.0 { big(tgamma(x), 1e-11) } else { None },
        U::Factorial => if x > -1.0 && x < 169.0 { big(tgamma(x + 1.0), 1e-11) } else { None },
        U::LogGamma => if x > 0.0 && x < 1e300 { let v = lgamma(x); if v.is_finite() { Some((v, 1e-11, 1e-12)) } else { None } } else { None },
        U::DiGamma => if x > 0.01 && x < 1e12 { Some((r_digamma(x), 1e-11, 1e-11)) } else { None },
        U::Erf => big(erf(x), 1e-11), U::Erfc => Some((1.0 - erf(x), 1e-11, 1e-14)),
        U::Cos => if x.abs() < 1e6 { Some((cos(x), e, e)) } else { None }, U::Sin => if x.abs() < 1e6 { Some((sin(x), e, e)) } else { None },
        U::Tan => if x.abs() < 1e6 && cos(x).abs() > 1e-3 { Some((tan(x), 1e-12, 0.0)) } else { None },
        U::Cosh => big(cosh(x), 1e-13), U::Sinh => big(sinh(x), 1e-13), U::Tanh => big(tanh(x), 1e-13),
        U::ArcCos => if x.abs() <= 1.0 { Some((acos(x), 1e-13, 0.0)) } else { None }, U::ArcSin => if x.abs() <= 1.0 { Some((asin(x), 1e-13, 0.0)) } else { None },
        U::ArcTan => big(atan(x), 1e-13), U::ArcCosh => if x >= 1.0 && x < 1e150 { Some((acosh(x), 1e-7, 0.0)) } else { None },
        U::ArcSinh => if x.abs() < 1e150 { Some((asinh(x), 1e-7, 1e-16)) } else { None },
        U::ArcTanh => if x.abs() < 1.0 { Some((atanh(x), 1e-9, 1e-16)) } else { None },
    }
}
fn wide_points(r: &mut Rng, u: U) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 10.0, -10.0, 30.0, -30.0, 100.0, -100.0, 700.0, -700.0, 745.0, -745.0, 1e-8, -1e-8, 1e-300, -1e-300,
        f64::MIN_POSITIVE, 1e15, -1e15, 1e300, -1e300, 1.0 - 1e-12, 1.0 + 1e-9, 0.999, -0.999];
    for _ in 0..24 {
        let m = 10f64.powf(r.range(-12.0, 12.0));
        v.push(m); v.push(-m);
        v.push(r.range(-1.0, 1.0)); v.push(r.range(-8.0, 8.0)); v.push(r.range(-40.0, 40.0)); v.push(r.range(0.0, 170.0));
    }
    if matches!(u, U::Gamma | U::LogGamma | U::Factorial | U::DiGamma) { for i in 0..40 { v.push(i as f64 + 0.5); v.push(i as f64); } }
    v
}

// ------------------------------------------------------------------ elementary functions in both precisions
const TRIG64: &str = "sine, cosine and tangent of f64 beyond 1e6 lose accuracy, and are 0 beyond 2^30";
const TRIG32: &str = "sine, cosine and tangent of f32 beyond 8192 lose accuracy, and are 0 beyond 2^24";
const POW32: &str = "powers of f32 with exponents beyond 32767 give other numbers";
const OVER32: &str = "exponentials, powers and hyperbolic functions of f32 near or beyond the limits of its range give other numbers";
trait Fl: Copy + std::fmt::Debug { const EPS: f64; const BIG: f64; const TINY: f64; fn to(self) -> f64; fn of(x: f64) -> Self; fn bits(self) -> u64; fn any(r: &mut Rng) -> Self; }
impl Fl for f64 { const EPS: f64 = f64::EPSILON; const BIG: f64 = f64::MAX; const TINY: f64 = f64::MIN_POSITIVE; fn to(self) -> f64 { self } fn of(x: f64) -> f64 { x } fn bits(self) -> u64 { self.to_bits() } fn any(r: &mut Rng) -> f64 { f64::from_bits(r.next()) } }
impl Fl for f32 { const EPS: f64 = f32::EPSILON as f64; const BIG: f64 = f32::MAX as f64; const TINY: f64 = f32::MIN_POSITIVE as f64; fn to(self) -> f64 { self as f64 } fn of(x: f64) -> f32 { x as f32 } fn bits(self) -> u64 { self.to_bits() as u64 } fn any(r: &mut Rng) -> f32 { f32::from_bits(r.next() as u32) } }
/// `slack`: how much more than rounding of the result the conditioning at the point explains.
fn elementary<F: Fl>(k: &mut Check, what: &str, at: &str, biggest: f64, got: Result<F, String>, native: F, want: f64, slack: f64) {
    k.case(&format!("{what} {at}"), true);
    k.count("elementary functions");
    let why = match &got {
        Err(e) => Some(e.clone()),
        Ok(g) => {
            let g = g.to();
            // The largest number of a precision and infinity are neighbours.
            let ok = if want.is_nan() { g.is_nan() } else if want.abs() > F::BIG { g.is_infinite() && g.signum() == want.signum() }
                else { (g - want).abs() <= (64.0 + slack) * F::EPS * want.abs() + 4.0 * F::TINY || (g.is_infinite() && want.abs() > 0.9999 * F::BIG && g.signum() == want.signum()) };
            if ok { None } else { Some(format!("{g:e}")) }
        },
    };
    let Some(why) = why else { return };
    let theirs = matches!(&got, Ok(g) if g.bits() == native.bits());
    let wide = F::EPS < 1e-10;
    let trig = matches!(what.split(' ').next(), Some("Sin" | "Cos" | "Tan"));
    let over = matches!(what.split(' ').next(), Some("Exp" | "Sinh" | "Cosh" | "Power"));
    let sig = if theirs && trig && wide && biggest > 1e6 && (biggest < 1.073741824e9 || native.to() == 0.0) { TRIG64.to_string() }
        else if theirs && trig && !wide && biggest > 8192.0 { TRIG32.to_string() }
        else if theirs && over && !wide && (want.abs() > F::BIG / 8.0 || want.abs() < 64.0 * F::TINY) { OVER32.to_string() }
        else if theirs && what == "Power f32" && biggest > 32767.0 { POW32.to_string() }
        else { format!("elementary: {what}") };
    k.violation(&sig, &format!("{what} at {at}: got {why}, expected {want:e}"));
}
fn elementaries(k: &mut Check, r: &mut Rng, n: usize) {
    use aegir::ids::{X, Y};
    use aegir::ops::{trig::*, Exp, Ln};
    use aegir::Identifier;
    fn points<F: Fl>(r: &mut Rng, n: usize) -> Vec<F> {
        let mut v: Vec<f64> = vec![0.0, 0.5, 1.0, 2.0, 3.0, 10.0, 30.0, 80.0, 88.0, 88.7, 88.8, 89.0, 89.4, 89.5, 100.0, 700.0, 709.7, 709.8, 710.4, 710.5, 745.0, 746.0, 8191.0, 8193.0, 1e6, 16777215.0, 16777216.0, 1.07e9, 1.08e9, 1e12, 1e15, 1e22, 1e30, 1e300, 1e-8, 1e-20, 1e-30, 1e-300, 0.999, 0.9999999];
        for i in 1..9 { v.push(i as f64 * std::f64::consts::FRAC_PI_4); }
        for _ in 0..n { v.push(10f64.powi(r.int(-12, 12) as i32) * r.range(1.0, 10.0)); v.push(r.unit()); v.push(r.range(0.0, 8.0)); v.push(r.range(0.0, 100.0)); v.push(1.0 - r.unit() * r.unit() * r.unit()); }
        let mut v: Vec<F> = v.into_iter().map(F::of).flat_map(|x| [x, F::of(-x.to())]).collect();
        for _ in 0..n { v.push(F::any(r)) }
        v.retain(|x| x.to().is_finite());
        v
    }
    macro_rules! go { ($F:ident: $($O:ident $m:ident $r:path, |$x:ident| $dom:expr, $slack:expr;)*) => { $( {
        let f = $O(X.into_var());
        for p in points::<$F>(r, n) {
            let $x = p as f64;
            if !$dom { continue }
            let what = concat!(stringify!($O), " ", stringify!($F));
            let at = format!("{p:e}");
            elementary::<$F>(k, what, &at, $x.abs(), guarded(|| f.evaluate(ctx! { X = p }).unwrap()), p.$m(), $r($x), $slack);
            // The same function of an element of a buffer.
            let b = guarded(|| f.evaluate(ctx! { X = [1.0 as $F, p] }).unwrap()[1]);
            elementary::<$F>(k, what, &format!("[1, {at}]"), $x.abs(), b, p.$m(), $r($x), $slack);
        }
    } )* } }
    macro_rules! both { ($F:ident) => {
        go! { $F:
            Sin sin libm::sin, |x| true, 0.0; Cos cos libm::cos, |x| true, 0.0; Tan tan libm::tan, |x| true, 0.0;
            Sinh sinh libm::sinh, |x| true, x.abs().min(800.0); Cosh cosh libm::cosh, |x| true, x.abs().min(800.0); Tanh tanh libm::tanh, |x| true, 0.0;
            ArcSin asin libm::asin, |x| x.abs() <= 1.0, 0.0; ArcCos acos libm::acos, |x| x.abs() <= 1.0, 0.0; ArcTan atan libm::atan, |x| true, 0.0;
            ArcSinh asinh libm::asinh, |x| true, 0.0; ArcCosh acosh libm::acosh, |x| x >= 1.0, 0.0; ArcTanh atanh libm::atanh, |x| x.abs() < 1.0, 8.0 / (1.0 - x * x);
            Exp exp libm::exp, |x| true, x.abs().min(800.0); Ln ln libm::ln, |x| x > 0.0, 0.0;
        }
        let f = ops::Power(X.into_var(), Y.into_var());
        // Negative and zero bases, and exponents far out.
        for t in 0..12 * n {
            let y = match t % 4 { 0 => r.int(-12, 12) as f64, 1 => r.int(-300, 300) as f64, 2 => r.int(-3000, 3000) as f64 * 0.25, _ => *r.pick(&[0.0, 1.0, 2.0, 3.0, 0.5, 1e3, 1e6, 65535.0, 65536.0, 1e9, 1e15, 1e15]) } as $F;
            let whole = y as f64 == (y as f64).round();
            let x = match r.below(5) { 0 => 0.0, 1 => 1.0, 2 => -1.0, 3 => *r.pick(&[-2.0, -0.5, -3.0, -10.0, 2.0, 10.0, 0.25, 1.5]), _ => r.range(-3.0, 3.0) } as $F;
            if x < 0.0 && !whole || x == 0.0 && y < 0.0 { continue }
            let want = libm::pow(x as f64, y as f64);
            if want != 0.0 && want.abs() < <$F as Fl>::TINY || want.abs() > <$F as Fl>::BIG { continue }
            k.count("powers of zero, one and negative bases");
            let slack = if x == 0.0 { 0.0 } else { 8.0 * (y as f64 * (x as f64).abs().ln()).abs() + 0.25 * (y as f64).abs() };
            elementary::<$F>(k, concat!("Power ", stringify!($F)), &format!("{x:e} ^ {y:e}"), (y as f64).abs(), guarded(|| f.evaluate(ctx! { X = x, Y = y }).unwrap()), x.powf(y), want, slack);
        }
        for _ in 0..20 * n {
            let (x, y) = (if r.chance(1, 2) { r.range(0.0, 4.0) } else { 10f64.powf(r.range(-10.0, 10.0)) } as $F, if r.chance(1, 3) { r.int(-8, 8) as f64 } else { r.range(-30.0, 30.0) } as $F);
            let want = libm::pow(x as f64, y as f64);
            if x <= 0.0 || want < <$F as Fl>::TINY { continue }
            elementary::<$F>(k, concat!("Power ", stringify!($F)), &format!("{x:e} ^ {y:e}"), 0.0, guarded(|| f.evaluate(ctx! { X = x, Y = y }).unwrap()), x.powf(y), want, 8.0 * (y as f64 * (x as f64).abs().ln()).abs());
        }
    } }
    both!(f64);
    both!(f32);
}

// ------------------------------------------------------------------ other buffer types
#[derive(Clone, Copy)]
struct NoCtx;
impl AsMut<NoCtx> for NoCtx { fn as_mut(&mut self) -> &mut NoCtx { self } }
impl Context for NoCtx {}

fn compare<P: Prim, B: Bx<P = P>>(k: &mut Check, what: &str, name: &str, got: Result<Result<B, String>, String>, want: Result<(Vec<usize>, Vec<P>), ()>, inputs: &str) {
    k.case(&format!("{what} {name} {inputs}"), true);
    k.count("static evaluations");
    let ok = match (&got, &want) {
        (Ok(Ok(b)), Ok((d, w))) => {
            let g = b.data();
            B::sdims(&b.shape()) == *d && g.len() == w.len() && g.iter().zip(w).all(|(a, b)| (a.f() - b.f()).abs() <= 1e-5 * (1.0 + b.f().abs()) * if P::NAME == "f32" { 1.0 } else { 1e-7 })
        },
        (Ok(Err(_)), Err(())) => true,
        _ => false,
    };
    if !ok { k.violation(&format!("static {what} on {name}"), &format!("inputs {inputs}\ngot {:?}\nexpected {:?}", got.map(|r| r.map(|b| b.data())), want)) }
}
fn ev<N: Function<NoCtx>>(n: &N) -> Result<Result<N::Value, String>, String> { guarded(|| n.evaluate(NoCtx).map_err(|e| e.to_string())) }

macro_rules! bin_same { ($k:ident, $r:ident, $T:ty, $n:ident, $ops:tt) => {{
    let (x, dx) = random::<$T>($r, $n);
    let (y, dy) = random::<$T>($r, $n);
    let name = <$T>::name($n);
    bin_same!(@ $k, name, $T, $n, x, y, dx, dy, $ops);
}};
    (@ $k:ident, $name:ident, $T:ty, $n:ident, $x:ident, $y:ident, $dx:ident, $dy:ident, [$($op:ident $f:expr),*]) => { $(
        let want: Vec<_> = $dx.iter().zip(&$dy).map(|(a, b)| $f(*a, *b)).collect();
        compare::<_, $T>($k, stringify!($op), &$name, ev(&ops::$op(Constant($x.clone()), Constant($y.clone()))), Ok((<$T>::dims($n), want)), &format!("{:?} {:?}", $dx, $dy));
    )* } }
macro_rules! bin_scalar { ($k:ident, $r:ident, $F:ty, $T:ty, $n:ident, [$($op:ident $f:expr),*]) => {{
    let (x, dx) = random::<$T>($r, $n);
    let s = <$F as Prim>::any($r);
    let name = <$T>::name($n);
    $(
        let want: Vec<_> = dx.iter().map(|a| $f(*a, s)).collect();
        compare::<_, $T>($k, concat!(stringify!($op), " buffer-scalar"), &name, ev(&ops::$op(Constant(x.clone()), Constant(s))), Ok((<$T>::dims($n), want)), &format!("{:?} {:?}", dx, s));
        let want: Vec<_> = dx.iter().map(|a| $f(s, *a)).collect();
        compare::<_, $T>($k, concat!(stringify!($op), " scalar-buffer"), &name, ev(&ops::$op(Constant(s), Constant(x.clone()))), Ok((<$T>::dims($n), want)), &format!("{:?} {:?}", s, dx));
    )*
}} }
macro_rules! unary_all { ($k:ident, $r:ident, $T:ty, $n:ident, [$($op:ident $f:expr),*]) => {{
    let (x, dx) = random::<$T>($r, $n);
    let name = <$T>::name($n);
    $(
        let want: Vec<_> = dx.iter().map(|a| $f(*a)).collect();
        compare::<_, $T>($k, stringify!($op), &name, ev(&ops::$op(Constant(x.clone()))), Ok((<$T>::dims($n), want)), &format!("{:?}", dx));
    )*
    let total = dx.iter().fold(<<$T as Bx>::P as Prim>::int(0), |a, b| a + *b);
    compare::<_, <$T as Bx>::P>($k, "Sum", &name, ev(&ops::Sum(Constant(x.clone()))), Ok((vec![], vec![total])), &format!("{:?}", dx));
}} }
#[allow(unused)]
fn _b<B: Buffer + ZipMap + IntoSpec>(_: B) where B::Shape: aegir::buffers::shapes::Broadcast {}

macro_rules! floats { ($k:ident, $r:ident, $F:ident) => {
    for_types!($F, |T, n| {
        bin_same!($k, $r, T, n, [Add |a: $F, b: $F| a + b, Sub |a: $F, b: $F| a - b, Mul |a: $F, b: $F| a * b]);
        unary_all!($k, $r, T, n, [SubOne |a: $F| a - 1.0, OneSub |a: $F| 1.0 - a, AddOne |a: $F| a + 1.0, Square |a: $F| a * a, Double |a: $F| 2.0 * a,
            Negate |a: $F| -a, Abs |a: $F| a.abs(), Rabbit |a: $F| a * (1.0 - a), Exp |a: $F| a.exp(), Sigmoid |a: $F| 1.0 / (1.0 + (-a).exp()),
            XLnX |a: $F| if a <= 0.0 { 0.0 } else { a * a.ln() }, Sign |a: $F| if a == 0.0 { 0.0 } else { a.signum() }]);
        let (x, dx) = random::<T>($r, n);
        let y = T::mk(&dx.iter().map(|a| a + 20.0).collect::<Vec<_>>());
        let want: Vec<_> = dx.iter().map(|a| a / (a + 20.0)).collect();
        compare::<_, T>($k, "Div", &T::name(n), ev(&ops::Div(Constant(x), Constant(y))), Ok((T::dims(n), want)), &format!("{:?}", dx));
    });
    broadcasts!($k, $r, $F);
} }
macro_rules! broadcasts { ($k:ident, $r:ident, $F:ident) => {{
    macro_rules! go { ($T:ty, $len:expr) => {{ let n: usize = $len; bin_scalar!($k, $r, $F, $T, n, [Add |a: $F, b: $F| a + b, Sub |a: $F, b: $F| a - b, Mul |a: $F, b: $F| a * b]); }} }
    for len in [0usize, 1, 2, 5, 9] { go!(Vec<$F>, len); }
    go!([$F; 1], 0); go!([$F; 4], 0); go!([[$F; 3]; 2], 0); go!([[$F; 2]; 2], 0); go!([[[$F; 2]; 3]; 2], 0); go!([[[[$F; 2]; 1]; 3]; 2], 0); go!([[[[[$F; 2]; 3]; 1]; 2]; 2], 0);
    go!([$F; 0], 0); go!([[$F; 0]; 3], 0);
}} }
macro_rules! ints { ($k:ident, $r:ident, $F:ident) => {
    for_types!($F, |T, n| {
        bin_same!($k, $r, T, n, [Add |a: $F, b: $F| a + b, Sub |a: $F, b: $F| a - b, Mul |a: $F, b: $F| a * b]);
        unary_all!($k, $r, T, n, [SubOne |a: $F| a - 1, OneSub |a: $F| 1 - a, AddOne |a: $F| a + 1, Double |a: $F| 2 * a, Rabbit |a: $F| a * (1 - a)]);
    });
    broadcasts!($k, $r, $F);
} }
fn mismatched(k: &mut Check, r: &mut Rng) {
    for (a, b) in [(0usize, 1usize), (1, 0), (2, 3), (5, 4), (3, 0), (1, 9)] {
        let (x, dx) = random::<Vec<f64>>(r, a);
        let (y, dy) = random::<Vec<f64>>(r, b);
        let i = format!("{:?} {:?}", dx, dy);
        compare::<f64, Vec<f64>>(k, "Add mismatch", "Vec", ev(&ops::Add(Constant(x.clone()), Constant(y.clone()))), Err(()), &i);
        compare::<f64, Vec<f64>>(k, "Sub mismatch", "Vec", ev(&ops::Sub(Constant(x.clone()), Constant(y.clone()))), Err(()), &i);
        compare::<f64, Vec<f64>>(k, "Mul mismatch", "Vec", ev(&ops::Mul(Constant(x.clone()), Constant(y.clone()))), Err(()), &i);
        compare::<f64, Vec<f64>>(k, "Div mismatch", "Vec", ev(&ops::Div(Constant(x.clone()), Constant(y.clone()))), Err(()), &i);
    }
}

fn main() {
    drive(Check::new("C01", "random well-typed expression trees over ten buffer sorts at random in-domain points, every operator on every sort, and every operator over the whole f64 range; non-trivial: at least one operator is applied"), run)
}
fn run(k: &mut Check) {
    // 1. Every unary operator over the whole range.
    for &u in UNARY {
        let mut r = k.rng("wide", u as u64);
        for x in wide_points(&mut r, u) {
            let Some((want, rel, abs)) = wide(u, x) else { continue };
            let mut env = MCtx::new();
            env.s.push(Some(Slot::raw(x)));
            let n = Node { tag: Tag::S, id: 0, k: K::Un(u, Box::new(Node { tag: Tag::S, id: 1, k: K::Var(0) })) };
            k.case(&format!("{:?} {:?}", u, x), true);
            k.count("wide-range points");
            let got = build(&n, 0).value(&mut env);
            let ok = match &got { Out::Ok((_, g)) => (g[0] - want).abs() <= rel * want.abs() + abs + f64::MIN_POSITIVE, _ => false };
            if !ok { k.violation(&format!("wide: {:?} at {:?}", u, x), &format!("{:?}({:?}): got {:?}, expected {:?} (relative tolerance {:.1e}, absolute {:.1e})", u, x, got, want, rel, abs)); }
        }
    }
    // 1b. The elementary functions in both precisions, against the system's library.
    let n = k.n(60, 1500);
    let mut r = k.rng("elementary", 0);
    elementaries(k, &mut r, n);
    // 2. Every operator on every sort.
    let reps = k.n(6, 60);
    for rep in 0..reps {
        let mut r = k.rng("sweep", rep as u64);
        let vlen = [3, 0, 1, 8, 2, 33][rep % 6];
        let env = env(&mut r, EnvOpt { lifted: false, special: rep % 2 == 0, vlen });
        let var = |t: Tag, i: u8| Box::new(Node { tag: t, id: 0, k: K::Var(i) });
        let mut nodes = vec![];
        for t in TAGS {
            for &u in UNARY { nodes.push(Node { tag: t, id: 0, k: K::Un(u, var(t, 0)) }) }
            for o in [Op::Add, Op::Sub, Op::Mul, Op::Div] {
                nodes.push(Node { tag: t, id: 0, k: K::Bin(o, var(t, 0), var(t, 1)) });
                if t != Tag::S && t != Tag::Tp {
                    nodes.push(Node { tag: t, id: 0, k: K::Bin(o, var(t, 0), var(Tag::S, 1)) });
                    nodes.push(Node { tag: t, id: 0, k: K::Bin(o, var(Tag::S, 0), var(t, 1)) });
                }
            }
            nodes.push(Node { tag: Tag::S, id: 0, k: K::Sum(var(t, 0)) });
        }
        for (o, a, b) in CONTRACTIONS { nodes.push(Node { tag: contract_tag(*o, *a, *b).unwrap(), id: 0, k: K::Bin(*o, var(*a, 0), var(*b, 1)) }) }
        nodes.push(Node { tag: Tag::S, id: 0, k: K::Bin(Op::Power, var(Tag::S, 0), var(Tag::S, 1)) });
        for mut n in nodes {
            n.renumber();
            let key = format!("{} | {}", n.show(), show_env(&n, &env));
            if judge(k, &n, &env, vlen, &key) { k.count("sweep"); }
        }
    }
    // 3. Random trees.
    let trees = k.n(8000, 150_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let tag = rand_tag(&mut r);
        let depth = 2 + r.below(5);
        let lifted = r.chance(1, 4);
        let caches = r.chance(1, 6);
        let special = r.chance(1, 2);
        let s = Sample::new(&mut r, tag, depth, GenOpt { lifted, caches, ..Default::default() }, special);
        if judge(k, &s.node, &s.env, s.vlen, &s.key()) {
            k.count("trees");
            k.count(&format!("root sort {:?}", s.node.tag));
            for o in op_names(&s.node) { k.count(&format!("op {}", o)); }
            if s.node.depth() >= 5 { k.count("deep trees"); }
        }
    }
    // 4. Other field and buffer types.
    for rep in 0..k.n(2, 20) {
        let r = &mut k.rng("static", rep as u64);
        floats!(k, r, f64);
        floats!(k, r, f32);
        ints!(k, r, i32);
        ints!(k, r, i64);
        mismatched(k, r);
    }
    k.need("wide-range points", 3000);
    k.need("elementary functions", 20000);
    k.need("sweep", 800);
    k.need("trees", trees as u64 / 2);
    k.need("deep trees", trees as u64 / 20);
    k.need("static evaluations", 1000);
    for u in UNARY { let key = format!("op {:?}", u); k.need(&key, 20); }
    for o in ["Add", "Sub", "Mul", "Div", "Power", "Dot", "Tensor", "Sum", "Cached"] { let key = format!("op {}", o); k.need(&key, 20); }
    k.assume("the C math library (tgamma, lgamma, erf, and the elementary functions) is accurate");
}

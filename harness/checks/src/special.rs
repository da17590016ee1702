//! Every special function at every kind of argument, for runs under instruments.
use std::hint::black_box;
use support::Rng;

/// The native special functions, over every kind of argument.
pub fn sweep(r: &mut Rng, each: &mut dyn FnMut(&str, &str, &dyn Fn())) {
    use aegir::ids::X;
    use aegir::ops::special::*;
    use aegir::{Differentiable, Function, Identifier};
    macro_rules! f { ($each:ident $case:ident $x:ident; $($O:ident)*) => { $(
        $each(stringify!($O), &$case, &|| { let f = $O(X.into_var()); black_box((f.evaluate(aegir::ctx! { X = $x }).is_ok(), f.evaluate_spec(aegir::ctx! { X = [$x, $x] }).is_ok(), f.evaluate(aegir::ctx! { X = vec![$x; 3] }).is_ok())); });
    )* } }
    macro_rules! d { ($each:ident $case:ident $x:ident; $($O:ident)*) => { $( $each(concat!(stringify!($O), " derivative"), &$case, &|| { black_box($O(X.into_var()).adjoint(X).evaluate(aegir::ctx! { X = $x }).is_ok()); }); )* } }
    macro_rules! go { ($F:ident, $xs:expr) => { for x in $xs {
        let case = format!("{} at {x:e}", stringify!($F));
        f!(each case x; Gamma DiGamma LogGamma Erf); d!(each case x; Gamma LogGamma);
        each("Factorial", &case, &|| { black_box((Factorial::factorial(X.into_var()).evaluate(aegir::ctx! { X = x }).is_ok(), Factorial::factorial(X.into_var()).adjoint(X).evaluate(aegir::ctx! { X = x }).is_ok())); });
        each("Erfc", &case, &|| { black_box(Erfc::erfc(X.into_var()).evaluate(aegir::ctx! { X = x }).is_ok()); });
    } } }
    let mut xs: Vec<f64> = vec![0.0, -0.0, 0.5, 1.0, 2.0, 33.0, 170.0, 171.7, 172.0, 1e3, 1e10, 1e15, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e-10, f64::INFINITY, f64::NAN, f64::EPSILON, 2147483647.0, 2147483648.0, 4294967296.0, 9.3e18, 1.9e19];
    for i in 0..60 { xs.push(i as f64 / 2.0); }
    for _ in 0..300 { xs.push(r.range(-40.0, 200.0)); xs.push(10f64.powf(r.range(-300.0, 300.0))); xs.push(f64::from_bits(r.next())); }
    xs.extend(xs.clone().iter().map(|x| -x));
    go!(f64, xs.clone());
    go!(f32, xs.iter().map(|x| *x as f32).chain((0..600).map(|_| f32::from_bits(r.next() as u32))));
}


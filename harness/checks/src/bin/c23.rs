//! C23: numerical identities and stability of the scalar functions.
use aegir::buffers::Spec;
use aegir::ids::X;
use aegir::meta::Constant;
use aegir::ops::special::{DiGamma, Erf, Erfc, Factorial, Gamma, LogGamma};
use aegir::ops::{Abs, Dirac, Sigmoid, Sign, XLnX};
use aegir::{ctx, ctx_type, Context, Differentiable, Function, Identifier};
use support::*;

use support::libm::{exp, lgamma, ln, tgamma};

macro_rules! vals { ($op:path, $xs:expr) => { { let op = $op(X.into_var()); let xs: Vec<F> = $xs; op.evaluate(ctx! { X = xs }).unwrap() } } }
/// All routes to the value at `x`: scalar, with the derivative, arrays, pairs, homogeneous.
macro_rules! routes { ($op:path, $x:expr) => { {
    let op = $op(X.into_var()); let x: F = $x; let one: F = 1.0;
    let mut v: Vec<(&str, F)> = vec![("scalar", op.evaluate(ctx! { X = x }).unwrap())];
    v.push(("lifted scalar", op.evaluate_spec(ctx! { X = x }).unwrap().unwrap()));
    v.push(("array", op.evaluate(ctx! { X = [one, x, one] }).unwrap()[1]));
    v.push(("pair, left", op.evaluate(ctx! { X = (x, one) }).unwrap().0));
    v.push(("pair, right", op.evaluate(ctx! { X = (one, x) }).unwrap().1));
    v.push(("matrix", op.evaluate(ctx! { X = [[one, one], [x, one]] }).unwrap()[1][0]));
    v.push(("homogeneous", $op(Constant(Spec::<[F; 2]>::Full(aegir::buffers::shapes::S1, x))).evaluate(ctx! { X = x }).unwrap()[1]));
    v.push(("lifted homogeneous", $op(Constant(Spec::<[F; 2]>::Full(aegir::buffers::shapes::S1, x))).evaluate_spec(ctx! { X = x }).unwrap().unwrap()[0]));
    v.push(("diagonal", $op(Constant(Spec::<[[F; 2]; 2]>::Diagonal(aegir::buffers::shapes::S2, x))).evaluate(ctx! { X = x }).unwrap()[0][0]));
    v
} } }
macro_rules! agree { ($k:ident, $op:path, $x:expr, $want:expr) => { for (route, got) in routes!($op, $x) {
    $k.count("routes compared");
    if got.to_bits() != $want.to_bits() { $k.violation(&format!("{}<{}>, {}", stringify!($op), T, route), &format!("at {}: {} by this route, {} in a vector", show($x), show(got), show($want))); }
} } }

macro_rules! bad { ($k:ident, $what:literal, $x:expr, $($a:tt)*) => { $k.violation(&format!("{} {}", $what, T), &format!("at {}: {}", show($x), format!($($a)*))) } }

/// One module per float type: `vals` evaluates one operator at all inputs in one vector, `lone`
/// by every other route at a single input.
macro_rules! float {
    ($m:ident, $t:ty, $name:literal, $bits:ty, eps $eps:expr, big $big:expr, sat $sat:expr, gmax $gmax:expr, gtol $gtol:expr) => {
        mod $m {
            use super::*;
            const T: &str = $name;
            type F = $t;
            fn show(x: $t) -> String { format!("{:e} (bits {:#x})", x, x.to_bits()) }
            pub fn inputs(r: &mut Rng, n: usize) -> Vec<$t> {
                let mut v: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, -<$t>::MIN_POSITIVE, <$t>::from_bits(1), -<$t>::from_bits(1), <$t>::EPSILON, 2.0, 10.0, 100.0];
                for c in [$big, $sat, 88.7f64 as $t, 103.9, 16.7, 17.4, 36.8, 37.5, 709.8, 745.2, 20.0, 30.0, 1e4, 1e10, 1e30] {
                    let c = c as $t;
                    for d in -6i64..=6 { let y = <$t>::from_bits((c.to_bits() as i64 + d) as $bits); v.push(y); v.push(-y); }
                    for d in [0.1, 0.5, 1.0, 2.0] { v.push(c + d as $t); v.push(-(c + d as $t)); v.push(c - d as $t); v.push(d as $t - c); }
                }
                for e in <$t>::MIN_EXP - 30..<$t>::MAX_EXP { let y = (2.0 as $t).powi(e); v.push(y); v.push(-y); }
                while v.len() < n {
                    let y = match r.below(5) {
                        0 => <$t>::from_bits(r.next() as $bits),
                        1 => r.range(-50.0, 50.0) as $t,
                        2 => r.range(-2.0, 2.0) as $t,
                        3 => r.range(-1000.0, 1000.0) as $t,
                        _ => (10.0f64.powf(r.range(-30.0, 30.0)) * if r.chance(1, 2) { 1.0 } else { -1.0 }) as $t,
                    };
                    if y.is_finite() { v.push(y) }
                }
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                v
            }
            pub fn run(k: &mut Check, round: usize) {
                let mut r = k.rng(T, round as u64);
                let n = k.n(100_000, 400_000);
                let xs = inputs(&mut r, n);
                let neg: Vec<$t> = xs.iter().map(|x| -x).collect();
                for x in &xs { k.case(&format!("{T} {:x}", x.to_bits()), *x != 0.0) }
                k.add(concat!("inputs ", $name), xs.len() as u64);

                // Sigmoid.
                let s = vals!(Sigmoid, xs.clone());
                let sn = vals!(Sigmoid, neg.clone());
                for (i, &x) in xs.iter().enumerate() {
                    let y = s[i];
                    if !(y >= 0.0 && y <= 1.0) { bad!(k, "sigmoid not within 0 and 1", x, "{y:e}") }
                    if (x >= 0.0 && y < 0.5) || (x <= 0.0 && y > 0.5) { bad!(k, "sigmoid on the wrong side of one half", x, "{y:e}") }
                    if !((sn[i] - (1.0 - y)).abs() <= 2.0 * $eps) { bad!(k, "sigmoid of the negation", x, "s(x) = {y:e}, s(-x) = {:e}", sn[i]) }
                    if i > 0 && !(s[i - 1] <= y * (1.0 + 4.0 * $eps)) { bad!(k, "sigmoid decreases", x, "{y:e}, at {} {:e}", show(xs[i - 1]), s[i - 1]) }
                    // Relative accuracy on the side where it approaches zero.
                    if x <= 0.0 && x >= -$big {
                        let e = exp(x as f64); let t = e / (1.0 + e);
                        if !((y as f64 - t).abs() <= 8.0 * $eps as f64 * t) { bad!(k, "sigmoid inaccurate", x, "{y:e} instead of {t:e}") }
                    }
                    if x.abs() > $sat && !(y == if x > 0.0 { 1.0 } else { 0.0 } || (x < 0.0 && y < <$t>::MIN_POSITIVE)) { bad!(k, "sigmoid does not saturate", x, "{y:e}") }
                }
                if round == 0 { k.add("sigmoid strictly within", s.iter().filter(|y| **y > 0.0 && **y < 1.0).count() as u64) }
                let free: Vec<$t> = xs.iter().map(|x| aegir::ops::sigmoid(*x)).collect();
                for i in 0..xs.len() { if free[i].to_bits() != s[i].to_bits() { bad!(k, "sigmoid function against operator", xs[i], "{:e} against {:e}", free[i], s[i]) } }
                // x ln x.
                let l = vals!(XLnX, xs.clone());
                for (i, &x) in xs.iter().enumerate() {
                    let y = l[i];
                    if x == 0.0 && y != 0.0 { bad!(k, "x ln x at zero", x, "{y:e}") }
                    if x >= 0.0 {
                        let t = if x == 0.0 { 0.0 } else { x as f64 * ln(x as f64) };
                        let tol = 4.0 * $eps as f64 * t.abs() + if (x as f64) < 2.0 && x > 0.0 { 4.0 * $eps as f64 * x as f64 } else { 0.0 } + <$t>::from_bits(1) as f64;
                        if !((y as f64 - t).abs() <= tol || (t > <$t>::MAX as f64 && y == <$t>::INFINITY)) { bad!(k, "x ln x inaccurate", x, "{y:e} instead of {t:e}") }
                        if x < 1.0 && y > 0.0 || x > 1.0 && y < 0.0 { bad!(k, "x ln x has the wrong sign", x, "{y:e}") }
                    }
                    if y.is_nan() { bad!(k, "x ln x is not a number", x, "{y:e}") }
                }
                // Absolute value, sign, impulse.
                let a = vals!(Abs, xs.clone());
                let an = vals!(Abs, neg.clone());
                let g = vals!(Sign, xs.clone());
                let d = vals!(Dirac, xs.clone());
                for (i, &x) in xs.iter().enumerate() {
                    let m = <$t>::from_bits(x.to_bits() & !(1 << (<$bits>::BITS - 1)));
                    if a[i] != m || a[i].is_sign_negative() { bad!(k, "absolute value", x, "{:e}", a[i]) }
                    if an[i] != a[i] { bad!(k, "absolute value of the negation", x, "{:e}", an[i]) }
                    let sg = if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
                    if g[i] != sg { bad!(k, "sign", x, "{:e}", g[i]) }
                    if d[i] != if x == 0.0 { <$t>::INFINITY } else { 0.0 } { bad!(k, "impulse", x, "{:e}", d[i]) }
                    if a[i] != x * g[i] { bad!(k, "absolute value is not x sgn(x)", x, "{:e}", a[i]) }
                }
                // The error function.
                let e = vals!(Erf, xs.clone());
                let en = vals!(Erf, neg.clone());
                let c = vals!(Erfc::erfc, xs.clone());
                for (i, &x) in xs.iter().enumerate() {
                    if !(e[i].abs() <= 1.0) { bad!(k, "error function not bounded by one", x, "{:e}", e[i]) }
                    if !((e[i] + en[i]).abs() <= 2.0 * $eps * e[i].abs()) { bad!(k, "error function not odd", x, "{:e} and {:e}", e[i], en[i]) }
                    if !((e[i] + c[i] - 1.0).abs() <= 2.0 * $eps) { bad!(k, "error function does not complement to one", x, "{:e} and {:e}", e[i], c[i]) }
                    if x == 0.0 && e[i] != 0.0 { bad!(k, "error function at zero", x, "{:e}", e[i]) }
                    if (x > 0.0 && e[i] < 0.0) || (x < 0.0 && e[i] > 0.0) { bad!(k, "error function has the wrong sign", x, "{:e}", e[i]) }
                    if i > 0 && !(e[i - 1] <= e[i] + 8.0 * $eps * e[i].abs()) { bad!(k, "error function decreases", x, "{:e}, before {:e}", e[i], e[i - 1]) }
                    if x.abs() > 6.5 && e[i].abs() != 1.0 { bad!(k, "error function does not reach one", x, "{:e}", e[i]) }
                }
                // Gamma, its logarithm, and digamma.
                let mut ps: Vec<$t> = (1..=60).map(|i| i as $t / 2.0).collect();
                while ps.len() < n / 4 { let y = match r.below(4) { 0 => r.range(0.01, 3.0), 1 => r.range(0.5, $gmax - 1.0), 2 => 10f64.powf(r.range(-3.0, 0.0)), _ => r.int(1, $gmax as i64 - 1) as f64 + r.range(-1e-3, 1e-3) }; ps.push(y as $t) }
                ps.retain(|p| *p > 0.0 && *p + 1.0 <= $gmax as $t);
                // Only points where x + 1 is exact, so that the recurrence relates the same inputs.
                for p in ps.iter_mut() { *p = (*p + 1.0) - 1.0 }
                ps.retain(|p| *p > 1e-3);
                let next: Vec<$t> = ps.iter().map(|p| p + 1.0).collect();
                let (g0, g1) = (vals!(Gamma, ps.clone()), vals!(Gamma, next.clone()));
                let (l0, l1) = (vals!(LogGamma, ps.clone()), vals!(LogGamma, next.clone()));
                let f0 = vals!(Factorial::factorial, ps.clone());
                for (i, &x) in ps.iter().enumerate() {
                    k.count(concat!("gamma ", $name));
                    let rel = |a: $t, b: $t, tol: f64| (a as f64 - b as f64).abs() <= tol * (a as f64).abs().max((b as f64).abs()).max(<$t>::MIN_POSITIVE as f64);
                    if !rel(g1[i], x * g0[i], $gtol * 4.0) { bad!(k, "recurrence of gamma", x, "gamma(x + 1) = {:e}, x gamma(x) = {:e}", g1[i], x * g0[i]) }
                    if !rel(f0[i], g1[i], $gtol) { bad!(k, "factorial", x, "{:e} instead of {:e}", f0[i], g1[i]) }
                    let lt = $gtol * 8.0 * (1.0 + l0[i].abs() as f64);
                    if !((l0[i] as f64 - ln(g0[i] as f64)).abs() <= lt) { bad!(k, "logarithm of gamma", x, "{:e}, ln(gamma) = {:e}", l0[i], g0[i].ln()) }
                    if !((l1[i] as f64 - l0[i] as f64 - ln(x as f64)).abs() <= lt + $gtol * 8.0 * (1.0 + l1[i].abs() as f64)) { bad!(k, "recurrence of the logarithm of gamma", x, "{:e} and {:e}", l0[i], l1[i]) }
                    let t = tgamma(x as f64);
                    if !rel(g0[i], t as $t, $gtol * 8.0) { bad!(k, "gamma", x, "{:e} instead of {t:e}", g0[i]) }
                    let t = lgamma(x as f64);
                    if !((l0[i] as f64 - t).abs() <= lt) { bad!(k, "logarithm of gamma against its reference", x, "{:e} instead of {t:e}", l0[i]) }
                }
                let (d0, d1) = (vals!(DiGamma, ps.clone()), vals!(DiGamma, next.clone()));
                for (i, &x) in ps.iter().enumerate() {
                    let want = d0[i] as f64 + 1.0 / x as f64;
                    let tol = $gtol * 8.0 * (1.0 + d0[i].abs() as f64 + 1.0 / x as f64);
                    if !((d1[i] as f64 - want).abs() <= tol) { bad!(k, "recurrence of digamma", x, "{:e} and {:e}, difference should be {:e}", d0[i], d1[i], 1.0 / x) }
                    let want = dynx::refr::r_digamma(x as f64);
                    if !((d0[i] as f64 - want).abs() <= tol) { bad!(k, "digamma", x, "{:e} instead of {:e}", d0[i], want) }
                }
                // Beyond the range the functions return, too: infinity, or their asymptotes.
                let mut huge: Vec<$t> = vec![172.5, 173.0, 1e3, 16777215.0, 16777216.0, 16777218.0, 1e10, 1e15, 9.1e15, 1e30, 1e36, 1e38, <$t>::MAX, <$t>::INFINITY];
                while huge.len() < 200 { huge.push(10f64.powf(r.range(2.25, 38.0)) as $t) }
                let (send, got) = std::sync::mpsc::channel();
                let h = huge.clone();
                std::thread::spawn(move || {
                    for x in h {
                        let one = |v: Option<Vec<$t>>| v.map_or(<$t>::NAN, |v| v[0]);
                        let v = || X.into_var();
                        macro_rules! at { ($f:expr) => { one(guarded(|| $f.evaluate(ctx! { X = vec![x] }).unwrap()).ok()) } }
                        if send.send([at!(Gamma(v())), at!(LogGamma(v())), at!(DiGamma(v())), at!(Factorial::factorial(v()))]).is_err() { break }
                    }
                });
                for &x in &huge {
                    k.count("inputs beyond the range");
                    let [g, l, d, f] = match got.recv_timeout(std::time::Duration::from_secs(20)) { Ok(v) => v, Err(_) => { bad!(k, "a special function does not return", x, "no result after 20 s"); break } };
                    if g != <$t>::INFINITY || f != <$t>::INFINITY { bad!(k, "gamma beyond its range", x, "{g:e}, factorial {f:e}") }
                    let t = lgamma(x as f64);
                    if x.is_finite() && t < 0.49 * <$t>::MAX as f64 && !((l as f64 - t).abs() <= t * $gtol * 8.0) { bad!(k, "logarithm of a large gamma", x, "{l:e} instead of {t:e}") }
                    if x.is_finite() && !((d as f64 - dynx::refr::r_digamma(x as f64)).abs() <= $gtol * 8.0 * d as f64) { bad!(k, "digamma of a large argument", x, "{d:e}") }
                }
                // Every other route gives the same bits, and derivatives hold at the same places.
                for j in 0..k.n(2000, 20_000) {
                    let i = if j < 40 { xs.len() / 2 + j - 20 } else { r.below(xs.len()) };
                    let x = xs[i];
                    agree!(k, Sigmoid, x, s[i]); agree!(k, Abs, x, a[i]); agree!(k, Sign, x, g[i]);
                    agree!(k, Dirac, x, d[i]); agree!(k, XLnX, x, l[i]); agree!(k, Erf, x, e[i]); agree!(k, Erfc::erfc, x, c[i]);
                    let q = Sigmoid(X.into_var()).evaluate_dual(X, ctx! { X = x }).unwrap();
                    if q.value.to_bits() != s[i].to_bits() { bad!(k, "sigmoid with its derivative", x, "{:e} against {:e}", q.value, s[i]) }
                    if !(q.adjoint >= 0.0 && q.adjoint <= 0.25 + $eps && (q.adjoint - s[i] * (1.0 - s[i])).abs() <= 2.0 * $eps) { bad!(k, "derivative of sigmoid", x, "{:e}, s = {:e}", q.adjoint, s[i]) }
                    let q = Abs(X.into_var()).evaluate_dual(X, ctx! { X = x }).unwrap();
                    if q.value != a[i] || q.adjoint != g[i] { bad!(k, "absolute value with its derivative", x, "{:e}, {:e}", q.value, q.adjoint) }
                    let q = Sign(X.into_var()).evaluate_dual(X, ctx! { X = x }).unwrap();
                    if q.value != g[i] || q.adjoint != d[i] { bad!(k, "sign with its derivative", x, "{:e}, {:e}", q.value, q.adjoint) }
                    let p = r.below(ps.len());
                    agree!(k, Gamma, ps[p], g0[p]); agree!(k, LogGamma, ps[p], l0[p]); agree!(k, DiGamma, ps[p], d0[p]);
                    agree!(k, Factorial::factorial, ps[p], f0[p]);
                }
            }
        }
    };
}
float!(single, f32, "f32", u32, eps f32::EPSILON, big 87.0f32, sat 110.0f32, gmax 33.0, gtol 2e-6);
float!(double, f64, "f64", u64, eps f64::EPSILON, big 708.0f64, sat 750.0f64, gmax 170.0, gtol 2e-14);

fn main() {
    drive(Check::new("C23", "every float class of both float types (all powers of two, random bit patterns, neighbourhoods of every overflow and saturation threshold, zeros of both signs, subnormals), through vectors and through every other route to the same operator; non-trivial: every non-zero input"), run)
}
fn run(k: &mut Check) {
    for round in 0..k.n(6, 100) { single::run(k, round); double::run(k, round); if k.many() { break } }
    k.need("inputs f32", 50_000); k.need("inputs f64", 50_000); k.need("gamma f32", 5_000); k.need("gamma f64", 5_000); k.need("routes compared", 100_000);
    k.need("sigmoid strictly within", 2000);
    k.need("inputs beyond the range", 2000);
    k.need_distinct(30_000);
    k.assume("the C math library is accurate");
}

//! Derivatives of single operators over the whole range of `f64`, in closed form.
use dynx::refr::r_digamma;
use dynx::{Op, U};
use support::libm::{cos, exp, ln, pow, sin, tgamma};
use support::Rng;

/// What a derivative must be, with its relative and absolute tolerance.
pub type Want = (f64, f64, f64);
fn normal(v: f64) -> bool { v == 0.0 || (v.abs() > 1e-290 && v.abs() < 1e290) }

/// Derivative of order `o` of a unary operator; `None` where it does not exist or leaves the range.
pub fn unary(u: U, x: f64, o: usize) -> Option<Want> {
    if o == 0 || o > u.order() || o > 3 || !normal(x) { return None }
    let pick = |d: [f64; 3]| d[o - 1];
    let e = 16.0 * f64::EPSILON;
    let w = match u {
        U::SubOne | U::AddOne => (pick([1.0, 0.0, 0.0]), 0.0, 0.0),
        U::OneSub | U::Negate => (pick([-1.0, 0.0, 0.0]), 0.0, 0.0),
        U::Double => (pick([2.0, 0.0, 0.0]), 0.0, 0.0),
        U::Square => (pick([2.0 * x, 2.0, 0.0]), 0.0, 0.0),
        U::Abs | U::Sign => {
            if x == 0.0 { return None }
            (if u == U::Abs && o == 1 { x.signum() } else { 0.0 }, 0.0, 0.0)
        },
        U::Ln | U::XLnX => {
            if x <= 0.0 || (o > 1 && !(1e-60..1e60).contains(&x)) { return None }
            if u == U::Ln { (pick([1.0 / x, -1.0 / x / x, 2.0 / x / x / x]), e, 0.0) } else { (pick([ln(x) + 1.0, 1.0 / x, -1.0 / x / x]), e, if o == 1 { e } else { 0.0 }) }
        },
        U::Exp => (exp(x), 1e-12, 0.0),
        U::Rabbit => { if x.abs() > 1e150 { return None } (pick([1.0 - 2.0 * x, -2.0, 0.0]), e, e) },
        U::Sigmoid => {
            // Towards minus infinity all of them decay like the exponential, without cancellation.
            let t = exp(-x.abs());
            let s = if x >= 0.0 { 1.0 / (1.0 + t) } else { t / (1.0 + t) };
            let c = if x >= 0.0 { t / (1.0 + t) } else { 1.0 / (1.0 + t) };
            let p = s * c;
            (pick([p, p * (c - s), p * (1.0 - 6.0 * p)]), 1e-12, if x > -3.0 { 2e-15 } else { 1e-290 })
        },
        U::Gamma | U::Factorial => {
            let z = if u == U::Gamma { x } else { x + 1.0 };
            if !(0.01..150.0).contains(&z) { return None }
            let g = tgamma(z);
            (g * r_digamma(z), 1e-10, 1e-10 * g)
        },
        U::LogGamma => { if !(0.01..1e12).contains(&x) { return None } (r_digamma(x), 1e-10, 1e-10) },
        U::Cos | U::Sin => {
            if x.abs() > 1e6 { return None }
            (if u == U::Cos { pick([-sin(x), -cos(x), sin(x)]) } else { pick([cos(x), -sin(x), -cos(x)]) }, 1e-13, 1e-13)
        },
        _ => return None,
    };
    if normal(w.0) || w.2 > 0.0 && w.0.abs() < 1.0 { Some(w) } else { None }
}
pub fn unary_point(r: &mut Rng, u: U) -> f64 {
    const FIXED: [f64; 28] = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 10.0, -10.0, 20.0, -20.0, 37.0, -37.0, 100.0, -100.0, 600.0, -600.0, 1e-8, -1e-8, 1e-280, -1e-280, 1e15, -1e15, 1e250, -1e250, 0.999, 1.001];
    if matches!(u, U::Gamma | U::LogGamma | U::Factorial) && r.chance(1, 2) { return if r.chance(1, 3) { r.int(1, 140) as f64 } else { r.range(0.0, 140.0) } }
    let s = if r.chance(1, 2) { -1.0 } else { 1.0 };
    match r.below(8) {
        0 => *r.pick(&FIXED),
        1 => s * pow(10.0, r.range(-280.0, 280.0)),
        2 | 3 => s * pow(10.0, r.range(-9.0, 7.0)),
        4 => r.range(-40.0, 40.0),
        5 => r.range(-700.0, 700.0),
        6 => r.int(-40, 40) as f64 / 2.0,
        _ => r.range(-8.0, 8.0),
    }
}

/// Derivative of a binary operator, `i` times in the left and `j` times in the right operand.
pub fn binary(op: Op, x: f64, y: f64, i: usize, j: usize) -> Option<Want> {
    let e = 32.0 * f64::EPSILON;
    let w = match (op, i, j) {
        (Op::Add, 1, 0) | (Op::Add, 0, 1) | (Op::Sub, 1, 0) => (1.0, 0.0, 0.0),
        (Op::Sub, 0, 1) => (-1.0, 0.0, 0.0),
        (Op::Mul, 1, 0) | (Op::Dot, 1, 0) | (Op::Tensor, 1, 0) => (y, 0.0, 0.0),
        (Op::Mul, 0, 1) | (Op::Dot, 0, 1) | (Op::Tensor, 0, 1) => (x, 0.0, 0.0),
        (Op::Mul, 1, 1) | (Op::Dot, 1, 1) | (Op::Tensor, 1, 1) => (1.0, 0.0, 0.0),
        (Op::Add | Op::Sub | Op::Mul | Op::Dot | Op::Tensor, _, _) => (0.0, 0.0, 0.0),
        (Op::Div, _, _) => {
            // Every intermediate quotient must stay inside the range.
            if y == 0.0 || y.abs() < 1e-60 || y.abs() > 1e60 || x.abs() > 1e60 || (x != 0.0 && x.abs() < 1e-60) { return None }
            match (i, j) { (1, 0) => (1.0 / y, e, 0.0), (0, 1) => (-x / y / y, e, 0.0), (1, 1) => (-1.0 / y / y, e, 0.0), (0, 2) => (2.0 * x / y / y / y, e, 0.0), _ => (0.0, 0.0, 0.0) }
        },
        (Op::Power, _, _) => {
            if !(x > 1e-3 && x < 1e3 && y.abs() <= 20.0) { return None }
            let l = ln(x);
            let p = |k: f64| pow(x, y - k);
            let tol = 1e-11;
            match (i, j) {
                (1, 0) => (y * p(1.0), tol, 0.0),
                (2, 0) => (y * (y - 1.0) * p(2.0), tol, tol * p(2.0) * (1.0 + y * y)),
                (0, 1) => (p(0.0) * l, tol, tol * p(0.0)),
                (0, 2) => (p(0.0) * l * l, tol, tol * p(0.0)),
                _ => (p(1.0) * (1.0 + y * l), tol, tol * p(1.0) * (1.0 + (y * l).abs())),
            }
        },
    };
    if normal(w.0) { Some(w) } else { None }
}
pub fn binary_point(r: &mut Rng, op: Op) -> (f64, f64) {
    if op == Op::Power {
        let x = if r.chance(1, 3) { *r.pick(&[1.0, 2.0, 0.5, 10.0, 0.1, 100.0]) } else { pow(10.0, r.range(-2.9, 2.9)) };
        return (x, if r.chance(1, 2) { r.int(-20, 20) as f64 } else { r.range(-20.0, 20.0) })
    }
    let mut one = || {
        let s = if r.chance(1, 2) { -1.0 } else { 1.0 };
        match r.below(6) { 0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, 0.5]), 1 => r.int(-30, 30) as f64, 2 => s * pow(10.0, r.range(-59.0, 59.0)), 3 => s * pow(10.0, r.range(-9.0, 9.0)), _ => r.range(-9.0, 9.0) }
    };
    (one(), one())
}
pub fn near(got: f64, w: &Want) -> bool { (got - w.0).abs() <= w.1 * w.0.abs() + w.2 }

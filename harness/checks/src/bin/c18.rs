//! C18: dual numbers follow the calculus of first-order derivatives.
use aegir::buffers::shapes::{IndexOf, Shaped, S1};
use aegir::buffers::{Buffer, Class, Scalar};
use aegir::{dual, Dual};
use checks::*;
use std::ops::{Add, Mul, Neg, Sub};
use support::{drive, guarded, Check, Rng};

/// A buffer with elementwise arithmetic, as a user would define one for vector duals.
#[derive(Clone, Copy, Debug, PartialEq)]
struct W<F>([F; 3]);
struct Ws;
impl Class<S1<3>> for Ws {
    type Buffer<F: Scalar> = W<F>;
    fn build<F: Scalar>(_: S1<3>, f: impl Fn(usize) -> F) -> W<F> { W([f(0), f(1), f(2)]) }
    fn build_subset<F: Scalar>(_: S1<3>, base: F, s: impl Iterator<Item = usize>, f: impl Fn(usize) -> F) -> W<F> {
        let mut w = W([base; 3]);
        for i in s { w.0[i] = f(i); }
        w
    }
}
impl<F: Scalar> Shaped for W<F> { type Shape = S1<3>; fn shape(&self) -> S1<3> { S1 } }
impl<F: Scalar> Buffer for W<F> {
    type Class = Ws;
    type Field = F;
    fn class() -> Ws { Ws }
    fn get_unchecked(&self, ix: IndexOf<S1<3>>) -> F { self.0[ix] }
    fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> W<A> { W([f(self.0[0]), f(self.0[1]), f(self.0[2])]) }
    fn mutate<M: Fn(F) -> F>(&mut self, f: M) { for x in &mut self.0 { *x = f(*x); } }
}
fn w<F: Copy>(a: W<F>, f: impl Fn(usize, F) -> F) -> W<F> { W([f(0, a.0[0]), f(1, a.0[1]), f(2, a.0[2])]) }
macro_rules! wops { ($($T:ident $m:ident;)*) => { $(
    impl<F: Scalar> $T<W<F>> for W<F> { type Output = W<F>; fn $m(self, r: W<F>) -> W<F> { w(self, |i, x| x.$m(r.0[i])) } }
    impl<'a, F: Scalar> $T<&'a W<F>> for W<F> { type Output = W<F>; fn $m(self, r: &'a W<F>) -> W<F> { w(self, |i, x| x.$m(r.0[i])) } }
)* } }
wops! { Add add; Sub sub; Mul mul; }
impl<F: Scalar + Neg<Output = F>> Neg for W<F> { type Output = W<F>; fn neg(self) -> W<F> { w(self, |_, x| -x) } }
// Gradients: a scalar value with a vector of partial derivatives.
impl Mul<f64> for W<f64> { type Output = W<f64>; fn mul(self, r: f64) -> W<f64> { w(self, |_, x| x * r) } }
impl<'a> Mul<&'a f64> for W<f64> { type Output = W<f64>; fn mul(self, r: &'a f64) -> W<f64> { w(self, |_, x| x * r) } }
impl<'a> Mul<&'a W<f64>> for f64 { type Output = W<f64>; fn mul(self, r: &'a W<f64>) -> W<f64> { w(*r, |_, x| x * self) } }

trait Parts: Clone + std::fmt::Debug { fn parts(&self) -> Vec<f64>; }
impl<F: Prim> Parts for F where F: Buffer<Field = F> { fn parts(&self) -> Vec<f64> { vec![self.f()] } }
impl<F: Prim> Parts for W<F> { fn parts(&self) -> Vec<f64> { self.0.iter().map(|x| x.f()).collect() } }

fn at(v: &[f64], i: usize) -> f64 { match v.len() { 0 => 0.0, 1 => v[0], _ => v[i] } }
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Add, Sub, Mul, Neg, Conj }

/// Compares one result with the rule, entry by entry. `y` is the right operand's value and, for a
/// dual, its adjoint.
fn rule<V: Parts, A: Parts>(k: &mut Check, op: Op, form: &str, x: &Dual<V, A>, y: Option<(&V, Option<&A>)>, got: Result<Dual<V, A>, String>, eps: f64) {
    k.count("operations");
    let (xv, xa) = (x.value.parts(), x.adjoint.parts());
    let yv = y.map(|y| y.0.parts()).unwrap_or_default();
    let ya = y.and_then(|y| y.1).map(|a| a.parts()).unwrap_or(vec![0.0; xa.len()]);
    let plain = y.map_or(false, |y| y.1.is_none());
    let case = format!("{op:?} ({form}) of {x:?} and {y:?}");
    k.case(&case, true);
    let g = match &got { Ok(g) => g, Err(p) => { k.violation("dual arithmetic panics", &format!("{case}: {p}")); return } };
    let (gv, ga) = (g.value.parts(), g.adjoint.parts());
    let mut ok = gv.len() == xv.len() && ga.len() == xa.len();
    for i in 0..xv.len() {
        let (a, b) = (xv[i], at(&yv, i));
        let want = match op { Op::Add => a + b, Op::Sub => a - b, Op::Mul => a * b, Op::Neg => -a, Op::Conj => a };
        // Fields narrower than f64 are only given values whose results they represent exactly, or `eps`.
        ok &= same(gv[i], want) || (gv[i] - want).abs() <= eps * want.abs();
    }
    for i in 0..xa.len() {
        let (a, da, b, db) = (at(&xv, i), xa[i], at(&yv, i), ya[i]);
        let (want, mag) = match op {
            Op::Add => (if plain { da } else { da + db }, da.abs() + db.abs()),
            Op::Sub => (if plain { da } else { da - db }, da.abs() + db.abs()),
            Op::Mul => (if plain { da * b } else { da * b + a * db }, (da * b).abs() + (a * db).abs()),
            Op::Neg | Op::Conj => (-da, 0.0),
        };
        ok &= same(ga[i], want) || (ga[i] - want).abs() <= (eps + 4e-16) * mag;
    }
    if !ok { k.violation(&format!("{op:?} of duals ({form})"), &format!("{case}\n  got {g:?}")) }
}

macro_rules! arithmetic {
    ($k:ident, $x:expr, $y:expr, $eps:expr; $V:ty, $A:ty) => {{
        let (x, y): (Dual<$V, $A>, Dual<$V, $A>) = ($x, $y);
        let (v, a) = (&y.value, &y.adjoint);
        let c = |x: &Dual<$V, $A>| x.clone();
        rule($k, Op::Add, "dual + value", &x, Some((v, None)), guarded(|| c(&x) + v.clone()), $eps);
        rule($k, Op::Add, "dual + &value", &x, Some((v, None)), guarded(|| c(&x) + v), $eps);
        rule($k, Op::Add, "dual + dual", &x, Some((v, Some(a))), guarded(|| c(&x) + c(&y)), $eps);
        rule($k, Op::Add, "dual + &dual", &x, Some((v, Some(a))), guarded(|| c(&x) + &y), $eps);
        rule($k, Op::Sub, "dual - value", &x, Some((v, None)), guarded(|| c(&x) - v.clone()), $eps);
        rule($k, Op::Sub, "dual - &value", &x, Some((v, None)), guarded(|| c(&x) - v), $eps);
        rule($k, Op::Sub, "dual - dual", &x, Some((v, Some(a))), guarded(|| c(&x) - c(&y)), $eps);
        rule($k, Op::Sub, "dual - &dual", &x, Some((v, Some(a))), guarded(|| c(&x) - &y), $eps);
        rule($k, Op::Mul, "dual * value", &x, Some((v, None)), guarded(|| c(&x) * v.clone()), $eps);
        rule($k, Op::Mul, "dual * &value", &x, Some((v, None)), guarded(|| c(&x) * v), $eps);
        rule($k, Op::Mul, "dual * dual", &x, Some((v, Some(a))), guarded(|| c(&x) * c(&y)), $eps);
        rule($k, Op::Mul, "dual * &dual", &x, Some((v, Some(a))), guarded(|| c(&x) * &y), $eps);
    }};
}
macro_rules! signs {
    ($k:ident, $x:expr; $V:ty, $A:ty) => {{
        let x: Dual<$V, $A> = $x;
        rule($k, Op::Neg, "-dual", &x, None, guarded(|| -x.clone()), 0.0);
        rule($k, Op::Conj, "conj", &x, None, guarded(|| x.clone().conj()), 0.0);
    }};
}
macro_rules! integers { ($k:ident, $t:ident, $($F:ident $lo:literal $hi:literal $signed:tt;)+) => { $( {
    let mut r = $k.rng(stringify!($F), $t as u64);
    // Right operands below left ones so that unsigned differences exist.
    let mut big = || { r.int($hi / 2, $hi) as $F };
    let x = dual!(big(), big());
    let wx = dual!(W([big(), big(), big()]), W([big(), big(), big()]));
    let mut small = || { r.int($lo, $hi / 2) as $F };
    let y = dual!(small(), small());
    let wy = dual!(W([small(), small(), small()]), W([small(), small(), small()]));
    arithmetic!($k, x, y, 0.0; $F, $F);
    arithmetic!($k, wx, wy, 0.0; W<$F>, W<$F>);
    integers!(@ $signed $k x wx $F);
} )+ };
    (@ signed $k:ident $x:ident $wx:ident $F:ident) => { signs!($k, $x; $F, $F); signs!($k, $wx; W<$F>, W<$F>); };
    (@ unsigned $k:ident $x:ident $wx:ident $F:ident) => { };
}

fn wild(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE]),
        1..=3 => r.int(-9, 9) as f64,
        _ => r.range(-1.0, 1.0) * 10f64.powi(r.int(-12, 12) as i32),
    }
}
fn floats(k: &mut Check, t: usize) {
    let mut rr = k.rng("floats", t as u64);
    let mut x = || wild(&mut rr);
    arithmetic!(k, dual!(x(), x()), dual!(x(), x()), 0.0; f64, f64);
    arithmetic!(k, dual!(W([x(), x(), x()]), W([x(), x(), x()])), dual!(W([x(), x(), x()]), W([x(), x(), x()])), 0.0; W<f64>, W<f64>);
    arithmetic!(k, dual!(x(), W([x(), x(), x()])), dual!(x(), W([x(), x(), x()])), 0.0; f64, W<f64>);
    signs!(k, dual!(x(), x()); f64, f64);
    signs!(k, dual!(W([x(), x(), x()]), W([x(), x(), x()])); W<f64>, W<f64>);
    signs!(k, dual!(x(), W([x(), x(), x()])); f64, W<f64>);
    let mut y = || { let v = rr.range(-1.0, 1.0) * 10f64.powi(rr.int(-6, 6) as i32); v as f32 };
    arithmetic!(k, dual!(y(), y()), dual!(y(), y()), 3e-7; f32, f32);
    signs!(k, dual!(y(), y()); f32, f32);
}

/// A random straight-line program over duals, against plain arithmetic on perturbed inputs: with
/// h = 2^40, f(x + h a) = f(x) + h f'(x; a) modulo h^2.
fn programs(k: &mut Check, t: usize) {
    let mut rr = k.rng("programs", t as u64);
    let r = &mut rr;
    let n = 2 + r.below(3);
    let h = 1i128 << 40;
    let mut duals: Vec<Dual<i64>> = (0..n).map(|_| { let v = r.int(-6, 6); match r.below(3) { 0 => Dual::variable(v), 1 => Dual::constant(v), _ => Dual::from((v, r.int(-4, 4))) } }).collect();
    let mut plain: Vec<i128> = duals.iter().map(|d| d.value as i128 + h * d.adjoint as i128).collect();
    let mut text = format!("{duals:?}");
    for _ in 0..1 + r.below(12) {
        let (i, j, op, c) = (r.below(duals.len()), r.below(duals.len()), r.below(11), r.int(-5, 5));
        let (x, y) = (duals[i], duals[j]);
        let (p, q) = (plain[i], plain[j]);
        let (d, s): (Result<Dual<i64>, String>, i128) = match op {
            0 => (guarded(|| x + y), p + q), 1 => (guarded(|| x + &y), p + q), 2 => (guarded(|| x - y), p - q), 3 => (guarded(|| x - &y), p - q),
            4 => (guarded(|| x * y), p.wrapping_mul(q)), 5 => (guarded(|| x * &y), p.wrapping_mul(q)), 6 => (guarded(|| -x), -p),
            7 => (guarded(|| x + c), p + c as i128), 8 => (guarded(|| x - &c), p - c as i128), 9 => (guarded(|| x * c), p.wrapping_mul(c as i128)), _ => (guarded(|| x * &c), p.wrapping_mul(c as i128)),
        };
        text += &format!("; op {op} {i} {j} {c}");
        let m = 1i128 << 80;
        let s = s.rem_euclid(m);
        // Read value and adjoint out of the perturbed result.
        let mut v = s.rem_euclid(h);
        if v >= h / 2 { v -= h; }
        let mut a = ((s - v) / h).rem_euclid(h);
        if a >= h / 2 { a -= h; }
        k.count("program steps");
        match d {
            Ok(d) if (d.value as i128, d.adjoint as i128) == (v, a) => {
                if v.abs() > 1 << 18 || a.abs() > 1 << 18 { break }
                duals.push(d);
                plain.push(v + h * a);
            },
            d => { k.violation("a program over duals disagrees with exact perturbation", &format!("{text}\n  got {d:?}, want value {v} adjoint {a}")); break },
        }
    }
    k.case(&text, true);
}

/// Constructors and conjugation for buffers of every type.
fn constructors<B: Bx>(k: &mut Check, r: &mut Rng, n: usize) {
    let (b, d) = random::<B>(r, n);
    let c = d.len();
    let one = B::P::int(1);
    let zero = B::P::int(0);
    let name = B::name(n);
    k.case(&format!("constructors {name} {d:?}"), c > 0);
    k.count("constructors");
    for (what, got, adj) in [("variable", guarded(|| Dual::variable(b.clone())), one), ("constant", guarded(|| Dual::constant(b.clone())), zero), ("dual!(v)", guarded(|| dual!(b.clone())), zero)] {
        match got {
            Ok(g) if g.value.data().same(&d) && g.adjoint.data().same(&vec![adj; c]) && B::sdims(&g.adjoint.shape()) == B::dims(n) => {},
            g => k.violation(&format!("{what} constructor"), &format!("{name} {d:?}: {g:?}")),
        }
    }
    let (a, e) = random::<B>(r, n);
    for (what, g) in [("dual!(v, a)", dual!(b.clone(), a.clone())), ("from a pair", Dual::from((b.clone(), a.clone())))] {
        if !g.value.data().same(&d) || !g.adjoint.data().same(&e) { k.violation(what, &format!("{name}: {g:?} from {d:?} {e:?}")) }
    }
}
fn conjugate<B: Bx>(k: &mut Check, r: &mut Rng, n: usize) where B::P: Neg<Output = B::P> {
    let ((v, d), (a, e)) = (random::<B>(r, n), random::<B>(r, n));
    k.count("conjugations");
    let want: Vec<B::P> = e.iter().map(|x| -*x).collect();
    match guarded(|| dual!(v.clone(), a.clone()).conj()) {
        Ok(g) if g.value.data().same(&d) && g.adjoint.data().same(&want) => {},
        g => k.violation("conjugation", &format!("{}: {g:?} from {d:?} {e:?}", B::name(n))),
    }
    match guarded(|| dual!("any value", a.clone()).conj().conj()) {
        Ok(g) if g.value == "any value" && g.adjoint.data().same(&e) => {},
        g => k.violation("conjugation twice", &format!("{}: {g:?} from {e:?}", B::name(n))),
    }
}

fn run(k: &mut Check) {
    for t in 0..k.n(1500, 60_000) {
        if k.many() { break }
        integers!(k, t, i64 -1000 1000 signed; i32 -1000 1000 signed; isize -99 99 signed; i16 -50 50 signed; i8 -7 7 signed;
            u8 0 10 unsigned; u16 0 90 unsigned; u32 0 900 unsigned; u64 0 900 unsigned; usize 0 900 unsigned;);
        floats(k, t);
        programs(k, t);
    }
    for t in 0..k.n(10, 500) {
        let mut r = k.rng("constructors", t as u64);
        checks::wild(t % 2 == 1);
        if t % 2 == 1 { k.count("rounds with extreme values"); }
        for_buffers!(f64, |T, n| { constructors::<T>(k, &mut r, n); conjugate::<T>(k, &mut r, n); });
        for_types!(f32, |T, n| { constructors::<T>(k, &mut r, n); conjugate::<T>(k, &mut r, n); });
        for_types!(u8, |T, n| { constructors::<T>(k, &mut r, n); });
        checks::wild(false);
        for_types!(i32, |T, n| { constructors::<T>(k, &mut r, n); conjugate::<T>(k, &mut r, n); });
    }
    k.need("operations", 200_000);
    k.need("program steps", 3_000);
    k.need("constructors", 1000);
    k.need("conjugations", 800);
    k.need_distinct(50_000);
}

fn main() {
    drive(Check::new("C18", "one operation on duals of one type with generated parts, one program over duals, or one constructor; distinct by operation and operands"), run)
}

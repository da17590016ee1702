//! Every scalar operator, in both precisions, behind one signature: an expression that is kept and shared,
//! asked for everything it can answer at one number. Answers are bits.
use aegir::ids::X;
use aegir::meta::{Constant, Variable};
use aegir::ops::special::{DiGamma, Erf, Erfc, Factorial, Gamma, LogGamma};
use aegir::ops::trig::*;
use aegir::ops::*;
use aegir::{ctx_type, Context, Differentiable, Function, Node as _};

ctx_type!(C { x: X });

pub struct Entry { pub name: String, pub native: bool, pub run: Box<dyn Fn(f64) -> Vec<u64>>,
    /// Its value alone.
    pub value: Box<dyn Fn(f64) -> u64>,
    /// The lifted value and the shape alone.
    pub lifted: Box<dyn Fn(f64) -> u64> }
// Whether the expressions may be shared is what is examined.
unsafe impl Send for Entry {}
unsafe impl Sync for Entry {}

fn hash(s: &str) -> u64 { support::hash_str(s) }
fn b64(x: f64) -> u64 { if x.is_nan() { u64::MAX } else { x.to_bits() } }
fn b32(x: f32) -> u64 { if x.is_nan() { u32::MAX as u64 } else { x.to_bits() as u64 } }

macro_rules! ask {
    ($n:ident $F:ident $b:ident $x:ident full) => {{ let mut v = ask!($n $F $b $x plain);
        v.push($n.adjoint(X).evaluate(C { x: $x }).map_or(1, |y| $b(y)));
        v.push($n.evaluate_dual(X, C { x: $x }).map_or(1, |y| $b(y.value) ^ $b(y.adjoint).rotate_left(32)));
        v.push(hash(&$n.adjoint(X).to_string()));
        v }};
    ($n:ident $F:ident $b:ident $x:ident dual) => {{ let mut v = ask!($n $F $b $x plain);
        v.push($n.adjoint(X).evaluate(C { x: $x }).map_or(1, |y| $b(y)));
        v.push($n.evaluate_dual(X, C { x: $x }).map_or(1, |y| $b(y.value) ^ $b(y.adjoint).rotate_left(32)));
        v }};
    ($n:ident $F:ident $b:ident $x:ident plain) => {{
        let mut v = vec![$n.evaluate(C { x: $x }).map_or(1, |y| $b(y))];
        v.push($n.evaluate_spec(C { x: $x }).map_or(1, |y| $b(y.unwrap())));
        v.push($n.evaluate(C { x: [$x, 0.5, -$x] }).map_or(1, |y| $b(y[0]) ^ $b(y[1]).rotate_left(21) ^ $b(y[2]).rotate_left(42)));
        v.push($n.evaluate(C { x: vec![$x; 2] }).map_or(1, |y| $b(y[0]) ^ $b(y[1]).rotate_left(32) ^ y.len() as u64));
        v.push($n.evaluate_shape(C { x: [$x; 3] }).is_ok() as u64);
        v.push(hash(&$n.to_string()));
        v }};
    ($n:ident $F:ident $b:ident $x:ident scalar) => {{
        let mut v = vec![$n.evaluate(C { x: $x }).map_or(1, |y| $b(y))];
        v.push($n.evaluate_spec(C { x: $x }).map_or(1, |y| $b(y.unwrap())));
        v.push(hash(&$n.to_string()));
        v.push($n.adjoint(X).evaluate(C { x: $x }).map_or(1, |y| $b(y)));
        v }};
}
macro_rules! entries {
    ($out:ident $F:ident $b:ident; $($kind:ident $native:literal $name:literal = $e:expr;)*) => { $( {
        let n = $e;
        $out.push(Entry { name: format!("{} ({})", $name, stringify!($F)), native: $native, run: Box::new(move |x: f64| { let x = x as $F; ask!(n $F $b x $kind) }),
            value: Box::new(move |x: f64| n.evaluate(C { x: x as $F }).map_or(1, |y| $b(y))),
            lifted: Box::new(move |x: f64| n.evaluate_spec(C { x: x as $F }).map_or(1, |y| $b(y.unwrap())) ^ n.evaluate_shape(C { x: x as $F }).is_ok() as u64) });
    } )* };
}
macro_rules! all {
    ($out:ident $F:ident $b:ident) => {{
        let v = || Variable(X);
        entries! { $out $F $b;
            full false "SubOne" = SubOne(v()); full false "OneSub" = OneSub(v()); full false "AddOne" = AddOne(v()); full false "Square" = Square(v());
            full false "Double" = Double(v()); full false "Negate" = Negate(v()); plain false "Dirac" = Dirac(v()); plain false "Sign" = Sign(v()); full false "Abs" = Abs(v());
            full false "Ln" = Ln(v()); full false "XLnX" = XLnX(v()); full false "Exp" = Exp(v()); dual false "Rabbit" = Rabbit(v()); full false "Sigmoid" = Sigmoid(v());
            full true "Gamma" = Gamma(v()); plain true "DiGamma" = DiGamma(v()); full true "LogGamma" = LogGamma(v()); full true "Factorial" = Factorial::factorial(v());
            plain true "Erf" = Erf(v()); plain true "Erfc" = Erfc::erfc(v());
            full false "Cos" = Cos(v()); plain false "Cosh" = Cosh(v()); plain false "ArcCos" = ArcCos(v()); plain false "ArcCosh" = ArcCosh(v());
            full false "Sin" = Sin(v()); plain false "Sinh" = Sinh(v()); plain false "ArcSin" = ArcSin(v()); plain false "ArcSinh" = ArcSinh(v());
            plain false "Tan" = Tan(v()); plain false "Tanh" = Tanh(v()); plain false "ArcTan" = ArcTan(v()); plain false "ArcTanh" = ArcTanh(v());
            full false "x + (x + 1)" = v().add(AddOne(v())); full false "x - (1 - x)" = v().sub(OneSub(v())); full false "x * (x - 1)" = v().mul(SubOne(v())); full false "x / (x + 1)" = v().div(AddOne(v()));
            scalar false "x ^ 1.5" = v().pow(Constant(1.5 as $F)); scalar false "x ^ x" = v().pow(v());
            scalar false "x . x" = v().dot(AddOne(v()));
            full false "sigmoid(exp(-x))" = Sigmoid(Exp(Negate(v()))); full false "exp(sin(x)) ln" = Ln(AddOne(Square(Sin(v())))); full true "gamma of sigmoid" = Gamma(AddOne(Sigmoid(v())));
        }
    }};
}
/// `native`: with the operators that call native code.
pub fn table(native: bool) -> Vec<Entry> {
    let mut out: Vec<Entry> = vec![];
    all!(out f64 b64);
    all!(out f32 b32);
    out.retain(|e| native || !e.native);
    out
}
/// Numbers that both precisions represent, in pairs of opposite sign, on both sides of every threshold.
pub const NUMBERS: [f64; 28] = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.75, -0.75, 1.5, -1.5, 2.25, -2.25, 3.75, -3.75, 12.5, -12.5, 34.5, -34.5, 40.25, -40.25, 100.5, -100.5, 0.0009765625, -0.0009765625, 1.25, -1.25, 7.0, -7.0];

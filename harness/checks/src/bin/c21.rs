//! C21: identifiers are distinct names with their own symbol. Declarations are generated by
//! tools/gen_c21.py, which knows what every identifier must display and which are the same.
use aegir::buffers::shapes::{Shaped, S0};
use aegir::ids;
use aegir::{ops, Contains, Context, Differentiable, Function, Identifier, Node as _, Read};
use checks::*;
use support::*;

/// Every identifier has a value of its own: a number made from its name.
struct Scalars;
struct Vectors;
macro_rules! ctx { ($($C:ident)*) => { $(impl AsMut<$C> for $C { fn as_mut(&mut self) -> &mut $C { self } } impl Context for $C {})* } }
ctx!(Scalars Vectors);
fn number<I: Identifier>(i: I) -> f64 { 1.0 + (hash_str(&format!("{i:?}")) % 4096) as f64 }
impl<I: Identifier> Read<I> for Scalars { type Buffer = f64; fn read(&self, i: I) -> Option<f64> { Some(number(i)) } }
impl<I: Identifier> Read<I> for Vectors { type Buffer = [f64; 3]; fn read(&self, i: I) -> Option<[f64; 3]> { let x = number(i); Some([x, -x, 0.5 * x]) } }

fn one<I: Identifier + 'static>(k: &mut Check, at: &str, i: I, symbol: &str, name: &str) {
    k.case(&format!("{at}: {name} displays {symbol:?}"), true);
    k.count("symbols");
    let mut bad = |what: &str, got: String, want: &str| if got != want { k.violation(&format!("symbol of {at}::{name}"), &format!("{what}: {got:?}, expected {want:?}")) };
    bad("to_string", i.to_string(), symbol);
    bad("written into a text", format!("<{i}|{}>", i), &format!("<{symbol}|{symbol}>"));
    bad("with a precision", format!("{i:.1}"), symbol);
    bad("the variable, with a precision", format!("{:.0}", i.into_var()), symbol);
    let copy = i;
    bad("a copy", copy.to_string(), symbol);
    bad("a clone", i.clone().to_string(), symbol);
    bad("variable", i.into_var().to_string(), symbol);
    bad("sum of the variable and itself", i.into_var().add(i.into_var()).to_string(), &format!("{symbol} + {symbol}"));
    if i != copy || !(i == copy) { k.violation(&format!("equality of {at}::{name}"), "a copy is not equal to the original") }
}
/// Equality alone, in both directions.
fn equal<A: Identifier + PartialEq<B>, B: Identifier + PartialEq<A>>(k: &mut Check, at: &str, a: A, b: B, same: bool, eq: bool, ne: bool, qe: bool) {
    k.case(&format!("{at}: {a:?} and {b:?}"), true);
    k.count(if same { "equal pairs" } else { "distinct pairs" });
    if eq != same || ne == same || qe != same || PartialEq::<B>::eq(&a, &b) != same || PartialEq::<A>::ne(&b, &a) == same {
        k.violation(&format!("equality in {at}: {a:?} and {b:?}"), &format!("{a:?} == {b:?} is {eq}, {a:?} != {b:?} is {ne}, {b:?} == {a:?} is {qe}; they are {}", if same { "the same identifier" } else { "different identifiers" }));
    }
}
/// Equality, and through variables: contents and derivatives.
fn pair<A, B>(k: &mut Check, at: &str, a: A, b: B, same: bool, eq: bool, ne: bool, qe: bool)
where
    A: Identifier + PartialEq<B> + PartialEq<A> + 'static, B: Identifier + PartialEq<A> + PartialEq<B> + 'static,
{
    equal(k, at, a, b, same, eq, ne, qe);
    k.count("pairs through variables");
    let (x, y) = (a.into_var(), b.into_var());
    let (va, vb) = (number(a), number(b));
    let sign = format!("variables in {at}: {a:?} and {b:?}");
    let mut want = |what: &str, ok: bool, got: String| if !ok { k.violation(&sign, &format!("{what}: {got} ({})", if same { "the same identifier" } else { "different identifiers" })) };
    let c = Contains::<B>::contains(&x, b);
    want("a variable contains the other identifier", c == same, c.to_string());
    let c = Contains::<A>::contains(&y, a);
    want("the other variable contains the identifier", c == same, c.to_string());
    let c = Contains::<B>::contains(&ops::Sub(x, y), b);
    want("a difference contains its right identifier", c, c.to_string());
    let c = Contains::<B>::contains(&ops::AddOne(x), b);
    want("a successor contains the other identifier", c == same, c.to_string());

    let one = if same { 1.0 } else { 0.0 };
    let d = Differentiable::<B>::adjoint(&x, b).evaluate(&mut Scalars);
    want("derivative of the variable", matches!(d, Ok(v) if v == one), format!("{d:?}"));
    let d = Differentiable::<B>::evaluate_adjoint(&x, b, &mut Scalars);
    want("derivative of the variable, in one call", matches!(d, Ok(v) if v == one), format!("{d:?}"));
    let d = Differentiable::<B>::adjoint(&x, b).evaluate_spec(&mut Scalars).map(|s| s.unwrap());
    want("lifted derivative of the variable", matches!(d, Ok(v) if v == one), format!("{d:?}"));
    let d = Differentiable::<B>::adjoint(&x, b).evaluate_shape(&mut Scalars);
    want("shape of the derivative", matches!(d, Ok(S0)), format!("{d:?}"));
    let d = Differentiable::<B>::adjoint(&x, b).evaluate(&mut Vectors);
    let id: Vec<f64> = (0..9).map(|f| if f % 4 == 0 { one } else { 0.0 }).collect();
    want("Jacobian of the variable", matches!(&d, Ok(m) if m.data() == id), format!("{d:?}"));
    let d = Differentiable::<B>::adjoint(&x, b).evaluate_shape(&mut Vectors).map(|s| <[[f64; 3]; 3]>::sdims(&s));
    want("shape of the Jacobian", matches!(&d, Ok(s) if *s == [3, 3]), format!("{d:?}"));
    // d(a·b)/da = b, or 2a.
    let f = ops::Mul(x, y);
    let d = Differentiable::<A>::adjoint(&f, a).evaluate(&mut Scalars);
    want("derivative of the product in the first", matches!(d, Ok(v) if v == if same { va + va } else { vb }), format!("{d:?}"));
    let d = Differentiable::<B>::adjoint(&f, b).evaluate(&mut Scalars);
    want("derivative of the product in the second", matches!(d, Ok(v) if v == if same { va + va } else { va }), format!("{d:?}"));
    let d = Differentiable::<B>::adjoint(&ops::Sub(x, y), b).evaluate(&mut Scalars);
    want("derivative of the difference in the second", matches!(d, Ok(v) if v == one - 1.0), format!("{d:?}"));
    let v = f.evaluate(&mut Scalars);
    want("value of the product", matches!(v, Ok(v) if v == va * vb), format!("{v:?}"));
}
mod decl {
    #![allow(unused, non_camel_case_types, non_snake_case, uncommon_codepoints, confusable_idents, mixed_script_confusables, clippy::all)]
    use super::*;
    include!(concat!(env!("VERIF_GEN"), "/c21.rs"));
}
fn run(k: &mut Check) {
    decl::all(k);
    // Letters are all different.
    k.need("symbols", 60);
    k.need("distinct pairs", 2400);
    k.need("pairs through variables", 300);
}
fn main() { let _ = [0.0f64].shape(); drive(Check::new("C21", "an identifier, or an ordered pair of them"), run) }

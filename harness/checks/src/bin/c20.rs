//! C20: the expression macro builds the expression that was written. The formulas (and what each
//! denotes, as postfix) are generated by tools/gen_c20.py.
#![recursion_limit = "1024"]
use aegir::ids::{A, V, W, X, Y, Z};
use aegir::meta::{Constant, Variable};
use aegir::ops::{self, Exp};
use aegir::{aegir, Contains, Context, Differentiable, Function, Identifier, Node as _, Read};
use checks::*;
use dynx::gen::number;
use dynx::refr::*;
use dynx::*;
use support::*;

#[derive(Clone, Debug)]
pub struct G<F> { s: [F; 3], v: [[F; 3]; 2] }
impl<F> AsMut<G<F>> for G<F> { fn as_mut(&mut self) -> &mut Self { self } }
impl<F> Context for G<F> {}
macro_rules! reads { ($($I:ident $f:ident $i:literal $T:ty;)*) => { $(
    impl<F: Prim> Read<$I> for G<F> { type Buffer = $T; fn read(&self, _: $I) -> Option<$T> { Some(self.$f[$i]) } }
)* } }
reads! { X s 0 F; Y s 1 F; Z s 2 F; V v 0 [F; 3]; W v 1 [F; 3]; }

// What generated formulas mention.
const K: Constant<f64> = Constant(1.5);
const T: bool = true;
const ONE: usize = 1;
#[derive(Clone, Copy)]
struct Rec<N> { a: N }
fn same<N>(n: N) -> N { n }
fn both<L: aegir::Node, R: aegir::Node>(l: L, r: R) -> ops::Sub<L, R> { l.sub(r) }
fn boxed<N>(n: N) -> Box<N> { Box::new(n) }
fn flag(b: bool) -> bool { std::hint::black_box(b) }
trait Half: aegir::buffers::Buffer { const HALF: Self; }
impl Half for f64 { const HALF: f64 = 2.5; }
fn make<H: Half>() -> Constant<H> { Constant(H::HALF) }
macro_rules! half { () => { Constant(0.5f64) } }
macro_rules! prod { ($a:expr; $b:expr) => { aegir!($a * $b) } }
macro_rules! less { ($a:expr, $b:expr) => { aegir!($a - $b) } }
macro_rules! power { ($a:expr, $b:expr) => { aegir!($a ^ $b) } }
macro_rules! square { ($a:expr) => { aegir!($a ^ 2) } }
macro_rules! to { ($a:expr, $p:literal) => { aegir!($a ^ $p) } }

fn read_postfix(s: &str) -> dynx::Node {
    let mut st: Vec<dynx::Node> = vec![];
    let n = |tag: Tag, k: dynx::K| dynx::Node { tag, id: 0, k };
    for t in s.split(' ') {
        let new = match t {
            "x0" | "x1" | "x2" => n(Tag::S, dynx::K::Var(t.as_bytes()[1] - b'0')),
            "v0" | "v1" => n(Tag::V3, dynx::K::Var(t.as_bytes()[1] - b'0')),
            "+" | "-" | "*" | "/" | "^" | "dot" => {
                let b = st.pop().unwrap(); let a = st.pop().unwrap();
                let tag = if t == "dot" { Tag::S } else if a.tag == Tag::V3 || b.tag == Tag::V3 { Tag::V3 } else { Tag::S };
                let op = match t { "+" => Op::Add, "-" => Op::Sub, "*" => Op::Mul, "/" => Op::Div, "^" => Op::Power, _ => Op::Dot };
                n(tag, dynx::K::Bin(op, Box::new(a), Box::new(b)))
            },
            "ln" | "abs" | "neg" | "sq" | "sig" | "exp" | "cos" => {
                let a = st.pop().unwrap();
                let u = match t { "ln" => U::Ln, "abs" => U::Abs, "neg" => U::Negate, "sq" => U::Square, "sig" => U::Sigmoid, "exp" => U::Exp, _ => U::Cos };
                n(a.tag, dynx::K::Un(u, Box::new(a)))
            },
            c => n(Tag::S, dynx::K::Const(Rep::Plain, vec![c[1..].parse().unwrap()])),
        };
        st.push(new);
    }
    assert_eq!(st.len(), 1);
    st.pop().unwrap()
}
fn point(r: &mut Rng, int: bool) -> Vec<f64> {
    (0..9).map(|_| if int { r.int(-6, 6) as f64 } else if r.chance(2, 3) { r.range(0.3, 2.5) } else { number(r, true) }).collect()
}
fn ctx_of<F: Prim>(p: &[f64], conv: impl Fn(f64) -> F) -> (G<F>, MCtx) {
    let g = G { s: [conv(p[0]), conv(p[1]), conv(p[2])], v: [[conv(p[3]), conv(p[4]), conv(p[5])], [conv(p[6]), conv(p[7]), conv(p[8])]] };
    let mut m = MCtx::new();
    m.s = p[..3].iter().map(|x| Some(Slot::raw(*x))).collect();
    m.v3 = vec![Some(Slot::raw([p[3], p[4], p[5]])), Some(Slot::raw([p[6], p[7], p[8]]))];
    (g, m)
}
fn plain<B: Bx, E: std::fmt::Debug>(r: Result<Result<B, E>, String>) -> Result<(Vec<usize>, Vec<f64>), String> {
    match r { Ok(Ok(b)) => Ok((B::sdims(&aegir::buffers::shapes::Shaped::shape(&b)), b.data().iter().map(|x| x.f()).collect())), Ok(Err(e)) => Err(format!("{e:?}")), Err(p) => Err(p) }
}

fn judge<F: Prim, B: Bx<P = F>, E>(k: &mut Check, what: &str, text: &str, post: &str, e: E, conv: impl Fn(f64) -> F + Copy)
where
    E: Function<G<F>, Value = B> + Contains<X> + Contains<Y> + Contains<Z> + Contains<A> + Differentiable<X> + Differentiable<Y> + Differentiable<Z>,
    <E as Function<G<F>>>::Error: std::fmt::Debug,
    <E as Differentiable<X>>::Adjoint: Function<G<F>, Value = B>, <E as Differentiable<Y>>::Adjoint: Function<G<F>, Value = B>, <E as Differentiable<Z>>::Adjoint: Function<G<F>, Value = B>,
    <<E as Differentiable<X>>::Adjoint as Function<G<F>>>::Error: std::fmt::Debug, <<E as Differentiable<Y>>::Adjoint as Function<G<F>>>::Error: std::fmt::Debug, <<E as Differentiable<Z>>::Adjoint as Function<G<F>>>::Error: std::fmt::Debug,
{
    if k.many() { return }
    let node = read_postfix(post);
    let mut r = k.rng(text, 0);
    k.count("formulas");
    k.count(&format!("formulas: {what}"));
    let has = [Contains::<X>::contains(&e, X), Contains::<Y>::contains(&e, Y), Contains::<Z>::contains(&e, Z)];
    for i in 0..3u8 { if has[i as usize] != node.occurs(0, i) { k.violation(&format!("formula: {text}"), &format!("aegir!({text}) reports containing {} = {}", ["X", "Y", "Z"][i as usize], has[i as usize])); return } }
    if Contains::<A>::contains(&e, A) { k.violation(&format!("formula: {text}"), "reports containing an identifier that was not written"); return }
    let mut compared = 0;
    for _ in 0..k.n(24, 400) {
        let p = point(&mut r, F::NAME == "i64");
        let (mut g, m) = ctx_of::<F>(&p, conv);
        let at = format!("aegir!({text})\nmust denote (postfix) {post}\nat x,y,z = {:?}, v = {:?}, w = {:?}", &p[..3], &p[3..6], &p[6..]);
        if let Ok(v) = reference(&node, &m, 0, &[], 0, 0, false) {
            let got = plain(guarded(|| e.evaluate(&mut g)));
            k.case(&format!("{text} at {:?}", &p[..3]), node.size() > 1);
            k.count("values compared");
            compared += 1;
            let why = match &got { Ok((d, x)) => v.check(d, x).err(), Err(s) => Some(s.clone()) };
            if let Some(why) = why { k.violation(&format!("formula: {text}"), &format!("{at}\nvalue: {why}")); return }
        }
        for t in 0..3u8 {
            let Ok(v) = reference(&node, &m, 0, &[Seed { kind: 0, ix: t, comp: 0, gen: 0 }], 1, 1, false) else { continue };
            let got = match t {
                0 => plain(guarded(|| Differentiable::<X>::adjoint(&e, X).evaluate(&mut g))),
                1 => plain(guarded(|| Differentiable::<Y>::adjoint(&e, Y).evaluate(&mut g))),
                _ => plain(guarded(|| Differentiable::<Z>::adjoint(&e, Z).evaluate(&mut g))),
            };
            k.case(&format!("d/d{t} {text} at {:?}", &p[..3]), node.size() > 1);
            k.count("derivatives compared");
            let why = match &got { Ok((d, x)) => v.check(d, x).err(), Err(s) => Some(s.clone()) };
            if let Some(why) = why { k.violation(&format!("formula: {text}"), &format!("{at}\nderivative in {}: {why}", ["x", "y", "z"][t as usize])); return }
        }
    }
    if compared > 0 { k.count("formulas with values compared") }
}
macro_rules! judges { ($($name:ident $F:ty, $B:ty, $w:literal;)*) => { $(
    fn $name<E>(k: &mut Check, text: &str, post: &str, e: E)
    where
        E: Function<G<$F>, Value = $B> + Contains<X> + Contains<Y> + Contains<Z> + Contains<A> + Differentiable<X> + Differentiable<Y> + Differentiable<Z>,
        <E as Function<G<$F>>>::Error: std::fmt::Debug,
        <E as Differentiable<X>>::Adjoint: Function<G<$F>, Value = $B>, <E as Differentiable<Y>>::Adjoint: Function<G<$F>, Value = $B>, <E as Differentiable<Z>>::Adjoint: Function<G<$F>, Value = $B>,
        <<E as Differentiable<X>>::Adjoint as Function<G<$F>>>::Error: std::fmt::Debug, <<E as Differentiable<Y>>::Adjoint as Function<G<$F>>>::Error: std::fmt::Debug, <<E as Differentiable<Z>>::Adjoint as Function<G<$F>>>::Error: std::fmt::Debug,
    { judge::<$F, $B, E>(k, $w, text, post, e, |x| x as $F) }
)* } }
judges! { judgeS f64, f64, "scalar"; judgeV f64, [f64; 3], "vector"; judgeI i64, i64, "integer"; }

/// A literal alone and next to a variable, against the literal as the compiler reads it.
fn literal<F: Prim, C, D, A, E>(k: &mut Check, text: &str, alone: C, minus: D, plus: A, outer: E, l: F)
where
    C: Function<G<F>, Value = F>, D: Function<G<F>, Value = F>, A: Function<G<F>, Value = F>, E: Function<G<F>, Value = F>,
    F: Bx<P = F> + std::ops::Sub<Output = F>, C::Error: std::fmt::Debug, D::Error: std::fmt::Debug, A::Error: std::fmt::Debug, E::Error: std::fmt::Debug,
{
    if k.many() { return }
    k.count("literals");
    k.count(&format!("literals of {}", F::NAME));
    // Operands whose sums and differences with the literal exist in the field.
    let z = F::int(0);
    for (x, y) in [(z, z), (l, z), (l, F::int(1) - F::int(1)), (F::int(0), z - l)] {
        let (mut g, _) = ctx_of::<F>(&[0.0; 9], |_| z);
        g.s = [x, y, z];
        k.case(&format!("literal {text} at {x:?} {y:?}"), true);
        let mut same = |what: &str, got: Result<Result<F, String>, String>, want: F| {
            k.count("literal values compared");
            if !matches!(&got, Ok(Ok(v)) if v.same(&want)) { k.violation(&format!("literal: {text}"), &format!("{what} at x = {x:?}, y = {y:?}: {got:?}, the literal is {l:?}")) }
        };
        same(&format!("aegir!({text})"), guarded(|| alone.evaluate(&mut g).map_err(|e| format!("{e:?}"))), l);
        same(&format!("aegir!(x - {text})"), guarded(|| minus.evaluate(&mut g).map_err(|e| format!("{e:?}"))), x - l);
        if x == z { same(&format!("aegir!({text} + x)"), guarded(|| plus.evaluate(&mut g).map_err(|e| format!("{e:?}"))), l + x); }
        same(&format!("aegir!((y + {text}) - x)"), guarded(|| outer.evaluate(&mut g).map_err(|e| format!("{e:?}"))), y + l - x);
    }
}

/// A literal as an exponent, against the power function, where neighbouring exponents are told apart.
fn exponent<C, D, E>(k: &mut Check, text: &str, alone: C, product: D, sum: E, l: f64)
where
    C: Function<G<f64>, Value = f64>, D: Function<G<f64>, Value = f64>, E: Function<G<f64>, Value = f64>, C::Error: std::fmt::Debug, D::Error: std::fmt::Debug, E::Error: std::fmt::Debug,
{
    if k.many() { return }
    k.count("exponents");
    for b in [1e150, 1e-150, 3e148, 1e10, 7.0, 0.3, 1.0, 2.0] {
        let (mut g, _) = ctx_of::<f64>(&[0.0; 9], |_| 0.0);
        // x, a product that is x and a sum that is x.
        g.s = [b, 1.0, 0.0];
        let mut h = g.clone();
        h.s = [b / 2.0, b / 2.0, 0.0];
        let want = b.powf(l);
        for (what, got) in [
            (format!("aegir!(x ^ {text})"), guarded(|| alone.evaluate(&mut g).map_err(|e| format!("{e:?}")))),
            (format!("aegir!(y * x ^ {text}) at y = 1"), guarded(|| product.evaluate(&mut g).map_err(|e| format!("{e:?}")))),
            (format!("aegir!((x + y) ^ {text}) at x + y"), guarded(|| sum.evaluate(&mut h).map_err(|e| format!("{e:?}")))),
        ] {
            k.case(&format!("{what} {b:?}"), true);
            k.count("exponent values compared");
            if !matches!(&got, Ok(Ok(v)) if *v == want || (*v - want).abs() <= 1e-15 * want.abs()) { k.violation(&format!("exponent: {text}"), &format!("{what} at {b:?}: {got:?}, the power is {want:?}")) }
        }
    }
}

mod formulas {
    #![allow(unused, clippy::all)]
    use super::*;
    include!(concat!(env!("VERIF_GEN"), "/c20.rs"));
}
fn run(k: &mut Check) {
    formulas::all(k);
    k.need("formulas with values compared", 200);
    k.need("derivatives compared", 4000);
    k.need("literals of i64", 50);
    k.need("literals of f64", 50);
    k.need("literal values compared", 1500);
    k.need("exponent values compared", 500);
}
fn main() { drive(Check::new("C20", "formula of at least one operator, in its domain"), run) }

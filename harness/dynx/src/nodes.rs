//! Type-erased nodes wrapping real aegir operators.
use crate::ctx::*;
use aegir::buffers::{shapes::{IncompatibleShapes, Shape, ShapeOf}, Buffer, Spec};
use aegir::errors::{BinaryError, NoError, UnaryError};
use aegir::fmt::{Expr, ToExpr};
use aegir::meta::SourceError;
use aegir::{Contains, Differentiable, Function, Node};
use std::fmt::Debug;
use std::sync::Arc;

// ------------------------------------------------------------------ errors
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DErr { Undef(String), Shapes(String, String), L(Box<DErr>), R(Box<DErr>), O(Box<DErr>), I(Box<DErr>) }
impl std::fmt::Display for DErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for DErr {}
impl DErr {
    pub fn root(&self) -> &DErr { match self { DErr::L(e) | DErr::R(e) | DErr::O(e) | DErr::I(e) => e.root(), e => e } }
}
pub trait ErrInfo: std::error::Error { fn info(&self) -> DErr; }
impl ErrInfo for DErr { fn info(&self) -> DErr { self.clone() } }
impl ErrInfo for NoError { fn info(&self) -> DErr { match *self {} } }
impl<I: Debug> ErrInfo for SourceError<I> {
    fn info(&self) -> DErr { let SourceError::Undefined(i) = self; DErr::Undef(format!("{:?}", i)) }
}
impl<L: Shape, R: Shape> ErrInfo for IncompatibleShapes<L, R> {
    fn info(&self) -> DErr { DErr::Shapes(self.left.to_string(), self.right.to_string()) }
}
impl<L: ErrInfo, R: ErrInfo, O: ErrInfo> ErrInfo for BinaryError<L, R, O> {
    fn info(&self) -> DErr {
        match self {
            BinaryError::Left(e) => DErr::L(Box::new(e.info())),
            BinaryError::Right(e) => DErr::R(Box::new(e.info())),
            BinaryError::Output(e) => DErr::O(Box::new(e.info())),
        }
    }
}
impl<I: ErrInfo, O: ErrInfo> ErrInfo for UnaryError<I, O> {
    fn info(&self) -> DErr {
        match self { UnaryError::Inner(e) => DErr::I(Box::new(e.info())), UnaryError::Output(e) => DErr::O(Box::new(e.info())) }
    }
}

// ------------------------------------------------------------------ sorts
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tag { S, V2, V3, M22, M23, M32, M33, T3, Vc, Tp }
pub const TAGS: [Tag; 10] = [Tag::S, Tag::V2, Tag::V3, Tag::M22, Tag::M23, Tag::M32, Tag::M33, Tag::T3, Tag::Vc, Tag::Tp];
impl Tag {
    pub fn kind(self) -> usize { self as usize }
    /// Dimensions (`n` is the run-time length used for the dynamically sized sort).
    pub fn dims(self, n: usize) -> Vec<usize> {
        match self {
            Tag::S => vec![], Tag::V2 => vec![2], Tag::V3 => vec![3], Tag::M22 => vec![2, 2], Tag::M23 => vec![2, 3],
            Tag::M32 => vec![3, 2], Tag::M33 => vec![3, 3], Tag::T3 => vec![2, 3, 2], Tag::Vc => vec![n], Tag::Tp => vec![2],
        }
    }
}

pub trait Sort: Buffer<Field = f64> + PartialEq + Debug + Send + Sync + 'static {
    const TAG: Tag;
    type VAdj: Sort;
    fn from_data(d: &[f64]) -> Self;
    fn data(&self) -> Vec<f64>;
    fn mkshape(n: usize) -> ShapeOf<Self>;
    fn sdims(s: &ShapeOf<Self>) -> Vec<usize>;
}
macro_rules! sort {
    ($T:ty, $tag:ident, $va:ty, |$d:ident| $from:expr, |$s:ident| $to:expr, $sh:expr, $dims:expr) => {
        impl Sort for $T {
            const TAG: Tag = Tag::$tag;
            type VAdj = $va;
            fn from_data($d: &[f64]) -> Self { $from }
            fn data(&self) -> Vec<f64> { let $s = self; $to }
            fn mkshape(_n: usize) -> ShapeOf<Self> { $sh }
            fn sdims(_: &ShapeOf<Self>) -> Vec<usize> { $dims }
        }
    };
}
use aegir::buffers::shapes::{SDynamic, S0, S1, S2, S3};
sort!(f64, S, V3, |d| d[0], |s| vec![*s], S0, vec![]);
sort!(V2, V2, f64, |d| [d[0], d[1]], |s| s.to_vec(), S1, vec![2]);
sort!(V3, V3, M33, |d| [d[0], d[1], d[2]], |s| s.to_vec(), S1, vec![3]);
sort!(M22, M22, f64, |d| [[d[0], d[1]], [d[2], d[3]]], |s| s.iter().flatten().copied().collect(), S2, vec![2, 2]);
sort!(M23, M23, f64, |d| [[d[0], d[1], d[2]], [d[3], d[4], d[5]]], |s| s.iter().flatten().copied().collect(), S2, vec![2, 3]);
sort!(M32, M32, f64, |d| [[d[0], d[1]], [d[2], d[3]], [d[4], d[5]]], |s| s.iter().flatten().copied().collect(), S2, vec![3, 2]);
sort!(M33, M33, f64, |d| [[d[0], d[1], d[2]], [d[3], d[4], d[5]], [d[6], d[7], d[8]]], |s| s.iter().flatten().copied().collect(), S2, vec![3, 3]);
sort!(T3, T3, f64, |d| [[[d[0], d[1]], [d[2], d[3]], [d[4], d[5]]], [[d[6], d[7]], [d[8], d[9]], [d[10], d[11]]]],
    |s| s.iter().flatten().flatten().copied().collect(), S3, vec![2, 3, 2]);
sort!(Tp, Tp, f64, |d| (d[0], d[1]), |s| vec![s.0, s.1], S1, vec![2]);
impl Sort for Vc {
    const TAG: Tag = Tag::Vc;
    type VAdj = f64;
    fn from_data(d: &[f64]) -> Self { d.to_vec() }
    fn data(&self) -> Vec<f64> { self.clone() }
    fn mkshape(n: usize) -> ShapeOf<Self> { SDynamic([n]) }
    fn sdims(s: &ShapeOf<Self>) -> Vec<usize> { s.0.to_vec() }
}

/// Elements a lifted buffer stands for, computed without the library.
pub fn spec_data<B: Sort>(s: &Spec<B>) -> (Vec<usize>, Vec<f64>) {
    let n = |d: &Vec<usize>| d.iter().product::<usize>();
    match s {
        Spec::Raw(b) => (B::sdims(&aegir::buffers::shapes::Shaped::shape(b)), b.data()),
        Spec::Full(sh, x) => { let d = B::sdims(sh); let c = n(&d); (d, vec![*x; c]) },
        Spec::Diagonal(sh, x) => {
            let d = B::sdims(sh);
            let c = n(&d);
            let v = (0..c).map(|i| {
                let mut r = i; let mut ix = vec![0; d.len()];
                for a in (0..d.len()).rev() { ix[a] = r % d[a]; r /= d[a]; }
                if ix.windows(2).all(|w| w[0] == w[1]) { *x } else { 0.0 }
            }).collect();
            (d, v)
        },
        _ => panic!("unknown lifted representation"),
    }
}

// ------------------------------------------------------------------ erased nodes
pub trait Obj<B: Sort> {
    fn id(&self) -> u32;
    fn eval(&self, c: &mut MCtx) -> Result<B, DErr>;
    fn eval_spec(&self, c: &mut MCtx) -> Result<Spec<B>, DErr>;
    fn eval_shape(&self, c: &mut MCtx) -> Result<ShapeOf<B>, DErr>;
    fn has(&self, kind: usize, ix: u8) -> bool;
    fn expr(&self) -> Option<Expr>;
    fn text(&self) -> Option<String>;
    /// Displays the node, with the flags of `f`.
    fn show(&self, f: &mut std::fmt::Formatter<'_>) -> Option<std::fmt::Result>;
    fn sadj(&self, t: Id<0>) -> Option<Dyn<B>>;
    fn vadj(&self, t: Id<2>) -> Option<Dyn<B::VAdj>>;
    fn sadj_eval(&self, t: Id<0>, c: &mut MCtx) -> Option<Result<B, DErr>>;
    fn sdual(&self, t: Id<0>, c: &mut MCtx) -> Option<Result<(B, B), DErr>>;
    fn vadj_eval(&self, t: Id<2>, c: &mut MCtx) -> Option<Result<B::VAdj, DErr>>;
    fn vdual(&self, t: Id<2>, c: &mut MCtx) -> Option<Result<(B, B::VAdj), DErr>>;
    fn cloned(&self) -> Dyn<B>;
}

pub struct Dyn<B: Sort>(pub Arc<dyn Obj<B>>);
// Whether the operators may be shared is what is examined (C24 probes every type); nothing else here is
// shared that could not be.
unsafe impl<B: Sort> Send for Dyn<B> {}
unsafe impl<B: Sort> Sync for Dyn<B> {}
impl<B: Sort> Clone for Dyn<B> { fn clone(&self) -> Self { Dyn(self.0.clone()) } }
impl<B: Sort> Node for Dyn<B> {}
impl<B: Sort> Function<MCtx> for Dyn<B> {
    type Value = B;
    type Error = DErr;
    fn evaluate<CR: AsMut<MCtx>>(&self, mut c: CR) -> Result<B, DErr> {
        let c = c.as_mut(); c.ev(Ev::Eval(self.0.id(), Mode::Value)); self.0.eval(c)
    }
    fn evaluate_spec<CR: AsMut<MCtx>>(&self, mut c: CR) -> Result<Spec<B>, DErr> {
        let c = c.as_mut(); c.ev(Ev::Eval(self.0.id(), Mode::Spec)); self.0.eval_spec(c)
    }
    fn evaluate_shape<CR: AsMut<MCtx>>(&self, mut c: CR) -> Result<ShapeOf<B>, DErr> {
        let c = c.as_mut(); c.ev(Ev::Eval(self.0.id(), Mode::Shape)); self.0.eval_shape(c)
    }
}
impl<B: Sort, const K: usize> Contains<Id<K>> for Dyn<B> { fn contains(&self, t: Id<K>) -> bool { self.0.has(K, t.0) } }
pub const NO_ADJOINT: &str = "dynx: derivative of this order is not available";
impl<B: Sort> Differentiable<Id<0>> for Dyn<B> {
    type Adjoint = Dyn<B>;
    fn adjoint(&self, t: Id<0>) -> Dyn<B> { self.0.sadj(t).expect(NO_ADJOINT) }
}
impl<B: Sort> Differentiable<Id<2>> for Dyn<B> {
    type Adjoint = Dyn<B::VAdj>;
    fn adjoint(&self, t: Id<2>) -> Dyn<B::VAdj> { self.0.vadj(t).expect(NO_ADJOINT) }
}
pub const NO_TEXT: &str = "dynx: node has no text";
impl<B: Sort> ToExpr for Dyn<B> { fn to_expr(&self) -> Expr { self.0.expr().expect(NO_TEXT) } }
impl<B: Sort> std::fmt::Display for Dyn<B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.show(f).expect(NO_TEXT) }
}

/// Everything a node must offer to be monitored.
pub trait Fun<B: Sort>: Clone + 'static {
    fn f_eval(&self, c: &mut MCtx) -> Result<B, DErr>;
    fn f_spec(&self, c: &mut MCtx) -> Result<Spec<B>, DErr>;
    fn f_shape(&self, c: &mut MCtx) -> Result<ShapeOf<B>, DErr>;
    fn f_has(&self, kind: usize, ix: u8) -> bool;
}
impl<N, B: Sort> Fun<B> for N
where
    N: Node + Clone + 'static + Function<MCtx, Value = B>,
    N::Error: ErrInfo,
    N: Contains<Id<0>> + Contains<Id<1>> + Contains<Id<2>> + Contains<Id<3>> + Contains<Id<4>> + Contains<Id<5>>
        + Contains<Id<6>> + Contains<Id<7>> + Contains<Id<8>> + Contains<Id<9>> + Contains<Id<10>> + Contains<Id<11>>,
{
    fn f_eval(&self, c: &mut MCtx) -> Result<B, DErr> { self.evaluate(c).map_err(|e| e.info()) }
    fn f_spec(&self, c: &mut MCtx) -> Result<Spec<B>, DErr> { self.evaluate_spec(c).map_err(|e| e.info()) }
    fn f_shape(&self, c: &mut MCtx) -> Result<ShapeOf<B>, DErr> { self.evaluate_shape(c).map_err(|e| e.info()) }
    fn f_has(&self, kind: usize, ix: u8) -> bool {
        match kind {
            0 => self.contains(Id::<0>(ix)), 1 => self.contains(Id::<1>(ix)), 2 => self.contains(Id::<2>(ix)), 3 => self.contains(Id::<3>(ix)),
            4 => self.contains(Id::<4>(ix)), 5 => self.contains(Id::<5>(ix)), 6 => self.contains(Id::<6>(ix)), 7 => self.contains(Id::<7>(ix)),
            8 => self.contains(Id::<8>(ix)), 9 => self.contains(Id::<9>(ix)), 10 => self.contains(Id::<10>(ix)), _ => self.contains(Id::<11>(ix)),
        }
    }
}

pub struct W<N, B: Sort> {
    id: u32,
    node: N,
    expr: Option<fn(&N) -> Expr>,
    text: Option<fn(&N, &mut std::fmt::Formatter<'_>) -> std::fmt::Result>,
    sadj: Option<fn(&N, Id<0>) -> Dyn<B>>,
    sadj_eval: Option<fn(&N, Id<0>, &mut MCtx) -> Result<B, DErr>>,
    sdual: Option<fn(&N, Id<0>, &mut MCtx) -> Result<(B, B), DErr>>,
    vadj: Option<fn(&N, Id<2>) -> Dyn<B::VAdj>>,
    vadj_eval: Option<fn(&N, Id<2>, &mut MCtx) -> Result<B::VAdj, DErr>>,
    vdual: Option<fn(&N, Id<2>, &mut MCtx) -> Result<(B, B::VAdj), DErr>>,
}
impl<N: Fun<B>, B: Sort> Obj<B> for W<N, B> {
    fn id(&self) -> u32 { self.id }
    fn eval(&self, c: &mut MCtx) -> Result<B, DErr> { self.node.f_eval(c) }
    fn eval_spec(&self, c: &mut MCtx) -> Result<Spec<B>, DErr> { self.node.f_spec(c) }
    fn eval_shape(&self, c: &mut MCtx) -> Result<ShapeOf<B>, DErr> { self.node.f_shape(c) }
    fn has(&self, kind: usize, ix: u8) -> bool { self.node.f_has(kind, ix) }
    fn expr(&self) -> Option<Expr> { self.expr.map(|f| f(&self.node)) }
    fn text(&self) -> Option<String> {
        struct Plain<'a, N>(&'a N, fn(&N, &mut std::fmt::Formatter<'_>) -> std::fmt::Result);
        impl<N> std::fmt::Display for Plain<'_, N> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (self.1)(self.0, f) } }
        self.text.map(|f| Plain(&self.node, f).to_string())
    }
    fn show(&self, f: &mut std::fmt::Formatter<'_>) -> Option<std::fmt::Result> { self.text.map(|t| t(&self.node, f)) }
    fn sadj(&self, t: Id<0>) -> Option<Dyn<B>> { self.sadj.map(|f| f(&self.node, t)) }
    fn vadj(&self, t: Id<2>) -> Option<Dyn<B::VAdj>> { self.vadj.map(|f| f(&self.node, t)) }
    fn sadj_eval(&self, t: Id<0>, c: &mut MCtx) -> Option<Result<B, DErr>> { self.sadj_eval.map(|f| f(&self.node, t, c)) }
    fn sdual(&self, t: Id<0>, c: &mut MCtx) -> Option<Result<(B, B), DErr>> { self.sdual.map(|f| f(&self.node, t, c)) }
    fn vadj_eval(&self, t: Id<2>, c: &mut MCtx) -> Option<Result<B::VAdj, DErr>> { self.vadj_eval.map(|f| f(&self.node, t, c)) }
    fn vdual(&self, t: Id<2>, c: &mut MCtx) -> Option<Result<(B, B::VAdj), DErr>> { self.vdual.map(|f| f(&self.node, t, c)) }
    fn cloned(&self) -> Dyn<B> {
        Dyn(Arc::new(W { id: self.id, node: self.node.clone(), expr: self.expr, text: self.text, sadj: self.sadj, sadj_eval: self.sadj_eval,
            sdual: self.sdual, vadj: self.vadj, vadj_eval: self.vadj_eval, vdual: self.vdual }))
    }
}

/// `L0`: no derivative. `Ls<X>`: differentiable in scalar targets, the derivative erased at level
/// `X`. `Lv<X, Y>`: also in vector targets, that derivative erased at level `Y`.
pub struct L0;
pub struct Ls<X>(std::marker::PhantomData<X>);
pub struct Lv<X, Y>(std::marker::PhantomData<(X, Y)>);

macro_rules! levels {
    ($m:ident, {$($bound:tt)*}, $expr:expr, $text:expr) => {
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub trait Level<N, B: Sort> { fn erase(id: u32, n: N) -> Dyn<B>; }
            impl<N: Fun<B> $($bound)*, B: Sort> Level<N, B> for L0 {
                fn erase(id: u32, node: N) -> Dyn<B> {
                    Dyn(Arc::new(W { id, node, expr: $expr, text: $text, sadj: None, sadj_eval: None, sdual: None, vadj: None, vadj_eval: None, vdual: None }))
                }
            }
            impl<N, B: Sort, X> Level<N, B> for Ls<X>
            where
                N: Fun<B> $($bound)* + Differentiable<Id<0>> + Function<MCtx, Value = B>,
                N::Adjoint: Fun<B> + Function<MCtx, Value = B>,
                <N as Function<MCtx>>::Error: ErrInfo,
                <N::Adjoint as Function<MCtx>>::Error: ErrInfo,
                X: Level<N::Adjoint, B>,
            {
                fn erase(id: u32, node: N) -> Dyn<B> {
                    Dyn(Arc::new(W {
                        id, node, expr: $expr, text: $text,
                        sadj: Some(|n, t| X::erase(u32::MAX, n.adjoint(t))),
                        sadj_eval: Some(|n, t, c| n.evaluate_adjoint(t, c).map_err(|e| e.info())),
                        sdual: Some(|n, t, c| n.evaluate_dual(t, c).map(|d| (d.value, d.adjoint)).map_err(|e| e.info())),
                        vadj: None, vadj_eval: None, vdual: None,
                    }))
                }
            }
            impl<N, B: Sort, X, Y> Level<N, B> for Lv<X, Y>
            where
                N: Fun<B> $($bound)* + Differentiable<Id<0>> + Differentiable<Id<2>> + Function<MCtx, Value = B>,
                <N as Function<MCtx>>::Error: ErrInfo,
                <N as Differentiable<Id<0>>>::Adjoint: Fun<B> + Function<MCtx, Value = B>,
                <<N as Differentiable<Id<0>>>::Adjoint as Function<MCtx>>::Error: ErrInfo,
                <N as Differentiable<Id<2>>>::Adjoint: Fun<B::VAdj> + Function<MCtx, Value = B::VAdj>,
                <<N as Differentiable<Id<2>>>::Adjoint as Function<MCtx>>::Error: ErrInfo,
                X: Level<<N as Differentiable<Id<0>>>::Adjoint, B>,
                Y: Level<<N as Differentiable<Id<2>>>::Adjoint, B::VAdj>,
            {
                fn erase(id: u32, node: N) -> Dyn<B> {
                    Dyn(Arc::new(W {
                        id, node, expr: $expr, text: $text,
                        sadj: Some(|n, t| X::erase(u32::MAX, n.adjoint(t))),
                        sadj_eval: Some(|n, t, c| n.evaluate_adjoint(t, c).map_err(|e| e.info())),
                        sdual: Some(|n, t, c| n.evaluate_dual(t, c).map(|d| (d.value, d.adjoint)).map_err(|e| e.info())),
                        vadj: Some(|n, t| Y::erase(u32::MAX, n.adjoint(t))),
                        vadj_eval: Some(|n, t, c| n.evaluate_adjoint(t, c).map_err(|e| e.info())),
                        vdual: Some(|n, t, c| n.evaluate_dual(t, c).map(|d| (d.value, d.adjoint)).map_err(|e| e.info())),
                    }))
                }
            }
        }
    };
}
levels!(plain, {}, None, None);
levels!(text, { + ToExpr + std::fmt::Display }, Some(|n| n.to_expr()), Some(std::fmt::Display::fmt));

//! Observation of real evaluations: everything comes back as plain data, panics as errors.
use crate::ctx::*;
use crate::nodes::*;
use crate::{with_dyn, AnyDyn};

use aegir::buffers::Spec;
use aegir::{Contains, Differentiable, Function};
use support::guarded;

pub type Flat = (Vec<usize>, Vec<f64>);

#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> { Ok(T), Err(DErr), Panic(String) }
impl<T> Out<T> {
    pub fn of(r: Result<Result<T, DErr>, String>) -> Self {
        match r { Ok(Ok(t)) => Out::Ok(t), Ok(Err(e)) => Out::Err(e), Err(p) => Out::Panic(p) }
    }
    pub fn ok(&self) -> Option<&T> { if let Out::Ok(t) = self { Some(t) } else { None } }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> { match self { Out::Ok(t) => Out::Ok(f(t)), Out::Err(e) => Out::Err(e), Out::Panic(p) => Out::Panic(p) } }
}

pub fn flat<B: Sort>(b: &B) -> Flat { (B::sdims(&b.shape()), b.data()) }
pub fn rep<B: Sort>(s: &Spec<B>) -> &'static str {
    match s { Spec::Raw(_) => "raw", Spec::Full(..) => "full", Spec::Diagonal(..) => "diag", _ => "other" }
}
/// Exact comparison of bit patterns (NaN equals NaN).
pub fn same_bits(a: &Flat, b: &Flat) -> bool {
    a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}

pub fn value_d<B: Sort>(d: &Dyn<B>, c: &mut MCtx) -> Out<Flat> { Out::of(guarded(|| d.evaluate(&mut *c).map(|b| flat(&b)))) }
/// Lifted evaluation: representation, elements it stands for (decided without the library), and
/// what the library itself materialises it to.
pub fn spec_d<B: Sort>(d: &Dyn<B>, c: &mut MCtx) -> Out<(&'static str, Flat, Flat)> {
    Out::of(guarded(|| d.evaluate_spec(&mut *c).map(|s| {
        let r = rep(&s);
        let own = spec_data(&s);
        (r, own, flat(&s.unwrap()))
    })))
}
pub fn shape_d<B: Sort>(d: &Dyn<B>, c: &mut MCtx) -> Out<Vec<usize>> { Out::of(guarded(|| d.evaluate_shape(&mut *c).map(|s| B::sdims(&s)))) }

impl AnyDyn {
    pub fn value(&self, c: &mut MCtx) -> Out<Flat> { with_dyn!(self, |d| value_d(d, c)) }
    pub fn spec(&self, c: &mut MCtx) -> Out<(&'static str, Flat, Flat)> { with_dyn!(self, |d| spec_d(d, c)) }
    pub fn shape(&self, c: &mut MCtx) -> Out<Vec<usize>> { with_dyn!(self, |d| shape_d(d, c)) }
    pub fn has(&self, kind: usize, ix: u8) -> bool { with_dyn!(self, |d| d.0.has(kind, ix)) }
    pub fn text(&self) -> Option<String> { with_dyn!(self, |d| d.0.text()) }
    pub fn cloned(&self) -> AnyDyn { with_dyn!(self, |d| d.0.cloned().into()) }
    /// Derivative expression in scalar variable `ix`, when available at this level.
    pub fn sadj(&self, ix: u8) -> Option<AnyDyn> { with_dyn!(self, |d| d.0.sadj(Id(ix)).map(|d| d.into())) }
    pub fn sadj_eval(&self, ix: u8, c: &mut MCtx) -> Option<Out<Flat>> {
        with_dyn!(self, |d| { guarded(|| d.0.sadj(Id(ix)).map(|_| ())).ok()??; Some(Out::of(guarded(|| d.0.sadj_eval(Id(ix), c).unwrap().map(|b| flat(&b))))) })
    }
    pub fn sdual(&self, ix: u8, c: &mut MCtx) -> Option<Out<(Flat, Flat)>> {
        with_dyn!(self, |d| { guarded(|| d.0.sadj(Id(ix)).map(|_| ())).ok()??; Some(Out::of(guarded(|| d.0.sdual(Id(ix), c).unwrap().map(|(v, a)| (flat(&v), flat(&a)))))) })
    }
    /// Derivative expression in 3-vector variable `ix` (only for scalars and 3-vectors).
    pub fn vadj(&self, ix: u8) -> Option<AnyDyn> {
        match self { AnyDyn::S(d) => d.0.vadj(Id(ix)).map(|d| d.into()), AnyDyn::V3(d) => d.0.vadj(Id(ix)).map(|d| d.into()), _ => None }
    }
    pub fn vadj_eval(&self, ix: u8, c: &mut MCtx) -> Option<Out<Flat>> {
        match self {
            AnyDyn::S(d) => { guarded(|| d.0.vadj(Id(ix)).map(|_| ())).ok()??; Some(Out::of(guarded(|| d.0.vadj_eval(Id(ix), c).unwrap().map(|b| flat(&b))))) },
            AnyDyn::V3(d) => { guarded(|| d.0.vadj(Id(ix)).map(|_| ())).ok()??; Some(Out::of(guarded(|| d.0.vadj_eval(Id(ix), c).unwrap().map(|b| flat(&b))))) },
            _ => None,
        }
    }
    pub fn vdual(&self, ix: u8, c: &mut MCtx) -> Option<Out<(Flat, Flat)>> {
        match self {
            AnyDyn::S(d) => { guarded(|| d.0.vadj(Id(ix)).map(|_| ())).ok()??; Some(Out::of(guarded(|| d.0.vdual(Id(ix), c).unwrap().map(|(v, a)| (flat(&v), flat(&a)))))) },
            AnyDyn::V3(d) => { guarded(|| d.0.vadj(Id(ix)).map(|_| ())).ok()??; Some(Out::of(guarded(|| d.0.vdual(Id(ix), c).unwrap().map(|(v, a)| (flat(&v), flat(&a)))))) },
            _ => None,
        }
    }
}
#[allow(unused)]
fn _bounds<B: Sort>(d: &Dyn<B>) where Dyn<B>: Contains<Id<0>> + Differentiable<Id<0>> {}

//! Buffer classes written by a user of the library with only the required methods, so that every
//! provided method of the traits runs too: a fixed grid and a rank-2 buffer sized at run time.
use crate::{Bx, Prim};
use aegir::buffers::shapes::{IncompatibleShapes, SDynamic, Shaped, S0, S2};
use aegir::buffers::{Buffer, Class, Scalar, ZipMap};

pub struct Grids;
#[derive(Clone, Debug, PartialEq)]
pub struct Grid<F>(pub Vec<F>);

impl Class<S2<2, 3>> for Grids {
    type Buffer<F: Scalar> = Grid<F>;
    fn build<F: Scalar>(_: S2<2, 3>, f: impl Fn([usize; 2]) -> F) -> Grid<F> {
        let mut v = vec![];
        for i in 0..2 { for j in 0..3 { v.push(f([i, j])); } }
        Grid(v)
    }
    fn build_subset<F: Scalar>(_: S2<2, 3>, base: F, subset: impl Iterator<Item = [usize; 2]>, f: impl Fn([usize; 2]) -> F) -> Grid<F> {
        let mut v = vec![base; 6];
        for ix in subset { v[ix[0] * 3 + ix[1]] = f(ix); }
        Grid(v)
    }
}
impl<F: Scalar> Shaped for Grid<F> {
    type Shape = S2<2, 3>;
    fn shape(&self) -> S2<2, 3> { S2 }
}
impl<F: Scalar> Buffer for Grid<F> {
    type Class = Grids;
    type Field = F;
    fn class() -> Grids { Grids }
    fn get_unchecked(&self, ix: [usize; 2]) -> F { assert!(ix[0] < 2 && ix[1] < 3); self.0[ix[0] * 3 + ix[1]] }
    fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> Grid<A> { Grid(self.0.into_iter().map(f).collect()) }
    fn mutate<M: Fn(F) -> F>(&mut self, f: M) { for x in &mut self.0 { *x = f(*x); } }
}
impl<F: Scalar> ZipMap for Grid<F> {
    type Output<A: Scalar> = Grid<A>;
    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, rhs: &Grid<F>, f: M) -> Result<Grid<A>, IncompatibleShapes<S2<2, 3>>> {
        Ok(Grid(self.0.iter().zip(&rhs.0).map(|(l, r)| f(*l, *r)).collect()))
    }
    fn zip_shape(self, _: S2<2, 3>) -> Result<Grid<F>, IncompatibleShapes<S2<2, 3>>> { Ok(self) }
}
impl<F: Prim> Bx for Grid<F> {
    type P = F;
    fn dims(_: usize) -> Vec<usize> { vec![2, 3] }
    fn mk(d: &[F]) -> Self { Grid(d.to_vec()) }
    fn data(&self) -> Vec<F> { self.0.clone() }
    fn sh(_: usize) -> S2<2, 3> { S2 }
    fn ix(m: &[usize]) -> [usize; 2] { [m[0], m[1]] }
    fn unix(i: [usize; 2]) -> Vec<usize> { i.to_vec() }
    fn sdims(_: &S2<2, 3>) -> Vec<usize> { vec![2, 3] }
    fn name(_: usize) -> String { format!("Grid<{}>", F::NAME) }
}

pub struct Sheets;
/// Rows, columns and row-major elements; `n` encodes 8 * rows + columns.
#[derive(Clone, Debug, PartialEq)]
pub struct Sheet<F>(pub [usize; 2], pub Vec<F>);

impl Class<SDynamic<2>> for Sheets {
    type Buffer<F: Scalar> = Sheet<F>;
    fn build<F: Scalar>(s: SDynamic<2>, f: impl Fn([usize; 2]) -> F) -> Sheet<F> {
        let mut v = vec![];
        for i in 0..s[0] { for j in 0..s[1] { v.push(f([i, j])); } }
        Sheet(s.0, v)
    }
    fn build_subset<F: Scalar>(s: SDynamic<2>, base: F, subset: impl Iterator<Item = [usize; 2]>, f: impl Fn([usize; 2]) -> F) -> Sheet<F> {
        let mut v = vec![base; s[0] * s[1]];
        for ix in subset { v[ix[0] * s[1] + ix[1]] = f(ix); }
        Sheet(s.0, v)
    }
}
impl<F: Scalar> Shaped for Sheet<F> {
    type Shape = SDynamic<2>;
    fn shape(&self) -> SDynamic<2> { SDynamic(self.0) }
}
impl<F: Scalar> Buffer for Sheet<F> {
    type Class = Sheets;
    type Field = F;
    fn class() -> Sheets { Sheets }
    fn get_unchecked(&self, ix: [usize; 2]) -> F { assert!(ix[0] < self.0[0] && ix[1] < self.0[1]); self.1[ix[0] * self.0[1] + ix[1]] }
    fn map<A: Scalar, M: Fn(F) -> A>(self, f: M) -> Sheet<A> { Sheet(self.0, self.1.into_iter().map(f).collect()) }
    fn mutate<M: Fn(F) -> F>(&mut self, f: M) { for x in &mut self.1 { *x = f(*x); } }
}
impl<F: Scalar> ZipMap for Sheet<F> {
    type Output<A: Scalar> = Sheet<A>;
    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, rhs: &Sheet<F>, f: M) -> Result<Sheet<A>, IncompatibleShapes<SDynamic<2>>> {
        if self.0 != rhs.0 { return Err(IncompatibleShapes { left: SDynamic(self.0), right: SDynamic(rhs.0) }) }
        Ok(Sheet(self.0, self.1.iter().zip(&rhs.1).map(|(l, r)| f(*l, *r)).collect()))
    }
    fn zip_shape(self, s: SDynamic<2>) -> Result<Sheet<F>, IncompatibleShapes<SDynamic<2>>> {
        if self.0 != s.0 { return Err(IncompatibleShapes { left: SDynamic(self.0), right: s }) }
        Ok(self)
    }
}
impl<F: Scalar> ZipMap<F> for Sheet<F> where F: aegir::buffers::shapes::Shaped<Shape = S0> {
    type Output<A: Scalar> = Sheet<A>;
    fn zip_map<A: Scalar, M: Fn(F, F) -> A>(self, rhs: &F, f: M) -> Result<Sheet<A>, IncompatibleShapes<SDynamic<2>, S0>> {
        Ok(Sheet(self.0, self.1.iter().map(|l| f(*l, *rhs)).collect()))
    }
    fn zip_shape(self, _: S0) -> Result<Sheet<F>, IncompatibleShapes<SDynamic<2>, S0>> { Ok(self) }
}
impl<F: Prim> Bx for Sheet<F> {
    type P = F;
    fn dims(n: usize) -> Vec<usize> { vec![n / 8, n % 8] }
    fn mk(_: &[F]) -> Self { unimplemented!("the dimensions are needed") }
    fn mkn(n: usize, d: &[F]) -> Self { Sheet([n / 8, n % 8], d.to_vec()) }
    fn data(&self) -> Vec<F> { self.1.clone() }
    fn sh(n: usize) -> SDynamic<2> { SDynamic([n / 8, n % 8]) }
    fn ix(m: &[usize]) -> [usize; 2] { [m[0], m[1]] }
    fn unix(i: [usize; 2]) -> Vec<usize> { i.to_vec() }
    fn sdims(s: &SDynamic<2>) -> Vec<usize> { s.0.to_vec() }
    fn name(n: usize) -> String { format!("Sheet<{}>{}x{}", F::NAME, n / 8, n % 8) }
}

//! Independent reference model: expression trees evaluated over tensors of nilpotent
//! hyper-dual numbers (three generators), written without any code of the library.
use crate::ast::*;
use crate::ctx::*;
use crate::nodes::*;
use support::{libm, Rng};

pub fn r_gamma(x: f64) -> f64 { libm::tgamma(x) }
pub fn r_lgamma(x: f64) -> f64 { libm::lgamma(x) }
pub fn r_erf(x: f64) -> f64 { libm::erf(x) }
pub fn r_digamma(mut x: f64) -> f64 {
    if x <= 0.0 { return r_digamma(1.0 - x) - std::f64::consts::PI / libm::tan(std::f64::consts::PI * x) }
    let mut s = 0.0;
    while x < 12.0 { s -= 1.0 / x; x += 1.0 }
    let y = 1.0 / (x * x);
    s + libm::ln(x) - 0.5 / x - y * (1.0 / 12.0 - y * (1.0 / 120.0 - y * (1.0 / 252.0 - y * (1.0 / 240.0 - y * (1.0 / 132.0 - y * (691.0 / 32760.0 - y / 12.0))))))
}

/// Coefficients of the subsets of {e0, e1, e2}.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Hyp(pub [f64; 8]);
impl Hyp {
    pub fn c(x: f64) -> Self { let mut h = [0.0; 8]; h[0] = x; Hyp(h) }
    pub fn add(self, o: Hyp) -> Hyp { let mut r = self; for i in 0..8 { r.0[i] += o.0[i] } r }
    pub fn scale(self, k: f64) -> Hyp { let mut r = self; for i in 0..8 { r.0[i] *= k } r }
    pub fn mul(self, o: Hyp) -> Hyp {
        let mut r = [0.0; 8];
        for a in 0..8 { for b in 0..8 { if a & b == 0 { r[a | b] += self.0[a] * o.0[b] } } }
        Hyp(r)
    }
    /// Composition with a function of which value and first three derivatives at the body are given.
    pub fn comp(self, f: [f64; 4]) -> Hyp {
        let mut n = self; n.0[0] = 0.0;
        let n2 = n.mul(n); let n3 = n2.mul(n);
        Hyp::c(f[0]).add(n.scale(f[1])).add(n2.scale(f[2] / 2.0)).add(n3.scale(f[3] / 6.0))
    }
    pub fn flat(&self) -> bool { self.0[1..].iter().all(|x| *x == 0.0) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ten { pub dims: Vec<usize>, pub v: Vec<Hyp> }
impl Ten {
    pub fn data(&self, mask: usize) -> Vec<f64> { self.v.iter().map(|h| h.0[mask]).collect() }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Skip { Domain(&'static str), Mag, Undef, Shape, Order }

/// Exact shapes and values of every variable, independent of their representation.
pub fn slot_dense(c: &MCtx, kind: usize, ix: u8) -> Option<(Vec<usize>, Vec<f64>)> {
    macro_rules! g { ($f:ident, $T:ty) => { c.$f.get(ix as usize)?.as_ref().map(|s| (<$T as Sort>::sdims(&aegir::buffers::shapes::Shaped::shape(&s.dense)), s.dense.data())) } }
    match kind { 0 => g!(s, f64), 1 => g!(v2, V2), 2 => g!(v3, V3), 3 => g!(m22, M22), 4 => g!(m23, M23), 5 => g!(m32, M32), 6 => g!(m33, M33),
        7 => g!(t3, T3), 8 => g!(vc, Vc), 9 => g!(tp, Tp), 10 => g!(ks, f64), _ => g!(kv, V3) }
}

#[derive(Clone, Debug)]
pub struct Seed { pub kind: usize, pub ix: u8, pub comp: usize, pub gen: usize }

pub struct Ref<'a> {
    pub env: &'a MCtx,
    pub seeds: Vec<Seed>,
    /// How many derivatives must exist at the point (0: value only).
    pub order: usize,
    pub noise: Option<Rng>,
    /// Reproduce the two documented defects of gradients (see known findings); first order only.
    pub defect: bool,
    pub vlen: usize,
    pub mag: f64,
    /// Ignore caches' stored values (always evaluate the inner node).
    pub through_caches: bool,
}
pub const MAG_LIMIT: f64 = 1e4;

impl<'a> Ref<'a> {
    pub fn new(env: &'a MCtx, vlen: usize) -> Self {
        Ref { env, seeds: vec![], order: 0, noise: None, defect: false, vlen, mag: 0.0, through_caches: false }
    }
    pub fn eval(&mut self, n: &Node) -> Result<Ten, Skip> {
        let mut t = self.raw(n)?;
        for h in t.v.iter_mut() {
            if let Some(r) = &mut self.noise { for x in h.0.iter_mut() { *x *= 1.0 + 1e-11 * r.range(-1.0, 1.0) } }
            for x in h.0.iter() {
                if !x.is_finite() { return Err(Skip::Mag) }
                self.mag = self.mag.max(x.abs());
            }
        }
        if self.mag > MAG_LIMIT { return Err(Skip::Mag) }
        Ok(t)
    }
    fn raw(&mut self, n: &Node) -> Result<Ten, Skip> {
        match &n.k {
            K::Var(i) => {
                let (dims, d) = slot_dense(self.env, n.tag.kind(), *i).ok_or(Skip::Undef)?;
                let v = d.iter().enumerate().map(|(c, x)| {
                    let mut h = Hyp::c(*x);
                    for s in &self.seeds { if s.kind == n.tag.kind() && s.ix == *i && s.comp == c { h.0[1 << s.gen] += 1.0 } }
                    h
                }).collect();
                Ok(Ten { dims, v })
            },
            K::Const(r, d) => {
                let dims = n.tag.dims(if *r == Rep::Full || *r == Rep::Diag { self.vlen } else { d.len() });
                let c: usize = dims.iter().product();
                let v = match r {
                    Rep::Plain | Rep::Raw => d.iter().map(|x| Hyp::c(*x)).collect(),
                    Rep::Full => vec![Hyp::c(d[0]); c],
                    Rep::Diag => (0..c).map(|f| if is_diag(&dims, f) { Hyp::c(d[0]) } else { Hyp::c(0.0) }).collect(),
                };
                Ok(Ten { dims, v })
            },
            K::Un(u, a) => {
                let mut t = self.eval(a)?;
                // The point must be interior for every operator, also where nothing depends on the target.
                for h in t.v.iter_mut() { *h = unary(*u, *h, self.order)?; }
                Ok(t)
            },
            K::Sum(a) => {
                let t = self.eval(a)?;
                Ok(Ten { dims: vec![], v: vec![t.v.iter().fold(Hyp::c(0.0), |a, b| a.add(*b))] })
            },
            K::Cached(i, a) => {
                if !self.through_caches {
                    if let Some((dims, d)) = slot_dense(self.env, cache_kind(n.tag), *i) {
                        return Ok(Ten { dims, v: d.into_iter().map(Hyp::c).collect() });
                    }
                }
                self.eval(a)
            },
            K::Bin(op, a, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                match op {
                    Op::Add | Op::Sub | Op::Mul | Op::Div => {
                        if !x.dims.is_empty() && !y.dims.is_empty() && x.dims != y.dims { return Err(Skip::Shape) }
                        let (dims, c) = if x.dims.is_empty() { (y.dims.clone(), y.v.len()) } else { (x.dims.clone(), x.v.len()) };
                        let order = self.order;
                        let v: Result<Vec<Hyp>, Skip> = (0..c).map(|i| {
                            let p = if x.dims.is_empty() { x.v[0] } else { x.v[i] };
                            let q = if y.dims.is_empty() { y.v[0] } else { y.v[i] };
                            Ok(match op {
                                Op::Add => p.add(q), Op::Sub => p.add(q.scale(-1.0)), Op::Mul => p.mul(q),
                                _ => p.mul(recip(q, order)?),
                            })
                        }).collect();
                        Ok(Ten { dims, v: v? })
                    },
                    Op::Power => Ok(Ten { dims: vec![], v: vec![power(x.v[0], y.v[0], self.order, b.vars().is_empty())?] }),
                    Op::Dot => {
                        let mut t = contract1(&x, &y)?;
                        if self.defect && x.dims == [3] && y.dims == [3] {
                            for g in 0..3 {
                                t.v[0].0[1 << g] = (0..3).map(|k| x.v[k].0[0] * y.v[k].0[1 << g] + x.v[g].0[1 << k] * y.v[k].0[0]).sum();
                            }
                        }
                        Ok(t)
                    },
                    Op::Tensor => {
                        let mut dims = x.dims.clone(); dims.extend(&y.dims);
                        let mut v = vec![];
                        for p in &x.v { for q in &y.v { v.push(p.mul(*q)) } }
                        if self.defect && x.dims.is_empty() && y.dims == [3] {
                            for i in 0..3 { for g in 0..3 { v[i].0[1 << g] = x.v[0].0[0] * y.v[i].0[1 << g] + x.v[0].0[1 << i] * y.v[g].0[0]; } }
                        }
                        Ok(Ten { dims, v })
                    },
                }
            },
        }
    }
}

pub fn is_diag(dims: &[usize], f: usize) -> bool {
    let mut r = f; let mut first = None;
    for a in (0..dims.len()).rev() {
        let i = r % dims[a]; r /= dims[a];
        match first { None => first = Some(i), Some(j) if i != j => return false, _ => {} }
    }
    true
}

/// Sum over the last axis of `x` and the first axis of `y`.
pub fn contract1(x: &Ten, y: &Ten) -> Result<Ten, Skip> {
    if x.dims.is_empty() && y.dims.is_empty() { return Ok(Ten { dims: vec![], v: vec![x.v[0].mul(y.v[0])] }) }
    let k = *x.dims.last().unwrap();
    if y.dims[0] != k { return Err(Skip::Shape) }
    let (ra, rb) = (x.v.len() / k, y.v.len() / k);
    let mut dims = x.dims[..x.dims.len() - 1].to_vec(); dims.extend(&y.dims[1..]);
    let mut v = vec![];
    for a in 0..ra { for b in 0..rb {
        let mut s = Hyp::c(0.0);
        for z in 0..k { s = s.add(x.v[a * k + z].mul(y.v[z * rb + b])) }
        v.push(s);
    } }
    Ok(Ten { dims, v })
}

fn recip(q: Hyp, order: usize) -> Result<Hyp, Skip> {
    let x = q.0[0];
    if x.abs() < if order >= 2 { 0.2 } else { 0.05 } { return Err(Skip::Domain("division by nearly zero")) }
    let i = 1.0 / x;
    Ok(q.comp([i, -i * i, 2.0 * i * i * i, -6.0 * i * i * i * i]))
}

fn power(b: Hyp, e: Hyp, order: usize, konst: bool) -> Result<Hyp, Skip> {
    let (x, y) = (b.0[0], e.0[0]);
    let int = konst && y.fract() == 0.0;
    if order == 0 {
        // Value only. IEEE/Rust conventions at the corner: x^0 = 1, 1^y = 1.
        if y == 0.0 || x == 1.0 { return Ok(Hyp::c(1.0)) }
        if x == 0.0 { return if y > 0.0 { Ok(Hyp::c(0.0)) } else { Err(Skip::Domain("zero to a negative power")) } }
        if x < 0.0 && y.fract() != 0.0 { return Err(Skip::Domain("negative base")) }
        if x.abs() < 0.05 && y < 0.0 { return Err(Skip::Domain("small base")) }
        return Ok(Hyp::c(libm::pow(x, y)));
    }
    // Differentiating: the rule involves x ln x and x^(y-1).
    if x <= 0.0 {
        // Interior only for a constant integer exponent, with x^(y-1) etc. finite.
        if !int || (x.abs() < 0.05 && y < order as f64) { return Err(Skip::Domain("power of a non-positive base")) }
        let mut d = [libm::pow(x, y), y * libm::pow(x, y - 1.0), y * (y - 1.0) * libm::pow(x, y - 2.0), y * (y - 1.0) * (y - 2.0) * libm::pow(x, y - 3.0)];
        for i in order + 1..4 { d[i] = 0.0 }
        return Ok(b.comp(d));
    }
    if x < 0.05 { return Err(Skip::Domain("small base")) }
    // exp(y ln x)
    let l = libm::ln(x);
    let i = 1.0 / x;
    let ln = b.comp([l, i, -i * i, 2.0 * i * i * i]);
    let z = e.mul(ln);
    let f = libm::exp(z.0[0]);
    Ok(z.comp([f; 4]))
}

/// Value and the first three derivatives, or why the point is not (safely) interior.
pub fn unary(u: U, h: Hyp, order: usize) -> Result<Hyp, Skip> {
    let x = h.0[0];
    let dom = |c: bool, w: &'static str| if c { Ok(()) } else { Err(Skip::Domain(w)) };
    let need = |o: usize| if order <= o { Ok(()) } else { Err(Skip::Order) };
    let d = match u {
        U::SubOne => [x - 1.0, 1.0, 0.0, 0.0],
        U::OneSub => [1.0 - x, -1.0, 0.0, 0.0],
        U::AddOne => [x + 1.0, 1.0, 0.0, 0.0],
        U::Square => [x * x, 2.0 * x, 2.0, 0.0],
        U::Double => [2.0 * x, 2.0, 0.0, 0.0],
        U::Negate => [-x, -1.0, 0.0, 0.0],
        U::Dirac => { need(0)?; dom(x.abs() > 1e-3, "impulse at zero")?; [0.0; 4] },
        U::Sign => {
            if order > 0 { dom(x.abs() > 0.01, "sign at zero")? }
            dom(x == 0.0 || x.abs() > 1e-6, "sign near zero")?;
            [if x == 0.0 { 0.0 } else { x.signum() }, 0.0, 0.0, 0.0]
        },
        U::Abs => { if order > 0 { dom(x.abs() > 0.01, "|0|")? } [x.abs(), x.signum(), 0.0, 0.0] },
        U::Ln => { dom(x > 0.05, "ln")?; [libm::ln(x), 1.0 / x, -1.0 / (x * x), 2.0 / (x * x * x)] },
        U::XLnX => {
            if order == 0 && x == 0.0 { return Ok(Hyp::c(0.0)) }
            dom(x > if order > 0 { 0.05 } else { 1e-6 }, "x ln x")?;
            [x * libm::ln(x), libm::ln(x) + 1.0, 1.0 / x, -1.0 / (x * x)]
        },
        U::Exp => { dom(x < 6.0, "large exp")?; [libm::exp(x); 4] },
        U::Rabbit => [x * (1.0 - x), 1.0 - 2.0 * x, -2.0, 0.0],
        U::Sigmoid => {
            let s = 1.0 / (1.0 + libm::exp(-x));
            let p = s * (1.0 - s);
            [s, p, p * (1.0 - 2.0 * s), p * (1.0 - 6.0 * p)]
        },
        U::Gamma | U::Factorial => {
            let z = if u == U::Gamma { x } else { x + 1.0 };
            need(1)?;
            dom(z < 7.0 && (z > 0.05 || (z > -4.0 && (z - z.round()).abs() > 0.05)), "gamma")?;
            let g = r_gamma(z);
            [g, if order > 0 { g * r_digamma(z) } else { 0.0 }, 0.0, 0.0]
        },
        U::LogGamma => { need(1)?; dom(x > 0.05 && x < 50.0, "lgamma")?; [r_lgamma(x), r_digamma(x), 0.0, 0.0] },
        U::DiGamma => { need(0)?; dom(x > 0.05 && x < 50.0, "digamma")?; [r_digamma(x), 0.0, 0.0, 0.0] },
        U::Erf => { need(0)?; [r_erf(x), 0.0, 0.0, 0.0] },
        U::Erfc => { need(0)?; [1.0 - r_erf(x), 0.0, 0.0, 0.0] },
        U::Cos => [libm::cos(x), -libm::sin(x), -libm::cos(x), libm::sin(x)],
        U::Sin => [libm::sin(x), libm::cos(x), -libm::sin(x), -libm::cos(x)],
        U::Cosh => { need(0)?; dom(x.abs() < 6.0, "large cosh")?; [(libm::exp(x) + libm::exp(-x)) / 2.0, 0.0, 0.0, 0.0] },
        U::Sinh => { need(0)?; dom(x.abs() < 6.0, "large sinh")?; [(libm::exp_m1(x) - libm::exp_m1(-x)) / 2.0, 0.0, 0.0, 0.0] },
        U::Tanh => { need(0)?; let e = libm::exp_m1(2.0 * x.clamp(-20.0, 20.0)); [e / (e + 2.0), 0.0, 0.0, 0.0] },
        U::Tan => { need(0)?; dom(libm::cos(x).abs() > 0.15, "tan")?; [libm::sin(x) / libm::cos(x), 0.0, 0.0, 0.0] },
        U::ArcCos => { need(0)?; dom(x.abs() <= 0.95, "acos")?; [libm::acos(x), 0.0, 0.0, 0.0] },
        U::ArcSin => { need(0)?; dom(x.abs() <= 0.95, "asin")?; [libm::asin(x), 0.0, 0.0, 0.0] },
        U::ArcTan => { need(0)?; [libm::atan(x), 0.0, 0.0, 0.0] },
        U::ArcCosh => { need(0)?; dom(x >= 1.05, "acosh")?; [libm::acosh(x), 0.0, 0.0, 0.0] },
        U::ArcSinh => { need(0)?; [libm::asinh(x), 0.0, 0.0, 0.0] },
        U::ArcTanh => { need(0)?; dom(x.abs() <= 0.95, "atanh")?; [libm::atanh(x), 0.0, 0.0, 0.0] },
    };
    Ok(h.comp(d))
}

// ------------------------------------------------------------------ values with error bounds
#[derive(Clone, Debug)]
pub struct Val { pub dims: Vec<usize>, pub data: Vec<f64>, pub tol: Vec<f64> }

/// Reference value of coefficient `mask`, with a tolerance from the conditioning at the point.
pub fn reference(n: &Node, env: &MCtx, vlen: usize, seeds: &[Seed], order: usize, mask: usize, through: bool) -> Result<Val, Skip> {
    let mut r = Ref::new(env, vlen);
    r.seeds = seeds.to_vec(); r.order = order; r.through_caches = through;
    let t = r.eval(n)?;
    let data = t.data(mask);
    let mut tol: Vec<f64> = data.iter().map(|x| 1e-10 * (1.0 + x.abs()) + 1e-13 * r.mag * r.mag).collect();
    for s in 0..2 {
        let mut p = Ref::new(env, vlen);
        p.seeds = seeds.to_vec(); p.order = order; p.through_caches = through; p.noise = Some(Rng::new(0xABCD + s));
        if let Ok(q) = p.eval(n) {
            for (i, x) in q.data(mask).iter().enumerate() { tol[i] += 10.0 * (x - data[i]).abs() }
        }
    }
    if data.iter().zip(&tol).any(|(x, t)| *t > 1e-5 * (1.0 + x.abs())) { return Err(Skip::Mag) }
    Ok(Val { dims: t.dims, data, tol })
}
pub fn value(n: &Node, env: &MCtx, vlen: usize) -> Result<Val, Skip> { reference(n, env, vlen, &[], 0, 0, false) }

impl Val {
    pub fn check(&self, dims: &[usize], got: &[f64]) -> Result<(), String> {
        if dims != &self.dims[..] { return Err(format!("shape {:?}, expected {:?}", dims, self.dims)) }
        if got.len() != self.data.len() { return Err(format!("{} elements, expected {}", got.len(), self.data.len())) }
        for i in 0..got.len() {
            if !((got[i] - self.data[i]).abs() <= self.tol[i]) {
                return Err(format!("element {}: got {:?}, expected {:?} (tolerance {:.1e}); all: got {:?}, expected {:?}", i, got[i], self.data[i], self.tol[i], got, self.data));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ failures
/// The failure an evaluation must report, or None. `lens`: whether shapes of run-time sized
/// operands are compared by the library in this mode.
pub fn failure(n: &Node, env: &MCtx, vlen: usize) -> Result<Vec<usize>, DErr> {
    match &n.k {
        K::Var(i) => slot_dense(env, n.tag.kind(), *i).map(|s| s.0).ok_or_else(|| DErr::Undef(id_name(n.tag.kind(), *i))),
        K::Const(r, d) => Ok(n.tag.dims(if *r == Rep::Full || *r == Rep::Diag { vlen } else { d.len() })),
        K::Un(_, a) => failure(a, env, vlen),
        K::Sum(a) => failure(a, env, vlen).map(|_| vec![]),
        K::Cached(i, a) => match slot_dense(env, cache_kind(n.tag), *i) { Some(s) => Ok(s.0), None => failure(a, env, vlen) },
        K::Bin(op, a, b) => {
            let x = failure(a, env, vlen).map_err(|e| DErr::L(Box::new(e)))?;
            let y = failure(b, env, vlen).map_err(|e| DErr::R(Box::new(e)))?;
            match op {
                Op::Add | Op::Sub | Op::Mul | Op::Div => {
                    if !x.is_empty() && !y.is_empty() && x != y {
                        return Err(DErr::O(Box::new(DErr::Shapes(format!("SDynamic({:?})", x), format!("SDynamic({:?})", y)))));
                    }
                    Ok(if x.is_empty() { y } else { x })
                },
                Op::Power => Ok(vec![]),
                Op::Dot | Op::Tensor => Ok(n.tag.dims(0)),
            }
        },
    }
}

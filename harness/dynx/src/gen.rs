//! Random environments and random well-typed, in-domain expression trees.
use crate::ast::*;
use crate::ctx::*;
use crate::nodes::*;
use crate::refr::*;
use aegir::buffers::{Buffer, Spec};
use support::Rng;

#[derive(Clone, Copy, Debug)]
pub struct EnvOpt { pub lifted: bool, pub special: bool, pub vlen: usize }

pub fn number(r: &mut Rng, special: bool) -> f64 {
    if special && r.chance(1, 4) { return *r.pick(&[0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -2.0, -0.5]) }
    match r.below(4) { 0 => r.range(0.1, 2.5), 1 => r.range(-2.5, 2.5), 2 => r.range(0.06, 0.94), _ => r.range(-1.0, 3.5) }
}

fn slot<B: Sort + Buffer<Field = f64>>(r: &mut Rng, o: EnvOpt) -> Slot<B> {
    let dims = B::TAG.dims(o.vlen);
    let c: usize = dims.iter().product();
    if o.lifted && r.chance(3, 5) {
        let x = if r.chance(1, 2) { *r.pick(&[0.0, 1.0, -1.0, 2.0]) } else { number(r, true) };
        let spec: Spec<B> = if r.chance(1, 2) { Spec::Full(B::mkshape(o.vlen), x) } else { Spec::Diagonal(B::mkshape(o.vlen), x) };
        let (_, d) = spec_data(&spec);
        return Slot { dense: B::from_data(&d), spec };
    }
    let d: Vec<f64> = (0..c).map(|_| number(r, o.special)).collect();
    Slot::raw(B::from_data(&d))
}

/// Number of variables per sort.
pub const NVAR: usize = 3;
pub fn env(r: &mut Rng, o: EnvOpt) -> MCtx {
    let mut c = MCtx::new();
    for _ in 0..NVAR {
        c.s.push(Some(slot(r, o))); c.v2.push(Some(slot(r, o))); c.v3.push(Some(slot(r, o))); c.m22.push(Some(slot(r, o))); c.m23.push(Some(slot(r, o)));
        c.m32.push(Some(slot(r, o))); c.m33.push(Some(slot(r, o))); c.t3.push(Some(slot(r, o))); c.vc.push(Some(slot(r, o))); c.tp.push(Some(slot(r, o)));
    }
    c
}
/// The same values, all supplied densely.
pub fn densify(c: &MCtx) -> MCtx {
    let mut d = c.clone();
    macro_rules! go { ($($f:ident)*) => { $(for s in d.$f.iter_mut().flatten() { s.spec = Spec::Raw(s.dense.clone()); })* } }
    go!(s v2 v3 m22 m23 m32 m33 t3 vc tp);
    d
}
pub fn dense_tree(n: &Node, vlen: usize) -> Node {
    let mut m = n.clone();
    fn go(n: &mut Node, vlen: usize) {
        let tag = n.tag;
        match &mut n.k {
            K::Const(r, d) => {
                let dims = tag.dims(if matches!(r, Rep::Full | Rep::Diag) { vlen } else { d.len() });
                let c: usize = dims.iter().product();
                match r {
                    Rep::Full => *d = vec![d[0]; c],
                    Rep::Diag => { let x = d[0]; *d = (0..c).map(|f| if is_diag(&dims, f) { x } else { 0.0 }).collect() },
                    _ => {},
                }
                *r = Rep::Plain;
            },
            K::Un(_, a) | K::Sum(a) | K::Cached(_, a) => go(a, vlen),
            K::Bin(_, a, b) => { go(a, vlen); go(b, vlen) },
            _ => {},
        }
    }
    go(&mut m, vlen);
    m
}

#[derive(Clone, Copy, Debug)]
pub struct GenOpt {
    /// Lifted constants allowed.
    pub lifted: bool,
    /// Derivatives of this order must be available (and the point interior for them).
    pub order: usize,
    /// Must be differentiable with respect to a 3-vector.
    pub vdiff: bool,
    pub caches: bool,
    pub text: bool,
    pub vlen: usize,
    /// Check the domain at the given environment.
    pub domain: bool,
}
impl Default for GenOpt {
    fn default() -> Self { GenOpt { lifted: false, order: 0, vdiff: false, caches: false, text: false, vlen: 3, domain: true } }
}

pub struct Gen<'a> { pub r: &'a mut Rng, pub env: &'a MCtx, pub o: GenOpt }

fn mk(tag: Tag, k: K) -> Node { Node { tag, id: 0, k } }

impl<'a> Gen<'a> {
    /// All variables carry a generator during domain checks, so that guards for derivatives apply.
    fn ok(&mut self, n: &Node) -> bool {
        if n.order() < self.o.order || (self.o.vdiff && !n.vdiff() && (n.tag == Tag::S || n.tag == Tag::V3)) || (self.o.text && !n.has_text()) { return false }
        if !self.o.domain { return true }
        let mut f = Ref::new(self.env, self.o.vlen);
        f.order = self.o.order;
        if self.o.order > 0 { f.seeds = n.vars().into_iter().flat_map(|(k, i)| (0..12).map(move |c| Seed { kind: k, ix: i, comp: c, gen: 0 })).collect() }
        f.eval(n).is_ok()
    }
    fn leaf(&mut self, tag: Tag) -> Node {
        if self.r.chance(1, 4) {
            let dims = tag.dims(self.o.vlen);
            let c: usize = dims.iter().product();
            let plain_ok = !self.o.text || tag == Tag::S;
            if self.o.lifted && self.r.chance(2, 3) {
                let x = if self.r.chance(1, 2) { *self.r.pick(&[0.0, 1.0, -1.0, 2.0]) } else { number(self.r, true) };
                return match self.r.below(3) {
                    0 => mk(tag, K::Const(Rep::Full, vec![x])),
                    1 => mk(tag, K::Const(Rep::Diag, vec![x])),
                    _ => { let d = (0..c).map(|_| number(self.r, true)).collect(); mk(tag, K::Const(Rep::Raw, d)) },
                };
            }
            if plain_ok { let d = (0..c).map(|_| number(self.r, true)).collect(); return mk(tag, K::Const(Rep::Plain, d)); }
        }
        mk(tag, K::Var(self.r.below(NVAR) as u8))
    }
    pub fn tree(&mut self, tag: Tag, depth: usize) -> Node {
        let mut n = self.go(tag, depth);
        n.renumber();
        n
    }
    fn go(&mut self, tag: Tag, depth: usize) -> Node {
        if depth == 0 || (depth < 3 && self.r.chance(1, 6)) {
            for _ in 0..20 { let l = self.leaf(tag); if self.ok(&l) { return l } }
            return mk(tag, K::Var(0));
        }
        for _ in 0..6 {
            let c = self.candidate(tag, depth);
            if let Some(c) = c { if self.ok(&c) { return c } }
        }
        self.go(tag, 0)
    }
    fn candidate(&mut self, tag: Tag, depth: usize) -> Option<Node> {
        let d = depth - 1;
        Some(match self.r.below(20) {
            0..=6 => {
                // Unary: pick an operator that is valid at the operand.
                let a = self.go(tag, d);
                for _ in 0..12 {
                    let u = *self.r.pick(UNARY);
                    let n = mk(tag, K::Un(u, Box::new(a.clone())));
                    if self.ok(&n) { return Some(n) }
                }
                return None;
            },
            7..=13 => {
                let op = *self.r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
                let (ta, tb) = if tag == Tag::S || tag == Tag::Tp { (tag, tag) } else {
                    match self.r.below(4) { 0 => (Tag::S, tag), 1 => (tag, Tag::S), _ => (tag, tag) }
                };
                let (da, db) = if self.r.chance(1, 2) { (d, d.saturating_sub(1)) } else { (d.saturating_sub(1), d) };
                let a = self.go(ta, da); let b = self.go(tb, db);
                mk(tag, K::Bin(op, Box::new(a), Box::new(b)))
            },
            14..=16 => {
                let opts: Vec<_> = CONTRACTIONS.iter().filter(|(o, a, b)| contract_tag(*o, *a, *b) == Some(tag)).collect();
                if opts.is_empty() { return None }
                let (o, ta, tb) = **self.r.pick(&opts);
                let a = self.go(ta, d); let b = self.go(tb, d.saturating_sub(1));
                mk(tag, K::Bin(o, Box::new(a), Box::new(b)))
            },
            17 if tag == Tag::S => {
                let a = self.go(Tag::S, d);
                let b = if self.r.chance(1, 2) { mk(Tag::S, K::Const(Rep::Plain, vec![*self.r.pick(&[0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 0.5])])) } else { self.go(Tag::S, d.saturating_sub(1)) };
                mk(tag, K::Bin(Op::Power, Box::new(a), Box::new(b)))
            },
            18 if tag == Tag::S => {
                let t = *self.r.pick(&TAGS);
                if t != Tag::S && (self.o.order > 0 || self.o.vdiff) { return None }
                let a = self.go(t, d);
                mk(tag, K::Sum(Box::new(a)))
            },
            19 if self.o.caches && (tag == Tag::S || tag == Tag::V3) => {
                let a = self.go(tag, d);
                mk(tag, K::Cached(self.r.below(200) as u8, Box::new(a)))
            },
            _ => return None,
        })
    }
}

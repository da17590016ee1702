//! Expression trees as data, and their construction out of real aegir operators.
use crate::ctx::*;
use crate::nodes::*;
use aegir::buffers::Spec;
use aegir::meta::{Cached, Constant, Variable};
use aegir::ops::{self, special, trig};

macro_rules! enums {
    ($(#[$m:meta])* $name:ident { $($v:ident),* $(,)? } $all:ident) => {
        $(#[$m])* #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $($v),* }
        pub const $all: &[$name] = &[$($name::$v),*];
    };
}
enums!(U {
    SubOne, OneSub, AddOne, Square, Double, Negate, Dirac, Sign, Abs, Ln, XLnX, Exp, Rabbit, Sigmoid,
    Gamma, DiGamma, LogGamma, Factorial, Erf, Erfc,
    Cos, Cosh, ArcCos, ArcCosh, Sin, Sinh, ArcSin, ArcSinh, Tan, Tanh, ArcTan, ArcTanh,
} UNARY);
enums!(Op { Add, Sub, Mul, Div, Power, Dot, Tensor } BINARY);
impl U {
    /// Order up to which the operator is differentiable (scalar operand).
    pub fn order(self) -> usize {
        use U::*;
        match self {
            SubOne | OneSub | AddOne | Square | Double | Negate | Ln | XLnX | Exp | Rabbit | Sigmoid | Cos | Sin => 9,
            Abs => 2,
            Sign | Gamma | LogGamma | Factorial => 1,
            _ => 0,
        }
    }
    pub fn affine(self) -> bool { use U::*; matches!(self, SubOne | OneSub | AddOne | Double | Negate) }
}

/// How a constant is supplied: a plain buffer, or an explicitly lifted one.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rep { Plain, Raw, Full, Diag }

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Var(u8),
    Const(Rep, Vec<f64>),
    Un(U, Box<Node>),
    Bin(Op, Box<Node>, Box<Node>),
    Sum(Box<Node>),
    Cached(u8, Box<Node>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Node { pub tag: Tag, pub id: u32, pub k: K }

impl Node {
    pub fn children(&self) -> Vec<&Node> {
        match &self.k { K::Var(_) | K::Const(..) => vec![], K::Un(_, a) | K::Sum(a) | K::Cached(_, a) => vec![a], K::Bin(_, a, b) => vec![a, b] }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) { f(self); for c in self.children() { c.walk(f) } }
    pub fn any(&self, f: &dyn Fn(&Node) -> bool) -> bool { f(self) || self.children().into_iter().any(|c| c.any(f)) }
    pub fn size(&self) -> usize { 1 + self.children().iter().map(|c| c.size()).sum::<usize>() }
    pub fn depth(&self) -> usize { 1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0) }
    /// Symbolic occurrence, decided on the tree alone.
    pub fn occurs(&self, kind: usize, ix: u8) -> bool {
        self.any(&|n| match n.k {
            K::Var(i) => n.tag.kind() == kind && i == ix,
            K::Cached(i, _) => cache_kind(n.tag) == kind && i == ix,
            _ => false,
        })
    }
    /// Whether the value mathematically can depend on the variable.
    pub fn vars(&self) -> Vec<(usize, u8)> {
        let mut v = vec![];
        self.walk(&mut |n| if let K::Var(i) = n.k { v.push((n.tag.kind(), i)) });
        v.sort(); v.dedup(); v
    }
    pub fn caches(&self) -> Vec<(usize, u8)> {
        let mut v = vec![];
        self.walk(&mut |n| if let K::Cached(i, _) = n.k { v.push((cache_kind(n.tag), i)) });
        v.sort(); v.dedup(); v
    }
    pub fn has_cache(&self) -> bool { self.any(&|n| matches!(n.k, K::Cached(..))) }
    /// Number of scalar derivatives that can be taken (of the tree as a whole).
    pub fn order(&self) -> usize {
        let own = match &self.k {
            K::Var(_) => cap(self.tag),
            K::Const(Rep::Plain, _) => cap(self.tag),
            K::Const(..) => 0,
            K::Un(u, _) => u.order().min(cap(self.tag)),
            K::Bin(op, a, b) => match op {
                Op::Power => 3,
                Op::Dot if self.tag == Tag::S && a.tag == Tag::S => 2,
                Op::Dot | Op::Tensor => if self.tag == Tag::S { if a.tag == Tag::S { 3 } else if a.tag == Tag::V3 { 2 } else { 1 } }
                    else if self.tag == Tag::V3 && (a.tag == Tag::S || b.tag == Tag::S) { 2 } else { 1 },
                _ => cap(self.tag),
            },
            K::Sum(a) => if a.tag == Tag::S { 2 } else { 0 },
            K::Cached(..) => if self.tag == Tag::Vc { 0 } else { 2 },
        };
        self.children().into_iter().map(|c| c.order()).fold(own, |a, b| a.min(b))
    }
    /// Whether a derivative with respect to a 3-vector is available.
    pub fn vdiff(&self) -> bool {
        if self.tag != Tag::S && self.tag != Tag::V3 { return false }
        match &self.k {
            K::Var(_) => true,
            K::Const(r, _) => *r == Rep::Plain,
            K::Un(u, a) => u.order() > 0 && (self.tag == Tag::S || u.affine()) && a.vdiff(),
            K::Bin(op, a, b) => a.vdiff() && b.vdiff() && match op {
                Op::Add | Op::Sub => a.tag == b.tag,
                Op::Mul | Op::Div | Op::Power => self.tag == Tag::S,
                Op::Dot => a.tag == Tag::V3 && b.tag == Tag::V3,
                Op::Tensor => a.tag == Tag::S || b.tag == Tag::S,
            },
            K::Sum(a) => a.tag == Tag::S && a.vdiff(),
            K::Cached(_, a) => a.vdiff(),
        }
    }
    pub fn has_text(&self) -> bool {
        !self.any(&|n| match &n.k { K::Const(r, _) => *r != Rep::Plain || n.tag != Tag::S, K::Sum(_) | K::Cached(..) => true, _ => false })
    }
    /// Compact, unambiguous rendering for reports.
    pub fn show(&self) -> String {
        match &self.k {
            K::Var(i) => id_name(self.tag.kind(), *i),
            K::Const(r, d) => format!("{}{:?}", match r { Rep::Plain => "", Rep::Raw => "raw", Rep::Full => "full", Rep::Diag => "diag" }, d),
            K::Un(u, a) => format!("{:?}({})", u, a.show()),
            K::Bin(o, a, b) => format!("{:?}({}, {})", o, a.show(), b.show()),
            K::Sum(a) => format!("Sum({})", a.show()),
            K::Cached(i, a) => format!("Cached<{}>({})", id_name(cache_kind(self.tag), *i), a.show()),
        }
    }
    /// The same, without constants: identifies the structure.
    pub fn skeleton(&self) -> String {
        match &self.k {
            K::Var(i) => id_name(self.tag.kind(), *i),
            K::Const(r, _) => format!("{:?}{:?}", r, self.tag),
            K::Un(u, a) => format!("{:?}({})", u, a.skeleton()),
            K::Bin(o, a, b) => format!("{:?}({},{})", o, a.skeleton(), b.skeleton()),
            K::Sum(a) => format!("Sum({})", a.skeleton()),
            K::Cached(i, a) => format!("Cached{}({})", i, a.skeleton()),
        }
    }
    pub fn renumber(&mut self) {
        fn go(n: &mut Node, next: &mut u32) {
            n.id = *next; *next += 1;
            match &mut n.k { K::Un(_, a) | K::Sum(a) | K::Cached(_, a) => go(a, next), K::Bin(_, a, b) => { go(a, next); go(b, next) }, _ => {} }
        }
        go(self, &mut 0)
    }
}
pub fn cap(t: Tag) -> usize { match t { Tag::S => 3, Tag::V3 => 2, Tag::Vc => 0, _ => 1 } }
pub fn cache_kind(t: Tag) -> usize { match t { Tag::S => 10, Tag::V3 => 11, _ => panic!("no cache of this sort") } }

/// Output sort of a contraction over `axes` (0 or 1), when the operands can be contracted.
pub fn contract_tag(op: Op, a: Tag, b: Tag) -> Option<Tag> {
    use Tag::*;
    match op {
        Op::Dot => match (a, b) {
            (S, S) | (V2, V2) | (V3, V3) => Some(S),
            (M22, V2) | (V2, M22) | (V3, M32) => Some(V2),
            (M33, V3) | (V3, M33) | (V2, M23) => Some(V3),
            (M22, M22) | (M23, M32) => Some(M22),
            (M33, M33) | (M32, M23) => Some(M33),
            (M22, M23) | (M23, M33) => Some(M23),
            (M33, M32) | (M32, M22) => Some(M32),
            _ => None,
        },
        Op::Tensor => match (a, b) {
            (S, S) => Some(S),
            (S, V2) | (V2, S) => Some(V2),
            (S, V3) | (V3, S) => Some(V3),
            (S, M22) | (M22, S) | (V2, V2) => Some(M22),
            (S, M33) | (M33, S) | (V3, V3) => Some(M33),
            (S, M23) | (M23, S) | (V2, V3) => Some(M23),
            (S, M32) | (M32, S) | (V3, V2) => Some(M32),
            _ => None,
        },
        _ => None,
    }
}
pub const CONTRACTIONS: &[(Op, Tag, Tag)] = {
    use Tag::*; use Op::*;
    &[(Dot, S, S), (Dot, V2, V2), (Dot, V3, V3), (Dot, M22, V2), (Dot, V2, M22), (Dot, V3, M32), (Dot, M33, V3), (Dot, V3, M33), (Dot, V2, M23),
      (Dot, M22, M22), (Dot, M23, M32), (Dot, M33, M33), (Dot, M32, M23), (Dot, M22, M23), (Dot, M23, M33), (Dot, M33, M32), (Dot, M32, M22),
      (Tensor, S, S), (Tensor, S, V2), (Tensor, V2, S), (Tensor, S, V3), (Tensor, V3, S), (Tensor, S, M22), (Tensor, M22, S), (Tensor, V2, V2),
      (Tensor, S, M33), (Tensor, M33, S), (Tensor, V3, V3), (Tensor, S, M23), (Tensor, M23, S), (Tensor, V2, V3), (Tensor, S, M32), (Tensor, M32, S), (Tensor, V3, V2)]
};

// ------------------------------------------------------------------ levels
pub type S1L = Lv<L0, L0>;
pub type S2L = Lv<S1L, Ls<L0>>;
pub type S3L = Lv<S2L, Ls<Ls<L0>>>;
type V1 = Ls<L0>;
type V2L = Ls<Ls<L0>>;
type VA = Lv<Lv<L0, L0>, Ls<L0>>;

// ------------------------------------------------------------------ dispatch over sorts
#[macro_export]
macro_rules! with_dyn {
    ($any:expr, |$d:ident| $body:expr) => {
        match $any {
            $crate::AnyDyn::S($d) => $body, $crate::AnyDyn::V2($d) => $body, $crate::AnyDyn::V3($d) => $body, $crate::AnyDyn::M22($d) => $body,
            $crate::AnyDyn::M23($d) => $body, $crate::AnyDyn::M32($d) => $body, $crate::AnyDyn::M33($d) => $body, $crate::AnyDyn::T3($d) => $body,
            $crate::AnyDyn::Vc($d) => $body, $crate::AnyDyn::Tp($d) => $body,
        }
    }
}
macro_rules! any_dyn {
    ($($tag:ident $T:ty;)*) => {
        #[derive(Clone)]
        pub enum AnyDyn { $($tag(Dyn<$T>)),* }
        $(impl From<Dyn<$T>> for AnyDyn { fn from(d: Dyn<$T>) -> Self { AnyDyn::$tag(d) } })*
    };
}
any_dyn! { S f64; V2 V2; V3 V3; M22 M22; M23 M23; M32 M32; M33 M33; T3 T3; Vc Vc; Tp Tp; }

macro_rules! un_all {
    ($fname:ident, $T:ty, $flv:ident, affine $LA:ty, smooth $LS:ty, abs $LABS:ty, one $L1:ty) => {
        fn $fname(u: U, id: u32, c: Dyn<$T>) -> Dyn<$T> {
            use $flv::Level;
            match u {
                U::SubOne => <$LA>::erase(id, ops::SubOne(c)), U::OneSub => <$LA>::erase(id, ops::OneSub(c)), U::AddOne => <$LA>::erase(id, ops::AddOne(c)),
                U::Double => <$LA>::erase(id, ops::Double(c)), U::Negate => <$LA>::erase(id, ops::Negate(c)),
                U::Square => <$LS>::erase(id, ops::Square(c)), U::Ln => <$LS>::erase(id, ops::Ln(c)), U::XLnX => <$LS>::erase(id, ops::XLnX(c)),
                U::Exp => <$LS>::erase(id, ops::Exp(c)), U::Rabbit => <$LS>::erase(id, ops::Rabbit(c)), U::Sigmoid => <$LS>::erase(id, ops::Sigmoid(c)),
                U::Cos => <$LS>::erase(id, trig::Cos(c)), U::Sin => <$LS>::erase(id, trig::Sin(c)),
                U::Abs => <$LABS>::erase(id, ops::Abs(c)),
                U::Sign => <$L1>::erase(id, ops::Sign(c)), U::Gamma => <$L1>::erase(id, special::Gamma(c)), U::LogGamma => <$L1>::erase(id, special::LogGamma(c)),
                U::Factorial => <$L1>::erase(id, special::Factorial::factorial(c)),
                U::Dirac => L0::erase(id, ops::Dirac(c)), U::DiGamma => L0::erase(id, special::DiGamma(c)), U::Erf => L0::erase(id, special::Erf(c)),
                U::Erfc => L0::erase(id, special::Erfc::erfc(c)),
                U::Cosh => L0::erase(id, trig::Cosh(c)), U::ArcCos => L0::erase(id, trig::ArcCos(c)), U::ArcCosh => L0::erase(id, trig::ArcCosh(c)),
                U::Sinh => L0::erase(id, trig::Sinh(c)), U::ArcSin => L0::erase(id, trig::ArcSin(c)), U::ArcSinh => L0::erase(id, trig::ArcSinh(c)),
                U::Tan => L0::erase(id, trig::Tan(c)), U::Tanh => L0::erase(id, trig::Tanh(c)), U::ArcTan => L0::erase(id, trig::ArcTan(c)),
                U::ArcTanh => L0::erase(id, trig::ArcTanh(c)),
            }
        }
    };
}
un_all!(un_s, f64, text, affine S3L, smooth S3L, abs S2L, one S1L);
un_all!(un_v3, V3, text, affine VA, smooth V2L, abs V2L, one V1);
un_all!(un_v2, V2, text, affine V1, smooth V1, abs V1, one V1);
un_all!(un_m22, M22, text, affine V1, smooth V1, abs V1, one V1);
un_all!(un_m23, M23, text, affine V1, smooth V1, abs V1, one V1);
un_all!(un_m32, M32, text, affine V1, smooth V1, abs V1, one V1);
un_all!(un_m33, M33, text, affine V1, smooth V1, abs V1, one V1);
un_all!(un_t3, T3, text, affine V1, smooth V1, abs V1, one V1);
un_all!(un_tp, Tp, text, affine V1, smooth V1, abs V1, one V1);
un_all!(un_vc, Vc, text, affine L0, smooth L0, abs L0, one L0);

macro_rules! bin_all {
    ($fname:ident, $A:ty, $B:ty => $T:ty, $flv:ident, lin $LA:ty, smooth $LS:ty) => {
        fn $fname(o: Op, id: u32, a: Dyn<$A>, b: Dyn<$B>) -> Dyn<$T> {
            use $flv::Level;
            match o {
                Op::Add => <$LA>::erase(id, ops::Add(a, b)), Op::Sub => <$LA>::erase(id, ops::Sub(a, b)),
                Op::Mul => <$LS>::erase(id, ops::Mul(a, b)), Op::Div => <$LS>::erase(id, ops::Div(a, b)),
                _ => unreachable!(),
            }
        }
    };
}
bin_all!(bin_s, f64, f64 => f64, text, lin S3L, smooth S3L);
bin_all!(bin_v3, V3, V3 => V3, text, lin VA, smooth V2L);
bin_all!(bin_sv3, f64, V3 => V3, text, lin V2L, smooth V2L);
bin_all!(bin_v3s, V3, f64 => V3, text, lin V2L, smooth V2L);
bin_all!(bin_v2, V2, V2 => V2, text, lin V1, smooth V1);
bin_all!(bin_sv2, f64, V2 => V2, text, lin V1, smooth V1);
bin_all!(bin_v2s, V2, f64 => V2, text, lin V1, smooth V1);
macro_rules! bin_three { ($($T:ident $s:ident $sl:ident $sr:ident;)*) => { $(
    bin_all!($s, $T, $T => $T, text, lin V1, smooth V1);
    bin_all!($sl, f64, $T => $T, text, lin V1, smooth V1);
    bin_all!($sr, $T, f64 => $T, text, lin V1, smooth V1);
)* } }
bin_three! { M22 bin_m22 bin_sm22 bin_m22s; M23 bin_m23 bin_sm23 bin_m23s; M32 bin_m32 bin_sm32 bin_m32s; M33 bin_m33 bin_sm33 bin_m33s; T3 bin_t3 bin_st3 bin_t3s; }
bin_all!(bin_tp, Tp, Tp => Tp, text, lin V1, smooth V1);
bin_all!(bin_vc, Vc, Vc => Vc, text, lin L0, smooth L0);
bin_all!(bin_svc, f64, Vc => Vc, text, lin L0, smooth L0);
bin_all!(bin_vcs, Vc, f64 => Vc, text, lin L0, smooth L0);

fn konst<B: Sort>(id: u32, r: Rep, d: &[f64], n: usize, plain: impl Fn(u32, Constant<B>) -> Dyn<B>) -> Dyn<B>
where
    Constant<Spec<B>>: Fun<B>,
{
    use plain::Level;
    match r {
        Rep::Plain => plain(id, Constant(B::from_data(d))),
        Rep::Raw => L0::erase(id, Constant(Spec::Raw(B::from_data(d)))),
        Rep::Full => L0::erase(id, Constant(Spec::<B>::Full(B::mkshape(n), d[0]))),
        Rep::Diag => L0::erase(id, Constant(Spec::<B>::Diagonal(B::mkshape(n), d[0]))),
    }
}

/// Scalar "variables" that are built as the derivative of a variable: with respect to itself, and to
/// another one. [adjoint_leaves] gives them the values one and zero.
pub const ONE: u8 = 100;
pub const ZERO: u8 = 101;
pub fn adjoint_leaves(c: &mut MCtx) {
    c.s.resize_with(ZERO as usize + 1, || None);
    c.s[ONE as usize] = Some(Slot::raw(1.0));
    c.s[ZERO as usize] = Some(Slot::raw(0.0));
}

/// `n` is the length used for homogeneous constants of the run-time sized sort.
pub fn build(node: &Node, n: usize) -> AnyDyn {
    let id = node.id;
    match &node.k {
        K::Var(i) => {
            let i = *i;
            if node.tag == Tag::S && (i == ONE || i == ZERO) {
                use aegir::Differentiable;
                return <S3L as text::Level<_, _>>::erase(id, Variable(Id::<0>(i)).adjoint(Id::<0>(ONE))).into();
            }
            match node.tag {
                Tag::S => <S3L as text::Level<_, _>>::erase(id, Variable(Id::<0>(i))).into(),
                Tag::V2 => <V1 as text::Level<_, _>>::erase(id, Variable(Id::<1>(i))).into(),
                Tag::V3 => <VA as text::Level<_, _>>::erase(id, Variable(Id::<2>(i))).into(),
                Tag::M22 => <V1 as text::Level<_, _>>::erase(id, Variable(Id::<3>(i))).into(),
                Tag::M23 => <V1 as text::Level<_, _>>::erase(id, Variable(Id::<4>(i))).into(),
                Tag::M32 => <V1 as text::Level<_, _>>::erase(id, Variable(Id::<5>(i))).into(),
                Tag::M33 => <V1 as text::Level<_, _>>::erase(id, Variable(Id::<6>(i))).into(),
                Tag::T3 => <V1 as text::Level<_, _>>::erase(id, Variable(Id::<7>(i))).into(),
                Tag::Vc => <L0 as text::Level<_, _>>::erase(id, Variable(Id::<8>(i))).into(),
                Tag::Tp => <V1 as text::Level<_, _>>::erase(id, Variable(Id::<9>(i))).into(),
            }
        },
        K::Const(r, d) => match node.tag {
            Tag::S => konst::<f64>(id, *r, d, n, <S3L as text::Level<_, _>>::erase).into(),
            Tag::V2 => konst::<V2>(id, *r, d, n, <V1 as plain::Level<_, _>>::erase).into(),
            Tag::V3 => konst::<V3>(id, *r, d, n, <VA as plain::Level<_, _>>::erase).into(),
            Tag::M22 => konst::<M22>(id, *r, d, n, <V1 as plain::Level<_, _>>::erase).into(),
            Tag::M23 => konst::<M23>(id, *r, d, n, <V1 as plain::Level<_, _>>::erase).into(),
            Tag::M32 => konst::<M32>(id, *r, d, n, <V1 as plain::Level<_, _>>::erase).into(),
            Tag::M33 => konst::<M33>(id, *r, d, n, <V1 as plain::Level<_, _>>::erase).into(),
            Tag::T3 => konst::<T3>(id, *r, d, n, <V1 as plain::Level<_, _>>::erase).into(),
            Tag::Vc => konst::<Vc>(id, *r, d, n, <L0 as plain::Level<_, _>>::erase).into(),
            Tag::Tp => konst::<Tp>(id, *r, d, n, <V1 as plain::Level<_, _>>::erase).into(),
        },
        K::Un(u, a) => match build(a, n) {
            AnyDyn::S(c) => un_s(*u, id, c).into(), AnyDyn::V2(c) => un_v2(*u, id, c).into(), AnyDyn::V3(c) => un_v3(*u, id, c).into(),
            AnyDyn::M22(c) => un_m22(*u, id, c).into(), AnyDyn::M23(c) => un_m23(*u, id, c).into(), AnyDyn::M32(c) => un_m32(*u, id, c).into(),
            AnyDyn::M33(c) => un_m33(*u, id, c).into(), AnyDyn::T3(c) => un_t3(*u, id, c).into(), AnyDyn::Vc(c) => un_vc(*u, id, c).into(),
            AnyDyn::Tp(c) => un_tp(*u, id, c).into(),
        },
        K::Sum(a) => {
            use plain::Level;
            match build(a, n) {
                AnyDyn::S(c) => <Lv<V1, L0> as Level<_, _>>::erase(id, ops::Sum(c)).into(),
                AnyDyn::V2(c) => L0::erase(id, ops::Sum(c)).into(), AnyDyn::V3(c) => L0::erase(id, ops::Sum(c)).into(),
                AnyDyn::M22(c) => L0::erase(id, ops::Sum(c)).into(), AnyDyn::M23(c) => L0::erase(id, ops::Sum(c)).into(),
                AnyDyn::M32(c) => L0::erase(id, ops::Sum(c)).into(), AnyDyn::M33(c) => L0::erase(id, ops::Sum(c)).into(),
                AnyDyn::T3(c) => L0::erase(id, ops::Sum(c)).into(), AnyDyn::Vc(c) => L0::erase(id, ops::Sum(c)).into(),
                AnyDyn::Tp(c) => L0::erase(id, ops::Sum(c)).into(),
            }
        },
        K::Cached(i, a) => {
            use plain::Level;
            match build(a, n) {
                AnyDyn::S(c) => <Lv<V1, L0> as Level<_, _>>::erase(id, Cached { node: c, ident: Id::<10>(*i) }).into(),
                AnyDyn::V3(c) => <Lv<V1, L0> as Level<_, _>>::erase(id, Cached { node: c, ident: Id::<11>(*i) }).into(),
                _ => unreachable!(),
            }
        },
        K::Bin(o @ (Op::Add | Op::Sub | Op::Mul | Op::Div), a, b) => {
            let o = *o;
            use AnyDyn::*;
            match (build(a, n), build(b, n)) {
                (S(a), S(b)) => bin_s(o, id, a, b).into(),
                (V2(a), V2(b)) => bin_v2(o, id, a, b).into(), (S(a), V2(b)) => bin_sv2(o, id, a, b).into(), (V2(a), S(b)) => bin_v2s(o, id, a, b).into(),
                (V3(a), V3(b)) => bin_v3(o, id, a, b).into(), (S(a), V3(b)) => bin_sv3(o, id, a, b).into(), (V3(a), S(b)) => bin_v3s(o, id, a, b).into(),
                (M22(a), M22(b)) => bin_m22(o, id, a, b).into(), (S(a), M22(b)) => bin_sm22(o, id, a, b).into(), (M22(a), S(b)) => bin_m22s(o, id, a, b).into(),
                (M23(a), M23(b)) => bin_m23(o, id, a, b).into(), (S(a), M23(b)) => bin_sm23(o, id, a, b).into(), (M23(a), S(b)) => bin_m23s(o, id, a, b).into(),
                (M32(a), M32(b)) => bin_m32(o, id, a, b).into(), (S(a), M32(b)) => bin_sm32(o, id, a, b).into(), (M32(a), S(b)) => bin_m32s(o, id, a, b).into(),
                (M33(a), M33(b)) => bin_m33(o, id, a, b).into(), (S(a), M33(b)) => bin_sm33(o, id, a, b).into(), (M33(a), S(b)) => bin_m33s(o, id, a, b).into(),
                (T3(a), T3(b)) => bin_t3(o, id, a, b).into(), (S(a), T3(b)) => bin_st3(o, id, a, b).into(), (T3(a), S(b)) => bin_t3s(o, id, a, b).into(),
                (Vc(a), Vc(b)) => bin_vc(o, id, a, b).into(), (S(a), Vc(b)) => bin_svc(o, id, a, b).into(), (Vc(a), S(b)) => bin_vcs(o, id, a, b).into(),
                (Tp(a), Tp(b)) => bin_tp(o, id, a, b).into(),
                _ => unreachable!(),
            }
        },
        K::Bin(Op::Power, a, b) => match (build(a, n), build(b, n)) {
            (AnyDyn::S(a), AnyDyn::S(b)) => <S3L as text::Level<_, _>>::erase(id, ops::Power(a, b)).into(),
            _ => unreachable!(),
        },
        K::Bin(Op::Dot, a, b) => {
            use AnyDyn::*;
            use text::Level;
            macro_rules! d { ($l:ty; $a:ident $b:ident) => { <$l as Level<_, _>>::erase(id, ops::TensorDot::new($a, $b)).into() } }
            match (build(a, n), build(b, n)) {
                (S(a), S(b)) => d!(V2L; a b), (V2(a), V2(b)) => d!(V1; a b), (V3(a), V3(b)) => d!(Lv<V1, V1>; a b),
                (M22(a), V2(b)) => d!(V1; a b), (V2(a), M22(b)) => d!(V1; a b), (V3(a), M32(b)) => d!(V1; a b),
                (M33(a), V3(b)) => d!(V1; a b), (V3(a), M33(b)) => d!(V1; a b), (V2(a), M23(b)) => d!(V1; a b),
                (M22(a), M22(b)) => d!(V1; a b), (M23(a), M32(b)) => d!(V1; a b), (M33(a), M33(b)) => d!(V1; a b), (M32(a), M23(b)) => d!(V1; a b),
                (M22(a), M23(b)) => d!(V1; a b), (M23(a), M33(b)) => d!(V1; a b), (M33(a), M32(b)) => d!(V1; a b), (M32(a), M22(b)) => d!(V1; a b),
                _ => unreachable!(),
            }
        },
        K::Bin(Op::Tensor, a, b) => {
            use AnyDyn::*;
            use text::Level;
            macro_rules! d { ($l:ty; $a:ident $b:ident) => { <$l as Level<_, _>>::erase(id, ops::TensorProduct::new($a, $b)).into() } }
            match (build(a, n), build(b, n)) {
                (S(a), S(b)) => d!(S3L; a b), (S(a), V2(b)) => d!(V1; a b), (V2(a), S(b)) => d!(V1; a b),
                (S(a), V3(b)) => d!(Lv<V1, V1>; a b), (V3(a), S(b)) => d!(Lv<V1, V1>; a b),
                (S(a), M22(b)) => d!(V1; a b), (M22(a), S(b)) => d!(V1; a b), (V2(a), V2(b)) => d!(V1; a b),
                (S(a), M33(b)) => d!(V1; a b), (M33(a), S(b)) => d!(V1; a b), (V3(a), V3(b)) => d!(V1; a b),
                (S(a), M23(b)) => d!(V1; a b), (M23(a), S(b)) => d!(V1; a b), (V2(a), V3(b)) => d!(V1; a b),
                (S(a), M32(b)) => d!(V1; a b), (M32(a), S(b)) => d!(V1; a b), (V3(a), V2(b)) => d!(V1; a b),
                _ => unreachable!(),
            }
        },
    }
}

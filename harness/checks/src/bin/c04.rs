//! C04: differentiating an expression yields its true derivative.
use aegir::buffers::shapes::ShapeOf;
use aegir::buffers::{Buffer, Spec};
use aegir::meta::{Constant, Variable};
use aegir::ops;
use aegir::{Context, Differentiable, Function, Read};
use checks::trees::*;
use checks::*;
use dynx::gen::*;
use dynx::refr::*;
use dynx::*;
use support::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Target { S(u8), V(u8) }
impl Target {
    fn seeds(self) -> Vec<Seed> { match self {
        Target::S(i) => vec![Seed { kind: 0, ix: i, comp: 0, gen: 0 }],
        Target::V(i) => (0..3).map(|c| Seed { kind: 2, ix: i, comp: c, gen: c }).collect(),
    } }
    fn name(self) -> String { match self { Target::S(i) => ctx::id_name(0, i), Target::V(i) => ctx::id_name(2, i) } }
    fn occurs(self, n: &Node) -> bool { match self { Target::S(i) => n.occurs(0, i), Target::V(i) => n.occurs(2, i) } }
}
/// The Jacobian, output index first.
fn truth(n: &Node, env: &MCtx, vlen: usize, t: Target, defect: bool) -> Result<Val, Skip> {
    match t {
        Target::S(_) => reference(n, env, vlen, &t.seeds(), 1, 1, true),
        Target::V(_) => {
            let cols: Result<Vec<Val>, Skip> = (0..3).map(|c| {
                let v = reference(n, env, vlen, &t.seeds(), 1, 1 << c, true)?;
                if !defect { return Ok(v) }
                let mut r = Ref::new(env, vlen);
                r.seeds = t.seeds(); r.order = 1; r.through_caches = true; r.defect = true;
                let q = r.eval(n)?;
                Ok(Val { data: q.data(1 << c), ..v })
            }).collect();
            let cols = cols?;
            let mut v = cols[0].clone();
            v.dims.push(3);
            let c = cols[0].data.len();
            v.data = (0..c * 3).map(|f| cols[f % 3].data[f / 3]).collect();
            v.tol = (0..c * 3).map(|f| cols[f % 3].tol[f / 3]).collect();
            Ok(v)
        },
    }
}
fn observe(n: &Node, env: &MCtx, vlen: usize, t: Target) -> Option<Out<Flat>> {
    let d = build(n, vlen);
    let a = match t { Target::S(i) => d.sadj(i)?, Target::V(i) => d.vadj(i)? };
    Some(a.value(&mut env.clone()))
}
fn bad(n: &Node, env: &MCtx, vlen: usize, t: Target) -> Option<String> {
    let v = truth(n, env, vlen, t, false).ok()?;
    match observe(n, env, vlen, t)? { Out::Ok((d, x)) => v.check(&d, &x).err(), o => Some(format!("{:?}, expected {:?}", o, v.data)) }
}
fn judge(k: &mut Check, n: &Node, env: &MCtx, vlen: usize, t: Target, what: &str) {
    let v = match truth(n, env, vlen, t, false) { Ok(v) => v, Err(s) => { k.count(&format!("skipped: {:?}", s)); return } };
    let Some(got) = observe(n, env, vlen, t) else { k.count("no derivative"); return };
    let occurs = t.occurs(n);
    k.case(&format!("d/d{} {} | {}", t.name(), n.show(), show_env(n, env)), occurs && n.size() > 1);
    k.count(what);
    if v.data.iter().any(|x| *x != 0.0) { k.count("non-zero derivatives") }
    let mut why = match &got { Out::Ok((d, x)) => v.check(d, x).err(), o => Some(format!("{:?}, expected {:?}", o, v.data)) };
    if why.is_none() && !occurs {
        k.count("absent targets");
        if let Out::Ok((_, x)) = &got { if x.iter().any(|x| *x != 0.0) { why = Some(format!("the target does not occur, but the derivative is {:?}", x)) } }
    }
    if let Some(why) = why {
        let m = smallest(n, &mut |m| bad(m, env, vlen, t).is_some()).unwrap_or(n).clone();
        let w = bad(&m, env, vlen, t).unwrap_or(why.clone());
        let detail = format!("d/d{} of {}\nsmallest failing part {}\nat {}\n{}\n(whole: {})", t.name(), n.show(), m.show(), show_env(&m, env), w, why);
        // The two documented defects of gradients: exactly their values, at exactly their operators.
        if let (Target::V(_), Ok(d), Out::Ok((dims, x))) = (t, truth(n, env, vlen, t, true), &got) {
            if d.check(dims, x).is_ok() {
                let dot = matches!(&m.k, K::Bin(Op::Dot, a, _) if a.tag == Tag::V3);
                let ten = matches!(&m.k, K::Bin(Op::Tensor, a, b) if a.tag == Tag::S && b.tag == Tag::V3);
                if dot { return k.violation("gradient of a dot product uses the Jacobian of its left operand untransposed", &detail) }
                if ten { return k.violation("Jacobian of a scalar-vector tensor product has its first term transposed", &detail) }
            }
        }
        k.violation(&format!("derivative: {} in {}", m.skeleton(), t.name()), &detail);
    }
}

// ------------------------------------------------------------------ Jacobians of sources, all ranks
#[derive(Clone)]
struct C2<A, B>(A, B);
impl<A, B> AsMut<C2<A, B>> for C2<A, B> { fn as_mut(&mut self) -> &mut Self { self } }
impl<A, B> Context for C2<A, B> {}
macro_rules! read { ($k:literal $ix:tt $T:ident) => {
    impl<A: Buffer, B: Buffer> Read<Id<$k>> for C2<A, B> {
        type Buffer = $T;
        fn read(&self, _: Id<$k>) -> Option<$T> { Some(self.$ix.clone()) }
        fn read_spec(&self, _: Id<$k>) -> Option<Spec<$T>> { Some(Spec::Raw(self.$ix.clone())) }
        fn read_shape(&self, _: Id<$k>) -> Option<ShapeOf<$T>> { Some(self.$ix.shape()) }
    }
} }
read!(0 0 A); read!(1 1 B);
const X: Id<0> = Id(0);
const Y: Id<1> = Id(1);

fn matrix<P: Prim, B: Bx<P = P>>(k: &mut Check, what: &str, types: &str, got: Result<Result<B, String>, String>, dims: Vec<usize>, want: impl Fn(&[usize]) -> f64) {
    let w: Vec<f64> = indices(&dims).iter().map(|i| want(i)).collect();
    k.case(&format!("{what} {types}"), true);
    k.count("static Jacobians");
    let ok = match &got { Ok(Ok(b)) => B::sdims(&b.shape()) == dims && b.data().iter().zip(&w).all(|(a, b)| (a.f() - b).abs() <= 1e-5 * (1.0 + b.abs()) * if P::NAME == "f32" { 1.0 } else { 1e-5 }), _ => false };
    if !ok { k.violation(&format!("static {what}: {types}"), &format!("got {:?}\nexpected shape {:?}, elements {:?}", got.map(|r| r.map(|b| (B::sdims(&b.shape()), b.data()))), dims, w)); }
}
fn ev<C: Context + Clone + AsMut<C>, N: Function<C>>(n: &N, c: &C) -> Result<Result<N::Value, String>, String> { guarded(|| n.evaluate(c.clone()).map_err(|e| e.to_string())) }
fn cat(a: Vec<usize>, b: Vec<usize>) -> Vec<usize> { let mut a = a; a.extend(b); a }
/// Variable against another variable and constant against a variable: zero, shape value x target.
macro_rules! cross { ($k:ident, $r:ident, $A:ty, $B:ty, $O:ty) => {{
    let c = C2(random::<$A>($r, 0).0, random::<$B>($r, 0).0);
    let dims = cat(<$A>::dims(0), <$B>::dims(0));
    let types = format!("{} by {}", <$A>::name(0), <$B>::name(0));
    matrix::<_, $O>($k, "variable by another", &types, ev(&Variable(X).adjoint(Y), &c), dims.clone(), |_| 0.0);
    matrix::<_, $O>($k, "constant by variable", &types, ev(&Constant(c.0.clone()).adjoint(Y), &c), dims.clone(), |_| 0.0);
    matrix::<_, $O>($k, "affine of another variable", &types, ev(&ops::Double(ops::OneSub(Variable(X))).adjoint(Y), &c), dims.clone(), |_| 0.0);
    matrix::<_, $O>($k, "sum of constant and another", &types, ev(&ops::Sub(Variable(X), Constant(c.0.clone())).adjoint(Y), &c), dims, |_| 0.0);
}} }
/// Variable against itself: the identity.
macro_rules! own { ($k:ident, $r:ident, $A:ty, $O:ty) => {{
    let c = C2(random::<$A>($r, 0).0, random::<$A>($r, 0).0);
    let d = <$A>::dims(0);
    let h = d.len();
    let dims = cat(d.clone(), d);
    let types = <$A>::name(0);
    let id = move |i: &[usize]| if i[..h] == i[h..] { 1.0 } else { 0.0 };
    matrix::<_, $O>($k, "variable by itself", &types, ev(&Variable(X).adjoint(X), &c), dims.clone(), id);
    matrix::<_, $O>($k, "second variable by itself", &types, ev(&Variable(Y).adjoint(Y), &c), dims.clone(), id);
    matrix::<_, $O>($k, "affine of itself", &types, ev(&ops::Double(ops::OneSub(Variable(X))).adjoint(X), &c), dims.clone(), move |i| -2.0 * id(i));
    matrix::<_, $O>($k, "sum with itself", &types, ev(&ops::Add(ops::AddOne(Variable(X)), Variable(X)).adjoint(X), &c), dims.clone(), move |i| 2.0 * id(i));
    matrix::<_, $O>($k, "difference with another", &types, ev(&ops::Sub(Variable(X), ops::SubOne(Variable(Y))).adjoint(Y), &c), dims.clone(), move |i| -id(i));
    matrix::<_, $O>($k, "sum with another", &types, ev(&ops::Add(Variable(Y), Variable(X)).adjoint(X), &c), dims, id);
}} }
fn sources(k: &mut Check, r: &mut Rng) {
    macro_rules! field { ($F:ty) => {
        // Scalars against buffers and buffers against scalars.
        cross!(k, r, $F, $F, $F);
        cross!(k, r, $F, [$F; 1], [$F; 1]); cross!(k, r, [$F; 1], $F, [$F; 1]);
        cross!(k, r, $F, [$F; 4], [$F; 4]); cross!(k, r, [$F; 4], $F, [$F; 4]);
        cross!(k, r, $F, [[$F; 3]; 2], [[$F; 3]; 2]); cross!(k, r, [[$F; 3]; 2], $F, [[$F; 3]; 2]);
        cross!(k, r, $F, [[[$F; 2]; 3]; 2], [[[$F; 2]; 3]; 2]); cross!(k, r, [[[$F; 2]; 3]; 2], $F, [[[$F; 2]; 3]; 2]);
        cross!(k, r, $F, [[[[$F; 2]; 1]; 3]; 2], [[[[$F; 2]; 1]; 3]; 2]);
        cross!(k, r, $F, ($F, $F), ($F, $F)); cross!(k, r, ($F, $F), $F, ($F, $F));
        // Buffers against buffers.
        cross!(k, r, [$F; 2], [$F; 2], [[$F; 2]; 2]); cross!(k, r, [$F; 2], [$F; 3], [[$F; 3]; 2]); cross!(k, r, [$F; 5], [$F; 1], [[$F; 1]; 5]); cross!(k, r, [$F; 1], [$F; 4], [[$F; 4]; 1]);
        cross!(k, r, [$F; 2], [[$F; 4]; 3], [[[$F; 4]; 3]; 2]); cross!(k, r, [[$F; 3]; 2], [$F; 4], [[[$F; 4]; 3]; 2]);
        cross!(k, r, [[$F; 3]; 2], [[$F; 3]; 2], [[[[$F; 3]; 2]; 3]; 2]); cross!(k, r, [[$F; 3]; 2], [[$F; 1]; 4], [[[[$F; 1]; 4]; 3]; 2]);
        cross!(k, r, [$F; 2], [[[$F; 2]; 3]; 2], [[[[$F; 2]; 3]; 2]; 2]); cross!(k, r, [[[$F; 2]; 3]; 2], [$F; 2], [[[[$F; 2]; 2]; 3]; 2]);
        cross!(k, r, [[$F; 3]; 2], [[[$F; 2]; 1]; 2], [[[[[$F; 2]; 1]; 2]; 3]; 2]); cross!(k, r, [[[$F; 2]; 1]; 2], [[$F; 3]; 2], [[[[[$F; 3]; 2]; 2]; 1]; 2]);
        own!(k, r, $F, $F);
        own!(k, r, [$F; 1], [[$F; 1]; 1]); own!(k, r, [$F; 2], [[$F; 2]; 2]); own!(k, r, [$F; 3], [[$F; 3]; 3]); own!(k, r, [$F; 7], [[$F; 7]; 7]); own!(k, r, [$F; 16], [[$F; 16]; 16]);
        own!(k, r, [[$F; 1]; 1], [[[[$F; 1]; 1]; 1]; 1]); own!(k, r, [[$F; 2]; 2], [[[[$F; 2]; 2]; 2]; 2]); own!(k, r, [[$F; 3]; 2], [[[[$F; 3]; 2]; 3]; 2]);
        own!(k, r, [[$F; 1]; 4], [[[[$F; 1]; 4]; 1]; 4]); own!(k, r, [[$F; 5]; 3], [[[[$F; 5]; 3]; 5]; 3]);
    } }
    field!(f64);
    field!(f32);
}

/// Gradients through a dot product, for many lengths: d f(w.x) / dw = f'(w.x) x.
fn gradients<const N: usize>(k: &mut Check, r: &mut Rng) {
    for _ in 0..4 {
        let w: [f64; N] = std::array::from_fn(|_| r.range(-1.0, 1.0) / N as f64 * 1.5);
        let x: [f64; N] = std::array::from_fn(|_| r.range(-1.0, 1.5));
        let c = C2(w, x);
        let u: f64 = (0..N).map(|i| w[i] * x[i]).sum();
        macro_rules! un { ($($op:ident)*) => { $( if let Ok(h) = { let mut h = Hyp::c(u); h.0[1] = 1.0; unary(U::$op, h, 1) } {
            let d = h.0[1];
            matrix::<_, [f64; N]>(k, concat!("gradient of ", stringify!($op), " of a dot product"), &format!("{N} at {:?} {:?}", w, x), ev(&ops::$op(ops::TensorDot::new(Variable(X), Variable(Y))).adjoint(X), &c), vec![N], |i| d * x[i[0]]);
            matrix::<_, [f64; N]>(k, concat!("gradient of ", stringify!($op), " of a dot product, right operand"), &format!("{N} at {:?} {:?}", w, x), ev(&ops::$op(ops::TensorDot::new(Variable(X), Variable(Y))).adjoint(Y), &c), vec![N], |i| d * w[i[0]]);
            matrix::<_, [f64; N]>(k, concat!("gradient of ", stringify!($op), " of a dot product, constant"), &format!("{N} at {:?} {:?}", w, x), ev(&ops::$op(ops::TensorDot::new(Constant(x), Variable(X))).adjoint(X), &c), vec![N], |i| d * x[i[0]]);
        } )* } }
        un!(Sigmoid Square Double Negate AddOne SubOne OneSub Exp Rabbit Abs Ln XLnX);
        let ww: f64 = w.iter().map(|x| x * x).sum();
        let norm = || ops::TensorDot::new(Variable(X), Variable(X));
        let dot = || ops::TensorDot::new(Variable(X), Variable(Y));
        let at = format!("{N} at {:?} {:?}", w, x);
        matrix::<_, [f64; N]>(k, "gradient of a squared norm", &at, ev(&norm().adjoint(X), &c), vec![N], |i| 2.0 * w[i[0]]);
        matrix::<_, [f64; N]>(k, "gradient of a product", &at, ev(&ops::Mul(norm(), dot()).adjoint(X), &c), vec![N], |i| 2.0 * w[i[0]] * u + ww * x[i[0]]);
        matrix::<_, [f64; N]>(k, "gradient of a quotient", &at, ev(&ops::Div(dot(), ops::AddOne(norm())).adjoint(X), &c), vec![N], |i| x[i[0]] / (1.0 + ww) - u * 2.0 * w[i[0]] / (1.0 + ww).powi(2));
        matrix::<_, [f64; N]>(k, "gradient of a power", &at, ev(&ops::Power(ops::AddOne(norm()), Constant(2.5)).adjoint(X), &c), vec![N], |i| 2.5 * support::libm::pow(1.0 + ww, 1.5) * 2.0 * w[i[0]]);
        matrix::<_, [f64; N]>(k, "gradient of a power, both", &at, ev(&ops::Power(ops::AddOne(norm()), dot()).adjoint(X), &c), vec![N],
            |i| support::libm::pow(1.0 + ww, u) * (x[i[0]] * support::libm::ln(1.0 + ww) + u * 2.0 * w[i[0]] / (1.0 + ww)));
    }
}

/// The documented (doctest-pinned) derivative of a sum is the derivative of its operand.
fn sums(k: &mut Check) {
    let c = C2([1.5, -2.0, 0.25], 2.0);
    let got = ev(&ops::Sum(Variable(X)).adjoint(X), &c);
    k.case("gradient of Sum(x)", true);
    let right = matches!(&got, Ok(Ok(b)) if format!("{:?}", b) == "[1.0, 1.0, 1.0]");
    let pinned = matches!(&got, Ok(Ok(b)) if *b == [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
    if !right { k.violation(if pinned { "derivative of Sum is the derivative of its operand, not summed" } else { "derivative of Sum" }, &format!("Sum(x).adjoint(x) gives {:?}, the gradient is [1, 1, 1]", got)); }
    let got = ev(&ops::Sum(ops::Mul(Variable(Y), Constant([3.0, 4.0]))).adjoint(Y), &c);
    k.case("derivative of Sum(y * [3, 4])", true);
    let right = matches!(&got, Ok(Ok(b)) if format!("{:?}", b) == "7.0");
    let pinned = matches!(&got, Ok(Ok(b)) if *b == [3.0, 4.0]);
    if !right { k.violation(if pinned { "derivative of Sum is the derivative of its operand, not summed" } else { "derivative of Sum" }, &format!("Sum(y * [3, 4]).adjoint(y) gives {:?}, the derivative is 7", got)); }
}

fn main() {
    drive(Check::new("C04", "random differentiable expression trees at interior points, differentiated in scalar and 3-vector variables and compared with hyper-dual forward differentiation; Jacobians of sources for every combination of ranks; gradients through dot products of many lengths; non-trivial: the target occurs below at least one operator"), run)
}
fn run(k: &mut Check) {
    // 1. Every operator on every sort, over a variable and over an inner function.
    for rep in 0..k.n(20, 200) {
        let mut r = k.rng("sweep", rep as u64);
        let e = env(&mut r, EnvOpt { lifted: rep % 4 == 3, special: rep % 2 == 0, vlen: 3 });
        let var = |t: Tag, i: u8| Node { tag: t, id: 0, k: K::Var(i) };
        let inner = |t: Tag, i: u8| match (rep / 2) % 3 {
            0 => Node { tag: t, id: 0, k: K::Bin(Op::Mul, Box::new(if t == Tag::Tp { var(t, 1) } else { var(Tag::S, 0) }), Box::new(var(t, i))) },
            1 => Node { tag: t, id: 0, k: K::Un(U::Sin, Box::new(Node { tag: t, id: 0, k: K::Bin(Op::Add, Box::new(var(t, i)), Box::new(if t == Tag::Tp { var(t, 1) } else { var(Tag::S, 0) })) })) },
            _ => Node { tag: t, id: 0, k: K::Bin(Op::Add, Box::new(var(t, i)), Box::new(if t == Tag::Tp { var(t, 2) } else { var(Tag::S, 0) })) },
        };
        let mut nodes = vec![];
        for t in TAGS {
            if t == Tag::Vc { continue }
            for &u in UNARY { if u.order() > 0 {
                nodes.push(Node { tag: t, id: 0, k: K::Un(u, Box::new(inner(t, 0))) });
                nodes.push(Node { tag: t, id: 0, k: K::Un(u, Box::new(var(t, 0))) });
                // Scalar functions of a vector, for gradients.
                if t == Tag::S { let d = Node { tag: Tag::S, id: 0, k: K::Bin(Op::Dot, Box::new(var(Tag::V3, 0)), Box::new(var(Tag::V3, 1))) }; nodes.push(Node { tag: Tag::S, id: 0, k: K::Un(u, Box::new(d)) }); }
            } }
            for o in [Op::Add, Op::Sub, Op::Mul, Op::Div] {
                nodes.push(Node { tag: t, id: 0, k: K::Bin(o, Box::new(inner(t, 0)), Box::new(inner(t, 1))) });
                if t != Tag::S && t != Tag::Tp {
                    nodes.push(Node { tag: t, id: 0, k: K::Bin(o, Box::new(inner(t, 0)), Box::new(var(Tag::S, 0))) });
                    nodes.push(Node { tag: t, id: 0, k: K::Bin(o, Box::new(var(Tag::S, 0)), Box::new(inner(t, 0))) });
                }
            }
        }
        for (o, a, b) in CONTRACTIONS { nodes.push(Node { tag: contract_tag(*o, *a, *b).unwrap(), id: 0, k: K::Bin(*o, Box::new(inner(*a, 0)), Box::new(inner(*b, 1))) }) }
        for (o, a, b) in CONTRACTIONS { nodes.push(Node { tag: contract_tag(*o, *a, *b).unwrap(), id: 0, k: K::Bin(*o, Box::new(var(*a, 0)), Box::new(var(*b, 1))) }) }
        let c = |x: f64| Box::new(Node { tag: Tag::S, id: 0, k: K::Const(Rep::Plain, vec![x]) });
        nodes.push(Node { tag: Tag::S, id: 0, k: K::Bin(Op::Power, Box::new(inner(Tag::S, 0)), Box::new(var(Tag::S, 1))) });
        nodes.push(Node { tag: Tag::S, id: 0, k: K::Bin(Op::Power, c(2.5), Box::new(inner(Tag::S, 0))) });
        for p in [0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 0.5, 2.5] { nodes.push(Node { tag: Tag::S, id: 0, k: K::Bin(Op::Power, Box::new(inner(Tag::S, 0)), c(p)) }) }
        nodes.push(Node { tag: Tag::S, id: 0, k: K::Sum(Box::new(inner(Tag::S, 0))) });
        for mut n in nodes {
            n.renumber();
            for i in 0..2 {
                judge(k, &n, &e, 3, Target::S(i), "sweep");
                if n.vdiff() { judge(k, &n, &e, 3, Target::V(i), "sweep (vector target)") }
            }
        }
    }
    // 2. Random trees.
    let trees = k.n(8000, 150_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let vdiff = r.chance(1, 2);
        let tag = if vdiff { *r.pick(&[Tag::S, Tag::S, Tag::V3]) } else { *r.pick(&[Tag::S, Tag::S, Tag::S, Tag::V2, Tag::V3, Tag::M22, Tag::M23, Tag::M32, Tag::M33, Tag::T3, Tag::Tp]) };
        let depth = 2 + r.below(4);
        let caches = r.chance(1, 8);
        let special = r.chance(1, 2);
        let e = env(&mut r, EnvOpt { lifted: i % 4 == 0, special, vlen: 3 });
        let node = Gen { r: &mut r, env: &e, o: GenOpt { order: 1, vdiff, caches, vlen: 3, ..Default::default() } }.tree(tag, depth);
        for t in 0..NVAR as u8 {
            if vdiff { judge(k, &node, &e, 3, Target::V(t), "trees (vector target)") } else { judge(k, &node, &e, 3, Target::S(t), "trees (scalar target)") }
        }
        if vdiff && node.order() > 0 { judge(k, &node, &e, 3, Target::S(0), "trees (scalar target)") }
        for o in op_names(&node) { k.count(&format!("op {}", o)); }
    }
    // 3. Sources, all ranks; gradients of all lengths.
    for rep in 0..k.n(2, 10) {
        let r = &mut k.rng("static", rep as u64);
        sources(k, r);
        gradients::<1>(k, r); gradients::<2>(k, r); gradients::<3>(k, r); gradients::<4>(k, r); gradients::<5>(k, r); gradients::<8>(k, r); gradients::<17>(k, r);
    }
    sums(k);
    wide_derivatives(k, 1, k.n(600, 20_000));
    // Both documented defects of gradients, at a fixed point.
    let mut e = MCtx::new();
    e.v3.push(Some(Slot::raw([0.5, -1.0, 2.0]))); e.v3.push(Some(Slot::raw([1.5, 0.25, -0.75])));
    let v = |i: u8| Box::new(Node { tag: Tag::V3, id: 0, k: K::Var(i) });
    let dot = Box::new(Node { tag: Tag::S, id: 0, k: K::Bin(Op::Dot, v(0), v(1)) });
    let ten = Node { tag: Tag::V3, id: 0, k: K::Bin(Op::Tensor, dot.clone(), v(1)) };
    judge(k, &ten, &e, 3, Target::V(0), "fixed probes");
    let ten = Box::new(Node { tag: Tag::V3, id: 0, k: K::Bin(Op::Tensor, Box::new(Node { tag: Tag::V3, id: 0, k: K::Const(Rep::Plain, vec![1.0, 2.0, 3.0]) }), dot) });
    judge(k, &Node { tag: Tag::S, id: 0, k: K::Bin(Op::Dot, ten, v(1)) }, &e, 3, Target::V(0), "fixed probes");
    k.need("sweep", 4000);
    k.need("wide-range derivatives", 10_000);
    k.need("wide-range derivatives far out", 3000);
    k.need("sweep (vector target)", 400);
    k.need("trees (scalar target)", trees as u64 / 2);
    k.need("trees (vector target)", trees as u64 / 2);
    k.need("non-zero derivatives", trees as u64);
    k.need("absent targets", trees as u64 / 10);
    k.need("static Jacobians", 300);
    k.assume("the C math library and the digamma series of the reference model are accurate");
}

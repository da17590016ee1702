//! C02: lifted evaluation denotes the same buffer as dense evaluation.
use aegir::buffers::Spec;
use aegir::meta::Constant;
use aegir::{ops, Context, Function};
use checks::trees::*;
use checks::*;
use dynx::gen::*;
use dynx::refr::*;
use dynx::*;
use support::*;

fn close(dense: &Flat, d: &[usize], x: &[f64], tol: Option<&[f64]>) -> Result<(), String> {
    if d != dense.0 { return Err(format!("lifted shape {:?}, dense shape {:?}", d, dense.0)) }
    if x.len() != dense.1.len() { return Err(format!("lifted {} elements, dense {}", x.len(), dense.1.len())) }
    for i in 0..x.len() {
        let t = tol.map_or(0.0, |t| t[i]) + 1e-9 * (1.0 + dense.1[i].abs());
        if dense.1[i].is_finite() && !((x[i] - dense.1[i]).abs() <= t) {
            return Err(format!("element {}: lifted {:?}, dense {:?}; lifted {:?}, dense {:?}", i, x[i], dense.1[i], x, dense.1));
        }
    }
    Ok(())
}
/// Compares lifted evaluation at `env` with dense evaluation of `dense` at `denv`.
fn differs(l: &AnyDyn, env: &MCtx, d: &AnyDyn, denv: &MCtx, tol: Option<&[f64]>) -> (Option<String>, &'static str) {
    let want = match d.value(&mut denv.clone()) { Out::Ok(w) => w, _ => return (None, "no dense value") };
    let mut why = None;
    let mut rep = "failed";
    match l.spec(&mut env.clone()) {
        Out::Ok((r, own, lib)) => {
            rep = r;
            if let Err(w) = close(&want, &own.0, &own.1, tol) { why = Some(format!("lifted evaluation ({r}): {w}")) }
            else if let Err(w) = close(&want, &lib.0, &lib.1, tol) { why = Some(format!("materialised by the library ({r}): {w}")) }
        },
        o => why = Some(format!("lifted evaluation gave {:?}, dense {:?}", o, want)),
    }
    // The plain evaluation over lifted inputs must give the same value, too.
    if why.is_none() {
        match l.value(&mut env.clone()) {
            Out::Ok((d, x)) => if let Err(w) = close(&want, &d, &x, tol) { why = Some(format!("value over lifted inputs: {w}")) },
            o => why = Some(format!("value over lifted inputs gave {:?}, dense {:?}", o, want)),
        }
    }
    (why, rep)
}
fn bad(n: &Node, env: &MCtx, denv: &MCtx, vlen: usize) -> Option<String> {
    let tol = value(n, env, vlen).ok()?.tol;
    differs(&build(n, vlen), env, &build(&dense_tree(n, vlen), vlen), denv, Some(&tol)).0
}
fn judge(k: &mut Check, n: &Node, env: &MCtx, vlen: usize, what: &str) {
    let tol = match value(n, env, vlen) { Ok(v) => v.tol, Err(s) => { k.count(&format!("skipped: {:?}", s)); return } };
    let denv = densify(env);
    let (why, rep) = differs(&build(n, vlen), env, &build(&dense_tree(n, vlen), vlen), &denv, Some(&tol));
    let lifted = lifted_inputs(n, env);
    k.case(&format!("{} | {}", n.show(), show_env(n, env)), lifted > 0 && n.size() > 1);
    k.count(what);
    k.count(&format!("result {}", rep));
    if let Some(why) = why {
        let m = smallest(n, &mut |m| bad(m, env, &denv, vlen).is_some()).unwrap_or(n).clone();
        let w = bad(&m, env, &denv, vlen).unwrap_or(why.clone());
        k.violation(&format!("lifted: {}", m.skeleton()), &format!("expression {}\nsmallest failing part {}\nat {}\n{}\n(whole: {})", n.show(), m.show(), show_env(&m, env), w, why));
    }
}
fn lifted_inputs(n: &Node, env: &MCtx) -> usize {
    let mut c = 0;
    n.walk(&mut |m| match &m.k {
        K::Const(r, _) if *r == Rep::Full || *r == Rep::Diag => c += 1,
        K::Var(i) => {
            macro_rules! g { ($f:ident) => { env.$f.get(*i as usize).and_then(|x| x.as_ref()).map_or(false, |s| !matches!(s.spec, Spec::Raw(_))) } }
            if match m.tag { Tag::S => g!(s), Tag::V2 => g!(v2), Tag::V3 => g!(v3), Tag::M22 => g!(m22), Tag::M23 => g!(m23), Tag::M32 => g!(m32), Tag::M33 => g!(m33), Tag::T3 => g!(t3), Tag::Vc => g!(vc), Tag::Tp => g!(tp) } { c += 1 }
        },
        _ => {},
    });
    c
}
/// A constant of sort `t` in a given representation.
fn konst(r: &mut Rng, t: Tag, rep: Rep, x: f64, vlen: usize) -> Box<Node> {
    let c: usize = t.dims(vlen).iter().product();
    let d = if matches!(rep, Rep::Full | Rep::Diag) { vec![x] } else { (0..c).map(|i| if i == 0 { x } else { number(r, true) }).collect() };
    Box::new(Node { tag: t, id: 0, k: K::Const(rep, d) })
}

// ------------------------------------------------------------------ other buffer types
#[derive(Clone, Copy)]
struct NoCtx;
impl AsMut<NoCtx> for NoCtx { fn as_mut(&mut self) -> &mut NoCtx { self } }
impl Context for NoCtx {}
fn stat<B: Bx, N: Function<NoCtx, Value = B>>(k: &mut Check, what: &str, name: &str, inputs: &str, lift: N, dense: N) {
    let want = guarded(|| dense.evaluate(NoCtx).map(|b| (B::sdims(&b.shape()), b.data())).map_err(|e| e.to_string()));
    let got = guarded(|| lift.evaluate_spec(NoCtx).map(|s| { let o = spec_elems(&s); let u = s.unwrap(); (o, (B::sdims(&u.shape()), u.data())) }).map_err(|e| e.to_string()));
    k.case(&format!("{what} {name} {inputs}"), true);
    k.count("static comparisons");
    let same = |a: &(Vec<usize>, Vec<B::P>), b: &(Vec<usize>, Vec<B::P>)| a.0 == b.0 && a.1.len() == b.1.len()
        && a.1.iter().zip(&b.1).all(|(x, y)| !y.f().is_finite() || (x.f() - y.f()).abs() <= 1e-5 * (1.0 + y.f().abs()));
    let ok = match (&got, &want) {
        (Ok(Ok((own, lib))), Ok(Ok(w))) => same(own, w) && same(lib, w),
        (Ok(Err(_)), Ok(Err(_))) => true,
        (_, Err(_)) => true, // dense evaluation itself panics: not this property
        _ => false,
    };
    if !ok { k.violation(&format!("static {what} on {name}"), &format!("inputs {inputs}\nlifted {:?}\ndense {:?}", got, want)) }
}
fn show<B: Bx>(s: &Spec<B>) -> String { let e = spec_elems(s); format!("{}{:?}", spec_rep(s), e.1) }
macro_rules! statics { ($k:ident, $r:ident, $F:ident, $neg:tt) => {
    for_types!($F, |T, n| {
        for a in 0..3 {
            let x = lifted::<T>($r, n, a);
            if <T as Bx>::dims(n).len() == 0 && a == 2 { continue }
            let dx = Constant(Spec::Raw(T::mk(&spec_elems(&x).1)));
            let name = T::name(n);
            macro_rules! u { ($op:ident) => { stat::<T, _>($k, stringify!($op), &name, &show(&x), ops::$op(Constant(x.clone())), ops::$op(dx.clone())) } }
            u!(SubOne); u!(OneSub); u!(AddOne); u!(Double); u!(Rabbit); statics!(@neg $neg, u);
            stat::<<T as Bx>::P, _>($k, "Sum", &name, &show(&x), ops::Sum(Constant(x.clone())), ops::Sum(dx.clone()));
            for b in 0..3 {
                let y = lifted::<T>($r, n, b);
                let dy = Constant(Spec::Raw(T::mk(&spec_elems(&y).1)));
                let i = format!("{} {}", show(&x), show(&y));
                macro_rules! bi { ($op:ident) => { stat::<T, _>($k, stringify!($op), &name, &i, ops::$op(Constant(x.clone()), Constant(y.clone())), ops::$op(dx.clone(), dy.clone())) } }
                bi!(Add); bi!(Mul); statics!(@bin $neg, bi);
            }
        }
    });
    macro_rules! go { ($T:ty, $len:expr) => {{
        let n: usize = $len;
        for a in 0..3 { for b in 0..2 {
            let x = lifted::<$T>($r, n, a);
            let y = lifted::<$F>($r, 0, b);
            let dx = Constant(Spec::Raw(<$T>::mk(&spec_elems(&x).1)));
            let dy = Constant(Spec::Raw(<$F>::mk(&spec_elems(&y).1)));
            let i = format!("{} {}", show(&x), show(&y));
            let name = <$T>::name(n);
            macro_rules! bi { ($op:ident) => {
                stat::<$T, _>($k, concat!(stringify!($op), " buffer-scalar"), &name, &i, ops::$op(Constant(x.clone()), Constant(y.clone())), ops::$op(dx.clone(), dy.clone()));
                stat::<$T, _>($k, concat!(stringify!($op), " scalar-buffer"), &name, &i, ops::$op(Constant(y.clone()), Constant(x.clone())), ops::$op(dy.clone(), dx.clone()));
            } }
            bi!(Add); bi!(Mul); statics!(@bin $neg, bi);
        } }
    }} }
    for len in [0usize, 1, 2, 7] { go!(Vec<$F>, len); }
    go!([$F; 1], 0); go!([$F; 4], 0); go!([[$F; 3]; 2], 0); go!([[$F; 2]; 2], 0); go!([[[$F; 2]; 3]; 2], 0); go!([[[[$F; 2]; 1]; 3]; 2], 0); go!([[[[[$F; 2]; 3]; 1]; 2]; 2], 0);
    go!([$F; 0], 0); go!([[$F; 0]; 3], 0);
};
    (@neg yes, $u:ident) => { $u!(Negate); $u!(Abs); $u!(Exp); $u!(Sigmoid); $u!(Square); $u!(XLnX); $u!(Sign) };
    (@neg no, $u:ident) => {};
    (@bin yes, $b:ident) => { $b!(Sub); $b!(Div) };
    (@bin no, $b:ident) => { $b!(Sub) };
}

/// One to any exponent, in single precision: 1 when lifted; what the dense evaluation
/// gives is up to the linked `powf`.
const ONE32: &str = "one to a huge, infinite or undefined exponent in f32";
fn one_to(k: &mut Check, e: f32) {
    let one = Spec::<f32>::Full(aegir::buffers::shapes::S0, 1.0);
    let lifted = guarded(|| ops::Power(Constant(one), Constant(Spec::Raw(e))).evaluate_spec(NoCtx).map(|s| s.unwrap().to_bits()).ok());
    let dense = guarded(|| ops::Power(Constant(1.0f32), Constant(e)).evaluate(NoCtx).map(|x| x.to_bits()).ok());
    let native = std::hint::black_box(1.0f32).powf(std::hint::black_box(e));
    k.count("one to any exponent");
    let what = format!("1 to {e}: lifted {lifted:?}, dense {dense:?}, native {native:?}");
    if lifted != Ok(Some(1f32.to_bits())) { k.violation("static Power on f32: lifted one", &what) }
    else if dense != lifted { k.violation(if !(e.abs() < 1e20) && dense == Ok(Some(native.to_bits())) { ONE32 } else { "static Power on f32: dense one" }, &what) }
}

/// Values that are not finite, or whose products are not: a shortcut must still not change a finite result.
trait Hostile: Prim { fn hostile(r: &mut Rng) -> Self; }
macro_rules! hostile { ($($F:ident)+) => { $( impl Hostile for $F { fn hostile(r: &mut Rng) -> Self {
    *r.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, 0.5, <$F>::INFINITY, <$F>::INFINITY, <$F>::NEG_INFINITY, <$F>::NAN, <$F>::MAX, <$F>::MIN, <$F>::MIN_POSITIVE, <$F>::MIN_POSITIVE / 8.0, <$F>::EPSILON, 1e20, -1e20, 1e-20])
} } )+ } }
hostile!(f32 f64);
fn bad_lifted<B: Bx>(r: &mut Rng, n: usize, k: usize) -> Spec<B> where B::P: Hostile {
    let x = B::P::hostile(r);
    match k { 0 => Spec::Raw(B::mkn(n, &(0..card(&B::dims(n))).map(|_| B::P::hostile(r)).collect::<Vec<_>>())), 1 => Spec::Full(B::sh(n), x), _ => Spec::Diagonal(B::sh(n), x) }
}
macro_rules! hostiles { ($k:ident, $r:ident, $F:ident, [$($T:ty, $len:expr;)+]) => { $( {
    type T = $T;
    let n: usize = $len;
    let name = <T as Bx>::name(n);
    for a in 0..3 {
        if <T as Bx>::dims(n).len() == 0 && a == 2 { continue }
        let x = bad_lifted::<T>($r, n, a);
        let dx = Constant(Spec::Raw(T::mk(&spec_elems(&x).1)));
        $k.count("hostile operands");
        macro_rules! u { ($V:ty: $op:path) => { stat::<$V, _>($k, stringify!($op), &name, &show(&x), $op(Constant(x.clone())), $op(dx.clone())) } }
        use ops::special::*;
        use ops::trig::*;
        u!(T: ops::SubOne); u!(T: ops::OneSub); u!(T: ops::AddOne); u!(T: ops::Double); u!(T: ops::Rabbit); u!(T: ops::Negate); u!(T: ops::Abs); u!(T: ops::Exp); u!(T: ops::Ln);
        u!(T: ops::Sigmoid); u!(T: ops::Square); u!(T: ops::XLnX); u!(T: ops::Sign); u!(T: Sin); u!(T: Cos); u!(T: Tanh); u!(T: Cosh); u!(T: Sinh); u!(T: Tan);
        u!(T: ArcSin); u!(T: ArcCos); u!(T: ArcTan); u!(T: Erf); u!(T: DiGamma); u!(T: Gamma); u!(T: LogGamma);
        u!($F: ops::Sum);
        for b in 0..3 {
            let y = bad_lifted::<T>($r, n, b);
            let dy = Constant(Spec::Raw(T::mk(&spec_elems(&y).1)));
            let i = format!("{} {}", show(&x), show(&y));
            macro_rules! bi { ($op:ident) => { stat::<T, _>($k, stringify!($op), &name, &i, ops::$op(Constant(x.clone()), Constant(y.clone())), ops::$op(dx.clone(), dy.clone())) } }
            bi!(Add); bi!(Sub); bi!(Mul); bi!(Div);
            if b == 2 { continue }
            let y = bad_lifted::<$F>($r, 0, b);
            let dy = Constant(Spec::Raw(<$F>::mk(&spec_elems(&y).1)));
            let i = format!("{} {}", show(&x), show(&y));
            macro_rules! sc { ($op:ident) => {
                stat::<T, _>($k, concat!(stringify!($op), " buffer-scalar"), &name, &i, ops::$op(Constant(x.clone()), Constant(y.clone())), ops::$op(dx.clone(), dy.clone()));
                stat::<T, _>($k, concat!(stringify!($op), " scalar-buffer"), &name, &i, ops::$op(Constant(y.clone()), Constant(x.clone())), ops::$op(dy.clone(), dx.clone()));
            } }
            sc!(Add); sc!(Sub); sc!(Mul); sc!(Div);
        }
    }
    for a in 0..2 { for b in 0..2 {
        let (x, y) = (bad_lifted::<$F>($r, 0, a), bad_lifted::<$F>($r, 0, b));
        // The dense single-precision power is that of the native library (a known finding).
        if stringify!($F) == "f32" && a == 1 && spec_elems(&x).1[0] == 1.0 { one_to($k, spec_elems(&y).1[0] as f32); continue }
        let d = |z: &Spec<$F>| Constant(Spec::Raw(spec_elems(z).1[0]));
        stat::<$F, _>($k, "Power", stringify!($F), &format!("{} {}", show(&x), show(&y)), ops::Power(Constant(x.clone()), Constant(y.clone())), ops::Power(d(&x), d(&y)));
    } }
} )+ } }

fn main() {
    drive(Check::new("C02", "random expression trees at environments and with constants in every lifted representation, every operator on every pair of representations, and derivative expressions; non-trivial: at least one operator and one homogeneous or diagonal input"), run)
}
fn run(k: &mut Check) {
    // 1. Every operator, every sort, every pair of representations, special values.
    let specials = [0.0, 1.0, -1.0, 2.0, 0.5, 3.25];
    for rep in 0..k.n(3, 30) {
        let mut r = k.rng("sweep", rep as u64);
        let vlen = [3, 0, 1, 8, 2][rep % 5];
        let env = env(&mut r, EnvOpt { lifted: true, special: true, vlen });
        let reps = [Rep::Raw, Rep::Full, Rep::Diag];
        for t in TAGS {
            for &u in UNARY { for ra in reps { for _ in 0..2 {
                let x = *r.pick(&specials);
                let a = konst(&mut r, t, ra, x, vlen);
                let mut n = Node { tag: t, id: 0, k: K::Un(u, a) }; n.renumber();
                judge(k, &n, &env, vlen, "sweep");
            } } }
            for ra in reps {
                let x = *r.pick(&specials);
                let a = konst(&mut r, t, ra, x, vlen);
                let mut n = Node { tag: Tag::S, id: 0, k: K::Sum(a) }; n.renumber();
                judge(k, &n, &env, vlen, "sweep");
            }
        }
        let mut pairs: Vec<(Op, Tag, Tag, Tag)> = vec![];
        for t in TAGS { for o in [Op::Add, Op::Sub, Op::Mul, Op::Div] {
            pairs.push((o, t, t, t));
            if t != Tag::S && t != Tag::Tp { pairs.push((o, t, Tag::S, t)); pairs.push((o, Tag::S, t, t)); }
        } }
        for (o, a, b) in CONTRACTIONS { pairs.push((*o, *a, *b, contract_tag(*o, *a, *b).unwrap())) }
        pairs.push((Op::Power, Tag::S, Tag::S, Tag::S));
        for (o, ta, tb, t) in pairs { for ra in reps { for rb in reps {
            let tries = if o == Op::Power { 24 } else { 3 };
            for _ in 0..tries {
                let (x, y) = (*r.pick(&specials), *r.pick(&specials));
                let (a, b) = (konst(&mut r, ta, ra, x, vlen), konst(&mut r, tb, rb, y, vlen));
                let mut n = Node { tag: t, id: 0, k: K::Bin(o, a, b) }; n.renumber();
                judge(k, &n, &env, vlen, "sweep");
            }
        } } }
    }
    // 2. Random trees.
    let trees = k.n(8000, 150_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let tag = rand_tag(&mut r);
        let depth = 2 + r.below(5);
        let caches = r.chance(1, 8);
        let s = Sample::new(&mut r, tag, depth, GenOpt { lifted: true, caches, ..Default::default() }, true);
        judge(k, &s.node, &s.env, s.vlen, "trees");
    }
    // 3. Derivative expressions: full of lifted zeroes and identities.
    for i in 0..k.n(2500, 40_000) {
        if k.many() { break }
        let mut r = k.rng("adjoint", i as u64);
        let vdiff = r.chance(1, 2);
        let tag = if vdiff { *r.pick(&[Tag::S, Tag::V3]) } else { *r.pick(&[Tag::S, Tag::S, Tag::V2, Tag::V3, Tag::M22, Tag::M23, Tag::M33, Tag::T3, Tag::Tp]) };
        let vlen = 3;
        let depth = 1 + r.below(4);
        let e = env(&mut r, EnvOpt { lifted: true, special: true, vlen });
        let node = Gen { r: &mut r, env: &e, o: GenOpt { order: 1, vdiff, vlen, ..Default::default() } }.tree(tag, depth);
        let target = r.below(NVAR) as u8;
        let d = build(&node, vlen);
        let de = densify(&e);
        let a = if vdiff { d.vadj(target) } else { d.sadj(target) };
        let Some(a) = a else { k.count("no derivative"); continue };
        // Conditioning of the derivative.
        let kind = if vdiff { 2 } else { 0 };
        let seeds: Vec<Seed> = (0..if vdiff { 3 } else { 1 }).map(|c| Seed { kind, ix: target, comp: c, gen: c }).collect();
        let Ok(v) = reference(&node, &e, vlen, &seeds, 1, 1, true) else { k.count("skipped derivative"); continue };
        let worst = v.tol.iter().fold(0.0f64, |a, b| a.max(*b)) * 10.0;
        let tol = vec![worst; 27];
        let (why, rep) = differs(&a, &e, &a, &de, Some(&tol));
        k.case(&format!("d/d{} {} | {}", target, node.show(), show_env(&node, &e)), node.size() > 1);
        k.count("derivative expressions");
        k.count(&format!("derivative result {}", rep));
        if let Some(why) = why {
            k.violation(&format!("lifted derivative: {}", node.skeleton()), &format!("derivative of {} in {}\nat {}\n{}", node.show(), ctx::id_name(kind, target), show_env(&node, &e), why));
        }
    }
    // 4. Other field and buffer types.
    for rep in 0..k.n(3, 30) {
        let r = &mut k.rng("static", rep as u64);
        statics!(k, r, f64, yes);
        statics!(k, r, f32, yes);
        statics!(k, r, i32, no);
        // More elements than the field can count.
        for n in [200usize, 255, 256, 300, 1000] {
            macro_rules! long { ($F:ty, $x:expr) => {{
                let x = Spec::<Vec<$F>>::Full(aegir::buffers::shapes::SDynamic([n]), $x);
                let d = Constant(Spec::Raw(vec![$x; n]));
                stat::<$F, _>(k, "Sum", concat!("long Vec<", stringify!($F), ">"), &format!("{} of {}", n, $x), ops::Sum(Constant(x)), ops::Sum(d));
            }} }
            long!(u8, 0); long!(i8, 0); long!(u16, 1); long!(i16, -2); long!(i32, 7); long!(u64, 3); long!(f32, 0.25);
        }
    }
    // 5. Operands that are not finite.
    one_to(k, f32::INFINITY);
    for rep in 0..k.n(12, 400) {
        let r = &mut k.rng("hostile", rep as u64);
        macro_rules! go { ($F:ident) => { hostiles!(k, r, $F, [$F, 0; Vec<$F>, 0; Vec<$F>, 1; Vec<$F>, 5; [$F; 0], 0; [$F; 1], 0; [$F; 4], 0; [[$F; 2]; 2], 0; [[$F; 3]; 1], 0; [[$F; 0]; 3], 0; [[[$F; 2]; 1]; 2], 0;]) } }
        go!(f64); go!(f32);
    }
    k.need("hostile operands", 500);
    k.need("sweep", 5000);
    k.need("trees", trees as u64 / 2);
    k.need("derivative expressions", 500);
    k.need("static comparisons", 3000);
    k.assume("the dense evaluation taken as the meaning is the one checked by C01");
}

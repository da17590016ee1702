//! C03: shape evaluation predicts the shape of the value.
use aegir::buffers::Spec;
use aegir::meta::Constant;
use aegir::{ops, Context, Function};
use checks::trees::*;
use checks::*;
use dynx::gen::*;
use dynx::*;
use support::*;

/// Does a violated elementwise operator sit at a place where its failure must surface in the shape
/// (not below a node whose shape does not depend on its operand)?
fn shape_failure(n: &Node, env: &MCtx, vlen: usize) -> Result<Vec<usize>, ()> {
    match &n.k {
        K::Un(_, a) => shape_failure(a, env, vlen),
        K::Sum(_) => Ok(vec![]),
        K::Bin(Op::Power, ..) => Ok(vec![]),
        K::Bin(op, a, b) => {
            let (x, y) = (shape_failure(a, env, vlen)?, shape_failure(b, env, vlen)?);
            match op {
                Op::Dot | Op::Tensor => Ok(n.tag.dims(0)),
                _ => if !x.is_empty() && !y.is_empty() && x != y { Err(()) } else { Ok(if x.is_empty() { y } else { x }) },
            }
        },
        _ => refr::failure(n, env, vlen).map_err(|_| ()),
    }
}
fn compare(d: &AnyDyn, env: &MCtx) -> (Option<String>, bool, Option<Vec<usize>>) {
    let v = d.value(&mut env.clone());
    let s = d.shape(&mut env.clone());
    match (&v, &s) {
        (Out::Ok((dv, _)), Out::Ok(ds)) if dv == ds => {},
        (Out::Ok((dv, _)), o) => return (Some(format!("value has shape {:?}, shape evaluation gives {:?}", dv, o)), true, Some(dv.clone())),
        _ => return (None, false, None),
    }
    let dims = v.ok().unwrap().0.clone();
    match d.spec(&mut env.clone()) {
        Out::Ok((r, own, _)) if own.0 != dims => (Some(format!("lifted value ({r}) has shape {:?}, shape evaluation gives {:?}", own.0, dims)), true, Some(dims)),
        _ => (None, true, Some(dims)),
    }
}

#[derive(Clone, Copy)]
struct NoCtx;
impl AsMut<NoCtx> for NoCtx { fn as_mut(&mut self) -> &mut NoCtx { self } }
impl Context for NoCtx {}
fn stat<B: Bx, N: Function<NoCtx, Value = B>>(k: &mut Check, what: &str, name: &str, inputs: &str, n: N, own: Option<Vec<usize>>) {
    let v = guarded(|| n.evaluate(NoCtx).map(|b| B::sdims(&b.shape())).map_err(|e| e.to_string()));
    let s = guarded(|| n.evaluate_shape(NoCtx).map(|s| B::sdims(&s)).map_err(|e| e.to_string()));
    k.case(&format!("{what} {name} {inputs}"), true);
    k.count("static comparisons");
    let ok = match (&v, &s, &own) {
        (Ok(Ok(a)), Ok(Ok(b)), Some(w)) => a == b && b == w,
        (Ok(Ok(_)), _, _) => false,
        (Ok(Err(_)), Ok(Err(_)), None) => true,
        (Err(_), _, _) => true,
        _ => false,
    };
    if !ok { k.violation(&format!("static {what} on {name}"), &format!("inputs {inputs}\nshape of the value {:?}\nshape evaluation {:?}\nexpected {:?}", v, s, own)) }
}
macro_rules! statics { ($k:ident, $r:ident, $F:ident) => {
    for_types!($F, |T, n| {
        for a in 0..3 {
            let x = lifted::<T>($r, n, a);
            let name = T::name(n);
            let own = Some(T::dims(n));
            macro_rules! u { ($op:ident) => { stat::<T, _>($k, stringify!($op), &name, spec_rep(&x), ops::$op(Constant(x.clone())), own.clone()) } }
            u!(SubOne); u!(OneSub); u!(AddOne); u!(Double); u!(Rabbit);
            stat::<T, _>($k, "constant", &name, spec_rep(&x), Constant(x.clone()), own.clone());
            stat::<<T as Bx>::P, _>($k, "Sum", &name, spec_rep(&x), ops::Sum(Constant(x.clone())), Some(vec![]));
            for b in 0..3 {
                let y = lifted::<T>($r, n, b);
                let i = format!("{} {}", spec_rep(&x), spec_rep(&y));
                macro_rules! bi { ($op:ident) => { stat::<T, _>($k, stringify!($op), &name, &i, ops::$op(Constant(x.clone()), Constant(y.clone())), own.clone()) } }
                bi!(Add); bi!(Mul); bi!(Sub);
            }
        }
    });
    macro_rules! go { ($T:ty, $len:expr) => {{
        let n: usize = $len;
        for a in 0..3 { for b in 0..3 {
            let x = lifted::<$T>($r, n, a);
            let y = lifted::<$F>($r, 0, b);
            let i = format!("{} {}", spec_rep(&x), spec_rep(&y));
            let name = <$T>::name(n);
            macro_rules! bi { ($op:ident) => {
                stat::<$T, _>($k, concat!(stringify!($op), " buffer-scalar"), &name, &i, ops::$op(Constant(x.clone()), Constant(y.clone())), Some(<$T>::dims(n)));
                stat::<$T, _>($k, concat!(stringify!($op), " scalar-buffer"), &name, &i, ops::$op(Constant(y.clone()), Constant(x.clone())), Some(<$T>::dims(n)));
            } }
            bi!(Add); bi!(Mul); bi!(Sub);
        } }
    }} }
    for len in [0usize, 1, 2, 7] { go!(Vec<$F>, len); }
    go!([$F; 1], 0); go!([$F; 4], 0); go!([[$F; 3]; 2], 0); go!([[$F; 2]; 2], 0); go!([[[$F; 2]; 3]; 2], 0); go!([[[[$F; 2]; 1]; 3]; 2], 0); go!([[[[[$F; 2]; 3]; 1]; 2]; 2], 0);
    go!([$F; 0], 0); go!([[$F; 0]; 3], 0);
} }

fn main() {
    drive(Check::new("C03", "random expression trees (static and run-time sized buffers, lifted inputs, derivative expressions, mismatching lengths); value, lifted and shape evaluation are compared; non-trivial: at least one operator"), run)
}
fn run(k: &mut Check) {
    let trees = k.n(10_000, 200_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let tag = if r.chance(1, 3) { Tag::Vc } else { rand_tag(&mut r) };
        let depth = 1 + r.below(6);
        // No domain restrictions: shapes do not depend on values.
        let o = GenOpt { lifted: r.chance(1, 2), caches: r.chance(1, 6), domain: false, ..Default::default() };
        let mut s = Sample::new(&mut r, tag, depth, o, true);
        let mixed = r.chance(1, 4);
        if mixed {
            // Give the run-time sized variables different lengths.
            for i in 0..NVAR { if r.chance(1, 2) {
                let len = r.below(5);
                let d: Vec<f64> = (0..len).map(|_| number(&mut r, true)).collect();
                s.env.vc[i] = Some(if r.chance(1, 3) { Slot { dense: vec![2.5; len], spec: Spec::Full(aegir::buffers::shapes::SDynamic([len]), 2.5) } } else { Slot::raw(d) });
            } }
        }
        let d = build(&s.node, s.vlen);
        let (why, ok, dims) = compare(&d, &s.env);
        k.case(&s.key(), s.node.size() > 1);
        if ok { k.count("shapes predicted"); if dims.as_ref().map_or(false, |d| d.len() == 1) && s.node.tag == Tag::Vc { k.count("run-time shapes predicted") } }
        if let Some(why) = why {
            let m = smallest(&s.node, &mut |m| compare(&build(m, s.vlen), &s.env).0.is_some()).unwrap_or(&s.node).clone();
            k.violation(&format!("shape: {}", m.skeleton()), &format!("{}\nsmallest failing part {}\n{}", s.show(), m.show(), why));
        }
        // Independent prediction of the shape, or of the failure.
        match (shape_failure(&s.node, &s.env, s.vlen), refr::failure(&s.node, &s.env, s.vlen), d.value(&mut s.env.clone()), d.shape(&mut s.env.clone())) {
            (Err(()), _, v, sh) => {
                k.count("mismatches");
                if !matches!(sh, Out::Err(_)) || !matches!(v, Out::Err(_)) {
                    k.violation(&format!("mismatch: {}", s.node.skeleton()), &format!("{}\noperands disagree; value {:?}, shape {:?}", s.show(), v, sh));
                }
            },
            (Ok(w), Ok(_), Out::Ok((dv, _)), _) if dv != w => k.violation(&format!("wrong shape: {}", s.node.skeleton()), &format!("{}\nshape {:?}, expected {:?}", s.show(), dv, w)),
            (Ok(_), Ok(_), Out::Ok(_), _) => {},
            (Ok(_), Ok(_), v, _) => k.violation(&format!("spurious failure: {}", s.node.skeleton()), &format!("{}\nall operands agree, but evaluation gives {:?}", s.show(), v)),
            _ => k.count("failure hidden from shapes"),
        }
    }
    // Derivative expressions, also of second order.
    for i in 0..k.n(4000, 60_000) {
        if k.many() { break }
        let mut r = k.rng("adjoint", i as u64);
        let vdiff = r.chance(1, 2);
        let tag = if vdiff { *r.pick(&[Tag::S, Tag::V3]) } else { *r.pick(&TAGS) };
        if tag == Tag::Vc { continue }
        let o = GenOpt { order: 1, vdiff, domain: false, caches: r.chance(1, 6), ..Default::default() };
        let depth = r.below(5);
        let mut s = Sample::new(&mut r, tag, depth, o, true);
        if r.chance(1, 2) { let e = env(&mut r, EnvOpt { lifted: true, special: true, vlen: s.vlen }); s.env = e; }
        let d = build(&s.node, s.vlen);
        let t = r.below(NVAR) as u8;
        let mut chain = vec![(format!("{}", t), if vdiff { d.vadj(t) } else { d.sadj(t) }, if vdiff { 3 } else { 0 })];
        if r.chance(1, 2) { if let Some(Some(a)) = chain.first().map(|c| c.1.clone()) { let u = r.below(NVAR) as u8; if s.node.order() > 1 { chain.push((format!("{} {}", t, u), guarded(|| a.sadj(u)).ok().flatten(), if vdiff { 3 } else { 0 })) } } }
        for (what, a, ext) in chain {
            let Some(a) = a else { k.count("no derivative"); continue };
            let (why, ok, dims) = match guarded(|| compare(&a, &s.env)) { Ok(x) => x, Err(_) => continue };
            k.case(&format!("d {what} {}", s.key()), true);
            if ok { k.count("derivative shapes predicted") }
            let mut want = s.node.tag.dims(s.vlen);
            if ext > 0 { want.push(ext) }
            if let Some(why) = why { k.violation(&format!("derivative shape: {}", s.node.skeleton()), &format!("derivative in {what} of {}\n{}", s.show(), why)); }
            else if ok && dims.as_ref() != Some(&want) && !s.node.any(&|n| matches!(n.k, K::Sum(_))) {
                k.violation(&format!("derivative shape: {}", s.node.skeleton()), &format!("derivative in {what} of {}\nshape {:?}, expected {:?}", s.show(), dims, want));
            }
        }
    }
    for rep in 0..k.n(1, 4) {
        let r = &mut k.rng("static", rep as u64);
        statics!(k, r, f64);
        statics!(k, r, i32);
        for a in [0usize, 1, 2, 5] { for b in [0usize, 1, 3, 5] { for ra in 0..2 { for rb in 0..2 {
            let (x, y) = (lifted::<Vec<f64>>(r, a, ra), lifted::<Vec<f64>>(r, b, rb));
            let own = if a == b { Some(vec![a]) } else { None };
            let i = format!("{a}/{} {b}/{}", spec_rep(&x), spec_rep(&y));
            stat::<Vec<f64>, _>(k, "Add", "Vec", &i, ops::Add(Constant(x.clone()), Constant(y.clone())), own.clone());
            stat::<Vec<f64>, _>(k, "Sub", "Vec", &i, ops::Sub(Constant(x.clone()), Constant(y.clone())), own.clone());
            stat::<Vec<f64>, _>(k, "Mul", "Vec", &i, ops::Mul(Constant(x.clone()), Constant(y.clone())), own.clone());
            stat::<Vec<f64>, _>(k, "Div", "Vec", &i, ops::Div(Constant(x.clone()), Constant(y.clone())), own.clone());
        } } } }
    }
    k.need("shapes predicted", trees as u64 / 2);
    k.need("run-time shapes predicted", trees as u64 / 20);
    k.need("mismatches", trees as u64 / 100);
    k.need("derivative shapes predicted", 1000);
    k.need("static comparisons", 1000);
}

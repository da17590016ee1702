//! C06: the derivative and dual helpers agree with separate evaluation.
use checks::trees::*;
use dynx::gen::*;
use dynx::*;
use support::*;

/// Equal up to rounding (the helpers are documented as free to use direct computations).
fn close(a: &Flat, b: &Flat) -> bool {
    a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| {
        x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) || x == y || (x - y).abs() <= 1e-9 * (1.0 + x.abs().max(y.abs()))
    })
}
fn same(a: &Out<Flat>, b: &Out<Flat>) -> bool {
    match (a, b) { (Out::Ok(x), Out::Ok(y)) => close(x, y), (Out::Err(x), Out::Err(y)) => x == y, (Out::Panic(_), Out::Panic(_)) => true, _ => false }
}
/// What the dual helper must return.
fn pair(v: &Out<Flat>, d: &Out<Flat>) -> Out<(Flat, Flat)> {
    match (v, d) {
        (Out::Err(e), _) => Out::Err(DErr::L(Box::new(e.clone()))),
        (Out::Ok(_), Out::Err(e)) => Out::Err(DErr::R(Box::new(e.clone()))),
        (Out::Ok(v), Out::Ok(d)) => Out::Ok((v.clone(), d.clone())),
        (Out::Panic(p), _) | (_, Out::Panic(p)) => Out::Panic(p.clone()),
    }
}
fn same_pair(a: &Out<(Flat, Flat)>, b: &Out<(Flat, Flat)>) -> bool {
    match (a, b) { (Out::Ok(x), Out::Ok(y)) => close(&x.0, &y.0) && close(&x.1, &y.1), (Out::Err(x), Out::Err(y)) => x == y, (Out::Panic(_), Out::Panic(_)) => true, _ => false }
}
fn name<T>(o: &Out<T>) -> &'static str { match o { Out::Ok(_) => "ok", Out::Err(_) => "err", Out::Panic(_) => "panic" } }

struct Obs { separate: Out<Flat>, helper: Out<Flat>, value: Out<Flat>, dual: Out<(Flat, Flat)> }
fn observe(d: &AnyDyn, env: &MCtx, vector: bool, ix: u8) -> Option<Obs> {
    let a = guarded(|| if vector { d.vadj(ix) } else { d.sadj(ix) }).ok()??;
    let separate = a.value(&mut env.clone());
    let helper = if vector { d.vadj_eval(ix, &mut env.clone()) } else { d.sadj_eval(ix, &mut env.clone()) }?;
    let value = d.value(&mut env.clone());
    let dual = if vector { d.vdual(ix, &mut env.clone()) } else { d.sdual(ix, &mut env.clone()) }?;
    Some(Obs { separate, helper, value, dual })
}
fn wrong(o: &Obs) -> Option<String> {
    if !same(&o.separate, &o.helper) { return Some(format!("derivative helper gives {:?}\nderivative expression evaluates to {:?}", o.helper, o.separate)) }
    let p = pair(&o.value, &o.separate);
    if !same_pair(&p, &o.dual) { return Some(format!("dual helper gives {:?}\nexpected {:?}", o.dual, p)) }
    None
}
fn judge(k: &mut Check, d: &AnyDyn, n: &Node, env: &MCtx, vector: bool, ix: u8, what: &str) -> bool {
    let Some(o) = observe(d, env, vector, ix) else { k.count("not available"); return false };
    let t = ctx::id_name(if vector { 2 } else { 0 }, ix);
    k.case(&format!("{what} d/d{t} {} | {}", n.show(), show_env(n, env)), true);
    k.count(&format!("value {}, derivative {}", name(&o.value), name(&o.separate)));
    k.count(if vector { "vector target" } else { "scalar target" });
    k.count(what);
    if let (Out::Ok(v), Out::Ok(a)) = (&o.value, &o.separate) { if v.1 != a.1 { k.count("value and derivative distinguishable") } }
    if let Some(w) = wrong(&o) {
        let m = if what == "expression" { smallest(n, &mut |m| observe(&build(m, 3), env, vector, ix).map_or(false, |o| wrong(&o).is_some())).unwrap_or(n) } else { n };
        let mw = observe(&build(m, 3), env, vector, ix).and_then(|o| wrong(&o)).unwrap_or(w.clone());
        k.violation(&format!("{what}: {} target {}", m.skeleton(), t), &format!("target {t}\nsmallest {}\nat {}\n{mw}\nwhole {}\n{w}", m.show(), show_env(n, env), n.show()));
    }
    true
}

/// The helpers on directly typed expressions, other precisions and other contexts.
mod typed {
    use super::*;
    use aegir::{ids::{X, Y}, ops, errors::BinaryError, Differentiable, Function, Identifier, Node as _};
    use checks::*;
    fn one<B: Bx + PartialEq, A: Bx + PartialEq, C, N>(k: &mut Check, what: &str, n: N, mk: impl Fn() -> C)
    where
        C: aegir::Context,
        N: Function<C, Value = B> + Differentiable<X>,
        N::Adjoint: Function<C, Value = A>,
    {
        let v = n.evaluate(mk()).map_err(|e| e.to_string());
        let d = n.adjoint(X).evaluate(mk()).map_err(|e| e.to_string());
        let h = n.evaluate_adjoint(X, mk()).map_err(|e| e.to_string());
        let p = n.evaluate_dual(X, mk());
        k.case(what, true);
        k.count("typed expressions");
        let ok = d == h && match (&p, &v, &d) {
            (Ok(p), Ok(v), Ok(d)) => &p.value == v && &p.adjoint == d,
            (Err(BinaryError::Left(e)), Err(f), _) => e.to_string() == *f,
            (Err(BinaryError::Right(e)), Ok(_), Err(f)) => e.to_string() == *f,
            _ => false,
        };
        if !ok {
            let p = match p { Ok(p) => format!("{:?} {:?}", p.value, p.adjoint), Err(e) => format!("error {e}") };
            k.violation(&format!("typed {what}"), &format!("value {:?}\nderivative {:?}\nderivative helper {:?}\ndual helper {p}", v, d, h));
        }
        k.count(&format!("value {}, derivative {}", if v.is_ok() { "ok" } else { "err" }, if d.is_ok() { "ok" } else { "err" }));
    }
    use aegir::{ctx, ctx_type, Context};
    /// An operator of the user's, whose value and derivative fail independently.
    #[derive(Clone, Copy)]
    struct Own { v: Option<f64>, d: Option<f64> }
    #[derive(Clone, Copy)]
    struct OwnAdjoint(Option<f64>);
    #[derive(Debug)]
    struct Fails(&'static str);
    impl std::fmt::Display for Fails { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
    impl std::error::Error for Fails {}
    impl aegir::Node for Own {}
    impl aegir::Node for OwnAdjoint {}
    impl<C: Context> Function<C> for Own {
        type Value = f64; type Error = Fails;
        fn evaluate<CR: AsMut<C>>(&self, _: CR) -> Result<f64, Fails> { self.v.ok_or(Fails("own value")) }
    }
    impl<C: Context> Function<C> for OwnAdjoint {
        type Value = f64; type Error = Fails;
        fn evaluate<CR: AsMut<C>>(&self, _: CR) -> Result<f64, Fails> { self.0.ok_or(Fails("own derivative")) }
    }
    impl Differentiable<X> for Own { type Adjoint = OwnAdjoint; fn adjoint(&self, _: X) -> OwnAdjoint { OwnAdjoint(self.d) } }
    macro_rules! all { ($k:ident, $F:ident, $r:ident) => {{
        let q = |r: &mut Rng| r.range(0.1, 3.0) as $F;
        let (a, b) = (q($r), q($r));
        let (x, y) = (X.into_var(), Y.into_var());
        let s = stringify!($F);
        macro_rules! ok { ($n:expr) => { one($k, &format!("{s} {}", stringify!($n)), $n, || ctx!{X = a, Y = b}) } }
        ok!(x); ok!(y); ok!(x.add(y)); ok!(x.mul(y)); ok!(y.sub(x)); ok!(x.div(y)); ok!(y.div(x)); ok!(x.pow(y)); ok!(y.pow(x)); ok!(x.ln()); ok!(x.squared()); ok!(x.neg()); ok!(x.abs()); ok!(x.sigmoid());
        ok!(ops::Exp(x.mul(y))); ok!(aegir::ops::trig::Cos(x.add(y))); ok!(aegir::ops::trig::Sin(x.mul(x))); ok!(x.mul(x).mul(y)); ok!(x.dot(y)); ok!(x.sum());
        let va: [$F; 3] = [q($r), q($r), q($r)]; let vb: [$F; 3] = [q($r), q($r), q($r)];
        macro_rules! arr { ($n:expr) => { one($k, &format!("{s} vector {}", stringify!($n)), $n, || ctx!{X = va, Y = vb}) } }
        arr!(x); arr!(y); arr!(x.add(y)); arr!(y.sub(x)); arr!(x.dot(y)); arr!(y.dot(x)); arr!(x.dot(x)); arr!(x.neg());
        macro_rules! mixed { ($n:expr) => { one($k, &format!("{s} scalar target {}", stringify!($n)), $n, || ctx!{X = a, Y = vb}) } }
        mixed!(x.mul(y)); mixed!(y.mul(x)); mixed!(y.div(x)); mixed!(x.add(y)); mixed!(y.sub(x));
        for (v, d) in [(None, None), (Some(1.5), None), (None, Some(2.5)), (Some(r64($r)), Some(r64($r)))] {
            let o = Own { v, d };
            let w = format!("own value {v:?} derivative {d:?}");
            let c = r64($r);
            let mk = || ctx!{X = c};
            one($k, &w, o, mk); one($k, &format!("sum {w}"), o.add(x), mk); one($k, &format!("right sum {w}"), x.add(o), mk); one($k, &format!("product {w}"), x.mul(o), mk); one($k, &format!("cos {w}"), aegir::ops::trig::Cos(o), mk);
        }
    }} }
    fn r64(r: &mut Rng) -> f64 { r.range(0.1, 3.0) }
    pub fn run(k: &mut Check) {
        for i in 0..k.n(30, 400) {
            let mut r = k.rng("typed", i as u64);
            let r = &mut r;
            macro_rules! both { ($($F:ident)*) => { $(all!(k, $F, r);)* } }
            both!(f64 f32);
        }
    }
}

fn main() {
    drive(Check::new("C06", "random differentiable trees (and their derivatives), scalar and vector targets, with undefined variables, filled caches and points outside the domain; every observation compares the two helpers with separate evaluation on an equal context"), run)
}
fn run(k: &mut Check) {
    typed::run(k);
    let trees = k.n(20_000, 300_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let vector = r.chance(1, 3);
        let tag = if vector { *r.pick(&[Tag::S, Tag::V3]) } else { loop { let t = rand_tag(&mut r); if t != Tag::Vc { break t } } };
        let order = if tag == Tag::S && r.chance(1, 4) { 2 } else { 1 };
        let e = env(&mut r, EnvOpt { lifted: i % 4 == 0, special: i % 2 == 0, vlen: 3 });
        let depth = 1 + r.below(5);
        let domain = r.chance(3, 4);
        let node = Gen { r: &mut r, env: &e, o: GenOpt { order, vdiff: vector, caches: i % 3 != 0, vlen: 3, domain, ..Default::default() } }.tree(tag, depth);
        let mut ids = vec![]; node.walk(&mut |m| if let K::Cached(c, _) = m.k { ids.push((m.tag, c)) });
        let n = ids.len(); ids.sort(); ids.dedup();
        if ids.len() != n { k.count("skipped: two caches with one name"); continue }
        let mut e = e;
        // Fill some caches, with a value of their own or with the right one.
        for (t, c) in &ids { if r.chance(1, 2) {
            use aegir::Write;
            let x = number(&mut r, true);
            if *t == Tag::S { e.write(ctx::Id::<10>(*c), x) } else { e.write(ctx::Id::<11>(*c), [x, x + 1.0, 2.0]) }
        } }
        let vars = node.vars();
        if !vars.is_empty() { for _ in 0..r.below(3) { let (kd, ix) = *r.pick(&vars); if r.chance(2, 3) { e.clear_slot(kd, ix) } } }
        let d = build(&node, 3);
        let ix = if r.chance(4, 5) { let c: Vec<u8> = vars.iter().filter(|v| v.0 == if vector { 2 } else { 0 }).map(|v| v.1).collect(); if c.is_empty() { r.below(3) as u8 } else { *r.pick(&c) } } else { r.below(4) as u8 };
        if !judge(k, &d, &node, &e, vector, ix, "expression") { continue }
        if order == 2 {
            if let Ok(Some(a)) = guarded(|| d.sadj(r.below(2) as u8)) { judge(k, &a, &node, &e, false, ix, "derivative expression"); }
        }
    }
    k.need("typed expressions", 1000);
    for s in ["value ok, derivative ok", "value err, derivative err", "value err, derivative ok", "value ok, derivative err"] { k.need(s, 40) }
    k.need("value and derivative distinguishable", trees as u64 / 4);
    k.need("vector target", trees as u64 / 10);
    k.need("derivative expression", trees as u64 / 50);
    k.need("expression", trees as u64 / 2);
}

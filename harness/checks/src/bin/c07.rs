//! C07: an expression depends only on the variables it reports to contain.
use aegir::{Contains, Differentiable, Function, Identifier, Node as _};
use checks::trees::*;
use checks::*;
use dynx::gen::*;
use dynx::refr::*;
use dynx::*;
use std::collections::BTreeSet;
use support::*;

type Ids = BTreeSet<(usize, u8)>;
const IXS: u8 = 6;
fn reads(log: Vec<Ev>) -> Ids { log.into_iter().filter_map(|e| match e { Ev::Read(k, i, _) => Some((k, i)), _ => None }).collect() }
fn names(s: &Ids) -> String { s.iter().map(|(k, i)| ctx::id_name(*k, *i)).collect::<Vec<_>>().join(" ") }

fn reported(d: &AnyDyn, extra: &[(usize, u8)]) -> Ids {
    let mut s = Ids::new();
    for kind in 0..12 { for ix in 0..IXS { if d.has(kind, ix) { s.insert((kind, ix)); } } }
    for (kind, ix) in extra { if d.has(*kind, *ix) { s.insert((*kind, *ix)); } }
    s
}
fn occurring(n: &Node) -> Ids { n.vars().into_iter().chain(n.caches()).collect() }

/// Changes or removes everything outside `keep`.
fn scramble(r: &mut Rng, env: &MCtx, keep: &Ids, remove: bool) -> (MCtx, u64) {
    let mut e = env.clone();
    let mut changed = 0;
    macro_rules! go { ($($k:literal $f:ident)*) => { $(
        for i in 0..e.$f.len() { if !keep.contains(&($k, i as u8)) && e.$f[i].is_some() {
            changed += 1;
            if remove || r.chance(1, 4) { e.$f[i] = None } else { scr(r, e.$f[i].as_mut().unwrap()) }
        } }
    )* } }
    go!(0 s 1 v2 2 v3 3 m22 4 m23 5 m32 6 m33 7 t3 8 vc 9 tp 10 ks 11 kv);
    (e, changed)
}
fn scr<B: Sort>(r: &mut Rng, s: &mut Slot<B>) {
    // A run-time sized buffer may also change its length.
    let n = if B::TAG == Tag::Vc { r.below(6) } else { s.dense.data().len() };
    let d: Vec<f64> = (0..n).map(|_| if r.chance(1, 5) { *r.pick(&[f64::NAN, f64::INFINITY, -1e300, 0.0]) } else { r.range(-50.0, 50.0) }).collect();
    *s = Slot::raw(B::from_data(&d));
}

fn same<T: std::fmt::Debug>(a: &Out<T>, b: &Out<T>, eq: impl Fn(&T, &T) -> bool) -> bool {
    match (a, b) { (Out::Ok(x), Out::Ok(y)) => eq(x, y), (Out::Err(x), Out::Err(y)) => x == y, (Out::Panic(_), Out::Panic(_)) => true, _ => false }
}
/// Everything observed of `d` at `env` must be explained by `own`.
fn dependence(k: &mut Check, r: &mut Rng, d: &AnyDyn, env: &MCtx, own: &Ids) -> Option<String> {
    let mut e = env.clone();
    e.tracing = true;
    let v = d.value(&mut e); let lv = reads(e.take_log());
    let mut e = env.clone(); e.tracing = true;
    let s = d.spec(&mut e); let ls = reads(e.take_log());
    let mut e = env.clone(); e.tracing = true;
    let h = d.shape(&mut e); let lh = reads(e.take_log());
    k.add("reads observed", (lv.len() + ls.len() + lh.len()) as u64);
    for (w, l) in [("evaluation", &lv), ("lifted evaluation", &ls), ("shape evaluation", &lh)] {
        let x: Ids = l.difference(own).copied().collect();
        if !x.is_empty() { return Some(format!("{w} reads {} but only {{{}}} are reported", names(&x), names(own))) }
    }
    for remove in [true, false] {
        let (e2, changed) = scramble(r, env, own, remove);
        if changed > 0 { k.count("with other variables changed") }
        let (v2, s2, h2) = (d.value(&mut e2.clone()), d.spec(&mut e2.clone()), d.shape(&mut e2.clone()));
        if !same(&v, &v2, same_bits) { return Some(format!("value {:?} becomes {:?} when only unreported variables change (reported: {})", v, v2, names(own))) }
        if !same(&s, &s2, |a, b| same_bits(&a.1, &b.1) && same_bits(&a.2, &b.2)) { return Some(format!("lifted value {:?} becomes {:?} when only unreported variables change (reported: {})", s, s2, names(own))) }
        if !same(&h, &h2, |a, b| a == b) { return Some(format!("shape {:?} becomes {:?} when only unreported variables change (reported: {})", h, h2, names(own))) }
    }
    None
}
fn wrong(k: &mut Check, n: &Node, env: &MCtx, vlen: usize, r: &mut Rng) -> Option<String> {
    let d = build(n, vlen);
    let caches = n.caches();
    let rep = reported(&d, &caches);
    let own = occurring(n);
    if rep != own { return Some(format!("reports {{{}}}, contains {{{}}}", names(&rep), names(&own))) }
    dependence(k, r, &d, env, &own)
}
fn derivative(k: &mut Check, r: &mut Rng, n: &Node, env: &MCtx, vlen: usize, vector: bool, ix: u8) -> Option<String> {
    let d = build(n, vlen);
    let a = guarded(|| if vector { d.vadj(ix) } else { d.sadj(ix) }).ok()??;
    let kind = if vector { 2 } else { 0 };
    let mut own = occurring(n);
    let absent = !own.contains(&(kind, ix));
    own.insert((kind, ix));
    let caches = n.caches();
    let rep = reported(&a, &caches);
    if !rep.is_subset(&own) { return Some(format!("the derivative reports {{{}}}, only {{{}}} occur", names(&rep), names(&own))) }
    k.count("derivative expressions");
    if let Some(w) = dependence(k, r, &a, env, &rep) { return Some(format!("derivative in {}: {w}", ctx::id_name(kind, ix))) }
    // Symbolically absent target: exactly zero, wherever the derivative exists.
    if absent {
        let interior = reference(n, env, vlen, &[Seed { kind, ix, comp: 0, gen: 0 }], 1, 1, true).ok()?;
        k.count(if vector { "absent vector targets" } else { "absent scalar targets" });
        let mut dims = interior.dims.clone();
        if vector { dims.push(3) }
        match a.value(&mut env.clone()) {
            Out::Ok((g, x)) => if g != dims || x.iter().any(|x| *x != 0.0) { return Some(format!("derivative in the absent {} is {:?} of shape {:?}, expected zeros of shape {:?}", ctx::id_name(kind, ix), x, g, dims)) },
            // Variables themselves may be undefined behind a filled cache.
            o => if n.vars().iter().all(|(k, i)| env.defined(*k, *i)) { return Some(format!("derivative in the absent {} is {:?}", ctx::id_name(kind, ix), o)) },
        }
        match a.spec(&mut env.clone()) {
            Out::Ok((_, g, _)) => if g.0 != dims || g.1.iter().any(|x| *x != 0.0) { return Some(format!("lifted derivative in the absent {} is {:?}", ctx::id_name(kind, ix), g)) },
            _ => {},
        }
    }
    None
}

// ------------------------------------------------------------------ user-defined operators
mod own_ops {
    use super::*;
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct One<A>(#[op] pub A);
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct Two<A, B>(#[op] pub A, #[op] pub B);
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct Three<A, B, C> { #[op] pub first: A, #[op] pub second: B, #[op] pub third: C }
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct Four<A, B, C, D> { #[op] pub a: A, #[op] pub b: B, #[op] pub c: C, #[op] pub target: D }
    impl<A> aegir::Node for One<A> {}
    impl<A, B> aegir::Node for Two<A, B> {}
    impl<A, B, C> aegir::Node for Three<A, B, C> {}
    impl<A, B, C, D> aegir::Node for Four<A, B, C, D> {}
    type V = aegir::meta::Variable<Id<0>>;
    /// Fields of the same type, concrete types, bounds, other attributes, and more fields.
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct Alike<N>(#[op] pub N, #[op] pub N);
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct AlikeEnds<N, M> { #[op] pub first: N, #[op] pub mid: M, #[op] pub last: N }
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct Concrete(#[op] pub V, #[op] pub One<V>, #[op] pub V);
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct Bounded<A: Clone + std::fmt::Debug, B>
    where
        B: Clone,
    {
        /// The left operand.
        #[op]
        pub a: A,
        #[allow(dead_code)]
        #[op]
        pub b: B,
    }
    #[derive(Clone, Debug, aegir::Contains)]
    pub struct Six<A, B, C>(#[op] pub A, #[op] pub B, #[op] pub Two<A, B>, #[op] pub C, #[op] pub One<C>, #[op] pub C);
    impl<N> aegir::Node for Alike<N> {}
    impl<N, M> aegir::Node for AlikeEnds<N, M> {}
    impl aegir::Node for Concrete {}
    impl<A: Clone + std::fmt::Debug, B: Clone> aegir::Node for Bounded<A, B> {}
    impl<A, B, C> aegir::Node for Six<A, B, C> {}
    fn same(k: &mut Check, what: &str, n: &impl Contains<Id<0>>, present: &[u8]) {
        for i in 0..8u8 {
            let want = present.contains(&i);
            k.case(&format!("{what} {present:?} {i}"), true);
            k.count("user-defined operators");
            if n.contains(Id(i)) != want { k.violation(&format!("user-defined operator {what}"), &format!("variables {present:?}: contains({i}) = {}", !want)) }
        }
    }
    pub fn run(k: &mut Check) {
        let v = |i: u8| -> V { Id::<0>(i).into_var() };
        // Caches whose slot has the same name as a variable inside, outside or as another slot.
        for a in 0..4u8 { for b in 0..4u8 {
            same(k, "cached", &v(a).cached(Id::<0>(b)), &[a, b]);
            same(k, "cached twice", &v(a).cached(Id::<0>(b)).cached(Id::<0>(b)), &[a, b]);
            same(k, "cached sum", &v(a).add(v(b)).cached(Id::<0>(b)), &[a, b]);
            same(k, "cached beside its variable", &v(a).cached(Id::<0>(b)).mul(v(b)), &[a, b]);
            same(k, "cached literal", &aegir::meta::Constant(1.5f64).cached(Id::<0>(b)), &[b]);
            same(k, "cached in own", &One(Two(v(a).cached(Id::<0>(b)), v(b).neg().cached(Id::<0>(a)))), &[a, b]);
            for c in 0..4u8 {
                same(k, "cached nested", &v(a).cached(Id::<0>(b)).squared().cached(Id::<0>(c)), &[a, b, c]);
                same(k, "cached pair", &v(a).cached(Id::<0>(b)).sub(v(b).cached(Id::<0>(c))).cached(Id::<0>(a)), &[a, b, c]);
            }
        } }
        for a in 0..4u8 { same(k, "one", &One(v(a)), &[a]); same(k, "nested", &One(One(Two(v(a), v(7)))), &[a, 7]);
            for b in 0..4u8 { same(k, "two", &Two(v(a), v(b)), &[a, b]); same(k, "builtin in own", &Two(v(a).mul(v(5)), v(b).neg()), &[a, b, 5]); same(k, "own in builtin", &One(v(a)).add(Two(v(b), v(6))), &[a, b, 6]);
                same(k, "alike", &Alike(v(a), v(b)), &[a, b]); same(k, "bounded", &Bounded { a: v(a), b: v(b).neg() }, &[a, b]); same(k, "alike nested", &Alike(Alike(v(a), v(4)), Alike(v(5), v(b))), &[a, 4, 5, b]);
                for c in 0..4u8 {
                    same(k, "alike ends", &AlikeEnds { first: v(a), mid: v(b), last: v(c) }, &[a, b, c]); same(k, "concrete", &Concrete(v(a), One(v(b)), v(c)), &[a, b, c]);
                    same(k, "six", &Six(v(a), v(4), Two(v(b), v(5)), v(6), One(v(7)), v(c)), &[a, b, c, 4, 5, 6, 7]);
                    same(k, "three", &Three { first: v(a), second: v(b), third: v(c) }, &[a, b, c]);
                    for d in 0..4u8 { same(k, "four", &Four { a: v(a), b: v(b), c: v(c), target: v(d) }, &[a, b, c, d]) } } } }
    }
}

// ------------------------------------------------------------------ targets of every shape
mod shapes {
    use super::*;
    use aegir::ids::{X, Y};
    use aegir::{ctx, ctx_type, ops, Context};
    fn zero<A: Bx, C: Context, N>(k: &mut Check, what: &str, dims: &[usize], n: N, c: C)
    where
        N: Differentiable<Y>,
        N::Adjoint: Function<C, Value = A>,
    {
        k.case(what, true);
        k.count("typed absent targets");
        let v = guarded(|| n.adjoint(Y).evaluate(c).map(|a| (A::sdims(&a.shape()), a.data())).map_err(|e| e.to_string()));
        let ok = match &v { Ok(Ok((d, x))) => d == dims && x.iter().all(|x| x.f() == 0.0), _ => false };
        if !ok { k.violation(&format!("typed absent target: {what}"), &format!("derivative {:?}, expected zeros of shape {:?}", v, dims)) }
    }
    pub fn run(k: &mut Check) {
        let x = X.into_var();
        macro_rules! pairs { ($($V:ty, $T:ty;)*) => { $( for rep in 0..20 {
            let mut r = k.rng("typed", rep);
            let a = random::<$V>(&mut r, 0).0; let b = random::<$T>(&mut r, 0).0;
            let dims: Vec<usize> = <$V as Bx>::dims(0).into_iter().chain(<$T as Bx>::dims(0)).collect();
            let w = format!("{} by {}", <$V as Bx>::name(0), <$T as Bx>::name(0));
            macro_rules! go { ($n:expr) => { zero(k, &format!("{w}: {}", stringify!($n)), &dims, $n, ctx!{X = a.clone(), Y = b.clone()}) } }
            go!(x); go!(x.add(x)); go!(x.sub(x)); go!(x.neg()); go!(ops::SubOne(x)); go!(ops::AddOne(x)); go!(ops::Double(x)); go!(aegir::meta::Constant(a.clone()));
        } )* } }
        pairs! { f64, [f64; 2]; f64, [[f64; 2]; 3]; f64, [[[f64; 2]; 2]; 2]; f64, (f64, f64); f64, [f64; 0]; f64, [f64; 17]; f32, [f32; 4]; f32, f32;
            [f64; 2], [f64; 3]; [f64; 3], [[f64; 2]; 4]; [[f64; 3]; 2], [f64; 2]; [[f64; 3]; 2], [[f64; 2]; 3]; [f64; 2], f64; [[f64; 3]; 2], f64; [[[f64; 2]; 3]; 2], f64;
            [[[f64; 2]; 2]; 2], [f64; 3]; [f64; 1], [f64; 1]; [f64; 2], [f64; 2]; [[f64; 2]; 2], [[f64; 2]; 2]; [f64; 3], [f64; 3]; }
    }
}

fn main() {
    drive(Check::new("C07", "random trees over ten buffer sorts with caches; every identifier is asked for, all reads of value, lifted and shape evaluation are recorded, and everything unreported is changed and removed; derivatives in absent targets of several shapes; non-trivial: at least one variable, or a reported set with unreported variables defined"), run)
}
fn run(k: &mut Check) {
    own_ops::run(k);
    shapes::run(k);
    let trees = k.n(12_000, 200_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let tag = rand_tag(&mut r);
        let depth = r.below(6);
        let o = GenOpt { lifted: i % 3 == 0, caches: i % 2 == 0, domain: r.chance(3, 4), ..Default::default() };
        let s = Sample::new(&mut r, tag, depth, o, i % 2 == 1);
        let mut env = s.env.clone();
        for (kd, c) in s.node.caches() { if r.chance(1, 4) { use aegir::Write; if kd == 10 { env.write(Id::<10>(c), 1.5) } else { env.write(Id::<11>(c), [1.5, 2.5, 3.5]) } } }
        let vars = s.node.vars();
        if !vars.is_empty() && r.chance(1, 5) { let (a, b) = *r.pick(&vars); env.clear_slot(a, b) }
        k.case(&s.key(), !vars.is_empty());
        k.count("trees");
        if s.node.has_cache() { k.count("trees with caches") }
        for o in op_names(&s.node) { k.count(&format!("operator {o}")) }
        if let Some(w) = wrong(k, &s.node, &env, s.vlen, &mut r) {
            let m = smallest(&s.node, &mut |m| wrong(k, m, &env, s.vlen, &mut Rng::new(3)).is_some()).unwrap_or(&s.node).clone();
            k.violation(&format!("dependence: {}", m.skeleton()), &format!("{}\nsmallest {}\nat {}\n{w}", s.node.show(), m.show(), show_env(&s.node, &env)));
        }
    }
    let ders = k.n(12_000, 200_000);
    for i in 0..ders {
        if k.many() { break }
        let mut r = k.rng("derivative", i as u64);
        let vector = r.chance(1, 3);
        let tag = if vector { *r.pick(&[Tag::S, Tag::V3]) } else { loop { let t = rand_tag(&mut r); if t != Tag::Vc { break t } } };
        let e = env(&mut r, EnvOpt { lifted: i % 4 == 0, special: i % 2 == 0, vlen: 3 });
        let depth = 1 + r.below(5);
        let node = Gen { r: &mut r, env: &e, o: GenOpt { order: 1, vdiff: vector, caches: i % 3 != 0, vlen: 3, ..Default::default() } }.tree(tag, depth);
        // An index past the generator's range, defined here, is always absent.
        let mut e = e;
        { use aegir::Write; e.write(Id::<0>(4), r.range(-3.0, 3.0)); e.write(Id::<2>(4), [1.0, 2.0, r.range(-3.0, 3.0)]); }
        let ix = if r.chance(1, 2) { 4 } else { r.below(NVAR) as u8 };
        k.case(&format!("d/d{} {} | {}", ctx::id_name(if vector { 2 } else { 0 }, ix), node.show(), show_env(&node, &e)), !node.vars().is_empty());
        if let Some(w) = derivative(k, &mut r, &node, &e, 3, vector, ix) {
            let m = smallest(&node, &mut |m| derivative(k, &mut Rng::new(3), m, &e, 3, vector, ix).is_some()).unwrap_or(&node).clone();
            k.violation(&format!("derivative: {} in {}", m.skeleton(), ctx::id_name(if vector { 2 } else { 0 }, ix)), &format!("{}\nsmallest {}\nat {}\n{w}", node.show(), m.show(), show_env(&node, &e)));
        }
    }
    k.need("user-defined operators", 2000);
    k.need("typed absent targets", 1000);
    k.need("trees", trees as u64 / 2);
    k.need("trees with caches", 300);
    k.need("reads observed", trees as u64);
    k.need("with other variables changed", trees as u64);
    k.need("derivative expressions", ders as u64 / 2);
    k.need("absent scalar targets", ders as u64 / 10);
    k.need("absent vector targets", ders as u64 / 20);
    for u in UNARY { k.need(&format!("operator {u:?}"), 10) }
    for o in BINARY { k.need(&format!("operator {o:?}"), 10) }
}

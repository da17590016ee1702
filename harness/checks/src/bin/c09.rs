//! C09: a cached node computes once, stores its result and is otherwise transparent.
use aegir::{Node as _, Write};
use checks::trees::*;
use checks::*;
use dynx::gen::*;
use dynx::refr::failure;
use dynx::*;
use std::collections::BTreeSet;
use support::*;

type Ids = BTreeSet<(usize, u8)>;
/// The inner node of every cached node, with its cache.
fn cached(n: &Node) -> Vec<((usize, u8), &Node)> {
    let mut v = vec![];
    n.walk(&mut |m| if let K::Cached(i, a) = &m.k { v.push(((cache_kind(m.tag), *i), &**a)) });
    v
}
/// Reference run in evaluation order: which inner nodes are evaluated, which slots are filled.
/// `Err(())`: the evaluation fails there.
fn simulate(n: &Node, env: &MCtx, vlen: usize, filled: &mut Ids, evals: &mut Vec<u32>) -> Result<(), ()> {
    match &n.k {
        K::Cached(i, a) => {
            let s = (cache_kind(n.tag), *i);
            if filled.contains(&s) { return Ok(()) }
            evals.push(a.id);
            simulate(a, env, vlen, filled, evals)?;
            filled.insert(s);
            Ok(())
        },
        K::Bin(_, a, b) => {
            simulate(a, env, vlen, filled, evals)?;
            simulate(b, env, vlen, filled, evals)?;
            // The operator itself may fail: sizes of run-time sized operands.
            let mut c = n.clone();
            fn strip(n: &mut Node) { if let K::Cached(_, a) = &mut n.k { let mut b = (**a).clone(); strip(&mut b); *n = b; return } match &mut n.k { K::Un(_, a) | K::Sum(a) => strip(a), K::Bin(_, a, b) => { strip(a); strip(b) }, _ => {} } }
            strip(&mut c);
            match failure(&c, env, vlen) { Err(DErr::O(_)) => Err(()), _ => Ok(()) }
        },
        K::Un(_, a) | K::Sum(a) => simulate(a, env, vlen, filled, evals),
        K::Var(i) => if env.defined(n.tag.kind(), *i) { Ok(()) } else { Err(()) },
        K::Const(..) => Ok(()),
    }
}
/// Variables that must not be read, given which caches are filled at the start and stay so.
fn hidden(n: &Node, filled: &Ids) -> Ids {
    fn visible(n: &Node, filled: &Ids, out: &mut Ids) {
        match &n.k {
            K::Var(i) => { out.insert((n.tag.kind(), *i)); },
            K::Cached(i, a) => if !filled.contains(&(cache_kind(n.tag), *i)) { visible(a, filled, out) },
            _ => for c in n.children() { visible(c, filled, out) },
        }
    }
    let mut v = Ids::new();
    visible(n, filled, &mut v);
    n.vars().into_iter().filter(|x| !v.contains(x)).collect()
}
fn slots(e: &MCtx) -> Ids { (0..e.ks.len()).filter(|i| e.ks[*i].is_some()).map(|i| (10, i as u8)).chain((0..e.kv.len()).filter(|i| e.kv[*i].is_some()).map(|i| (11, i as u8))).collect() }
fn slot(e: &MCtx, s: (usize, u8)) -> Option<Flat> {
    if s.0 == 10 { e.ks.get(s.1 as usize)?.as_ref().map(|x| flat(&x.dense)) } else { e.kv.get(s.1 as usize)?.as_ref().map(|x| flat(&x.dense)) }
}
fn set(e: &mut MCtx, s: (usize, u8), x: f64) { if s.0 == 10 { e.write(Id::<10>(s.1), x) } else { e.write(Id::<11>(s.1), [x, x + 1.0, -x]) } }
/// Everything except the caches.
fn variables(e: &MCtx) -> String { let mut f = e.clone(); f.ks.clear(); f.kv.clear(); f.fingerprint() }
fn vals(e: &MCtx) -> Vec<((usize, u8), Flat)> { slots(e).into_iter().map(|s| (s, slot(e, s).unwrap())).collect() }
fn same_vals(a: &[((usize, u8), Flat)], b: &[((usize, u8), Flat)]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && same_bits(&x.1, &y.1)) }
fn same(a: &Out<Flat>, b: &Out<Flat>) -> bool { match (a, b) { (Out::Ok(x), Out::Ok(y)) => same_bits(x, y), (Out::Err(x), Out::Err(y)) => x == y, (Out::Panic(_), Out::Panic(_)) => true, _ => false } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum M { Value, Spec }
fn go(d: &AnyDyn, e: &mut MCtx, m: M) -> Out<Flat> { match m { M::Value => d.value(e), M::Spec => d.spec(e).map(|s| s.2) } }

/// One evaluation of `n` at `env`; on success `env` is what it left behind.
fn step(k: &mut Check, n: &Node, d: &AnyDyn, env: &mut MCtx, vlen: usize, m: M) -> Option<String> {
    let before = env.clone();
    let start = slots(&before);
    let mut filled = start.clone();
    let mut evals = vec![];
    let want = simulate(n, &before, vlen, &mut filled, &mut evals);
    env.tracing = true;
    let _ = env.take_log();
    let got = go(d, env, m);
    let log = env.take_log();
    env.tracing = false;
    let inner: Vec<((usize, u8), u32)> = cached(n).into_iter().map(|(s, a)| (s, a.id)).collect();
    if let Out::Panic(p) = &got { return Some(format!("{m:?} panics: {p}")) }
    if matches!(got, Out::Ok(_)) != want.is_ok() { return Some(format!("{m:?} gives {:?}, expected {}", got, if want.is_ok() { "success" } else { "failure" })) }
    for (s, id) in &inner {
        let times = log.iter().filter(|e| matches!(e, Ev::Eval(i, md) if i == id && *md != Mode::Shape)).count();
        let expected = evals.iter().filter(|i| **i == *id).count();
        if times != expected { return Some(format!("{m:?}: inner node of cache {} evaluated {times} times, expected {expected} (slot {} before)", ctx::id_name(s.0, s.1), if start.contains(s) { "filled" } else { "empty" })) }
        if expected == 1 { k.count("inner evaluated once") }
        if start.contains(s) {
            k.count("inner skipped");
            if log.iter().any(|e| matches!(e, Ev::Eval(i, _) if i == id)) { return Some(format!("{m:?}: inner node of the filled cache {} is visited", ctx::id_name(s.0, s.1))) }
        }
    }
    let hid = hidden(n, &start);
    for e in &log { if let Ev::Read(a, b, _) = e { if hid.contains(&(*a, *b)) { return Some(format!("{m:?}: reads {}, which occurs only inside filled caches", ctx::id_name(*a, *b))) } } }
    if !hid.is_empty() { k.count("with hidden variables") }
    if variables(env) != variables(&before) { return Some(format!("{m:?} modifies a variable")) }
    let after = slots(env);
    if after != filled { return Some(format!("{m:?}: filled slots {:?} afterwards, expected {:?}", after, filled)) }
    for s in &start { if !same_bits(&slot(env, *s).unwrap(), &slot(&before, *s).unwrap()) { return Some(format!("{m:?}: the filled slot {} is modified", ctx::id_name(s.0, s.1))) } }
    if want.is_err() { k.count("failing evaluations") }
    // What is stored is the value of the inner node.
    if n.caches().len() == inner.len() {
        for (s, a) in cached(n) {
            if after.contains(&s) && !start.contains(&s) {
                let v = build(a, vlen).value(&mut before.clone());
                let st = slot(env, s).unwrap();
                k.count("stored values compared");
                if !matches!(&v, Out::Ok(x) if same_bits(x, &st)) { return Some(format!("{m:?}: cache {} holds {:?}, its inner node is {:?}", ctx::id_name(s.0, s.1), st, v)) }
            }
        }
    }
    // A cached node at the root returns what is stored, or its inner failure.
    if let K::Cached(i, a) = &n.k {
        let s = (cache_kind(n.tag), *i);
        match (&got, slot(env, s)) {
            (Out::Ok(x), Some(st)) => if !same_bits(x, &st) { return Some(format!("{m:?} returns {:?} but the slot holds {:?}", x, st)) },
            (Out::Ok(_), None) => return Some(format!("{m:?} leaves the slot empty")),
            (Out::Err(e), _) => { let f = build(a, vlen).value(&mut before.clone()); if !same(&Out::Err(e.clone()), &f) { return Some(format!("{m:?} fails with {:?}, the inner node gives {:?}", e, f)) } },
            _ => {},
        }
    }
    None
}
fn life(k: &mut Check, r: &mut Rng, n: &Node, env: &MCtx, vlen: usize) -> Option<String> {
    let d = build(n, vlen);
    let mut e = env.clone();
    let inner = cached(n);
    let all: Vec<(usize, u8)> = n.caches();
    for op in 0..3 + r.below(5) {
        let m = if r.chance(1, 4) { M::Spec } else { M::Value };
        if let Some(w) = step(k, n, &d, &mut e, vlen, m) { return Some(format!("evaluation {}: {w}", op + 1)) }
        // Filled: the value must not change when inner variables do.
        match r.below(6) {
            0 => { let s = *r.pick(&all); e.clear_slot(s.0, s.1); k.count("cleared") },
            1 => { let s = *r.pick(&all); set(&mut e, s, r.range(-2.0, 2.0)); k.count("overwritten") },
            2 => { let v = n.vars(); if !v.is_empty() { let (a, b) = *r.pick(&v); e.clear_slot(a, b); k.count("variable removed") } },
            3 => { e.write(Id::<0>(r.below(NVAR) as u8), r.range(0.2, 0.9)); e.write(Id::<2>(r.below(NVAR) as u8), [0.3, 0.5, r.range(0.1, 0.9)]); k.count("variable changed") },
            _ => { // Repeat: the same bits, nothing evaluated.
                let a = go(&d, &mut e.clone(), m);
                let fp = vals(&e);
                let mut e2 = e.clone();
                let b = go(&d, &mut e2, m);
                if !same(&a, &b) { return Some(format!("repeated evaluation gives {:?} then {:?}", a, b)) }
                if matches!(a, Out::Ok(_)) && slots(&e).is_superset(&all.iter().copied().collect()) && !same_vals(&fp, &vals(&e2)) { return Some("repeated evaluation changes a slot".into()) }
            },
        }
        // Shapes: never through a filled cache, nothing but this expression's own slots filled.
        if r.chance(1, 3) {
            let mut f = e.clone();
            f.tracing = true;
            let start = slots(&f);
            let sh = d.shape(&mut f);
            let log = f.take_log();
            for (s, a) in &inner { if start.contains(s) && log.iter().any(|ev| matches!(ev, Ev::Eval(i, _) if *i == a.id)) { return Some(format!("shape evaluation visits the inner node of the filled cache {}", ctx::id_name(s.0, s.1))) } }
            if variables(&f) != variables(&e) { return Some("shape evaluation modifies a variable".into()) }
            for s in &start { if !same_bits(&slot(&f, *s).unwrap(), &slot(&e, *s).unwrap()) { return Some("shape evaluation modifies a filled slot".into()) } }
            if !slots(&f).is_subset(&start.union(&all.iter().copied().collect()).copied().collect()) { return Some("shape evaluation fills a foreign slot".into()) }
            if let Out::Ok(sh) = &sh { if *sh != n.tag.dims(vlen) && n.tag != Tag::Vc { return Some(format!("shape evaluation gives {:?}", sh)) } }
            k.count("shape evaluations");
        }
    }
    None
}
/// The derivative is that of the tree without caches, filled or not.
fn uncached(n: &Node) -> Node {
    let mut m = n.clone();
    fn go(n: &mut Node) {
        while let K::Cached(_, a) = &n.k { let b = (**a).clone(); *n = b }
        match &mut n.k { K::Un(_, a) | K::Sum(a) => go(a), K::Bin(_, a, b) => { go(a); go(b) }, _ => {} }
    }
    go(&mut m);
    m
}
fn close(a: &Flat, b: &Flat) -> bool { a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-9 * (1.0 + x.abs().max(y.abs()))) }
fn derivative(k: &mut Check, n: &Node, env: &MCtx, vector: bool, ix: u8) -> Option<String> {
    let K::Cached(_, a) = &n.k else { return None };
    let der = |d: &AnyDyn| guarded(|| if vector { d.vadj(ix) } else { d.sadj(ix) }).ok().flatten();
    let (x, y) = (der(&build(n, 3))?, der(&build(a, 3))?);
    for (w, p, q) in [
        ("value", x.value(&mut env.clone()), y.value(&mut env.clone())),
        ("lifted value", x.spec(&mut env.clone()).map(|s| s.2), y.spec(&mut env.clone()).map(|s| s.2)),
        ("shape", x.shape(&mut env.clone()).map(|s| (s, vec![])), y.shape(&mut env.clone()).map(|s| (s, vec![]))),
    ] {
        k.count("derivatives compared");
        let eq = match (&p, &q) { (Out::Ok(a), Out::Ok(b)) => close(a, b), _ => same(&p, &q) };
        if !eq { return Some(format!("{w} of the derivative of the cached node: {:?}, of its inner node: {:?}", p, q)) }
    }
    // The nested caches of the inner node do not matter either, when they are filled with their own values.
    let u = uncached(n);
    if n.caches().len() == cached(n).len() {
        let mut e = env.clone();
        for (kd, i) in n.caches() { e.clear_slot(kd, i) }
        if let (Out::Ok(p), Some(Out::Ok(q))) = (x.value(&mut e), der(&build(&u, 3)).map(|d| d.value(&mut env.clone()))) {
            if !close(&p, &q) { return Some(format!("derivative of the cached node {:?}, of the expression without caches {:?}", p, q)) }
            k.count("derivatives without caches");
        }
    }
    None
}

// ------------------------------------------------------------------ generated contexts, other types
mod typed {
    use super::*;
    use aegir::ids::{A, B, C, D, X, Y, Z};
    use aegir::{ctx_type, Context, Differentiable, Function, Identifier, Read};
    use std::cell::Cell;
    use std::rc::Rc;
    ctx_type!(Store { x: X, y: Y, cache a: A, cache b: B, cache c: C, z: Z, cache d: D });
    type Full<P, Q> = Store<P, P, P, Q, P, f64, f64>;
    /// Counts evaluations of the node it wraps.
    #[derive(Clone)]
    struct Counter<N>(N, Rc<Cell<u32>>);
    impl<N> aegir::Node for Counter<N> {}
    impl<N: Function<Cx>, Cx: Context> Function<Cx> for Counter<N> {
        type Value = N::Value;
        type Error = N::Error;
        fn evaluate<CR: AsMut<Cx>>(&self, c: CR) -> Result<N::Value, N::Error> { self.1.set(self.1.get() + 1); self.0.evaluate(c) }
    }
    fn history<T: Bx + PartialEq>(k: &mut Check, r: &mut Rng, n: usize) {
        let what = T::name(n);
        let mut c: Full<T, T> = Store { x: random::<T>(r, n).0, y: random::<T>(r, n).0, a: None, b: None, c: None, z: 7.0, d: None };
        let count = Rc::new(Cell::new(0));
        let node = Counter(X.into_var(), count.clone()).cached(A);
        let mut model: Option<Vec<T::P>> = None;
        let mut evals = 0;
        for s in 0..12 {
            match r.below(6) {
                0 => { c.x = random::<T>(r, n).0; },
                1 => { c.a = None; model = None; },
                2 => { let (b, d) = random::<T>(r, n); c.write(A, b); model = Some(d); },
                _ => {
                    let y = c.y.data();
                    let m = r.below(3);
                    let got = match m { 0 => node.evaluate(&mut c).map(|b| b.data()).ok(), 1 => node.evaluate_spec(&mut c).map(|b| spec_elems(&b).1).ok(), _ => node.clone().evaluate(&mut c).map(|b| b.data()).ok() };
                    if model.is_none() { model = Some(c.x.data()); evals += 1; }
                    k.case(&format!("typed {what} step {s} {:?}", model), true);
                    k.count("generated contexts");
                    let ok = got == model && count.get() == evals && c.y.data() == y && c.z == 7.0 && c.b.is_none() && c.c.is_none() && c.d.is_none()
                        && Read::<A>::read(&c, A).map(|b| b.data()) == model;
                    if !ok { k.violation(&format!("typed cache of {what}"), &format!("mode {m}, step {s}: got {:?}, stored {:?}, expected {:?}; inner evaluated {} times, expected {evals}; others {:?}", got, Read::<A>::read(&c, A).map(|b| b.data()), model, count.get(), (c.y.data() == y, c.z))) }
                },
            }
        }
    }
    pub fn run(k: &mut Check) {
        for i in 0..k.n(20, 300) {
            let mut r = k.rng("typed", i as u64);
            let r = &mut r;
            macro_rules! go { ($($T:ty, $n:expr;)*) => { $( history::<$T>(k, r, $n); )* } }
            go! { f64, 0; f32, 0; i32, 0; u64, 0; (f64, f64), 0; Vec<f64>, 0; Vec<f64>, 3; Vec<f32>, 5; [f64; 0], 0; [f64; 3], 0; [f32; 4], 0; [[f64; 3]; 2], 0; [[[f64; 2]; 3]; 2], 0; [[[[f64; 2]; 1]; 3]; 2], 0; [i64; 3], 0; }
            // Two caches and a nested one, and the derivative for any target, the caches' own identifiers included.
            let (x, y) = (r.range(0.1, 2.0), r.range(0.1, 2.0));
            let fresh = || -> Full<f64, f64> { Store { x, y, a: None, b: None, c: None, z: 7.0, d: None } };
            // Under one name, the outer value is the one that stays.
            let same = X.into_var().mul(Y.into_var()).cached(A).add(X.into_var().cached(A)).cached(A);
            let mut c = fresh();
            let v = if i % 2 == 0 { same.evaluate(&mut c).unwrap() } else { same.evaluate_spec(&mut c).unwrap().unwrap() };
            k.case(&format!("under one name {x} {y}"), true);
            if v != x * y + x * y || c.a != Some(v) || c.b.is_some() || c.c.is_some() { k.violation("nested caches of one name", &format!("value {v}, expected {}, cache {:?}", x * y + x * y, c.a)) }
            let e = X.into_var().mul(Y.into_var()).cached(A).add(X.into_var().cached(B)).cached(C);
            let inner = X.into_var().mul(Y.into_var()).cached(A).add(X.into_var().cached(B));
            let mut c = fresh();
            let v = e.evaluate(&mut c).unwrap();
            k.case(&format!("nested {x} {y}"), true);
            if v != x * y + x || c.a != Some(x * y) || c.b != Some(x) || c.c != Some(v) || c.d.is_some() || c.z != 7.0 || (c.x, c.y) != (x, y) {
                k.violation("nested caches", &format!("value {v}, caches {:?}", (c.a, c.b, c.c, c.d)));
            }
            c.x = 100.0;
            if e.evaluate(&mut c).ok() != Some(v) { k.violation("nested caches", "recomputed although filled") }
            c.c = None;
            if e.evaluate(&mut c).ok() != Some(v) { k.violation("nested caches", "inner caches are not used") }
            macro_rules! der { ($($T:ident)*) => { $( {
                // `A`, `B`, `C` as targets need a readable value.
                let full = || -> Full<f64, f64> { Store { x, y, a: Some(1.0), b: Some(2.0), c: Some(3.0), z: 7.0, d: Some(4.0) } };
                let (p, q) = (e.adjoint($T).evaluate(full()).map_err(|e| e.to_string()), inner.adjoint($T).evaluate(full()).map_err(|e| e.to_string()));
                k.count("typed derivatives");
                let want = match stringify!($T) { "X" => y + 1.0, "Y" => x, _ => 0.0 };
                if p != q || !matches!(p, Ok(v) if (v - want).abs() < 1e-12) { k.violation(&format!("typed derivative in {}", stringify!($T)), &format!("{:?}, of the inner node {:?}, expected {want}", p, q)) }
            } )* } }
            der!(X Y Z A B C D);
        }
    }
}

fn main() {
    drive(Check::new("C09", "random trees with caches, taken through histories of evaluations, clearings, overwritings and changed or removed variables, with every evaluation of an inner node, read and write recorded; generated contexts of many types with counted evaluations; non-trivial: at least one cache"), run)
}
fn run(k: &mut Check) {
    typed::run(k);
    let trees = k.n(10_000, 200_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let tag = match i % 3 { 0 => rand_tag(&mut r), 1 => Tag::S, _ => Tag::V3 };
        let depth = 1 + r.below(5);
        let o = GenOpt { lifted: i % 3 == 0, caches: true, domain: r.chance(3, 4), ..Default::default() };
        let s = Sample::new(&mut r, tag, depth, o, i % 2 == 1);
        let mut node = s.node.clone();
        // Put a cache at the root and below binary operators; names from a small or a large pool.
        let pool = if r.chance(1, 4) { 3 } else { 200 };
        fn plant(r: &mut Rng, n: &mut Node, pool: usize, p: usize) {
            match &mut n.k { K::Un(_, a) | K::Sum(a) => plant(r, a, pool, p), K::Cached(i, a) => { *i = r.below(pool) as u8; plant(r, a, pool, p) }, K::Bin(_, a, b) => { plant(r, a, pool, p); plant(r, b, pool, p) }, _ => {} }
            if (n.tag == Tag::S || n.tag == Tag::V3) && r.chance(p, 10) { let inner = n.clone(); *n = Node { tag: n.tag, id: 0, k: K::Cached(r.below(pool) as u8, Box::new(inner)) } }
        }
        plant(&mut r, &mut node, pool, 3);
        if (node.tag == Tag::S || node.tag == Tag::V3) && r.chance(2, 3) && !matches!(node.k, K::Cached(..)) { let t = node.tag; node = Node { tag: t, id: 0, k: K::Cached(r.below(pool) as u8, Box::new(node)) } }
        if !node.has_cache() { k.count("skipped: no cache"); continue }
        // A cache inside a cache of the same name: the outer one is stored last.
        if r.chance(1, 6) { if let K::Cached(i, a) = &mut node.k { let (i, t) = (*i, a.tag); if let Some(m) = inside(a, t) { let x = m.clone(); *m = Node { tag: t, id: 0, k: K::Cached(i, Box::new(x)) } } } }
        fn circular(n: &Node, open: &mut Vec<(usize, u8)>) -> bool {
            if let K::Cached(i, a) = &n.k { let s = (cache_kind(n.tag), *i); if open.contains(&s) { return true } open.push(s); let c = circular(a, open); open.pop(); return c }
            n.children().into_iter().any(|c| circular(c, open))
        }
        if circular(&node, &mut vec![]) { k.count("trees with a cache inside of its namesake") }
        /// Some expression of the given sort inside, the deepest on the left.
        fn inside(n: &mut Node, t: Tag) -> Option<&mut Node> {
            let deeper = |n: &Node| n.children().iter().position(|c| c.any(&|m| m.tag == t));
            match deeper(n) {
                Some(j) => match &mut n.k { K::Un(_, a) | K::Sum(a) | K::Cached(_, a) => inside(a, t), K::Bin(_, a, b) => inside(if j == 0 { a } else { b }, t), _ => None },
                None => (n.tag == t).then_some(n),
            }
        }
        node.renumber();
        let mut env = s.env.clone();
        let vars = node.vars();
        if !vars.is_empty() && r.chance(1, 4) { let (a, b) = *r.pick(&vars); env.clear_slot(a, b) }
        for c in node.caches() { if r.chance(1, 4) { let x = r.range(-2.0, 2.0); set(&mut env, c, x) } }
        k.case(&format!("{} | {}", node.show(), show_env(&node, &env)), true);
        k.count("trees");
        let seed = r.next();
        if let Some(w) = life(k, &mut Rng::new(seed), &node, &env, s.vlen) {
            k.violation(&format!("history: {}", node.skeleton()), &format!("{}\nat {}\n{w}", node.show(), show_env(&node, &env)));
        }
    }
    let ders = k.n(8_000, 100_000);
    for i in 0..ders {
        if k.many() { break }
        let mut r = k.rng("derivative", i as u64);
        let vector = r.chance(1, 3);
        let tag = *r.pick(&[Tag::S, Tag::V3]);
        let mut e = env(&mut r, EnvOpt { lifted: i % 4 == 0, special: i % 2 == 0, vlen: 3 });
        let depth = 1 + r.below(4);
        let inner = Gen { r: &mut r, env: &e, o: GenOpt { order: 1, vdiff: vector, caches: true, vlen: 3, ..Default::default() } }.tree(tag, depth);
        let mut node = Node { tag, id: 0, k: K::Cached(201, Box::new(inner)) };
        node.renumber();
        let vars = node.vars();
        if !vars.is_empty() && r.chance(1, 5) { let (a, b) = *r.pick(&vars); e.clear_slot(a, b) }
        for c in node.caches() { if r.chance(1, 3) { let x = r.range(-2.0, 2.0); set(&mut e, c, x) } }
        let ix = r.below(NVAR) as u8;
        k.case(&format!("d/d{} {} | {}", ctx::id_name(if vector { 2 } else { 0 }, ix), node.show(), show_env(&node, &e)), true);
        if let Some(w) = derivative(k, &node, &e, vector, ix) {
            k.violation(&format!("derivative: {} in {}", node.skeleton(), ctx::id_name(if vector { 2 } else { 0 }, ix)), &format!("{}\nat {}\n{w}", node.show(), show_env(&node, &e)));
        }
    }
    let t = trees as u64;
    k.need("trees", t / 2); k.need("inner evaluated once", t / 2); k.need("inner skipped", t / 2); k.need("stored values compared", t / 3);
    k.need("failing evaluations", t / 20); k.need("trees with a cache inside of its namesake", t / 30); k.need("with hidden variables", t / 10); k.need("shape evaluations", t / 3);
    k.need("cleared", t / 5); k.need("overwritten", t / 5); k.need("variable changed", t / 5); k.need("variable removed", t / 10);
    k.need("derivatives compared", ders as u64); k.need("derivatives without caches", ders as u64 / 3);
    k.need("generated contexts", 1000); k.need("typed derivatives", 100);
}

//! C08: undefined variables and shape mismatches are reported, precisely, as errors.
use aegir::buffers::Spec;
use aegir::buffers::shapes::{IncompatibleShapes, SDynamic, S1};
use aegir::errors::{BinaryError, UnaryError};
use aegir::meta::SourceError;
use checks::trees::*;
use dynx::gen::*;
use dynx::refr::failure;
use dynx::*;
use support::*;

fn show(e: &Result<Vec<usize>, DErr>) -> String { match e { Ok(d) => format!("success, shape {:?}", d), Err(e) => format!("{:?}", e) } }

/// Outcomes allowed for shape evaluation: a node whose shape does not depend on its operands may,
/// but need not, look at them.
fn shape_allowed(n: &Node, env: &MCtx, vlen: usize) -> Vec<Result<Vec<usize>, DErr>> {
    let mut out = vec![];
    let mut put = |r: Result<Vec<usize>, DErr>| if !out.contains(&r) { out.push(r) };
    match &n.k {
        K::Un(_, a) => for x in shape_allowed(a, env, vlen) { put(x) },
        K::Sum(a) => { put(Ok(vec![])); for x in shape_allowed(a, env, vlen) { put(x.map(|_| vec![])) } },
        // A cached node defaults to evaluating its inner node.
        K::Cached(..) => { put(failure(n, env, vlen)); if let K::Cached(_, a) = &n.k { if failure(n, env, vlen).is_err() { for x in shape_allowed(a, env, vlen) { put(x) } } } },
        K::Bin(op, a, b) => {
            let (xs, ys) = (shape_allowed(a, env, vlen), shape_allowed(b, env, vlen));
            if *op == Op::Power { put(Ok(vec![])) }
            for x in &xs {
                match x {
                    Err(e) => put(Err(DErr::L(Box::new(e.clone())))),
                    Ok(x) => for y in &ys { match y {
                        Err(e) => put(Err(DErr::R(Box::new(e.clone())))),
                        Ok(y) => put(match op {
                            Op::Power => Ok(vec![]),
                            Op::Dot | Op::Tensor => Ok(n.tag.dims(0)),
                            _ if !x.is_empty() && !y.is_empty() && x != y => Err(DErr::O(Box::new(DErr::Shapes(format!("SDynamic({:?})", x), format!("SDynamic({:?})", y))))),
                            _ => Ok(if x.is_empty() { y.clone() } else { x.clone() }),
                        }),
                    } },
                }
            }
        },
        _ => put(failure(n, env, vlen)),
    }
    out
}
fn outcome<T>(o: &Out<T>, dims: impl Fn(&T) -> Vec<usize>) -> Result<Result<Vec<usize>, DErr>, String> {
    match o { Out::Ok(x) => Ok(Ok(dims(x))), Out::Err(e) => Ok(Err(e.clone())), Out::Panic(p) => Err(p.clone()) }
}
/// Errors of the library may wrap unary operators' failures; positions are compared without those.
fn strip(e: &DErr) -> DErr {
    match e { DErr::I(e) => strip(e), DErr::L(e) => DErr::L(Box::new(strip(e))), DErr::R(e) => DErr::R(Box::new(strip(e))), DErr::O(e) => DErr::O(Box::new(strip(e))), e => e.clone() }
}
fn shapes_text(e: &DErr) -> DErr {
    // Shape names may be rendered in any way that shows the numbers: keep the digits.
    match e {
        DErr::Shapes(a, b) => { let d = |s: &str| s.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(","); DErr::Shapes(d(a), d(b)) },
        DErr::L(e) => DErr::L(Box::new(shapes_text(e))), DErr::R(e) => DErr::R(Box::new(shapes_text(e))), DErr::O(e) => DErr::O(Box::new(shapes_text(e))), DErr::I(e) => DErr::I(Box::new(shapes_text(e))),
        e => e.clone(),
    }
}
fn norm(r: Result<Vec<usize>, DErr>) -> Result<Vec<usize>, DErr> { r.map_err(|e| shapes_text(&strip(&e))) }

fn wrong(n: &Node, env: &MCtx, vlen: usize) -> Option<String> {
    let d = build(n, vlen);
    let want = norm(failure(n, env, vlen));
    for (w, got) in [
        ("evaluation", outcome(&d.value(&mut env.clone()), |x| x.0.clone())),
        ("lifted evaluation", outcome(&d.spec(&mut env.clone()), |x| x.2.0.clone())),
    ] {
        match got {
            Err(p) => return Some(format!("{w} panics: {p}; expected {}", show(&want))),
            Ok(g) => { let g = norm(g); if g != want { return Some(format!("{w} gives {}; expected {}", show(&g), show(&want))) } },
        }
    }
    let ok: Vec<_> = shape_allowed(n, env, vlen).into_iter().map(norm).collect();
    match outcome(&d.shape(&mut env.clone()), |x| x.clone()) {
        Err(p) => Some(format!("shape evaluation panics: {p}; expected {}", show(&want))),
        Ok(g) => { let g = norm(g); if !ok.contains(&g) { Some(format!("shape evaluation gives {}; expected one of {}", show(&g), ok.iter().map(show).collect::<Vec<_>>().join(" or "))) } else { None } },
    }
}
fn wrong_derivative(k: &mut Check, n: &Node, env: &MCtx, vector: bool, ix: u8) -> Option<String> {
    let d = build(n, 3);
    let a = match guarded(|| if vector { d.vadj(ix) } else { d.sadj(ix) }) { Ok(Some(a)) => a, Ok(None) => return None, Err(p) if p == NO_ADJOINT => return None, Err(p) => return Some(format!("building the derivative panics: {p}")) };
    k.count("derivatives");
    let mut undef: Vec<String> = n.vars().into_iter().filter(|(a, b)| !env.defined(*a, *b)).map(|(a, b)| ctx::id_name(a, b)).collect();
    let t = (if vector { 2 } else { 0 }, ix);
    if !env.defined(t.0, t.1) { undef.push(ctx::id_name(t.0, t.1)) }
    let mut run = |what: &str, f: &dyn Fn(&mut MCtx) -> Result<Result<Vec<usize>, DErr>, String>| -> Option<String> {
        let mut e = env.clone();
        e.tracing = true;
        let got = f(&mut e);
        let first = e.take_log().into_iter().find_map(|ev| match ev { Ev::Read(kd, i, _) if kd < 10 && !env.defined(kd, i) => Some(ctx::id_name(kd, i)), _ => None });
        match (got, first) {
            (Err(p), _) => Some(format!("{what} of the derivative panics: {p}")),
            (Ok(Ok(_)), Some(x)) => Some(format!("{what} of the derivative succeeds although it read the undefined {x}")),
            (Ok(Ok(_)), None) => None,
            (Ok(Err(e)), Some(x)) => { k.count("failing derivatives"); if e.root() != &DErr::Undef(x.clone()) { Some(format!("{what} of the derivative gives {:?} although the first undefined variable read is {x}", e)) } else { None } },
            (Ok(Err(e)), None) => Some(format!("{what} of the derivative gives {:?} without reading an undefined variable", e)),
        }.or_else(|| None)
    };
    let r = run("evaluation", &|e| outcome(&a.value(e), |x| x.0.clone()))
        .or_else(|| run("lifted evaluation", &|e| outcome(&a.spec(e), |x| x.2.0.clone())))
        .or_else(|| run("shape evaluation", &|e| outcome(&a.shape(e), |x| x.clone())));
    if r.is_some() { return r }
    if undef.is_empty() {
        for (w, o) in [("evaluation", outcome(&a.value(&mut env.clone()), |x| x.0.clone())), ("shape evaluation", outcome(&a.shape(&mut env.clone()), |x| x.clone()))] {
            if !matches!(o, Ok(Ok(_))) { return Some(format!("{w} of the derivative gives {:?} although everything is defined", o)) }
        }
    }
    None
}

/// The error types themselves: what they display.
fn texts(k: &mut Check) {
    let has = |k: &mut Check, what: &str, text: String, parts: &[&str]| {
        k.case(&format!("text {what}"), true);
        k.count("error texts");
        let mut at = 0;
        for p in parts { match text[at..].find(p) { Some(i) => at += i + p.len(), None => { k.violation(&format!("text of {what}"), &format!("{:?} does not show {:?} in order", text, parts)); return } } }
    };
    for i in 0..12u8 {
        let e = SourceError::Undefined(Id::<0>(i));
        let name = ctx::id_name(0, i);
        has(k, "undefined", e.to_string(), &[&name]);
        type E = SourceError<Id<0>>;
        let f = SourceError::Undefined(Id::<1>(i));
        let fname = ctx::id_name(1, i);
        has(k, "left", BinaryError::<E, SourceError<Id<1>>, E>::Left(e).to_string(), &[&name]);
        has(k, "right", BinaryError::<E, SourceError<Id<1>>, E>::Right(f).to_string(), &[&fname]);
        has(k, "output", BinaryError::<E, SourceError<Id<1>>, SourceError<Id<1>>>::Output(f).to_string(), &[&fname]);
        has(k, "inner", UnaryError::<E, SourceError<Id<1>>>::Inner(e).to_string(), &[&name]);
        has(k, "unary output", UnaryError::<E, SourceError<Id<1>>>::Output(f).to_string(), &[&fname]);
    }
    for a in 0..12usize { for b in 0..12usize { if a != b {
        let e = IncompatibleShapes { left: SDynamic([a]), right: SDynamic([b]) };
        has(k, "shapes", e.to_string(), &[&a.to_string(), &b.to_string()]);
        let r = e.clone().reverse();
        if r.left != SDynamic([b]) || r.right != SDynamic([a]) { k.violation("reverse", &format!("{:?} reversed is {:?}", e, r)) }
        has(k, "reversed", r.to_string(), &[&b.to_string(), &a.to_string()]);
        type I = IncompatibleShapes<SDynamic<1>>;
        has(k, "wrapped", BinaryError::<I, I, I>::Output(e.clone()).to_string(), &[&a.to_string(), &b.to_string()]);
    } } }
    let m = IncompatibleShapes { left: S1::<3>, right: SDynamic([4]) };
    has(k, "mixed shapes", m.to_string(), &["3", "4"]);
}

fn main() {
    drive(Check::new("C08", "random trees (ten sorts, caches, run-time sized vectors of several lengths and representations) with variables removed and lengths changed; the error of value and lifted evaluation must be exactly the first failure in evaluation order, that of shapes and derivatives the first undefined variable read; non-trivial: something fails"), run)
}
fn perturb(r: &mut Rng, n: &Node, env: &mut MCtx) -> bool {
    let mut broken = false;
    let vars = n.vars();
    if !vars.is_empty() && r.chance(1, 2) { for _ in 0..1 + r.below(2) { let (a, b) = *r.pick(&vars); env.clear_slot(a, b); broken = true } }
    if r.chance(2, 3) {
        for i in 0..env.vc.len() {
            if env.vc[i].is_none() || r.chance(1, 3) { continue }
            let len = *r.pick(&[0usize, 1, 2, 3, 4, 5]);
            let x = number(r, true);
            let d: Vec<f64> = (0..len).map(|_| number(r, true)).collect();
            env.vc[i] = Some(match r.below(4) {
                0 => Slot { dense: vec![x; len], spec: Spec::Full(SDynamic([len]), x) },
                1 => Slot { dense: vec![x; len], spec: Spec::Diagonal(SDynamic([len]), x) },
                2 => Slot { dense: vec![0.0; len], spec: Spec::Full(SDynamic([len]), 0.0) },
                _ => Slot::raw(d),
            });
            broken = true;
        }
    }
    for (kd, c) in n.caches() { if r.chance(1, 4) { use aegir::Write; if kd == 10 { env.write(Id::<10>(c), 1.5) } else { env.write(Id::<11>(c), [1.5, 2.5, 3.5]) } } }
    broken
}
fn run(k: &mut Check) {
    texts(k);
    let trees = k.n(50_000, 1_000_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let tag = if i % 3 == 0 { Tag::Vc } else { rand_tag(&mut r) };
        let depth = 1 + r.below(5);
        let o = GenOpt { lifted: i % 2 == 0, caches: i % 4 == 0, domain: r.chance(1, 2), ..Default::default() };
        let s = Sample::new(&mut r, tag, depth, o, i % 2 == 1);
        let mut env = s.env.clone();
        perturb(&mut r, &s.node, &mut env);
        let want = failure(&s.node, &env, s.vlen);
        k.case(&format!("{} | {}", s.node.show(), show_env(&s.node, &env)), want.is_err());
        match &want {
            Ok(_) => k.count("no failure"),
            Err(e) => {
                k.count(match e.root() { DErr::Undef(_) => "undefined", _ => "shape mismatch" });
                k.count(match e { DErr::L(_) => "failing left", DErr::R(_) => "failing right", DErr::O(_) => "failing output", _ => "failing source" });
            },
        }
        if let Some(w) = wrong(&s.node, &env, s.vlen) {
            let m = smallest(&s.node, &mut |m| wrong(m, &env, s.vlen).is_some()).unwrap_or(&s.node);
            let mw = wrong(m, &env, s.vlen).unwrap_or(w.clone());
            k.violation(&format!("failure: {}", m.skeleton()), &format!("{}\nsmallest {}\nat {}\n{mw}\nwhole: {w}", s.node.show(), m.show(), show_env(&s.node, &env)));
        }
    }
    let ders = k.n(20_000, 300_000);
    for i in 0..ders {
        if k.many() { break }
        let mut r = k.rng("derivative", i as u64);
        let vector = r.chance(1, 3);
        let tag = if vector { *r.pick(&[Tag::S, Tag::V3]) } else { loop { let t = rand_tag(&mut r); if t != Tag::Vc { break t } } };
        let mut e = env(&mut r, EnvOpt { lifted: i % 4 == 0, special: i % 2 == 0, vlen: 3 });
        let depth = 1 + r.below(5);
        let domain = r.chance(1, 2);
        let node = Gen { r: &mut r, env: &e, o: GenOpt { order: 1, vdiff: vector, caches: i % 3 != 0, vlen: 3, domain, ..Default::default() } }.tree(tag, depth);
        perturb(&mut r, &node, &mut e);
        let ix = r.below(NVAR + 2) as u8;
        k.case(&format!("d/d{} {} | {}", ctx::id_name(if vector { 2 } else { 0 }, ix), node.show(), show_env(&node, &e)), true);
        if let Some(w) = wrong_derivative(k, &node, &e, vector, ix) {
            let m = smallest(&node, &mut |m| wrong_derivative(k, m, &e, vector, ix).is_some()).unwrap_or(&node);
            k.violation(&format!("derivative failure: {} in {}", m.skeleton(), ctx::id_name(if vector { 2 } else { 0 }, ix)), &format!("{}\nsmallest {}\nat {}\n{w}", node.show(), m.show(), show_env(&node, &e)));
        }
    }
    let t = trees as u64;
    k.need("no failure", t / 10); k.need("undefined", t / 20); k.need("shape mismatch", t / 50);
    k.need("failing left", t / 50); k.need("failing right", t / 50); k.need("failing output", t / 120);
    k.need("derivatives", ders as u64 / 2); k.need("failing derivatives", ders as u64 / 4);
    k.need("error texts", 300);
}

//! C05: repeated differentiation yields true higher-order and mixed derivatives.
use checks::trees::*;
use dynx::gen::*;
use dynx::refr::*;
use dynx::*;
use support::*;

/// A sequence of targets: scalar variables, with at most one 3-vector variable (kind 2).
type Path = Vec<(usize, u8)>;
fn derive(n: &Node, vlen: usize, p: &Path) -> Option<AnyDyn> {
    let mut d = build(n, vlen);
    for (kind, i) in p { d = guarded(|| if *kind == 0 { d.sadj(*i) } else { d.vadj(*i) }).ok()??; }
    Some(d)
}
fn truth(n: &Node, env: &MCtx, vlen: usize, p: &Path) -> Result<Val, Skip> {
    let mask = (1 << p.len()) - 1;
    let comps = if p.iter().any(|t| t.0 == 2) { 3 } else { 1 };
    let mut out: Option<Val> = None;
    let mut cols = vec![];
    for c in 0..comps {
        let seeds: Vec<Seed> = p.iter().enumerate().map(|(g, (kind, i))| Seed { kind: *kind, ix: *i, comp: if *kind == 2 { c } else { 0 }, gen: g }).collect();
        cols.push(reference(n, env, vlen, &seeds, p.len(), mask, true)?);
    }
    if comps == 1 { return Ok(cols.pop().unwrap()) }
    let v = out.get_or_insert(cols[0].clone());
    v.dims.push(3);
    let c = cols[0].data.len();
    v.data = (0..c * 3).map(|f| cols[f % 3].data[f / 3]).collect();
    v.tol = (0..c * 3).map(|f| cols[f % 3].tol[f / 3]).collect();
    Ok(v.clone())
}
fn bad(n: &Node, env: &MCtx, p: &Path) -> Option<String> {
    let v = truth(n, env, 3, p).ok()?;
    match derive(n, 3, p)?.value(&mut env.clone()) { Out::Ok((d, x)) => v.check(&d, &x).err(), o => Some(format!("{:?}, expected {:?}", o, v.data)) }
}
fn pname(p: &Path) -> String { p.iter().map(|(k, i)| ctx::id_name(*k, *i)).collect::<Vec<_>>().join(" ") }
fn judge(k: &mut Check, n: &Node, env: &MCtx, p: &Path) -> bool {
    let v = match truth(n, env, 3, p) { Ok(v) => v, Err(s) => { k.count(&format!("skipped: {:?}", s)); return false } };
    let Some(d) = derive(n, 3, p) else { k.count("not available"); return false };
    let got = d.value(&mut env.clone());
    let zero = v.data.iter().all(|x| *x == 0.0);
    k.case(&format!("d/d({}) {} | {}", pname(p), n.show(), show_env(n, env)), !zero);
    k.count(&format!("order {}", p.len()));
    if !zero { k.count(&format!("non-zero, order {}", p.len())) }
    if p.iter().any(|t| t.0 == 2) { k.count("with a vector target") }
    if p.len() > 1 && p.iter().any(|t| t != &p[0]) { k.count("mixed") }
    let why = match &got { Out::Ok((d, x)) => v.check(d, x).err(), o => Some(format!("{:?}, expected {:?}", o, v.data)) };
    if let Some(why) = why {
        let m = smallest(n, &mut |m| bad(m, env, p).is_some()).unwrap_or(n).clone();
        let w = bad(&m, env, p).unwrap_or(why.clone());
        // Wrong gradients are C04's finding; here they can only appear through their own derivative.
        k.violation(&format!("derivative of order {}: {} in ({})", p.len(), m.skeleton(), pname(p)),
            &format!("d/d({}) of {}\nsmallest failing part {}\nat {}\n{}\n(whole: {})", pname(p), n.show(), m.show(), show_env(&m, env), w, why));
    }
    true
}
fn has_vector_product(n: &Node) -> bool {
    n.any(&|n| matches!(&n.k, K::Bin(Op::Dot, a, _) if a.tag == Tag::V3) || matches!(&n.k, K::Bin(Op::Tensor, _, b) if b.tag == Tag::V3))
}

fn main() {
    drive(Check::new("C05", "random expression trees differentiated two and three times in random sequences of variables (scalar, and one vector), in every order, compared with third-order hyper-dual numbers; non-trivial: the true derivative is not zero"), run)
}
fn run(k: &mut Check) {
    let v = |i: u8| Node { tag: Tag::S, id: 0, k: K::Var(i) };
    let c = |x: f64| Node { tag: Tag::S, id: 0, k: K::Const(Rep::Plain, vec![x]) };
    let bin = |o: Op, a: Node, b: Node| Node { tag: Tag::S, id: 0, k: K::Bin(o, Box::new(a), Box::new(b)) };
    let un = |u: U, a: Node| Node { tag: Tag::S, id: 0, k: K::Un(u, Box::new(a)) };
    // 1. Every operator.
    for rep in 0..k.n(12, 150) {
        let mut r = k.rng("sweep", rep as u64);
        let e = env(&mut r, EnvOpt { lifted: rep % 3 == 2, special: rep % 2 == 0, vlen: 3 });
        let mut nodes = vec![];
        let inners: Vec<Node> = vec![v(0), bin(Op::Mul, v(0), v(1)), bin(Op::Add, un(U::Square, v(0)), v(1)), un(U::Exp, bin(Op::Sub, v(0), v(1)))];
        for &u in UNARY { if u.order() >= 2 { for a in &inners { nodes.push(un(u, a.clone())) } } }
        for o in [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Power, Op::Dot, Op::Tensor] {
            for a in &inners { nodes.push(bin(o, a.clone(), v(1))); nodes.push(bin(o, v(1), a.clone())); nodes.push(bin(o, a.clone(), un(U::AddOne, a.clone()))); nodes.push(bin(o, a.clone(), c(1.5))); nodes.push(bin(o, c(1.5), a.clone())); }
        }
        for p in [0.0, 1.0, 2.0, 3.0, 4.0, -1.0, -2.0, 0.5] { for a in &inners { nodes.push(bin(Op::Power, a.clone(), c(p))) } }
        for mut n in nodes {
            n.renumber();
            for p in [vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1], vec![0, 0, 0], vec![0, 1, 0], vec![1, 0, 0], vec![0, 0, 1], vec![1, 1, 0], vec![2, 0]] {
                if n.order() >= p.len() { if judge(k, &n, &e, &p.into_iter().map(|i| (0, i)).collect()) { k.count("sweep") } }
            }
        }
    }
    // 2. Random trees.
    let trees = k.n(4000, 80_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let order = if r.chance(1, 4) { 3 } else { 2 };
        let vec = order == 2 && r.chance(1, 3);
        let tag = if !vec && order == 2 && r.chance(1, 4) { Tag::V3 } else { Tag::S };
        let depth = 2 + r.below(4);
        let special = r.chance(1, 2);
        let e = env(&mut r, EnvOpt { lifted: i % 5 == 0, special, vlen: 3 });
        let node = Gen { r: &mut r, env: &e, o: GenOpt { order, vdiff: vec, caches: r_caches(i), vlen: 3, ..Default::default() } }.tree(tag, depth);
        let mut p: Path = (0..order).map(|_| (0usize, r.below(2) as u8)).collect();
        if vec {
            if has_vector_product(&node) { k.count("skipped: gradient finding of C04"); continue }
            let j = r.below(2); p[j] = (2, r.below(2) as u8);
        }
        if judge(k, &node, &e, &p) { k.count("trees") }
        // All other orders of the same targets.
        let mut q = p.clone(); q.reverse();
        if q != p { judge(k, &node, &e, &q); }
        if order == 3 { let mut q = p.clone(); q.rotate_left(1); if q != p { judge(k, &node, &e, &q); } }
    }
    wide_derivatives(k, 2, k.n(400, 20_000));
    wide_derivatives(k, 3, k.n(400, 20_000));
    k.need("wide-range derivatives", 8000);
    k.need("wide-range derivatives far out", 2500);
    k.need("sweep", 1500);
    k.need("trees", trees as u64 / 3);
    k.need("order 2", 1500); k.need("order 3", 500);
    k.need("non-zero, order 2", 500); k.need("non-zero, order 3", 200);
    k.need("mixed", 500);
    k.need("with a vector target", 50);
    k.assume("the C math library is accurate");
}
fn r_caches(i: usize) -> bool { i % 9 == 0 }

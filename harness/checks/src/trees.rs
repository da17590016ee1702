//! Helpers for the checks that run random expression trees.
use dynx::gen::*;
use dynx::*;
use support::Rng;

/// First subtree (in post-order) for which `bad` holds: none of its own subtrees fail.
pub fn smallest<'a>(n: &'a Node, bad: &mut dyn FnMut(&Node) -> bool) -> Option<&'a Node> {
    for c in n.children() { if let Some(x) = smallest(c, bad) { return Some(x) } }
    if bad(n) { Some(n) } else { None }
}

pub struct Sample { pub env: MCtx, pub node: Node, pub vlen: usize }
impl Sample {
    /// A random environment and a random well-typed expression defined at it.
    pub fn new(r: &mut Rng, tag: Tag, depth: usize, mut o: GenOpt, special: bool) -> Sample {
        let vlen = if r.chance(1, 6) { 0 } else { *r.pick(&[1, 2, 3, 4, 7]) };
        o.vlen = vlen;
        let env = env(r, EnvOpt { lifted: o.lifted, special, vlen });
        let node = Gen { r, env: &env, o }.tree(tag, depth);
        Sample { env, node, vlen }
    }
    pub fn show(&self) -> String { format!("{}\nat {}", self.node.show(), self.show_env()) }
    pub fn show_env(&self) -> String { show_env(&self.node, &self.env) }
    pub fn key(&self) -> String { format!("{} | {}", self.node.show(), self.show_env()) }
}
pub fn show_env(n: &Node, env: &MCtx) -> String {
    let mut s = vec![];
    for (k, i) in n.vars() {
        macro_rules! g { ($f:ident) => { match env.$f.get(i as usize).and_then(|x| x.as_ref()) { Some(x) => format!("{:?}", x.spec), None => "undefined".into() } } }
        let v = match k { 0 => g!(s), 1 => g!(v2), 2 => g!(v3), 3 => g!(m22), 4 => g!(m23), 5 => g!(m32), 6 => g!(m33), 7 => g!(t3), 8 => g!(vc), 9 => g!(tp), 10 => g!(ks), _ => g!(kv) };
        s.push(format!("{} = {}", ctx::id_name(k, i), v));
    }
    for (k, i) in n.caches() { if env.defined(k, i) { s.push(format!("cache {} filled", ctx::id_name(k, i))) } }
    s.join(", ")
}
pub fn rand_tag(r: &mut Rng) -> Tag { if r.chance(1, 3) { Tag::S } else { *r.pick(&TAGS) } }
/// Weight and coverage counters: which operators, on which sorts, were exercised.
pub fn op_names(n: &Node) -> Vec<String> {
    let mut v = vec![];
    n.walk(&mut |n| match &n.k {
        K::Un(u, _) => v.push(format!("{:?}", u)),
        K::Bin(o, _, _) => v.push(format!("{:?}", o)),
        K::Sum(_) => v.push("Sum".into()),
        K::Cached(..) => v.push("Cached".into()),
        _ => {},
    });
    v
}

/// Every differentiable operator over its whole range, differentiated `order` times.
pub fn wide_derivatives(k: &mut support::Check, order: usize, reps: usize) {
    use crate::wide;
    let leaf = |i: u8| Box::new(Node { tag: Tag::S, id: 0, k: K::Var(i) });
    let mut judge = |k: &mut support::Check, n: Node, x: f64, y: f64, path: &[u8], want: wide::Want| {
        let mut n = n;
        n.renumber();
        let mut d = build(&n, 3);
        for i in path { match support::guarded(|| d.sadj(*i)) { Ok(Some(a)) => d = a, o => { k.violation(&format!("wide derivative: {}", n.skeleton()), &format!("no derivative of order {}: {:?}", path.len(), o.is_ok())); return } } }
        let mut e = MCtx::new();
        e.s = vec![Some(Slot::raw(x)), Some(Slot::raw(y))];
        k.case(&format!("wide d/d{path:?} {} at {x:e} {y:e}", n.show()), want.0 != 0.0);
        k.count("wide-range derivatives");
        if x.abs() > 100.0 || x.abs() < 0.01 || y.abs() > 100.0 { k.count("wide-range derivatives far out") }
        let got = [d.value(&mut e.clone()), match d.spec(&mut e.clone()) { Out::Ok((_, g, _)) => Out::Ok(g), Out::Err(s) => Out::Err(s), Out::Panic(s) => Out::Panic(s) }];
        for (what, g) in ["value", "lifted value"].iter().zip(&got) {
            if !matches!(g, Out::Ok((d, v)) if d.is_empty() && v.len() == 1 && wide::near(v[0], &want)) {
                k.violation(&format!("wide derivative: {} by {path:?}", n.skeleton()), &format!("{} at x = {x:e}, y = {y:e}: {what} {g:?}, expected {:e} (relative tolerance {:.1e}, absolute {:.1e})", n.show(), want.0, want.1, want.2));
                return
            }
        }
    };
    for rep in 0..reps {
        if k.many() { return }
        let mut r = k.rng("wide", rep as u64);
        for &u in UNARY {
            let x = wide::unary_point(&mut r, u);
            if let Some(w) = wide::unary(u, x, order) { judge(k, Node { tag: Tag::S, id: 0, k: K::Un(u, leaf(0)) }, x, 1.0, &vec![0; order], w) }
        }
        if order > 2 { continue }
        for &op in BINARY {
            let (x, y) = wide::binary_point(&mut r, op);
            let paths: Vec<Vec<u8>> = if order == 1 { vec![vec![0], vec![1]] } else { vec![vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1]] };
            for path in &paths {
                let j = path.iter().map(|i| *i as usize).sum();
                if let Some(w) = wide::binary(op, x, y, order - j, j) { judge(k, Node { tag: Tag::S, id: 0, k: K::Bin(op, leaf(0), leaf(1)) }, x, y, path, w) }
            }
        }
    }
}

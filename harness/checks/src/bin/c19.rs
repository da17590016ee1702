//! C19: the rendered text of an expression denotes the same function.
//!
//! The text is read back by a parser of the usual notation, written here without the library, into
//! a formula that the reference evaluator evaluates; its value must be the value of the expression.
use checks::trees::*;
use dynx::gen::*;
use dynx::refr::*;
use dynx::*;
use support::*;

// ------------------------------------------------------------------ reading text back
#[derive(Clone, Debug, PartialEq)]
enum T { Num(f64), Name(String), P(char), E, I }
fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let (mut v, mut i) = (vec![], 0);
    while i < c.len() {
        let ch = c[i];
        if ch == ' ' { i += 1; continue }
        if ch.is_ascii_digit() {
            let j = i;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') { i += 1 }
            v.push(T::Num(c[j..i].iter().collect::<String>().parse().map_err(|_| "bad number".to_string())?));
            continue;
        }
        match ch {
            '½' => v.push(T::Num(0.5)), 'π' => v.push(T::Num(std::f64::consts::PI)), '∞' => v.push(T::Num(f64::INFINITY)),
            '𝑒' => v.push(T::E), '𝑖' => v.push(T::I),
            '+' | '-' | '∘' | '⊗' | '/' | '^' | '(' | ')' | '|' | '⟨' | '⟩' | ',' | ':' | '_' => v.push(T::P(ch)),
            _ if ch.is_alphabetic() => {
                let j = i;
                while i < c.len() && c[i].is_alphabetic() && c[i] != 'π' { i += 1 }
                while i < c.len() && c[i].is_ascii_digit() { i += 1 }
                v.push(T::Name(c[j..i].iter().collect()));
                continue;
            },
            _ => return Err(format!("unexpected {:?}", ch)),
        }
        i += 1;
    }
    Ok(v)
}
const FUNS: &[(&str, U)] = &[("δ", U::Dirac), ("sgn", U::Sign), ("ln", U::Ln), ("σ", U::Sigmoid), ("Γ", U::Gamma), ("ψ", U::DiGamma), ("lnΓ", U::LogGamma), ("erf", U::Erf),
    ("cos", U::Cos), ("cosh", U::Cosh), ("acos", U::ArcCos), ("acosh", U::ArcCosh), ("sin", U::Sin), ("sinh", U::Sinh), ("asin", U::ArcSin), ("asinh", U::ArcSinh),
    ("tan", U::Tan), ("tanh", U::Tanh), ("atan", U::ArcTan), ("atanh", U::ArcTanh)];
struct Parser { t: Vec<T>, i: usize }
fn node(tag: Tag, k: K) -> Node { Node { tag, id: 0, k } }
fn num(x: f64) -> Node { node(Tag::S, K::Const(Rep::Plain, vec![x])) }
fn un(u: U, a: Node) -> Node { node(a.tag, K::Un(u, Box::new(a))) }
fn bin(o: Op, a: Node, b: Node) -> Result<Node, String> {
    let tag = match o {
        Op::Add | Op::Sub | Op::Mul | Op::Div => if a.tag == b.tag || b.tag == Tag::S { a.tag } else if a.tag == Tag::S { b.tag } else { return Err("sorts do not fit".into()) },
        Op::Power => if b.tag == Tag::S { a.tag } else { return Err("sorts do not fit".into()) },
        Op::Dot | Op::Tensor => contract_tag(o, a.tag, b.tag).ok_or_else(|| "sorts do not contract".to_string())?,
    };
    if o == Op::Power && tag != Tag::S {
        return match &b.k { K::Const(_, d) if d[0] == 2.0 => Ok(un(U::Square, a)), _ => Err("power of a vector".into()) };
    }
    // x ∘ ln(x) is read with its limit at zero, as the operator that shows like this has it.
    if o == Op::Mul { if let K::Un(U::Ln, x) = &b.k { if **x == a { return Ok(un(U::XLnX, a)) } } }
    Ok(node(tag, K::Bin(o, Box::new(a), Box::new(b))))
}
impl Parser {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn is(&self, c: char) -> bool { self.peek() == Some(&T::P(c)) }
    fn eat(&mut self, c: char) -> bool { if self.is(c) { self.i += 1; true } else { false } }
    fn want(&mut self, c: char) -> Result<(), String> { if self.eat(c) { Ok(()) } else { Err(format!("expected {:?}, found {:?}", c, self.peek())) } }
    fn sum(&mut self) -> Result<Node, String> {
        let mut a = self.product()?;
        loop {
            if self.eat('+') { let b = self.product()?; a = bin(Op::Add, a, b)? }
            else if self.eat('-') { let b = self.product()?; a = bin(Op::Sub, a, b)? }
            else { return Ok(a) }
        }
    }
    fn product(&mut self) -> Result<Node, String> {
        let mut a = self.minus()?;
        loop {
            if self.eat('∘') { let b = self.minus()?; a = bin(Op::Mul, a, b)? }
            else if self.eat('⊗') { let b = self.minus()?; a = bin(Op::Tensor, a, b)? }
            else if self.eat('/') { let b = self.minus()?; a = bin(Op::Div, a, b)? }
            else { return Ok(a) }
        }
    }
    fn minus(&mut self) -> Result<Node, String> { if self.eat('-') { Ok(un(U::Negate, self.minus()?)) } else { self.power() } }
    fn power(&mut self) -> Result<Node, String> {
        let e = self.peek() == Some(&T::E);
        let a = self.atom()?;
        if !self.eat('^') { return Ok(a) }
        let b = self.minus()?;
        if e { Ok(un(U::Exp, b)) } else { bin(Op::Power, a, b) }
    }
    fn atom(&mut self) -> Result<Node, String> {
        let t = self.peek().cloned().ok_or("unexpected end")?;
        self.i += 1;
        match t {
            T::Num(x) => Ok(num(x)),
            T::E => Ok(un(U::Exp, num(1.0))),
            T::I => { self.atom()?; Ok(num(f64::NAN)) },
            T::P('(') => { let a = self.sum()?; self.want(')')?; Ok(a) },
            T::P('|') => { let a = self.sum()?; self.want('|')?; Ok(un(U::Abs, a)) },
            T::P('⟨') => { let a = self.sum()?; self.want(',')?; let b = self.sum()?; self.want('⟩')?; bin(Op::Dot, a, b) },
            T::Name(n) if self.is('(') => {
                let u = FUNS.iter().find(|f| f.0 == n).ok_or_else(|| format!("no function {n}"))?.1;
                self.want('(')?; let a = self.sum()?; self.want(')')?;
                Ok(un(u, a))
            },
            T::Name(n) if n == "inf" => Ok(num(f64::INFINITY)),
            T::Name(n) if n == "NaN" => Ok(num(f64::NAN)),
            T::Name(n) => {
                let k = KIND_NAMES.iter().position(|k| n.strip_prefix(*k).map(|r| r.parse::<u8>().is_ok()).unwrap_or(false)).ok_or_else(|| format!("no variable {n}"))?;
                if k >= TAGS.len() { return Err(format!("no variable {n}")) }
                Ok(node(TAGS[k], K::Var(n[KIND_NAMES[k].len()..].parse().unwrap())))
            },
            t => Err(format!("unexpected {:?}", t)),
        }
    }
}
fn read(s: &str) -> Result<Node, String> {
    let mut p = Parser { t: lex(s)?, i: 0 };
    // A total is written Σ_i (…)_i.
    let total = p.t.len() > 3 && p.t[0] == T::Name("Σ".into());
    if total {
        p.i = 1;
        p.want('_')?;
        if p.peek() != Some(&T::Name("i".into())) { return Err("expected the index of the sum".into()) }
        p.i += 1;
    }
    let mut a = p.sum()?;
    if total {
        p.want('_')?;
        if p.peek() != Some(&T::Name("i".into())) { return Err("expected the index of the sum".into()) }
        p.i += 1;
        a = node(Tag::S, K::Sum(Box::new(a)));
    }
    if p.i != p.t.len() { return Err(format!("trailing {:?}", &p.t[p.i..])) }
    a.renumber();
    Ok(a)
}

// ------------------------------------------------------------------ judging
enum Said { Same, Skip(&'static str), Undefined(String), Wrong(String) }
/// The text `s` against an observed value.
fn compare(s: &str, got: &Flat, env: &MCtx, vlen: usize) -> Said {
    let f = match read(s) { Ok(f) => f, Err(e) => return Said::Wrong(format!("cannot be read: {e}")) };
    let v = match value(&f, env, vlen) { Ok(v) => v, Err(Skip::Domain(w)) => return Said::Undefined(w.to_string()), Err(Skip::Mag) => return Said::Skip("magnitude"), Err(e) => return Said::Wrong(format!("{:?}", e)) };
    let v = if v.dims.is_empty() && !got.0.is_empty() {
        let n = got.1.len();
        Val { dims: got.0.clone(), data: vec![v.data[0]; n], tol: vec![v.tol[0]; n] }
    } else { v };
    match v.check(&got.0, &got.1) { Ok(()) => Said::Same, Err(e) => Said::Wrong(format!("denotes {}: {}", f.show(), e)) }
}
/// The text with the flags of the caller: at most padded.
fn flagged(k: &mut Check, d: &impl std::fmt::Display, plain: &str) -> Option<String> {
    k.count("texts with flags");
    let n = plain.chars().count();
    for (w, t) in [("{:.2}", format!("{d:.2}")), ("{:.0}", format!("{d:.0}")), ("{:40}", format!("{d:40}")), ("{:^w$.p$}", format!("{d:^w$.p$}", w = n + 3, p = n - 1)), ("{:+}", format!("{d:+}")), ("{:#}", format!("{d:#}")), ("{:012.3}", format!("{d:012.3}"))] {
        if t.trim() != plain { return Some(format!("shows as {plain} but as {t} with {w}")) }
    }
    None
}
fn derived(n: &Node, vlen: usize, path: &[u8]) -> Option<AnyDyn> {
    let mut d = build(n, vlen);
    for i in path { d = guarded(|| d.sadj(*i)).ok()??; }
    Some(d)
}
fn said(n: &Node, env: &MCtx, vlen: usize, path: &[u8]) -> (Option<String>, Said) {
    let Some(d) = derived(n, vlen, path) else { return (None, Said::Skip("not available")) };
    let Some(s) = d.text() else { return (None, Said::Skip("no text")) };
    match d.value(&mut env.clone()) {
        Out::Ok(g) if g.1.iter().all(|x| x.is_finite()) => { let r = compare(&s, &g, env, vlen); (Some(s), r) },
        Out::Ok(_) => (Some(s), Said::Skip("not finite")),
        _ => (Some(s), Said::Skip("fails")),
    }
}
fn judge(k: &mut Check, n: &Node, envs: &[MCtx], vlen: usize, path: &[u8]) {
    // Envs at which the expression (to that order) is defined.
    let seeds: Vec<Seed> = path.iter().enumerate().map(|(g, i)| Seed { kind: 0, ix: *i, comp: 0, gen: g }).collect();
    let (mut undefined, mut same, mut text) = (vec![], 0, String::new());
    for e in envs {
        if reference(n, e, vlen, &seeds, path.len(), (1 << path.len()) - 1, false).is_err() { k.count("outside the domain"); continue }
        let zero_power = n.any(&|m| if let K::Bin(Op::Power, a, b) = &m.k {
            matches!((value(a, e, vlen), value(b, e, vlen)), (Ok(x), Ok(y)) if x.data[0] == 0.0 && y.data[0] <= 0.0)
        } else { false });
        if zero_power { k.count("skipped: 0^0"); continue }
        let (s, r) = said(n, e, vlen, path);
        if let Some(s) = s { text = s }
        match r {
            Said::Same => same += 1,
            Said::Skip(w) => k.count(&format!("skipped: {w}")),
            Said::Undefined(w) if ["digamma", "division by nearly zero", "small base", "sign near zero"].contains(&w.as_str()) || w.starts_with("large") => k.count("skipped: outside the range of the reference"),
            Said::Undefined(w) => undefined.push((e, w)),
            Said::Wrong(w) => {
                let m = smallest(n, &mut |m| matches!(said(m, e, vlen, path).1, Said::Wrong(_)) && reference(m, e, vlen, &seeds, path.len(), (1 << path.len()) - 1, false).is_ok()).unwrap_or(n).clone();
                let (ms, mr) = said(&m, e, vlen, path);
                let mw = if let Said::Wrong(w) = mr { w } else { w };
                if broadcast_in_contraction(&m, vlen, path) {
                    // One listed finding, whatever surrounds it.
                    k.violation("a contraction with a non-scalar operand that shows as a scalar", &format!("{:?} of {}\nshows as {}\n{}", path, m.show(), ms.unwrap_or_default(), mw));
                    k.count("skipped: the listed finding");
                    return;
                }
                let of = if path.is_empty() { String::new() } else { format!("derivative {:?} of ", path) };
                k.violation(&format!("text of {}{}", of, m.skeleton()), &format!("{of}{}\nshows as {}\n{}\n(whole: {} shown as {})\nat {}", m.show(), ms.unwrap_or_default(), mw, n.show(), text, show_env(n, e)));
                return;
            },
        }
    }
    if same == 0 && undefined.len() >= 2 {
        k.violation(&format!("text of {}{}: undefined where the expression is defined", n.skeleton(), if path.is_empty() { "".into() } else { format!(" derivative {:?}", path) }),
            &format!("{}\nshows as {}\nwhich is undefined ({}) at {}", n.show(), text, undefined[0].1, show_env(n, undefined[0].0)));
    }
    if let Some(w) = derived(n, vlen, path).and_then(|d| dynx::with_dyn!(&d, |d| if text.is_empty() { None } else { flagged(k, d, &text) })) {
        k.violation(&format!("text of {} with flags", n.skeleton()), &format!("{} {}", n.show(), w))
    }
    if same > 0 {
        k.case(&text, text.chars().count() > 3);
        k.add("texts compared", same);
        k.count(&format!("order {}", path.len()));
        if n.tag != Tag::S { k.count("not scalar") }
        for (c, name) in [('(', "with brackets"), ('^', "with powers"), ('⟨', "with dot products"), ('⊗', "with outer products"), ('|', "with absolute values"), ('𝑒', "with exponentials"), ('π', "with π")] {
            if text.contains(c) { k.count(name) }
        }
    }
}
/// A contraction inside of which an operand that is not scalar (or a derivative of it) shows as a
/// scalar: text does not tell a scalar from the buffer it is spread over.
fn broadcast_in_contraction(n: &Node, vlen: usize, path: &[u8]) -> bool {
    n.any(&|m| match &m.k {
        K::Bin(Op::Dot | Op::Tensor, a, b) => [a, b].into_iter().any(|c| c.tag != Tag::S && (0..1usize << path.len()).any(|mask| {
            let sub: Vec<u8> = (0..path.len()).filter(|j| mask >> j & 1 == 1).map(|j| path[j]).collect();
            derived(c, vlen, &sub).and_then(|d| d.text()).and_then(|t| if t == "0" { None } else { read(&t).ok() }).map(|f| f.tag == Tag::S).unwrap_or(false)
        })),
        _ => false,
    })
}
/// The same expression with the text of its two derivative leaves: one and zero.
fn adj(one: bool) -> Node { node(Tag::S, K::Var(if one { ONE } else { ZERO })) }
fn envs(r: &mut Rng, vlen: usize) -> Vec<MCtx> {
    (0..4).map(|j| { let mut e = env(r, EnvOpt { lifted: false, special: j == 3, vlen }); adjoint_leaves(&mut e); e }).collect()
}
/// The value of a formula by the functions of the system's library alone, at any point at all.
fn plain(n: &Node, e: &MCtx) -> f64 {
    use support::libm::*;
    match &n.k {
        K::Var(i) => if *i == ONE { 1.0 } else if *i == ZERO { 0.0 } else { match e.s.get(*i as usize) { Some(Some(s)) => s.dense, _ => f64::NAN } },
        K::Const(_, d) => d[0],
        K::Un(u, a) => {
            let x = plain(a, e);
            match u {
                U::SubOne => x - 1.0, U::AddOne => x + 1.0, U::OneSub => 1.0 - x, U::Double => 2.0 * x, U::Square => x * x, U::Negate => -x,
                U::Dirac => if x == 0.0 { f64::INFINITY } else if x.is_nan() { x } else { 0.0 },
                U::Sign => if x == 0.0 || x.is_nan() { x } else { x.signum() },
                U::Abs => x.abs(), U::Ln => ln(x), U::XLnX => if x <= 0.0 { 0.0 } else { x * ln(x) }, U::Exp => exp(x),
                U::Rabbit => x * (1.0 - x), U::Sigmoid => 1.0 / (1.0 + exp(-x)),
                U::Gamma => if x <= 0.0 && x == x.round() { f64::INFINITY } else { tgamma(x) },
                U::Factorial => plain(&un(U::Gamma, un(U::AddOne, (**a).clone())), e),
                U::LogGamma => if x <= 0.0 && x == x.round() { f64::INFINITY } else { lgamma(x) },
                U::DiGamma => if x == 0.0 { f64::INFINITY } else if x > 0.0 { r_digamma(x) } else { f64::NAN },
                U::Erf => erf(x), U::Erfc => erfc(x),
                U::Cos => cos(x), U::Cosh => cosh(x), U::ArcCos => acos(x), U::ArcCosh => acosh(x), U::Sin => sin(x), U::Sinh => sinh(x), U::ArcSin => asin(x), U::ArcSinh => asinh(x),
                U::Tan => tan(x), U::Tanh => tanh(x), U::ArcTan => atan(x), U::ArcTanh => atanh(x),
            }
        },
        K::Bin(o, a, b) => {
            let (x, y) = (plain(a, e), plain(b, e));
            match o { Op::Add => x + y, Op::Sub => x - y, Op::Mul | Op::Dot | Op::Tensor => x * y, Op::Div => x / y, Op::Power => pow(x, y) }
        },
        K::Sum(a) | K::Cached(_, a) => plain(a, e),
    }
}
/// Texts at the special points of the operators, where they show as closed forms (π/2, ∞, 𝑒, ½, ...): there is
/// no margin to the edge of a domain, so that the text is evaluated by the plain functions. A value that is
/// infinite must show as one that is.
fn special_points(k: &mut Check) {
    let v = |i| node(Tag::S, K::Var(i));
    let leaves = [adj(true), adj(false), num(1.0), num(0.0), num(0.5), num(-1.0), v(0)];
    let mut all: Vec<Node> = vec![];
    for u in UNARY { for l in &leaves { all.push(un(*u, l.clone())) } }
    for o in BINARY { for a in &leaves { for b in &leaves { all.push(bin(*o, a.clone(), b.clone()).unwrap()) } } }
    let one = all.clone();
    for n in &one {
        for u in UNARY { all.push(un(*u, n.clone())) }
        for o in BINARY { for l in &leaves[..2] { all.push(bin(*o, n.clone(), l.clone()).unwrap()); all.push(bin(*o, l.clone(), n.clone()).unwrap()) } }
    }
    for x in [0.3, 1.7, -0.6] {
        let mut e = MCtx::new();
        e.s = vec![Some(Slot::raw(x))];
        adjoint_leaves(&mut e);
        for n in &all {
            if k.many() { return }
            let zero = |m: &Node| { let z = plain(m, &e); z == 0.0 };
            // A power of zero and a quotient by it, and what is computed from an infinite part, have no agreed value.
            // But a quotient of another number by zero is infinite.
            let pole = matches!(&n.k, K::Bin(Op::Div, a, b) if zero(b) && !zero(a));
            if pole { k.count("quotients by zero at a special point") }
            if n.any(&|m| match &m.k { K::Bin(Op::Power, a, _) => !(plain(a, &e) > 0.0), K::Bin(Op::Div, _, b) if !pole || !std::ptr::eq(m, n) => zero(b), K::Un(_, a) | K::Cached(_, a) | K::Sum(a) => !plain(a, &e).is_finite(), K::Bin(_, a, b) => !plain(a, &e).is_finite() || !plain(b, &e).is_finite(), _ => false }) { k.count("skipped: no agreed value at a special point"); continue }
            let mut n = n.clone();
            n.renumber();
            let d = build(&n, 3);
            let Some(s) = d.text() else { continue };
            let Out::Ok((_, g)) = d.value(&mut e.clone()) else { continue };
            // The native functions have the largest number at a pole.
            let far = |x: f64| if x.abs() > 1e300 { x * f64::INFINITY } else { x };
            let (g, want) = (far(g[0]), far(plain(&n, &e)));
            if g.is_nan() || want.is_nan() { k.count("skipped: not real at a special point"); continue }
            let t = match read(&s) { Ok(f) => far(plain(&f, &e)), Err(w) => { k.violation(&format!("text of {}", n.skeleton()), &format!("{} shows as {s}, which cannot be read: {w}", n.show())); continue } };
            k.count("texts at special points");
            k.case(&format!("special: {s}"), s.chars().count() > 1);
            // Nearby, the function may move quickly.
            if !(if g.is_infinite() { t.is_infinite() } else { (t - g).abs() <= 1e-6 * (1.0 + g.abs()) }) {
                k.violation(&format!("text of {}", n.skeleton()), &format!("{} shows as {s}\nwhich denotes {t:?}, its value is {g:?} at x0 = {x}", n.show()));
            }
        }
    }
    k.need("texts at special points", 5000);
    k.need("quotients by zero at a special point", 500);
}
fn sprinkle(n: &mut Node, r: &mut Rng) {
    if n.tag == Tag::S && matches!(n.k, K::Var(_)) && r.chance(1, 2) { n.k = K::Var(if r.chance(1, 2) { ONE } else { ZERO }); return }
    match &mut n.k { K::Un(_, a) | K::Sum(a) | K::Cached(_, a) => sprinkle(a, r), K::Bin(_, a, b) => { sprinkle(a, r); sprinkle(b, r) }, _ => {} }
}

fn main() {
    drive(Check::new("C19", "texts of expressions (all operators nested in all operators, random trees, scalars and vectors, first and second derivatives, leaves that show as zero and one) read back by an independent parser and evaluated by the reference, compared with the evaluation of the expression at several points; non-trivial: texts longer than three characters, by text"), run)
}
fn run(k: &mut Check) {
    // 1. All operators over all leaves, and all operators over those.
    let leaves = |r: &mut Rng| vec![node(Tag::S, K::Var(0)), node(Tag::S, K::Var(1)), adj(true), adj(false), num((r.range(0.1, 0.9) * 100.0).round() / 100.0), num(-(r.range(0.1, 2.9) * 100.0).round() / 100.0), num(2.0), num(0.0), num(1.0), num(r.range(0.0, 1e-6)), num(r.range(1e6, 1e9))];
    for rep in 0..k.n(1, 12) {
        let mut r = k.rng("sweep", rep as u64);
        let e = envs(&mut r, 3);
        let l0 = leaves(&mut r);
        for l in &l0 { judge(k, l, &e, 3, &[]) }
        let mut l1 = vec![];
        for u in UNARY { for l in &l0 { l1.push(un(*u, l.clone())) } }
        for o in BINARY { for a in &l0 { for b in &l0 { l1.push(bin(*o, a.clone(), b.clone()).unwrap()) } } }
        for n in &l1 { judge(k, n, &e, 3, &[]); judge(k, n, &e, 3, &[0]); if n.order() >= 2 { judge(k, n, &e, 3, &[0, 0]) } }
        k.add("swept, one operator", l1.len() as u64);
        // Two levels: every operator directly inside every operator, in every position.
        let some = |r: &mut Rng, n: &Node| -> Node {
            // Representatives of one-operator expressions, with variables in reach of the domain.
            let mut m = n.clone();
            if r.chance(1, 8) { sprinkle(&mut m, r) }
            m
        };
        let v = |i| node(Tag::S, K::Var(i));
        let mut inner: Vec<Node> = vec![];
        for u in UNARY { for l in [v(0), num(0.5), num(-1.5)] { inner.push(un(*u, l)) } }
        for o in BINARY { for (a, b) in [(v(0), v(1)), (v(0), num(0.5)), (num(2.0), v(0)), (num(-1.5), v(0)), (v(0), num(-2.0))] { inner.push(bin(*o, a, b).unwrap()) } }
        for n in &inner {
            for u in UNARY { let m = un(*u, some(&mut r, n)); judge(k, &m, &e, 3, &[]); judge(k, &m, &e, 3, &[0]); }
            for o in BINARY {
                for l in [v(1), num(-0.5), num(3.0), adj(true), adj(false)] {
                    judge(k, &bin(*o, some(&mut r, n), l.clone()).unwrap(), &e, 3, &[]);
                    judge(k, &bin(*o, l, some(&mut r, n)).unwrap(), &e, 3, &[]);
                }
                for _ in 0..k.n(12, 60) { let b = r.pick(&inner).clone(); judge(k, &bin(*o, some(&mut r, n), some(&mut r, &b)).unwrap(), &e, 3, &[]); }
            }
            k.count("swept, two operators");
        }
    }
    special_points(k);
    // 2. Random trees.
    let trees = k.n(6000, 100_000);
    for i in 0..trees {
        if k.many() { break }
        let mut r = k.rng("tree", i as u64);
        let vlen = *r.pick(&[1, 2, 3, 4]);
        let e = envs(&mut r, vlen);
        let tag = if r.chance(2, 3) { Tag::S } else { *r.pick(&TAGS) };
        let order = if tag == Tag::Vc { 0 } else if tag != Tag::S { r.below(2) } else { r.below(3) };
        let d = 2 + r.below(4);
        let mut n = Gen { r: &mut r, env: &e[0], o: GenOpt { text: true, order, vlen, ..Default::default() } }.tree(tag, d);
        if r.chance(1, 4) { sprinkle(&mut n, &mut r); n.renumber(); }
        judge(k, &n, &e, vlen, &[]);
        if order >= 1 && n.order() >= 1 { let x = r.below(2) as u8; judge(k, &n, &e, vlen, &[x]); if order >= 2 && n.order() >= 2 { judge(k, &n, &e, vlen, &[x, r.below(2) as u8]) } }
        k.count("trees");
    }
    // 3. Totals and double contractions, whose text wraps whatever is inside.
    for i in 0..k.n(1500, 20_000) {
        let mut r = k.rng("total", i as u64);
        let vlen = 1 + r.below(4);
        let e = envs(&mut r, vlen);
        let tag = *r.pick(&TAGS);
        let d = r.below(4);
        let n = Gen { r: &mut r, env: &e[0], o: GenOpt { text: true, vlen, ..Default::default() } }.tree(tag, d);
        let Ok(want) = value(&n, &e[0], vlen) else { continue };
        let inner = build(&n, vlen);
        let Some(s) = inner.text() else { continue };
        let total = dynx::with_dyn!(&inner, |d| aegir::ops::Sum(d.clone()).to_string());
        let got = (vec![], vec![want.data.iter().sum::<f64>()]);
        if let Some(w) = dynx::with_dyn!(&inner, |d| flagged(k, &aegir::ops::Sum(d.clone()), &total)) { k.violation(&format!("text of the total of {} with flags", n.skeleton()), &w) }
        match compare(&total, &got, &e[0], vlen) {
            Said::Wrong(w) => k.violation(&format!("text of the total of {}", n.skeleton()), &format!("Sum({})\nshows as {}\n{}", n.show(), total, w)),
            Said::Same => { k.case(&total, true); k.count("totals") },
            _ => {},
        }
        let other = node(tag, K::Var(1));
        let t = aegir_double(&inner, &build(&other, vlen));
        for t in t {
            let parts: Vec<&str> = t.split(" : ").collect();
            let ok = parts.len() == 2 && [(parts[0], &n), (parts[1], &other)].iter().all(|(p, m)| match value(m, &e[0], vlen) {
                Ok(v) => !matches!(compare(p, &(v.dims.clone(), v.data.clone()), &e[0], vlen), Said::Wrong(_)), Err(_) => true });
            if !ok { k.violation(&format!("text of the double contraction of {}", n.skeleton()), &format!("shows as {t}, operand shows as {s}")) }
            k.count("double contractions");
        }
    }
    collisions(k);
    k.need("texts with a double contraction inside", 150);
    k.need("swept, one operator", 1000); k.need("swept, two operators", 100);
    k.need("texts compared", 60_000);
    k.need("trees", trees as u64);
    k.need("order 1", 4000); k.need("order 2", 500); k.need("not scalar", 500);
    for c in ["with brackets", "with powers", "with dot products", "with outer products", "with absolute values", "with exponentials"] { k.need(c, 300) }
    k.need("texts with flags", 20_000);
    k.need("totals", 500); k.need("double contractions", 500);
    k.need_distinct(20_000);
    k.assume("0^0 is not in the domain of the power operator where the base shows as zero");
}
/// Expressions with a double contraction in them, inside, around or between other operators. No two of them show
/// as the same text unless they are the same function, and there is a rank of the colon (below sums, among the
/// products, or between products and powers), the usual conventions leaving that open, with which every text
/// denotes its expression. The contraction is stood for by a bilinear function.
fn collisions(k: &mut Check) {
    use aegir::{fmt::ToExpr, ids::{X, Y, Z}, ops::{*, trig::*}, Identifier};
    use std::collections::BTreeMap;
    type V = [f64; 3];
    const C: V = [0.37, 0.61, 1.43];
    fn dot(a: V, b: V) -> V { [C[0] * a[0] * b[0], C[1] * a[1] * b[1], C[2] * a[2] * b[2]] }
    fn m1(a: V, f: impl Fn(f64) -> f64) -> V { a.map(f) }
    fn m2(a: V, b: V, f: impl Fn(f64, f64) -> f64) -> V { [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])] }
    let (vx, vy, vz): (V, V, V) = ([1.7, 0.6, 2.3], [0.9, 1.4, 0.35], [0.45, 2.1, 1.2]);
    macro_rules! x { () => { X.into_var() } } macro_rules! y { () => { Y.into_var() } } macro_rules! z { () => { Z.into_var() } }
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + a.abs());
    let mut misread: [Vec<String>; 3] = Default::default();
    let mut seen: BTreeMap<String, (String, V)> = BTreeMap::new();
    let mut put = |what: String, e: aegir::fmt::Expr, v: V| {
        let t = e.to_string();
        k.count("texts with a double contraction inside");
        k.case(&format!("double contraction: {what}"), true);
        for rank in 0..3 {
            let ok = (0..3).all(|i| match (Colon { t: lex(&t).unwrap_or_default(), i: 0, rank, at: [vx[i], vy[i], vz[i]], c: C[i] }).read() { Some(r) => near(v[i], r) || (r.is_nan() && v[i].is_nan()), None => false });
            if !ok { misread[rank].push(format!("{what} shows as {t}")) }
        }
        match seen.get(&t) {
            Some((w, u)) if !u.iter().zip(&v).all(|(a, b)| near(*a, *b) || (a.is_nan() && b.is_nan())) => k.violation("different expressions show as the same text", &format!("{w} and {what} both show as {t}")),
            Some(_) => {},
            None => { seen.insert(t, (what, v)); },
        }
    };
    fn dd<L, R>(l: L, r: R) -> TensorDoubleDot<L, R> { TensorDoubleDot::new(l, r) }
    put("x:y".into(), dd(x!(), y!()).to_expr(), dot(vx, vy));
    put("(x:y):z".into(), dd(dd(x!(), y!()), z!()).to_expr(), dot(dot(vx, vy), vz));
    put("x:(y:z)".into(), dd(x!(), dd(y!(), z!())).to_expr(), dot(vx, dot(vy, vz)));
    // (operator, its function) around, left and right of the contraction.
    macro_rules! un { ($($O:ident: $f:expr;)*) => { $( {
        let n = stringify!($O);
        put(format!("{n}(x:y)"), $O(dd(x!(), y!())).to_expr(), m1(dot(vx, vy), $f));
        put(format!("{n}(x):y"), dd($O(x!()), y!()).to_expr(), dot(m1(vx, $f), vy));
        put(format!("x:{n}(y)"), dd(x!(), $O(y!())).to_expr(), dot(vx, m1(vy, $f)));
        // Also within a sum and a power.
        put(format!("{n}(x:y)+z"), Add($O(dd(x!(), y!())), z!()).to_expr(), m2(m1(dot(vx, vy), $f), vz, |a, b| a + b));
        put(format!("{n}(x:(y+z))"), $O(dd(x!(), Add(y!(), z!()))).to_expr(), m1(dot(vx, m2(vy, vz, |a, b| a + b)), $f));
        put(format!("x:({n}(y)+z)"), dd(x!(), Add($O(y!()), z!())).to_expr(), dot(vx, m2(m1(vy, $f), vz, |a, b| a + b)));
    } )* } }
    un! {
        Negate: |a| -a; Abs: f64::abs; Double: |a| 2.0 * a; Square: |a| a * a; AddOne: |a| a + 1.0; SubOne: |a| a - 1.0; OneSub: |a| 1.0 - a;
        Exp: f64::exp; Ln: f64::ln; XLnX: |a| a * a.ln();
        Sin: f64::sin; Cos: f64::cos; Tan: f64::tan; Sinh: f64::sinh; Cosh: f64::cosh; Tanh: f64::tanh;
        ArcSin: f64::asin; ArcCos: f64::acos; ArcTan: f64::atan; ArcSinh: f64::asinh; ArcCosh: f64::acosh; ArcTanh: f64::atanh; Sign: f64::signum;
        Sigmoid: |a| 1.0 / (1.0 + (-a).exp());
    }
    macro_rules! bi { ($($O:ident: $f:expr;)*) => { $( {
        let n = stringify!($O);
        put(format!("(x:y) {n} z"), $O(dd(x!(), y!()), z!()).to_expr(), m2(dot(vx, vy), vz, $f));
        put(format!("x:(y {n} z)"), dd(x!(), $O(y!(), z!())).to_expr(), dot(vx, m2(vy, vz, $f)));
        put(format!("x {n} (y:z)"), $O(x!(), dd(y!(), z!())).to_expr(), m2(vx, dot(vy, vz), $f));
        put(format!("(x {n} y):z"), dd($O(x!(), y!()), z!()).to_expr(), dot(m2(vx, vy, $f), vz));
        put(format!("-(x {n} (y:z))"), Negate($O(x!(), dd(y!(), z!()))).to_expr(), m1(m2(vx, dot(vy, vz), $f), |a| -a));
        put(format!("-(x {n} y):z"), dd(Negate($O(x!(), y!())), z!()).to_expr(), dot(m1(m2(vx, vy, $f), |a| -a), vz));
        put(format!("(x:x) {n} (y:z)"), $O(dd(x!(), x!()), dd(y!(), z!())).to_expr(), m2(dot(vx, vx), dot(vy, vz), $f));
        put(format!("(x:(x {n} y)):z"), dd(dd(x!(), $O(x!(), y!())), z!()).to_expr(), dot(dot(vx, m2(vx, vy, $f)), vz));
        put(format!("x:((x {n} y):z)"), dd(x!(), dd($O(x!(), y!()), z!())).to_expr(), dot(vx, dot(m2(vx, vy, $f), vz)));
    } )* } }
    bi! { Add: |a, b| a + b; Sub: |a, b| a - b; Mul: |a, b| a * b; Div: |a, b| a / b; Power: f64::powf; }
    if let Some(m) = misread.iter().min_by_key(|m| m.len()).filter(|m| !m.is_empty()) {
        k.violation("texts of a double contraction that cannot be read back", &m.iter().take(5).cloned().collect::<Vec<_>>().join("\n"));
    }
}
/// The value of a text, for a given rank of the colon.
struct Colon { t: Vec<T>, i: usize, rank: usize, at: [f64; 3], c: f64 }
impl Colon {
    fn read(mut self) -> Option<f64> { let v = self.top()?; if self.i == self.t.len() { Some(v) } else { None } }
    fn eat(&mut self, c: char) -> bool { if self.t.get(self.i) == Some(&T::P(c)) { self.i += 1; true } else { false } }
    fn dots(&mut self, rank: usize, next: fn(&mut Self) -> Option<f64>) -> Option<f64> {
        let mut a = next(self)?;
        while self.rank == rank && self.eat(':') { a = self.c * a * next(self)? }
        Some(a)
    }
    fn top(&mut self) -> Option<f64> { self.dots(0, Self::sum) }
    fn sum(&mut self) -> Option<f64> {
        let mut a = self.product()?;
        loop { if self.eat('+') { a += self.product()? } else if self.eat('-') { a -= self.product()? } else { return Some(a) } }
    }
    fn product(&mut self) -> Option<f64> {
        let mut a = self.tight()?;
        loop {
            if self.eat('∘') { a *= self.tight()? } else if self.eat('/') { a /= self.tight()? }
            else if self.rank == 1 && self.eat(':') { a = self.c * a * self.tight()? }
            else { return Some(a) }
        }
    }
    fn tight(&mut self) -> Option<f64> { self.dots(2, Self::minus) }
    fn minus(&mut self) -> Option<f64> { if self.eat('-') { Some(-self.minus()?) } else { self.power() } }
    fn power(&mut self) -> Option<f64> { let a = self.atom()?; if self.eat('^') { Some(a.powf(self.minus()?)) } else { Some(a) } }
    fn atom(&mut self) -> Option<f64> {
        let t = self.t.get(self.i)?.clone();
        self.i += 1;
        Some(match t {
            T::Num(x) => x,
            T::E => std::f64::consts::E,
            T::P('(') => { let a = self.top()?; if !self.eat(')') { return None } a },
            T::P('|') => { let a = self.top()?; if !self.eat('|') { return None } a.abs() },
            T::Name(n) => match ["x", "y", "z"].iter().position(|m| *m == n) {
                Some(i) => self.at[i],
                None => {
                    if !self.eat('(') { return None }
                    let a = self.top()?;
                    if !self.eat(')') { return None }
                    match &*n {
                        "sgn" => a.signum(), "ln" => a.ln(), "σ" => 1.0 / (1.0 + (-a).exp()), "cos" => a.cos(), "cosh" => a.cosh(), "acos" => a.acos(), "acosh" => a.acosh(),
                        "sin" => a.sin(), "sinh" => a.sinh(), "asin" => a.asin(), "asinh" => a.asinh(), "tan" => a.tan(), "tanh" => a.tanh(), "atan" => a.atan(), "atanh" => a.atanh(),
                        _ => return None,
                    }
                },
            },
            _ => return None,
        })
    }
}
/// Texts of the double contraction of two expressions (brackets of both operands are kept), shown
/// directly and as part of a larger text.
fn aegir_double(a: &AnyDyn, b: &AnyDyn) -> Vec<String> {
    use aegir::fmt::ToExpr;
    macro_rules! go { ($($t:ident)*) => { match (a, b) { $((AnyDyn::$t(x), AnyDyn::$t(y)) => { let c = aegir::ops::TensorDoubleDot::new(x.clone(), y.clone()); let e = c.to_expr().to_string(); if e.contains(" : ") { vec![c.to_string(), e] } else { vec![c.to_string()] } },)* _ => vec![] } } }
    go!(S V2 V3 M22 M23 M32 M33 T3 Vc Tp)
}

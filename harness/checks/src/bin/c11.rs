//! C11: evaluation is pure: same inputs, same bits, and no trace left behind.
use checks::asks::*;
use checks::trees::*;
use checks::*;
use dynx::gen::*;
use dynx::*;
use std::collections::BTreeMap;
use support::*;

struct Subject { node: Node, vlen: usize, originals: Vec<AnyDyn>, seen: BTreeMap<Ask, String> }

/// Several expressions over one context, asked in a random interleaving.
fn session(k: &mut Check, r: &mut Rng, subjects: &mut [Subject], env: &MCtx, steps: usize) -> Option<(usize, String)> {
    let print = env.fingerprint();
    let mut live = env.clone();
    for s in subjects.iter_mut() { s.seen.clear() }
    for step in 0..steps {
        let w = r.below(subjects.len());
        let s = &mut subjects[w];
        let a = any(r);
        // On the original, a clone, a clone of a clone, or a rebuilt copy.
        let how = r.below(5);
        let d = match how { 0 | 1 => s.originals[0].clone(), 2 => s.originals[0].cloned(), 3 => s.originals.last().unwrap().cloned(), _ => build(&s.node, s.vlen) };
        let fresh = r.chance(1, 3);
        let got = if fresh { let mut e = env.clone(); let g = ask(&d, &mut e, a); if e.fingerprint() != print { return Some((w, format!("step {step}: {a:?} modifies the context"))) } g } else { ask(&d, &mut live, a) };
        if r.chance(1, 10) { s.originals.push(d) }
        k.count("observations");
        k.count(["on the original", "on the original", "on a clone", "on a clone", "on a rebuilt copy"][how]);
        if got == "not available" { continue }
        match s.seen.get(&a) {
            None => { s.seen.insert(a, got); },
            Some(old) => {
                k.count("repetitions compared");
                if *old != got { return Some((w, format!("step {step}: {a:?} gave {old}, now {got} ({})", ["original", "original", "clone", "clone of a copy", "rebuilt"][how]))) }
            },
        }
    }
    if live.fingerprint() != print { return Some((0, "the context is modified".into())) }
    None
}
/// Writes a value of every kind.
fn update(r: &mut Rng, e: &mut MCtx, vlen: usize) {
    use aegir::Write;
    let i = r.below(NVAR) as u8;
    let mut d = |n: usize| -> Vec<f64> { (0..n).map(|_| number(r, true)).collect() };
    match d(1)[0].to_bits() % 10 {
        0 => { let x = d(1); e.write(Id::<0>(i), x[0]) }, 1 => { let x = d(2); e.write(Id::<1>(i), Sort::from_data(&x)) }, 2 => { let x = d(3); e.write(Id::<2>(i), Sort::from_data(&x)) },
        3 => { let x = d(4); e.write(Id::<3>(i), Sort::from_data(&x)) }, 4 => { let x = d(6); e.write(Id::<4>(i), Sort::from_data(&x)) }, 5 => { let x = d(6); e.write(Id::<5>(i), Sort::from_data(&x)) },
        6 => { let x = d(9); e.write(Id::<6>(i), Sort::from_data(&x)) }, 7 => { let x = d(12); e.write(Id::<7>(i), Sort::from_data(&x)) }, 8 => { let x = d(vlen); e.write(Id::<8>(i), x) }, _ => { let x = d(2); e.write(Id::<9>(i), Sort::from_data(&x)) },
    }
}

/// Generated contexts: reading does not change them, whatever is evaluated, by value or reference.
mod typed {
    use super::*;
    use aegir::ids::{X, Y, Z};
    use aegir::{ctx_type, ops, Context, Differentiable, Function, Identifier, Node as _};
    ctx_type!(Ctx3 { x: X, y: Y, z: Z });
    pub fn run(k: &mut Check) {
        for i in 0..k.n(200, 3000) {
            let mut r = k.rng("typed", i as u64);
            macro_rules! go { ($F:ident) => {{
                let q = |r: &mut Rng| number(r, true) as $F;
                let (x, y) = (q(&mut r), q(&mut r));
                let z = [q(&mut r), q(&mut r), q(&mut r)];
                let mut c = Ctx3 { x, y, z };
                let (a, b, v) = (X.into_var(), Y.into_var(), Z.into_var());
                macro_rules! e { ($n:expr, $f:expr) => {{
                    let n = $n;
                    let f = $f;
                    let first = f(&n, &mut c);
                    let again = f(&n.clone(), &mut c);
                    let rebuilt = f(&$n, &mut Ctx3 { x, y, z });
                    k.case(&format!("{} {} {x:?} {y:?}", stringify!($F), stringify!($n)), true);
                    k.count("typed comparisons");
                    if first != again || first != rebuilt || c.x.to_bits() != x.to_bits() || c.y.to_bits() != y.to_bits() || c.z.map(|x| x.to_bits()) != z.map(|x| x.to_bits()) {
                        k.violation(&format!("typed {} {}", stringify!($F), stringify!($n)), &format!("{first} {again} {rebuilt}, context {:?}", (c.x, c.y, c.z)));
                    }
                }} }
                macro_rules! s { ($n:expr) => { e!($n, |n: &_, c: &mut Ctx3<$F, $F, [$F; 3]>| { fn go<V: Bx, A: Bx, N: Function<Ctx3<$F, $F, [$F; 3]>, Value = V> + Differentiable<X>>(n: &N, c: &mut Ctx3<$F, $F, [$F; 3]>) -> String where N::Adjoint: Function<Ctx3<$F, $F, [$F; 3]>, Value = A> {
                    format!("{:?} {:?} {:?} {:?}", n.evaluate(&mut *c).ok().map(|b| text(&b)), n.evaluate_spec(&mut *c).ok().map(|b| text(&b.unwrap())), n.evaluate_shape(&mut *c).ok(), n.adjoint(X).evaluate(&mut *c).ok().map(|b| text(&b)))
                } go(n, c) }) } }
                s!(a.add(b)); s!(a.mul(b)); s!(a.div(b)); s!(a.pow(b)); s!(a.sub(b).sigmoid()); s!(ops::Exp(a)); s!(ops::Ln(ops::Square(a))); s!(v.mul(a)); s!(v.add(a)); s!(ops::Sum(a)); s!(aegir::ops::trig::Sin(a));
                s!(ops::special::Gamma(a)); s!(ops::special::LogGamma(a));
            }} }
            go!(f64); go!(f32);
        }
    }
    fn text<B: Bx>(b: &B) -> String { format!("{:?} {:?}", B::sdims(&b.shape()), b.data().iter().map(|x| if x.f().is_nan() { u64::MAX } else { x.f().to_bits() }).collect::<Vec<_>>()) }
}

/// Answers after a history against those of a process that has never evaluated anything. This process stays
/// pristine: everything is evaluated in copies of it.
mod pristine {
    use super::*;
    use checks::table::{table, NUMBERS};
    fn words(b: &[u8]) -> Vec<u64> { b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() }
    fn bytes(w: &[u64]) -> Vec<u8> { w.iter().flat_map(|w| w.to_le_bytes()).collect() }
    pub fn operators(k: &mut Check) {
        let es = table(true);
        let mut fresh = BTreeMap::new();
        let dead = |k: &mut Check, what: String| k.violation("a process that evaluates an operator dies", &what);
        for (i, e) in es.iter().enumerate() { for (j, x) in NUMBERS.iter().enumerate() {
            match forked(|| bytes(&(e.run)(*x))) { Some(b) => { fresh.insert((i, j), words(&b)); }, None => return dead(k, format!("{} at {x}", e.name)) }
            k.count("processes that evaluated one operator at one number");
        } }
        for h in 0..k.n(150, 3000) {
            let mut r = k.rng("operator history", h as u64);
            // Few operators and numbers, so that they follow one another in every order, in both precisions.
            let half = es.len() / 2;
            let ops: Vec<usize> = (0..1 + r.below(6)).flat_map(|_| { let o = r.below(half); [o, o + half] }).collect();
            let xs: Vec<usize> = (0..1 + r.below(3)).flat_map(|_| { let x = r.below(NUMBERS.len()) & !1; [x, x + 1] }).collect();
            let steps: Vec<(usize, usize)> = (0..200).map(|_| (*r.pick(&ops), *r.pick(&xs))).collect();
            let all = h % 10 == 0;
            let steps = if all { (0..400).map(|_| (r.below(es.len()), r.below(NUMBERS.len()))).collect() } else { steps };
            let got = forked(|| steps.iter().flat_map(|(i, j)| { let v = (es[*i].run)(NUMBERS[*j]); let mut w = vec![v.len() as u64]; w.extend(v); bytes(&w) }).collect());
            let Some(got) = got else { return dead(k, format!("{:?}", steps.iter().map(|s| format!("{} at {}", es[s.0].name, NUMBERS[s.1])).collect::<Vec<_>>())) };
            let got = words(&got);
            let mut at = 0;
            k.case(&format!("history {h}: {:?}", &steps[..3.min(steps.len())]), true);
            for (n, s) in steps.iter().enumerate() {
                let len = got[at] as usize;
                let v = &got[at + 1..at + 1 + len];
                at += 1 + len;
                k.count("answers after a history against a fresh process");
                let want = &fresh[s];
                if v != &want[..] {
                    let part = (0..want.len()).find(|p| v.get(*p) != want.get(*p)).unwrap_or(0);
                    let before: Vec<String> = steps[n.saturating_sub(4)..n].iter().map(|s| format!("{} at {}", es[s.0].name, NUMBERS[s.1])).collect();
                    k.violation(&format!("history of the process: {}", es[s.0].name), &format!("at {}, answer {part}: {:x?}\nin a fresh process: {:x?}\nevaluated before: ... {}", NUMBERS[s.1], v, want, before.join(", ")));
                    break
                }
            }
            if k.many() { return }
        }
    }
    /// Numbers close to one another, up to the next one: an answer is that of the number asked about, whatever
    /// was asked about its neighbours.
    pub fn neighbours(k: &mut Check) {
        let es = table(true);
        let near = |x: f64| -> Vec<f64> {
            let mut v = vec![x, f64::from_bits(x.to_bits() + 1), f64::from_bits(x.to_bits() - 1), x * (1.0 + 3e-12), x * (1.0 - 2e-9), x * (1.0 + 3e-8), x * (1.0 + 1e-6), x * (1.0 + 1e-4), x + 0.004, x + 0.3, x + 1.0, -x, 1.0 / x, x + 256.0];
            if (x as f32) as f64 != x { v.push((x as f32) as f64) }
            v
        };
        let mut r = k.rng("neighbours", 0);
        for (i, e) in es.iter().enumerate() {
            for round in 0..k.n(2, 12) {
                if k.many() { return }
                let x = match (i + round) % 4 { 0 => r.range(0.1, 0.9), 1 => r.range(1.0, 4.0), 2 => -r.range(0.1, 0.9), _ => r.range(10.0, 40.0) };
                let xs = near(x);
                // Every one after every other.
                let mut steps: Vec<usize> = (0..xs.len()).flat_map(|a| (0..a).flat_map(move |b| [a, b])).collect();
                if round % 2 == 1 { steps.reverse() }
                let fresh: Vec<_> = xs.iter().map(|x| forked(|| bytes(&(e.run)(*x)))).collect();
                let got = forked(|| steps.iter().flat_map(|j| { let v = (e.run)(xs[*j]); let mut w = vec![v.len() as u64]; w.extend(v); bytes(&w) }).collect());
                let (Some(got), true) = (got, fresh.iter().all(|f| f.is_some())) else { k.violation("a process that evaluates an operator dies", &format!("{} near {x}", e.name)); continue };
                let (got, fresh): (Vec<u64>, Vec<Vec<u64>>) = (words(&got), fresh.into_iter().map(|f| words(&f.unwrap())).collect());
                k.case(&format!("{} near {x:?}", e.name), fresh.iter().any(|f| *f != fresh[0]));
                k.add("numbers that have a close neighbour", xs.len() as u64);
                let mut at = 0;
                for (n, j) in steps.iter().enumerate() {
                    let v = &got[at + 1..at + 1 + got[at] as usize];
                    at += 1 + v.len();
                    k.count("answers after a history against a fresh process");
                    if v != &fresh[*j][..] {
                        let part = (0..v.len()).find(|p| v.get(*p) != fresh[*j].get(*p)).unwrap_or(0);
                        k.violation(&format!("history of the process: {}", e.name), &format!("at {:?}, answer {part}: {:x?}\nin a fresh process: {:x?}\nevaluated before: ... {:?}", xs[*j], v, fresh[*j], steps[n.saturating_sub(4)..n].iter().map(|j| xs[*j]).collect::<Vec<_>>()));
                        break
                    }
                }
            }
        }
    }
    /// The same question very many times over, past the limits of narrow counters.
    pub fn long(k: &mut Check) {
        let n = k.n(70_000, 600_000);
        for e in table(true) {
            let at = [1.25, 0.5];
            for (what, f) in [("value", &e.value), ("lifted value and shape", &e.lifted)] {
                let first = at.map(|x| f(x));
                k.case(&format!("{} {what} {n} times", e.name), true);
                k.add("repetitions in a row", n as u64);
                if let Some(i) = (0..n).find(|i| f(at[i & 1]) != first[i & 1]) {
                    k.violation(&format!("after many repetitions: {}", e.name), &format!("{what} at {}: {:x} at first, then another at repetition {i}", at[i & 1], first[i & 1]));
                }
            }
        }
    }
    /// Random expressions: every question in a process of its own, and all of them in one, in two orders.
    pub fn expressions(k: &mut Check) {
        for i in 0..k.n(150, 3000) {
            if k.many() { return }
            let mut r = k.rng("pristine expression", i as u64);
            let tag = rand_tag(&mut r);
            let depth = 1 + r.below(4);
            let s = Sample::new(&mut r, tag, depth, GenOpt { lifted: i % 2 == 0, domain: i % 3 != 0, order: if tag == Tag::Vc { 0 } else { i % 2 }, ..Default::default() }, i % 3 == 0);
            let asks: Vec<Ask> = (0..8).map(|_| any(&mut r)).collect();
            let d = build(&s.node, s.vlen);
            let one = |q: Ask| forked(|| ask(&d, &mut s.env.clone(), q).into_bytes());
            let many = |order: &[usize]| forked(|| { let mut e = s.env.clone(); let mut v = vec![String::new(); order.len()]; for i in order { v[*i] = ask(&d, &mut e, asks[*i]) } v.join("\u{1}").into_bytes() });
            let (mut there, mut back): (Vec<usize>, Vec<usize>) = ((0..8).collect(), (0..8).rev().collect());
            if i % 2 == 0 { there.rotate_left(r.below(8)); back.swap(0, 3) }
            let runs = [many(&there), many(&back)];
            k.case(&s.key(), true);
            for (n, q) in asks.iter().enumerate() {
                let fresh = one(*q);
                for m in &runs {
                    k.count("answers after a history against a fresh process");
                    let got = m.as_ref().map(|m| String::from_utf8_lossy(m).split('\u{1}').nth(n).unwrap_or("").to_string());
                    let want = fresh.as_ref().map(|f| String::from_utf8_lossy(f).to_string());
                    if got != want { k.violation(&format!("history of the process: {}", s.node.skeleton()), &format!("{}\n{q:?}: {got:?}\nin a fresh process: {want:?}", s.show())) }
                }
            }
        }
    }
}

fn main() {
    drive(Check::new("C11", "sessions of several random expressions over one context, asked for values, lifted values, shapes, text, contents and derivatives in random order on originals, clones and rebuilt copies, and re-asked after histories of updates; every answer is compared bit for bit; non-trivial: at least one variable"), run)
}
fn run(k: &mut Check) {
    pristine::operators(k);
    pristine::neighbours(k);
    pristine::expressions(k);
    pristine::long(k);
    typed::run(k);
    let sessions = k.n(1500, 30_000);
    for i in 0..sessions {
        if k.many() { break }
        let mut r = k.rng("session", i as u64);
        let vlen = r.below(6);
        let mut env = env(&mut r, EnvOpt { lifted: i % 2 == 0, special: i % 3 == 0, vlen });
        let mut subjects = vec![];
        for _ in 0..1 + r.below(4) {
            let tag = rand_tag(&mut r);
            let depth = 1 + r.below(5);
            let domain = r.chance(2, 3);
            let node = Gen { r: &mut r, env: &env, o: GenOpt { lifted: i % 2 == 0, domain, vlen, order: if tag == Tag::Vc { 0 } else { i % 2 }, ..Default::default() } }.tree(tag, depth);
            subjects.push(Subject { originals: vec![build(&node, vlen)], node, vlen, seen: BTreeMap::new() });
        }
        if r.chance(1, 6) { let (a, b) = (r.below(10), r.below(NVAR) as u8); env.clear_slot(a, b) }
        for s in &subjects { k.case(&format!("{} | {}", s.node.show(), show_env(&s.node, &env)), !s.node.vars().is_empty()); }
        // Rounds: a session, then a history of updates; later rounds run on copies with a history.
        for round in 0..3 {
            if let Some((w, why)) = session(k, &mut r, &mut subjects, &env, 24) {
                let n = &subjects[w].node;
                k.violation(&format!("purity: {}", n.skeleton()), &format!("{}\nat {}\nround {round}\n{why}", n.show(), show_env(n, &env)));
                break
            }
            // The context that went through a history equals one built directly with its final values.
            let mut e = env.clone();
            for _ in 0..r.below(8) { update(&mut r, &mut e, vlen); let w = r.below(subjects.len()); let a = any(&mut r); let d = subjects[w].originals[0].clone(); ask(&d, &mut e, a); }
            let direct = rebuilt(&e);
            for s in &subjects {
                let asks: Vec<Ask> = (0..4).map(|_| any(&mut r)).collect();
                for a in asks {
                    let (p, q) = (ask(&s.originals[0], &mut e, a), ask(&build(&s.node, s.vlen), &mut direct.clone(), a));
                    k.count("histories compared");
                    if p != q { k.violation(&format!("history: {}", s.node.skeleton()), &format!("{}\nat {}\n{a:?} after a history: {p}\nin a fresh context: {q}", s.node.show(), show_env(&s.node, &e))) }
                }
            }
            env = e;
        }
    }
    let t = sessions as u64;
    k.need("observations", t * 40); k.need("repetitions compared", t * 15); k.need("histories compared", t * 10);
    for s in ["on the original", "on a clone", "on a rebuilt copy"] { k.need(s, t * 5) }
    k.need("typed comparisons", 1000); k.need("repetitions in a row", 1_000_000); k.need("answers after a history against a fresh process", 10_000); k.need("processes that evaluated one operator at one number", 1000);
}
fn rebuilt(e: &MCtx) -> MCtx {
    let mut n = MCtx::new();
    macro_rules! go { ($($f:ident)*) => { $( for s in &e.$f { n.$f.push(s.as_ref().map(|s| Slot { dense: Sort::from_data(&Sort::data(&s.dense)), spec: s.spec.clone() })) } )* } }
    go!(s v2 v3 m22 m23 m32 m33 t3 vc tp);
    n
}

//! C24: an expression shared by threads gives every one of them what it gives a single thread.
//! The oracle is the answer, bit for bit, of a process with one thread, and the race detector the program
//! runs under (ThreadSanitizer, Miri). Threads meet at barriers; delays are injected at every read.
use aegir::buffers::Spec;
use aegir::ids::{X, Y};
use aegir::meta::{Cached, Constant, Variable};
use aegir::ops::{self, special, trig};
use aegir::{Differentiable, Node as _};
use checks::asks::{any, ask, Ask};
use checks::table::{table, Entry, NUMBERS};
use checks::trees::*;
use dynx::gen::*;
use dynx::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Barrier;
use support::*;

const SMALL: bool = cfg!(miri);
const THREADS: usize = if SMALL { 3 } else { 8 };

// ------------------------------------------------------------------ which types may be shared
struct P<T>(PhantomData<T>);
trait Yes { fn shared(&self) -> bool; }
trait No { fn shared(&self) -> bool; }
impl<T: Send + Sync> Yes for P<T> { fn shared(&self) -> bool { true } }
impl<T> No for &P<T> { fn shared(&self) -> bool { false } }
macro_rules! probe { ($k:ident; $($e:expr),* $(,)?) => { $( {
    // The type of the expression, and whether the compiler lets it be shared.
    let e = $e;
    let yes = { macro_rules! of { ($v:expr) => { (&as_p(&$v)).shared() } } of!(e) };
    $k.count("types probed");
    $k.case(concat!("probe ", stringify!($e)), true);
    if !yes { $k.violation(concat!("cannot be shared between threads: ", stringify!($e)), std::any::type_name_of_val(&e)) }
} )* } }
fn as_p<T>(_: &T) -> P<T> { P(PhantomData) }

#[allow(noop_method_call)]
fn probes(k: &mut Check) {
    let (x, y) = (Variable(X), Variable(Y));
    let c = Constant(2.0f64);
    use aegir::buffers::shapes::{S1, S2};
    probe! { k; x, y, c, Constant([1.0f64; 3]), Constant(vec![1.0f32]), Constant((1.0f64, 2.0f64)), Constant(Spec::<[f64; 2]>::Full(S1, 1.0)), Constant(Spec::<[[f64; 2]; 2]>::Diagonal(S2, 1.0)),
        x.adjoint(X), x.adjoint(Y), Constant([1.0f64; 3]).adjoint(X), Cached { node: ops::Exp(x), ident: Y }, Cached { node: ops::Exp(x), ident: Y }.adjoint(X), x.cached(Y),
        ops::Add(x, y), ops::Sub(x, y), ops::Mul(x, y), ops::Div(x, y), ops::Power(x, y), x.dot(y), ops::TensorProduct::new(x, y), ops::Contract::<2, _, _>(x, y), ops::Sum(x),
        ops::Add(x, y).adjoint(X), ops::Sub(x, y).adjoint(X), ops::Mul(x, y).adjoint(X), ops::Div(x, y).adjoint(X), ops::Power(x, y).adjoint(X), x.dot(y).adjoint(X), ops::Sum(x).adjoint(X),
        ops::SubOne(x), ops::OneSub(x), ops::AddOne(x), ops::Square(x), ops::Double(x), ops::Negate(x), ops::Dirac(x), ops::Sign(x), ops::Abs(x), ops::Ln(x), ops::XLnX(x), ops::Exp(x),
        ops::Rabbit(x), ops::Sigmoid(x), special::Gamma(x), special::DiGamma(x), special::LogGamma(x), special::Factorial::factorial(x), special::Erf(x), special::Erfc::erfc(x),
        trig::Cos(x), trig::Cosh(x), trig::ArcCos(x), trig::ArcCosh(x), trig::Sin(x), trig::Sinh(x), trig::ArcSin(x), trig::ArcSinh(x), trig::Tan(x), trig::Tanh(x), trig::ArcTan(x), trig::ArcTanh(x),
        ops::SubOne(x).adjoint(X), ops::OneSub(x).adjoint(X), ops::AddOne(x).adjoint(X), ops::Square(x).adjoint(X), ops::Double(x).adjoint(X), ops::Negate(x).adjoint(X), ops::Abs(x).adjoint(X), ops::Sign(x).adjoint(X),
        ops::Ln(x).adjoint(X), ops::XLnX(x).adjoint(X), ops::Exp(x).adjoint(X), ops::Rabbit(x).adjoint(X), ops::Sigmoid(x).adjoint(X), special::Gamma(x).adjoint(X), special::LogGamma(x).adjoint(X),
        trig::Cos(x).adjoint(X), trig::Sin(x).adjoint(X), ops::Sigmoid(ops::Ln(ops::Add(ops::Mul(x, y), c))).adjoint(X).adjoint(Y), aegir::aegir!(x * y - 1.0),
        aegir::Dual { value: 1.0f64, adjoint: [1.0f64; 2] }, Spec::<[f64; 2]>::Full(S1, 1.0),
    }
    k.need("types probed", 80);
}

// ------------------------------------------------------------------ together
static ACTIVE: AtomicBool = AtomicBool::new(false);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicUsize = AtomicUsize::new(usize::MAX);
static WHAT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// Ends the process if the threads stop making progress.
fn watch(limit: u64) {
    std::thread::spawn(move || {
        let (mut last, mut still) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Relaxed);
            if p != last || !ACTIVE.load(Relaxed) { last = p; still = 0; continue }
            still += 1;
            if still > limit { alarm("C24", "threads that evaluate a shared expression do not finish", &format!("no progress for {limit} s while evaluating {}", WHAT.lock().map(|w| w.clone()).unwrap_or_default())) }
        }
    });
}
/// Runs `f` in every thread at once; also gives how often another thread got in between.
fn together<R: Send>(what: &str, f: impl Fn(usize) -> R + Sync) -> Vec<R> {
    *WHAT.lock().unwrap_or_else(|e| e.into_inner()) = what.to_string();
    let gate = Barrier::new(THREADS);
    ACTIVE.store(true, Relaxed);
    let r = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS).map(|t| { let (f, gate) = (&f, &gate); std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, move || { gate.wait(); guarded(|| f(t)) }).expect("thread") }).collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    ACTIVE.store(false, Relaxed);
    r.into_iter().map(|r| match r { Ok(Ok(v)) => v, Ok(Err(e)) => panic!("a thread panicked: {what}: {e}"), Err(_) => panic!("a thread panicked: {what}") }).collect()
}
fn step(t: usize) -> u64 { PROGRESS.fetch_add(1, Relaxed); (LAST.swap(t, Relaxed) != t) as u64 }

// ------------------------------------------------------------------ every operator, in tight loops
type Base = BTreeMap<(usize, usize), Vec<u64>>;
/// What a process with a single thread answers.
fn base_of(es: &[Entry]) -> Base {
    let mut b = Base::new();
    for (i, e) in es.iter().enumerate() { for (j, x) in NUMBERS.iter().enumerate() { b.insert((i, j), (e.run)(*x)); } }
    b
}
fn child(es: &[Entry]) -> Option<Base> {
    if SMALL { return None }
    let o = std::process::Command::new(std::env::current_exe().ok()?).env("VERIF_C24", "base").output().ok()?;
    if !o.status.success() { return None }
    let mut b = Base::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let mut w = l.split(' ');
        if w.next() != Some("base") { continue }
        let mut n = || w.next().and_then(|s| s.parse::<u64>().ok());
        let (i, j) = (n()? as usize, n()? as usize);
        let mut v = vec![];
        while let Some(x) = n() { v.push(x) }
        b.insert((i, j), v);
    }
    (b.len() == es.len() * NUMBERS.len()).then_some(b)
}
const PARTS: [&str; 9] = ["value", "lifted value", "array value", "vector value", "shape", "text", "derivative", "value with derivative", "derivative text"];
/// Every distinct answer of every thread.
type Seen = BTreeMap<(usize, usize), Vec<Vec<u64>>>;
fn note(s: &mut Seen, key: (usize, usize), a: Vec<u64>) {
    let v = s.entry(key).or_default();
    if v.len() < 4 && !v.contains(&a) { v.push(a) }
}
fn judge(k: &mut Check, es: &[Entry], base: &Base, seen: Vec<(Seen, u64, u64)>, mixed: bool) {
    for (t, (s, switches, steps)) in seen.into_iter().enumerate() {
        k.add("evaluations while another thread was the last to evaluate", switches);
        k.add("evaluations in tight loops", steps);
        for ((i, j), answers) in s {
            k.case(&format!("{} at {}, {}", es[i].name, NUMBERS[j], if mixed { "among others" } else { "alone" }), true);
            let want = &base[&(i, j)];
            for a in answers {
                if a != *want {
                    let which: Vec<&str> = (0..want.len()).filter(|p| a.get(*p) != want.get(*p)).map(|p| PARTS.get(p).copied().unwrap_or("answer")).collect();
                    k.violation(&format!("{}: {} in one of several threads", es[i].name, which.first().unwrap_or(&"")), &format!("at {}, thread {t}: {a:x?}\nwith a single thread: {want:x?}\ndiffering: {which:?}", NUMBERS[j]));
                }
            }
        }
    }
}
fn operators(k: &mut Check) {
    let es = table(!SMALL);
    let before = child(&es);
    if !SMALL && before.is_none() { return k.inconclusive("no process with a single thread to compare with") }
    let mut pending = vec![];
    let loops = k.n(if SMALL { 2 } else { 4000 }, if SMALL { 6 } else { 60_000 });
    // Each operator alone: the first evaluations in this process are concurrent ones.
    for (i, e) in es.iter().enumerate() {
        if SMALL && i % 3 != k.seed as usize % 3 { continue }
        let seed = k.rng("alone", i as u64).next();
        let seen = together(&e.name, |t| {
            let mut r = Rng::stream(seed, "alone", t as u64);
            let mine: Vec<usize> = (0..3).map(|_| r.below(NUMBERS.len())).collect();
            let (mut s, mut switches) = (Seen::new(), 0);
            for n in 0..loops {
                let j = if n == 0 { t % NUMBERS.len() } else { mine[n % 3] };
                let a = (e.run)(NUMBERS[j]);
                switches += step(t);
                note(&mut s, (i, j), a);
            }
            (s, switches, loops as u64)
        });
        match &before { Some(b) => judge(k, &es, b, seen, false), None => pending.push(seen) }
        if k.many() { return }
    }
    // All at once: operators that share anything disturb one another.
    let mut rounds = k.n(if SMALL { 1 } else { 6 }, if SMALL { 3 } else { 60 });
    while rounds > 0 {
        rounds -= 1;
        let seed = k.rng("mixed", rounds as u64).next();
        // Few operators at a time, so that they meet.
        let few: Vec<usize> = { let mut r = Rng::stream(seed, "few", 0); if rounds % 3 == 0 { (0..es.len()).collect() } else { let n = 2 + r.below(6); (0..n).map(|_| r.below(es.len())).collect() } };
        let natives: Vec<usize> = es.iter().enumerate().filter(|(_, e)| e.native).map(|(i, _)| i).collect();
        let few = if rounds % 3 == 1 && !natives.is_empty() { natives } else { few };
        let n = if SMALL { 12 } else { loops * 10 };
        let seen = together("many operators", |t| {
            let mut r = Rng::stream(seed, "mixed", t as u64 + 1);
            let (mut s, mut switches) = (Seen::new(), 0);
            for _ in 0..n {
                let key = (*r.pick(&few), r.below(NUMBERS.len()));
                let a = (es[key.0].run)(NUMBERS[key.1]);
                switches += step(t);
                note(&mut s, key, a);
            }
            (s, switches, n as u64)
        });
        match &before { Some(b) => judge(k, &es, b, seen, true), None => pending.push(seen) }
        if k.many() { return }
    }
    if let None = before { let b = base_of(&es); for s in pending { judge(k, &es, &b, s, true) } }
    if !SMALL { k.need("evaluations while another thread was the last to evaluate", 1000) }
}

// ------------------------------------------------------------------ whole expressions
fn expressions(k: &mut Check) {
    let rounds = k.n(if SMALL { 4 } else { 500 }, if SMALL { 12 } else { 8000 });
    let mut orders = std::collections::HashSet::new();
    for i in 0..rounds {
        if k.many() { break }
        let mut r = k.rng("expression", i as u64);
        let o = GenOpt { lifted: i % 2 == 0, domain: false, order: i % 2, caches: i % 3 == 0, vdiff: i % 5 == 0, ..Default::default() };
        let tag = if o.vdiff { *r.pick(&[Tag::S, Tag::V3]) } else if o.caches && i % 2 == 1 { *r.pick(&[Tag::S, Tag::V3]) } else { rand_tag(&mut r) };
        let o = if tag == Tag::Vc { GenOpt { order: 0, ..o } } else { o };
        let depth = 2 + r.below(if SMALL { 2 } else { 4 });
        let s = Sample::new(&mut r, tag, depth, o, i % 4 == 0);
        if SMALL && s.node.any(&|n| matches!(n.k, K::Un(U::Gamma | U::DiGamma | U::LogGamma | U::Factorial | U::Erf | U::Erfc, _))) { k.count("skipped: native code"); continue }
        let d = build(&s.node, s.vlen);
        // Every thread has its own context and its own questions; some threads have equal contexts.
        let jobs: Vec<(MCtx, Vec<Ask>)> = (0..THREADS).map(|t| {
            let e = if t % 3 == 0 { s.env.clone() } else { env(&mut r, EnvOpt { lifted: o.lifted, special: i % 4 == 0, vlen: s.vlen }) };
            (e, (0..if SMALL { 3 } else { 12 }).map(|_| any(&mut r)).collect())
        }).collect();
        let alone = || jobs.iter().map(|(e, q)| { let mut e = e.clone(); let a: Vec<String> = q.iter().map(|q| ask(&d, &mut e, *q)).collect(); (a, e.fingerprint()) }).collect::<Vec<_>>();
        let before = (i % 2 == 0).then(alone);
        let repeats = if SMALL { 1 } else { 4 };
        for rep in 0..repeats {
            let seed = r.next();
            let share = rep % 2 == 0;
            let starts: Vec<std::sync::Mutex<MCtx>> = jobs.iter().map(|j| std::sync::Mutex::new(j.0.clone())).collect();
            let questions: Vec<&Vec<Ask>> = jobs.iter().map(|j| &j.1).collect();
            let got = together(&s.node.show(), |t| {
                let mut e = std::mem::take(&mut *starts[t].lock().unwrap());
                e.jitter = Some(Box::new(Jitter::new(Rng::stream(seed, "jitter", t as u64).next(), 400)));
                let mine;
                let d = if share { &d } else { mine = d.cloned(); &mine };
                let a: Vec<String> = questions[t].iter().map(|q| { let a = ask(d, &mut e, *q); step(t); a }).collect();
                let f = e.fingerprint();
                let stamps = e.jitter.take().unwrap().stamps.take();
                (a, f, stamps)
            });
            let mut order: Vec<(u32, u8)> = got.iter().enumerate().flat_map(|(t, g)| g.2.iter().map(move |s| (*s, t as u8))).collect();
            order.sort();
            let line: Vec<u8> = order.iter().map(|o| o.1).collect();
            k.add("accesses with an injected delay point", line.len() as u64);
            k.add("alternations between threads", line.windows(2).filter(|w| w[0] != w[1]).count() as u64);
            orders.insert(format!("{i} {line:?}"));
            let reference;
            let want = match &before { Some(b) => b, None => { reference = alone(); &reference } };
            for t in 0..THREADS {
                for (n, q) in jobs[t].1.iter().enumerate() {
                    k.count("answers compared");
                    if got[t].0[n] != want[t].0[n] {
                        k.violation(&format!("concurrent: {}", s.node.skeleton()), &format!("{}\nthread {t}, question {n} {q:?}: {}\nwith a single thread: {}\nits context: {}", s.node.show(), got[t].0[n], want[t].0[n], show_env(&s.node, &jobs[t].0)));
                    }
                }
                if got[t].1 != want[t].1 { k.violation(&format!("concurrent, context afterwards: {}", s.node.skeleton()), &format!("{}\nthread {t}\nafterwards: {}\nwith a single thread: {}", s.node.show(), got[t].1, want[t].1)) }
            }
            if s.node.has_cache() { k.count("rounds with caches") }
        }
        k.case(&s.key(), true);
    }
    k.add("distinct orders of accesses", orders.len() as u64);
    if !SMALL { k.need("answers compared", rounds as u64 * 20); k.need("rounds with caches", rounds as u64 / 10); k.need("distinct orders of accesses", rounds as u64) }
}

fn main() {
    if std::env::var("VERIF_C24").as_deref() == Ok("base") {
        // The native functions print on standard output: ours are told apart by their first word.
        for ((i, j), v) in base_of(&table(!SMALL)) { println!("\nbase {i} {j}{}", v.iter().map(|x| format!(" {x}")).collect::<String>()) }
        return
    }
    let sections = std::env::var("VERIF_SECTIONS").unwrap_or_else(|_| "probes,operators,expressions".into());
    if sections == "none" { return }
    let code = drive_code(Check::new("C24", "an operator at a number in several threads at once, or an expression shared by threads with contexts of their own; distinct by operator, number and company, or by expression and context"), |k| {
        if !SMALL { watch(std::env::var("VERIF_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(90)) }
        for s in sections.split(',') { match s { "probes" => probes(k), "operators" => operators(k), "expressions" => expressions(k), s => panic!("no section {s}") } }
        k.add("threads", THREADS as u64);
    });
    std::process::exit(code)
}

//! C12: construction and element access agree on every index.
use aegir::buffers::shapes::Shape;
use aegir::buffers::{Class, ClassOf, Spec};
use checks::*;
use std::cell::RefCell;
use support::{drive, guarded, Check, Rng};

type Cl<B> = ClassOf<B>;

fn show<P: std::fmt::Debug>(what: &str, ty: &str, got: &[P], want: &[P]) -> String {
    format!("{what} of {ty}\n  got  {got:?}\n  want {want:?}")
}

fn expect<B: Bx>(k: &mut Check, n: usize, what: &str, got: Result<B, String>, want: &[B::P]) {
    let ty = B::name(n);
    k.case(&format!("{what} {ty} {want:?}"), !want.is_empty());
    k.count("constructions");
    match got {
        Err(p) => k.violation(&format!("{what} panics"), &format!("{what} of {ty}: {p}")),
        Ok(b) => {
            if !b.data().as_slice().same(want) { k.violation(&format!("{what} stores the wrong elements"), &show(what, &ty, &b.data(), want)) }
            if B::sdims(&b.shape()) != B::dims(n) {
                k.violation(&format!("{what}: wrong shape"), &format!("{what} of {ty}: shape {:?}", b.shape()));
            }
            access(k, n, &b, want);
        },
    }
}

/// Every index inside and indices just outside on every axis.
fn access<B: Bx>(k: &mut Check, n: usize, b: &B, want: &[B::P]) {
    let (d, ty) = (B::dims(n), B::name(n));
    for (p, ix) in indices(&d).iter().enumerate() {
        k.count("elements read");
        match guarded(|| (b.get(B::ix(ix)), b.get_unchecked(B::ix(ix)))) {
            Ok((Some(x), y)) if x.same(&want[p]) && y.same(&want[p]) => {},
            other => k.violation("element access inside the shape", &format!("{ty} at {ix:?}: {other:?}, want {:?}", want[p])),
        }
    }
    let mut outside = vec![];
    for a in 0..d.len() {
        for v in [d[a], d[a] + 1, d[a] * 2 + 7, usize::MAX] {
            for fill in 0..2 {
                let mut ix: Vec<usize> = d.iter().map(|d| if fill == 0 { 0 } else { d.saturating_sub(1) }).collect();
                ix[a] = v;
                outside.push(ix);
            }
        }
    }
    for ix in outside {
        k.count("elements refused");
        match guarded(|| b.get(B::ix(&ix))) {
            Ok(None) => {},
            other => k.violation("element access outside the shape", &format!("{ty} at {ix:?}: {other:?}, want None")),
        }
    }
}

fn one<B: Bx>(k: &mut Check, r: &mut Rng, n: usize) {
    let d = B::dims(n);
    let sh = || B::sh(n);
    let (_, vals) = random::<B>(r, n);
    let x = if r.chance(1, 4) { B::P::int(0) } else { B::P::any(r) };
    let z = B::P::int(0);
    let at = |i| vals[row_major(&d, &B::unix(i))];

    expect::<B>(k, n, "build", guarded(|| Cl::<B>::build(sh(), at)), &vals);
    expect::<B>(k, n, "full", guarded(|| Cl::<B>::full(sh(), x)), &vec![x; vals.len()]);
    expect::<B>(k, n, "zeroes", guarded(|| Cl::<B>::zeroes::<B::P>(sh())), &vec![z; vals.len()]);
    expect::<B>(k, n, "ones", guarded(|| Cl::<B>::ones::<B::P>(sh())), &vec![B::P::int(1); vals.len()]);
    let diag = |x| indices(&d).iter().map(|i| if diagonal(i) { x } else { z }).collect::<Vec<_>>();
    expect::<B>(k, n, "diagonal", guarded(|| Cl::<B>::diagonal(sh(), x)), &diag(x));
    expect::<B>(k, n, "identity", guarded(|| Cl::<B>::identity::<B::P>(sh())), &diag(B::P::int(1)));

    // Subsets: empty, full, random in random order, with repetitions.
    let all = indices(&d);
    let mut sub: Vec<Vec<usize>> = match r.below(5) {
        0 => vec![],
        1 => all.clone(),
        2 => all.iter().filter(|i| diagonal(i)).cloned().collect(),
        _ => all.iter().filter(|_| r.chance(1, 2)).cloned().collect(),
    };
    if r.chance(2, 3) { for i in (1..sub.len()).rev() { let j = r.below(i + 1); sub.swap(i, j); } }
    if !sub.is_empty() && r.chance(1, 2) {
        // One index again at the end, or so many repetitions that the list outgrows the buffer.
        let long = r.chance(1, 2);
        for _ in 0..if long { 1 + r.below(2 * all.len()) } else { 1 } {
            let (again, at) = (r.pick(&sub).clone(), if long { r.below(sub.len() + 1) } else { sub.len() });
            sub.insert(at, again);
        }
        k.count("subsets with a repetition");
        if sub.len() > all.len() { k.count("subsets longer than the buffer"); }
    }
    let want: Vec<_> = all.iter().enumerate().map(|(p, i)| if sub.contains(i) { vals[p] } else { x }).collect();
    let asked = RefCell::new(vec![]);
    let got = guarded(|| Cl::<B>::build_subset(sh(), x, sub.iter().map(|i| B::ix(i)), |i| { asked.borrow_mut().push(B::unix(i)); at(i) }));
    expect::<B>(k, n, "build_subset", got, &want);
    if let Some(i) = asked.borrow().iter().find(|i| !sub.contains(i)) {
        k.violation("build_subset asks for an index outside the subset", &format!("{} subset {sub:?} asked {i:?}", B::name(n)));
    }
    // A subset given by the library's own enumeration.
    let want: Vec<_> = all.iter().enumerate().map(|(p, i)| if diagonal(i) { vals[p] } else { x }).collect();
    let got = guarded(|| Cl::<B>::build_subset(sh(), x, sh().indices().filter(|i| diagonal(&B::unix(*i))), at));
    expect::<B>(k, n, "build_subset by enumeration", got, &want);

    // Buffers made elsewhere, constants and lifted values of them.
    expect::<B>(k, n, "itself", Ok(B::mkn(n, &vals)), &vals);
    expect::<B>(k, n, "into_constant", guarded(|| B::mkn(n, &vals).into_constant().0), &vals);
    expect::<B>(k, n, "clone", guarded(|| B::mkn(n, &vals).clone()), &vals);
    expect::<B>(k, n, "lifted full", guarded(|| Spec::<B>::Full(sh(), x).unwrap()), &vec![x; vals.len()]);
    expect::<B>(k, n, "lifted diagonal", guarded(|| Spec::<B>::Diagonal(sh(), x).unwrap()), &diag(x));
}

macro_rules! field { ($k:ident, $t:ident, $($F:ty)+) => { $( for_buffers!($F, |T, n| {
    let mut r = $k.rng(&T::name(n), $t as u64);
    one::<T>($k, &mut r, n);
    $k.count("buffers");
}); )+ } }

fn run(k: &mut Check) {
    for t in 0..k.n(40, 2000) {
        if k.many() { break }
        wild(t % 3 == 1);
        if t % 3 == 1 { k.count("rounds with extreme values"); }
        field!(k, t, f64 i32 u8);
        if t % 4 < 2 { field!(k, t, f32 i64); }
        if t % 8 == 0 { field!(k, t, i8 i16 isize u16 u32 u64 usize); }
    }
    wild(false);
    large(k);
    k.need("constructions", 20_000);
    k.need("elements read", 100_000);
    k.need("elements refused", 20_000);
    k.need("subsets with a repetition", 100);
    k.need("subsets longer than the buffer", 100);
    k.need_distinct(2000);
}

/// Sizes beyond what is convenient to write down elsewhere.
fn large(k: &mut Check) {
    for t in 0..k.n(2, 20) {
        let mut r = k.rng("large", t as u64);
        one::<Vec<f64>>(k, &mut r, 1000 + t);
        one::<Vec<u16>>(k, &mut r, 4097 + t);
        one::<Vec<i64>>(k, &mut r, 5003 + 997 * t);
        one::<Vec<f64>>(k, &mut r, 65_537 + t);
        one::<[i32; 1024]>(k, &mut r, 0);
        one::<[[f64; 33]; 17]>(k, &mut r, 0);
        one::<[[[i64; 9]; 10]; 11]>(k, &mut r, 0);
        one::<[[[[i16; 5]; 6]; 7]; 8]>(k, &mut r, 0);
        one::<[[[[[f32; 3]; 4]; 5]; 6]; 2]>(k, &mut r, 0);
    }
}

fn main() {
    drive(Check::new("C12", "one construction of one buffer type and shape with generated elements, read back at every index; non-trivial if it has an element; distinct by constructor, type and elements"), run)
}

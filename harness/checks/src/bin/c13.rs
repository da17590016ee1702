//! C13: elementwise transforms and folds visit each element exactly once, in order.
use aegir::buffers::{Buffer, Scalar};
use checks::*;
use std::cell::RefCell;
use support::{drive, guarded, Check, Rng};

fn sorted<P: Prim>(v: &[P]) -> Vec<P> { let mut v = v.to_vec(); v.sort_by_key(|x| x.key()); v }

/// Elements of a buffer that is only known by its shape.
fn read<O: Buffer<Field = A, Shape = B::Shape>, A: Scalar, B: Bx>(o: &O, d: &[usize]) -> (Vec<usize>, Vec<A>) {
    (B::sdims(&o.shape()), indices(d).iter().map(|i| o.get(B::ix(i)).expect("an index inside the shape")).collect())
}

fn compare<A: Same + std::fmt::Debug>(k: &mut Check, what: &str, ty: &str, d: &[usize], got: Result<(Vec<usize>, Vec<A>), String>, want: &[A]) {
    k.count("results");
    k.case(&format!("{what} {ty} {want:?}"), !want.is_empty());
    match got {
        Ok((gd, g)) if gd == d && g.as_slice().same(want) => {},
        other => k.violation(&format!("{what}: wrong result"), &format!("{what} of {ty}\n  got  {other:?}\n  want {d:?} {want:?}")),
    }
}
fn visits<P: Prim>(k: &mut Check, what: &str, ty: &str, log: &RefCell<Vec<P>>, data: &[P], ordered: bool) {
    let log = log.take();
    k.add("function calls observed", log.len() as u64);
    if !sorted(&log).same(&sorted(data)) { k.violation(&format!("{what}: elements not visited exactly once"), &format!("{what} of {ty}\n  visited {log:?}\n  data    {data:?}")) }
    else if ordered && !log.as_slice().same(data) { k.violation(&format!("{what}: elements visited out of order"), &format!("{what} of {ty}\n  visited {log:?}\n  data    {data:?}")) }
}

fn one<B: Bx>(k: &mut Check, r: &mut Rng, n: usize) {
    let (d, ty) = (B::dims(n), B::name(n));
    let c = card(&d);
    let data: Vec<B::P> = if r.chance(1, 2) {
        // Distinct elements (as far as the field reaches) in a random order.
        let mut v: Vec<_> = (0..c).map(|i| B::P::int((i % 120) as i64)).collect();
        for i in (1..c).rev() { let j = r.below(i + 1); v.swap(i, j); }
        v
    } else { random::<B>(r, n).1 };
    let b = B::mkn(n, &data);
    let log = RefCell::new(vec![]);

    // Into another field.
    let f = |x: B::P| { log.borrow_mut().push(x); x.f() * 3.0 + 0.5 };
    let want: Vec<f64> = data.iter().map(|x| x.f() * 3.0 + 0.5).collect();
    let got = guarded(|| read::<_, _, B>(&b.clone().map(f), &d));
    compare(k, "map", &ty, &d, got, &want);
    visits(k, "map", &ty, &log, &data, false);
    let got = guarded(|| read::<_, _, B>(&b.map_ref(f), &d));
    compare(k, "map_ref", &ty, &d, got, &want);
    visits(k, "map_ref", &ty, &log, &data, false);
    let g = |x: B::P| { log.borrow_mut().push(x); if x == B::P::int(3) { 7u8 } else { 1 } };
    let want: Vec<u8> = data.iter().map(|x| if *x == B::P::int(3) { 7 } else { 1 }).collect();
    let got = guarded(|| read::<_, _, B>(&b.clone().map(g), &d));
    compare(k, "map to u8", &ty, &d, got, &want);
    visits(k, "map to u8", &ty, &log, &data, false);

    // Within the field: the three agree.
    let (p, q) = (B::P::any(r), B::P::int(r.int(0, 1)));
    let h = |x: B::P| if x == p { B::P::int(2) } else if x == B::P::int(0) { p } else if is_wild() { x } else { x * q + B::P::int(1) };
    let hl = |x: B::P| { log.borrow_mut().push(x); h(x) };
    let want: Vec<B::P> = data.iter().map(|x| h(*x)).collect();
    let got = guarded(|| read::<_, _, B>(&b.clone().map(hl), &d));
    compare(k, "map in the field", &ty, &d, got, &want);
    visits(k, "map in the field", &ty, &log, &data, false);
    let got = guarded(|| read::<_, _, B>(&b.map_ref(hl), &d));
    compare(k, "map_ref in the field", &ty, &d, got, &want);
    visits(k, "map_ref in the field", &ty, &log, &data, false);
    let got = guarded(|| { let mut m = b.clone(); m.mutate(hl); (B::sdims(&m.shape()), m.data()) });
    compare(k, "mutate", &ty, &d, got, &want);
    visits(k, "mutate", &ty, &log, &data, false);
    // A function that depends on the history of its calls: the result is that of some visiting order,
    // each value at exactly one index.
    let calls = std::cell::Cell::new(0i64);
    if c <= 100 {
        let got = guarded(|| { let mut m = b.clone(); m.mutate(|_| { calls.set(calls.get() + 1); B::P::int(calls.get()) }); m.data() });
        let count: Vec<B::P> = (1..=c as i64).map(B::P::int).collect();
        if !matches!(&got, Ok(g) if sorted(g).same(&count)) { k.violation("mutate: results of calls lost or repeated", &format!("{ty}: {got:?}")) }
    }

    // Folds.
    let start = vec![B::P::int(5), B::P::int(6)];
    let got = guarded(|| b.fold(start.clone(), |mut a: Vec<B::P>, x| { log.borrow_mut().push(x); a.push(x); a }));
    let want: Vec<B::P> = start.iter().chain(&data).copied().collect();
    compare(k, "fold into a list", &ty, &d, got.map(|g| (d.clone(), g)), &want);
    visits(k, "fold", &ty, &log, &data, true);
    let s = r.range(-2.0, 2.0);
    let got = guarded(|| b.fold(s, |a: f64, x| a * 0.75 - x.f()));
    compare(k, "fold", &ty, &d, got.map(|g| (d.clone(), vec![g])), &[data.iter().fold(s, |a, x| a * 0.75 - x.f())]);

    // Sums that fit every field.
    let data = sparse::<B>(r, n);
    let total = data.iter().fold(0.0, |a, x| a + x.f());
    let got = guarded(|| B::mkn(n, &data).sum().f());
    compare(k, "sum", &ty, &d, got.map(|g| (d.clone(), vec![g])), &[total]);
    // The receiver of by-reference operations is untouched.
    let got = guarded(|| { let b = B::mkn(n, &data); let _ = b.map_ref(|_| 0.0f64); let _ = b.fold(0, |a, _| a + 1); let _ = b.sum(); (B::sdims(&b.shape()), b.data()) });
    compare(k, "operand after map_ref, fold and sum", &ty, &d, got, &data);
    let got = guarded(|| B::mkn(n, &data).fold(0usize, |a, _| a + 1));
    compare(k, "count by folding", &ty, &d, got.map(|g| (d.clone(), vec![g])), &[c]);
}

macro_rules! field { ($k:ident, $t:ident, $($F:ty)+) => { $( for_buffers!($F, |T, n| {
    let mut r = $k.rng(&T::name(n), $t as u64);
    one::<T>($k, &mut r, n);
}); )+ } }

fn floats(k: &mut Check) {
    // Rounding: the sum of many floats is near the true total in every buffer.
    for t in 0..k.n(40, 1000) {
        let mut r = k.rng("floats", t as u64);
        let v: Vec<f64> = (0..48).map(|_| r.range(-1.0, 1.0) * 10f64.powi(r.int(-3, 6) as i32)).collect();
        let exact: f64 = v.iter().sum();
        let scale: f64 = v.iter().map(|x| x.abs()).sum();
        let sums = [v.sum(), <[f64; 48]>::mk(&v).sum(), <[[f64; 8]; 6]>::mk(&v).sum(), <[[[f64; 4]; 2]; 6]>::mk(&v).sum(),
            <[[[[f64; 2]; 2]; 3]; 4]>::mk(&v).sum(), <[[[[[f64; 2]; 2]; 2]; 2]; 3]>::mk(&v).sum()];
        k.case(&format!("float sums {v:?}"), true);
        k.count("float sums");
        for s in sums { if !((s - exact).abs() <= 1e-12 * scale) { k.violation("sum: wrong total of floats", &format!("{v:?}: {s} against {exact}")) } }
        let mut m = v.clone();
        m[r.below(48)] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let want = m.iter().fold(0.0, |a, x| a + x);
        for s in [m.sum(), <[[f64; 8]; 6]>::mk(&m).sum(), <[f64; 48]>::mk(&m).sum()] {
            if s.to_bits() != want.to_bits() && !(s.is_nan() && want.is_nan()) { k.violation("sum: wrong total with a special value", &format!("{m:?}: {s} against {want}")) }
        }
    }
}

fn run(k: &mut Check) {
    for t in 0..k.n(40, 2500) {
        if k.many() { break }
        wild(t % 3 == 1);
        if t % 3 == 1 { k.count("rounds with extreme values"); }
        field!(k, t, f64 i32 u8);
        if t % 4 < 2 { field!(k, t, f32 i64); }
        if t % 8 == 0 { field!(k, t, i8 i16 isize u16 u32 u64 usize); }
    }
    wild(false);
    for t in 0..k.n(3, 40) {
        let mut r = k.rng("large", t as u64);
        one::<Vec<f64>>(k, &mut r, 1000 + t);
        one::<Vec<i64>>(k, &mut r, 5003 + 997 * t);
        one::<Vec<f64>>(k, &mut r, 65_537 + t);
        if t == 0 { one::<Vec<u8>>(k, &mut r, 200_003); one::<Vec<f64>>(k, &mut r, 1_048_577); }
        one::<[i32; 513]>(k, &mut r, 0);
        one::<[[f64; 33]; 17]>(k, &mut r, 0);
        one::<[[[i64; 9]; 10]; 11]>(k, &mut r, 0);
        one::<[[[[i16; 5]; 6]; 7]; 3]>(k, &mut r, 0);
        one::<[[[[[f32; 3]; 4]; 5]; 6]; 2]>(k, &mut r, 0);
    }
    floats(k);
    k.need("results", 50_000);
    k.need("function calls observed", 300_000);
    k.need("float sums", 30);
    k.need_distinct(5000);
}

fn main() {
    drive(Check::new("C13", "one transform or fold of one buffer of one type and shape; non-trivial if it has an element; distinct by operation, type and expected result"), run)
}

//! C14: zipping pairs the right elements in the right order or reports both shapes.
use aegir::buffers::shapes::{Broadcast, IncompatibleShapes, ShapeOf};
use aegir::buffers::{Buffer, Scalar, ZipFold, ZipMap, ZipMut};
use checks::custom::{Grid, Sheet};
use checks::*;
use std::cell::RefCell;
use support::{drive, guarded, Check, Rng};

/// What the operation gave: dimensions and elements, or the dimensions it complained about.
type Got<A> = Result<Result<(Vec<usize>, Vec<A>), (Vec<usize>, Vec<usize>)>, String>;

struct Pair<L: Bx, R: Bx<P = L::P>> { ty: String, l: L, r: R, pairs: Vec<(L::P, L::P)>, d: Vec<usize>, ld: Vec<usize>, rd: Vec<usize>, agree: bool }

fn pair<L: Bx, R: Bx<P = L::P>>(r: &mut Rng, ln: usize, rn: usize) -> Pair<L, R> {
    let (ld, rd) = (L::dims(ln), R::dims(rn));
    let mut make = |c: usize, off: i64| -> Vec<L::P> {
        // Mostly distinct, and different on both sides.
        if r.chance(2, 3) { let s = r.int(0, 30); (0..c).map(|i| L::P::int((2 * (i as i64 + s) + off) % 120)).collect() }
        else { (0..c).map(|_| L::P::any(r)).collect() }
    };
    let (a, b) = (make(card(&ld), 0), make(card(&rd), 1));
    let agree = ld.is_empty() || rd.is_empty() || ld == rd;
    let d = if ld.is_empty() { rd.clone() } else { ld.clone() };
    let pairs = if agree {
        (0..card(&d)).map(|i| (a[if ld.is_empty() { 0 } else { i }], b[if rd.is_empty() { 0 } else { i }])).collect()
    } else { vec![] };
    Pair { ty: format!("{} with {}", L::name(ln), R::name(rn)), l: L::mkn(ln, &a), r: R::mkn(rn, &b), pairs, d, ld, rd, agree }
}
fn err<L: Bx, R: Bx>(e: IncompatibleShapes<ShapeOf<L>, ShapeOf<R>>) -> (Vec<usize>, Vec<usize>) { (L::sdims(&e.left), R::sdims(&e.right)) }
fn bits<P: Prim>(v: &[(P, P)]) -> Vec<(u64, u64)> { let mut v: Vec<_> = v.iter().map(|p| (p.0.key(), p.1.key())).collect(); v.sort(); v }

impl<L: Bx, R: Bx<P = L::P>> Pair<L, R> {
    fn check<A: Same + std::fmt::Debug>(&self, k: &mut Check, what: &str, got: Got<A>, want: Vec<A>) {
        k.count(if self.agree { "zips that agree" } else { "zips that disagree" });
        k.case(&format!("{what} {} {want:?}", self.ty), !self.d.contains(&0));
        let want = if self.agree { Ok((self.d.clone(), want)) } else { Err((self.ld.clone(), self.rd.clone())) };
        if !matches!(&got, Ok(g) if g.same(&want)) {
            k.violation(&format!("{what}: {}", match (&got, &want) {
                (Err(_), _) => "panic", (Ok(Ok(_)), Ok(_)) => "wrong result", (Ok(Err(_)), Ok(_)) => "spurious failure",
                (Ok(Ok(_)), Err(_)) => "mismatch not reported", (Ok(Err(_)), Err(_)) => "mismatch reported with the wrong shapes" }),
                &format!("{what} of {}\n  left  {:?}\n  right {:?}\n  got   {got:?}\n  want  {want:?}", self.ty, self.l, self.r));
        }
    }
    fn calls(&self, k: &mut Check, what: &str, log: &RefCell<Vec<(L::P, L::P)>>, ordered: bool) {
        let log = log.take();
        if !self.agree { return }
        k.add("pairs observed", log.len() as u64);
        if bits(&log) != bits(&self.pairs) || (ordered && !log.same(&self.pairs)) {
            k.violation(&format!("{what}: wrong pairs"), &format!("{what} of {}\n  called with {log:?}\n  pairs       {:?}", self.ty, self.pairs));
        }
    }
}

fn read<O: Bx, B: Buffer<Field = A, Shape = O::Shape>, A: Scalar>(b: &B) -> (Vec<usize>, Vec<A>) {
    let d = O::sdims(&b.shape());
    let v = indices(&d).iter().map(|i| b.get(O::ix(i)).expect("an index inside the shape")).collect();
    (d, v)
}

/// `O` tells how to index the result.
fn map<L, R, O>(k: &mut Check, rng: &mut Rng, ln: usize, rn: usize)
where
    L: Bx + ZipMap<R>, R: Bx<P = L::P>, O: Bx<P = L::P>,
    L::Shape: Broadcast<R::Shape, Shape = O::Shape>,
{
    let p = pair::<L, R>(rng, ln, rn);
    let log = RefCell::new(vec![]);
    let f = |a: L::P, b: L::P| { log.borrow_mut().push((a, b)); a.f() * 1000.0 - b.f() };
    let got = guarded(|| p.l.clone().zip_map(&p.r, f).map(|o| read::<O, _, f64>(&o)).map_err(err::<L, R>));
    p.check(k, "zip_map", got, p.pairs.iter().map(|(a, b)| a.f() * 1000.0 - b.f()).collect());
    p.calls(k, "zip_map", &log, false);

    let g = |a: L::P, b: L::P| { log.borrow_mut().push((a, b)); if a < b { 1u8 } else if a == b { 2 } else { 3 } };
    let got = guarded(|| p.l.clone().zip_map(&p.r, g).map(|o| read::<O, _, u8>(&o)).map_err(err::<L, R>));
    p.check(k, "zip_map to u8", got, p.pairs.iter().map(|(a, b)| if a < b { 1u8 } else if a == b { 2 } else { 3 }).collect());
    p.calls(k, "zip_map to u8", &log, false);

    let x = L::P::any(rng);
    let h = |a: L::P, b: L::P| if a == x { b } else if a < b { a } else { L::P::int(1) };
    let hl = |a: L::P, b: L::P| { log.borrow_mut().push((a, b)); h(a, b) };
    let want: Vec<L::P> = p.pairs.iter().map(|(a, b)| h(*a, *b)).collect();
    {
        let got = guarded(|| p.l.clone().zip_map_id(&p.r, hl).map(|o| read::<O, _, L::P>(&o)).map_err(err::<L, R>));
        p.check(k, "zip_map_id", got, want.clone());
        p.calls(k, "zip_map_id", &log, false);
    }
    let got = guarded(|| p.l.clone().zip_map(&p.r, h).map(|o| read::<O, _, L::P>(&o)).map_err(err::<L, R>));
    p.check(k, "zip_map in the field", got, want);

    // The left operand brought to the common shape.
    let got = guarded(|| p.l.clone().zip_shape(p.r.shape()).map(|o| read::<O, _, L::P>(&o)).map_err(err::<L, R>));
    p.check(k, "zip_shape", got, p.pairs.iter().map(|(a, _)| *a).collect());

    // Shapes alone agree with the buffers.
    let got = guarded(|| p.l.shape().broadcast(p.r.shape()).map(|s| (O::sdims(&s), Vec::<u8>::new())).map_err(err::<L, R>));
    p.check(k, "broadcast of the shapes", got, vec![]);
}


fn fold<L, R>(k: &mut Check, rng: &mut Rng, ln: usize, rn: usize) where L: Bx + ZipFold<R>, R: Bx<P = L::P> {
    let p = pair::<L, R>(rng, ln, rn);
    let log = RefCell::new(vec![]);
    let s = rng.range(-3.0, 3.0);
    let step = |acc: f64, (a, b): (L::P, L::P)| acc * 0.75 + a.f() * 8.0 - b.f();
    let got = guarded(|| p.l.zip_fold(&p.r, s, |acc: f64, ab| { log.borrow_mut().push(ab); step(acc, ab) }).map(|v| (p.d.clone(), vec![v])).map_err(err::<L, R>));
    p.check(k, "zip_fold", got, vec![p.pairs.iter().fold(s, |a, x| step(a, *x))]);
    p.calls(k, "zip_fold", &log, true);
    let got = guarded(|| p.l.zip_fold(&p.r, 0u64, |acc: u64, (a, b)| acc + 1 + (a == b) as u64).map(|v| (p.d.clone(), vec![v])).map_err(err::<L, R>));
    p.check(k, "zip_fold to u64", got, vec![p.pairs.iter().fold(0u64, |acc, (a, b)| acc + 1 + (a == b) as u64)]);
}

fn mutate<L, R>(k: &mut Check, rng: &mut Rng, ln: usize, rn: usize) where L: Bx + ZipMut<R>, R: Bx<P = L::P> {
    let p = pair::<L, R>(rng, ln, rn);
    let log = RefCell::new(vec![]);
    let x = L::P::any(rng);
    let h = |a: L::P, b: L::P| if a == x { b } else if a < b { a } else { L::P::int(1) };
    let got = guarded(|| {
        let mut l = p.l.clone();
        l.zip_mut(&p.r, |a, b| { log.borrow_mut().push((a, b)); h(a, b) }).map(|()| (L::sdims(&l.shape()), l.data())).map_err(err::<L, R>)
    });
    p.check(k, "zip_mut", got, p.pairs.iter().map(|(a, b)| h(*a, *b)).collect());
    p.calls(k, "zip_mut", &log, false);
}

macro_rules! arrays {
    ($k:ident $r:ident $F:ty; $($T:ty),+ $(,)?) => { $(
        map::<$T, $T, $T>($k, &mut $r, 0, 0); map::<$T, $F, $T>($k, &mut $r, 0, 0); map::<$F, $T, $T>($k, &mut $r, 0, 0);
        fold::<$T, $T>($k, &mut $r, 0, 0); fold::<$T, $F>($k, &mut $r, 0, 0);
        mutate::<$T, $T>($k, &mut $r, 0, 0); mutate::<$T, $F>($k, &mut $r, 0, 0);
    )+ }
}

macro_rules! field { ($k:ident, $t:ident, $($F:ident)+) => { $( {
    let mut r = $k.rng(stringify!($F), $t as u64);
    type F = $F;
    map::<F, F, F>($k, &mut r, 0, 0);
    fold::<F, F>($k, &mut r, 0, 0);
    map::<(F, F), (F, F), (F, F)>($k, &mut r, 0, 0);
    fold::<(F, F), (F, F)>($k, &mut r, 0, 0);
    for (a, b) in lengths(&mut r) {
        map::<Vec<F>, Vec<F>, Vec<F>>($k, &mut r, a, b);
        fold::<Vec<F>, Vec<F>>($k, &mut r, a, b);
        map::<Vec<F>, F, Vec<F>>($k, &mut r, a, 0);
        map::<F, Vec<F>, Vec<F>>($k, &mut r, 0, a);
    }
    map::<Grid<F>, Grid<F>, Grid<F>>($k, &mut r, 0, 0);
    for (a, b) in [(17, 17), (17, 10), (10, 17), (26, 26), (8, 8), (8, 9), (19, 26)] {
        map::<Sheet<F>, Sheet<F>, Sheet<F>>($k, &mut r, a, b);
        map::<Sheet<F>, F, Sheet<F>>($k, &mut r, a, 0);
    }
    arrays!($k r F; [F; 0], [F; 1], [F; 2], [F; 5], [F; 17],
        [[F; 1]; 1], [[F; 3]; 2], [[F; 2]; 3], [[F; 4]; 4], [[F; 5]; 1], [[F; 1]; 5], [[F; 0]; 2], [[F; 2]; 0],
        [[[F; 2]; 3]; 2], [[[F; 3]; 3]; 3], [[[F; 1]; 4]; 3], [[[F; 0]; 2]; 2],
        [[[[F; 2]; 1]; 3]; 2], [[[[F; 2]; 2]; 2]; 2], [[[[F; 4]; 3]; 2]; 1],
        [[[[[F; 2]; 3]; 1]; 2]; 2], [[[[[F; 2]; 2]; 2]; 2]; 2]);
} )+ } }

/// Pairs of lengths: equal, off by one either way, one a multiple of the other, empty against filled.
fn lengths(r: &mut Rng) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0), (1, 1), (0, 1), (1, 0), (3, 3), (2, 4), (4, 2)];
    for _ in 0..4 { let a = r.below(20); v.extend([(a, a), (a, a + 1), (a + 1, a), (a, r.below(40))]); }
    v
}

fn run(k: &mut Check) {
    for t in 0..k.n(24, 1500) {
        if k.many() { break }
        wild(t % 3 == 1);
        if t % 3 == 1 { k.count("rounds with extreme values"); }
        field!(k, t, f64 i32 u8);
        if t % 4 < 2 { field!(k, t, f32 i64); }
        if t % 8 == 0 { field!(k, t, i8 i16 isize u16 u32 u64 usize); }
    }
    wild(false);
    for t in 0..k.n(3, 40) {
        let mut r = k.rng("large", t as u64);
        for (a, b) in [(1000, 1000), (1000, 1001), (4096, 1), (64, 64), (129, 129)] { map::<Vec<f64>, Vec<f64>, Vec<f64>>(k, &mut r, a, b); map::<Vec<f64>, f64, Vec<f64>>(k, &mut r, a, 0); map::<f64, Vec<f64>, Vec<f64>>(k, &mut r, 0, a); fold::<Vec<f64>, Vec<f64>>(k, &mut r, a, b); }
        for (a, b) in [(5003 + 997 * t, 5003 + 997 * t), (65_537 + t, 65_537 + t), (65_537, 1 + t), (131_072, 131_071)] { map::<Vec<f64>, Vec<f64>, Vec<f64>>(k, &mut r, a, b); map::<Vec<i64>, i64, Vec<i64>>(k, &mut r, a, 0); map::<i64, Vec<i64>, Vec<i64>>(k, &mut r, 0, a); fold::<Vec<f64>, Vec<f64>>(k, &mut r, a, b); }
        if t == 0 { map::<Vec<f64>, Vec<f64>, Vec<f64>>(k, &mut r, 1_048_577, 1_048_577); fold::<Vec<f64>, Vec<f64>>(k, &mut r, 1_048_577, 1_048_577); }
        arrays!(k r f64; [f64; 300], [[f64; 33]; 17], [[[f64; 9]; 10]; 11], [[[[f64; 5]; 6]; 7]; 3], [[[[[f64; 3]; 4]; 5]; 6]; 2]);
    }
    k.need("zips that agree", 30_000);
    k.need("zips that disagree", 3_000);
    k.need("pairs observed", 200_000);
    k.need_distinct(5000);
}

fn main() {
    drive(Check::new("C14", "one elementwise combination of two buffers; non-trivial if there is an element; distinct by operation, types, shapes and expected result"), run)
}

//! C16: lifted buffers obey the algebra of the dense buffers they stand for.
use aegir::buffers::shapes::{Broadcast, IncompatibleShapes, ShapeOf, Shaped};
use aegir::buffers::{Buffer, Class, ClassOf, IntoSpec, Scalar, Spec, ZipMap};
use checks::custom::{Grid, Sheet};
use checks::*;
use support::{drive, guarded, Check, Rng};

type Elems<A> = (Vec<usize>, Vec<A>);

fn read<O: Bx, B: Buffer<Field = A, Shape = O::Shape>, A: Scalar>(b: &B) -> Elems<A> {
    let d = O::sdims(&b.shape());
    let v = indices(&d).iter().map(|i| b.get(O::ix(i)).expect("an index inside the shape")).collect();
    (d, v)
}
/// What a lifted buffer stands for by its definition, without the library materialising it.
fn meaning<O: Bx, B: Buffer<Field = A, Shape = O::Shape>, A: Scalar>(s: &Spec<B>) -> Elems<A> {
    match s {
        Spec::Raw(b) => read::<O, _, A>(b),
        Spec::Full(sh, x) => { let d = O::sdims(sh); let c = card(&d); (d, vec![*x; c]) },
        Spec::Diagonal(sh, x) => { let d = O::sdims(sh); let v = indices(&d).iter().map(|i| if diagonal(i) { *x } else { A::zero() }).collect(); (d, v) },
        _ => panic!("unknown representation"),
    }
}
fn expect<A: Same + std::fmt::Debug>(k: &mut Check, what: &str, case: &str, got: Result<A, String>, want: A) {
    k.count("comparisons");
    k.case(&format!("{what} {case} {want:?}"), !case.contains("-nothing"));
    match got {
        Ok(g) if g.alike(&want) => {},
        Err(_) => k.violation(&format!("{what}: panic"), &format!("{case}\n  got  {got:?}\n  want {want:?}")),
        _ => k.violation(&format!("{what}: wrong result"), &format!("{case}\n  got  {got:?}\n  want {want:?}")),
    }
}
/// A generated lifted buffer in representation `rep`.
fn make<B: Bx>(r: &mut Rng, n: usize, rep: usize) -> Spec<B> {
    let x = if r.chance(1, 2) { B::P::int(*r.pick(&[0, 1, 2])) } else { B::P::any(r) };
    match rep {
        0 => {
            // Raw data that happens to be homogeneous or diagonal, too.
            let d = B::dims(n);
            let v: Vec<B::P> = match r.below(4) {
                0 => vec![x; card(&d)],
                1 => indices(&d).iter().map(|i| if diagonal(i) { x } else { B::P::int(0) }).collect(),
                _ => (0..card(&d)).map(|_| B::P::any(r)).collect(),
            };
            Spec::Raw(B::mkn(n, &v))
        },
        1 => Spec::Full(B::sh(n), x),
        _ => Spec::Diagonal(B::sh(n), x),
    }
}

fn one<B: Bx>(k: &mut Check, r: &mut Rng, n: usize) {
    let ty = B::name(n);
    let empty = if B::dims(n).contains(&0) { "-nothing" } else { "" };
    for rep in 0..3 {
        let s = make::<B>(r, n, rep);
        let want = spec_elems(&s);
        let case = format!("{ty}{empty} {s:?}");
        k.count(spec_rep(&s));
        expect(k, "materialising", &case, guarded(|| { let b = s.clone().unwrap(); (B::sdims(&b.shape()), b.data()) }), want.clone());
        expect(k, "shape", &case, guarded(|| B::sdims(&s.shape())), want.0.clone());
        expect(k, "lifting a lifted buffer", &case, guarded(|| meaning::<B, B, B::P>(&s.clone().into_spec())), want.clone());
        expect(k, "lifting the materialised buffer", &case, guarded(|| meaning::<B, B, B::P>(&s.clone().unwrap().into_spec())), want.clone());
        expect(k, "conversion from the materialised buffer", &case, guarded(|| meaning::<B, B, B::P>(&Spec::from(s.clone().unwrap()))), want.clone());
        // Maps that move zero, keep it, and change the field.
        let (a, b) = (r.int(0, 3) as f64, r.int(-3, 3) as f64);
        for (what, f) in [("affine map", (&|x: B::P| x.f() * a + b) as &dyn Fn(B::P) -> f64), ("map keeping zero", &|x| x.f() * x.f()), ("constant map", &|_| b), ("indicator map", &|x| (x == B::P::int(0)) as u8 as f64)] {
            let want = (want.0.clone(), want.1.iter().map(|x| f(*x)).collect::<Vec<_>>());
            expect(k, what, &case, guarded(|| meaning::<B, _, f64>(&s.clone().map(f))), want.clone());
            expect(k, what, &case, guarded(|| read::<B, _, f64>(&s.clone().map(f).unwrap())), want.clone());
            expect(k, what, &case, guarded(|| read::<B, _, f64>(&s.clone().unwrap().map(f))), want.clone());
            expect(k, what, &case, guarded(|| B::sdims(&s.clone().map(f).shape())), want.0.clone());
            // Twice, through whatever representation the first left behind.
            let g = |y: f64| (y as i64 % 5) as i32 - 1;
            let twice = (want.0, want.1.iter().map(|y| g(*y)).collect::<Vec<i32>>());
            expect(k, "map after map", &case, guarded(|| meaning::<B, _, i32>(&s.clone().map(f).map(g))), twice);
        }
        let g = |x: B::P| if x == B::P::int(0) { 9u8 } else { 4 };
        let want = (want.0.clone(), want.1.iter().map(|x| g(*x)).collect::<Vec<_>>());
        expect(k, "map to u8", &case, guarded(|| meaning::<B, _, u8>(&s.clone().map(g))), want);
    }
    // Constructors.
    let sh = || B::sh(n);
    let d = B::dims(n);
    let (z, o) = (B::P::int(0), B::P::int(1));
    let dense: [(&str, Vec<B::P>, Result<Spec<B>, String>, fn(ShapeOf<B>) -> B); 3] = [
        ("zeroes", vec![z; card(&d)], guarded(|| Spec::<B>::zeroes(sh())), |s| <ClassOf<B> as Class<B::Shape>>::zeroes::<B::P>(s)),
        ("ones", vec![o; card(&d)], guarded(|| Spec::<B>::ones(sh())), |s| <ClassOf<B> as Class<B::Shape>>::ones::<B::P>(s)),
        ("identity", indices(&d).iter().map(|i| if diagonal(i) { o } else { z }).collect(), guarded(|| Spec::<B>::eye(sh())), |s| <ClassOf<B> as Class<B::Shape>>::identity::<B::P>(s)),
    ];
    for (what, want, got, make) in dense {
        let case = format!("{ty}{empty}");
        expect(k, what, &case, got.clone().map(|s| meaning::<B, B, B::P>(&s)), (d.clone(), want.clone()));
        expect(k, what, &case, got.and_then(|s| guarded(|| { let b = s.unwrap(); (B::sdims(&b.shape()), b.data()) })), (d.clone(), want.clone()));
        expect(k, what, &case, guarded(|| make(sh()).data()), want);
    }
}

type Zip<A> = Result<Elems<A>, (Vec<usize>, Vec<usize>)>;
fn err<L: Bx, R: Bx>(e: IncompatibleShapes<ShapeOf<L>, ShapeOf<R>>) -> (Vec<usize>, Vec<usize>) { (L::sdims(&e.left), R::sdims(&e.right)) }

fn zip<L, R, O>(k: &mut Check, r: &mut Rng, ln: usize, rn: usize)
where
    L: Bx + ZipMap<R>, R: Bx<P = L::P>, O: Bx<P = L::P>,
    L::Shape: Broadcast<R::Shape, Shape = O::Shape>,
{
    for rep in 0..9 {
        let (s, t) = (make::<L>(r, ln, rep / 3), make::<R>(r, rn, rep % 3));
        let ((ld, l), (rd, q)) = (spec_elems(&s), spec_elems(&t));
        let agree = ld.is_empty() || rd.is_empty() || ld == rd;
        let d = if ld.is_empty() { rd.clone() } else { ld.clone() };
        let case = format!("{} {} with {} {}{}\n  left  {s:?}\n  right {t:?}", spec_rep(&s), L::name(ln), spec_rep(&t), R::name(rn), if d.contains(&0) { "-nothing" } else { "" });
        k.count(&format!("{} with {}", spec_rep(&s), spec_rep(&t)));
        k.count(if agree { "zips that agree" } else { "zips that disagree" });
        let c = r.int(-2, 2) as f64;
        for (what, f) in [("zip", (&|a: L::P, b: L::P| a.f() * 100.0 - b.f() + c) as &dyn Fn(L::P, L::P) -> f64), ("zip by product", &|a, b| a.f() * b.f()),
                          ("zip keeping the left", &|a, _| a.f()), ("zip keeping the right", &|_, b| b.f())] {
            let want: Zip<f64> = if agree {
                Ok((d.clone(), (0..card(&d)).map(|i| f(l[if ld.is_empty() { 0 } else { i }], q[if rd.is_empty() { 0 } else { i }])).collect()))
            } else { Err((ld.clone(), rd.clone())) };
            expect::<Zip<f64>>(k, what, &case, guarded(|| s.clone().zip_map(&t, f).map(|o| meaning::<O, _, f64>(&o)).map_err(err::<L, R>)), want.clone());
            expect::<Zip<f64>>(k, what, &case, guarded(|| s.clone().zip_map(&t, f).map(|o| read::<O, _, f64>(&o.unwrap())).map_err(err::<L, R>)), want.clone());
            expect::<Zip<f64>>(k, "zip after materialising", &case, guarded(|| s.clone().unwrap().zip_map(&t.clone().unwrap(), f).map(|o| read::<O, _, f64>(&o)).map_err(err::<L, R>)), want);
        }
    }
}

macro_rules! zips { ($k:ident $r:ident $F:ident; $($T:ty),+ $(,)?) => { $(
    zip::<$T, $T, $T>($k, &mut $r, 0, 0); zip::<$T, $F, $T>($k, &mut $r, 0, 0); zip::<$F, $T, $T>($k, &mut $r, 0, 0);
)+ } }
macro_rules! field { ($k:ident, $t:ident, $($F:ident)+) => { $( {
    let mut r = $k.rng(stringify!($F), $t as u64);
    type F = $F;
    for_buffers!(F, |T, n| { one::<T>($k, &mut r, n); });
    zip::<F, F, F>($k, &mut r, 0, 0);
    zip::<(F, F), (F, F), (F, F)>($k, &mut r, 0, 0);
    for (a, b) in [(0, 0), (1, 1), (4, 4), (4, 5), (5, 4), (0, 3), (3, 0), (9, 3)] {
        zip::<Vec<F>, Vec<F>, Vec<F>>($k, &mut r, a, b);
        zip::<Vec<F>, F, Vec<F>>($k, &mut r, a, 0);
        zip::<F, Vec<F>, Vec<F>>($k, &mut r, 0, a);
    }
    zip::<Grid<F>, Grid<F>, Grid<F>>($k, &mut r, 0, 0);
    for (a, b) in [(18, 18), (17, 10), (26, 26), (8, 9)] {
        zip::<Sheet<F>, Sheet<F>, Sheet<F>>($k, &mut r, a, b);
        zip::<Sheet<F>, F, Sheet<F>>($k, &mut r, a, 0);
    }
    zips!($k r F; [F; 0], [F; 1], [F; 3], [[F; 1]; 1], [[F; 3]; 3], [[F; 3]; 2], [[F; 2]; 3], [[F; 0]; 2],
        [[[F; 2]; 3]; 2], [[[F; 2]; 2]; 2], [[[[F; 2]; 1]; 3]; 2], [[[[F; 2]; 2]; 2]; 2], [[[[[F; 2]; 3]; 1]; 2]; 2]);
} )+ } }

fn run(k: &mut Check) {
    for t in 0..k.n(6, 400) {
        if k.many() { break }
        wild(t % 3 == 1);
        if t % 3 == 1 { k.count("rounds with extreme values"); }
        field!(k, t, f64 i32);
        if t % 4 < 2 { field!(k, t, u8 f32 i8); }
    }
    k.need("comparisons", 50_000);
    for p in ["raw", "full", "diag"] { for q in ["raw", "full", "diag"] { k.need(&format!("{p} with {q}"), 300); } }
    k.need("zips that disagree", 500);
    k.need_distinct(5000);
}

fn main() {
    drive(Check::new("C16", "one observation of a lifted buffer compared with the buffer it stands for; non-trivial if that buffer has an element; distinct by operation, operands and expected elements"), run)
}

//! C15: contraction is the Einstein sum, in every representation.
use aegir::buffers::{contract, contract_shape, contract_spec, Contract, Spec};
use checks::*;
use support::{drive, guarded, Check, Rng};

/// Einstein sum over the last axis of `x` and the first of `y` (`axes` = 1) or none, by the definition;
/// gives dimensions, elements, and the sum of magnitudes for a rounding tolerance.
fn einstein<P: Prim>(axes: usize, (dx, x): (&[usize], &[P]), (dy, y): (&[usize], &[P])) -> (Vec<usize>, Vec<P>, Vec<f64>) {
    let shared = if axes == 0 || dx.is_empty() || dy.is_empty() { 0 } else { 1 };
    let (lo, hi) = (&dx[..dx.len() - shared], &dy[shared..]);
    let z = if shared == 1 { assert_eq!(dx[dx.len() - 1], dy[0], "the shared axis"); dy[0] } else { 1 };
    let d: Vec<usize> = lo.iter().chain(hi).copied().collect();
    let (mut out, mut mag) = (vec![], vec![]);
    for i in indices(&d) {
        let (a, b) = i.split_at(lo.len());
        let (mut s, mut m) = (P::int(0), 0.0);
        for t in 0..z {
            let (mut ix, mut iy) = (a.to_vec(), b.to_vec());
            if shared == 1 { ix.push(t); iy.insert(0, t); }
            let (p, q) = (x[row_major(dx, &ix)], y[row_major(dy, &iy)]);
            s = s + p * q;
            m += (p.f() * q.f()).abs();
        }
        out.push(s);
        mag.push(m);
    }
    (d, out, mag)
}

fn judge<P: Prim, O: std::fmt::Debug>(k: &mut Check, what: &str, case: &str, got: Result<Result<(Vec<usize>, Vec<P>), O>, String>, want: &(Vec<usize>, Vec<P>, Vec<f64>), exact: bool) {
    k.count("contractions");
    k.case(&format!("{what} {case} {:?}", want.1), !want.1.is_empty() && want.2.iter().any(|m| *m != 0.0));
    let fine = |g: &P, w: &P, m: f64| if exact { g == w } else { g == w || (g.f() - w.f()).abs() <= m * if P::NAME == "f32" { 3e-6 } else { 1e-14 } };
    match &got {
        Ok(Ok((d, v))) if *d == want.0 && v.len() == want.1.len() && v.iter().zip(&want.1).zip(&want.2).all(|((g, w), m)| fine(g, w, *m)) => {},
        Err(_) => k.violation(&format!("{what}: panic"), &format!("{case}\n  got  {got:?}\n  want {:?} {:?}", want.0, want.1)),
        Ok(Err(_)) => k.violation(&format!("{what}: spurious failure"), &format!("{case}\n  got  {got:?}")),
        _ => k.violation(&format!("{what}: wrong result"), &format!("{case}\n  got  {got:?}\n  want {:?} {:?}", want.0, want.1)),
    }
}

fn one<const AX: usize, L, R, O>(k: &mut Check, r: &mut Rng, fill: &dyn Fn(&mut Rng) -> L::P, exact: bool)
where L: Bx + Contract<R, AX, Output = O>, R: Bx<P = L::P>, O: Bx<P = L::P>
{
    let name = format!("{} with {} over {AX}", L::name(0), R::name(0));
    let mut dense = |d: &[usize]| -> Vec<L::P> { (0..card(d)).map(|_| fill(r)).collect() };
    let (dx, dy) = (L::dims(0), R::dims(0));
    let (x, y) = (dense(&dx), dense(&dy));
    let want = einstein(AX, (&dx, &x), (&dy, &y));
    let case = format!("{name}\n  left  {x:?}\n  right {y:?}");
    let got = guarded(|| L::mk(&x).contract(R::mk(&y)).map(|o| (O::sdims(&o.shape()), o.data())));
    judge(k, "contract", &case, got, &want, exact);
    let got = guarded(|| contract::<AX, L, R>(L::mk(&x), R::mk(&y)).map(|o| (O::sdims(&o.shape()), o.data())));
    judge(k, "free contract", &case, got, &want, exact);
    for free in [false, true] {
        let got = guarded(|| (if free { contract_shape::<AX, L, R>(L::sh(0), R::sh(0)) } else { <L as Contract<R, AX>>::contract_shape(L::sh(0), R::sh(0)) })
            .map(|s| O::sdims(&s)).map_err(|e| format!("{e:?}")));
        k.count("shapes");
        if got != Ok(Ok(want.0.clone())) { k.violation("contract_shape: wrong shape", &format!("{name}: {got:?}, want {:?}", want.0)) }
    }
    // Every pair of representations, with the values that shortcuts look for.
    for p in 0..3 { for q in 0..3 {
        let mut value = || if r.chance(1, 3) { L::P::int(*r.pick(&[0, 0, 1, 2])) } else { fill(r) };
        let (a, b) = (value(), value());
        let mut rand = |d: &[usize]| -> Vec<L::P> { (0..card(d)).map(|_| fill(r)).collect() };
        let sx: Spec<L> = match p { 0 => Spec::Raw(L::mk(&rand(&dx))), 1 => Spec::Full(L::sh(0), a), _ => Spec::Diagonal(L::sh(0), a) };
        let sy: Spec<R> = match q { 0 => Spec::Raw(R::mk(&rand(&dy))), 1 => Spec::Full(R::sh(0), b), _ => Spec::Diagonal(R::sh(0), b) };
        let ((dx, x), (dy, y)) = (spec_elems(&sx), spec_elems(&sy));
        let want = einstein(AX, (&dx, &x), (&dy, &y));
        let case = format!("{name} {} with {}\n  left  {sx:?}\n  right {sy:?}", spec_rep(&sx), spec_rep(&sy));
        k.count(&format!("{} with {}", spec_rep(&sx), spec_rep(&sy)));
        for free in [false, true] {
            let mut rep = "none";
            let got = guarded(|| (if free { contract_spec::<AX, L, R>(sx.clone(), sy.clone()) } else { <L as Contract<R, AX>>::contract_spec(sx.clone(), sy.clone()) })
                .map(|s| { rep = spec_rep(&s); spec_elems(&s) }));
            judge(k, if free { "free contract_spec" } else { "contract_spec" }, &case, got, &want, exact);
            k.count(&format!("gives {rep}"));
        }
    } }
}

macro_rules! family {
    ($F:ident; $sizes:ident $one:ident $k:ident $r:ident $fill:expr, $exact:expr) => {
        macro_rules! o { ($ax:literal: $L:ty, $R:ty => $O:ty) => { $one::<$ax, $L, $R, $O>($k, $r, $fill, $exact); } }
        macro_rules! vecs { ($n:literal) => {
            o!(0: [$F; $n], $F => [$F; $n]); o!(0: $F, [$F; $n] => [$F; $n]); o!(1: [$F; $n], [$F; $n] => $F);
        } }
        macro_rules! mats { ($n:literal $m:literal) => {
            o!(0: [[$F; $m]; $n], $F => [[$F; $m]; $n]); o!(0: $F, [[$F; $m]; $n] => [[$F; $m]; $n]);
            o!(0: [$F; $n], [$F; $m] => [[$F; $m]; $n]);
            o!(1: [[$F; $m]; $n], [$F; $m] => [$F; $n]); o!(1: [$F; $n], [[$F; $m]; $n] => [$F; $m]);
        } }
        macro_rules! prods { ($n:literal $z:literal $m:literal) => { o!(1: [[$F; $z]; $n], [[$F; $m]; $z] => [[$F; $m]; $n]); } }
        macro_rules! small { () => {
            o!(0: $F, $F => $F); o!(1: $F, $F => $F);
            vecs!(0); vecs!(1); vecs!(2); vecs!(3); vecs!(5); vecs!(8);
            mats!(1 1); mats!(2 2); mats!(3 3); mats!(5 5); mats!(1 4); mats!(4 1); mats!(2 3); mats!(3 2); mats!(5 2); mats!(2 6); mats!(0 2); mats!(2 0);
            prods!(1 1 1); prods!(2 2 2); prods!(3 3 3); prods!(4 4 4); prods!(2 3 4); prods!(4 3 2); prods!(3 2 3); prods!(2 2 3); prods!(3 2 2);
            prods!(2 3 2); prods!(1 5 1); prods!(5 1 5); prods!(1 1 4); prods!(4 1 1); prods!(3 3 1); prods!(1 3 3); prods!(2 0 2); prods!(0 2 2);
        } }
        macro_rules! large { () => {
            vecs!(16); vecs!(17); vecs!(64); vecs!(100); vecs!(129); vecs!(1025); mats!(9 9); mats!(17 3); mats!(3 17); mats!(12 20); mats!(40 2); mats!(2 40);
            prods!(8 8 8); prods!(9 4 7); prods!(2 20 3); prods!(3 33 2); prods!(16 16 16); prods!(17 2 9); prods!(12 3 12);
            prods!(65 65 65); prods!(2 129 3); prods!(129 2 3); prods!(3 2 129); mats!(66 65);
        } }
        $sizes!();
    };
}
macro_rules! field { ($k:ident, $t:ident, $($F:ident)+) => { $( {
    let mut rr = $k.rng(stringify!($F), $t as u64);
    let r = &mut rr;
    family!($F; small one $k r &|r: &mut Rng| <$F as Prim>::any(r), true);
} )+ } }
fn field_real64(k: &mut Check, t: usize) {
    let mut rr = k.rng("real64", t as u64);
    let r = &mut rr;
    let e = r.int(-3, 3) as i32;
    family!(f64; small one k r &|r: &mut Rng| r.range(-1.0, 1.0) * 10f64.powi(e + r.int(-2, 2) as i32), false);
}
fn field_real32(k: &mut Check, t: usize) {
    let mut rr = k.rng("real32", t as u64);
    let r = &mut rr;
    family!(f32; small one k r &|r: &mut Rng| r.range(-10.0, 10.0) as f32, false);
}

fn field_large(k: &mut Check, t: usize) {
    let mut rr = k.rng("large", t as u64);
    let r = &mut rr;
    family!(f64; large one k r &|r: &mut Rng| <f64 as Prim>::any(r), true);
    family!(i32; large one k r &|r: &mut Rng| <i32 as Prim>::any(r), true);
}

/// Sizes and magnitudes where a shortcut could overflow although the result is finite.
fn extremes(k: &mut Check) {
    for t in 0..k.n(30, 600) {
        let mut rr = k.rng("extremes", t as u64);
        let r = &mut rr;
        let huge = |r: &mut Rng| if r.chance(1, 2) { 1.5e308 } else { *r.pick(&[0.0, 1e-5, -0.25, 1e-300, 0.1]) };
        // Products that stay finite: one side huge, the other at most 0.1 in magnitude.
        for (a, b) in [(1.5e308, 0.1), (0.1, 1.5e308), (1.5e308, 0.0), (-1.2e308, 1e-3), (huge(r), 1e-4)] {
            let full = |x: f64| Spec::<[f64; 8]>::Full(aegir::buffers::shapes::S1, x);
            let want = 8.0 * (a * b);
            let got = guarded(|| contract_spec::<1, _, _>(full(a), full(b)).map(|s| spec_elems(&s).1[0]));
            k.count("extremes");
            k.case(&format!("extreme dot {a} {b}"), true);
            if !matches!(&got, Ok(Ok(v)) if (v - want).abs() <= 1e-12 * want.abs()) { k.violation("contract_spec: shortcut overflows where the result is finite", &format!("dot of eight {a} with eight {b}: {got:?}, want {want}")) }
            let full = |x: f64| Spec::<[[f64; 4]; 4]>::Full(aegir::buffers::shapes::S2, x);
            let want = 4.0 * (a * b);
            let got = guarded(|| contract_spec::<1, _, _>(full(a), full(b)).map(|s| spec_elems(&s).1));
            if !matches!(&got, Ok(Ok(v)) if v.iter().all(|v| (v - want).abs() <= 1e-12 * want.abs())) { k.violation("contract_spec: shortcut overflows where the result is finite", &format!("4x4 product of {a} with {b}: {got:?}, want {want}")) }
        }
        // Lengths that the field cannot represent.
        type V = [u8; 300];
        let (a, b) = *r.pick(&[(0u8, 3u8), (3, 0), (0, 0), (255, 0)]);
        let mut x = [0u8; 300];
        x[r.below(300)] = 7;
        let full = |x| Spec::<V>::Full(aegir::buffers::shapes::S1, x);
        for (what, got, want) in [
            ("homogeneous", guarded(|| contract_spec::<1, _, _>(full(a), full(b)).map(|s| spec_elems(&s).1)), 0u8),
            ("dense", guarded(|| contract_spec::<1, _, _>(Spec::Raw(x), full(5)).map(|s| spec_elems(&s).1)), 35),
            ("dense", guarded(|| contract_spec::<1, _, _>(full(5), Spec::Raw(x)).map(|s| spec_elems(&s).1)), 35),
        ] {
            k.count("extremes");
            if !matches!(&got, Ok(Ok(v)) if v[..] == [want]) { k.violation("contract_spec: length beyond the field", &format!("{what} {a} {b}: {got:?}, want {want}")) }
        }
        let m = |x| Spec::<[[u8; 300]; 2]>::Full(aegir::buffers::shapes::S2, x);
        let n = |x| Spec::<[[u8; 2]; 300]>::Full(aegir::buffers::shapes::S2, x);
        let got = guarded(|| contract_spec::<1, _, _>(m(a), n(b)).map(|s| spec_elems(&s).1));
        if !matches!(&got, Ok(Ok(v)) if v[..] == [0; 4]) { k.violation("contract_spec: length beyond the field", &format!("matrix product {a} {b}: {got:?}, want zeroes")) }
    }
}

/// Operands that are not finite: a shortcut must not change a result that is.
fn hostile(k: &mut Check) {
    fn one<const AX: usize, L, R, O>(k: &mut Check, r: &mut Rng, fill: &dyn Fn(&mut Rng) -> L::P, _: bool)
    where L: Bx + Contract<R, AX, Output = O>, R: Bx<P = L::P>, O: Bx<P = L::P>
    {
        let (dx, dy) = (L::dims(0), R::dims(0));
        for p in 0..3 { for q in 0..3 {
            let (a, b) = (fill(r), fill(r));
            let mut rand = |d: &[usize]| -> Vec<L::P> { (0..card(d)).map(|_| fill(r)).collect() };
            let sx: Spec<L> = match p { 0 => Spec::Raw(L::mk(&rand(&dx))), 1 => Spec::Full(L::sh(0), a), _ => Spec::Diagonal(L::sh(0), a) };
            let sy: Spec<R> = match q { 0 => Spec::Raw(R::mk(&rand(&dy))), 1 => Spec::Full(R::sh(0), b), _ => Spec::Diagonal(R::sh(0), b) };
            let ((dx, x), (dy, y)) = (spec_elems(&sx), spec_elems(&sy));
            let want = einstein(AX, (&dx, &x), (&dy, &y));
            let dense = guarded(|| L::mk(&x).contract(R::mk(&y)).map(|o| (O::sdims(&o.shape()), o.data())));
            let lifted = guarded(|| contract_spec::<AX, L, R>(sx.clone(), sy.clone()).map(|s| spec_elems(&s)));
            k.count("hostile contractions");
            k.case(&format!("hostile {} {} {AX} {x:?} {y:?}", L::name(0), R::name(0)), true);
            for (what, got) in [("dense", dense), ("lifted", lifted)] {
                let ok = matches!(&got, Ok(Ok((d, g))) if *d == want.0 && g.len() == want.1.len() && g.iter().zip(&want.1).zip(&want.2).all(|((g, w), m)|
                    !w.f().is_finite() || !m.is_finite() || g == w || (g.f() - w.f()).abs() <= 1e-14 * m));
                if !ok { k.violation(&format!("contraction changes a finite result: {what} {} with {} over {AX}", L::name(0), R::name(0)), &format!("left {sx:?}\nright {sy:?}\ngot {got:?}\nwant {:?}", want)) }
            }
        } }
    }
    for t in 0..k.n(6, 200) {
        let mut rr = k.rng("hostile", t as u64);
        let r = &mut rr;
        family!(f64; small one k r &|r: &mut Rng| *r.pick(&[0.0, -0.0, 0.0, 1.0, 1.0, -1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 1e-300, 0.5]), false);
    }
    k.need("hostile contractions", 1000);
}

fn run(k: &mut Check) {
    hostile(k);
    for t in 0..k.n(16, 1200) {
        if k.many() { break }
        field!(k, t, f64 i64);
        field_real64(k, t);
        if t % 4 == 0 { field!(k, t, i32 u8); field_real32(k, t); }
    }
    for t in 0..k.n(1, 20) { field_large(k, t); }
    extremes(k);
    k.need("contractions", 50_000);
    for p in ["raw", "full", "diag"] { for q in ["raw", "full", "diag"] { k.need(&format!("{p} with {q}"), 1000); } }
    k.need("extremes", 100);
    k.need_distinct(5000);
}

fn main() {
    drive(Check::new("C15", "one contraction of two buffers (dense or lifted); non-trivial if some product of the sum is not zero; distinct by operation, types, operands and result"), run)
}

//! C17: a shape enumerates exactly its own indices, once each, in row-major order.
use aegir::buffers::shapes::*;
use checks::{card, indices};
use support::{drive, guarded, Check, Rng};

/// A shape as dimensions, an index as coordinates.
trait Sx: Shape + PartialEq {
    fn make(d: &[usize]) -> Self;
    fn dims(&self) -> Vec<usize>;
    fn ix(m: &[usize]) -> Self::Index;
    fn unix(i: Self::Index) -> Vec<usize>;
}
impl Sx for S0 {
    fn make(_: &[usize]) -> S0 { S0 }
    fn dims(&self) -> Vec<usize> { vec![] }
    fn ix(_: &[usize]) {}
    fn unix(_: ()) -> Vec<usize> { vec![] }
}
impl<const A: usize> Sx for S1<A> {
    fn make(d: &[usize]) -> Self { assert_eq!(d, [A]); S1 }
    fn dims(&self) -> Vec<usize> { vec![A] }
    fn ix(m: &[usize]) -> usize { m[0] }
    fn unix(i: usize) -> Vec<usize> { vec![i] }
}
macro_rules! sx { ($($S:ident $n:literal [$($D:ident)+];)*) => { $(
    impl<$(const $D: usize),+> Sx for $S<$($D),+> {
        fn make(d: &[usize]) -> Self { assert_eq!(d, [$($D),+]); $S }
        fn dims(&self) -> Vec<usize> { vec![$($D),+] }
        fn ix(m: &[usize]) -> [usize; $n] { m.try_into().unwrap() }
        fn unix(i: [usize; $n]) -> Vec<usize> { i.to_vec() }
    }
)* } }
sx! { S2 2 [A B]; S3 3 [A B C]; S4 4 [A B C D]; S5 5 [A B C D E]; S6 6 [A B C D E F]; }
impl<const N: usize> Sx for SDynamic<N> {
    fn make(d: &[usize]) -> Self { SDynamic(d.try_into().unwrap()) }
    fn dims(&self) -> Vec<usize> { self.0.to_vec() }
    fn ix(m: &[usize]) -> [usize; N] { m.try_into().unwrap() }
    fn unix(i: [usize; N]) -> Vec<usize> { i.to_vec() }
}

fn bounds(hint: (usize, Option<usize>), left: usize) -> bool { hint.0 <= left && hint.1.map_or(true, |u| left <= u) }

fn enumerate<S: Sx>(k: &mut Check, d: &[usize]) where S::IndexIter: 'static {
    let s = S::make(d);
    let name = format!("{s:?}");
    let want = indices(d);
    k.case(&format!("enumerate {} {name}", std::any::type_name::<S>()), !want.is_empty());
    k.count("shapes enumerated");
    let mut bad = |what: &str, detail: String| k.violation(what, &format!("{name}: {detail}"));
    match guarded(|| (s.cardinality(), S::DIM, s.is_scalar(), s.is_vector(), s.is_matrix())) {
        Ok(g) if g == (want.len(), d.len(), d.is_empty(), d.len() == 1, d.len() == 2) => {},
        g => bad("cardinality or rank", format!("{g:?}, want {}", want.len())),
    }
    // One pass, looking at hints before every step and counting what is left from a fresh walk.
    let got = guarded(|| {
        let mut it = s.indices();
        let mut seen = vec![];
        let mut hints = vec![];
        loop {
            hints.push(it.size_hint());
            match it.next() { Some(i) => seen.push(S::unix(i)), None => break }
            if seen.len() > want.len() + 3 { break }
        }
        let after: Vec<_> = (0..2 * want.len().min(20) + 5).map(|_| (it.next().map(S::unix), it.size_hint())).collect();
        (seen, hints, after, it.count())
    });
    match got {
        Err(p) => bad("enumeration panics", p),
        Ok((seen, hints, after, count)) => {
            if seen != want { bad("enumeration yields the wrong indices", format!("{seen:?}, want {want:?}")) }
            else {
                for (p, h) in hints.iter().enumerate() {
                    if !bounds(*h, want.len() - p) { bad("size hint excludes the number of indices left", format!("hint {h:?} after {p} of {}", want.len())) }
                }
                if let Some(x) = after.iter().find(|(i, h)| i.is_some() || h.0 > 0) { bad("an exhausted enumeration continues", format!("{x:?}")) }
                if count != 0 { bad("an exhausted enumeration counts indices", format!("{count}")) }
            }
        },
    }
    // Counts, the last index and jumps from every point.
    for p in 0..=want.len().min(40) {
        let p = if want.len() > 40 { p * want.len() / 40 } else { p };
        let walk = || { let mut it = s.indices(); for _ in 0..p { it.next(); } it };
        let got = guarded(|| {
            let mut jump = s.indices();
            let nth = jump.nth(p).map(S::unix);
            (walk().count(), walk().last().map(S::unix), nth, jump.map(S::unix).collect::<Vec<_>>(), walk().map(S::unix).collect::<Vec<_>>(),
             walk().fold(0usize, |a, _| a + 1))
        });
        let rest = want[p..].to_vec();
        let want = (rest.len(), rest.last().cloned(), rest.first().cloned(), rest.get(1..).unwrap_or(&[]).to_vec(), rest.clone(), rest.len());
        k.count("points of an enumeration");
        if got != Ok(want.clone()) { k.violation("count, last or rest of an enumeration", &format!("{name} after {p}: {got:?}, want {want:?}")) }
    }
    // Two enumerations do not disturb each other.
    if want.len() <= 60 {
        let got = guarded(|| {
            let (mut a, mut b) = (s.indices(), s.indices());
            let mut v = vec![];
            for i in 0..want.len() + 1 { if i % 3 != 1 { v.push(a.next().map(S::unix)); } v.push(b.next().map(S::unix)); }
            v
        });
        let (mut a, mut b) = (want.iter().cloned(), want.iter().cloned());
        let mut v = vec![];
        for i in 0..want.len() + 1 { if i % 3 != 1 { v.push(a.next()); } v.push(b.next()); }
        if got != Ok(v.clone()) { k.violation("interleaved enumerations", &format!("{name}: {got:?}, want {v:?}")) }
    }
    // Jumps from the middle.
    let mut jumps = vec![];
    for p in [1, want.len() / 3, want.len() / 2, want.len().saturating_sub(1), want.len()] {
        for j in [0, 1, 2, 3, 5, want.len() / 4, want.len()] { jumps.push((p, j)); }
    }
    for (p, j) in jumps {
        let got = guarded(|| { let mut it = s.indices(); for _ in 0..p { it.next(); } let n = it.nth(j).map(S::unix); (n, it.size_hint(), it.next().map(S::unix)) });
        let left = want.len().saturating_sub(p + j + 1);
        let (a, b) = (want.get(p + j).cloned(), want.get(p + j + 1).cloned());
        k.count("jumps from the middle");
        match got { Ok((x, h, y)) if x == a && y == b && bounds(h, left) => {}, g => k.violation("a jump from the middle of an enumeration", &format!("{name}: {j} after {p}: {g:?}, want {a:?} then {b:?}")) }
    }
    // Which indices lie on the diagonal.
    for i in &want {
        let d = i.windows(2).all(|w| w[0] == w[1]);
        if d { k.count("diagonal indices") }
        let got = guarded(|| S::ix(i).is_diagonal());
        if got != Ok(d) { k.violation("whether an index is on the diagonal", &format!("{i:?}: {got:?}")) }
    }
    // Equivalence is equality of the number of indices, whatever the rank.
    macro_rules! same { ($($o:expr, $d:expr);* $(;)?) => { $( {
        let w: usize = $d.iter().product();
        let yes = w == want.len();
        k.count(if yes { "equivalent shapes" } else { "shapes that are not equivalent" });
        let got = guarded(|| (s.is_equivalent(&$o), $o.is_equivalent(&s)));
        if got != Ok((yes, yes)) { k.violation("equivalence of shapes", &format!("{name} with {}: {got:?}", $o)) }
    } )* } }
    let n = want.len();
    let (x, y) = (d.first().copied().unwrap_or(1), d.iter().skip(1).product::<usize>());
    same! { S0, [1usize]; S1::<6>, [6]; S2::<2, 3>, [2, 3]; S2::<3, 2>, [3, 2]; S3::<1, 6, 1>, [6]; S4::<0, 1, 2, 3>, [0]; SDynamic([]), [1];
            SDynamic([n]), [n]; SDynamic([n + 1]), [n + 1]; SDynamic([x, y]), [x, y]; SDynamic([y, x]), [x, y]; SDynamic([1, x, 1, y]), [x, y]; SDynamic([x, y + 1]), [x, y + 1]; s, [n]; }
    member(k, &s, d);
    broad(k, &s);
}

fn member<S: Sx>(k: &mut Check, s: &S, d: &[usize]) {
    let mut grid: Vec<Vec<usize>> = vec![vec![]];
    for &n in d {
        let mut c: Vec<usize> = vec![0, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX];
        if grid.len() > 200 { c = vec![0, n.saturating_sub(1), n]; }
        if grid.len() > 2000 { c = vec![n.saturating_sub(1), n]; }
        c.dedup();
        grid = grid.iter().flat_map(|g| c.iter().map(move |x| { let mut g = g.clone(); g.push(*x); g })).collect();
    }
    for g in grid {
        let want = g.iter().zip(d).all(|(i, n)| i < n);
        k.count(if want { "members" } else { "non-members" });
        let got = guarded(|| s.contains(S::ix(&g)));
        if got != Ok(want) { k.violation("membership", &format!("{s:?} contains {g:?}: {got:?}, want {want}")) }
    }
}

/// With itself and with a scalar shape on either side: decided by the implementations that exist.
trait Bro: Sx { fn bro(&self) -> [Result<Vec<usize>, String>; 3]; }
macro_rules! bro { ($($S:ident [$($D:ident)+];)*) => { $( impl<$(const $D: usize),+> Bro for $S<$($D),+> {
    fn bro(&self) -> [Result<Vec<usize>, String>; 3] { let s = *self; [
        guarded(|| s.broadcast(s).map(|o| o.dims()).unwrap()), guarded(|| s.broadcast(S0).map(|o| o.dims()).unwrap()), guarded(|| S0.broadcast(s).map(|o| o.dims()).unwrap())] }
} )* } }
bro! { S1 [A]; S2 [A B]; S3 [A B C]; S4 [A B C D]; S5 [A B C D E]; S6 [A B C D E F]; SDynamic [N]; }
impl Bro for S0 { fn bro(&self) -> [Result<Vec<usize>, String>; 3] { let f = || guarded(|| S0.broadcast(S0).map(|o| o.dims()).unwrap()); [f(), f(), f()] } }
thread_local! { static BRO: std::cell::RefCell<Option<[Result<Vec<usize>, String>; 3]>> = const { std::cell::RefCell::new(None) }; }
fn broad<S: Sx>(k: &mut Check, s: &S) {
    if let Some(g) = BRO.take() {
        for (what, g) in ["with itself", "with a scalar on the right", "with a scalar on the left"].iter().zip(g) {
            k.count("broadcasts");
            if g != Ok(s.dims()) { k.violation("broadcast gives the wrong shape", &format!("{s:?} {what}: {g:?}")) }
        }
        // Displayed with its dimensions in order.
        if S::DIM > 0 {
            let t = s.to_string();
            let nums: Vec<usize> = t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            if nums != s.dims() { k.violation("a shape is displayed with the wrong dimensions", &format!("{s:?} as {t}")) }
        }
    }
}
fn all<S: Bro>(k: &mut Check, d: &[usize]) where S::IndexIter: 'static {
    BRO.set(guarded(|| S::make(d).bro()).ok());
    enumerate::<S>(k, d)
}

fn concat<L: Sx + Concat<R, Shape = O>, R: Sx, O: Sx>(k: &mut Check, r: &mut Rng, l: &[usize], q: &[usize]) {
    let want: Vec<usize> = l.iter().chain(q).copied().collect();
    let got = guarded(|| L::make(l).concat(R::make(q)).dims());
    k.case(&format!("concat {} {l:?} {} {q:?}", std::any::type_name::<L>(), std::any::type_name::<R>()), !want.is_empty());
    k.count("concatenations");
    if got != Ok(want.clone()) { k.violation("concatenated shape", &format!("{l:?} + {q:?}: {got:?}")) }
    for _ in 0..4 {
        let (a, b): (Vec<usize>, Vec<usize>) = (l.iter().map(|_| r.below(1000)).collect(), q.iter().map(|_| r.below(1000)).collect());
        let want: Vec<usize> = a.iter().chain(&b).copied().collect();
        let got = guarded(|| O::unix(L::concat_indices(L::ix(&a), R::ix(&b))));
        k.count("concatenated indices");
        if got != Ok(want) { k.violation("concatenated index", &format!("{} + {}: {a:?} + {b:?}: {got:?}", std::any::type_name::<L>(), std::any::type_name::<R>())) }
    }
}

fn split<S: Sx + Split>(k: &mut Check, r: &mut Rng, d: &[usize]) where S::Left: Sx, S::Right: Sx {
    let h = d.len() / 2;
    let got = guarded(|| { let (a, b) = S::make(d).split(); (a.dims(), b.dims(), a.concat(b).dims()) });
    k.case(&format!("split {d:?}"), true);
    k.count("splits");
    if got != Ok((d[..h].to_vec(), d[h..].to_vec(), d.to_vec())) { k.violation("split shape", &format!("{d:?}: {got:?}")) }
    for _ in 0..6 {
        let i: Vec<usize> = d.iter().map(|_| r.below(1000)).collect();
        let got = guarded(|| { let (a, b) = S::split_index(S::ix(&i)); (S::Left::unix(a), S::Right::unix(b), S::unix(<S::Left as Concat<S::Right>>::concat_indices(a, b))) });
        if got != Ok((i[..h].to_vec(), i[h..].to_vec(), i.clone())) { k.violation("split index", &format!("{i:?}: {got:?}")) }
    }
}

fn fixed(k: &mut Check) {
    all::<S0>(k, &[]);
    macro_rules! go { ($($S:ident [$($d:literal)+]),+ $(,)?) => { $( all::<$S<$($d),+>>(k, &[$($d),+]); )+ } }
    go!(S1 [0], S1 [1], S1 [2], S1 [7], S1 [100],
        S2 [0 0], S2 [0 3], S2 [3 0], S2 [1 1], S2 [1 4], S2 [4 1], S2 [2 3], S2 [3 2], S2 [5 5], S2 [17 3],
        S3 [1 1 1], S3 [2 3 4], S3 [4 3 2], S3 [3 1 2], S3 [1 5 1], S3 [0 2 2], S3 [2 0 2], S3 [2 2 0], S3 [3 3 3],
        S4 [1 1 1 1], S4 [2 3 1 4], S4 [4 1 3 2], S4 [2 2 2 2], S4 [0 1 2 3], S4 [3 2 1 0], S4 [1 2 0 1], S4 [3 4 5 2],
        S5 [1 1 1 1 1], S5 [2 1 3 2 2], S5 [2 2 3 1 2], S5 [5 4 3 2 1], S5 [1 2 3 4 5], S5 [1 1 0 1 1], S5 [2 2 2 2 2],
        S6 [1 1 1 1 1 1], S6 [2 1 3 2 1 2], S6 [1 2 1 2 3 2], S6 [2 2 2 2 2 2], S6 [2 2 0 2 2 2], S6 [1 1 1 1 1 3], S6 [3 1 1 1 1 2]);
}
fn concats(k: &mut Check) {
    let mut rr = k.rng("concat", 0);
    let r = &mut rr;
    macro_rules! go { ($($L:ident [$($l:literal)*] $R:ident [$($q:literal)*] $O:ident),+ $(,)?) => { $(
        concat::<go!(@ $L $($l)*), go!(@ $R $($q)*), go!(@ $O $($l)* $($q)*)>(k, r, &[$($l),*], &[$($q),*]);
    )+ };
    (@ S0) => { S0 }; (@ $S:ident $($d:literal)+) => { $S<$($d),+> } }
    go!(S0 [] S0 [] S0, S0 [] S1 [4] S1, S0 [] S2 [4 5] S2, S0 [] S3 [4 5 6] S3, S0 [] S4 [4 5 6 7] S4, S0 [] S5 [4 5 6 7 8] S5,
        S1 [4] S0 [] S1, S2 [4 5] S0 [] S2, S3 [4 5 6] S0 [] S3, S4 [4 5 6 7] S0 [] S4, S5 [4 5 6 7 8] S0 [] S5,
        S1 [2] S1 [3] S2, S1 [2] S2 [3 4] S3, S1 [2] S3 [3 4 5] S4, S1 [2] S4 [3 4 5 6] S5, S1 [2] S5 [3 4 5 6 7] S6,
        S2 [2 3] S1 [4] S3, S2 [2 3] S2 [4 5] S4, S2 [2 3] S3 [4 5 6] S5, S2 [2 3] S4 [4 5 6 7] S6,
        S3 [2 3 4] S1 [5] S4, S3 [2 3 4] S2 [5 6] S5, S3 [2 3 4] S3 [5 6 7] S6,
        S4 [2 3 4 5] S1 [6] S5, S4 [2 3 4 5] S2 [6 7] S6, S5 [2 3 4 5 6] S1 [7] S6);
    split::<S2<2, 3>>(k, r, &[2, 3]); split::<S2<3, 3>>(k, r, &[3, 3]); split::<S2<1, 0>>(k, r, &[1, 0]);
    split::<S4<2, 3, 4, 5>>(k, r, &[2, 3, 4, 5]); split::<S4<5, 1, 0, 2>>(k, r, &[5, 1, 0, 2]); split::<S4<2, 2, 2, 2>>(k, r, &[2; 4]);
    for _ in 0..4 {
        macro_rules! dy { ($($n:literal),+; $ms:tt) => { $( dy!(@ $n $ms); )+ };
            (@ $n:literal [$($m:literal),+]) => { $( {
                let (a, b): (Vec<usize>, Vec<usize>) = ((0..$n).map(|_| r.below(9)).collect(), (0..$m).map(|_| r.below(9)).collect());
                concat::<SDynamic<$n>, SDynamic<$m>, SDynamic<{ $n + $m }>>(k, r, &a, &b);
            } )+ } }
        dy!(0, 1, 2, 3, 4, 5, 6; [0, 1, 2, 3, 4, 5, 6]);
    }
}

fn disagree<const N: usize>(k: &mut Check, a: [usize; N], b: [usize; N]) {
    k.count("disagreeing broadcasts");
    k.case(&format!("broadcast {a:?} {b:?}"), true);
    let got = guarded(|| SDynamic(a).broadcast(SDynamic(b)).map(|s| s.0).map_err(|e| (e.left.0, e.right.0, e.to_string(), e.reverse().left.0, e.reverse().right.0)));
    match got {
        Ok(Ok(s)) if a == b && s == a => {},
        Ok(Err((l, r, t, rl, rr))) if a != b && l == a && r == b && rl == b && rr == a => {
            // The text names both, in order.
            let (x, y) = (SDynamic(a).to_string(), SDynamic(b).to_string());
            if !t.find(&x).map_or(false, |p| t[p + x.len()..].contains(&y)) { k.violation("the error does not name both shapes in order", &format!("{x} with {y}: {t}")) }
        },
        g => k.violation("broadcast of run-time shapes", &format!("{a:?} with {b:?}: {g:?}")),
    }
}

fn dynamic(k: &mut Check) {
    // Everything small, exhaustively.
    all::<SDynamic<0>>(k, &[]);
    for a in 0..9 { all::<SDynamic<1>>(k, &[a]); }
    for a in 0..5 { for b in 0..5 {
        all::<SDynamic<2>>(k, &[a, b]);
        disagree(k, [a], [b]);
        for c in 0..4 {
            all::<SDynamic<3>>(k, &[a, b, c]);
            if a < 4 && b < 4 { for d in 0..4 { disagree(k, [a, b], [c, d]); } }
            if a < 3 && b < 3 && c < 3 { for d in 0..3 { all::<SDynamic<4>>(k, &[a, b, c, d]); for e in 0..2 { all::<SDynamic<5>>(k, &[a, b, c, d, e]); } } }
        }
    } }
    for t in 0..k.n(60, 4000) {
        let mut r = k.rng("dynamic", t as u64);
        fn dims(r: &mut Rng, n: usize, top: usize, most: usize) -> Vec<usize> {
            loop { let d: Vec<usize> = (0..n).map(|_| if r.chance(1, 4) { 1 } else { r.below(top + 1) }).collect(); if card(&d) <= most { return d } }
        }
        all::<SDynamic<1>>(k, &dims(&mut r, 1, 300, 300));
        all::<SDynamic<2>>(k, &dims(&mut r, 2, 20, 300));
        all::<SDynamic<3>>(k, &dims(&mut r, 3, 8, 300));
        all::<SDynamic<4>>(k, &dims(&mut r, 4, 6, 300));
        all::<SDynamic<5>>(k, &dims(&mut r, 5, 5, 300));
        all::<SDynamic<6>>(k, &dims(&mut r, 6, 4, 300));
        all::<SDynamic<7>>(k, &dims(&mut r, 7, 3, 200));
        let (a, mut b) = (dims(&mut r, 3, 5, 999), dims(&mut r, 3, 5, 999));
        if r.chance(1, 2) { b = a.clone(); if r.chance(2, 3) { let i = r.below(3); b[i] += r.below(2); let j = r.below(3); b.swap(i, j); } }
        disagree::<3>(k, a.try_into().unwrap(), b.try_into().unwrap());
    }
    // A copy taken at any point continues on its own.
    for t in 0..k.n(60, 1000) {
        let mut r = k.rng("copies", t as u64);
        let d = [1 + r.below(4), r.below(5), 1 + r.below(3)];
        let want = indices(&d);
        let p = r.below(want.len() + 2);
        k.count("copied enumerations");
        let got = guarded(|| {
            let mut a = SDynamic(d).indices();
            for _ in 0..p { a.next(); }
            let b = a.clone();
            let x: Vec<_> = a.map(|i| i.to_vec()).collect();
            let y: Vec<_> = b.map(|i| i.to_vec()).collect();
            (x, y)
        });
        let rest = want[p.min(want.len())..].to_vec();
        if got != Ok((rest.clone(), rest)) { k.violation("copied enumeration", &format!("{d:?} after {p}: {got:?}")) }
    }
    // Shapes with more indices than can be counted: the beginning and the hint are still right.
    macro_rules! fixed { ($($s:expr),*) => { $( {
        let got = guarded(|| $s.cardinality());
        if got != Ok(0) { k.violation("cardinality of a huge empty shape", &format!("{:?}: {got:?}", $s)) }
    } )* } }
    const M: usize = usize::MAX;
    fixed!(S2::<0, M>, S2::<M, 0>, S3::<M, M, 0>, S3::<0, M, M>, S3::<M, 0, M>, S4::<2, M, 0, M>, S5::<M, M, M, M, 0>);
    for d in [[usize::MAX, 2, 3], [3, usize::MAX, 2], [2, 2, usize::MAX], [usize::MAX, usize::MAX, usize::MAX], [1 << 40, 1 << 40, 2]] {
        k.count("huge shapes");
        let got = guarded(|| {
            let mut it = SDynamic(d).indices();
            let mut v = vec![];
            let mut fine = it.size_hint().1.is_none();
            for _ in 0..30 { v.push(it.next()); fine &= it.size_hint().1.is_none(); }
            (v, fine)
        });
        let want: Vec<_> = (0..30).map(|mut f| { let mut i = [0; 3]; for a in (0..3).rev() { i[a] = f % d[a]; f /= d[a]; } Some(i) }).collect();
        if got.as_ref().map(|g| &g.0) != Ok(&want) { k.violation("enumeration of a huge shape", &format!("{d:?}: {got:?}")) }
        else if got != Ok((want, true)) { k.violation("size hint of a huge shape", &format!("{d:?}")) }
        // An empty axis empties it, wherever it is.
        for a in 0..3 {
            let mut d = d;
            d[a] = 0;
            k.count("huge empty shapes");
            let got = guarded(|| { let mut it = SDynamic(d).indices(); let h = it.size_hint(); (h, it.next(), it.size_hint(), it.next(), it.count()) });
            if got != Ok(((0, Some(0)), None, (0, Some(0)), None, 0)) { k.violation("enumeration of a huge empty shape", &format!("{d:?}: {got:?}")) }
            let got = guarded(|| SDynamic(d).cardinality());
            if got != Ok(0) { k.violation("cardinality of a huge empty shape", &format!("{d:?}: {got:?}")) }
        }
    }
}

fn run(k: &mut Check) {
    fixed(k);
    concats(k);
    dynamic(k);
    k.need("shapes enumerated", 500);
    k.need("points of an enumeration", 5_000);
    k.need("broadcasts", 1000);
    k.need("disagreeing broadcasts", 200);
    k.need("concatenations", 200);
    k.need("jumps from the middle", 10_000);
    k.need("diagonal indices", 500);
    k.need("equivalent shapes", 2000);
    k.need("shapes that are not equivalent", 2000);
    k.need_distinct(800);
}

fn main() {
    drive(Check::new("C17", "one shape enumerated, concatenated, split or broadcast; non-trivial if it has an index; distinct by type and dimensions"), run)
}

//! C22: no undefined behaviour and no leak. A workload that reaches every buffer operation, lifted
//! shortcut, shape, expression operator and special function with hostile operands; the oracle is the
//! instrument it runs under (Miri, AddressSanitizer with LeakSanitizer, UndefinedBehaviorSanitizer,
//! Memcheck). Here only the guarded outcome is looked at: a result, a returned error or an ordinary panic.
//!
//! VERIF_SECTIONS picks the parts to run, so that they can run as parallel processes.
#[macro_use]
extern crate aegir;
use aegir::buffers::shapes::*;
use aegir::buffers::{contract, contract_shape, contract_spec, Buffer, Class, ClassOf, Contract, IntoSpec, Scalar, Spec, ZipFold, ZipMap, ZipMut};
use checks::custom::{Grid, Sheet};
use checks::trees::{show_env, Sample};
use checks::*;
use dynx::gen::*;
use dynx::*;
use std::cell::Cell;
use std::hint::black_box;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use support::{drive_code, guarded, Check, Rng};

/// Live bytes: what an operation allocates it must also give back.
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Relaxed); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed); System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Counting = Counting;
/// Set in the second of two identical rounds: nothing is initialised for the first time any more.
static SECOND: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

const SMALL: bool = cfg!(miri);
thread_local! { static NARROW: Cell<bool> = const { Cell::new(false) }; }

/// Reads every byte of what came out, so that uninitialised or foreign memory is used.
fn touch<P: Prim>(d: &[P]) -> u64 {
    let h = black_box(d.iter().fold(0u64, |a, x| a.rotate_left(7) ^ x.f().to_bits()));
    // Memcheck speaks up where what happens depends on the value.
    if h == 0x5EED_0F_A_BAD_F00D { println!("a rare sum") }
    h
}
fn eat<B: Bx>(b: &B) -> u64 { B::sdims(&b.shape()).len() as u64 ^ touch(&b.data()) }
/// The same for a buffer known by its shape only.
fn eat_as<O: Bx, B: Buffer<Field = A, Shape = O::Shape>, A: Scalar>(b: &B) {
    let d = O::sdims(&b.shape());
    for i in indices(&d) { if b.get(O::ix(&i)).map_or(false, |x| x == A::zero()) { black_box(1); } }
}
/// Representation and content of a lifted buffer, without and with materialising it.
fn eat_spec<B: Bx>(s: Spec<B>) {
    black_box(touch(&spec_elems(&s).1));
    black_box(eat(&s.clone().unwrap()));
    black_box(B::sdims(&s.shape()));
}
/// One observed operation: what it was and how it ended.
fn op<T>(k: &mut Check, what: &str, case: &str, f: impl FnOnce() -> T) {
    let before = LIVE.load(Relaxed);
    let ok = guarded(f).is_ok();
    let kept = LIVE.load(Relaxed) - before;
    if SECOND.load(Relaxed) {
        k.count("operations with all memory accounted for");
        if kept != 0 { k.violation(&format!("{what}: memory not given back"), &format!("{what} of {case}: {kept} bytes more than before, for the second time")) }
    }
    k.count(if ok { "operations that returned" } else { "operations that panicked" });
    k.case(&format!("{what} {case}"), true);
}
/// Counts calls and panics at the chosen one.
struct Bomb(Cell<usize>, usize);
impl Bomb {
    fn new(r: &mut Rng, c: usize) -> Bomb { Bomb(Cell::new(0), r.below(c + 1)) }
    fn tick(&self) { let n = self.0.get(); self.0.set(n + 1); if n == self.1 { panic!("requested") } }
}
/// Values including the extremes of the field.
fn hostile<P: Prim>(r: &mut Rng) -> P {
    if P::NAME == "f64" || P::NAME == "f32" {
        if r.chance(1, 3) {
            let z = P::int(0);
            let inf = P::int(1) / z;
            return *r.pick(&[z / z, inf, z - inf, z, z - z * P::int(-1), P::int(i64::MAX), P::int(1) / P::int(i64::MAX)]);
        }
    } else if r.chance(1, 8) { return P::int(*r.pick(&[i64::MAX, i64::MIN, -1, 127, 255])) }
    P::any(r)
}
fn fill<B: Bx>(r: &mut Rng, n: usize) -> B { let d: Vec<B::P> = (0..card(&B::dims(n))).map(|_| hostile(r)).collect(); B::mkn(n, &d) }
fn lift<B: Bx>(r: &mut Rng, n: usize, rep: usize) -> Spec<B> {
    let x = if r.chance(1, 2) { B::P::int(*r.pick(&[0, 1, 2])) } else { hostile(r) };
    match rep { 0 => Spec::Raw(fill(r, n)), 1 => Spec::Full(B::sh(n), x), _ => Spec::Diagonal(B::sh(n), x) }
}
/// Indices on, just beyond and far beyond the edges.
fn edges(d: &[usize]) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for a in 0..d.len() {
        for x in [d[a], d[a] + 1, d[a] * 2 + 3, usize::MAX / 8, usize::MAX] {
            let mut i: Vec<usize> = d.iter().map(|d| d.saturating_sub(1)).collect();
            i[a] = x;
            v.push(i);
        }
    }
    v
}

// ------------------------------------------------------------------ one buffer
fn classes<B: Bx>(k: &mut Check, r: &mut Rng, n: usize) {
    type C<B> = ClassOf<B>;
    let (d, ty) = (B::dims(n), B::name(n));
    let c = card(&d);
    let x: B::P = hostile(r);
    let sh = || B::sh(n);
    op(k, "build", &ty, || eat::<B>(&C::<B>::build(sh(), |i| { black_box(B::unix(i)); x })));
    op(k, "full", &ty, || eat::<B>(&C::<B>::full(sh(), x)));
    op(k, "zeroes", &ty, || eat::<B>(&C::<B>::zeroes::<B::P>(sh())));
    op(k, "ones", &ty, || eat::<B>(&C::<B>::ones::<B::P>(sh())));
    op(k, "diagonal", &ty, || eat::<B>(&C::<B>::diagonal(sh(), x)));
    op(k, "identity", &ty, || eat::<B>(&C::<B>::identity::<B::P>(sh())));
    // Function values used as they come: a partially built buffer must not be read or dropped.
    let b = Bomb::new(r, c);
    op(k, "build, panicking", &ty, || eat::<B>(&C::<B>::build(sh(), |_| { b.tick(); x })));
    // Subsets: inside, outside, repeated, endless after a panic.
    let all = indices(&d);
    let inside: Vec<_> = all.iter().filter(|_| r.chance(2, 3)).chain(all.first()).cloned().collect();
    op(k, "build_subset", &ty, || eat::<B>(&C::<B>::build_subset(sh(), x, inside.iter().map(|i| B::ix(i)), |_| x)));
    let b = Bomb::new(r, inside.len());
    op(k, "build_subset, panicking", &ty, || eat::<B>(&C::<B>::build_subset(sh(), x, inside.iter().map(|i| B::ix(i)), |_| { b.tick(); x })));
    for e in edges(&d) {
        let mut s = inside.clone();
        s.insert(r.below(s.len() + 1), e.clone());
        op(k, "build_subset, index outside", &format!("{ty} {e:?}"), || eat::<B>(&C::<B>::build_subset(sh(), x, s.iter().map(|i| B::ix(i)), |_| x)));
        k.count("indices outside the shape");
    }
    let buf: B = fill(r, n);
    for i in &all { op(k, "get", &ty, || (black_box(buf.get(B::ix(i)).map(|x| x.f().to_bits())), black_box(buf.get_unchecked(B::ix(i)).f().to_bits()))); }
    for e in edges(&d) {
        op(k, "get outside", &format!("{ty} {e:?}"), || black_box(buf.get(B::ix(&e)).map(|x| x.f().to_bits())));
        op(k, "get_unchecked outside", &format!("{ty} {e:?}"), || black_box(buf.get_unchecked(B::ix(&e)).f().to_bits()));
        k.count("indices outside the shape");
    }
    k.count("buffers");
}

fn transforms<B: Bx>(k: &mut Check, r: &mut Rng, n: usize) {
    let (d, ty) = (B::dims(n), B::name(n));
    let c = card(&d);
    let buf: B = fill(r, n);
    op(k, "map to f64", &ty, || eat_as::<B, _, f64>(&buf.clone().map(|x| x.f())));
    op(k, "map to u8", &ty, || eat_as::<B, _, u8>(&buf.clone().map(|x| (x == B::P::int(0)) as u8)));
    op(k, "map_ref to i64", &ty, || eat_as::<B, _, i64>(&buf.map_ref(|x| x.f() as i64)));
    op(k, "map within", &ty, || eat(&buf.clone().map(|x| x)).wrapping_add(0));
    op(k, "mutate", &ty, || { let mut b = buf.clone(); b.mutate(|x| if x == B::P::int(1) { B::P::int(2) } else { x }); eat(&b) });
    op(k, "fold into a list", &ty, || buf.fold(vec![], |mut v: Vec<u64>, x| { v.push(x.f().to_bits()); v }).len());
    op(k, "sum", &ty, || buf.sum().f().to_bits());
    op(k, "constant", &ty, || eat(&buf.clone().into_constant().0));
    op(k, "into_spec", &ty, || eat_spec::<B>(buf.clone().into_spec()));
    for what in ["map", "map_ref", "mutate", "fold"] {
        let b = Bomb::new(r, c);
        op(k, &format!("{what}, panicking"), &ty, || match what {
            "map" => eat_as::<B, _, f64>(&buf.clone().map(|x| { b.tick(); x.f() })),
            "map_ref" => eat_as::<B, _, u8>(&buf.map_ref(|_| { b.tick(); 1u8 })),
            "mutate" => { let mut m = buf.clone(); let r = guarded(|| m.mutate(|x| { b.tick(); x })); eat(&m); r.unwrap() },
            _ => { black_box(buf.fold(vec![0u64], |mut v, x| { b.tick(); v.push(x.f().to_bits()); v })); },
        });
    }
    for rep in 0..3 {
        let s = lift::<B>(r, n, rep);
        let case = format!("{ty} {}", spec_rep(&s));
        op(k, "lifted", &case, || eat_spec(s.clone()));
        op(k, "lifted map", &case, || { let m = s.clone().map(|x| x.f() + 1.0); eat_as::<B, _, f64>(&m.unwrap()) });
        op(k, "lifted map keeping zero", &case, || { let m = s.clone().map(|x| (x.f() as i64) as i32); eat_as::<B, _, i32>(&m.unwrap()) });
        let b = Bomb::new(r, c);
        op(k, "lifted map, panicking", &case, || { let m = s.clone().map(|x| { b.tick(); x.f() }); eat_as::<B, _, f64>(&m.unwrap()) });
        op(k, "lifted again", &case, || eat_spec::<B>(s.clone().into_spec().unwrap().into()));
        k.count(&format!("lifted {}", spec_rep(&s)));
    }
    op(k, "lifted constructors", &ty, || { eat_spec(Spec::<B>::zeroes(B::sh(n))); eat_spec(Spec::<B>::ones(B::sh(n))); eat_spec(Spec::<B>::eye(B::sh(n))) });
}

// ------------------------------------------------------------------ two buffers
fn zip<L, R, O>(k: &mut Check, r: &mut Rng, ln: usize, rn: usize)
where L: Bx + ZipMap<R>, R: Bx<P = L::P>, O: Bx<P = L::P>, L::Shape: Broadcast<R::Shape, Shape = O::Shape>
{
    let case = format!("{} with {}", L::name(ln), R::name(rn));
    let (a, b) = (fill::<L>(r, ln), fill::<R>(r, rn));
    let c = card(&L::dims(ln)).max(card(&R::dims(rn)));
    op(k, "zip_map", &case, || a.clone().zip_map(&b, |x, y| x.f() * 2.0 - y.f()).map(|o| eat_as::<O, _, f64>(&o)).is_ok());
    op(k, "zip_map to u8", &case, || a.clone().zip_map(&b, |x, y| (x < y) as u8).map(|o| eat_as::<O, _, u8>(&o)).is_ok());
    op(k, "zip_map_id", &case, || a.clone().zip_map_id(&b, |x, y| if x < y { y } else { x }).map(|o| eat_as::<O, _, L::P>(&o)).is_ok());
    let arith = |i: usize| move |x: L::P, y: L::P| match i { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y };
    for i in 0..4 { op(k, "zip_map, field arithmetic", &case, || a.clone().zip_map_id(&b, arith(i)).map(|o| eat_as::<O, _, L::P>(&o)).is_ok()); }
    let bomb = Bomb::new(r, c);
    op(k, "zip_map, panicking", &case, || a.clone().zip_map(&b, |x, _| { bomb.tick(); x.f() }).map(|o| eat_as::<O, _, f64>(&o)).is_ok());
    op(k, "zip_shape", &case, || a.clone().zip_shape(b.shape()).map(|o| eat_as::<O, _, L::P>(&o)).is_ok());
    op(k, "broadcast", &case, || a.shape().broadcast(b.shape()).map(|s| O::sdims(&s)).is_ok());
    for rep in 0..9 {
        let (s, t) = (lift::<L>(r, ln, rep / 3), lift::<R>(r, rn, rep % 3));
        let case = format!("{} {case} {}", spec_rep(&s), spec_rep(&t));
        k.count(&format!("zip {} with {}", spec_rep(&s), spec_rep(&t)));
        op(k, "lifted zip_map", &case, || s.clone().zip_map(&t, |x, y| x.f() * 2.0 - y.f()).map(|o| eat_as::<O, _, f64>(&o.unwrap())).is_ok());
        op(k, "lifted zip_map by product", &case, || s.clone().zip_map(&t, |x, y| x.f() * y.f()).map(|o| eat_as::<O, _, f64>(&o.unwrap())).is_ok());
    }
}
fn zfold<L: Bx + ZipFold<R>, R: Bx<P = L::P>>(k: &mut Check, r: &mut Rng, ln: usize, rn: usize) {
    let case = format!("{} with {}", L::name(ln), R::name(rn));
    let (a, b) = (fill::<L>(r, ln), fill::<R>(r, rn));
    op(k, "zip_fold", &case, || a.zip_fold(&b, 0.0, |s: f64, (x, y)| s + x.f() * y.f()).is_ok());
    let bomb = Bomb::new(r, card(&L::dims(ln)));
    op(k, "zip_fold, panicking", &case, || a.zip_fold(&b, 0.0, |s: f64, _| { bomb.tick(); s }).is_ok());
}
fn zmut<L: Bx + ZipMut<R>, R: Bx<P = L::P>>(k: &mut Check, r: &mut Rng, ln: usize, rn: usize) {
    let case = format!("{} with {}", L::name(ln), R::name(rn));
    let (a, b) = (fill::<L>(r, ln), fill::<R>(r, rn));
    op(k, "zip_mut", &case, || { let mut m = a.clone(); let ok = m.zip_mut(&b, |x, y| if x < y { y } else { x }).is_ok(); eat(&m); ok });
    let bomb = Bomb::new(r, card(&L::dims(ln)));
    op(k, "zip_mut, panicking", &case, || { let mut m = a.clone(); let ok = guarded(|| m.zip_mut(&b, |x, _| { bomb.tick(); x }).is_ok()); eat(&m); ok.unwrap() });
}

fn einsum<const AX: usize, L, R, O>(k: &mut Check, r: &mut Rng)
where L: Bx + Contract<R, AX, Output = O>, R: Bx<P = L::P>, O: Bx<P = L::P>
{
    let case = format!("{} with {} over {AX}", L::name(0), R::name(0));
    let (a, b) = (fill::<L>(r, 0), fill::<R>(r, 0));
    op(k, "contract", &case, || a.clone().contract(b.clone()).map(|o| eat(&o)).is_ok());
    op(k, "free contract", &case, || contract::<AX, L, R>(a.clone(), b.clone()).map(|o| eat(&o)).is_ok());
    op(k, "contract_shape", &case, || contract_shape::<AX, L, R>(L::sh(0), R::sh(0)).map(|s| O::sdims(&s)).is_ok());
    for rep in 0..9 {
        let (s, t) = (lift::<L>(r, 0, rep / 3), lift::<R>(r, 0, rep % 3));
        let case = format!("{} {case} {}", spec_rep(&s), spec_rep(&t));
        k.count(&format!("contract {} with {}", spec_rep(&s), spec_rep(&t)));
        op(k, "contract_spec", &case, || <L as Contract<R, AX>>::contract_spec(s.clone(), t.clone()).map(eat_spec).is_ok());
        op(k, "free contract_spec", &case, || contract_spec::<AX, L, R>(s, t).map(eat_spec).is_ok());
    }
}

// ------------------------------------------------------------------ sections
macro_rules! for_fields { ($k:ident, $r:ident, |$F:ident| $body:block) => {{
    // Under the interpreter the two fields are separate sections.
    let narrow = NARROW.with(|n| n.get());
    if !SMALL || !narrow { type $F = f64; $body }
    if !SMALL || narrow { type $F = u8; $body }
    if !SMALL { { type $F = f32; $body } { type $F = i32; $body } { type $F = i64; $body } { type $F = usize; $body } }
}} }
/// Fewer types under the interpreter.
macro_rules! some_buffers { ($F:ty, |$T:ident, $n:ident| $body:block) => {{
    macro_rules! go { ($ty:ty, $len:expr) => {{ #[allow(dead_code)] type $T = $ty; let $n: usize = $len; $body }} }
    if SMALL {
        go!($F, 0); go!(($F, $F), 0); for n in [0usize, 1, 3] { go!(Vec<$F>, n); }
        go!([$F; 0], 0); go!([$F; 3], 0); go!([[$F; 3]; 2], 0); go!([[$F; 0]; 2], 0); go!([[[$F; 2]; 1]; 2], 0);
        go!([[[[$F; 2]; 1]; 2]; 1], 0); go!([[[[[$F; 1]; 2]; 1]; 2]; 1], 0); go!(Grid<$F>, 0); go!(Sheet<$F>, 17);
    } else { for_buffers!($F, |$T, $n| $body); }
}} }

/// Buffers larger than any that a shortcut for small ones, a block or a table would cover.
fn large<B: Bx + ZipMap<B> + ZipFold<B>>(k: &mut Check, r: &mut Rng, n: usize)
where B::Shape: Broadcast<B::Shape, Shape = B::Shape>
{
    type C<B> = ClassOf<B>;
    let ty = B::name(n);
    let sh = || B::sh(n);
    let z = B::P::int(0);
    let one = B::P::int(1);
    for x in [z, one, B::P::int(2)] {
        op(k, "full", &ty, || eat::<B>(&C::<B>::full(sh(), x)));
        op(k, "diagonal", &ty, || eat::<B>(&C::<B>::diagonal(sh(), x)));
        for s in [Spec::<B>::Full(sh(), x), Spec::<B>::Diagonal(sh(), x)] {
            op(k, "lifted", &ty, || eat_spec(s.clone()));
            op(k, "lifted zip_map", &ty, || s.clone().zip_map(&Spec::<B>::Full(sh(), one), |x, y| x + y).map(|o| eat_as::<B, _, B::P>(&o.unwrap())).is_ok());
        }
    }
    op(k, "build", &ty, || eat::<B>(&C::<B>::build(sh(), |i| { black_box(B::unix(i)); one })));
    op(k, "zeroes", &ty, || eat::<B>(&C::<B>::zeroes::<B::P>(sh())));
    op(k, "ones", &ty, || eat::<B>(&C::<B>::ones::<B::P>(sh())));
    op(k, "identity", &ty, || eat::<B>(&C::<B>::identity::<B::P>(sh())));
    let some: Vec<_> = indices(&B::dims(n)).into_iter().filter(|_| r.chance(1, 8)).collect();
    op(k, "build_subset", &ty, || eat::<B>(&C::<B>::build_subset(sh(), z, some.iter().map(|i| B::ix(i)), |_| one)));
    let b: B = fill(r, n);
    op(k, "map to u8", &ty, || eat_as::<B, _, u8>(&b.clone().map(|x| (x == z) as u8)));
    op(k, "map_ref to f64", &ty, || eat_as::<B, _, f64>(&b.map_ref(|x| x.f())));
    op(k, "mutate", &ty, || { let mut m = b.clone(); m.mutate(|x| if x == one { z } else { x }); eat(&m) });
    op(k, "fold", &ty, || b.fold(0u64, |a, x| a ^ x.f().to_bits()));
    op(k, "constant", &ty, || eat(&b.clone().into_constant().0));
    op(k, "into_spec", &ty, || eat_spec::<B>(b.clone().into_spec()));
    op(k, "zip_map", &ty, || b.clone().zip_map(&b, |x, y| (x < y) as u8).map(|o| eat_as::<B, _, u8>(&o)).is_ok());
    op(k, "zip_map_id", &ty, || b.clone().zip_map_id(&b, |x, y| if x < y { y } else { x }).map(|o| eat_as::<B, _, B::P>(&o)).is_ok());
    op(k, "zip_fold", &ty, || b.zip_fold(&b, 0.0, |s: f64, (x, y)| s + x.f() * y.f()).is_ok());
    op(k, "zip_shape", &ty, || b.clone().zip_shape(B::sh(n)).map(|o| eat_as::<B, _, B::P>(&o)).is_ok());
    let bomb = Bomb::new(r, card(&B::dims(n)));
    op(k, "map, panicking", &ty, || eat_as::<B, _, f64>(&b.clone().map(|x| { bomb.tick(); x.f() })));
    let bomb = Bomb::new(r, card(&B::dims(n)));
    op(k, "zip_map, panicking", &ty, || b.clone().zip_map(&b, |x, _| { bomb.tick(); x.f() }).map(|o| eat_as::<B, _, f64>(&o)).is_ok());
    k.count("large buffers");
}
fn s_large(k: &mut Check, r: &mut Rng) { for_fields!(k, r, |F| {
    for n in if SMALL { &[65usize, 130][..] } else { &[65usize, 130, 257, 513, 1025, 4097][..] } { large::<Vec<F>>(k, r, *n); }
    large::<[F; 65]>(k, r, 0); large::<[[F; 9]; 9]>(k, r, 0);
    einsum::<1, [F; 65], [F; 65], F>(k, r); einsum::<1, [[F; 9]; 9], [[F; 9]; 9], [[F; 9]; 9]>(k, r);
    if !SMALL { large::<[F; 257]>(k, r, 0); large::<[[F; 65]; 3]>(k, r, 0); large::<[[[F; 5]; 5]; 5]>(k, r, 0); large::<[F; 1025]>(k, r, 0); large::<[[F; 33]; 65]>(k, r, 0); einsum::<1, [[F; 33]; 65], [[F; 2]; 33], [[F; 2]; 65]>(k, r); einsum::<0, [F; 65], [F; 33], [[F; 33]; 65]>(k, r); }
}) }
fn s_classes(k: &mut Check, r: &mut Rng) { for_fields!(k, r, |F| { some_buffers!(F, |T, n| { classes::<T>(k, r, n); }); }) }
fn s_transforms(k: &mut Check, r: &mut Rng) { for_fields!(k, r, |F| { some_buffers!(F, |T, n| { transforms::<T>(k, r, n); }); }) }
fn s_zips(k: &mut Check, r: &mut Rng) { for_fields!(k, r, |F| {
    macro_rules! a { ($($T:ty),+ $(,)?) => { $(
        zip::<$T, $T, $T>(k, r, 0, 0); zip::<$T, F, $T>(k, r, 0, 0); zip::<F, $T, $T>(k, r, 0, 0);
        zfold::<$T, $T>(k, r, 0, 0); zfold::<$T, F>(k, r, 0, 0); zmut::<$T, $T>(k, r, 0, 0); zmut::<$T, F>(k, r, 0, 0);
    )+ } }
    zip::<F, F, F>(k, r, 0, 0); zfold::<F, F>(k, r, 0, 0);
    zip::<(F, F), (F, F), (F, F)>(k, r, 0, 0); zfold::<(F, F), (F, F)>(k, r, 0, 0);
    let lens: &[(usize, usize)] = if SMALL { &[(2, 2), (1, 3), (3, 1), (0, 0), (0, 2)] } else { &[(0, 0), (1, 1), (5, 5), (64, 64), (1, 3), (3, 1), (0, 4), (4, 0), (5, 64), (64, 5)] };
    for (p, q) in lens.iter().copied() {
        zip::<Vec<F>, Vec<F>, Vec<F>>(k, r, p, q); zfold::<Vec<F>, Vec<F>>(k, r, p, q);
        zip::<Vec<F>, F, Vec<F>>(k, r, p, 0); zip::<F, Vec<F>, Vec<F>>(k, r, 0, q);
    }
    zip::<Grid<F>, Grid<F>, Grid<F>>(k, r, 0, 0);
    zip::<Sheet<F>, Sheet<F>, Sheet<F>>(k, r, 17, 10);
    a!([F; 0], [F; 3], [[F; 3]; 2], [[F; 0]; 2], [[[F; 2]; 1]; 2], [[[[F; 2]; 1]; 2]; 1]);
    if !SMALL { a!([F; 1], [F; 33], [[F; 1]; 1], [[F; 2]; 0], [[F; 4]; 4], [[F; 1]; 7], [[[F; 3]; 3]; 3], [[[F; 0]; 2]; 2], [[[[F; 2]; 2]; 2]; 2], [[[[[F; 2]; 3]; 1]; 2]; 2]); }
}) }
fn s_contract(k: &mut Check, r: &mut Rng) { for_fields!(k, r, |F| {
    macro_rules! v { ($($n:literal)*) => { $( einsum::<0, [F; $n], F, [F; $n]>(k, r); einsum::<0, F, [F; $n], [F; $n]>(k, r); einsum::<1, [F; $n], [F; $n], F>(k, r); )* } }
    macro_rules! m { ($($n:literal $m:literal;)*) => { $(
        einsum::<0, [[F; $m]; $n], F, [[F; $m]; $n]>(k, r); einsum::<0, F, [[F; $m]; $n], [[F; $m]; $n]>(k, r); einsum::<0, [F; $n], [F; $m], [[F; $m]; $n]>(k, r);
        einsum::<1, [[F; $m]; $n], [F; $m], [F; $n]>(k, r); einsum::<1, [F; $n], [[F; $m]; $n], [F; $m]>(k, r);
    )* } }
    macro_rules! p { ($($n:literal $z:literal $m:literal;)*) => { $( einsum::<1, [[F; $z]; $n], [[F; $m]; $z], [[F; $m]; $n]>(k, r); )* } }
    einsum::<0, F, F, F>(k, r); einsum::<1, F, F, F>(k, r);
    v!(0 3);
    m!(2 2; 2 3; 3 2; 0 2; 2 0;);
    p!(2 2 2; 2 3 4; 3 2 3; 2 0 2; 3 2 2; 2 2 3;);
    if !SMALL { v!(1 2 5 33); m!(1 1; 1 4; 4 1; 5 5; 2 7; 7 2; 0 0;); p!(1 1 1; 4 4 4; 5 1 5; 1 5 1; 0 2 2; 2 3 2; 3 3 1; 1 3 3;); }
}) }

fn walk<S: Shape>(k: &mut Check, s: S, all: bool) {
    let case = format!("{s:?}");
    op(k, "enumerate", &case, || {
        let mut it = s.indices();
        let mut c = 0usize;
        while let Some(i) = it.next() { black_box((s.contains(i), i.is_diagonal(), it.size_hint())); c += 1; if c > 300 { break } }
        for _ in 0..3 { black_box(it.next()); }
        black_box((c, s.cardinality(), format!("{s}"), s.is_equivalent(&s)));
    });
    if all { op(k, "enumerate with adaptors", &case, || { black_box((s.indices().count(), s.indices().nth(1), s.indices().nth(400), s.indices().last(), s.indices().skip(1).step_by(2).count())); }); }
    k.count("shapes");
}
fn s_shapes(k: &mut Check, r: &mut Rng) {
    walk(k, S0, true); walk(k, S1::<0>, true); walk(k, S1::<1>, true); walk(k, S1::<5>, true);
    walk(k, S2::<0, 3>, true); walk(k, S2::<3, 0>, true); walk(k, S2::<2, 3>, true); walk(k, S2::<1, 1>, true);
    walk(k, S3::<2, 1, 3>, true); walk(k, S3::<0, 1, 3>, true); walk(k, S4::<2, 1, 2, 1>, true); walk(k, S4::<1, 0, 2, 1>, true); walk(k, S5::<1, 2, 1, 2, 1>, true); walk(k, S5::<1, 2, 1, 0, 1>, true); walk(k, S6::<1, 1, 2, 1, 1, 2>, true); walk(k, S6::<1, 1, 2, 1, 1, 0>, true);
    for d in [[0usize, 0], [0, 3], [3, 0], [1, 1], [2, 3], [usize::MAX, 0], [0, usize::MAX]] { walk(k, SDynamic(d), true); walk(k, SDynamic([d[0].min(4)]), true); walk(k, SDynamic([d[0], d[1], 0]), true); }
    // Sizes whose products do not fit: only the first steps are taken.
    for d in [[usize::MAX, usize::MAX], [usize::MAX, 2], [1 << 40, 1 << 40]] { walk(k, SDynamic(d), false); walk(k, SDynamic([d[0]]), false); walk(k, SDynamic([d[0], 1, d[1]]), false); }
    for _ in 0..if SMALL { 6 } else { 100 } {
        let mut q = || [r.below(4), r.below(4)];
        let (a, b) = (SDynamic(q()), SDynamic(q()));
        op(k, "shapes broadcast and concatenated", &format!("{a:?} {b:?}"), || { black_box((a.broadcast(b).map_err(|e| (e.to_string(), e.reverse())).is_ok(), <SDynamic<2> as Concat<SDynamic<2>>>::concat(a, b))); });
        op(k, "split", &format!("{a:?}"), || { black_box((S4::<2, 1, 2, 2>.split(), S2::<2, 3>.split(), S4::<2, 1, 2, 2>::split_index([1, 0, 1, 1]))); });
    }
}

fn s_duals(k: &mut Check, r: &mut Rng) {
    use aegir::{dual, Dual};
    macro_rules! go { ($($F:ident)*) => { $( for _ in 0..if SMALL { 4 } else { 60 } {
        let mut x = || hostile::<$F>(r);
        let (a, b) = (dual!(x(), x()), dual!(x(), x()));
        let case = format!("{a:?} {b:?}");
        op(k, "dual sum", &case, || black_box((a.clone() + b.clone(), a.clone() + &b, a.clone() + b.value)));
        op(k, "dual difference", &case, || black_box((a.clone() - b.clone(), a.clone() - &b, a.clone() - b.value)));
        op(k, "dual product", &case, || black_box((a.clone() * b.clone(), a.clone() * &b, a.clone() * b.value)));
        k.count("duals");
    } )* } }
    go!(f64 f32 i32 u8);
}

/// Every question an expression answers.
fn ask(k: &mut Check, d: &AnyDyn, env: &MCtx, case: &str, deep: bool) {
    // Each on its own copy of the context: filling a cache is not a leak.
    macro_rules! op { ($what:expr, |$e:ident| $b:expr) => { op(k, $what, case, || { #[allow(unused_mut)] let mut $e = env.clone(); black_box($b); }) } }
    op!("evaluate", |e| d.value(&mut e));
    op!("evaluate lifted", |e| d.spec(&mut e));
    op!("evaluate shape", |e| d.shape(&mut e));
    op(k, "text", case, || black_box(d.text()));
    op(k, "clone and drop", case, || drop(d.cloned()));
    for i in 0..2 {
        op!("derivative", |e| d.sadj(i).map(|a| { black_box((a.value(&mut e), a.spec(&mut e), a.shape(&mut e), a.text())); if deep { if let Some(b) = a.sadj(1 - i) { black_box((b.value(&mut e), b.spec(&mut e))); } } }));
        op!("derivative helpers", |e| (d.sadj_eval(i, &mut e), d.sdual(i, &mut e)));
        op!("vector derivative", |e| (d.vadj(i).map(|a| (a.value(&mut e), a.spec(&mut e), a.shape(&mut e))), d.vdual(i, &mut e)));
    }
}
fn native(n: &Node) -> bool {
    let mut b = false;
    n.walk(&mut |n| if let K::Un(u, _) = &n.k { b |= matches!(u, U::Gamma | U::DiGamma | U::LogGamma | U::Factorial | U::Erf | U::Erfc) });
    b
}
fn s_trees(k: &mut Check, r: &mut Rng) {
    for i in 0..if SMALL { 12 } else { 400 } {
        let tag = checks::trees::rand_tag(r);
        let depth = if SMALL { 1 + r.below(3) } else { 1 + r.below(5) };
        let o = GenOpt { lifted: r.chance(2, 3), order: if r.chance(1, 2) && tag != Tag::Vc { 1 } else { 0 }, caches: r.chance(1, 4), domain: !SMALL && r.chance(1, 2), ..Default::default() };
        let mut s = Sample::new(r, tag, depth, o, true);
        if SMALL && native(&s.node) { continue }
        let d = build(&s.node, s.vlen);
        let case = s.node.show();
        ask(k, &d, &s.env, &case, i % 2 == 0);
        // The same expression with undefined variables, and at hostile values.
        let (kind, ix) = (r.below(10), r.below(NVAR) as u8);
        s.env.clear_slot(kind, ix);
        ask(k, &d, &s.env, &case, false);
        let mut e = s.env.clone();
        for x in e.s.iter_mut().flatten() { *x = Slot::raw(hostile::<f64>(r)); }
        for x in e.v3.iter_mut().flatten() { *x = Slot::raw([hostile(r), hostile(r), hostile(r)]); }
        for x in e.vc.iter_mut().flatten() { let c = r.below(4); *x = Slot::raw((0..c).map(|_| hostile(r)).collect()); }
        ask(k, &d, &e, &case, false);
        black_box(show_env(&s.node, &s.env));
        k.count("expressions");
    }
}

fn s_contexts(k: &mut Check, r: &mut Rng) {
    use aegir::ids::{X, Y, Z};
    use aegir::{ctx_type, Context, Differentiable, Function, Identifier, Node as _, Read, Write};
    ctx_type!(Three { x: X, y: Y, z: Z });
    for _ in 0..if SMALL { 5 } else { 100 } {
        let v: Vec<f64> = (0..r.below(6)).map(|_| hostile(r)).collect();
        let (a, b) = (hostile::<f64>(r), [hostile::<f64>(r), hostile(r), hostile(r)]);
        op(k, "generated context", "written and read", || {
            let mut c = Three { x: v.clone(), y: b, z: a };
            c.write(X, v.clone()); c.write(X, vec![]); c.write(X, v.clone());
            black_box((c.read(X).map(|x| touch(&x)), c.read_spec(Y).map(eat_spec), c.read_shape(Z).is_some()));
            let f = X.into_var().mul(Z.into_var());
            black_box(f.evaluate(&mut c).map(|x| touch(&x)).is_ok());
            black_box(Y.into_var().dot(Y.into_var()).evaluate(&mut c).is_ok());
            let h = Y.into_var().mul(Z.into_var());
            black_box(h.adjoint(Z).evaluate_spec(&mut c).map(eat_spec).is_ok());
            black_box(h.evaluate_shape(&mut c).is_ok());
            drop(c);
        });
        op(k, "adhoc context", "macro", || {
            let (x, y, z) = (X.into_var(), Y.into_var(), Z.into_var());
            let g = aegir!((x + 1.0) * y.sigmoid() - z.squared());
            black_box(g.evaluate(aegir::ctx! { X = a, Y = b[0], Z = b[1] }).is_ok());
            black_box(g.adjoint(Y).evaluate(aegir::ctx! { X = a, Y = b[0], Z = b[1] }).is_ok());
            black_box(g.to_string());
        });
        k.count("contexts");
    }
}

fn s_special(k: &mut Check, r: &mut Rng) {
    if cfg!(miri) { return }
    checks::special::sweep(r, &mut |what, case, f| { op(k, what, case, || f()); k.count("special function calls"); });
}

fn run(k: &mut Check) {
    let want = std::env::var("VERIF_SECTIONS").unwrap_or_else(|_| "classes,transforms,zips,contract,shapes,duals,trees,contexts,special,large".into());
    let sections = [("classes", s_classes as fn(&mut Check, &mut Rng), 4), ("transforms", s_transforms, 4), ("zips", s_zips, 4), ("contract", s_contract, 6), ("shapes", s_shapes, 2), ("duals", s_duals, 4), ("trees", s_trees, 6), ("contexts", s_contexts, 4), ("special", s_special, 2), ("large", s_large, 1)];
    if want == "none" { std::process::exit(0) }
    for w in want.split(',') {
        NARROW.with(|n| n.set(w.ends_with('8')));
        let (name, f, rounds) = *sections.iter().find(|s| s.0 == w.trim_end_matches('8')).expect("a section");
        let rounds = if SMALL { k.n(if name == "trees" { 4 } else if name == "contexts" { 3 } else { 1 }, 8) } else { k.n(rounds, rounds * 10) };
        for t in 0..rounds {
            for second in if SMALL { 0..1 } else { 0..2 } {
                SECOND.store(second == 1, Relaxed);
                let mut r = k.rng(name, t as u64);
                f(k, &mut r);
            }
            k.count(&format!("rounds of {name}"));
        }
    }
    k.need("operations that returned", 20);
}

fn main() -> std::process::ExitCode {
    let code = drive_code(Check::new("C22", "one operation executed under an instrument that reports undefined behaviour or leaks; distinct by operation, types, shapes and operands shown"), run);
    std::process::ExitCode::from(code as u8)
}

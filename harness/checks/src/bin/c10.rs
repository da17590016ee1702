//! C10: a generated context is a faithful store. Context types are generated by tools/gen_c10.py;
//! this monitor drives histories of writes and reads against a table of what was last written.
use aegir::buffers::shapes::Shaped;
use aegir::buffers::Spec;
use aegir::{ctx, ctx_type, ids, Context, Function, Identifier, Node as _, Read, Write};
use checks::*;
use support::*;

/// Shape and elements, written so that every bit pattern of a value is told apart.
#[derive(Clone, Debug, PartialEq)]
pub struct Ty { dims: Vec<usize>, data: Vec<String> }
fn show<P: Prim>(x: &P) -> String { format!("{x:?}") }
fn seen<B: Bx>(b: &B) -> Ty { Ty { dims: B::sdims(&b.shape()), data: b.data().iter().map(show).collect() } }

/// Values of every kind, so that no two writes are alike: also infinities, not-a-number, signed zeros.
fn any<P: Prim>(r: &mut Rng) -> P {
    if P::NAME.starts_with('f') {
        let z = P::int(0);
        match r.below(12) { 0 => z / z, 1 => P::int(1) / z, 2 => z * P::int(-1), 3 => P::int(-1) / z, _ => P::int(r.int(-1000, 1000)) / P::int(r.int(1, 64)) }
    } else { P::int(r.int(0, 120)) }
}
pub fn make<B: Bx>(r: &mut Rng) -> (B, Ty) {
    let n = *r.pick(&[0, 1, 2, 3, 3, 5]);
    let d: Vec<B::P> = (0..card(&B::dims(n))).map(|_| any(r)).collect();
    let b = B::mkn(n, &d);
    let t = Ty { dims: B::dims(n), data: d.iter().map(show).collect() };
    (b, t)
}
/// A lifted buffer and what it stands for.
fn lifted<B: Bx>(r: &mut Rng) -> (Spec<B>, Ty) {
    let n = *r.pick(&[0, 1, 2, 3, 3, 5]);
    let s = match r.below(3) { 0 => Spec::Raw(make::<B>(r).0), 1 => Spec::Full(B::sh(n), any(r)), _ => Spec::Diagonal(B::sh(n), any(r)) };
    let (dims, d) = spec_elems(&s);
    (s, Ty { dims, data: d.iter().map(show).collect() })
}

type Wr<C> = Box<dyn Fn(&mut C, &mut Rng) -> Ty>;
struct Slot<C> { name: &'static str, cache: bool, now: Option<Ty>, writes: Vec<(&'static str, Wr<C>)>, clear: Box<dyn Fn(&mut C)>, reads: Box<dyn Fn(&mut C) -> Vec<(&'static str, Result<Option<Ty>, String>)>> }
pub struct Table<C> { slots: Vec<Slot<C>>, extras: Vec<(&'static str, Box<dyn Fn(&C) -> String>)>, cached: Vec<(usize, usize, Box<dyn Fn(&mut C) -> Result<Ty, String>>)> }
impl<C: Context> Table<C> {
    pub fn new() -> Self { Table { slots: vec![], extras: vec![], cached: vec![] } }
    pub fn of(_: &C) -> Self { Self::new() }
    pub fn extra(&mut self, name: &'static str, f: impl Fn(&C) -> String + 'static) { self.extras.push((name, Box::new(f))) }
    pub fn slot<I, B>(&mut self, id: I, name: &'static str, cache: bool, now: Option<Ty>, set: impl Fn(&mut C, B) + 'static, clear: impl Fn(&mut C) + 'static)
    where
        I: Identifier + 'static, B: Bx + 'static, C: Read<I, Buffer = B> + Write<I> + 'static,
    {
        let writes: Vec<(&'static str, Wr<C>)> = vec![
            ("write", Box::new(move |c, r| { let (b, t) = make::<B>(r); c.write(id, b); t })),
            ("write through a mutable borrow", Box::new(move |c, r| { let (b, t) = make::<B>(r); let mut m = c; Write::<I>::write(AsMut::<C>::as_mut(&mut m), id, b); t })),
            ("write lifted", Box::new(move |c, r| { let (s, t) = lifted::<B>(r); c.write_spec(id, s); t })),
            ("assign the field", Box::new(move |c, r| { let (b, t) = make::<B>(r); set(c, b); t })),
        ];
        let reads = move |c: &mut C| {
            let shape = |s| Ty { dims: B::sdims(&s), data: vec![] };
            vec![
                ("read", guarded(|| Read::<I>::read(&*c, id).map(|b| seen(&b)))),
                ("read lifted", guarded(|| Read::<I>::read_spec(&*c, id).map(|s| { let (dims, d) = spec_elems(&s); Ty { dims, data: d.iter().map(show).collect() } }))),
                ("read the shape", guarded(|| Read::<I>::read_shape(&*c, id).map(shape))),
                ("read through a mutable borrow", guarded(|| { let mut m = &mut *c; Read::<I>::read(&*AsMut::<C>::as_mut(&mut m), id).map(|b| seen(&b)) })),
                ("evaluate the variable", guarded(|| id.into_var().evaluate(&mut *c).ok().map(|b: B| seen(&b)))),
                ("evaluate the variable, lifted", guarded(|| id.into_var().evaluate_spec(&mut *c).ok().map(|s| seen(&s.unwrap())))),
                ("evaluate the shape of the variable", guarded(|| id.into_var().evaluate_shape(&mut *c).ok().map(shape))),
            ]
        };
        self.slots.push(Slot { name, cache, now, writes, clear: Box::new(clear), reads: Box::new(reads) });
    }
    pub fn cached<I, J, B>(&mut self, plain: I, cache: J, pname: &str, cname: &str)
    where
        I: Identifier + 'static, J: Identifier + 'static, B: Bx + 'static, C: Read<I, Buffer = B> + Read<J, Buffer = B> + Write<J> + 'static,
    {
        let at = |n: &str| self.slots.iter().position(|s| s.name == n).unwrap();
        let (p, c) = (at(pname), at(cname));
        self.cached.push((p, c, Box::new(move |c| guarded(|| plain.into_var().cached(cache).evaluate(&mut *c).map(|b: B| seen(&b)).map_err(|e| e.to_string())).and_then(|r| r))));
    }
}
pub fn history<C: Context + 'static>(k: &mut Check, what: &str, new: &mut dyn FnMut(&mut Rng) -> (C, Table<C>)) {
    for h in 0..k.n(8, 400) {
        if k.many() { return }
        let mut r = k.rng(what, h as u64);
        let (mut c, mut t) = new(&mut r);
        let mut log: Vec<String> = vec!["constructed".into()];
        let extras: Vec<String> = t.extras.iter().map(|(_, f)| f(&c)).collect();
        k.count("histories");
        for step in 0..k.n(40, 120) {
            // Every identifier, in a random order, by every way of reading.
            let mut order: Vec<usize> = (0..t.slots.len()).collect();
            for i in (1..order.len()).rev() { order.swap(i, r.below(i + 1)) }
            for i in order {
                let s = &t.slots[i];
                for (how, got) in (s.reads)(&mut c) {
                    let want = s.now.as_ref().map(|w| if how.contains("shape") { Ty { dims: w.dims.clone(), data: vec![] } } else { w.clone() });
                    k.count("reads");
                    if got != Ok(want.clone()) {
                        k.violation(&format!("{what}: {how} {}", s.name), &format!("{how} {} gives {got:?}\nexpected {want:?}\nhistory: {}", s.name, log.join("; ")));
                        return;
                    }
                }
            }
            for (j, (n, f)) in t.extras.iter().enumerate() {
                if f(&c) != extras[j] { k.violation(&format!("{what}: field {n}"), &format!("a field without an identifier changed: {} was {}\nhistory: {}", f(&c), extras[j], log.join("; "))); return }
            }
            k.case(&format!("{what} #{h} step {step}: {}", log.last().unwrap()), step > 0);
            if !t.cached.is_empty() && r.chance(1, 5) {
                let (p, q, f) = &t.cached[r.below(t.cached.len())];
                let (p, q) = (*p, *q);
                let got = f(&mut c);
                let want = t.slots[q].now.clone().or(t.slots[p].now.clone()).unwrap();
                log.push(format!("evaluate {} cached in {}", t.slots[p].name, t.slots[q].name));
                k.count("cached evaluations");
                if got != Ok(want.clone()) { k.violation(&format!("{what}: {}", log.last().unwrap()), &format!("gives {got:?}, expected {want:?}\nhistory: {}", log.join("; "))); return }
                t.slots[q].now = Some(want);
                continue;
            }
            let i = r.below(t.slots.len());
            let s = &mut t.slots[i];
            if s.cache && r.chance(1, 5) {
                (s.clear)(&mut c);
                s.now = None;
                log.push(format!("clear {}", s.name));
                k.count("clears");
            } else {
                let (how, w) = &s.writes[r.below(s.writes.len())];
                let v = w(&mut c, &mut r);
                log.push(format!("{how} {} = {:?}", s.name, v));
                k.count(if s.cache { "writes of caches" } else { "writes of variables" });
                s.now = Some(v);
            }
        }
    }
    k.count("context types");
}
mod stores {
    #![allow(unused, non_camel_case_types, non_snake_case, clippy::all)]
    use super::*;
    include!(concat!(env!("VERIF_GEN"), "/c10.rs"));
}
fn run(k: &mut Check) {
    stores::all(k);
    if k.violated() { return }
    k.need("context types", 25);
    k.need("reads", 50_000);
    k.need("writes of caches", 500);
    k.need("cached evaluations", 20);
}
fn main() { drive(Check::new("C10", "state of a context after a write or clear of a random history"), run) }

//! Identifiers and the monitored context.
use aegir::buffers::{shapes::ShapeOf, Buffer, Spec};
use aegir::buffers::shapes::Shaped;
use aegir::{Context, Identifier, Read, Write};
use std::cell::RefCell;

/// Identifier number `self.0` of kind `K` (one kind per buffer type).
#[derive(Clone, Copy, Eq, Hash)]
pub struct Id<const K: usize>(pub u8);

impl<const A: usize, const B: usize> PartialEq<Id<B>> for Id<A> {
    fn eq(&self, o: &Id<B>) -> bool { A == B && self.0 == o.0 }
}
pub const KIND_NAMES: [&str; 12] = ["x", "p", "v", "a", "b", "c", "d", "t", "w", "u", "k", "q"];
pub fn id_name(kind: usize, ix: u8) -> String { format!("{}{}", KIND_NAMES[kind], ix) }
impl<const K: usize> std::fmt::Display for Id<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", id_name(K, self.0)) }
}
impl<const K: usize> std::fmt::Debug for Id<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", id_name(K, self.0)) }
}
impl<const K: usize> Identifier for Id<K> {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode { Value, Spec, Shape }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev { Read(usize, u8, Mode), Write(usize, u8), Eval(u32, Mode) }

#[derive(Clone)]
pub struct Slot<B: Buffer> { pub dense: B, pub spec: Spec<B> }
impl<B: Buffer> Slot<B> {
    pub fn raw(b: B) -> Self { Slot { dense: b.clone(), spec: Spec::Raw(b) } }
}

/// Perturbs the schedule of a thread. Only relaxed atomics: it must not order the threads' memory.
#[derive(Clone, Default)]
pub struct Jitter { pub state: std::cell::Cell<u64>, pub stamps: RefCell<Vec<u32>>, pub keep: usize }
pub static CLOCK: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
impl Jitter {
    pub fn new(seed: u64, keep: usize) -> Self { Jitter { state: std::cell::Cell::new(seed | 1), stamps: RefCell::new(Vec::with_capacity(keep)), keep } }
    pub fn pass(&self) {
        let mut x = self.state.get();
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        self.state.set(x);
        let mut s = self.stamps.borrow_mut();
        if s.len() < self.keep { s.push(CLOCK.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) }
        match x % 64 { 0..=3 => std::thread::yield_now(), 4..=15 => for _ in 0..(x >> 32) % 400 { std::hint::spin_loop() }, _ => {} }
    }
}

macro_rules! mctx {
    ($($k:literal $field:ident $B:ty;)*) => {
        /// A context whose accesses are recorded, whose variables may be undefined, and which hands
        /// out each variable in the representation it was given.
        #[derive(Clone, Default)]
        pub struct MCtx {
            $(pub $field: Vec<Option<Slot<$B>>>,)*
            pub log: RefCell<Vec<Ev>>,
            pub tracing: bool,
            /// Delays injected at every access, and the order of accesses among threads.
            pub jitter: Option<Box<Jitter>>,
        }
        impl AsMut<MCtx> for MCtx { fn as_mut(&mut self) -> &mut MCtx { self } }
        impl Context for MCtx {}
        impl MCtx {
            pub fn new() -> Self { Self::default() }
            pub fn ev(&self, e: Ev) { if let Some(j) = &self.jitter { j.pass() } if self.tracing { self.log.borrow_mut().push(e) } }
            pub fn take_log(&self) -> Vec<Ev> { std::mem::take(&mut *self.log.borrow_mut()) }
            /// Exact contents, bit for bit (not the log).
            pub fn fingerprint(&self) -> String {
                let mut s = String::new();
                $(for (i, v) in self.$field.iter().enumerate() {
                    s.push_str(&format!("{}{}={:?};", KIND_NAMES[$k], i, v.as_ref().map(|v| (bits(&v.dense.map_ref(|x| x)), format!("{:?}", v.spec)))));
                })*
                s
            }
            pub fn clear_slot(&mut self, kind: usize, ix: u8) {
                match kind { $($k => { if let Some(s) = self.$field.get_mut(ix as usize) { *s = None } },)* _ => unreachable!() }
            }
            pub fn defined(&self, kind: usize, ix: u8) -> bool {
                match kind { $($k => self.$field.get(ix as usize).map_or(false, |s| s.is_some()),)* _ => unreachable!() }
            }
        }
        $(
            impl Read<Id<$k>> for MCtx {
                type Buffer = $B;
                fn read(&self, id: Id<$k>) -> Option<$B> {
                    self.ev(Ev::Read($k, id.0, Mode::Value));
                    self.$field.get(id.0 as usize)?.as_ref().map(|s| s.dense.clone())
                }
                fn read_spec(&self, id: Id<$k>) -> Option<Spec<$B>> {
                    self.ev(Ev::Read($k, id.0, Mode::Spec));
                    self.$field.get(id.0 as usize)?.as_ref().map(|s| s.spec.clone())
                }
                fn read_shape(&self, id: Id<$k>) -> Option<ShapeOf<$B>> {
                    self.ev(Ev::Read($k, id.0, Mode::Shape));
                    self.$field.get(id.0 as usize)?.as_ref().map(|s| s.dense.shape())
                }
            }
            impl Write<Id<$k>> for MCtx {
                fn write(&mut self, id: Id<$k>, val: $B) {
                    self.ev(Ev::Write($k, id.0));
                    let i = id.0 as usize;
                    if self.$field.len() <= i { self.$field.resize(i + 1, None); }
                    self.$field[i] = Some(Slot::raw(val));
                }
            }
        )*
    };
}
fn bits<T: std::fmt::Debug>(t: &T) -> String { format!("{:?}", t) }

pub type V2 = [f64; 2];
pub type V3 = [f64; 3];
pub type M22 = [[f64; 2]; 2];
pub type M23 = [[f64; 3]; 2];
pub type M32 = [[f64; 2]; 3];
pub type M33 = [[f64; 3]; 3];
pub type T3 = [[[f64; 2]; 3]; 2];
pub type Vc = Vec<f64>;
pub type Tp = (f64, f64);

mctx! {
    0 s f64; 1 v2 V2; 2 v3 V3; 3 m22 M22; 4 m23 M23; 5 m32 M32; 6 m33 M33; 7 t3 T3; 8 vc Vc; 9 tp Tp;
    10 ks f64; 11 kv V3;
}

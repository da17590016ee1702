//! The mathematical functions of the system's library, looked up at run time: the native library linked into
//! every program under test replaces `sin`, `exp`, `pow`, ... of the whole program with its own, so the
//! references of the checks may not go through the standard library's methods.
use std::sync::OnceLock;

extern "C" { fn dlopen(path: *const std::ffi::c_char, flags: i32) -> *mut u8; fn dlsym(handle: *mut u8, name: *const std::ffi::c_char) -> *mut u8; }
fn find(name: &std::ffi::CStr) -> usize {
    let p = unsafe { dlsym(dlopen(c"libm.so.6".as_ptr(), 2), name.as_ptr()) };
    assert!(!p.is_null(), "the system has no {:?}", name);
    p as usize
}
macro_rules! one { ($($f:ident $name:literal $std:expr;)*) => { $(
    pub fn $f(x: f64) -> f64 {
        if cfg!(miri) { let g: fn(f64) -> f64 = $std; return g(x) }
        static P: OnceLock<usize> = OnceLock::new();
        let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(*P.get_or_init(|| find($name))) };
        f(x)
    }
)* } }
fn no(_: f64) -> f64 { panic!("not available under Miri") }
one! {
    sin c"sin" f64::sin; cos c"cos" f64::cos; tan c"tan" f64::tan; sinh c"sinh" f64::sinh; cosh c"cosh" f64::cosh; tanh c"tanh" f64::tanh;
    asin c"asin" f64::asin; acos c"acos" f64::acos; atan c"atan" f64::atan; asinh c"asinh" f64::asinh; acosh c"acosh" f64::acosh; atanh c"atanh" f64::atanh;
    exp c"exp" f64::exp; ln c"log" f64::ln; ln_1p c"log1p" f64::ln_1p; exp_m1 c"expm1" f64::exp_m1;
    tgamma c"tgamma" no; lgamma c"lgamma" no; erf c"erf" no; erfc c"erfc" no;
}
pub fn pow(x: f64, y: f64) -> f64 {
    if cfg!(miri) { return x.powf(y) }
    static P: OnceLock<usize> = OnceLock::new();
    let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(*P.get_or_init(|| find(c"pow"))) };
    f(x, y)
}

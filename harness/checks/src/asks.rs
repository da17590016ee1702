//! Everything an expression can be asked, and the answer bit for bit.
use dynx::gen::*;
use dynx::*;
use support::*;

/// What is asked of an expression.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ask { Value, Spec, Shape, Text, Has, SAdj(u8), SAdjSpec(u8), SAdjShape(u8), SHelp(u8), SDual(u8), SAdj2(u8, u8), VAdj(u8), VHelp(u8), VDual(u8) }
/// The answer, bit for bit.
fn bits(f: &Flat) -> String { format!("{:?}{:?}", f.0, f.1.iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect::<Vec<_>>()) }
fn out(o: Out<Flat>) -> String { match o { Out::Ok(f) => bits(&f), Out::Err(e) => format!("error {:?}", e), Out::Panic(_) => "panic".into() } }
pub fn ask(d: &AnyDyn, e: &mut MCtx, a: Ask) -> String {
    let no = "not available".to_string();
    let sp = |o: Out<(&'static str, Flat, Flat)>| match o { Out::Ok((r, p, q)) => format!("{r} {} {}", bits(&p), bits(&q)), Out::Err(e) => format!("error {:?}", e), Out::Panic(_) => "panic".into() };
    let du = |o: Out<(Flat, Flat)>| match o { Out::Ok((p, q)) => format!("{} {}", bits(&p), bits(&q)), Out::Err(e) => format!("error {:?}", e), Out::Panic(_) => "panic".into() };
    let s = |i: u8| guarded(|| d.sadj(i)).ok().flatten();
    match a {
        Ask::Value => out(d.value(e)),
        Ask::Spec => sp(d.spec(e)),
        Ask::Shape => format!("{:?}", d.shape(e)),
        Ask::Text => format!("{:?}", guarded(|| d.text()).ok()),
        Ask::Has => (0..10).flat_map(|k| (0..4).map(move |i| (k, i))).map(|(k, i)| if d.has(k, i) { '1' } else { '0' }).collect(),
        Ask::SAdj(i) => s(i).map_or(no, |d| out(d.value(e))),
        Ask::SAdjSpec(i) => s(i).map_or(no, |d| sp(d.spec(e))),
        Ask::SAdjShape(i) => s(i).map_or(no, |d| format!("{:?}", d.shape(e))),
        Ask::SHelp(i) => d.sadj_eval(i, e).map_or(no, out),
        Ask::SDual(i) => d.sdual(i, e).map_or(no, du),
        Ask::SAdj2(i, j) => s(i).and_then(|d| guarded(|| d.sadj(j)).ok().flatten()).map_or(no, |d| out(d.value(e))),
        Ask::VAdj(i) => guarded(|| d.vadj(i)).ok().flatten().map_or(no, |d| out(d.value(e))),
        Ask::VHelp(i) => d.vadj_eval(i, e).map_or(no, out),
        Ask::VDual(i) => d.vdual(i, e).map_or(no, du),
    }
}
pub fn any(r: &mut Rng) -> Ask {
    let i = r.below(NVAR) as u8;
    match r.below(16) { 0..=2 => Ask::Value, 3..=4 => Ask::Spec, 5 => Ask::Shape, 6 => Ask::Text, 7 => Ask::Has, 8 => Ask::SAdj(i), 9 => Ask::SAdjSpec(i), 10 => Ask::SAdjShape(i), 11 => Ask::SHelp(i), 12 => Ask::SDual(i), 13 => Ask::SAdj2(i, r.below(NVAR) as u8), 14 => Ask::VAdj(i), _ => if r.chance(1, 2) { Ask::VHelp(i) } else { Ask::VDual(i) } }
}


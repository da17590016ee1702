//! C22: the native special functions, built with UndefinedBehaviorSanitizer: it reports on the
//! standard error output, each place once.
use std::cell::Cell;
use support::{env_seed, guarded, quiet_panics, Rng};

fn main() {
    quiet_panics();
    let calls = Cell::new(0u64);
    for t in 0..if support::env_thorough() { 40 } else { 3 } {
        checks::special::sweep(&mut Rng::stream(env_seed(), "C22:special", t), &mut |_, _, f| { calls.set(calls.get() + 1); let _ = guarded(f); });
    }
    eprintln!("\ncalls {}", calls.get());
}

//! Shared machinery of all checks: deterministic randomness, three-valued verdicts, known
//! findings, replay files and evidence.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub mod json;
pub mod libm;
use json::J;

// ------------------------------------------------------------------ randomness
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    /// Independent stream for (seed, stream, index).
    pub fn stream(seed: u64, tag: &str, ix: u64) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x100000001b3);
        for b in tag.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        let mut r = Rng(h ^ ix.wrapping_mul(0xA24BAED4963EE407));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn range(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.unit() }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn int(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as usize) as i64 }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}

// ------------------------------------------------------------------ output
extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
static OUT: std::sync::OnceLock<std::sync::Mutex<std::fs::File>> = std::sync::OnceLock::new();
/// Our own lines go to the original standard output; what the C code under test prints there
/// (error chatter of the special functions) is discarded.
pub fn take_stdout() {
    OUT.get_or_init(|| {
        use std::os::fd::{AsRawFd, FromRawFd};
        unsafe {
            let own = if cfg!(miri) { 1 } else { dup(1) };
            if !cfg!(miri) { if let Ok(n) = std::fs::OpenOptions::new().write(true).open("/dev/null") { dup2(n.as_raw_fd(), 1); } }
            std::sync::Mutex::new(std::fs::File::from_raw_fd(own))
        }
    });
}
pub fn say(s: &str) {
    use std::io::Write;
    match OUT.get() { Some(f) => { let mut f = f.lock().unwrap_or_else(|e| e.into_inner()); let _ = writeln!(f, "{}", s); }, None => println!("{}", s) }
}

/// Reports a violation from outside the check itself (a watchdog) and ends the process.
pub fn alarm(id: &str, signature: &str, detail: &str) -> ! {
    let dir = format!("{}/build/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.alarm.txt");
    let _ = std::fs::write(&path, format!("property: {id}\nseed: {}\nsignature: {signature}\nreplay: VERIF_SEED={} python3 /verif/check.py {id}\n\n{detail}\n", env_seed(), env_seed()));
    say(&format!("VIOLATION property={id} replay={path}\n  {signature}\n    {detail}"));
    std::process::exit(1)
}

// ------------------------------------------------------------------ pristine processes
extern "C" { fn fork() -> i32; fn pipe(fds: *mut i32) -> i32; fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32; fn _exit(code: i32) -> !; }
/// Runs `f` in a copy of this process (which must have one thread); what it returns comes back. `None` if
/// the copy died.
pub fn forked(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let ok = guarded(|| { let r = f(); w.write_all(&r).is_ok() });
            _exit(if ok == Ok(true) { 0 } else { 1 })
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut out = vec![];
        let read = std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut out).is_ok();
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        (read && status == 0).then_some(out)
    }
}

// ------------------------------------------------------------------ guarded calls
thread_local! { static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// Panics inside guarded calls are observations; any other is remembered with its place.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if GUARDED.with(|g| g.get()) <= 1 { *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string(); }
        if GUARDED.with(|g| g.get()) == 0 { eprintln!("{i}") }
    }));
}
/// Runs a whole check. A panic that escapes it is an operation that failed where it must not.
pub fn drive(k: Check, f: impl FnOnce(&mut Check)) -> ! { std::process::exit(drive_code(k, f)) }
/// The same, for a program that returns from its main function (leak checkers want that).
pub fn drive_code(mut k: Check, f: impl FnOnce(&mut Check)) -> i32 {
    if guarded(|| f(&mut k)).is_err() {
        let what = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        k.violation("an operation that must succeed panicked", &what);
    }
    k.conclude()
}

/// Runs code of the library under test; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".to_string() }
    })
}

// ------------------------------------------------------------------ reporting
struct Known { property: String, signature: String, text: String, seen: bool }

pub struct Check {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    rule: String,
    level: String,
    start: Instant,
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    known: Vec<Known>,
    violations: u64,
    inconclusive: Vec<String>,
    need: Vec<(String, u64)>,
    min_distinct: u64,
    assumptions: Vec<String>,
    extra: Vec<(String, J)>,
    reported: HashSet<String>,
    part: Option<String>,
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn env_thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

impl Check {
    pub fn new(id: &str, rule: &str) -> Self {
        quiet_panics();
        take_stdout();
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.jsonl", root())) {
            for l in s.lines().filter(|l| !l.trim().is_empty()) {
                let j = json::parse(l).expect("known_findings.jsonl: bad line");
                let get = |k: &str| j.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
                if get("status") == "known" && get("property") == id {
                    known.push(Known { property: get("property"), signature: get("signature"), text: get("text"), seen: false });
                }
            }
        }
        Check {
            id: id.into(), seed: env_seed(), thorough: env_thorough(), rule: rule.into(), level: "exploration".into(),
            start: Instant::now(), evaluations: 0, distinct: HashSet::new(), samples: vec![], counters: BTreeMap::new(),
            known, violations: 0, inconclusive: vec![], need: vec![], min_distinct: 1, assumptions: vec![], extra: vec![],
            reported: HashSet::new(), part: std::env::var("VERIF_PART").ok(),
        }
    }
    /// `quick` in the quick tier, `thorough` otherwise.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough { thorough } else { quick };
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64 * f) as usize).max(1),
            None => n,
        }
    }
    pub fn rng(&self, tag: &str, ix: u64) -> Rng { Rng::stream(self.seed, &format!("{}:{}", self.id, tag), ix) }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
    pub fn extra(&mut self, k: &str, v: J) { self.extra.push((k.into(), v)); }

    /// One observed execution. `key` identifies the case; `nontrivial` by the check's rule.
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let new = self.distinct.insert(hash_str(key));
            if new && (self.samples.len() < 4 || (self.samples.len() < 12 && self.distinct.len() % 997 == 0)) {
                self.samples.push(key.chars().take(400).collect());
            }
        }
    }
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) { *self.counters.entry(k.into()).or_insert(0) += n; }
    pub fn counter(&self, k: &str) -> u64 { self.counters.get(k).copied().unwrap_or(0) }
    /// The run is inconclusive unless counter `k` reaches `n`.
    pub fn need(&mut self, k: &str, n: u64) { self.need.push((k.into(), n)); }
    pub fn need_distinct(&mut self, n: u64) { self.min_distinct = n; }
    pub fn inconclusive(&mut self, why: &str) { self.inconclusive.push(why.into()); }

    /// Reports a violation. `signature` is the exact identity of the failing case, compared with the
    /// known findings; `detail` goes into the replay file.
    pub fn violation(&mut self, signature: &str, detail: &str) {
        let id = self.id.clone();
        if let Some(k) = self.known.iter_mut().find(|k| k.property == id && k.signature == signature) {
            if !k.seen {
                k.seen = true;
                say(&format!("KNOWN-FINDING: property={} {}", id, k.text));
            }
            *self.counters.entry("known_finding_hits".into()).or_insert(0) += 1;
            return;
        }
        self.violations += 1;
        if self.reported.len() >= 8 || !self.reported.insert(signature.to_string()) { return; }
        let dir = format!("{}/build/replay", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}{}-{}.txt", dir, id, self.part.as_deref().map(|p| format!(".{p}")).unwrap_or_default(), self.reported.len());
        let mut s = String::new();
        let _ = writeln!(s, "property: {}\nseed: {}\ntier: {}\nsignature: {}\nreplay: VERIF_SEED={} VERIF_TIER={} python3 /verif/check.py {}\n\n{}",
            id, self.seed, if self.thorough { "thorough" } else { "quick" }, signature, self.seed,
            if self.thorough { "thorough" } else { "quick" }, id, detail);
        let _ = std::fs::write(&path, s);
        say(&format!("VIOLATION property={} replay={}", id, path));
        say(&format!("  {}", signature.chars().take(300).collect::<String>()));
        for l in detail.lines().take(12) { say(&format!("    {}", l.chars().take(300).collect::<String>())); }
    }
    pub fn violated(&self) -> bool { self.violations > 0 }
    pub fn many(&self) -> bool { self.violations > 200 }

    pub fn finish(self) -> ! { std::process::exit(self.conclude()) }
    /// Writes the evidence; gives the exit code.
    pub fn conclude(mut self) -> i32 {
        for (k, n) in std::mem::take(&mut self.need) {
            let c = self.counter(&k);
            if c < n { self.inconclusive.push(format!("too few observations of {k}: {c} < {n}")); }
        }
        if (self.distinct.len() as u64) < self.min_distinct {
            self.inconclusive.push(format!("too few distinct cases: {} < {}", self.distinct.len(), self.min_distinct));
        }
        for k in &self.known {
            if !k.seen { say(&format!("note: listed finding not observed in this run: {}", k.signature)); }
        }
        let mut cov = vec![
            ("evaluations".to_string(), J::Int(self.evaluations as i64)),
            ("distinct_nontrivial".to_string(), J::Int(self.distinct.len() as i64)),
            ("rule".to_string(), J::Str(self.rule.clone())),
            ("samples".to_string(), J::Arr(self.samples.iter().map(|s| J::Str(s.clone())).collect())),
            ("observed".to_string(), J::Obj(self.counters.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())),
        ];
        cov.extend(std::mem::take(&mut self.extra));
        if !self.inconclusive.is_empty() {
            cov.push(("inconclusive".into(), J::Arr(self.inconclusive.iter().map(|s| J::Str(s.clone())).collect())));
        }
        let ev = J::Obj(vec![
            ("property".into(), J::Str(self.id.clone())),
            ("tier".into(), J::Str(if self.thorough { "thorough" } else { "quick" }.into())),
            ("seed".into(), J::Int(self.seed as i64)),
            ("level".into(), J::Str(self.level.clone())),
            ("coverage".into(), J::Obj(cov)),
            ("assumptions".into(), J::Arr(self.assumptions.iter().map(|s| J::Str(s.clone())).collect())),
            ("wall_s".into(), J::Num((self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0)),
            ("violations".into(), J::Int(self.violations as i64)),
        ]);
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        let name = match &self.part { Some(p) => format!("{}/{}.{}.part", dir, self.id, p), None => format!("{}/{}.json", dir, self.id) };
        std::fs::write(&name, ev.render() + "\n").expect("cannot write evidence");
        say(&format!("{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s", self.id, self.evaluations, self.distinct.len(), self.violations, self.start.elapsed().as_secs_f64()));
        if self.violations > 0 { return 1 }
        if !self.inconclusive.is_empty() {
            for i in &self.inconclusive { say(&format!("INCONCLUSIVE property={} {}", self.id, i)); }
            return 3
        }
        0
    }
}

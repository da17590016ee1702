#!/usr/bin/env python3
"""python3 /verif/check.py Cxx [Cyy ...]   runs checks; --build builds everything; --all runs all.

Every check is a program of /verif/harness (or one generated from it) linked against /repo's current
working tree. VERIF_SEED and VERIF_TIER (quick | thorough) are honoured.
"""
import json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = os.environ.get("VERIF_SEED", "1")
BUDGET = 840 if TIER == "quick" else 6 * 3600
sys.path.insert(0, os.path.join(ROOT, "tools"))


def env(**kw):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
             VERIF_ROOT=ROOT, VERIF_GEN=os.path.join(BUILD, "gen"), VERIF_TIER=TIER, VERIF_SEED=SEED, CARGO_INCREMENTAL="0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, cwd, e, limit, show=True):
    """Runs a program; returns (exit code or None on timeout, output)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    out = out.decode("utf-8", "replace")
    if show:
        sys.stdout.write(out)
        sys.stdout.flush()
    return rc, out


def build(bins, limit=800, **kw):
    cmd = ["cargo", "build", "--offline", "-p", "checks"] + [x for b in bins for x in ("--bin", b)]
    rc, out = run(cmd, HARNESS, env(**kw), limit, show=False)
    if rc != 0:
        errs = [l for l in out.splitlines() if not l.startswith("warning")]
        print("\n".join(errs[-60:]))
        print("ERROR: the check does not build against /repo's current tree")
    return rc == 0


def violation(prop, name, text):
    """Reports a violation observed by the driver itself."""
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.{name}.txt")
    with open(path, "w") as f:
        f.write(f"property: {prop}\nseed: {SEED}\ntier: {TIER}\nreplay: VERIF_SEED={SEED} VERIF_TIER={TIER} python3 {ROOT}/check.py {prop}\n\n{text}\n")
    print(f"VIOLATION property={prop} replay={path}")
    for l in text.splitlines()[:14]:
        print("    " + l[:300])


def outcome(prop, rc, out, name):
    """0 held, 1 violated, 2 no answer; a process killed by a signal while running library code is a violation."""
    if rc == 0 or rc == 1:
        if rc == 1 and f"VIOLATION property={prop} " not in out:
            return 2
        return rc
    if rc is None:
        print(f"ERROR: {name} ran out of time")
        return 2
    if rc < 0 and rc in (-11, -6, -4, -8, -7):
        violation(prop, name, f"the process running the library was killed by signal {-rc}\n{out[-3000:]}")
        return 1
    print(f"ERROR: {name} ended with exit code {rc}")
    return 2


def plain(prop):
    """One binary named like the property."""
    b = prop.lower()
    t = time.time()
    if not build([b]):
        return 2
    rc, out = run([os.path.join(BUILD, "target", "debug", b)], ROOT, env(), BUDGET - (time.time() - t))
    return outcome(prop, rc, out, b)


def write_program(prop):
    """Generates the program text of a macro property; the same text is not written twice."""
    import importlib
    text = importlib.import_module("gen_" + prop.lower()).generate(SEED, TIER == "thorough")
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    path = os.path.join(BUILD, "gen", prop.lower() + ".rs")
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def generated(prop):
    """A program generated for this seed that uses the macros; valid uses of a macro must also compile."""
    b = prop.lower()
    t = time.time()
    write_program(prop)
    cmd = ["cargo", "build", "--offline", "-p", "checks", "--bin", b]
    rc, out = run(cmd, HARNESS, env(), 800, show=False)
    if rc != 0:
        errs = "\n".join(l for l in out.splitlines() if not l.startswith("warning"))
        # Only what a macro expanded to may be at fault: the rest of the harness must build.
        rc, other = run(["cargo", "build", "--offline", "-p", "dynx"], HARNESS, env(), 600, show=False)
        if rc == 0 and "/gen/" + b + ".rs" in errs:
            violation(prop, "build", "a valid use of the macros does not compile\n" + errs[:6000])
            return 1
        print((other if rc else errs)[-3000:])
        print("ERROR: the check does not build against /repo's current tree")
        return 2
    rc, out = run([os.path.join(BUILD, "target", "debug", b)], ROOT, env(), BUDGET - (time.time() - t))
    return outcome(prop, rc, out, b)


def prepare_generated():
    for p, f in CHECKS.items():
        if f is generated:
            write_program(p)
    return build([p.lower() for p, f in CHECKS.items() if f is generated], limit=1000)


generated.prepare = prepare_generated


# ---------------------------------------------------------------------------- instruments (C22, C24)
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
UBSAN = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.ubsan_standalone-x86_64.a"
# What each instrumented build adds to the environment, its target directory and its program.
KINDS = {
    "asan": dict(RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS="-Zsanitizer=address", CC="clang", CFLAGS="-fsanitize=address -fno-omit-frame-pointer -g"),
    "ubsan": dict(CC="clang", CFLAGS="-fsanitize=undefined,float-cast-overflow -fno-sanitize=function -g", RUSTFLAGS=f"-Clink-arg={UBSAN}"),
    "miri": dict(RUSTUP_TOOLCHAIN=NIGHTLY),
    "tsan": dict(RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS="-Zsanitizer=thread", CC="clang", CFLAGS="-fsanitize=thread -g"),
}


def kind_env(kind, **kw):
    return env(CARGO_TARGET_DIR=os.path.join(BUILD, kind), **KINDS[kind], **kw)


def kind_build(kind, bins, limit=800):
    """Builds programs under an instrument; returns None or what went wrong."""
    args = [x for b in bins for x in ("--bin", b)]
    if kind == "miri":
        # `miri run` builds; running no section ends at once.
        cmd, kw = ["cargo", "miri", "run", "--offline", "-p", "checks"] + args[:2], dict(VERIF_SECTIONS="none", MIRIFLAGS="-Zmiri-disable-isolation")
    else:
        cmd, kw = ["cargo", "build", "--offline", "-p", "checks", "--target", TRIPLE] + args, {}
        if kind == "tsan":
            cmd.append("-Zbuild-std")
    rc, out = run(cmd, HARNESS, kind_env(kind, **kw), limit, show=False)
    if rc == 0:
        return None
    return "\n".join([l for l in out.splitlines() if not l.startswith("warning")][-40:]) or "no output"


def program(kind, b):
    return os.path.join(BUILD, kind, TRIPLE, "debug", b)


def known(prop):
    """Listed findings that a driver observes itself: signature -> text."""
    out = {}
    with open(os.path.join(ROOT, "known_findings.jsonl")) as f:
        for l in f:
            if l.strip():
                j = json.loads(l)
                if j["status"] == "known" and j["property"] == prop:
                    out[j["signature"]] = j["text"]
    return out


class Parts:
    """Several runs, in parallel, of one property; collects outcomes and evidence."""

    def __init__(self, prop):
        self.prop, self.t, self.worst, self.seen = prop, time.time(), 0, {}
        self.known, self.hit, self.reports = known(prop), set(), 0
        for f in os.listdir(EVID):
            if f.startswith(prop + "."):
                os.remove(os.path.join(EVID, f))

    def left(self):
        return max(20, BUDGET - (time.time() - self.t))

    def bad(self, name, text):
        self.reports += 1
        violation(self.prop, name, text)
        self.worst = max(self.worst, 1) if self.worst != 2 else 1

    def unanswered(self, why):
        print(f"ERROR: {why}")
        if self.worst == 0:
            self.worst = 2

    def finding(self, signature, name, text):
        """A report of an instrument with an identity; listed ones are only mentioned."""
        if signature in self.known:
            if signature not in self.hit:
                print(f"KNOWN-FINDING: property={self.prop} {self.known[signature]}")
            self.hit.add(signature)
        else:
            self.bad(name, f"{signature}\n{text}")

    def own(self, name, rc, out):
        """Outcome of a program by its own account: True if it is settled."""
        if f"VIOLATION property={self.prop} " in out:
            self.worst = 1
            lines = out.splitlines()
            at = next(i for i, l in enumerate(lines) if l.startswith("VIOLATION "))
            print("\n".join(l[:300] for l in lines[at:at + 40] if not l.startswith("C2")))
            return True
        if rc is None:
            self.unanswered(f"{name} ran out of time")
            return True
        return False

    def evidence(self, rule, extra, assumptions):
        total, distinct, samples, observed, runs = 0, 0, [], {}, {}
        for f in sorted(os.listdir(EVID)):
            if f.startswith(self.prop + ".") and f.endswith(".part"):
                with open(os.path.join(EVID, f)) as h:
                    j = json.load(h)
                c = j["coverage"]
                name = f[len(self.prop) + 1:-5]
                runs[name] = {"evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"], "wall_s": j["wall_s"]}
                total += c["evaluations"]
                distinct = max(distinct, c["distinct_nontrivial"])
                samples += c["samples"][:3]
                for k, v in c["observed"].items():
                    observed[k] = observed.get(k, 0) + v
                os.remove(os.path.join(EVID, f))
        for k, v in extra.items():
            observed[k] = v
        ev = {"property": self.prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": int(SEED), "level": "exploration",
              "coverage": {"evaluations": total, "distinct_nontrivial": distinct, "rule": rule, "samples": samples[:12], "observed": observed, "runs": runs},
              "assumptions": assumptions, "wall_s": round(time.time() - self.t, 2), "violations": self.reports}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if total == 0 and self.worst == 0:
            self.unanswered("nothing was observed")
        print(f"{self.prop}: {total} evaluations in {len(runs)} instrumented runs, {self.reports} reports, {time.time() - self.t:.0f} s")


def excerpt(out, marks, n=45):
    lines = out.splitlines()
    at = next((i for i, l in enumerate(lines) if any(m in l for m in marks)), 0)
    return "\n".join(lines[max(0, at - 1):at + n])


def miri_run(p, b, part, seed_flags="", **kw):
    flags = "-Zmiri-disable-isolation " + seed_flags
    rc, out = run(["cargo", "miri", "run", "--offline", "-p", "checks", "--bin", b], HARNESS,
                  kind_env("miri", MIRIFLAGS=flags.strip(), VERIF_PART="miri-" + part, **kw), p.left(), show=False)
    name = "miri-" + part
    if "error: Undefined Behavior" in out or "error: memory leaked" in out or "error: abnormal termination" in out:
        p.bad(name, f"Miri reports, in the part {part} of the workload:\n" + excerpt(out, ["error: Undefined", "error: memory leaked", "error: abnormal"]))
    elif not p.own(name, rc, out) and rc != 0:
        p.unanswered(f"{name} ended with {rc}\n" + out[-2500:])


def asan_run(p, b, part, **kw):
    base = "exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:halt_on_error=1"
    for leaks in ("1", "0"):
        rc, out = run([program("asan", b)], ROOT, kind_env("asan", VERIF_PART="asan" + part, ASAN_OPTIONS=f"{base}:detect_leaks={leaks}", **kw), p.left(), show=False)
        if "LeakSanitizer has encountered a fatal error" not in out:
            break
        print("note: LeakSanitizer cannot run here; leaks are judged by the counting allocator")
    if "ERROR: AddressSanitizer" in out or "ERROR: LeakSanitizer" in out:
        p.bad("asan" + part, "AddressSanitizer reports:\n" + excerpt(out, ["ERROR: AddressSanitizer", "ERROR: LeakSanitizer"]))
    elif not p.own("asan", rc, out) and rc != 0:
        if rc in (-11, -6, -4, -8, -7):
            p.bad("asan" + part, f"killed by signal {-rc}\n{out[-3000:]}")
        else:
            p.unanswered(f"asan run of {b} ended with {rc}\n{out[-2000:]}")


MIRI_SECTIONS = ["zips", "contract", "zips8", "contract8", "trees", "classes", "classes8", "transforms", "transforms8", "shapes", "duals", "contexts", "large", "large8"]
ASAN_ALSO = ["c01", "c02", "c03", "c08", "c09", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18"]


def c22(prop):
    from concurrent.futures import ThreadPoolExecutor
    p = Parts(prop)
    if not build(["c22"]):
        return 2
    thorough = TIER == "thorough"
    extra = {"instruments": []}
    with ThreadPoolExecutor(8) as pool:
        todo = []
        # Memory accounting on the plain build.
        def native():
            rc, out = run([os.path.join(BUILD, "target", "debug", "c22")], ROOT, env(VERIF_PART="native"), p.left(), show=False)
            if not p.own("native", rc, out) and rc != 0:
                if outcome(prop, rc, out, "c22-native") == 1:
                    p.worst, p.reports = 1, p.reports + 1
                else:
                    p.unanswered(f"the native run ended with {rc}\n{out[-2000:]}")
            extra["instruments"].append("counting allocator")

        def memcheck(part, sections):
            rc, out = run(["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--show-leak-kinds=definite,indirect", "--errors-for-leak-kinds=definite,indirect",
                           os.path.join(BUILD, "target", "debug", "c22")], ROOT,
                          env(VERIF_PART="memcheck" + part, VERIF_SECTIONS=sections, VERIF_SCALE="1" if thorough else "0.2"), p.left(), show=False)
            if rc == 99:
                p.bad("memcheck" + part, "Memcheck reports:\n" + excerpt(out, ["=="]))
            elif not p.own("memcheck" + part, rc, out) and rc != 0:
                p.unanswered(f"the run under Memcheck ended with {rc}\n{out[-2000:]}")
            if not part:
                extra["instruments"].append("Memcheck")

        def asan():
            bins = ["c22"] + (ASAN_ALSO if thorough else [])
            e = kind_build("asan", bins, 3000 if thorough else 800)
            if e:
                return p.unanswered("the AddressSanitizer build fails\n" + e)
            for b in bins:
                if b == "c22":
                    asan_run(p, b, "", VERIF_SCALE="1" if thorough else "0.5")
                else:
                    foreign(p, b)
            extra["instruments"].append("AddressSanitizer, LeakSanitizer, C code included")

        def ubsan():
            e = kind_build("ubsan", ["c22n"])
            if e:
                return p.unanswered("the UndefinedBehaviorSanitizer build fails\n" + e)
            log = os.path.join(BUILD, "ubsan", "report")
            for f in os.listdir(os.path.dirname(log)):
                if f.startswith("report."):
                    os.remove(os.path.join(BUILD, "ubsan", f))
            rc, out = run([program("ubsan", "c22n")], ROOT, kind_env("ubsan", UBSAN_OPTIONS=f"print_stacktrace=0:log_path={log}"), p.left(), show=False)
            text = "".join(open(os.path.join(BUILD, "ubsan", f), errors="replace").read() for f in os.listdir(os.path.dirname(log)) if f.startswith("report."))
            for place, what in sorted(set(re.findall(r"(\S+\.[ch]:\d+):\d+: runtime error: (.*)", text))):
                what = re.sub(r"-?[\d.]+(e[+-]?\d+)?(?= is outside)", "value", what)
                p.finding(f"{place}: {what}", "ubsan", "UndefinedBehaviorSanitizer reports " + what)
            calls = re.search(r"calls (\d+)", out)
            if rc != 0 or not calls:
                p.unanswered(f"the run under UndefinedBehaviorSanitizer ended with {rc}\n{out[-1500:]}")
            else:
                extra["special function calls under UndefinedBehaviorSanitizer"] = int(calls.group(1))
            extra["instruments"].append("UndefinedBehaviorSanitizer on the C code")

        def miri():
            e = kind_build("miri", ["c22"])
            if e:
                return p.unanswered("the build for Miri fails\n" + e)
            extra["instruments"].append("Miri")
            for s in MIRI_SECTIONS:
                todo.append(pool.submit(miri_run, p, "c22", s, f"-Zmiri-seed={SEED}", VERIF_SECTIONS=s))

        more = [("", "special,contract,trees"), ("-large", "large,classes,shapes,duals,contexts"), ("-zips", "transforms,zips")]
        first = [pool.submit(f) for f in (miri, asan, native, ubsan)] + [pool.submit(memcheck, *m) for m in more]
        for f in first:
            f.result()
        for f in todo:
            f.result()
    p.evidence("one operation executed under one instrument; distinct by operation, types, shapes and operands (largest single run)", extra,
               ["Miri cannot run the C code of the special functions; AddressSanitizer, Memcheck and UndefinedBehaviorSanitizer do"])
    return p.worst


def foreign(p, b):
    """The workload of another property under AddressSanitizer: only what the instrument says counts here."""
    scratch = os.path.join(BUILD, "scratch")
    os.makedirs(scratch, exist_ok=True)
    rc, out = run([program("asan", b)], ROOT, kind_env("asan", VERIF_TIER="quick", VERIF_ROOT=scratch, ASAN_OPTIONS="exitcode=99:detect_leaks=0"), p.left(), show=False)
    if "ERROR: AddressSanitizer" in out:
        p.bad("asan-" + b, "AddressSanitizer reports:\n" + excerpt(out, ["ERROR: AddressSanitizer"]))


def prepare_c22():
    from concurrent.futures import ThreadPoolExecutor
    ok = build(["c22"], limit=900)
    with ThreadPoolExecutor(3) as pool:
        jobs = [pool.submit(kind_build, k, b, 1500) for k, b in (("miri", ["c22"]), ("asan", ["c22"]), ("ubsan", ["c22n"]))]
        for j in jobs:
            if j.result():
                print(j.result())
                ok = False
    return ok


c22.prepare = prepare_c22

def races(out):
    """Reports of ThreadSanitizer: (identity, text). A race on a global is identified by it and the functions that touch it."""
    for block in re.split(r"^={18}$", out, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", block)
        if m:
            where = re.search(r"Location is global '([^']+)'", block)
            by = sorted(set(re.findall(r"^\s+#0 (\S+)", block, re.M)[:2]))
            yield (f"{m.group(1)} on global '{where.group(1)}' in {' and '.join(by)}" if where else m.group(1)), block.strip()


def tsan_run(p, b, part, **kw):
    opts = "exitcode=66:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0"
    rc, out = run([program("tsan", b)], ROOT, kind_env("tsan", VERIF_PART="tsan-" + part, TSAN_OPTIONS=opts, **kw), p.left(), show=False)
    seen = list(races(out))
    for n, (what, text) in enumerate(seen[:20]):
        p.finding(what, f"tsan-{part}-{n}", "ThreadSanitizer reports:\n" + "\n".join(l[:200] for l in text.splitlines()[:90]))
    if not p.own("tsan", rc, out) and rc != 0 and not (rc == 66 and seen):
        if rc in (-11, -6, -4, -8, -7):
            p.bad("tsan-" + part, f"killed by signal {-rc}\n{out[-3000:]}")
        else:
            p.unanswered(f"the run under ThreadSanitizer ended with {rc}\n{out[-2000:]}")


def c24(prop):
    from concurrent.futures import ThreadPoolExecutor
    p = Parts(prop)
    if not build(["c24"]):
        return 2
    thorough = TIER == "thorough"
    extra = {"instruments": []}
    with ThreadPoolExecutor(8) as pool:
        def native():
            # Several processes: the first use of everything is concurrent in each of them.
            for n in range(20 if thorough else 3):
                rc, out = run([os.path.join(BUILD, "target", "debug", "c24")], ROOT, env(VERIF_PART=f"native-{n}", VERIF_SEED=int(SEED) + 1000 * n, VERIF_SCALE="1" if n == 0 else "0.5"), p.left(), show=False)
                if not p.own("native", rc, out) and rc != 0:
                    if outcome(prop, rc, out, "c24-native") == 1:
                        p.worst, p.reports = 1, p.reports + 1
                    else:
                        p.unanswered(f"the native run ended with {rc}\n{out[-2000:]}")
                if p.worst:
                    break

        def tsan():
            e = kind_build("tsan", ["c24"])
            if e:
                return p.unanswered("the ThreadSanitizer build fails\n" + e)
            for n in range(6 if thorough else 2):
                tsan_run(p, "c24", str(n), VERIF_SCALE="0.2", VERIF_PATIENCE=200, VERIF_SEED=int(SEED) + 1000 * n)
                if p.worst:
                    break
            extra["instruments"].append("ThreadSanitizer, C code included")

        def miri():
            e = kind_build("miri", ["c24"])
            if e:
                return p.unanswered("the build for Miri fails\n" + e)
            jobs = []
            for n in range(24 if thorough else 3):
                for s in ("operators", "expressions"):
                    flags = f"-Zmiri-deterministic-floats -Zmiri-seed={int(SEED) * 100 + n} -Zmiri-preemption-rate=0.{1 + n % 3}"
                    jobs.append(pool.submit(miri_run, p, "c24", f"{s}-{n}", flags, VERIF_SECTIONS=s, VERIF_SEED=int(SEED) + n))
            return jobs

        def late():
            # The native run has the machine to itself with its threads.
            native()
            tsan()
        rest = pool.submit(late)
        for j in pool.submit(miri).result() or []:
            j.result()
        extra["instruments"].append("Miri (data races, weak memory, preemption at random)")
        rest.result()
    p.evidence("an operator at a number in several threads at once, or an expression shared by threads with contexts of their own (largest single run)", extra,
               ["Miri cannot run the C code of the special functions; ThreadSanitizer does, with that code instrumented too",
                "the operating system and the injected delays choose the schedules of the native and ThreadSanitizer runs, Miri's seeded scheduler its own"])
    return p.worst


def prepare_c24():
    ok = build(["c24"], limit=900)
    for k in ("tsan", "miri"):
        e = kind_build(k, ["c24"], 1500)
        if e:
            print(e)
            ok = False
    return ok


c24.prepare = prepare_c24

CHECKS = {p: plain for p in [f"C{i:02}" for i in range(1, 20) if i != 10] + ["C23"]}
CHECKS["C22"] = c22
CHECKS["C24"] = c24
CHECKS.update({p: generated for p in ("C10", "C20", "C21")})


def main(argv):
    if "--build" in argv:
        bins = [p.lower() for p, f in CHECKS.items() if f is plain]
        ok = build(bins, limit=1700)
        for f in set(CHECKS.values()) - {plain}:
            if hasattr(f, "prepare"):
                ok = f.prepare() and ok
        return 0 if ok else 2
    props = list(CHECKS) if "--all" in argv else argv
    worst = 0
    for p in props:
        if p not in CHECKS:
            print(f"no such check: {p}")
            return 2
        os.makedirs(EVID, exist_ok=True)
        try:
            os.remove(os.path.join(EVID, p + ".json"))
        except FileNotFoundError:
            pass
        t = time.time()
        rc = CHECKS[p](p)
        if len(props) > 1:
            print(f"== {p}: exit {rc} in {time.time() - t:.0f} s", flush=True)
        worst = max(worst, rc)
    return worst


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

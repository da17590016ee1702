"""Formulas for the expression macro, with the value each of them must denote (as postfix).

The formula is generated together with its syntax tree by Rust's precedence (`*` before `+` and `-`
before `^`, all to the left), so what it denotes is known without parsing it again."""
import random
import re

PRELUDE = "let (x, y, z, v, w) = (X.into_var(), Y.into_var(), Z.into_var(), V.into_var(), W.into_var()); let _ = (&x, &y, &z, &v, &w);"


class Gen:
    def __init__(self, rng):
        self.r = rng

    def ch(self, *w):
        """Weighted choice: (weight, value) pairs."""
        return self.r.choices([v for _, v in w], [k for k, _ in w])[0]

    # ---- leaves
    def flt(self):
        r = self.r
        if r.random() < 0.35:   # any digits, any spelling: the value is that of the text
            t = r.choice(["2", "2", "0", "1", "3", "12", "22", "1_2", "02"]) + "." + r.choice(["0", "0", "00", "05", "2", "02", "5", "25", "125", "0_1", "99", str(r.randrange(10 ** 6))])
            t += r.choice(["", "", "e0", "e-1", "E-1", "e-0_1"])
            return t + r.choice(["", "", "f64", "_f64"]), f"#{float(t.replace('_', ''))!r}"
        v = r.choice([0.5, 1.5, 2.0, 3.0, 0.25, 1.0, 2.5, 1.25, 0.75, 2.0])
        forms = [repr(v), repr(v), f"{v:.2f}", f"{v}f64", f"{v:.3f}_f64", f"{v * 10:g}e-1" if "." not in f"{v * 10:g}" else repr(v),
                 f"{v:.1f}e0" if v * 10 == int(v * 10) else repr(v), f"{v:.2f}E+0", f"0_{repr(v)}"]
        return r.choice(forms), f"#{v!r}"

    def integer(self):
        r = self.r
        v = r.choice([0, 1, 2, 3, 4, 5, 7])
        return r.choice([str(v), str(v), f"{v}i64", f"0x{v:X}", f"0b{v:b}", f"0o{v:o}", f"0_{v}", f"{v}_i64"]), f"#{v}"

    def sp(self):
        return self.r.choice(["", " ", " ", " ", "  ", "\n", " /* c */ ", ""])

    # ---- expressions; every function returns (text, postfix)
    def expr(self, ty, d):
        return self.xor(ty, d)

    def xor(self, ty, d):
        if ty == "I" or d <= 0 or self.r.random() < 0.45:   # integers have no powers
            return self.addsub(ty, d)
        a, p = self.xor(ty, d - 1)
        m = self.r.random()
        if ty != "S" or m < 0.45:   # the shortcut
            two = self.ch((4, "2"), (3, "2.0"))
            return f"{a}{self.sp()}^{self.sp()}{two}", f"{p} sq"
        if m < 0.6:                 # other spellings of two; all are the same power
            two = self.r.choice(["2.00", "2.0f64", "2e0", "(2.0)", "2.0_f64", "0_2.0", "20e-1"])
            return f"{a}{self.sp()}^{self.sp()}{two}", f"{p} #2.0 ^"
        b, q = self.addsub("S", d - 1)
        return f"{a}{self.sp()}^{self.sp()}{b}", f"{p} {q} ^"

    def addsub(self, ty, d):
        if d <= 0 or self.r.random() < 0.3:
            return self.mul(ty, d)
        lt, rt = self.split(ty)
        a, p = self.addsub(lt, d - 1)
        b, q = self.mul(rt, d - 1)
        op = self.r.choice("+-")
        return f"{a}{self.sp()}{op}{self.sp()}{b}", f"{p} {q} {op}"

    def mul(self, ty, d):
        if d <= 0 or self.r.random() < 0.35:
            return self.prim(ty, d)
        lt, rt = self.split(ty)
        a, p = self.mul(lt, d - 1)
        b, q = self.prim(rt, d - 1)
        return f"{a}{self.sp()}*{self.sp()}{b}", f"{p} {q} *"

    def split(self, ty):
        if ty != "V":
            return ty, ty
        return self.ch((3, ("V", "V")), (2, ("S", "V")), (2, ("V", "S")))

    def leaf(self, ty):
        r = self.r
        if ty == "S":
            return self.ch((3, ("x", "x0")), (3, ("y", "x1")), (2, ("z", "x2")), (4, self.flt()), (1, ("(x)", "x0")), (1, ("pair.0", "x1")),
                           (1, ("pair.1", "x2")), (1, ("rec.a", "x0")), (1, ("arr[ix]", "x2")), (1, ("X.into_var()", "x0")), (1, ("half!()", "#0.5")), (1, ("aegir!(y - x)", "x1 x0 -")),
                           (1, ("K", "#1.5")), (1, ("make::<f64>()", "#2.5")), (1, ("same(z)", "x2")), (1, ("{ y }", "x1")), (1, ("unsafe { x }", "x0")))
        if ty == "I":
            return self.ch((3, ("x", "x0")), (3, ("y", "x1")), (2, ("z", "x2")), (4, self.integer()), (1, ("(y)", "x1")), (1, ("pair.0", "x1")))
        return self.ch((3, ("v", "v0")), (3, ("w", "v1")), (1, ("(v)", "v0")), (1, ("same(w)", "v1")), (1, ("V.into_var()", "v0")), (1, ("{ w }", "v1")))

    def prim(self, ty, d):
        r = self.r
        if d <= 0 or r.random() < 0.25:
            return self.leaf(ty)
        m = r.random()
        if m < 0.4:
            a, p = self.expr(ty, d - 1)
            return self.r.choice([f"({a})", f"( {a} )", f"(({a}))"]), p
        if m < 0.75:
            return self.method(ty, d)
        if ty == "S":
            return self.rust(d)
        a, p = self.expr(ty, d - 1)
        return self.r.choice([f"{{ {a} }}", f"same({a})", f"{{ let t = {a}; t }}"]), p

    def method(self, ty, d):
        r = self.r
        if r.random() < 0.3:
            a, p = self.leaf(ty)
            if a[0] in "{u" or a[-1] == ".":
                a = f"({a})"
        else:
            a, p = self.expr(ty, d - 1)
            a = f"({a})"
        if ty == "S":
            k = r.randrange(12)
            if k < 4:
                n, q = r.choice([("ln", "ln"), ("abs", "abs"), ("neg", "neg"), ("squared", "sq"), ("sigmoid", "sig")])
                return f"{a}.{n}()", f"{p} {q}"
            if k < 10:
                n, q = r.choice([("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("pow", "^")])
                b, s = self.expr("S", d - 1)
                return f"{a}.{n}({b})", f"{p} {s} {q}"
            if k == 10:
                a, p = self.expr("V", d - 2)
                b, s = self.expr("V", d - 2)
                return f"({a}).dot({b})", f"{p} {s} dot"
            a, p = self.expr("V", d - 2)
            b, s = self.prim("V", d - 2)
            return f"({a}).sub({b}).dot(w)", f"{p} {s} - v1 dot"
        if ty == "I":
            k = r.randrange(3)
            b, s = self.expr("I", d - 1)
            return [(f"{a}.add({b})", f"{p} {s} +"), (f"{a}.mul({b})", f"{p} {s} *"), (f"{a}.sub({b})", f"{p} {s} -")][k]
        k = r.randrange(6)
        if k == 0:
            return f"{a}.squared()", f"{p} sq"
        if k == 1:
            return f"{a}.neg()", f"{p} neg"
        lt, rt = self.split("V")
        if lt == "S":
            a, p = self.expr("S", d - 1)
            a = f"({a})"
        b, s = self.expr(rt, d - 1)
        n, q = r.choice([("add", "+"), ("sub", "-"), ("mul", "*")])
        return f"{a}.{n}({b})", f"{p} {s} {q}"

    def rust(self, d):
        return self.r.choice(self.embedded(d))

    def embedded(self, d):
        """Embedded Rust: blocks, branches, calls, closures, references, macros."""
        r = self.r
        a, p = self.expr("S", d - 1)
        b, q = self.expr("S", d - 1)
        c1, k1 = self.flt()
        c2, k2 = self.flt()
        yes = r.random() < 0.5
        flag = r.choice(["flag(true)", "T"]) if yes else r.choice(["flag(false)", "!T", "!flag(true)"])
        sel = k1 if yes else k2
        # The parser the macro is built on (syn 1) loses the brackets of a `$e:expr` that starts with
        # a macro call or a path, so such arguments are bracketed.
        ma, mb = (t if not re.match(r"\s*(unsafe\b|\w+\s*(!|::|\{))", t) else f"({t})" for t in (a, b))
        return [
            (f"{{ let t = {a}; t * ({b}) }}", f"{p} {q} *"),
            (f"{{ let s = {b}; let t = {a}; s - t }}", f"{q} {p} -"),
            (f"(if {flag} {{ {c1} }} else {{ {c2} }})", sel),
            (f"(match {flag} {{ true => {c1}, false => {c2} }})", sel),
            (f"(if let Some(t) = Some({a}) {{ t }} else {{ unreachable!() }})", p),
            (f"same({a})", p),
            (f"both({a}, {b})", f"{p} {q} -"),
            (f"Exp(({a}) * 0.25)", f"{p} #0.25 * exp"),
            (f"ops::trig::Cos({a})", f"{p} cos"),
            (f"ops::Add({a}, {b})", f"{p} {q} +"),
            (f"ops::Sub({a}, {b})", f"{p} {q} -"),
            (f"(|t: Variable<X>| t * ({b}))(x)", f"x0 {q} *"),
            (f"prod!({ma}; {mb})", f"{p} {q} *"),
            (f"less!({ma}, {mb})", f"{p} {q} -"),
            (f"power!({ma}, {mb})", f"{p} {q} ^"),
            (f"(({a}, {b}).1)", q),
            (f"(*&{{ {a} }})", p),
            (f"({{ *(&({b})) }})", q),
            (f"*&({a})", p),
            (f"{{ loop {{ break {a} }} }}", p),
            (f"(move || {a})()", p),
            (f"[{a}][ix]", p),
            (f"[{a}; ONE][ix]", p),
            (f"(|| {{ return {a}; }})()", p),
            (f"{{ let t; t = {a}; t }}", p),
            (f"{{ let (t, s) = ({a}, {b}); s * t }}", f"{q} {p} *"),
            (f"(match Some({a}) {{ Some(t) => t - ({b}), None => unreachable!() }})", f"{p} {q} -"),
            (f"{{ fn own<N>(n: N) -> N {{ n }} own({b}) }}", q),
            (f"{{ let mut t = None; for s in Some({a}) {{ t = Some(s) }} t.unwrap() }}", p),
            (f"{{ let mut t = None; while t.is_none() {{ t = Some({b}) }} t.unwrap() }}", q),
            (f"(|| {{ let t = Some({a})?; Some(t ^ 2) }})().unwrap()", f"{p} sq"),
            (f"{{ let _s = (\"2.0 + 1\", '2', b'2', true); {a} }}", p),
            (f"(unsafe {{ {a} }})", p),
            (f"{{ 'out: loop {{ break 'out {b} }} }}", q),
            (f"Rec {{ a: {a} }}.a", p) if "{" not in a else (f"(Rec {{ a: {a} }}).a", p),
        ]


def generate(seed, thorough):
    g = Gen(random.Random(f"C20:{seed}"))
    n = dict(S=150, V=36, I=30) if not thorough else dict(S=900, V=200, I=150)
    out = []

    def fn(i, ty, text, post):
        field, buf = {"S": ("f64", "f64"), "V": ("f64", "[f64; 3]"), "I": ("i64", "i64")}[ty]
        pos = i % 4
        shown = text.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
        body = {
            0: f"let e = aegir!({text}); judge{ty}(k, \"{shown}\", \"{post}\", e);",
            1: f"judge{ty}(k, \"{shown}\", \"{post}\", aegir! {{ {text} }});",
            2: f"let e = {{ let _t = 1; aegir!({text}) }}; judge{ty}(k, \"{shown}\", \"{post}\", e);",
            3: f"let make = || aegir![{text}]; judge{ty}(k, \"{shown}\", \"{post}\", make());",
        }[pos]
        out.append(f"#[allow(unused)] fn f{i}(k: &mut Check) {{ {PRELUDE} let (pair, rec, arr, ix) = ((y, z), Rec {{ a: x }}, [z], 0); let _ = (&pair, &rec, &arr, ix);\n    {body} }}")

    i = 0
    seen = set()
    for ty, count in n.items():
        made = 0
        while made < count:
            d = g.r.choice([1, 2, 2, 3, 3, 4] if ty != "I" else [1, 2, 2, 3, 3])
            text, post = g.expr(ty, d)
            size = len(post.split())
            if text in seen or size > 26 or (d > 1 and size < 3):
                continue
            seen.add(text)
            fn(i, ty, text, post)
            i += 1
            made += 1
    # Every embedded form, first and next to an operator.
    for j in range(len(g.embedded(1))):
        for k in range(1 if not thorough else 4):
            (text, post), (leaf, of) = g.embedded(1 + k)[j], g.leaf("S")
            for text, post in [(text, post), (f"({text}) - {leaf}", f"{post} {of} -"), (f"{leaf} * {{ {text} }}", f"{of} {post} *")][:2 + k]:
                fn(i, "S", text, post)
                i += 1
    for ty, text, post in fixed():
        fn(i, ty, text, post)
        i += 1
    for ty, text in literals(g.r, 60 if not thorough else 400):
        out.append(f"#[allow(unused)] fn f{i}(k: &mut Check) {{ {PRELUDE}\n    literal(k, \"{text}\", aegir!({text}), aegir!(x - {text}), aegir!({text} + x), aegir!((y + {text}) - x), {text}); }}")
        i += 1
    # Exponents, as such or next to the one with a shortcut.
    near = ["2.00000001", "2.0000000000000004", "1.9999999999999998", "2.0000001", "1.9999999", "2.0000002", "2.0000000000000001", "2.00000000000000022", "0.2e1", "2e0", "2.0e0f64", "20.00000001e-1", "1.0000000000000002",
            "0.9999999999999999", "3.0000000000000004", "4.0", "0.50000000000000011", "1e-9", "2.000000001e0", "0.0", "1.0", "2.0", "3.0", "2.5"]
    for text in near + [repr(2 + g.r.choice([-1, 1]) * 10.0 ** -g.r.uniform(0.2, 15.3)) for _ in range(12 if not thorough else 60)]:
        out.append(f"#[allow(unused)] fn f{i}(k: &mut Check) {{ {PRELUDE}\n    exponent(k, \"{text}\", aegir!(x ^ {text}), aegir!(y * x ^ {text}), aegir!((x + y) ^ {text}), {text}); }}")
        i += 1
    out.append("pub fn all(k: &mut Check) {\n" + "".join(f"    f{j}(k);\n" for j in range(i)) + "}\n")
    return "\n".join(out)


def literals(r, n):
    """Literals of every size and spelling; what they denote is left to the compiler."""
    big = [2 ** k + d for k in (7, 8, 15, 16, 31, 32, 33, 52, 53, 62) for d in (-1, 0, 1)] + [2 ** 63 - 1, 10 ** 18, 5000000000, 65537]

    def under(t):
        at = r.randrange(1, len(t)) if len(t) > 1 else 0
        return t[:at] + "_" + t[at:] if at else t
    for j in range(n):
        v = big[j] if j < len(big) else r.getrandbits(r.randrange(1, 64))
        t = r.choice([str(v), str(v), under(str(v)), f"0x{v:x}", f"0x{v:X}", "0x" + under(f"{v:x}"), f"0b{v:b}", f"0o{v:o}"])
        yield "I", t + r.choice(["", "", "i64", "_i64"])
    # A float needs its point or its exponent, and a suffix does not follow a bare point.
    far = ["1e308", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "1e-300", "3.5e38", "1e39", "1e-39", "1e-46", "0.1", "16777217.0", "9007199254740993.0",
           "123456789.123456789", "1e22", "1e23", "0.30000000000000004", "3.14159265358979323846", "4e15", "1E5", "1e+5", "0.0", "1.", "2.", "1e0", "33554433.5", "1.0000000000000002", "0.1000000000000000055511151231257827", "2.5e-10"]
    for j in range(n):
        if j < len(far):
            t = far[j]
        else:
            t = repr(r.choice([r.random(), r.uniform(-1, 1) ** 2 * 10.0 ** r.randrange(-300, 300), float(r.randrange(10 ** 6)), r.randrange(10 ** 9) / 1000]))
            if r.random() < 0.3:
                head, dot, tail = t.partition(".")
                t = under(head) + dot + tail
        yield "S", t if t.endswith(".") else t + r.choice(["", "", "", "f64", "_f64"])


def fixed():
    """Every ordered pair and triple of operators, once each, and the readings that are easy to get wrong."""
    ops = ["+", "-", "*", "^"]
    prec = {"^": 0, "+": 1, "-": 1, "*": 2}
    leaves = [("x", "x0"), ("y", "x1"), ("z", "x2"), ("1.5", "#1.5")]

    def parse(os):
        """Left-associative precedence climbing over the leaves."""
        pos = 0

        def go(minp):
            nonlocal pos
            left = leaves[pos][1]
            while pos < len(os) and prec[os[pos]] >= minp:
                o = os[pos]
                pos += 1
                right = go(prec[o] + 1)
                left = f"{left} {right} {o}"
            return left
        return go(0)
    import itertools
    for k in (1, 2, 3):
        for os in itertools.product(ops, repeat=k):
            text = "".join(l[0] + (f" {o} " if o else "") for l, o in zip(leaves, list(os) + [""]))
            yield "S", text, parse(list(os))
    yield from [
        ("S", "x ^ 2", "x0 sq"), ("S", "x ^ 2.0", "x0 sq"), ("S", "x ^ (2.0)", "x0 sq"), ("S", "x ^ 2.0f64", "x0 sq"), ("S", "x ^ 2.00", "x0 sq"),
        ("S", "x ^ 2.0 + y", "x0 #2.0 x1 + ^"), ("S", "x ^ 2.0 * y", "x0 #2.0 x1 * ^"), ("S", "x ^ 2 ^ 2", "x0 sq sq"), ("S", "x ^ 2.0 ^ y", "x0 sq x1 ^"),
        ("S", "(x ^ 2) * y - z ^ 2", "x0 sq x1 * x2 - sq"), ("S", "2.0 ^ x", "#2.0 x0 ^"), ("S", "2.0 * x", "#2.0 x0 *"), ("S", "2.0 - x - 2.0", "#2.0 x0 - #2.0 -"),
        ("S", "x - 2.0", "x0 #2.0 -"), ("S", "x + 2.0", "x0 #2.0 +"), ("S", "x * 2.0", "x0 #2.0 *"), ("S", "x.sub(2.0)", "x0 #2.0 -"), ("S", "x.pow(2.0)", "x0 #2.0 ^"),
        ("S", "x ^ 20.0e-1", "x0 #2.0 ^"), ("S", "x ^ 2.5", "x0 #2.5 ^"), ("S", "x ^ 0.2", "x0 #0.2 ^"), ("S", "x ^ 1.2", "x0 #1.2 ^"), ("S", "x ^ 3.0", "x0 #3.0 ^"), ("S", "x ^ 1.0", "x0 #1.0 ^"),
        ("S", "(x + y) ^ 2", "x0 x1 + sq"), ("S", "x + y ^ 2", "x0 x1 + sq"), ("S", "x + (y ^ 2)", "x0 x1 sq +"), ("S", "x * y ^ 2", "x0 x1 * sq"), ("S", "x * (y ^ 2)", "x0 x1 sq *"),
        ("S", "x ^ 2 ^ 2.0", "x0 sq sq"), ("S", "(x - y ^ 2).sub(z ^ 2)", "x0 x1 - sq x2 sq -"), ("S", "square!(x + y)", "x0 x1 + sq"), ("S", "to!(x, 2.0)", "x0 #2.0 ^"), ("S", "to!(x, 3.0)", "x0 #3.0 ^"),
        ("S", "x - prod!(y - z; x - 1.0)", "x0 x1 x2 - x0 #1.0 - * -"), ("S", "x * less!(y, z)", "x0 x1 x2 - *"), ("S", "less!(y, z) * x", "x1 x2 - x0 *"), ("S", "less!(x, less!(y, z))", "x0 x1 x2 - -"),
        *[("S", f"x ^ {t}", f"x0 #{v} ^") for t, v in [("2.05", 2.05), ("2.01", 2.01), ("2.0001", 2.0001), ("2.0e-1", 0.2), ("2.0e1", 20.0), ("2e1", 20.0), ("0.2", 0.2), ("02.5", 2.5), ("12.0", 12.0),
            ("22.0", 22.0), ("1.2", 1.2), ("2.2", 2.2), ("2.02", 2.02), ("1.0", 1.0), ("0.0", 0.0), ("4.0", 4.0), ("0.5", 0.5), ("2_0.0", 20.0), ("2.0_5", 2.05), ("2.0f64", 2.0), ("2.05f64", 2.05)]],
        *[("S", f"x {o} {t}", f"x0 #{v} {o}") for o in "+-*" for t, v in [("2.0", 2.0), ("2.05", 2.05), ("1.0", 1.0), ("0.0", 0.0), ("2.0e-1", 0.2)]],
        *[("S", f"{t} {o} x", f"#{v} x0 {o}") for o in "+-*^" for t, v in [("2.0", 2.0), ("2.05", 2.05), ("1.0", 1.0), ("2.0e-1", 0.2)]],
        ("S", "12.0", "#12.0"), ("S", "0.1 + 0.2", "#0.1 #0.2 +"), ("S", "1e3 * x", "#1000.0 x0 *"), ("S", "1_0.5 * x", "#10.5 x0 *"), ("S", "x", "x0"),
        ("S", "(*&x) + y", "x0 x1 +"), ("S", "(*&x) * y - z", "x0 x1 * x2 -"), ("S", "z - (*&x) - y", "x2 x0 - x1 -"),
        ("S", "*&x + y", "x0 x1 +"), ("S", "*&x * y - z", "x0 x1 * x2 -"), ("S", "z - *&x - y", "x2 x0 - x1 -"), ("S", "*&x ^ 2", "x0 sq"),
        ("S", "*boxed(x - y) * z", "x0 x1 - x2 *"), ("S", "x - *boxed(y * z)", "x0 x1 x2 * -"),
        ("I", "x - y - z", "x0 x1 - x2 -"), ("I", "7", "#7"), ("I", "x * 3 - 0x10 * y + 1_0", "x0 #3 * #16 x1 * - #10 +"), ("I", "9007199254740993 - x - 9007199254740993", "#0 x0 -"),
        ("I", "x + 2", "x0 #2 +"), ("I", "x - 2 - y", "x0 #2 - x1 -"), ("I", "x * 2", "x0 #2 *"),
        ("V", "v - w * x", "v0 v1 x0 * -"), ("V", "x * v - w", "x0 v0 * v1 -"), ("V", "v ^ 2", "v0 sq"), ("V", "v - w ^ 2", "v0 v1 - sq"), ("V", "v - x - w", "v0 x0 - v1 -"), ("V", "x - v", "x0 v0 -"),
    ]

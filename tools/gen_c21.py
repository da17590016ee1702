"""Declarations of identifiers, with the symbol each must display."""
import random

LATIN = [(chr(65 + i), chr(97 + i)) for i in range(26)]
GREEK = list(zip("Alpha Beta Gamma Delta Epsilon Zeta Eta Theta Iota Kappa Lambda Mu Nu Xi Omicron Pi Rho Sigma Tau Upsilon Phi Chi Psi Omega".split(),
                 [chr(c) for c in range(0x3B1, 0x3CA) if c != 0x3C2]))
NAMES = ["A", "B", "X", "Y", "AA", "Aa", "AB", "X1", "X2", "X10", "X_1", "X__1", "Foo", "Bar", "FooBar", "Foobar", "x", "y", "foo", "_Z", "Value", "Buffer", "Spec", "Node", "Display", "Debug",
         "Identifier", "Variable", "T", "I", "N", "Eq", "Weights", "W0", "W00", "Été", "Δ", "Temp", "Temp_", "self_", "target", "another", "r#type", "Long_identifier_with_many_parts_1", "Long_identifier_with_many_parts_2"]
# Symbols written as bare identifiers: every way of writing one is a different text, to be shown as written.
BARE = ["x", "y", "z", "w", "alpha", "X", "foo", "A", "x_1", "Y2", "_x", "__y", "_X1", "x_", "x__", "_x_", "x__1", "_1", "__0", "aB", "Ab", "AB", "ab", "fooBar", "FooBar", "foo_bar", "FOO_BAR", "été", "Δ", "αβ", "x1", "x01",
        "x10", "i32", "usize", "Self_", "selfish", "typed", "union", "auto", "str", "String", "main", "a_very_long_symbol_written_as_an_identifier_with_many_parts_0123456789_and_then_some_more_of_them",
        "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "lx", "xl", "rx", "r_x", "rr", "bx", "cx"]
SYMS = ["x", "y", "", " ", "α", "x₁", "ŷ", "x y", "{}", "{0}", "\\\\", "\\\"q\\\"", "\\n", "0", "1", "-", "+", "foo", "Foo", "\\u{3B1}", "A", "X", "a very long symbol with spaces", "'", "%s", "\\u{1F600}", "(x)", "x^2"]
UNESC = {"\\\\": "\\", "\\\"q\\\"": "\"q\"", "\\n": "\n", "\\u{3B1}": "α", "\\u{1F600}": "\U0001F600"}


def rust_str(s):
    return '"' + "".join(f"\\u{{{ord(c):X}}}" for c in s) + '"'


def generate(seed, thorough):
    r = random.Random(f"C21:{seed}")
    out = []
    sizes = [1, 2, 2, 3, 3, 4, 5, 6, 8, 12] if not thorough else [1] * 3 + [2] * 8 + [3] * 8 + [4, 5, 6, 7, 8, 10, 12, 16, 24, len(NAMES)]
    # Three declarations which hold every name, every bare symbol and every quoted one.
    whole = [([nm, nm, nm[2:] if nm.startswith("r#") else nm]) for nm in NAMES if not nm.startswith("r#")]
    bare = [(f"S{i}", f"S{i}::{s}", s) for i, s in enumerate(BARE)]
    text = [(f"Q{i}", f'Q{i}::"{s}"', UNESC.get(s, s)) for i, s in enumerate(SYMS)]
    fixed = [whole, bare, text]
    for part in fixed:
        r.shuffle(part)
    for m, n in enumerate(sizes + fixed):
        decl, want = [], []
        if isinstance(n, list):
            names, decl, want = [list(t) for t in zip(*n)]
            n = len(names)
        else:
            names = r.sample(NAMES, n)
        for nm in names if not decl else []:
            # An identifier called like a Rust type that the macro's own output mentions is still only a name.
            k = r.random()
            shown = nm[2:] if nm.startswith("r#") else nm
            if k < 0.4 and not nm.startswith("r#"):
                decl.append(nm); want.append(shown)
            elif k < 0.65:
                s = r.choice(BARE)
                decl.append(f"{nm}::{s}"); want.append(s)
            else:
                s = r.choice(SYMS)
                decl.append(f'{nm}::"{s}"'); want.append(UNESC.get(s, s))
        sep = r.choice([", ", ",\n    ", ","])
        out.append(f"mod d{m} {{\n    use super::{{ids, Check}};\n    pub mod names {{ use super::ids; ids!({sep.join(decl)}); }}")
        idents = [f"names::{nm}" for nm in names]
        out.append("    pub fn run(k: &mut Check) {")
        for i, nm in enumerate(names):
            shown = nm[2:] if nm.startswith("r#") else nm
            out.append(f"        super::one(k, \"d{m}\", {idents[i]}, {rust_str(want[i])}, {rust_str(shown)});")
        # All pairs of a small declaration; of a large one, the neighbours and some.
        chosen = {(i, (i + d) % n) for i in range(n) for d in (0, 1, n - 1)} | {(r.randrange(n), r.randrange(n)) for _ in range(2 * n)}
        for i in range(n):
            for j in range(n) if n <= 12 or thorough and m < len(sizes) else [j for j in range(n) if (i, j) in chosen]:
                out.append(f"        super::pair(k, \"d{m}\", {idents[i]}, {idents[j]}, {str(i == j).lower()}, {idents[i]} == {idents[j]}, {idents[i]} != {idents[j]}, {idents[j]} == {idents[i]});")
        out.append(f"        k.count(\"declarations\");\n    }}\n}}")
    pre = LATIN + GREEK
    out.append("pub fn predefined(k: &mut Check) {")
    for nm, s in pre:
        out.append(f"    one(k, \"aegir::ids\", aegir::ids::{nm}, {rust_str(s)}, {rust_str(nm)});")
    n = len(pre)
    full = set()
    for i in range(n):
        full |= {(i, i), (i, (i + 1) % n), ((i + 1) % n, i)}
    while len(full) < (400 if not thorough else n * n):
        full.add((r.randrange(n), r.randrange(n)))
    for i in range(n):
        for j in range(n):
            a, b = f"aegir::ids::{pre[i][0]}", f"aegir::ids::{pre[j][0]}"
            f = "pair" if (i, j) in full else "equal"
            out.append(f"    {f}(k, \"aegir::ids\", {a}, {b}, {str(i == j).lower()}, {a} == {b}, {a} != {b}, {b} == {a});")
    out.append("}")
    out.append("pub fn all(k: &mut Check) {\n" + "".join(f"    d{m}::run(k);\n" for m in range(len(sizes) + len(fixed))) + "    predefined(k);\n}")
    return "\n".join(out)

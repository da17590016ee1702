"""Context types for the derive and context macros, with tables of their fields.

Every generated module declares identifiers and a context type, and hands its fields to the monitor
of harness/checks/src/bin/c10.rs, which knows nothing of how the fields are laid out."""
import random

TYPES = ["f64", "f64", "f64", "f32", "i32", "i64", "u8", "usize", "[f64; 1]", "[f64; 2]", "[f64; 3]", "[f32; 3]", "[i64; 4]", "[[f64; 3]; 2]", "[[f64; 2]; 2]", "[[[i32; 2]; 1]; 3]",
         "Vec<f64>", "Vec<f64>", "Vec<f32>", "Vec<i64>", "(f64, f64)", "(i32, i32)", "(f32, f32)", "[f64; 0]", "[[[[f64; 2]; 1]; 2]; 1]"]
FIELDS = ["x", "y", "z", "w", "a", "b", "c", "value", "fid", "buf", "spec", "ident", "val", "ctx", "this", "read", "write", "clone", "as_ref", "as_mut", "read_spec", "read_shape", "shape", "_private", "__x",
          "x1", "x2", "x_1", "cache", "id", "weights", "buffer", "field", "r#type", "r#fn", "self_", "option", "some", "none", "into_spec", "unwrap", "map", "replace", "f", "other", "long_name_of_a_field_in_a_context"]
IDS = ["X", "Y", "Z", "A", "B", "C", "D", "XX", "XY", "Xy", "X1", "X2", "X_1", "W", "Weights", "Bias", "Value", "Buffer", "Spec", "Shape", "Node", "Read", "Write", "Cache", "Id", "TT", "N", "F", "Long_Name", "Alpha", "Omega", "_U", "Self_"]
GENERIC = ["T", "[T; 2]", "[[T; 2]; 3]", "Vec<T>", "(T, T)"]
EXTRA = [("String", '"text".to_string()'), ("Vec<String>", 'vec!["a".to_string()]'), ("Option<u8>", "Some(7)"), ("()", "()"), ("std::collections::BTreeMap<u8, String>", "[(1u8, \"b\".to_string())].into_iter().collect()"), ("Option<Vec<f64>>", "None"), ("[char; 2]", "['a', 'b']")]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(f"C10:{seed}")
        self.out = []
        self.m = 0

    def ids(self, n):
        return self.r.sample(IDS, n)

    def head(self, ids):
        syms = [i if self.r.random() < 0.6 else f'{i}::"{self.r.choice(["x", "y", "w", "same"])}"' for i in ids]
        return f"mod s{self.m} {{\n    use super::{{ids, ctx, ctx_type, Context, Prim, Table, Ty, Check, make}};\n    mod i {{ use super::ids; ids!({', '.join(syms)}); }}\n    use i::*;\n"

    def emit(self, head, decl, cty, fields, build, kind, extras, clear_ok=True):
        """fields: (name, id, type, is_cache); build: constructor text given variables b0.."""
        o = [head, decl, f"    pub fn run(k: &mut Check) {{\n        super::history(k, \"s{self.m} ({kind}, {len(fields)} fields)\", &mut |r| {{"]
        for j, (nm, i, ty, cache) in enumerate(fields):
            if not cache:
                o.append(f"            let (b{j}, d{j}) = make::<{ty}>(r);")
        o.append(f"            let c = {build};")
        o.append(f"            let mut t: Table<{cty}> = Table::new();")
        for j, (nm, i, ty, cache) in enumerate(fields):
            init = "None" if cache else f"Some(d{j})"
            o.append(f"            t.slot::<{i}, {ty}>({i}, \"{i}\", {str(cache).lower()}, {init}, |c, b| c.{nm} = {'Some(b)' if cache else 'b'}, |c| {f'{{ c.{nm} = None }}' if cache else '{ let _ = c; }'});")
        for e in extras:
            o.append(f"            t.extra(\"{e}\", |c| format!(\"{{:?}}\", c.{e}));")
        # A cached node of the right type, if there is one.
        pl = [f for f in fields if not f[3]]
        ca = [f for f in fields if f[3]]
        for p in pl:
            for c in ca:
                if p[2] == c[2] and self.r.random() < 0.5:
                    o.append(f"            t.cached::<{p[1]}, {c[1]}, {p[2]}>({p[1]}, {c[1]}, \"{p[1]}\", \"{c[1]}\");")
        o.append("            (c, t)\n        });\n    }\n}\n")
        self.out.append("\n".join(o))
        self.m += 1

    def derive(self, n, generic):
        r = self.r
        head = self.head(ids := self.ids(n))
        names = r.sample(FIELDS, n + 3)
        params = ""
        cty = f"Store"
        if generic:
            params = r.choice(["<T: Prim>", "<T: Prim, const L: usize>", "<'a, T: Prim>", "<T>"])
        prim = r.choice(["f64", "i64", "f32"])
        if params:
            cty += {"<T: Prim>": f"<{prim}>", "<T: Prim, const L: usize>": f"<{prim}, 2>", "<'a, T: Prim>": f"<'static, {prim}>", "<T>": f"<{prim}>"}[params]
        where = " where T: Prim" if params == "<T>" else ""
        members, fields, extras, cons = [], [], [], []
        for j in range(n):
            cache = r.random() < 0.45
            if generic and r.random() < 0.7:
                g = r.choice(GENERIC + (["[T; L]"] if "const L" in params else []))
                shown, ty = g, g.replace("T", prim).replace("L", "2")
            else:
                shown = ty = r.choice(TYPES)
            vis = r.choice(["", "pub ", "pub(crate) "])
            attrs = [f"#[id({ids[j]})]"] + (["#[cache]"] if cache else [])
            if r.random() < 0.3:
                attrs.append(r.choice(["#[allow(dead_code)]", "/// Documented.\n", "#[doc = \"text\"]"]))
            r.shuffle(attrs)
            members.append(f"        {' '.join(attrs)} {vis}{names[j]}: {f'Option<{shown}>' if cache else shown},")
            fields.append((names[j], ids[j], ty, cache))
            cons.append(f"{names[j]}: {'None' if cache else f'b{j}'}")
        for e in range(r.choice([0, 0, 1, 2])):
            ty, v = r.choice(EXTRA)
            nm = names[n + e]
            members.insert(r.randrange(len(members) + 1), f"        {nm}: {ty},")
            extras.append(nm)
            cons.append(f"{nm}: {v}")
        if "'a" in params:
            members.append("        borrowed: &'a str,")
            cons.append('borrowed: "lent"')
            extras.append("borrowed")
        if params in ("<T: Prim>", "<T: Prim, const L: usize>", "<'a, T: Prim>", "<T>"):
            members.append(f"        phantom: std::marker::PhantomData<{'[T; L]' if 'const L' in params else 'T'}>,")
            cons.append("phantom: std::marker::PhantomData")
        r.shuffle(cons)
        derives = r.choice(["Clone, Context", "Context, Clone", "Debug, Clone, Context"])
        decl = f"    #[derive({derives})]\n    pub struct Store{params}{where} {{\n" + "\n".join(members) + "\n    }"
        self.emit(head, decl, cty, fields, f"Store {{ {', '.join(cons)} }}", "derived" + (" generic" if params else ""), extras)

    def ctx_type(self, n):
        r = self.r
        head = self.head(ids := self.ids(n))
        names = r.sample([f for f in FIELDS if not f.startswith("r#")], n)
        items, fields, cons = [], [], []
        for j in range(n):
            cache = r.random() < 0.4
            items.append(f"{'cache ' if cache else ''}{names[j]}: {ids[j]}")
            fields.append((names[j], ids[j], r.choice(TYPES), cache))
            cons.append(f"{names[j]}: {'None' if cache else f'b{j}'}")
        tail = r.choice(["", ","])
        decl = f"    ctx_type!(Store {{ {', '.join(items)}{tail} }});\n"
        r.shuffle(cons)
        cty = "Store<" + ", ".join(f[2] for f in fields) + ">"
        cty = cty
        self.emit(head, decl + self.clone_impl(fields), cty, fields, f"Store {{ {', '.join(cons)} }}", "ctx_type!", [])

    def clone_impl(self, fields):
        ps = [f"P{j}" for j in range(len(fields))]
        return (f"    impl<{', '.join(p + ': Clone' for p in ps)}> Clone for Store<{', '.join(ps)}> {{ fn clone(&self) -> Self {{ Store {{ "
                + ", ".join(f"{f[0]}: self.{f[0]}.clone()" for f in fields) + " } } }")

    def ctx(self, n):
        """The anonymous context: no name for its type, so only operations through the traits."""
        r = self.r
        head = self.head(ids := self.ids_lower(n))
        tys = [r.choice(TYPES) for _ in range(n)]
        o = [head, f"    pub fn run(k: &mut Check) {{\n        super::history(k, \"s{self.m} (ctx!, {n} fields)\", &mut |r| {{"]
        for j, ty in enumerate(tys):
            o.append(f"            let (b{j}, d{j}) = make::<{ty}>(r);")
        pairs = []
        for j, ty in enumerate(tys):
            v = r.choice([f"b{j}", f"{{ b{j} }}", f"b{j}.clone()", f"Some(b{j}).unwrap()", f"{{ let t = b{j}; t }}"])
            if ty == "f64" and r.random() < 0.3:
                v = f"{{ use super::Read as _; ctx!{{{ids[j]} = b{j}}}.read({ids[j]}).unwrap() }}"
            pairs.append(f"{ids[j]}{r.choice([' = ', '=', ' ='])}{v}")
        o.append(f"            let c = {r.choice(['ctx!{@}', 'ctx!(@)', 'ctx![@]', 'ctx! { @ }']).replace('@', ', '.join(pairs))};")
        o.append("            let mut t = Table::of(&c);")
        for j, ty in enumerate(tys):
            low = "_" + ids[j].lower()
            o.append(f"            t.slot::<{ids[j]}, {ty}>({ids[j]}, \"{ids[j]}\", false, Some(d{j}), |c, b| c.{low} = b, |c| {{ let _ = c; }});")
        o.append("            (super::NoClone(c), t.into())\n        });\n    }\n}\n" if False else "            (c, t)\n        });\n    }\n}\n")
        self.out.append("\n".join(o))
        self.m += 1

    def ids_lower(self, n):
        """Field names of ctx! are lower-cased identifiers: choose ones that stay different."""
        while True:
            ids = self.ids(n)
            if len({i.lower() for i in ids}) == n:
                return ids


def generate(seed, thorough):
    g = Gen(seed)
    big = thorough
    for n in [1, 2, 3, 3, 4, 5, 6, 8, 10, 12] * (3 if big else 1):
        g.derive(n, False)
    for n in [1, 2, 3, 4, 6] * (3 if big else 1):
        g.derive(n, True)
    for n in [1, 2, 3, 4, 5, 7, 10] * (2 if big else 1):
        g.ctx_type(n)
    for n in [1, 2, 3, 4, 5, 8, 12] * (2 if big else 1):
        g.ctx(n)
    g.out.append("pub fn all(k: &mut Check) {\n" + "".join(f"    s{m}::run(k);\n" for m in range(g.m)) + "}")
    return "\n".join(g.out)

"""Generates revision histories as Rust source: the types, what older data of them must decode to
(computed here from the declared intervals alone), and the calls of the drivers in
harness/src/hist.rs that judge the derived code."""
import itertools, os

N = 3
# [start, end): every life a field or variant can have in three revisions
INT = [(1, None), (1, 2), (1, 3), (2, None), (2, 3), (3, None)]


def intervals(n):
    return [(s, e) for s in range(1, n + 1) for e in [None] + list(range(s + 1, n + 1))]


# Rust type, layout marker
KINDS = [
    ("u32", "Plain"), ("String", "Plain"), ("u64", "FixedInt"), ("Vec<u16>", "Spec"), ("BTreeMap<String, u16>", "IMap"),
    ("Vec<String>", "ISeq"), ("BTreeSet<u32>", "ISet"), ("Option<u8>", "Plain"), ("Vec<u32>", "Plain"), ("ORev", "Plain"),
    ("OEnum", "Plain"), ("i128", "FixedInt"), ("(u8, String)", "Plain"), ("bool", "Plain"), ("Vec<bool>", "Spec"),
    ("BTreeMap<u16, String>", "IMap"), ("u16", "Plain"), ("BTreeSet<String>", "ISet"), ("i32", "FixedInt"), ("[u8; 3]", "Plain"),
    ("f64", "Plain"), ("Vec<u8>", "Spec"), ("Option<String>", "Plain"), ("i64", "Plain"), ("BTreeSet<u32>", "Plain"),
    ("Vec<String>", "Plain"), ("u32", "FixedInt"), ("Vec<u8>", "Plain"), ("u8", "Plain"),
]
ATTR = {"Plain": None, "FixedInt": "fixed", "Spec": "specialised", "IMap": "indexed_map", "ISeq": "indexed_seq", "ISet": "indexed_set"}
# awkward on purpose: names the generated code could trip over
NAMES = ["a", "b", "reader", "writer", "revision", "r#type", "value", "w", "payload", "r", "self_", "fields", "len", "this", "error", "rev"]


class Field:
    def __init__(self, slot, name, kind, start=1, end=None, dfn=False):
        self.slot, self.name, self.start, self.end, self.dfn = slot, name, start, end, dfn
        self.ty, self.marker = kind

    def at(self, r):
        return self.start <= r and (self.end is None or r < self.end)

    def plain(self):
        return self.name.replace("r#", "")

    def id(self):
        return f"{self.plain()}{self.slot}"

    def attrs(self, rev, extra=()):
        a = []
        if self.start > 1 or self.slot % 3 == 1:  # `start = 1` may be spelt out
            a.append(f"start = {self.start}")
        if self.end is not None and self.end <= rev:
            a.append(f"end = {self.end}")
            a.append(f'convert_fn = "c_{self.id()}"')
        if self.start > 1 and self.dfn:
            a.append(f'default_fn = "d_{self.id()}"')
        if ATTR[self.marker]:
            a.append(ATTR[self.marker])
        a += extra
        return f"#[revision({', '.join(a)})] " if a else ""


def val(f, j="j"):
    return f"val::<{f.ty}>({f.slot}, {j})"


def entry(r, l):
    return f"revision({r}{', optimised' if l in 'OI' else ''}{', indexed_struct' if l == 'I' else ''})"


def item_attrs(layouts, form=None, walk=True):
    """form: (short or list, order of the entries, outer/inner/split attribute position)"""
    kind, order, pos = form or ("list", range(len(layouts)), "outer")
    es = [f"revision = {len(layouts)}"] if kind == "short" else [entry(i + 1, layouts[i]) for i in order]
    flags = [] if walk else ["walk = false"]
    if pos == "outer":
        return f"#[revisioned({', '.join(es + flags)})]"
    if pos == "inner":
        return f"#[revisioned({', '.join(flags)})]\n#[revision({', '.join(es)})]"
    return f"#[revisioned({', '.join(flags)})]\n" + "\n".join(f"#[revision({e})]" for e in es)


class Struct:
    """fields[z] is the Vec<String> that receives the trace of the conversions."""

    def __init__(self, name, layouts, fields, z, tup=False, form=None):
        self.name, self.layouts, self.fields, self.z, self.tup, self.form = name, layouts, fields, z, tup, form

    def asof(self, n):
        f = [x for x in self.fields if x.start <= n]
        return Struct(f"{self.name}r{n}", self.layouts[:n], f, None if self.z is None else f.index(self.fields[self.z]), self.tup, self.form)

    def access(self, f):
        alive = [x for x in self.fields if x.at(len(self.layouts))]
        return str(alive.index(f)) if self.tup else f.name

    def construct(self, vals):
        """vals: field -> expression, in the order of the alive fields"""
        if self.tup:
            return "T" if not self.fields else f"T({', '.join(v for _, v in vals)})"
        return "T { " + ", ".join(f"{f.name}: {v}" for f, v in vals) + " }"

    def emit(self, drivers, walk):
        rev = len(self.layouts)
        alive = [f for f in self.fields if f.at(rev)]
        gone = [f for f in self.fields if not f.at(rev)]
        z = None if self.z is None else self.fields[self.z]
        o = []
        o.append(item_attrs(self.layouts, self.form, walk) + "\n#[derive(Debug, PartialEq)]")
        decl = [f"{f.attrs(rev)}pub {'' if self.tup else f.name + ': '}{f.ty}" for f in self.fields]
        o.append("pub struct T" + (";" if not decl and self.tup else f"({', '.join(decl)});" if self.tup else " {\n\t" + ",\n\t".join(decl) + "\n}"))
        o.append("impl T {")
        for f in gone:
            o.append(f"\tfn c_{f.id()}(&mut self, r: u16, v: {f.ty}) -> Result<(), Error> {{ conv({'&mut self.' + self.access(z) if z else '&mut vec![]'}, \"{f.id()}\", r, &v) }}")
        for f in self.fields:
            if f.start > 1 and f.dfn:
                o.append(f"\tfn d_{f.id()}(r: u16) -> Result<{f.ty}, Error> {{ dflt(r) }}")
        o.append("}")
        o.append("impl SHist for T {")
        o.append(f"\tconst REV: u16 = {rev};\n\tconst NAME: &'static str = \"{self.name} {self.layouts}\";\n\tconst LAYOUTS: &'static [u8] = b\"{self.layouts}\";")
        o.append(f"\tfn make(j: usize) -> Self {{ {self.construct([(f, val(f)) for f in alive])} }}")
        arms, st = [], []
        for k in range(1, rev + 1):
            calls = [f"call(\"{f.id()}\", {k}, &{val(f)})" for f in gone if f.at(k)]
            vals = []
            for f in alive:
                if f.start <= k:
                    e = val(f)
                    if f is z:
                        e = "z"
                elif f.dfn:
                    e = f"<{f.ty}>::dflt({k})"
                else:
                    e = "Default::default()"
                vals.append((f, e))
            arms.append(f"\t\t\t{k} => {{ let c = vec![{', '.join(calls)}]; {f"let mut z = {val(z)}; z.extend(c.clone());" if z else ""} ({self.construct(vals)}, c) }}")
            lay = "false" if self.layouts[k - 1] == "L" else "true"
            st.append(f"\t\t\t{k} => vec![{', '.join(f'enc::<{f.marker}, {f.ty}>({lay}, &{val(f)})' for f in self.fields if f.at(k))}],")
        o.append("\tfn upgraded(k: u16, j: usize) -> (Self, Vec<String>) {\n\t\tmatch k {\n" + "\n".join(arms) + "\n\t\t\t_ => unreachable!(),\n\t\t}\n\t}")
        o.append("\tfn stored(k: u16, j: usize) -> Vec<Vec<u8>> {\n\t\tmatch k {\n" + "\n".join(st) + "\n\t\t\t_ => unreachable!(),\n\t\t}\n\t}")
        o.append("}")
        if walk:
            o.append(self.emit_walk(rev, alive, gone))
        for d in drivers:
            if d == "s_reject" or d == "e_reject":
                o.append(OUTER)
                o.append(f"pub fn {d}(r: &mut Rep) {{ hist::{d}::<T, OL, OO, OI>(r) }}")
                continue
            o.append(f"pub fn {d}(r: &mut Rep) {{ hist::{d}::<T>(r) }}")
        return "\n".join(o)

    def emit_walk(self, rev, alive, gone):
        o = ["impl SWalk for T {", f"\tconst CONV: bool = {str(bool(gone)).lower()};"]
        info = [f"FieldInfo {{ start: {f.start}, forced: {str(f.marker in ('FixedInt', 'Spec')).lower()}, indexed: {str(f.marker[0] == 'I').lower()}, refused: {'<' + f.ty + ' as Drain>::REFUSED' if f.marker in ('Plain', 'Spec', 'FixedInt') else 'false'} }}" for f in alive]
        o.append(f"\tfn fields() -> Vec<FieldInfo> {{ vec![{', '.join(info)}] }}")
        arms = []
        for k in range(1, rev + 1):
            names = [str(i) if self.tup else f.plain() for i, f in enumerate(self.fields) if f.at(k)]
            arms.append(f"{k} => vec![{', '.join(repr(n).replace(chr(39), chr(34)) for n in names)}]")
        o.append(f"\tfn names(k: u16) -> Vec<&'static str> {{ match k {{ {', '.join(arms)}, _ => vec![] }} }}")
        o.append("\tfn table(k: u16) -> &'static [&'static str] { T::walk_revisioned_field_names(k) }")
        o.append("\tfn rev<'r>(w: &Self::Walker<'r, &'r [u8]>) -> u16 { w.revision() }")
        op, fin, cur = [], [], []
        for i, f in enumerate(alive):
            m = f"field_{i}" if self.tup else f.plain()
            w = f"want.{self.access(f)}"
            if f.marker[0] == "I":
                walk = f"viewed::<{f.marker}, {f.ty}>(w.walk_{m}().map(|v| v.into_bytes().into_owned()), &{w})"
                into = f"viewed::<{f.marker}, {f.ty}>(w.into_walk_{m}().map(|v| v.into_bytes().into_owned()), &{w})"
            else:
                walk = f"walked::<{f.ty}, _>(w.walk_{m}(), &{w})"
                into = f"walked::<{f.ty}, _>(w.into_walk_{m}(), &{w})"
            op.append(f"\t\t\t({i}, Op::Decode) => yes(w.decode_{m}(), &{w}),\n\t\t\t({i}, Op::Skip) => unit(w.skip_{m}()),\n\t\t\t({i}, Op::Walk) => {walk},")
            fin.append(f"\t\t\t({i}, Op::IntoWalk) => {into},\n\t\t\t({i}, Op::IntoBytes) => raw(w.into_{m}_bytes()),")
            lay = "false" if self.layouts[-1] == "L" else "true"
            cur.append(f"\t\t\t{i} => enc::<{f.marker}, {f.ty}>({lay}, &{w}),")
        o.append("\tfn op<'r>(w: &mut Self::Walker<'r, &'r [u8]>, i: usize, op: Op, want: &Self) -> Result<Ans, Error> {\n\t\tmatch (i, op) {\n" + "\n".join(op) + "\n\t\t\t_ => unreachable!(),\n\t\t}\n\t}")
        o.append("\tfn fin<'r>(w: Self::Walker<'r, &'r [u8]>, i: usize, op: Op, want: &Self) -> Result<Ans, Error> {\n\t\tmatch (i, op) {\n" + "\n".join(fin) + "\n\t\t\t_ => unreachable!(),\n\t\t}\n\t}")
        o.append("\tfn current(i: usize, want: &Self) -> Vec<u8> {\n\t\tmatch i {\n" + "\n".join(cur) + "\n\t\t\t_ => unreachable!(),\n\t\t}\n\t}")
        o.append("}")
        return "\n".join(o)


# ---- enums --------------------------------------------------------------------------------------

# encoded size where it does not depend on the value or the encoding features
FIXED_SIZE = {"u8": 1, "bool": 1, "[u8; 3]": 3}


def snake(n):
    return "".join(("_" + c.lower() if c.isupper() and i else c.lower()) for i, c in enumerate(n))


class Variant:
    """shape: unit, tuple or named. z: index of the field that receives field conversion traces."""

    def __init__(self, slot, name, shape, fields, start=1, end=None, z=None, size=None, over=None, fname=None):
        self.slot, self.name, self.shape, self.fields, self.start, self.end = slot, name, shape, fields, start, end
        self.z, self.size, self.over, self.fname = z, size, over or {}, fname

    at = Field.at

    def id(self):
        return f"{self.plain()}{self.slot}"

    def plain(self):
        return self.name.replace("r#", "")

    def asof(self, n):
        f = [x for x in self.fields if x.start <= n]
        z = f.index(self.fields[self.z]) if self.z is not None else None
        return Variant(self.slot, self.name, self.shape, f, self.start, self.end, z, self.size, {r: d for r, d in self.over.items() if r <= n}, self.fname)

    def fields_struct(self):
        return self.fname or f"T{self.plain()}Fields"


class Enum:
    """variants[z] is a tuple variant of one Vec<String>, what removed variants convert to."""

    def __init__(self, name, layouts, variants, z, form=None):
        self.name, self.layouts, self.variants, self.z, self.form = name, layouts, variants, z, form

    def asof(self, n):
        v = [x.asof(n) for x in self.variants if x.start <= n]
        return Enum(f"{self.name}r{n}", self.layouts[:n], v, [x.slot for x in v].index(self.variants[self.z].slot), self.form)

    def discs(self, k):
        """variant slot -> number at revision k: overrides first, then declaration order"""
        alive = [v for v in self.variants if v.at(k)]
        d = {v.slot: v.over[k] for v in alive if k in v.over}
        used, nxt = set(d.values()), 0
        for v in alive:
            if v.slot not in d:
                while nxt in used:
                    nxt += 1
                d[v.slot] = nxt
                used.add(nxt)
        return d

    def supported(self):
        """Optimised revisions cannot hold variants whose fields differ from the newest ones."""
        rev = len(self.layouts)
        for k in range(1, rev + 1):
            if self.layouts[k - 1] == "L":
                continue
            for v in self.variants:
                if v.at(k) and any(f.at(k) != f.at(rev) for f in v.fields):
                    return False
        return True

    def pick_sizes(self):
        rev = len(self.layouts)
        for v in self.variants:
            f = [x for x in v.fields if x.at(rev)]
            if v.shape == "unit":
                v.size = "inline"
            elif f and all(x.ty in FIXED_SIZE for x in f):
                v.size = ["varlen", f"fixed({sum(FIXED_SIZE[x.ty] for x in f)})"][v.slot % 3 > 0]
            else:
                v.size = "varlen"

    def construct(self, v, vals):
        if v.shape == "unit":
            return f"T::{v.name}"
        if v.shape == "tuple":
            return f"T::{v.name}({', '.join(e for _, e in vals)})"
        return f"T::{v.name} {{ " + ", ".join(f"{f.name}: {e}" for f, e in vals) + " }"

    def emit(self, drivers, walk):
        rev = len(self.layouts)
        opt = "O" in self.layouts
        o = []
        o.append(item_attrs(self.layouts, self.form, walk) + "\n#[derive(Debug, PartialEq)]")
        decl = []
        for v in self.variants:
            a = []
            if v.start > 1 or v.slot % 3 == 1:
                a.append(f"start = {v.start}")
            if v.end is not None and v.end <= rev:
                a += [f"end = {v.end}", f'convert_fn = "v_{v.id()}"']
            if v.fname:
                a.append(f'fields_name = "{v.fname}"')
            for r, d in sorted(v.over.items()):
                a.append(f"override(revision = {r}, discriminant = {d})")
            if v.size and opt:
                a.append(f'size = "{v.size}"')
            at = f"#[revision({', '.join(a)})] " if a else ""
            fs = [f"{self.fattrs(v, f, rev)}{'' if v.shape == 'tuple' else f.name + ': '}{f.ty}" for f in v.fields]
            body = {"unit": "", "tuple": f"({', '.join(fs)})", "named": " { " + ", ".join(fs) + " }"}[v.shape]
            decl.append(f"\t{at}{v.name}{body},")
        o.append("pub enum T {\n" + "\n".join(decl) + "\n}")
        # conversion and default functions
        o.append("impl T {")
        for v in self.variants:
            st = v.fields_struct()
            alive = [f for f in v.fields if f.at(rev)]
            acc = {f.slot: (str(i) if v.shape == "tuple" else f.name) for i, f in enumerate(alive)}
            for f in v.fields:
                if f.end is not None and f.end <= rev:
                    o.append(f"\tfn c_{v.id()}_{f.id()}(x: &mut {st}, r: u16, v: {f.ty}) -> Result<(), Error> {{ conv(&mut x.{acc[v.fields[v.z].slot]}, \"{v.id()}.{f.id()}\", r, &v) }}")
                if f.start > 1 and f.dfn:
                    o.append(f"\tfn d_{v.id()}_{f.id()}(r: u16) -> Result<{f.ty}, Error> {{ dflt(r) }}")
            if v.end is not None and v.end <= rev:
                all_ = "".join(f"&x.{acc[f.slot]}, " for f in alive)
                o.append(f"\tfn v_{v.id()}(x: {st}, r: u16) -> Result<Self, Error> {{ let mut z = vec![]; conv(&mut z, \"{v.id()}\", r, &({all_}))?; Ok(T::{self.variants[self.z].name}(z)) }}")
        o.append("}")
        nv = len(self.variants)
        o.append("impl EHist for T {")
        o.append(f"\tconst REV: u16 = {rev};\n\tconst NAME: &'static str = \"{self.name} {self.layouts}\";\n\tconst LAYOUTS: &'static [u8] = b\"{self.layouts}\";\n\tconst VARIANTS: usize = {nv};")
        make, up, st = [], [], []
        for i, v in enumerate(self.variants):
            if v.at(rev):
                make.append(f"\t\t\t{i} => Some({self.construct(v, [(f, val(f)) for f in v.fields if f.at(rev)])}),")
            for k in range(1, rev + 1):
                if not v.at(k):
                    continue
                gone = [f for f in v.fields if f.at(k) and not f.at(rev)]
                calls = [f"call(\"{v.id()}.{f.id()}\", {k}, &{val(f)})" for f in gone]
                vals = []
                for f in v.fields:
                    if not f.at(rev):
                        continue
                    if f.start <= k:
                        e = val(f)
                        if v.z is not None and f is v.fields[v.z]:
                            e = f"{{ let mut z = {val(f)}; z.extend(c.clone()); z }}"
                    elif f.dfn:
                        e = f"<{f.ty}>::dflt({k})"
                    else:
                        e = f"<{f.ty}>::default()"
                    vals.append((f, e))
                if v.at(rev):
                    up.append(f"\t\t\t({k}, {i}) => {{ let c: Vec<String> = vec![{', '.join(calls)}]; ({self.construct(v, vals)}, c) }}")
                else:
                    tup = "".join(e + ", " for _, e in vals)
                    up.append(f"\t\t\t({k}, {i}) => {{ let mut c: Vec<String> = vec![{', '.join(calls)}]; let l = call(\"{v.id()}\", {k}, &({tup})); c.push(l.clone()); (T::{self.variants[self.z].name}(vec![l]), c) }}")
                cls = {"i": 0, "f": 1, "v": 2}[(v.size or "i")[0]]
                # optimised variants write every field through its type's own impl
                encs = [f"enc::<{f.marker if self.layouts[k - 1] == 'L' else 'Plain'}, {f.ty}>(false, &{val(f)})" for f in v.fields if f.at(k)]
                st.append(f"\t\t\t({k}, {i}) => Some(({self.discs(k)[v.slot]}, {cls}, vec![{', '.join(encs)}])),")
        o.append("\tfn make(v: usize, j: usize) -> Option<Self> {\n\t\tmatch v {\n" + "\n".join(make) + "\n\t\t\t_ => None,\n\t\t}\n\t}")
        o.append("\tfn upgraded(k: u16, v: usize, j: usize) -> (Self, Vec<String>) {\n\t\tmatch (k, v) {\n" + "\n".join(up) + "\n\t\t\t_ => unreachable!(),\n\t\t}\n\t}")
        o.append("\tfn stored(k: u16, v: usize, j: usize) -> Option<(u32, u8, Vec<Vec<u8>>)> {\n\t\tmatch (k, v) {\n" + "\n".join(st) + "\n\t\t\t_ => None,\n\t\t}\n\t}")
        o.append("}")
        if walk:
            o.append(self.emit_walk(rev))
        for d in drivers:
            if d == "s_reject" or d == "e_reject":
                o.append(OUTER)
                o.append(f"pub fn {d}(r: &mut Rep) {{ hist::{d}::<T, OL, OO, OI>(r) }}")
                continue
            o.append(f"pub fn {d}(r: &mut Rep) {{ hist::{d}::<T>(r) }}")
        return "\n".join(o)

    def fattrs(self, v, f, rev):
        return f.attrs(rev).replace('"c_', f'"c_{v.id()}_').replace('"d_', f'"d_{v.id()}_')

    def emit_walk(self, rev):
        conv = any((v.end is not None) or any(f.end is not None for f in v.fields) for v in self.variants)
        alive = [v for v in self.variants if v.at(rev)]
        b = lambda x: str(bool(x)).lower()
        o = ["impl EWalk for T {", f"\tconst CONV: bool = {b(conv)};"]
        info, isa, acc, idx, cur = [], [], [], [], []
        for i, v in enumerate(alive):
            fs = [f for f in v.fields if f.at(rev)]
            single = v.shape == "tuple" and len(fs) == 1
            f = fs[0] if single else None
            info.append(f"VariantInfo {{ unit: {b(v.shape == 'unit')}, single: {b(single)}, start: {f.start if f else 1}, forced: {b(f and f.marker in ('FixedInt', 'Spec'))}, refused: {f'<{f.ty} as Drain>::REFUSED' if f else 'false'}, disc: {self.discs(rev)[v.slot]} }}")
            m, pat = snake(v.plain()), {"unit": f"T::{v.name}", "tuple": f"T::{v.name}(..)", "named": f"T::{v.name} {{ .. }}"}[v.shape]
            isa.append(f"{i} => w.is_{m}()")
            idx.append(f"{pat} => {i}")
            if v.shape == "unit":
                acc.append(f"\t\t\t({i}, Acc::Decode) => Some(unit(w.decode_{m}())),\n\t\t\t({i}, Acc::Into) => Some(unit(w.into_{m}())),")
                cur.append(f"T::{v.name} => vec![]")
                continue
            if single:
                acc.append(f"\t\t\t({i}, Acc::Decode) => Some(match want {{ T::{v.name}(x) => yes(w.decode_{m}(), x), _ => w.decode_{m}().map(|_| Ans::Done(false)) }}),")
                acc.append(f"\t\t\t({i}, Acc::Into) => Some(match want {{ T::{v.name}(x) => walked::<{f.ty}, _>(w.into_{m}(), x), _ => w.into_{m}().map(|_| Ans::Done(false)) }}),")
            acc.append(f"\t\t\t({i}, Acc::View) => Some(w.{m}_view().map(|v| Ans::Bytes(v.into_bytes().into_owned()))),")
            lay = lambda f: f"enc::<{f.marker if self.layouts[-1] == 'L' else 'Plain'}, {f.ty}>(false, x{f.slot})"
            binds = ", ".join((f"x{f.slot}" if v.shape == "tuple" else f"{f.name}: x{f.slot}") for f in fs)
            pat = f"T::{v.name}({binds})" if v.shape == "tuple" else f"T::{v.name} {{ {binds} }}"
            cur.append(f"{pat} => vec![{', '.join(lay(f) for f in fs)}]")
        o.append(f"\tfn info() -> Vec<VariantInfo> {{ vec![{', '.join(info)}] }}")
        tab = []
        for k in range(1, rev + 1):
            d = self.discs(k)
            tab.append(f"{k} => vec![{', '.join(f'(&{chr(34)}{v.plain()}{chr(34)}[..], {d[v.slot]})' for v in self.variants if v.at(k))}]")
        o.append(f"\tfn names(k: u16) -> Vec<(&'static str, u32)> {{ match k {{ {', '.join(tab)}, _ => vec![] }} }}")
        o.append("\tfn table(k: u16) -> &'static [(&'static str, u32)] { T::walk_revisioned_variant_table(k) }")
        o.append("\tfn name(k: u16, d: u32) -> Option<&'static str> { T::walk_revisioned_variant_name(k, d) }")
        o.append("\tfn rev<'r>(w: &Self::Walker<'r, &'r [u8]>) -> u16 { w.revision() }\n\tfn disc<'r>(w: &Self::Walker<'r, &'r [u8]>) -> u32 { w.discriminant() }")
        o.append(f"\tfn is<'r>(w: &Self::Walker<'r, &'r [u8]>, u: usize) -> bool {{ match u {{ {', '.join(isa)}, _ => unreachable!() }} }}")
        o.append("\tfn acc<'r>(w: Self::Walker<'r, &'r [u8]>, u: usize, a: Acc, want: &Self) -> Option<Result<Ans, Error>> {\n\t\tmatch (u, a) {\n" + "\n".join(acc) + "\n\t\t\t_ => None,\n\t\t}\n\t}")
        o.append(f"\tfn index(&self) -> usize {{ match self {{ {', '.join(idx)} }} }}")
        o.append(f"\tfn current(&self) -> Vec<Vec<u8>> {{ match self {{ {', '.join(cur)} }} }}")
        o.append("}")
        return "\n".join(o)


VNAMES = ["Alpha", "BetaTwo", "Gamma", "Revision", "Reader", "Type", "Delta", "Some", "None", "Error", "Ok", "Epsilon", "Value", "Discriminant", "Own", "r#match", "HTTPCode", "lower", "Old_Name"]


def life(a, b):
    """Whether intervals a and b meet, and b is not a strange piece outside a."""
    s, e = max(a[0], b[0]), min(a[1] or 99, b[1] or 99)
    return s < e


def enum_arrangement(name, layouts, ints, seed, form=None, inner=True, over=False, reuse=False):
    n = len(layouts)
    removal = any(e for _, e in ints)
    order = perm(len(ints), seed * 101 + 7)
    zp = seed % (len(ints) + 1)
    vs = []
    for i, x in enumerate(order):
        if i == zp:
            vs.append(None)
        s, e = ints[x]
        shape = ["unit", "tuple", "tuple", "named", "tuple", "named"][(seed + x) % 6]
        nf = 0 if shape == "unit" else [1, 2, 1, 3][(seed + x * 3) % 4]
        fields, z = [], None
        small = seed % 4 == 3
        for q in range(nf):
            kind = KINDS[(seed * 7 + x * 5 + q * 3) % len(KINDS)]
            if small and q == 0:
                kind = [("u8", "Plain"), ("bool", "Plain"), ("[u8; 3]", "Plain")][(x + seed) % 3]
            if kind[1][0] == "I":
                kind = (kind[0], "Plain")
            fields.append(Field(x * 4 + q, NAMES[(q + x + seed) % len(NAMES)], kind))
        if nf and inner:
            # give the fields lives of their own inside the variant
            lives = [b for b in intervals(n) if life((s, e), b) and (removal or b[1] is None)]
            for q, f in enumerate(fields):
                f.start, f.end = lives[(seed * 3 + x + q * 5) % len(lives)]
                f.dfn = (q + seed) % 2 == 0
            if any(f.end is not None for f in fields):
                z = (seed + x) % (nf + 1)
                fields.insert(z, Field(x * 4 + 3, "zz", ("Vec<String>", "Plain")))
        vs.append(Variant(x, VNAMES[(x * 2 + seed) % len(VNAMES)], shape, fields, s, e, z))
    if zp == len(order):
        vs.append(None)
    zv = Variant(len(ints), "Sink", "tuple", [Field(60, "z", ("Vec<String>", "Plain"))])
    vs[zp] = zv
    if reuse:
        for g in vs:
            for h in vs:
                if g.end is not None and h.start >= g.end and h is not zv and g is not h:
                    h.name, g.fname = g.name, f"Old{g.slot}Fields"
                    break
    for r in range(1, n + 1):
        for v in vs:
            if v.at(r) and [u.name for u in vs if u.at(r)].count(v.name) > 1 and v is not zv:
                v.name = f"{v.plain()}{v.slot}"
    seen = set()
    for v in vs:
        if v.fields_struct() in seen:
            v.fname = f"Fields{v.slot}"
        seen.add(v.fields_struct())
    if over:
        for r in range(1, n + 1):
            alive = [v for v in vs if v.at(r)]
            cap = 31 if layouts[r - 1] == "O" else [7, 300, 70000, 250][(seed + r) % 4]
            mode = (seed + r) % 3
            for i, v in enumerate(alive):
                if mode == 0:
                    v.over[r] = len(alive) - 1 - i
                elif mode == 1 and i % 2 == 0:
                    v.over[r] = cap - i
                elif mode == 2 and i == len(alive) - 1:
                    v.over[r] = 0
    e = Enum(name, layouts, vs, vs.index(zv), form)
    return e


# the type as a field of other types
OUTER = """#[revisioned(revision = 1)]
#[derive(Debug, PartialEq)]
pub struct OL { a: u8, t: T, b: u16 }
#[revisioned(revision(1, optimised))]
#[derive(Debug, PartialEq)]
pub struct OO { a: u8, t: T, b: u16 }
#[revisioned(revision(1, optimised, indexed_struct))]
#[derive(Debug, PartialEq)]
pub struct OI { a: u8, t: T, b: u16 }
impl HasT<T> for OL { fn t(&self) -> &T { &self.t } }
impl HasT<T> for OO { fn t(&self) -> &T { &self.t } }
impl HasT<T> for OI { fn t(&self) -> &T { &self.t } }"""


def perm(n, i):
    """The i-th permutation of 0..n."""
    xs, out = list(range(n)), []
    f = 1
    for k in range(2, n + 1):
        f *= k
    i %= f
    for k in range(n, 0, -1):
        f //= k
        out.append(xs.pop(i // f))
        i %= f
    return out


def arrangement(name, layouts, ints, seed, tup, form=None, reuse=False):
    """A struct with one field per interval, in a permuted order, kinds and names rotated by `seed`."""
    order = perm(len(ints), seed * 101 + 7)
    zp = seed % (len(ints) + 1)
    fields = []
    for i, x in enumerate(order):
        if i == zp:
            fields.append(None)
        s, e = ints[x]
        kind = KINDS[(seed * 5 + x * 4 + i) % len(KINDS)]
        fields.append(Field(x, NAMES[(x + seed * 3) % len(NAMES)], kind, s, e, (x + seed) % 2 == 0))
    if zp == len(order):
        fields.append(None)
    z = Field(len(ints), "z", ("Vec<String>", ["Plain", "ISeq"][seed // 2 % 2]))
    fields[zp] = z
    if reuse:
        # a later field takes over the name (and type) of a removed one
        for g in fields:
            for h in fields:
                if g.end is not None and h.start >= g.end and h is not z and h.name != g.name and g.name != z.name:
                    h.name, h.ty, h.marker = g.name, g.ty, g.marker
                    break
    # names alive together must differ
    for r in range(1, len(layouts) + 1):
        names = [f.name for f in fields if f.at(r)]
        for f in fields:
            if f.at(r) and names.count(f.name) > 1 and f is not z:
                f.name = f"{f.plain()}_{f.slot}"
                names = [f.name for f in fields if f.at(r)]
    return Struct(name, layouts, fields, fields.index(z), tup, form)


def encodings(n, alphabet="LOI"):
    return ["".join(p) for p in itertools.product(alphabet, repeat=n)]


PRELUDE = """
use mc::hist::{self, *};
use mc::derived::*;
use mc::forced::{Forced, Walked, plain, put, rev, tag};
use mc::rep::*;
use revision::*;
use std::collections::{BTreeMap, BTreeSet};
"""


def write(out, prop, mods, shards=8):
    """mods: (module name, source, drivers)"""
    os.makedirs(out, exist_ok=True)
    parts = [[] for _ in range(shards)]
    for i, m in enumerate(mods):
        parts[i % shards].append(m)
    for i, p in enumerate(parts):
        o = [PRELUDE]
        for name, src, drivers in p:
            o.append(f"mod {name} {{\nuse super::*;\n{src}\n}}")
        o.append("fn main() {\n\tlet mut t: Vec<Task> = vec![];")
        for name, _, drivers in p:
            for d in drivers:
                o.append(f"\tt.push((\"{name} {d}\".into(), Box::new({name}::{d})));")
        o.append(f"\trun(\"{prop}\", t);\n}}")
        with open(os.path.join(out, f"g{i}.rs"), "w") as f:
            f.write("\n".join(o) + "\n")
    return [f"g{i}" for i in range(shards) if parts[i]]


# ---- families -----------------------------------------------------------------------------------

ADDED = [(1, None), (2, None), (3, None), (1, None), (2, None), (3, None)]


def mod(t, drivers, walk=False):
    return (t.name, t.emit(drivers, walk), drivers)


def same_kind(name, layouts, k, tup, ints):
    """One field of the same kind per life."""
    f = [Field(i, f"f{i}", KINDS[k], s, e, (i + k) % 2 == 0) for i, (s, e) in enumerate(ints)]
    z = Field(len(ints), "z", ("Vec<String>", "Plain"))
    f.insert(k % (len(ints) + 1), z)
    return Struct(name, layouts, f, f.index(z), tup)


def tiny(prefix, n):
    """Structs of one field and of none."""
    out = []
    for e, lay in enumerate(encodings(n)):
        for i, (s, t) in enumerate(intervals(n)):
            f = Field(0, "a", KINDS[(e * 5 + i) % len(KINDS)], s, t, (e + i) % 2 == 0)
            out.append(Struct(f"{prefix}{e}x{i}", lay, [f], None, (e + i) % 3 == 0))
        out.append(Struct(f"{prefix}{e}n", lay, [], None, e % 2 == 0))
    return out


def struct_histories(prefix, n, seeds, ints=None):
    return [arrangement(f"{prefix}{e}x{a}", lay, ints or intervals(n), e * seeds + a, a % 2 == 1, reuse=a % 4 == 2)
            for e, lay in enumerate(encodings(n)) for a in range(seeds)]


def enum_histories(prefix, n, seeds, ints=None):
    out = []
    for e, lay in enumerate(encodings(n, "LO")):
        for a in range(seeds):
            sd = e * seeds + a
            for inner in (True, False):
                t = enum_arrangement(f"{prefix}{e}x{a}{'' if inner else 'n'}", lay, ints or intervals(n), sd, inner=inner, over=a % 3 == 1, reuse=a % 4 == 2)
                if inner and not t.supported():
                    continue
                t.pick_sizes()
                out.append(t)
                break
    return out


def many(name, layouts, count, over=None):
    """An enum of many variants."""
    vs = []
    for i in range(count - 1):
        f = [] if i % 3 == 0 else [Field(i, "a", [("u8", "Plain"), ("String", "Plain")][i % 2])]
        vs.append(Variant(i, f"V{i}", "unit" if not f else ["tuple", "named"][i % 2], f))
    vs.append(Variant(count, "Sink", "tuple", [Field(60, "z", ("Vec<String>", "Plain"))]))
    if over:
        for r in range(1, len(layouts) + 1):
            vs[count // 2].over[r] = over
    e = Enum(name, layouts, vs, count - 1)
    e.pick_sizes()
    return e


def big_enums(p):
    return [many(p + "a", "O", 32), many(p + "b", "OO", 31, 31), many(p + "c", "L", 300), many(p + "d", "LL", 40, 70000), many(p + "e", "LO", 32, 0)]


def long(prefix):
    """Histories of 300 revisions: numbers that need more than one byte, in the encoding and in any table."""
    out = []
    n = 300
    lives = [(1, None), (1, 250), (2, 251), (128, None), (200, 256), (251, None), (255, 257), (256, None), (257, 300), (250, None), (300, None)]
    for i, lay in enumerate(["L" * n, "LOI" * (n // 3), "O" * 255 + "L" * 45, "I" * n]):
        f = [Field(q, f"f{q}", KINDS[(q * 3 + i) % len(KINDS)], s, e, q % 2 == 0) for q, (s, e) in enumerate(lives)]
        z = Field(len(lives), "z", ("Vec<String>", "Plain"))
        f.insert(i, z)
        out.append(Struct(f"{prefix}{i}", lay, f, i, i == 1, ("short", None, "outer") if i == 0 else None))
    return out


def long_enums(prefix):
    out = []
    n = 300
    lives = [(1, None), (1, 250), (2, 251), (128, None), (200, 256), (251, None), (255, 257), (256, None), (257, 300), (250, None), (300, None)]
    for i, lay in enumerate(["L" * n, "LO" * (n // 2), "O" * 255 + "L" * 45]):
        vs = [Variant(q, f"V{q}", ["unit", "tuple", "named"][(q + i) % 3], [] if (q + i) % 3 == 0 else [Field(q, "a", [("u16", "Plain"), ("String", "Plain")][q % 2])], s, e) for q, (s, e) in enumerate(lives)]
        vs.insert(i, Variant(len(lives), "Sink", "tuple", [Field(60, "z", ("Vec<String>", "Plain"))]))
        t = Enum(f"{prefix}{i}", lay, vs, i, ("short", None, "outer") if i == 0 else None)
        t.pick_sizes()
        out.append(t)
    return out


def wide(prefix):
    """Structs of 40 and 300 fields, some of which come and go."""
    out = []
    for i, (lay, count) in enumerate([("LI", 40), ("IO", 40), ("I", 300), ("II", 300), ("OL", 300)]):
        f = []
        for q in range(count):
            s, e = intervals(len(lay))[(q * 7 // 5) % len(intervals(len(lay)))] if q % 3 == 0 else (1, None)
            f.append(Field(q, f"f{q}", KINDS[(q + i) % len(KINDS)], s, e, q % 2 == 0))
        z = Field(count, "z", ("Vec<String>", "Plain"))
        f.insert(count // 2, z)
        out.append(Struct(f"{prefix}{i}", lay, f, count // 2, i == 1))
    return out


def big(prefix):
    """Payloads whose lengths and offsets need more than 16 bits."""
    out = []
    for i, lay in enumerate(encodings(2)):
        lives = [(1, None), (1, 2), (1, None), (2, None), (1, None)]
        kinds = [("Vec<i64>", "Plain"), ("u16", "Plain"), ("String", "Plain"), ("Vec<i64>", "Plain"), ("Vec<i64>", "ISeq")]
        f = [Field(q, f"f{q}", kinds[(q + i) % 5], *lives[q], q % 2 == 0) for q in range(5)]
        z = Field(5, "z", ("Vec<String>", "Plain"))
        f.insert(i % 6, z)
        out.append(Struct(f"{prefix}{i}", lay, f, i % 6, i % 2 == 1))
    return out


def big_payload_enums(prefix):
    out = []
    for i, lay in enumerate(encodings(2, "LO")):
        V = ("Vec<i64>", "Plain")
        vs = [Variant(0, "One", "tuple", [Field(0, "a", V)]), Variant(1, "Two", "named", [Field(5, "a", V), Field(6, "b", ("u16", "Plain")), Field(10, "c", V)]),
            Variant(2, "Gone", "tuple", [Field(15, "a", ("u8", "Plain")), Field(20, "b", V)], 1, 2), Variant(3, "Sink", "tuple", [Field(60, "z", ("Vec<String>", "Plain"))])]
        t = Enum(f"{prefix}{i}", lay, vs, 3)
        t.pick_sizes()
        out.append(t)
    return out


def asof(ts, drivers):
    out = []
    for s in ts:
        for n in range(1, len(s.layouts) + 1):
            t = s.asof(n)
            if isinstance(t, Enum):
                if not t.supported():
                    continue
                t.pick_sizes()
            out.append(mod(t, drivers))
    return out


def p08(tier):
    q = tier == "quick"
    d = ["s_upgrade"]
    mods = asof(struct_histories("s", N, 6 if q else 16), d)
    mods += asof(tiny("t", N), d)
    for e, lay in enumerate(encodings(N)):
        for k in range(len(KINDS)):
            mods.append(mod(same_kind(f"k{e}x{k}", lay, k, (e + k) % 2 == 1, INT), d))
    mods += asof(struct_histories("u", 4, 1), d) if not q else [mod(x, d) for x in struct_histories("u", 4, 1)]
    if not q:
        mods += asof(struct_histories("v", 5, 1), d)
    mods += asof(struct_histories("y", 2, 4 if q else 24), d)
    mods += [mod(x, d) for x in long("long") + wide("wide") + big("big")]
    return mods


def p09(tier):
    q = tier == "quick"
    d = ["e_upgrade"]
    mods = asof(enum_histories("e", N, 16 if q else 64), d)
    mods += asof(enum_histories("f", N, 6 if q else 24, ADDED), d)
    mods += asof(enum_histories("g", 2, 12 if q else 48), d)
    mods += asof(enum_histories("h", 4, 2 if q else 12), d)
    mods += [mod(t, d) for t in big_enums("b") + long_enums("long") + big_payload_enums("big")]
    return mods


def p04(tier):
    q = tier == "quick"
    mods = [mod(t, ["s_skip"]) for t in struct_histories("s", N, 3 if q else 12) + tiny("t", N) + struct_histories("u", 4, 1)]
    for e, lay in enumerate(encodings(2)):
        for k in range(len(KINDS)):
            mods.append(mod(same_kind(f"k{e}x{k}", lay, k, (e + k) % 2 == 1, intervals(2)), ["s_skip"]))
    mods += [mod(t, ["e_skip"]) for t in enum_histories("e", N, 8 if q else 32) + enum_histories("g", 2, 8) + big_enums("b") + big_payload_enums("big")]
    mods += [mod(t, ["s_skip"]) for t in long("long")[1:2] + wide("wide")[:2] + big("big")]
    return mods


def p10(tier):
    q = tier == "quick"
    mods = [mod(t, ["s_reject"], True) for t in struct_histories("s", N, 1) + struct_histories("t", 2, 1) + struct_histories("u", 1, 1)]
    mods += [mod(t, ["e_reject"], True) for t in enum_histories("e", N, 4 if q else 16) + enum_histories("f", N, 2, ADDED) + enum_histories("g", 1, 3) + big_enums("b")]
    mods += [mod(t, ["s_reject"], True) for t in long("long")] + [mod(t, ["e_reject"], True) for t in long_enums("long")]
    return mods


def p05(tier):
    q = tier == "quick"
    mods = [mod(t, ["s_cuts"], True) for t in struct_histories("s", N, 2 if q else 12) + tiny("t", N) + struct_histories("u", 2, 2 if q else 8) + big("big")]
    mods += [mod(t, ["e_cuts"], True) for t in enum_histories("e", N, 4 if q else 32) + enum_histories("f", 2, 4 if q else 12, ADDED[:2]) + big_payload_enums("big")]
    return mods


def p06(tier):
    q = tier == "quick"
    mods = [mod(t, ["s_edits"], True) for t in struct_histories("s", N, 1 if q else 6) + struct_histories("u", 2, 2 if q else 8)]
    mods += [mod(t, ["e_edits"], True) for t in enum_histories("e", N, 2 if q else 12) + enum_histories("f", 2, 2 if q else 12, ADDED[:2])]
    return mods


def forms(layouts):
    n = len(layouts)
    out = [("list", o, p) for o in itertools.permutations(range(n)) for p in ("outer", "inner", "split")]
    if set(layouts) == {"L"}:
        out = [("short", None, "outer"), ("short", None, "inner")] + out
    return out


def p11(tier):
    q = tier == "quick"
    mods, sd = [], ["s_upgrade", "s_skip", "s_walk_few"]
    for n in (1, 2, 3):
        for e, lay in enumerate(encodings(n)):
            for i, f in enumerate(forms(lay)):
                for a in range(4 if set(lay) == {"L"} else 1 if q else 2):
                    t = arrangement(f"s{n}x{e}x{i}x{a}", lay, [intervals(n), ADDED[:n]][a % 2] if set(lay) == {"L"} else intervals(n), n * 13 + e + a * 5, a // 2 % 2 == 1, form=f)
                    mods.append(mod(t, sd, True))
    ed = ["e_upgrade", "e_skip", "e_walk"]
    for n in (1, 2, 3):
        for e, lay in enumerate(encodings(n, "LO")):
            for i, f in enumerate(forms(lay)):
                t = enum_arrangement(f"e{n}x{e}x{i}", lay, intervals(n), n * 13 + e, inner=False, over=e % 2 == 1, form=f)
                t.pick_sizes()
                mods.append(mod(t, ed, True))
    for i, f in enumerate(forms("LLLL")):
        mods.append(mod(arrangement(f"q{i}", "LLLL", intervals(4), 5, False, form=f), sd, True))
        mods.append(mod(arrangement(f"p{i}", "LOIL", intervals(4), 6, True, form=f if f[0] == "list" else None), sd, True))
    return mods


def p12(tier):
    q = tier == "quick"
    d = ["s_walk"]
    mods = [mod(t, d, True) for t in struct_histories("w", N, 4 if q else 16) + struct_histories("x", N, 4 if q else 16, ADDED[:5]) + tiny("t", N)]
    for e, lay in enumerate(encodings(N)):
        for k in range(len(KINDS)):
            ints = [(1, None), (2, None), (3, None)] + ([(1, 2), (2, 3)] if (e + k) % 2 else [])
            mods.append(mod(same_kind(f"k{e}x{k}", lay, k, (e // 2 + k) % 2 == 1, ints), d, True))
    if not q:
        mods += [mod(t, d, True) for t in struct_histories("u", 4, 1) + struct_histories("v", 4, 1, ADDED[:3] + [(4, None)])]
    mods += [mod(t, ["s_walk_few"], True) for t in long("long") + wide("wide")]
    mods += [mod(t, d, True) for t in big("big")]
    return mods


def p13(tier):
    q = tier == "quick"
    d = ["e_walk"]
    hs = enum_histories("f", N, 12 if q else 48) + enum_histories("g", N, 12 if q else 48, ADDED)
    hs += enum_histories("h", 2, 12) + enum_histories("i", 4, 1 if q else 8) + big_enums("b") + long_enums("long") + big_payload_enums("big")
    return [mod(s, d, True) for s in hs]


# ---- forced field layouts -----------------------------------------------------------------------

FORCED = [(t, "fixed", "FixedInt") for t in ("u32", "i32", "u64", "i64", "u128", "i128")]
FORCED += [(f"Vec<{t}>", "specialised", "Spec") for t in ("bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64")]

A, B = ("u16", "300"), ("String", '"tail".to_string()')


def forced_mod(name, t, m, k, attr, decl, wrap, field, stored, without="", walk=None, walks=2, rev=1, extra=""):
    """stored / without: match arms on the revision, giving a Vec of byte strings."""
    w = walk or "unreachable!()"
    without = without or "_ => None,"
    src = f"""#[revisioned({attr})]
#[derive(Debug)]
{decl}
{extra}
impl Forced for T {{
	type X = {t};
	const NAME: &'static str = "{name} {t}";
	const REV: u16 = {rev};
	const WALK: u8 = {walks if walk else 0};
	fn wrap(x: {t}) -> Self {{ {wrap} }}
	fn field(&self) -> Option<&{t}> {{ {field} }}
	fn stored(x: &{t}, k: u16) -> Option<Vec<u8>> {{
		let f = put::<{k}, {t}>(x);
		let (a, b) = (plain::<u16>(&300), plain::<String>(&"tail".to_string()));
		let _ = (&f, &a, &b);
		match k {{ {stored} }}
	}}
	fn without(k: u16) -> Option<Vec<u8>> {{
		let (a, b) = (plain::<u16>(&300), plain::<String>(&"tail".to_string()));
		let _ = (&a, &b);
		match k {{ {without} }}
	}}
	fn walk(b: &mut &[u8], decode: bool) -> Walked<{t}> {{ {w} }}
}}
pub fn forced(r: &mut Rep) {{ mc::forced::forced::<T>(r) }}"""
    return (name, src, ["forced"])


def p19(tier):
    mods = []
    for i, (t, m, k) in enumerate(FORCED):
        F = f"#[revision({m})]"
        three = "let mut w = T::walk_revisioned(b)?; w.skip_a()?; let x = if decode { Some(w.decode_x()?) } else { w.skip_x()?; None }; w.skip_b()?; Ok(x)"
        ab = "T { a: 300, x, b: \"tail\".into() }"
        fab = "(self.a == 300 && self.b == \"tail\").then_some(&self.x)"
        l3 = "Some([rev(1), a, f, b].concat()),"
        L = lambda n: f"revision = {n}"
        add = lambda *a, **kw: mods.append(forced_mod(f"{a[0]}{i}", t, m, k, *a[1:], **kw))
        add("only", L(1), f"pub struct T {{ {F} x: {t} }}", "T { x }", "Some(&self.x)", "1 => Some([rev(1), f].concat()), _ => None",
            walk="let mut w = T::walk_revisioned(b)?; if decode { Ok(Some(w.decode_x()?)) } else { w.skip_x()?; Ok(None) }")
        add("mid", L(1), f"pub struct T {{ a: u16, {F} x: {t}, b: String }}", ab, fab, "1 => " + l3 + " _ => None", walk=three)
        add("tup", L(1), f"pub struct T({F} {t}, u8);", "T(x, 9)", "(self.1 == 9).then_some(&self.0)", "1 => Some([rev(1), f, vec![9]].concat()), _ => None",
            walk="let mut w = T::walk_revisioned(b)?; let x = if decode { Some(w.decode_field_0()?) } else { w.skip_field_0()?; None }; w.skip_field_1()?; Ok(x)")
        add("mix", L(1), f"pub struct T(String, {F} {t}, #[revision(fixed)] u64, #[revision(specialised)] Vec<u16>, u8, {F} {t});",
            'T("s".into(), x.clone(), u64::MAX - 1, vec![1, 2, 65535], 7, x)',
            '(self.0 == "s" && self.2 == u64::MAX - 1 && self.3 == [1, 2, 65535] && self.4 == 7 && mc::model::Model::same(&self.1, &self.5)).then_some(&self.1)',
            '1 => Some([rev(1), plain::<String>(&"s".to_string()), f.clone(), put::<FixedInt, u64>(&(u64::MAX - 1)), put::<Spec, Vec<u16>>(&vec![1, 2, 65535]), vec![7], f].concat()), _ => None',
            walk="let mut w = T::walk_revisioned(b)?; w.skip_field_0()?; w.skip_field_1()?; w.skip_field_2()?; if w.decode_field_3()? != [1, 2, 65535] { return Ok(None) } w.skip_field_4()?; if decode { Ok(Some(w.decode_field_5()?)) } else { w.skip_field_5()?; Ok(None) }")
        add("late", L(2), f"pub struct T {{ a: u16, #[revision(start = 2, {m})] x: {t}, b: String }}", ab, fab,
            "2 => Some([rev(2), a, f, b].concat()), _ => None", without="1 => Some([rev(1), a, b].concat()), _ => None", walk=three, rev=2)
        add("gone", L(3), f'pub struct T {{ a: u16, #[revision(end = 3, convert_fn = "conv", {m})] old: {t}, b: String, #[revision(start = 3)] x: {t} }}',
            ab, fab, "1 | 2 => Some([rev(k), a, f, b].concat()), _ => Some([rev(3), a, b, plain(x)].concat())",
            walk="let mut w = T::walk_revisioned(b)?; w.skip_a()?; w.skip_b()?; if decode { Ok(Some(w.decode_x()?)) } else { w.skip_x()?; Ok(None) }", rev=3,
            extra=f"impl T {{ fn conv(&mut self, _: u16, old: {t}) -> Result<(), Error> {{ self.x = old; Ok(()) }} }}")
        add("var", L(1), f"pub enum T {{ A, V({F} {t}), B(u8) }}", "T::V(x)", "match self { T::V(x) => Some(x), _ => None }", "1 => Some([rev(1), tag(1), f].concat()), _ => None",
            walk="let _ = decode; Ok(Some(T::walk_revisioned(b)?.decode_v()?))", walks=1)
        add("vs", L(1), f"pub enum T {{ V {{ a: u16, {F} x: {t}, b: String }}, W }}", "T::V { a: 300, x, b: \"tail\".into() }",
            "match self { T::V { a: 300, x, b } if b == \"tail\" => Some(x), _ => None }", "1 => Some([rev(1), tag(0), a, f, b].concat()), _ => None")
        add("vt", L(1), f"pub enum T {{ W, V(u16, {F} {t}, String) }}", "T::V(300, x, \"tail\".into())",
            "match self { T::V(300, x, b) if b == \"tail\" => Some(x), _ => None }", "1 => Some([rev(1), tag(1), a, f, b].concat()), _ => None")
        add("vl", L(2), f"pub enum T {{ W, #[revision(start = 2)] V({F} {t}) }}", "T::V(x)", "match self { T::V(x) => Some(x), _ => None }", "2 => Some([rev(2), tag(1), f].concat()), _ => None",
            walk="let _ = decode; Ok(Some(T::walk_revisioned(b)?.decode_v()?))", walks=1, rev=2)
        add("vf", L(2), f"pub enum T {{ V {{ a: u16, #[revision(start = 2, {m})] x: {t}, b: String }}, W }}", "T::V { a: 300, x, b: \"tail\".into() }",
            "match self { T::V { a: 300, x, b } if b == \"tail\" => Some(x), _ => None }", "2 => Some([rev(2), tag(0), a, f, b].concat()), _ => None",
            without="1 => Some([rev(1), tag(0), a, b].concat()), _ => None", rev=2)
        add("lo", "revision(1), revision(2, optimised)", f"pub struct T {{ a: u16, {F} x: {t}, b: String }}", ab, fab,
            "1 => " + l3 + " _ => { let p = [a, plain(x), b].concat(); Some([rev(2), (p.len() as u32).to_le_bytes().to_vec(), p].concat()) }", walk=three, rev=2)
        add("ol", "revision(1, optimised), revision(2)", f"pub struct T {{ a: u16, {F} x: {t}, b: String }}", ab, fab,
            "2 => Some([rev(2), a, f, b].concat()), _ => { let p = [a, plain(x), b].concat(); Some([rev(1), (p.len() as u32).to_le_bytes().to_vec(), p].concat()) }", walk=three, rev=2)
    return mods


FAMILIES = {"P19": p19, "P04": p04, "P05": p05, "P06": p06, "P08": p08, "P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13}


def generate(prop, tier, out):
    return write(out, prop, FAMILIES[prop](tier))


if __name__ == "__main__":
    import sys
    print(generate(sys.argv[1], sys.argv[2], sys.argv[3]))

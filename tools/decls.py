"""P22: every declaration of a bounded alphabet, with the verdict the documentation prescribes, is
given to the compiler together with the real derive. A contradictory one has to draw an error, a
consistent one none.

The verdicts come from the rules below, never from the derive. Declarations whose status the
documentation leaves open (lives that are empty, options without effect) are not generated."""
import itertools, json, os, re, subprocess

ERR = "revision::Error"


class Out:
    def __init__(self):
        self.good, self.bad, self.seen = [], [], set()

    def add(self, what, ok, src):
        if src in self.seen:
            return
        self.seen.add(src)
        (self.good if ok else self.bad).append((what, src))


# ---- revision lists -----------------------------------------------------------------------------

def items(attr_outer, attr_inner, kind):
    body = {"s": "pub struct T { pub a: u32 }", "t": "pub struct T(pub u32, String);", "u": "pub struct T;",
            "e": "pub enum T { #[revision(size = \"inline\")] A, #[revision(size = \"varlen\")] B(u32) }"}[kind]
    o = f"#[revision::revisioned({attr_outer})]\n"
    for a in attr_inner:
        o += f"#[revision({a})]\n"
    return o + body


def lists(d, thorough):
    """Every sequence of entry numbers up to length 4 over 0..=5, in every position."""
    top = 4
    for n in range(1, top + 1):
        for seq in itertools.product(range(0, 6), repeat=n):
            ok = sorted(seq) == list(range(1, n + 1))
            es = [f"revision({x})" for x in seq]
            h = sum((i + 1) * x for i, x in enumerate(seq))
            kinds = "steu" if n < 3 or ok or thorough else "steu"[h % 4]
            for kind in kinds:
                for pos in ("outer", "inner", "split"):
                    if pos == "split" and not ok and not thorough and n > 2 and h % 3:
                        continue
                    if pos == "outer":
                        s = items(", ".join(es), [], kind)
                    elif pos == "inner":
                        s = items("", [", ".join(es)], kind)
                    else:
                        s = items("", es, kind)
                    d.add(f"entries {seq} {pos}", ok, s)
    # optimised entries follow the same rule
    for n in range(1, 4):
        for seq in itertools.product(range(0, 5), repeat=n):
            ok = sorted(seq) == list(range(1, n + 1))
            for mask in range(1, 1 << n):
                es = [f"revision({x}{', optimised' if mask >> i & 1 else ''})" for i, x in enumerate(seq)]
                if ok or mask == (1 << n) - 1 or thorough:
                    for kind in "se":
                        d.add(f"optimised entries {seq} {mask}", ok, items(", ".join(es), [], kind))
    for kind in "steu":
        for n in (1, 2, 3, 7, 40):
            d.add(f"revision = {n}", True, items(f"revision = {n}", [], kind))
            d.add(f"inner revision = {n}", True, items("", [f"revision = {n}"], kind))
        for n in (0, 65536, 65537, 100000):
            d.add(f"revision = {n}", False, items(f"revision = {n}", [], kind))
            d.add(f"inner revision = {n}", False, items("", [f"revision = {n}"], kind))
        if thorough and kind == "u":  # 65535 arms: a minute of compiling
            d.add("revision = 65535", True, "#[revision::revisioned(revision = 65535, skip = false, walk = false)]\npub struct T;")
        # neither form, both forms, both positions
        d.add("no revision", False, items("", [], kind))
        d.add("no revision, options", False, items("serialize = true", [], kind))
        for n in (1, 2):
            for m in (1, 2):
                for a, b in ((f"revision = {n}", f"revision({m})"), (f"revision({n})", f"revision = {m}"), (f"revision = {n}", f"revision = {m}")):
                    d.add(f"{a} and {b} together", False, items(f"{a}, {b}", [], kind))
                    d.add(f"{a} and {b} inside", False, items("", [f"{a}, {b}"], kind))
                    d.add(f"{a} and {b} inside, split", False, items("", [a, b], kind))
                for a in (f"revision = {n}", f"revision({n})", "revision(1), revision(2)"):
                    for b in (f"revision = {m}", f"revision({m})", "revision(1), revision(2)"):
                        d.add(f"{a} outside and {b} inside", False, items(a, [b], kind))
        for bad in ("revision = 1, frobnicate = true", "revision(1, frobnicate)", "revision = \"1\"", "revision()", "revision", "revision(optimised)", "revision = 1, skip = 1", "revision = -1"):
            d.add(bad, False, items(bad, [], kind))
        for o in ("skip", "walk"):
            d.add(f"{o} twice", False, items(f"revision = 1, {o} = true, {o} = true", [], kind))


# ---- lives --------------------------------------------------------------------------------------

def life(s, e, conv, dflt, fn):
    o = []
    if s is not None:
        o.append(f"start = {s}")
    if e is not None:
        o.append(f"end = {e}")
    if conv:
        o.append(f"convert_fn = \"{fn}c\"")
    if dflt:
        o.append(f"default_fn = \"{fn}d\"")
    return o


def attr(o):
    return f"#[revision({', '.join(o)})] " if o else ""


def field_host(host, rev, f, named, extra="", layouts=None):
    """A type holding field declaration `f` in the given place, with the functions it may name."""
    sdef = f"fn fd(_: u16) -> Result<u32, {ERR}> {{ Ok(7) }}"
    if host == "struct":
        decl = f"pub struct T {{ a: u16, {f[0]}x: u32, b: String }}" if named else f"pub struct T(u16, {f[0]}u32, String);"
        imp = f"impl T {{ fn fc(&mut self, _: u16, _: u32) -> Result<(), {ERR}> {{ Ok(()) }} {sdef} }}"
    else:
        v = f"V {{ a: u16, {f[0]}x: u32, b: String }}" if named else f"V(u16, {f[0]}u32, String)"
        decl = f"pub enum T {{ A, {v} }}"
        imp = f"impl T {{ fn fc<F>(_: &mut F, _: u16, _: u32) -> Result<(), {ERR}> {{ Ok(()) }} {sdef} }}"
    return f"#[revision::revisioned({rev}{extra})]\n{decl}\n{imp}"


def revs(n, layouts=None, form="short"):
    if layouts is None and form == "short":
        return f"revision = {n}"
    es = []
    for i in range(1, n + 1):
        l = (layouts or "L" * n)[i - 1]
        es.append(f"revision({i}{dict(L='', O=', optimised', I=', optimised, indexed_struct')[l]})")
    return ", ".join(es)


def judge_life(n, s, e, conv, dflt):
    """True, False or None (not judged)."""
    if (s or 1) > n or (e is not None and e > n):
        return False
    if e is not None and not conv:
        return False
    if (s is not None and s < 1) or (e is not None and e <= (s or 1)):
        return None
    if e is None and conv:
        return None
    if dflt and (s or 1) == 1:
        return None
    return True


def lives(d, thorough):
    for n in (1, 2, 3, 4):
        for s in (None, 1, 2, 3, 4, 5, 100, 70000):
            for e in (None, 1, 2, 3, 4, 5, 100, 70000):
                for conv in (False, True):
                    for dflt in (False, True):
                        ok = judge_life(n, s, e, conv, dflt)
                        if ok is None or not ok and not thorough and (dflt or 100 in (s, e)):
                            continue
                        for named in (True, False):
                            for host in ("struct", "enum"):
                                lays = [None] + ([] if host == "enum" else ["I" * n] if (n + named) % 2 else ["O" * n])
                                if host == "struct" and (ok or thorough):
                                    lays += ["O" * n, "I" * n] + ["".join(x) for x in itertools.product("LOI", repeat=n)] if n < 4 else ["LOIL"]
                                for lay in lays:
                                    for order in (0, 1):
                                        o = life(s, e, conv, dflt, "f")
                                        if order:
                                            if len(o) < 2 or (lay and not thorough):
                                                continue
                                            o.reverse()
                                        d.add(f"{host} field start {s} end {e} convert {conv} default {dflt} of {n}", ok,
                                              field_host(host, revs(n, lay), (attr(o),), named))
                                    if lay is None and len(life(s, e, conv, dflt, "f")) > 1:
                                        # split over several attributes
                                        d.add(f"{host} field start {s} end {e} convert {conv} default {dflt} of {n}, split", ok,
                                              field_host(host, revs(n), ("".join(attr([x]) for x in life(s, e, conv, dflt, "f")),), named))
                        if dflt:
                            continue
                        for shape in ("", "(u32)", "{ x: u32 }"):
                            for lay in [None, "O" * n] + (["".join(x) for x in itertools.product("LO", repeat=n)] if ok else []):
                                o = life(s, e, conv, False, "v")
                                if lay and "O" in lay:
                                    o.append("size = \"varlen\"")
                                a = "#[revision(size = \"inline\")] " if lay and "O" in lay else ""
                                d.add(f"variant start {s} end {e} convert {conv} of {n} {lay or ''}", ok,
                                      f"#[revision::revisioned({revs(n, lay)})]\npub enum T {{ {a}A, {attr(o)}V{shape}, {a}B }}\nimpl T {{ fn vc<F>(_: F, _: u16) -> Result<T, {ERR}> {{ Ok(T::A) }} }}")


# ---- options given twice, markers, forced layouts -------------------------------------------------

def markers(d, thorough):
    hosts = {
        "named": lambda a, t: f"#[revision::revisioned(REV)]\npub struct T {{ k: u8, {a}x: {t} }}",
        "tuple": lambda a, t: f"#[revision::revisioned(REV)]\npub struct T(u8, {a}{t});",
    }
    lhosts = dict(hosts)
    lhosts["variant named"] = lambda a, t: f"#[revision::revisioned(REV)]\npub enum T {{ A, V {{ k: u8, {a}x: {t} }} }}"
    lhosts["variant tuple"] = lambda a, t: f"#[revision::revisioned(REV)]\npub enum T {{ A, V(u8, {a}{t}) }}"
    ms = {"indexed_map": "std::collections::BTreeMap<String, u16>", "indexed_seq": "Vec<String>", "indexed_set": "std::collections::BTreeSet<String>"}
    for h, f in hosts.items():
        for m, t in ms.items():
            for lay in ("O", "I", "LO", "OI", "L"):
                d.add(f"{m} {h} {lay}", True, f(attr([m]), t).replace("REV", revs(len(lay), lay)))
    for h, f in lhosts.items():
        for k in (2, 3):
            for combo in itertools.product(ms, repeat=k):
                t = ms[combo[0]]
                for lay in ("L", "O", "I") if "variant" not in h else ("L",):
                    d.add(f"{combo} {h} {lay}", False, f(attr(combo), t).replace("REV", revs(1, lay)))
                    d.add(f"{combo} {h} {lay} split", False, f("".join(attr([c]) for c in combo), t).replace("REV", revs(1, lay)))
        for o in ("start = 1", "end = 2", "convert_fn = \"c\"", "default_fn = \"d\"", "fixed", "specialised"):
            # alone the option is fine, so that only its repetition can draw the error
            base = [o] if o not in ("convert_fn = \"c\"", "end = 2") else ["end = 2", "convert_fn = \"c\""]
            t = "Vec<u32>" if o == "specialised" else "u32"
            own = "(_: &mut F, _: u16, _: X)" if "variant" in h else "(_: F, _: u16, _: X)"
            fns = f"\nimpl T {{ fn c<F, X>{own} -> Result<(), {ERR}> {{ Ok(()) }} fn d(_: u16) -> Result<u32, {ERR}> {{ Ok(0) }} }}"
            d.add(f"{o} once {h}", True, (f(attr(base), t) + fns).replace("REV", revs(2)))
            d.add(f"{o} twice {h}", False, (f(attr(base + [o]), t) + fns).replace("REV", revs(2)))
            d.add(f"{o} twice, split {h}", False, (f(attr(base) + attr([o]), t) + fns).replace("REV", revs(2)))
        for o in ("frobnicate", "start", "start = \"1\"", "end", "convert_fn = c", "size = \"inline\"", "fields_name = \"X\"", "indexed", "start = -1"):
            d.add(f"{o} {h}", False, f(attr([o]), "u32").replace("REV", revs(2)))
        for t in ("u32", "i32", "u64", "i64", "u128", "i128"):
            d.add(f"fixed {t} {h}", True, f(attr(["fixed"]), t).replace("REV", revs(1)))
        for t in ("u8", "i8", "u16", "i16", "usize", "isize", "f32", "f64", "bool", "char", "String", "Vec<u32>", "Option<u32>", "::std::primitive::u32", "core::primitive::u64", "(u32,)", "[u32; 2]", "Box<u32>"):
            d.add(f"fixed {t} {h}", False, f(attr(["fixed"]), t).replace("REV", revs(1)))
        for t in ("bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64"):
            d.add(f"specialised {t} {h}", True, f(attr(["specialised"]), f"Vec<{t}>").replace("REV", revs(1)))
        for t in ("Vec<String>", "Vec<Vec<u8>>", "u32", "String", "std::collections::BTreeSet<u8>", "Option<Vec<u8>>", "Vec<char>"):
            d.add(f"specialised {t} {h}", False, f(attr(["specialised"]), t).replace("REV", revs(1)))
    # variants
    for o in ("start = 1", "end = 2", "convert_fn = \"c\"", "default_fn = \"d\"", "fields_name = \"X\"", "size = \"varlen\""):
        base = [o] if o not in ("end = 2", "convert_fn = \"c\"") else ["end = 2", "convert_fn = \"c\""]
        lay = "OO" if "size" in o else None
        other = "#[revision(size = \"inline\")] " if lay else ""
        fns = f"\nimpl T {{ fn c<F>(_: F, _: u16) -> Result<T, {ERR}> {{ Ok(T::A) }} fn d(_: u16) -> Result<T, {ERR}> {{ Ok(T::A) }} }}"
        for what, ok, a in (("once", True, attr(base)), ("twice", False, attr(base + [o])), ("twice, split", False, attr(base) + attr([o]))):
            d.add(f"variant {o} {what}", ok, f"#[revision::revisioned({revs(2, lay)})]\npub enum T {{ {other}A, {a}V {{ x: u32 }}, {other}B }}{fns}")
    for o in ("frobnicate", "fixed", "indexed_map", "start", "start = \"1\"", "size = 3", "override(discriminant = 3)", "override(revision = 1, revision = 1)",
              "override(revision = 1, discriminant = 3, discriminant = 3)", "override(frobnicate = 1)", "override()", "override(revision = 1, discriminant = 4294967296)"):
        d.add(f"variant {o}", False, f"#[revision::revisioned(revision = 2)]\npub enum T {{ A, {attr([o])}V, B }}")


# ---- encoding options ----------------------------------------------------------------------------

def options(d, thorough):
    opts = ["optimised", "indexed_struct", "map = \"default\"", "seq = \"default\"", "map = \"indexed\"", "seq = \"indexed\"", "map = \"bogus\"", "seq = \"\"", "frobnicate"]
    for k in (1, 2, 3):
        for combo in itertools.permutations(opts, k):
            keys = [c.split(" ")[0] for c in combo]
            if len(set(keys)) < len(keys):
                continue
            if any("\"indexed\"" in c or "bogus" in c or "\"\"" in c or c == "frobnicate" for c in combo):
                ok = False
            elif "optimised" in combo:
                ok = True
            elif "indexed_struct" in combo:
                ok = False
            else:
                continue
            if k == 3 and not ok and not thorough and combo != tuple(sorted(combo)):
                continue
            for n, at in ((1, 1), (2, 1), (2, 2), (3, 2)):
                es = [f"revision({i}{', ' + ', '.join(combo) if i == at else ''})" for i in range(1, n + 1)]
                for kind in "st":
                    d.add(f"entry options {combo} at {at} of {n}", ok, items(", ".join(es), [], kind))
                d.add(f"entry options {combo} at {at} of {n} inside", ok, items("", [", ".join(es)], "s"))


# ---- size classes, variant counts, discriminants --------------------------------------------------

def sizes(d, thorough):
    good = ["inline", "varlen", "fixed(0)", "fixed(1)", "fixed(4)", "fixed(255)"]
    bad = ["", "Inline", "INLINE", "fixed", "fixed()", "fixed(256)", "fixed(-1)", "fixed(x)", "fixed(1", "fixed 1", "varlen(3)", "inlined", "var", "fixed(1.5)", "fixed(1)(2)", "(4)"]
    for n in (1, 2, 3):
        for lay in ("".join(x) for x in itertools.product("LO", repeat=n)):
            for shape in ("", "(u32)", "{ x: u32 }", "(u32, String)", "()", "{}"):
                for s in [None] + good + bad:
                    a = f"#[revision(size = \"{s}\")] " if s is not None else ""
                    if s in bad:
                        ok = False
                    elif s is None:
                        ok = "O" not in lay
                    elif s == "inline" and shape not in ("", "()", "{}"):
                        if lay[-1] != "O":
                            continue
                        ok = False
                    else:
                        ok = True
                    src = f"#[revision::revisioned({revs(n, lay)})]\npub enum T {{ #[revision(size = \"inline\")] A, {a}V{shape} }}"
                    d.add(f"size {s} on V{shape} of {lay}", ok, src)
            # a variant needs a size class exactly when it is alive at an optimised revision
            for st in range(1, n + 1):
                for en in [None] + list(range(st + 1, n + 1)):
                    alive = [r for r in range(1, n + 1) if r >= st and (en is None or r < en)]
                    ok = not any(lay[r - 1] == "O" for r in alive)
                    o = ([f"start = {st}"] if st > 1 else []) + ([f"end = {en}", "convert_fn = \"c\""] if en else [])
                    imp = f"\nimpl T {{ fn c<F>(_: F, _: u16) -> Result<T, {ERR}> {{ Ok(T::A) }} }}"
                    for shape in ("", "(u32)", "{ x: u32 }"):
                        d.add(f"no size on V{shape} alive {alive} of {lay}", ok,
                              f"#[revision::revisioned({revs(n, lay)})]\npub enum T {{ #[revision(size = \"inline\")] A, {attr(o)}V{shape} }}{imp}")


def counts(d, thorough):
    def enum(rev, vs):
        return f"#[revision::revisioned({rev})]\npub enum T {{ {', '.join(vs)} }}\nimpl T {{ fn c<F>(_: F, _: u16) -> Result<T, {ERR}> {{ Ok(T::V0) }} }}"
    I = "#[revision(size = \"inline\")] "
    for n in (1, 2, 30, 31, 32, 33, 34, 64, 65, 255, 256, 257):
        for lay in ("O", "OO", "LO", "OL"):
            d.add(f"{n} variants {lay}", n <= 32, enum(revs(len(lay), lay), [f"{I}V{i}" for i in range(n)]))
        d.add(f"{n} variants L", True, enum("revision = 1", [f"V{i}" for i in range(n)]))
    # too many at one revision only
    for lay in ("".join(x) for x in itertools.product("LO", repeat=3)):
        for keep, add, rem in itertools.product((2, 31, 32), (0, 1, 31), (0, 1, 31)):
            # keep always, add from 2 on, rem until before 3
            at = {1: keep + rem, 2: keep + rem + add, 3: keep + add}
            ok = all(at[r] <= 32 for r in (1, 2, 3) if lay[r - 1] == "O")
            vs = [f"{I}V{i}" for i in range(keep)]
            vs += [f"#[revision(size = \"inline\", start = 2)] W{i}" for i in range(add)]
            vs += [f"#[revision(size = \"inline\", end = 3, convert_fn = \"c\")] X{i}" for i in range(rem)]
            if ok or thorough or at[2] < 70:
                d.add(f"variants alive {at} {lay}", ok, enum(revs(3, lay), vs))
    # overridden discriminants
    for lay in ("".join(x) for k in (1, 2, 3) for x in itertools.product("LO", repeat=k)):
        n = len(lay)
        for r in range(1, n + 1):
            for x in (0, 1, 2, 30, 31, 32, 33, 63, 255, 256, 287, 65536, 4294967295):
                ok = lay[r - 1] == "L" or x < 32
                o = [f"size = \"varlen\"", f"override(revision = {r}, discriminant = {x})"]
                for at in (0, 1, 2):
                    vs = [f"{I}V0", f"{I}V1"]
                    vs.insert(at, attr(o) + "V(u32)")
                    d.add(f"discriminant {x} at {r} of {lay}", ok, enum(revs(n, lay), vs))
    # the same number twice
    for lay in ("L", "O", "LL", "LO", "OL", "OO"):
        n = len(lay)
        for r1 in range(1, n + 1):
            for r2 in range(1, n + 1):
                for x, y in itertools.product((0, 1, 5, 31), repeat=2):
                    a, b = ([f"size = \"varlen\"", f"override(revision = {r}, discriminant = {z})"] for r, z in ((r1, x), (r2, y)))
                    ok = not (r1 == r2 and x == y)
                    d.add(f"discriminants {x} at {r1} and {y} at {r2} of {lay}", ok, enum(revs(n, lay), [f"{I}V0", attr(a) + "A(u32)", attr(b) + "B(u32)"]))


# ---- item switches -------------------------------------------------------------------------------

def switches(d, thorough):
    on = (None, True, False)
    for ser, de, sk, wa in itertools.product(on, repeat=4):
        o = "".join(f", {k} = {str(v).lower()}" for k, v in (("serialize", ser), ("deserialize", de), ("skip", sk), ("walk", wa)) if v is not None)
        s, e = ser is not False, de is not False
        w = e if wa is None else wa
        for conv in (False, True):
            if conv and w and not (s and e):
                ok = False
            elif w and not e or sk and not e:
                continue  # walkers and skipping lean on decoding; not judged without it
            else:
                ok = True
            for lay in ("LL", "OO", "LO", "OL", "II"):
                if conv:
                    src = f"pub struct T {{ a: u8, #[revision(end = 2, convert_fn = \"c\")] x: u32 }}\nimpl T {{ fn c(&mut self, _: u16, _: u32) -> Result<(), {ERR}> {{ Ok(()) }} }}"
                else:
                    src = "pub struct T { a: u8, #[revision(start = 2)] x: u32 }"
                d.add(f"struct, switches{o} convert {conv} {lay}", ok, f"#[revision::revisioned({revs(2, lay)}{o})]\n{src}")
                if "I" in lay:
                    continue
                z = "size = \"varlen\""
                if conv:
                    src = f"pub enum T {{ #[revision({z})] A(u8), #[revision(end = 2, convert_fn = \"c\", {z})] V(u32) }}\nimpl T {{ fn c<F>(_: F, _: u16) -> Result<T, {ERR}> {{ Ok(T::A(1)) }} }}"
                else:
                    src = f"pub enum T {{ #[revision({z})] A(u8), #[revision(start = 2, {z})] V(u32) }}"
                d.add(f"enum, switches{o} convert {conv} {lay}", ok, f"#[revision::revisioned({revs(2, lay)}{o})]\n{src}")


# ---- names and shapes ----------------------------------------------------------------------------

NAMES = ["reader", "writer", "r#type", "r#match", "r#fn", "revision", "self_", "len", "value", "fields", "payload", "offset", "buf", "body", "__body", "w", "r", "x", "tag", "res", "this", "default",
         "into", "walk", "skip", "decode", "data", "result", "error", "field_0", "_0", "a1", "naïve", "r#async", "r#dyn", "r#static", "bytes", "v", "k", "f", "idx", "cursor", "slice", "walker"]
VNAMES = ["None", "Some", "Ok", "Err", "Self_", "Error", "Revision", "Reader", "Writer", "Result", "Option", "String", "Vec", "Box", "ABC", "A1", "A_b", "HTTPServer", "X", "r#Raw", "r#try"]


def names(d, thorough):
    for lay in ("L", "O", "I", "LL", "LO", "LI", "OL"):
        n = len(lay)
        r = revs(n, lay)
        for nm in NAMES:
            for a in ("", attr([f"start = {n}"]) if n > 1 else None, attr([f"end = {n}", "convert_fn = \"c\""]) if n > 1 else None):
                if a is None:
                    continue
                imp = f"\nimpl T {{ fn c(&mut self, _: u16, _: u32) -> Result<(), {ERR}> {{ Ok(()) }} }}" if "end" in a else ""
                d.add(f"field named {nm} {lay}", True, f"#[revision::revisioned({r})]\npub struct T {{ p: String, {a}{nm}: u32, q: Vec<u8> }}{imp}")
            if "I" in lay:
                continue
            z = attr(["size = \"varlen\""]) if "O" in lay else ""
            d.add(f"variant field named {nm} {lay}", True, f"#[revision::revisioned({r})]\npub enum T {{ {z}A {{ p: String, {nm}: u32 }}, {z}B {{ {nm}: String, q: u8 }} }}")
        if "I" in lay:
            continue
        for v in VNAMES:
            z = attr(["size = \"varlen\""]) if "O" in lay else ""
            for shape in ("", "(u32)", "{ x: u32, reader: String }"):
                d.add(f"variant named {v}{shape} {lay}", True, f"#[revision::revisioned({r})]\npub enum T {{ {z}First(u8), {z}{v}{shape} }}")
            if n > 1:
                e = attr([f"end = {n}", "convert_fn = \"c\""] + (["size = \"varlen\""] if z else []))
                for shape in ("", "(u32)", "{ x: u32, reader: String }"):
                    d.add(f"removed variant named {v}{shape} {lay}", True,
                          f"#[revision::revisioned({r})]\npub enum T {{ {z}First(u8), {e}{v}{shape} }}\nimpl T {{ fn c<F>(_: F, _: u16) -> Result<T, {ERR}> {{ Ok(T::First(1)) }} }}")
    # item names and shapes
    for nm in ("Error", "Reader", "Option", "Result", "Vec", "r#Type", "T_1", "Walker", "Self_", "String", "lower"):
        for lay in ("L", "O", "I", "LO"):
            d.add(f"struct named {nm} {lay}", True, f"#[revision::revisioned({revs(len(lay), lay)})]\n#[allow(non_camel_case_types)]\npub struct {nm} {{ a: u32, b: ::std::string::String }}")
    for n in (0, 1, 2, 5, 20, 40, 100):
        for lay in ("L", "O", "I"):
            fs = ", ".join(f"f{i}: u{[8, 16, 32, 64][i % 4]}" for i in range(n))
            d.add(f"struct of {n} fields {lay}", True, f"#[revision::revisioned({revs(1, lay)})]\npub struct T {{ {fs} }}")
            ts = ", ".join(f"u{[8, 16, 32, 64][i % 4]}" for i in range(n))
            d.add(f"tuple struct of {n} fields {lay}", True, f"#[revision::revisioned({revs(1, lay)})]\npub struct T({ts});")
            if lay != "I":
                z = attr(["size = \"varlen\""])
                d.add(f"variant of {n} fields {lay}", True, f"#[revision::revisioned({revs(1, lay)})]\npub enum T {{ {z}A {{ {fs} }}, {z}B({ts}) }}")
    for vis in ("", "pub ", "pub(crate) ", "pub(super) "):
        for lay in ("L", "O", "I"):
            d.add(f"visibility {vis}", True, f"#[revision::revisioned({revs(1, lay)})]\n/// Documented.\n#[derive(Debug, Clone, PartialEq)]\n{vis}struct T {{ /// doc\n#[allow(dead_code)] {vis}a: u32, {vis}b: Vec<String> }}")


def build(tier):
    d, th = Out(), tier == "thorough"
    for f in (lists, lives, markers, options, sizes, counts, switches, names):
        f(d, th)
    return d


# ---- compiling -----------------------------------------------------------------------------------

def write(out, decls, header=()):
    """Spreads the declarations over the shards; returns {file: [(first line, last line, index)]}."""
    os.makedirs(out, exist_ok=True)
    parts = [[] for _ in range(8)]
    for i in range(len(decls)):
        parts[i % 8].append(i)
    where = {}
    for k, p in enumerate(parts):
        lines, rs = list(header), []
        for i in p:
            a = len(lines) + 1
            lines += [f"pub mod d{i} {{"] + decls[i][1].split("\n") + ["}"]
            rs.append((a, len(lines), i))
        lines.append("fn main() {}")
        path = os.path.join(out, f"d{k}.rs")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        where[os.path.realpath(path)] = rs
    return where


def spans(msg):
    todo = list(msg.get("spans", []))
    for ch in msg.get("children", []):
        todo += ch.get("spans", [])
    while todo:
        s = todo.pop()
        yield s
        if s.get("expansion"):
            todo.append(s["expansion"]["span"])


def compile_all(ctx, name, decls, header=()):
    """Indices of the declarations that drew an error, and the errors."""
    out = os.path.join(ctx["build"], "decl-src", name)
    where = write(out, decls, header)
    cmd = ["cargo", "check", "--offline", "--locked", "--keep-going", "--message-format=json", "--bins", "--target-dir", os.path.join(ctx["build"], "decls-" + name)]
    env = dict(ctx["env"], MC_DECLS=out)
    for j in (8, 2, 1):
        p = subprocess.run(cmd + ["-j", str(j)], cwd=os.path.join(ctx["here"], "decls"), env=env, capture_output=True, text=True, errors="replace", timeout=800)
        # a compiler ended for want of memory says nothing about the declarations
        if p.returncode == 0 or not re.search(r"signal: 9|SIGKILL", p.stderr):
            break
    else:
        raise ctx["Broken"]("the compiler was killed, even alone")
    hit, other, ours = {}, [], False
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "build-finished":
            finished = m["success"]
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        msg = m["message"]
        if "decls" not in m.get("package_id", ""):
            raise ctx["Broken"](f"building the crate failed: {msg['rendered'] or msg['message']}")
        ours, found = True, set()
        for s in spans(msg):
            for path, rs in where.items():
                if os.path.realpath(s["file_name"]) == path:
                    found |= {i for a, b, i in rs if a <= s["line_start"] <= b}
        for i in found:
            hit.setdefault(i, msg["message"])
        if not found and msg.get("spans"):
            other.append(msg["message"])
    if p.returncode != 0 and not ours:
        raise ctx["Broken"]("cargo check failed: " + p.stderr[-2000:])
    return hit, other, p.returncode == 0


def check(ctx):
    d = build(ctx["tier"])
    violations = {}
    good, bad = d.good, d.bad
    hit, other, clean = compile_all(ctx, "good", good)
    for i in sorted(hit):
        violations.setdefault("a consistent declaration is refused", []).append(f"{good[i][0]}: {hit[i]}: {good[i][1]}")
    if not clean and not hit:
        violations.setdefault("a consistent declaration is refused", []).append("unattributed: " + "; ".join(other[:3]))
    rest, rounds = list(range(len(bad))), 0
    while rest:
        rounds += 1
        hit, _, clean = compile_all(ctx, f"bad", [bad[i] for i in rest])
        if not hit:
            break
        rest = [x for j, x in enumerate(rest) if j not in hit]
    for i in rest:
        violations.setdefault("a contradictory declaration compiles", []).append(f"{bad[i][0]}: {bad[i][1]}")
    n = len(good) + len(bad)
    r = dict(config="default", bin="decls", evaluations=n, distinct=n, tasks=n, broken=[], violations={},
             samples=[f"refused: {bad[k][0]}" for k in range(0, len(bad), max(1, len(bad) // 6))][:6] + [f"accepted: {good[k][0]}" for k in range(0, len(good), max(1, len(good) // 6))][:6],
             extra={"declarations to refuse": len(bad), "declarations to accept": len(good), "compiler rounds": rounds + 1})
    r["samples"] = r["samples"][:12]
    return [r], violations


if __name__ == "__main__":
    import sys
    d = build(sys.argv[1] if len(sys.argv) > 1 else "quick")
    print(len(d.good), "consistent", len(d.bad), "contradictory")

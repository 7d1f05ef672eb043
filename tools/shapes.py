"""P24: what the macro leaves of the annotated type, and which traits it implements.

Every declaration of a bounded alphabet (a default declaration and everything at most a few changes away
from it) is compiled twice: annotated, and as the reference, the same declaration written by hand as of its
newest revision without any revision attribute. A derive of ours records the tokens of both; a constant
assertion compares them. A second family asserts for every setting of the item switches which traits the
type implements."""
import itertools
from decls import ERR, revs, write, compile_all

HEADER = '''
pub const fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
macro_rules! probe { ($($m:ident $t:ident),*) => { $(pub mod $m {
    pub struct P<T>(::core::marker::PhantomData<T>);
    pub trait No { const IS: bool = false; }
    impl<T> No for P<T> {}
    impl<T: ::revision::$t> P<T> { pub const IS: bool = true; }
})* } }
probe!(ser SerializeRevisioned, de DeserializeRevisioned, skip SkipRevisioned, check SkipCheckRevisioned, walk WalkRevisioned, rev Revisioned);'''.split("\n")

# A dimension is a list of alternatives; the first is the default. Attribute lists are written before or
# after the revision attribute. None of them is an `allow`, which the comparison ignores.
ATTRS = [[], ["/// text"], ["#[helper(a, b = 1)]"], ["#[helper = \"v\"]", "/// one", "/// two"], ["#[doc(alias = \"q\")]", "#[helper]"], ["#[cfg_attr(all(), helper(on))]"], ["#[warn(unused_mut)]", "#[helper(\"]\", '{', [1, 2])]", "#[doc(hidden)]"]]
ITEM_ATTRS = [[], ["/// text"], ["#[doc(hidden)]", "#[must_use]"], ["#[non_exhaustive]"], ["#[cfg_attr(all(), doc = \"x\")]", "/** block */"], ["#[warn(unused_mut)]"]]
VIS = ["pub", "", "pub(crate)", "pub(super)", "pub(self)", "pub(in super)"]
TYPES = ["u8", "::std::string::String", "::std::vec::Vec<::std::vec::Vec<u8>>", "::core::option::Option<::std::boxed::Box<u32>>", "(u8, (u16, i64))", "[u8; 4]", "::std::collections::BTreeMap<u8, ::core::result::Result<u8, ::std::string::String>>"]
NAMES = ["a", "r#type", "reader", "naïve"]
LAYOUTS = ["LL", "OO", "II", "LO", "OL", "LI", "O", "I", "L", "LLL", "IOL"]


def deviations(dims, most):
    """All assignments that differ from the default in at most `most` dimensions."""
    keys = list(dims)
    base = {k: dims[k][0] for k in keys}
    for n in range(most + 1):
        for ks in itertools.combinations(keys, n):
            for vs in itertools.product(*[range(1, len(dims[k])) for k in ks]):
                yield {**base, **{k: dims[k][v] for k, v in zip(ks, vs)}}


def field(v, vis, attrs, rattr, named, name, ty, where):
    """(annotated, reference) text of a field; the revision attribute before, among or after the others."""
    r = [f"#[revision({rattr})]"] if rattr else []
    k = {"first": 0, "last": len(attrs), "mid": len(attrs) // 2}[where]
    body = f"{vis + ' ' if vis else ''}{name + ': ' if named else ''}{ty}"
    return "\n".join(attrs[:k] + r + attrs[k:] + [body]), "\n".join(attrs + [body])


def host(head, body, vis, name, pre, mid, post, rev, inner):
    """(annotated, reference) of an item: `pre` attributes, the macro, `mid`, the derive, `post`."""
    v = vis + " " if vis else ""
    macro = ["#[revision::revisioned()]", f"#[revision({rev})]"] if inner else [f"#[revision::revisioned({rev})]"]
    a = pre + macro + mid + ["#[derive(::shape::Shape)]"] + post + [v + head + " " + name + body[0]]
    b = pre + mid + ["#[derive(::shape::Shape)]"] + post + [v + head + " " + name + body[1]]
    return "\n".join(a), "\n".join(b)


def module(pair, name, extra=""):
    a, b = pair
    return f"{a}\n{extra}\nmod reference {{\n{b}\npub const SHAPE: &str = {name}::SHAPE;\n}}\nconst _: () = assert!(crate::same({name}::SHAPE, reference::SHAPE));"


def item_dims():
    return dict(layout=LAYOUTS, vis=VIS, pre=ITEM_ATTRS, mid=ITEM_ATTRS, post=ITEM_ATTRS, inner=[False, True], short=[False, True], comma=[True, False], name=["T", "Walker", "r#Type"])


def item(o, head, body, semi=""):
    rev = f"revision = {len(o['layout'])}" if o["short"] and set(o["layout"]) == {"L"} else revs(len(o["layout"]), o["layout"])
    return host(head, body, o["vis"], o["name"], o["pre"], o["mid"], o["post"], rev, o["inner"])


def joined(parts, o, open_, close):
    return tuple(open_ + "\n" + ",\n".join(x) + ("," if o["comma"] and x else "") + "\n" + close for x in parts)


def life(kind, n):
    """Revision attribute of a field with the given fate, or None where the history has no room for it."""
    if kind is None or kind == "plain":
        return "", True
    if n < 2:
        return None, True
    return {"added": (f"start = {n}", True), "filled": ("start = 2, default_fn = \"d\"", True), "removed": (f"end = {n}, convert_fn = \"c\"", False),
            "brief": (f"start = 1, end = 2, convert_fn = \"c\"", False)}[kind]


def structs(out, most):
    for named in (True, False):
        dims = item_dims()
        dims.update(count=[2, 1, 0, 3], v1=VIS, v2=VIS, a1=ATTRS, a2=ATTRS, t1=TYPES, t2=TYPES[::-1], where=["first", "last", "mid"], n1=NAMES if named else ["_"],
                    l1=["plain", "added", "filled", "removed", "brief"], l2=["plain", "added", "filled", "removed"], dead=[None, 0, 1, 2])
        for o in deviations(dims, most):
            n = len(o["layout"])
            fs = [(o["v1"], o["a1"], o["l1"], o["n1"], o["t1"]), (o["v2"], o["a2"], o["l2"], "b2", o["t2"]), ("", [], "plain", "c3", "u64")][:o["count"]]
            if o["dead"] is not None:
                if o["dead"] > len(fs):
                    continue
                fs.insert(o["dead"], ("pub(crate)", ["/// dead", "#[helper(dead)]"], "removed", "dead", "u16"))
            a, b, ok = [], [], True
            for vis, at, l, nm, ty in fs:
                r, alive = life(l, n)
                if r is None:
                    ok = False
                    break
                x, y = field(o, vis, at, r, named, nm, ty, o["where"])
                a.append(x)
                if alive:
                    b.append(y)
            if not ok:
                continue
            br = ("{", "}") if named else ("(", ");")
            lv = [f[2] for f in fs]
            extra = ""
            if "removed" in lv or "brief" in lv:
                extra += f"impl {o['name']} {{ fn c<V>(&mut self, _: u16, _: V) -> ::core::result::Result<(), ::revision::Error> {{ Ok(()) }} }}\n"
            if "filled" in lv:
                extra += f"impl {o['name']} {{ fn d<V: ::core::default::Default>(_: u16) -> ::core::result::Result<V, ::revision::Error> {{ Ok(V::default()) }} }}\n"
            out.append((f"{'named' if named else 'tuple'} struct", module(item(o, "struct", joined((a, b), o, *br)), o["name"], extra)))
    for o in deviations(item_dims(), most + 1):
        out.append(("unit struct", module(item(o, "struct", (";", ";")), o["name"])))


def enums(out, most):
    dims = item_dims()
    dims.update(layout=[l for l in LAYOUTS if "I" not in l], count=[2, 1, 3], a1=ATTRS, a2=ATTRS, where=["first", "last", "mid"], s1=["unit", "tuple", "named", "none"], s2=["named", "tuple", "unit"],
                fa=ATTRS, ft=TYPES, l2=["plain", "added", "removed"], fl=["plain", "added", "removed"], n1=["A", "r#Self_", "Some"], disc=[None, "5", "-3", "1 << 4", "{ 2 + 3 }"], dead=[None, 0, 1, 2])
    for o in deviations(dims, most):
        n, opt = len(o["layout"]), "O" in o["layout"]
        if opt and o["fl"] != "plain":
            continue
        unit = o["disc"] is not None
        vs = [(o["a1"], "plain", o["n1"], o["s1"]), (o["a2"], o["l2"], "B", o["s2"]), ([], "plain", "C", "tuple")][:o["count"]]
        if unit:
            vs = [(a, l, nm, "unit") for a, l, nm, _ in vs]
        if o["dead"] is not None:
            if o["dead"] > len(vs):
                continue
            vs.insert(o["dead"], (["/// dead"], "removed", "Dead", "tuple" if not unit else "unit"))
        a, b, ok, extra, hasf = [], [], True, "", False
        for j, (at, l, nm, shape) in enumerate(vs):
            r, alive = life(l, n)
            if r is None:
                ok = False
                break
            if opt:
                r = (r + ", " if r else "") + "size = \"varlen\""
            fx, fy = [], []
            if shape in ("tuple", "named"):
                fr, falive = life(o["fl"], n)
                if fr is None:
                    ok = False
                    break
                fr = fr.replace('"c"', '"cf"')
                hasf |= not falive
                for x, y, keep in ((*field(o, "", o["fa"], fr, shape == "named", "x", o["ft"], o["where"]), falive), (*field(o, "", [], "", shape == "named", "y", "u8", "first"), True)):
                    fx.append(x)
                    if keep:
                        fy.append(y)
            op, cl = {"unit": ("", ""), "none": ("{", "}"), "tuple": ("(", ")"), "named": ("{", "}")}[shape]
            k = {"first": 0, "last": len(at), "mid": len(at) // 2}[o["where"]]
            d = f" = {o['disc']}" if unit and j == 0 else ""
            ra = [f"#[revision({r})]"] if r else []
            a.append("\n".join(at[:k] + ra + at[k:] + [nm + op + ", ".join(fx) + cl + d]))
            if alive:
                b.append("\n".join(at + [nm + op + ", ".join(fy) + cl + d]))
        if not ok or not b:
            continue
        lv = [v[1] for v in vs]
        if "removed" in lv:
            extra += f"impl {o['name']} {{ fn c<F>(_: F, _: u16) -> ::core::result::Result<Self, ::revision::Error> {{ Err(::revision::Error::Conversion(::std::string::String::new())) }} }}\n"
        if hasf:
            extra += f"impl {o['name']} {{ fn cf<F, V>(_: &mut F, _: u16, _: V) -> ::core::result::Result<(), ::revision::Error> {{ Ok(()) }} }}\n"
        out.append(("enum", module(item(o, "enum", joined((a, b), o, "{", "}")), o["name"], extra)))


def traits(out):
    on = (None, True, False)
    for ser, de, sk, wa in itertools.product(on, repeat=4):
        o = "".join(f", {k} = {str(v).lower()}" for k, v in (("serialize", ser), ("deserialize", de), ("skip", sk), ("walk", wa)) if v is not None)
        s, e = ser is not False, de is not False
        k, w = e if sk is None else sk, e if wa is None else wa
        if (k or w) and not e:
            continue  # skipping and walking lean on decoding; not judged without it
        want = dict(rev=True, ser=s, de=e, skip=k, check=k, walk=w)
        chk = "\n".join(f"const _: () = {{ use crate::{m}::*; assert!(P::<T>::IS == {str(x).lower()}); }};" for m, x in want.items())
        for lay in ("L", "O", "I", "LO", "OL", "LLL"):
            n = len(lay)
            st = f" #[revision(start = {n})]" if n > 1 else ""
            for src in (f"struct T {{ a: u8,{st} b: u32 }}", f"struct T(u8,{st} u32);", "struct T;"):
                out.append((f"traits of a struct {lay}{o}", f"#[revision::revisioned({revs(n, lay)}{o})]\n{src}\n{chk}\nconst _: () = assert!(T::REVISION == {n});"))
            if "I" in lay:
                continue
            z = ", size = \"varlen\"" if "O" in lay else ""
            za = f"#[revision({z[2:]})] " if z else ""
            sa = f"#[revision({(f'start = {n}' + z) if n > 1 else z[2:]})] " if z or n > 1 else ""
            out.append((f"traits of an enum {lay}{o}", f"#[revision::revisioned({revs(n, lay)}{o})]\nenum T {{ {za}A(u8), {sa}B(u32) }}\n{chk}\nconst _: () = assert!(T::REVISION == {n});"))


def build(tier):
    out = []
    most = 2 if tier != "thorough" else 3
    structs(out, most)
    enums(out, most)
    traits(out)
    seen, res = set(), []
    for w, s in out:
        if s not in seen:
            seen.add(s)
            res.append((w, s))
    return res


def check(ctx):
    violations, ds, hits, clean_all = {}, build(ctx["tier"]), 0, True
    step = 60000
    for k in range(0, len(ds), step):
        part = ds[k:k + step]
        hit, other, clean = compile_all(ctx, "shape", part, HEADER)
        for i in sorted(hit):
            violations.setdefault("the annotated type is not the declared one", []).append(f"{part[i][0]}: {hit[i]}: {part[i][1]}")
        if not clean and not hit:
            violations.setdefault("the annotated type is not the declared one", []).append("unattributed: " + "; ".join(other[:3]))
    kinds = {}
    for w, _ in ds:
        w = " ".join(w.split()[:2]) if w.startswith("traits") else w
        kinds[w] = kinds.get(w, 0) + 1
    r = dict(config="default", bin="shapes", evaluations=len(ds), distinct=len(ds), tasks=len(ds), broken=[], violations={},
             samples=[f"{ds[k][0]}: {ds[k][1][:300]}" for k in range(0, len(ds), max(1, len(ds) // 8))][:8], extra={f"declarations, {k}": n for k, n in kinds.items()})
    return [r], violations


if __name__ == "__main__":
    import sys
    d = build(sys.argv[1] if len(sys.argv) > 1 else "quick")
    print(len(d))

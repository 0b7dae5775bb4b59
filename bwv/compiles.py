"""Properties whose executions are compilations: the derive macro runs on a declaration, and the monitor watches what
comes out of it - code, a diagnostic, or a panic."""
import concurrent.futures as cf
import copy
import os
import re
from . import emit, engine, gen
from .gen import Profile
from .model import *
from .plans import FULL, Job, MIXED, NESTED
from .pops import *
from .runner import Found, run_jobs


class Case:
    """one declaration compiled on its own. what: why it is malformed, or None when it is valid"""

    def __init__(self, name, source, what, uses=()):
        self.name, self.source, self.what = name, source, what
        self.uses = list(uses)


HELPERS = """    #[derive(Bitfields)] #[bondrewd(default_endianness = "be")] pub struct Bar { pub a: u8 }
    #[derive(Bitfields)] #[bondrewd(default_endianness = "be")] pub struct Wide { pub a: u16 }
    #[derive(BitfieldEnum)] pub enum Foo { A, B }"""


def observe(ws, cases, features, timeout=600, edition="2021", header=(), manifest=None):
    """{case: "ok" | ("panic" | "error", text)} - each case in a module of its own, several crates"""
    dep = engine.shims(ws, features)
    dep = manifest(dep) if manifest else dep
    n = min(engine.SHARDS, max(1, len(cases)))
    crates = [cases[i::n] for i in range(n)]
    engine.workspace(ws, [f"c{i}" for i in range(n)])
    verdict = {}
    for _ in range(12):
        owner = []
        for i, cs in enumerate(crates):
            engine.write(f"{ws}/c{i}/Cargo.toml", f"""[package]
name = "c{i}"
version = "0.0.0"
edition = "{edition}"
[lib]
name = "{os.path.basename(ws).replace('-', '_').lower()}_c{i}"
path = "src/lib.rs"
{dep}""")
            lines, own = ["#![allow(dead_code, unused, deprecated, non_camel_case_types, clippy::all)]",
                          "#![forbid(unsafe_code)]", *header], []
            for c in cs:
                if c in verdict:
                    continue
                first = len(lines) + 1
                lines += [f"pub mod m_{c.name} {{", "    use bondrewd::*;"] + HELPERS.split("\n") + \
                    c.source.split("\n") + ["}"]
                own.append((first, len(lines), c))
            owner.append(own)
            engine.write(f"{ws}/c{i}/src/lib.rs", "\n".join(lines) + "\n")
        rc, out, err = engine.cargo(ws, ["build", "--offline", "--keep-going", "--message-format=json"] +
                                    [x for i in range(n) for x in ("-p", f"c{i}")], timeout)
        if rc == 0:
            for c in cases:
                verdict.setdefault(c, ("ok", ""))
            return verdict
        new, other = {}, []
        for pkg, m in engine.messages(out):
            i = next((i for i in range(n) if f"/c{i}#" in pkg), None)
            if i is None:
                other.append(m["rendered"])
                continue
            lines = [l for sp in engine.spans_of(m) for l in engine.root_spans(sp, f"c{i}/src/lib.rs")]
            hit = [c for l in lines for a, b, c in owner[i] if a <= l <= b]
            for c in hit[:1]:
                kind = "panic" if "panicked" in m["message"] else "error"
                if c not in new or kind == "panic":
                    new[c] = (kind, m["rendered"])
        if not new:
            raise engine.Inconclusive("build failed:\n" + "\n".join(other)[:4000] + err[-3000:])
        verdict.update(new)
    raise engine.Inconclusive("build kept failing")


def judge(prop, ws, cases, features, total, found, round_no, only, **kw):
    if only:
        cases = [c for c in cases if c.name == only]
    if not cases:
        return
    got = observe(os.path.join(engine.WORK, ws), cases, features, **kw)
    kinds = {}
    for c in cases:
        kind, text = got[c]
        op = "malformed: " + c.what if c.what else "valid"
        kinds[op] = kinds.get(op, 0) + 1
        want = "error" if c.what else "ok"
        if kind != want:
            found.append(Found(None, "compile " + op, "", "rejected with a diagnostic" if c.what else "compiles",
                               "accepted" if kind == "ok" else (f"the derive macro panicked: {text[:2000]}" if kind == "panic"
                                                                else text[:3000]),
                               c.source, c.name, round_no, ws, key=c.source.strip()))
    texts = {re.sub(r"\b([A-Z]\w*?)\d+\b", r"\1", c.source) for c in cases}
    total.add({"evaluations": len(cases), "distinct": len(texts), "types": len(cases), "fields": 0, "ops": kinds,
               "samples": [(c.what or "valid") + ": " + c.source.strip() + " -> " + got[c][0] for c in cases[:4]]},
              len(cases))


# ---- C16: enforcement and overlaps ------------------------------------------------------------------------------

def clone(d):
    x = copy.copy(d)
    x._lay = None
    x.attrs = list(d.attrs)
    x.derives = ()
    if isinstance(d, Struct):
        x.fields = [clone_field(f) for f in d.fields]
    else:
        x.variants = []
        for v in d.variants:
            w = copy.copy(v)
            w.attrs, w.fields = list(v.attrs), [clone_field(f) for f in v.fields]
            x.variants.append(w)
    return x


def clone_field(f):
    g = copy.copy(f)
    g.attrs = list(f.attrs)
    return g


def counted(d):
    """bits which enforcement looks at"""
    if isinstance(d, Struct):
        return ranges(d.fields)[1]
    return layout(d)["bits"]


def enforce(r, d, bits, full=None):
    """an enforcement attribute for `bits`"""
    forms = [f"enforce_bits = {bits}"]
    if bits % 8 == 0:
        forms.append(f"enforce_bytes = {bits // 8}")
        if full:
            forms.append("enforce_full_bytes")
    return r.choice(forms)


def strip_enforce(d):
    d.attrs = [a for a in d.attrs if not a.startswith(("enforce", "payload"))]
    if isinstance(d, Enum) and not any(a.startswith("id_") for a in d.attrs):
        d.attrs.append(f"id_bit_length = {d.id_bits}")
    return d


def c16_valid(r, k):
    out = []
    p = Profile(reverse=0.2, lsb0=0.2, bits=0.3, shuffle=0.5, fill=0.2, array=4, reserve=0.1, redundant=0.2, overlap=0.2,
                multiple8=0.4, max_bits=200)
    for i in range(90 * k):
        d = strip_enforce(gen.struct(r, p, f"S{i}"))
        d.attrs.insert(r.randint(0, len(d.attrs)), enforce(r, d, counted(d), True))
        out.append([d])
    for i in range(40 * k):
        d = strip_enforce(gen.enum(r, Profile(reverse=0.2, lsb0=0.2, array=2, max_fields=3), f"E{i}"))
        # full bytes are demanded of every variant
        full = all(t % 8 == 0 for t in layout(d)["totals"])
        d.attrs.insert(r.randint(0, len(d.attrs)), enforce(r, d, counted(d), full))
        for j, v in enumerate(d.variants):
            if v.kind != "unit" and r.random() < 0.4 and not v.fill:
                t = layout(d)["totals"][j]
                v.attrs.append(enforce(r, d, t, True))
        out.append([d])
    return out


def c16_bad(r, k):
    out = []
    p = Profile(reverse=0.2, lsb0=0.2, bits=0.4, shuffle=0.4, fill=0.2, array=3, reserve=0.1, redundant=0.2, overlap=0.2,
                max_bits=160, max_fields=6)
    flat = Profile(reverse=0.3, lsb0=0.2, array=3, reserve=0.05, max_bits=160, max_fields=6)

    def add(d, what):
        out.append(Case(d.name.lower(), emit.decl_src(d), what))

    for i in range(60 * k):
        d = strip_enforce(gen.struct(r, p, f"W{i}"))
        t = counted(d)
        wrong = r.choice([t + 1, t - 1, t + 8, max(1, t - 8), 8 * layout(d)["bytes"], (t + 7) // 8 * 8, r.randint(1, 2 * t)])
        if wrong == t or wrong < 1:
            wrong = t + 1
        d.attrs.append(enforce(r, d, wrong))
        add(d, "enforced size differs from the bits of the fields")
    for i in range(20 * k):
        d = strip_enforce(gen.struct(r, p, f"F{i}"))
        t = counted(d)
        if t % 8:
            d.attrs.append("enforce_full_bytes")
            add(d, "fields do not end on a whole byte")
    for i in range(30 * k):
        d = strip_enforce(gen.enum(r, Profile(reverse=0.2, lsb0=0.2, array=2, max_fields=3), f"G{i}"))
        t = counted(d)
        x = r.random()
        if x < 0.5:
            # a larger value is room for variants to come
            d.attrs.append(enforce(r, d, max(1, t - r.choice([1, 1, 8, 3]))))
            if t > 1:
                add(d, "enforced size of an enum is smaller than its largest variant")
        elif x < 0.7 and t % 8:
            d.attrs.append("enforce_full_bytes")
            add(d, "enum does not end on a whole byte")
        else:
            v = r.choice(d.variants)
            if v.kind != "unit" and not v.fill and not v.invalid:
                t = layout(d)["totals"][d.variants.index(v)]
                v.attrs.append(f"enforce_bits = {t + r.choice([1, -1, 8])}")
                add(d, "enforced size of a variant differs from its fields")
    for i in range(110 * k):
        d = strip_enforce(gen.struct(r, flat, f"O{i}"))
        d.fill = None
        d.attrs = [a for a in d.attrs if not a.startswith("fill")]
        if len(d.fields) < 2:
            continue
        gen.explicit_bits(r, d, True)
        if not overlap(r, d.fields, d.fields):
            continue
        d._lay = None
        add(d, "two fields share bits")
    for i in range(60 * k):
        d = strip_enforce(gen.enum(r, Profile(array=2, max_fields=4, capture=0, tuple=0.3), f"V{i}"))
        vs = [v for v in d.variants if v.fields and not v.fill]
        if not vs:
            continue
        v = r.choice(vs)
        rs = ranges(v.fields, d.id_bits, d.id_bits)[0]
        for f, a, n in rs:
            position(f, a, n)
        what = "two fields of a variant share bits"
        if len(v.fields) < 2 or r.random() < 0.5:
            f, a, n = r.choice(rs)
            b = r.randint(max(0, d.id_bits - n), d.id_bits - 1) if r.random() < 0.7 else max(0, d.id_bits - 1)
            position(f, b, n)
            what = "a field shares bits with the id"
            if len(v.fields) > 1:
                v.fields = [f]
        elif not overlap(r, v.fields, v.fields):
            continue
        add(d, what)
    for i in range(60 * k):
        d = strip_enforce(gen.enum(r, Profile(lsb0=0.3, array=2, max_fields=3, variant_lsb0=0.2), f"R{i}"))
        hit = [(v, gen.reversed_onto_id(d, v)) for v in d.variants if v.fields]
        hit = [(v, fs) for v, fs in hit if any(not f.redundant and f.reserve != "reserve" and "overlap" not in str(f.attrs)
                                               for f in fs)]
        d._lay = None
        if hit:
            v = r.choice(hit)[0]
            v.attrs.insert(r.randint(0, len(v.attrs)), "reverse")
            add(d, "a field of a reversed variant shares bits with the id")
    return out


def position(f, a, n):
    f.start = a
    strip = [x for x in f.attrs if not x.startswith(("bit_length", "byte_length", "bits"))]
    if f.block:
        strip = [f"block_bit_length = {n}"] + [x for x in strip if not x.startswith("block_")]
    f.attrs = [f'bits = "{a}..{a + n}"'] + strip


def overlap(r, fields, _):
    """moves one field onto another"""
    rs = [(f, f.start, field_bits(f)) for f in fields if f.start is not None and not f.redundant]
    r.shuffle(rs)
    for f, a, n in rs:
        for g, b, m in rs:
            if f is g:
                continue
            # first or last bits of g, or all of it
            choice = r.choice(["first", "last", "any"])
            if choice == "first":
                x = b - n + 1
            elif choice == "last":
                x = b + m - 1
            else:
                x = r.randint(b - n + 1, b + m - 1)
            x = max(0, x)
            if x < b + m and x + n > b:
                position(f, x, n)
                return True
    return False



# ---- C24: declarations which cannot be laid out -----------------------------------------------------------------

ALL = UINTS + INTS
FIXED = [
    # (declaration, why it is malformed)
    ("struct N3 { #[bondrewd(bit_length = 31)] x: f32 }", "float without all of its bits"),
    ("struct N3 { #[bondrewd(element_bit_length = 31)] x: [f32; 2] }", "float without all of its bits"),
    ("struct N3 { #[bondrewd(block_bit_length = 63)] x: [f32; 2] }", "float without all of its bits"),
    ("struct N3 { a: char, #[bondrewd(bits = \"0..8\", redundant)] b: f32 }", "float without all of its bits"),
    ("enum N3 { A, B, C }", "enum without id length"),
    ("#[bondrewd(id_bit_length = 0)] enum N3 { A }", "id of an enum has no bits"),
    ("#[bondrewd(id_bit_length = 0)] enum N3 { A, B }", "id of an enum has no bits"),
    ("#[bondrewd(id_bit_length = 129)] enum N3 { A, B }", "id of an enum has too many bits"),
    ("#[bondrewd(id_bit_length = 4)] enum N3 { #[bondrewd(invalid)] A, #[bondrewd(invalid)] B, C }", "two catch-alls"),
    ("#[bondrewd(id_bit_length = 4)] enum N3 { }", "enum without variants"),
    ("#[bondrewd(id_bit_length = 3)] enum N3 { #[bondrewd(variant_id = 3)] A = 2, B }", "variant with two ids"),
    ("#[bondrewd(id_bit_length = 3)] enum N3 { A = 1 + 1, B }", "id which is no literal"),
    ("struct N3;", "structure without fields"),
    ("union N3 { a: u8, b: i8 }", "union"),
    ("struct N3<T> { a: T }", "type parameter"),
    ("struct N3 { a: (u8, u8) }", "field of unsupported type"),
    ("struct N3<'a> { a: &'a u8 }", "field of unsupported type"),
    ("struct N3 { a: usize }", "field whose size depends on the platform"),
    ("struct N3 { a: isize }", "field whose size depends on the platform"),
    ("struct N3 { a: [usize; 2] }", "field whose size depends on the platform"),
    ("#[bondrewd(id_bit_length = 3)] enum N3 { A(usize), B }", "field whose size depends on the platform"),
    ("struct N3 { a: [u8; 1 + 1] }", "array length which is no literal"),
    ("struct N3 { a: [u8; 0] }", "array without elements"),
    ("struct N3 { a: Bar }", "structure of unknown size"),
    ("struct N3 { #[bondrewd(struct_size = 2)] a: Bar }", "wrong size of a structure"),
    ("struct N3 { #[bondrewd(bit_length = 16)] a: Bar }", "wrong size of a structure"),
    ("struct N3 { #[bondrewd(struct_size = 1)] a: Wide }", "wrong size of a structure"),
    ("struct N3 { #[bondrewd(struct_size = 1, bit_length = 0)] a: Bar }", "field without bits"),
    ("struct N3 { #[bondrewd(struct_size = 1, bit_length = 9)] a: Bar }", "more bits than the type has"),
    ("struct N3 { #[bondrewd(enum_primitive = \"u8\", bit_length = 9)] a: Foo }", "more bits than the type has"),
    ("struct N3 { #[bondrewd(struct_size = 0)] a: Bar }", "wrong size of a structure"),
    ("struct N3 { #[bondrewd(struct_size = 1, endianness = \"le\")] a: Bar }", "byte order for a structure"),
    ("struct N3 { #[bondrewd(enum_primitive = \"i8\")] a: Foo }", "enum of a signed primitive"),
    ("struct N3 { #[bondrewd(capture_id)] a: u8 }", "captured id outside of an enum"),
    ("#[bondrewd(id_bit_length = 4)] enum N3 { A { a: u8, #[bondrewd(capture_id)] b: u8 }, B, C }", "captured id which is not first"),
    ("#[bondrewd(id_bit_length = 4)] enum N3 { A { #[bondrewd(capture_id)] b: i8 }, B, C }", "captured id of another type"),
    ("#[bondrewd(id_bit_length = 4)] enum N3 { A { #[bondrewd(capture_id)] b: u16 }, B, C }", "captured id of another type"),
    ("#[bondrewd(id_bit_length = 9)] enum N3 { A { #[bondrewd(capture_id)] b: u8 }, B, C }", "captured id of another type"),
    ("#[bondrewd(id_bit_length = 4)] enum N3 { A { #[bondrewd(capture_id)] b: bool }, B, C }", "captured id of another type"),
    ("struct N3 { #[bondrewd(foo = 3)] a: u8 }", "unknown setting of a field"),
    ("struct N3 { #[bondrewd(reserved)] a: u8 }", "unknown setting of a field"),
    ("struct N3 { #[bondrewd(readonly)] a: u8, b: u8 }", "unknown setting of a field"),
    ("struct N3 { a: u8, #[bondrewd(bit_length = 4, redundent)] b: u8 }", "unknown setting of a field"),
    ("#[bondrewd(id_bit_length = 4)] enum N3 { A { #[bondrewd(captureid)] a: u8 }, B }", "unknown setting of a field"),
    ("struct N3 { #[bondrewd(endianness = 1)] a: u16 }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(bits = 8)] a: u16 }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(byte_length = \"1\")] a: u16 }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(struct_size = \"1\")] a: Bar }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(enum_primitive = 8)] a: Foo }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(overlapping_bits = \"1\")] a: u8 }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(element_bit_length = \"3\")] a: [u8; 2] }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(element_byte_length = \"1\")] a: [u8; 2] }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(block_bit_length = \"9\")] a: [u8; 2] }", "setting with a value of the wrong kind"),
    ("struct N3 { #[bondrewd(block_byte_length = \"2\")] a: [u8; 2] }", "setting with a value of the wrong kind"),
    ("#[bondrewd(default_endianness = 1)] struct N3 { a: u16 }", "setting with a value of the wrong kind"),
    ("#[bondrewd(read_from = 0)] struct N3 { a: u16 }", "setting with a value of the wrong kind"),
    ("#[bondrewd(fill_bytes = \"3\")] struct N3 { a: u16 }", "setting with a value of the wrong kind"),
    ("#[bondrewd(enforce_bits = \"16\")] struct N3 { a: u16 }", "setting with a value of the wrong kind"),
    ("#[bondrewd(enforce_bytes = \"2\")] struct N3 { a: u16 }", "setting with a value of the wrong kind"),
    ("#[bondrewd(id_bit_length = \"4\")] enum N3 { A(u8), B }", "setting with a value of the wrong kind"),
    ("#[bondrewd(id_bit_length = 4, payload_bit_length = \"8\")] enum N3 { A(u8), B }", "setting with a value of the wrong kind"),
    ("#[bondrewd(id_byte_length = 1, payload_byte_length = \"1\")] enum N3 { A(u8), B }", "setting with a value of the wrong kind"),
    ("#[bondrewd(id_bit_length = 4, id_byte_length = \"1\")] enum N3 { A(u8), B }", "setting with a value of the wrong kind"),
    ("#[bondrewd(id_bit_length = 4)] enum N3 { #[bondrewd(variant_id = \"1\")] A(u8), B }", "setting with a value of the wrong kind"),
    ("#[bondrewd(fill_bytes = 2, fill_bytes = 3)] struct N3 { a: u16 }", "two sizes"),
    ("struct N3 { #[bondrewd(endianness = \"middle\")] a: u16 }", "unknown attribute value"),
    ("#[bondrewd(default_endianness = \"middle\")] struct N3 { a: u16 }", "unknown attribute value"),
    ("#[bondrewd(read_from = \"msb1\")] struct N3 { a: u8 }", "unknown attribute value"),
    ("struct N3 { #[bondrewd(bits = \"abc\")] a: u16 }", "unreadable bits"),
    ("struct N3 { #[bondrewd(bits = \"0..\")] a: u16 }", "unreadable bits"),
    ("struct N3 { #[bondrewd(bits = \"..8\")] a: u16 }", "unreadable bits"),
    ("struct N3 { #[bondrewd(bits = \"-1..8\")] a: u16 }", "unreadable bits"),
    ("struct N3 { #[bondrewd(bits = \"\")] a: u16 }", "unreadable bits"),
    ("struct N3 { #[bondrewd(bits = \"0..8\", bit_length = 7)] a: u16 }", "two lengths"),
    ("struct N3 { #[bondrewd(bit_length = 7, bits = \"0..8\")] a: u16 }", "two lengths"),
    ("struct N3 { #[bondrewd(bit_length = 7, bit_length = 8)] a: u16 }", "two lengths"),
    ("struct N3 { #[bondrewd(bit_length = 7, byte_length = 1)] a: u16 }", "two lengths"),
    ("struct N3 { #[bondrewd(bit_length = \"3\")] a: u8 }", "length which is no number"),
    ("struct N3 { #[bondrewd(bit_length = -1)] a: u8 }", "length which is no number"),
    ("struct N3 { #[bondrewd(element_bit_length = 3)] a: u8 }", "array length for something else"),
    ("struct N3 { #[bondrewd(block_bit_length = 3)] a: u8 }", "array length for something else"),
    ("#[bondrewd(fill_bytes = 0)] struct N3 { a: u8 }", "fill_bytes has no room for the fields"),
    ("struct N3 { #[bondrewd(bit_length = 9)] a: bool }", "more bits than the type has"),
    ("struct N3 { #[bondrewd(5)] a: u8 }", "setting of a field which is none"),
    ("struct N3 { #[bondrewd(\"reserve\")] a: u8 }", "setting of a field which is none"),
    ("struct N3 { #[bondrewd(x::bit_length = 5)] a: u8 }", "setting of a field which is none"),
    ("struct N3 { #[bondrewd(x::reserve)] a: u8 }", "setting of a field which is none"),
    ("struct N3 { #[bondrewd = 5] a: u8 }", "setting of a field which is none"),
] + [
    (f"struct N3 {{ #[bondrewd({text})] a: {ty} }}", "setting of a field in a wrong form")
    for ty, names in (("u8", ("bit_length(5)", "bit_length", "bit_length()", "byte_length(1)", "byte_length", "bits(\"0..5\")",
                              "bits", "endianness(\"le\")", "endianness", "overlapping_bits(3)", "overlapping_bits",
                              "reserve(true)", "reserve = true", "read_only()", "read_only = true", "redundant(1)",
                              "redundant = true", "bit_length = 5.0", "bit_length = true", "bit_length = '5'",
                              "bit_length = 5, reserve(), read_only", "bits = 0", "bits = '0'")),
                      ("[u8; 2]", ("element_bit_length(5)", "element_bit_length", "element_byte_length(1)",
                                   "block_bit_length(9)", "block_bit_length", "block_byte_length(2)", "block_byte_length")),
                      ("Bar", ("struct_size(1)", "struct_size", "struct_size = 1, bit_length(5)")),
                      ("Foo", ("enum_primitive(\"u8\")", "enum_primitive", "enum_primitive = \"u8\", bit_length(5)")))
    for text in names
] + [
    (f"#[bondrewd(id_bit_length = 4)] enum N3 {{ A {{ #[bondrewd({text})] a: u8 }}, B }}", "setting of a field in a wrong form")
    for text in ("bit_length(5)", "capture_id(4)", "capture_id = 4", "reserve(1)", "3", "x::capture_id")
]


def c24_cases(r, k):
    out = []
    for i, (text, why) in enumerate(FIXED):
        body = text
        attr = ""
        if "default_endianness" not in text:
            attr = '#[bondrewd(default_endianness = "%s")] ' % r.choice(["be", "le"])
        out.append(Case(f"x{i}", f"#[derive(Bitfields)] {attr}{body}", why))
    n = [0]

    def context(bad, why, where=None, exact=False):
        """a malformed field among other fields, of a structure or of a variant"""
        n[0] += 1
        before = ["a%d: %s" % (i, r.choice(["u8", "u16", "bool", "i32", "[u8; 2]"])) for i in range(r.choice([0, 0, 1, 2]))]
        after = ["b%d: %s" % (i, r.choice(["u8", "u16", "bool", "i32", "char"])) for i in range(r.choice([0, 0, 1, 2]))]
        if exact:
            before, after = [], []
        attrs = ['default_endianness = "%s"' % r.choice(["be", "le"])]
        if r.random() < 0.25:
            attrs.append("reverse")
        if r.random() < 0.25 and not exact:
            attrs.append('read_from = "lsb0"')
        fields = before + [bad] + after
        if (where or r.choice(["struct", "struct", "enum"])) == "struct":
            r.shuffle(attrs)
            src = f"#[bondrewd({', '.join(attrs)})] struct Z{n[0]} {{ {', '.join(fields)} }}"
        else:
            attrs.append(f"id_bit_length = {r.randint(2, 9)}")
            r.shuffle(attrs)
            vs = [f"Va {{ {', '.join(fields)} }}", "Vb", "Vc(u8)"]
            r.shuffle(vs)
            src = f"#[bondrewd({', '.join(attrs)})] enum Z{n[0]} {{ {', '.join(vs)} }}"
        out.append(Case(f"z{n[0]}", "#[derive(Bitfields)] " + src, why))

    def field(attrs, ty):
        attrs = list(attrs)
        if r.random() < 0.3 and ty.strip("[]; 0123456789") not in ("bool", "Bar", "Wide", "Foo"):
            attrs.append('endianness = "%s"' % r.choice(["be", "le"]))
        r.shuffle(attrs)
        return f"#[bondrewd({', '.join(attrs)})] x: {ty}"

    for _ in range(4 * k):
        for ty in ALL + ["char"]:
            w = WIDTH[ty]
            m = r.choice([w + 1, w + 1, w + 2, w + 7, w + 8, 2 * w, r.randint(w + 1, 3 * w)])
            context(field([f"bit_length = {m}"], ty), "more bits than the type has")
            # the declaration right inside of the limit is fine
            context(field([f"bit_length = {w}"], ty), None)
            context(field(["bit_length = 1"], ty), None)
            if r.random() < 0.4:
                m8 = w // 8 + r.randint(1, 3)
                context(field([f"byte_length = {m8}"], ty), "more bits than the type has")
            c = r.randint(1, 4)
            context(field([f"element_bit_length = {m}"], f"[{ty}; {c}]"), "elements with more bits than their type has")
            context(field([f"block_bit_length = {w * c + r.choice([1, 8, r.randint(1, w)])}"], f"[{ty}; {c}]"),
                    "more bits than the array has")
            context(field([f"element_bit_length = {r.choice([1, w])}"], f"[{ty}; {c}]"), None)
            context(field([f"block_bit_length = {r.choice([w * (c - 1) + 1, w * c])}"], f"[{ty}; {c}]"), None)
            if c > 1:
                context(field([f"block_bit_length = {r.choice([w * (c - 1), r.randint(1, w * (c - 1))])}"], f"[{ty}; {c}]"),
                        "block without any bit of the first element")
            a = r.randint(0, 20)
            context(field([f'bits = "{a}..{a + m}"'], ty), "more bits than the type has", "struct", True)
            context(field([f'bits = "0..{w}"'], ty), None, "struct", True)
        ty = r.choice(ALL)
        context(field(["bit_length = 0"], ty), "field without bits")
        context(field(["element_bit_length = 0"], f"[{ty}; 2]"), "field without bits")
        context(field(["block_bit_length = 0"], f"[{ty}; 2]"), "field without bits")
        a = r.randint(1, 30)
        context(field([f'bits = "{a}..{a}"'], ty), "field without bits", "struct", True)
        context(field([f'bits = "{a + r.randint(1, 8)}..{a}"'], ty), "bits which end before they start", "struct", True)
        f, w = r.choice([("f32", 32), ("f64", 64)])
        context(field([f"bit_length = {r.choice([w - 1, w + 1, r.randint(1, w - 1), 96 - w])}"], f), "float without all of its bits")
        context(field([f"element_bit_length = {r.choice([w - 1, w + 1, r.randint(1, w - 1)])}"], f"[{f}; 2]"),
                "float without all of its bits")
        context(field([f"bit_length = {r.randint(1, 7)}, overlapping_bits = {r.randint(8, 20)}"], "u8"),
                "more overlapping bits than the field has")
    # several statements about the length of one field
    for i in range(24 * k):
        count = r.randint(2, 5)
        nest = r.choice([None, None, None, "Bar", "Foo"])
        ty = nest or r.choice(ALL)
        w = 8 if nest else WIDTH[ty]
        n = r.randint(w // 2 + 1, w)
        kind = r.choice(["bits element", "bits element", "bits block", "element block", "length element", "length block",
                         "bits length", "length length", "element element", "block block", "uneven", "uneven bits"])
        if nest and "uneven" in kind:
            continue
        wrong = r.choice([-1, 1, -1, 1, count, -count, 8, -8, r.randint(1, w)])
        fits = kind.startswith("bits ") and kind != "bits length" and r.random() < 0.35
        a = r.choice([0, 0, 8, 3])
        block, total = w * (count - 1) + n, n * count
        x = total if "element" in kind or "uneven" in kind else block
        x = x if fits else max(1, x + wrong)
        lengths = {"bits": f'bits = "{a}..{a + x}"', "element": f"element_bit_length = {n}", "block": f"block_bit_length = {block}",
                   "length": f"bit_length = {x}", "uneven": ""}
        more = {"Bar": ["struct_size = 1"], "Foo": ['enum_primitive = "u8"'], None: []}[nest]
        first, second = kind.split() if " " in kind else (kind, None)
        kinds = f"[{ty}; {count}]"
        if kind == "element block":
            if total == block:
                continue
            both = [lengths["element"], lengths["block"]]
        elif kind in ("bits length", "length length"):
            m = r.randint(1, w)
            x = m + (1 if m == 1 else r.choice([-1, 1]))
            both = [f'bits = "{a}..{a + m}"' if first == "bits" else f"bit_length = {m}", f"bit_length = {x}"]
            kinds = ty
        elif kind == "element element":
            both = [f"element_bit_length = {n}", f"element_bit_length = {n - 1}"]
        elif kind == "block block":
            both = [f"block_bit_length = {block}", f"block_bit_length = {block - 1 if n > 1 else block + 1}"]
        elif "uneven" in kind:
            x = n * count - r.randint(1, count - 1)
            both = [f'bits = "{a}..{a + x}"' if second else f"bit_length = {x}"]
        else:
            both = [lengths[first], lengths[second]]
        both += more
        r.shuffle(both)
        attrs = ['default_endianness = "%s"' % r.choice(["be", "le"])] + (["reverse"] if r.random() < 0.2 else [])
        lead = f"#[bondrewd(bit_length = {a})] p: u8, " if a else ""
        out.append(Case(f"l{i}", f"#[derive(Bitfields)] #[bondrewd({', '.join(attrs)})] struct L{i} {{ {lead}"
                        f"#[bondrewd({', '.join(both)})] x: {kinds}, q: u8 }}", None if fits else "lengths which contradict each other"))
    # positions outside of the buffer
    for i in range(30 * k):
        ty = r.choice(ALL)
        m = r.randint(1, WIDTH[ty])
        gap = r.randint(1, 40)
        lsb = r.random() < 0.5
        lead = r.choice([0, 3, 8, 11])
        total = lead + m
        end = lead + gap + m
        if r.random() < 0.3:
            # all of the buffer, and no more
            gap = 0 if lsb else (-total) % 8
            end = lead + gap + m
        ok = gap == 0 or not lsb and end <= (total + 7) // 8 * 8
        attrs = ['default_endianness = "%s"' % r.choice(["be", "le"])] + (['read_from = "lsb0"'] if lsb else []) \
            + (["reverse"] if r.random() < 0.4 else [])
        first = f"#[bondrewd(bit_length = {lead})] a: u16, " if lead else ""
        out.append(Case(f"o{i}", f"#[derive(Bitfields)] #[bondrewd({', '.join(attrs)})] struct O{i} {{ {first}"
                        f"#[bondrewd(bits = \"{lead + gap}..{end}\")] b: {ty} }}", None if ok else "field outside of the buffer"))
    for i in range(15 * k):
        d = gen.struct(r, Profile(array=3, reverse=0.3, lsb0=0.3), f"F{i}")
        d.attrs = [a for a in d.attrs if not a.startswith("fill")]
        need = layout(d)["bytes"]
        size = r.choice([need - 1, need - 1, r.randint(0, need - 1), need])
        d.attrs.append(f"fill_bytes = {size}")
        r.shuffle(d.attrs)
        out.append(Case(f"f{i}", emit.decl_src(d), "fill_bytes has no room for the fields" if size < need else None))
    # enums
    for i in range(30 * k):
        bits = r.randint(1, 10)
        kind = r.choice(["count", "id", "disc", "twice", "next", "fill"])
        d = r.choice(["be", "le"])
        head = f'#[derive(Bitfields)] #[bondrewd(default_endianness = "{d}", id_bit_length = %d)] '
        names = gen.VNAMES[:]
        r.shuffle(names)

        def body(name):
            return r.choice([name, name, f"{name}(u8)", f"{name} {{ a: u16 }}"])
        fits = r.random() < 0.35
        if kind == "count":
            bits = r.randint(1, 3)
            names = gen.VNAMES + ["Kilo", "Lima"]
            vs = [body(x) for x in names[:(1 << bits) + (0 if fits else 1)]]
            why = "more variants than ids"
        elif kind in ("id", "disc"):
            bits = max(bits, 2)
            x = (1 << bits) + (-1 if fits else r.choice([0, 0, 1, 5, 1 << bits]))
            vs = [body(n) for n in names[:2]]
            if kind == "id":
                vs.append(f"#[bondrewd(variant_id = {x})] {body(names[2])}")
            else:
                vs = names[:2] + [f"{names[2]} = {x}"]
            why = "id which the bits of the id cannot hold"
        elif kind == "twice":
            bits = max(bits, 3)
            x = r.randint(0, 6)
            vs = [f"#[bondrewd(variant_id = {x + (j if fits else 0)})] {body(n)}" for j, n in enumerate(names[:2])] + [body(names[2])]
            r.shuffle(vs)
            why = "two variants with the same id"
        elif kind == "next":
            # the ids left over do not fit
            bits = 1
            vs = [f"#[bondrewd(variant_id = {x})] {body(n)}" for x, n in zip((1, 0), names)] + ([] if fits else [body(names[2])])
            why = "more variants than ids"
        else:
            vs = [names[0], f"#[bondrewd(fill_bytes = {(bits + 15) // 8 - (0 if fits else 1)})] {names[1]} {{ a: u8 }}"]
            why = "fill_bytes has no room for the fields"
        out.append(Case(f"e{i}", head % bits + f"enum E{i} {{ {', '.join(vs)} }}", None if fits else why))
    # sizes nobody has room for
    for i in range(3 * k):
        for j, (head, body, ty) in enumerate([
                ("", "#[bondrewd(bit_length = %d)] a: u16", 0), ("", "#[bondrewd(byte_length = %d)] a: u16", 0),
                ("", "#[bondrewd(element_bit_length = %d)] a: [u16; 3]", 0),
                ("", "#[bondrewd(element_byte_length = %d)] a: [u16; 3]", 0),
                ("", "#[bondrewd(block_bit_length = %d)] a: [u16; 3]", 0),
                ("", "#[bondrewd(block_byte_length = %d)] a: [u16; 3]", 0),
                ("", "#[bondrewd(struct_size = %d)] a: Bar", 0), ("", "#[bondrewd(bits = \"8..%d\")] a: u16", 0),
                ("", "a: [u8; %d]", 0), ("enforce_bytes = %d, ", "a: u8", 0), ("enforce_bits = %d, ", "a: u8", 0),
                ("fill_bytes = %d, ", "a: u8", 0), ("id_bit_length = %d, ", "a: u8", 1), ("id_byte_length = %d, ", "a: u8", 1),
                ("id_bit_length = 3, enforce_bytes = %d, ", "a: u8", 1),
                ("id_bit_length = 3, payload_byte_length = %d, ", "a: u8", 1)]):
            # times eight, these are nothing or very little
            x = r.choice([1 << 61, (1 << 61) + 1, (1 << 62) + 1, (1 << 63) + 2, (1 << 64) - 1, (1 << 64) + 1, 1 << 70])
            text = (head + body).replace("%d", str(x))
            at = text.index("a:") if "#[" not in text else text.index("#[")
            kind = f"enum H{i}x{j} {{ A {{ {text[at:]} }}, B }}" if ty else f"struct H{i}x{j} {{ {text[at:]} }}"
            out.append(Case(f"h{i}x{j}", f'#[derive(Bitfields)] #[bondrewd({text[:at]}default_endianness = "{r.choice(["be", "le"])}")] {kind}',
                            "size beyond all limits"))
    # enums which are bytes
    for i in range(20 * k):
        n = r.randint(2, 6)
        names = r.sample(gen.VNAMES, n)
        kind = r.choice(["number", "number", "twice", "two", "primitive", "expression", "fields", "none", "negative"])
        fits = r.random() < 0.35 and kind in ("number", "twice")
        vs, top = list(names), r.choice(["", "", "#[bondrewd_enum(u8)] ", "#[bondrewd_enum(u8, partial_eq)] "])
        a, b = r.sample(range(n), 2)
        why = None
        if kind == "number":
            vs[a] += f" = {r.choice([255, 254, 250]) if fits else r.choice([256, 257, 300, 511, 512, 65536, 1 << 32])}"
            if a == n - 2:
                a, vs = n - 1, vs[:-2] + [vs[-1], vs[-2]]
            if fits and vs[0] == names[0] and a != n - 1:
                vs = [x for x in vs if " = " not in x] + [vs[a]]
            why = "number beyond a byte"
        elif kind == "twice":
            x = r.randint(0, 200)
            vs[a] += f" = {x}"
            vs[b] += f" = {x + (40 if fits else 0)}"
            vs = [v for v in vs if " = " in v]
            r.shuffle(vs)
            why = "two variants with the same number"
        elif kind == "two":
            one, other = r.choice([("#[bondrewd_enum(invalid)] %s", "#[bondrewd_enum(invalid)] %s"),
                                   ("%s(u8)", "%s(u8)"), ("%s(u8)", "#[bondrewd_enum(invalid)] %s"),
                                   ("%s { a: u8 }", "%s(u8)"), ("#[bondrewd_enum(invalid)] %s", "%s(u8)")])
            a, b = min(a, b), max(a, b)
            vs[a], vs[b] = one % vs[a], other % vs[b]
            why = "two catch-alls"
        elif kind == "primitive":
            t = r.choice(["u16", "u32", "u64", "u128", "i8", "i16", "bool", "char"])
            if r.random() < 0.3 and t[0] == "u":
                top = f"#[bondrewd_enum({t})] "
            else:
                vs[a] += r.choice([f"({t})", f" {{ a: {t} }}"])
            why = "byte enum of another primitive"
        elif kind == "expression":
            vs[a] += " = 1 + 1"
            why = "number which is no literal"
        elif kind == "negative":
            vs[a] += " = -1"
            why = "number beyond a byte"
        elif kind == "fields":
            vs[a] += r.choice(["(u8, u8)", "()", " { a: u8, b: u8 }", " {}"])
            why = "byte enum with fields"
        else:
            vs = []
            why = "enum without variants"
        if any(" = " in v for v in vs) and any("(" in v or "{" in v for v in vs):
            top += "#[repr(u8)] "
        out.append(Case(f"b{i}", f"#[derive(BitfieldEnum)] {top}enum B{i} {{ {', '.join(vs)} }}", None if fits else why))
    # the sizes of an enum: id, payload and both
    for i in range(30 * k):
        width, vs = [], []
        for name in r.sample(gen.VNAMES, r.randint(2, 5)):
            n = r.choice([0, 1, r.randint(2, 40)])
            width.append(n)
            fields = [f"#[bondrewd(bit_length = {n})] {{}}u64"] if n else []
            if n and r.random() < 0.3:
                m = r.choice([8, 16])
                fields.append(f"{{}}u{m}")
                width[-1] += m
            if not fields:
                vs.append(name)
            elif r.random() < 0.4:
                vs.append(f"{name}({', '.join(x.format('') for x in fields)})")
            else:
                vs.append(f"{name} {{ {', '.join(x.format('%s: ' % y) for x, y in zip(fields, 'ab'))} }}")
        if not max(width):
            continue
        ids = r.randint(3, 12)
        room = max(width) + r.choice([0, 0, 1, 7, 8])
        kind = r.choice(["payload", "total", "both", "all", "sum", "none"])
        fits = kind != "none" and (r.random() < 0.4 if kind != "sum" else False)
        less = r.choice([1, 1, r.randint(1, max(width))])
        payload = room if fits else max(width) - less
        total = ids + payload
        why = "payload of an enum without room for its largest variant"
        if kind == "payload":
            sizes = [f"payload_bit_length = {payload}", f"id_bit_length = {ids}"]
        elif kind == "total":
            sizes = [f"enforce_bits = {total}", f"id_bit_length = {ids}"]
        elif kind == "both":
            if not fits:
                # the payload fits, but hardly anything is left for the id
                payload, total = room, room + r.choice([0, 1]) - (len(vs) == 2)
                why = "id which the bits of the id cannot hold"
            sizes = [f"payload_bit_length = {payload}", f"enforce_bits = {total}"]
        elif kind == "all":
            sizes = [f"payload_bit_length = {payload}", f"enforce_bits = {total}", f"id_bit_length = {ids}"]
        elif kind == "sum":
            sizes = [f"payload_bit_length = {room}", f"enforce_bits = {room + ids + r.choice([-1, 1, 8, 5])}",
                     f"id_bit_length = {ids}"]
            why = "sizes of an enum which contradict each other"
        else:
            sizes = r.choice([[], [f"payload_bit_length = {room}"], [f"enforce_bits = {room + ids}"]])
            why = "enum without id length"
        sizes = [x if not x.startswith(("payload", "enforce")) or int(x.split(" = ")[1]) % 8 or r.random() < 0.6 or
                 x.endswith(" 0") else f"{x.split('_')[0]}_{'byte_length' if x[0] == 'p' else 'bytes'} = {int(x.split(' = ')[1]) // 8}"
                 for x in sizes]
        sizes.append('default_endianness = "%s"' % r.choice(["be", "le"]))
        if r.random() < 0.2:
            sizes.append("reverse")
        if r.random() < 0.2:
            sizes.append('read_from = "lsb0"')
        r.shuffle(sizes)
        out.append(Case(f"p{i}", f"#[derive(Bitfields)] #[bondrewd({', '.join(sizes)})] enum P{i} {{ {', '.join(vs)} }}",
                        None if fits else why))
    return out


def c24(r, k, seed, round_no, total, found, only):
    judge("C24", "ws-C24-bad", c24_cases(r, k), (), total, found, round_no, only)


def c16(r, k, seed, round_no, total, found, only):
    judge("C16", "ws-C16-bad", c16_bad(r, k), (), total, found, round_no, only)
    run_jobs("C16", [Job("ok", "layout", c16_valid(r, k), n=16)], seed, round_no, total, found, only)


# ---- C25: declarations as the documentation shows them compile ---------------------------------------------------

NOTES = ["/// Some words.", "/** Some words. */", '#[doc = "words"]', "#[doc(hidden)]", "#[allow(dead_code)]",
         '#[deprecated(note = "old")]', '#[deprecated = "old"]', "#[cfg(all())]", '#[cfg_attr(all(), doc = "words")]']


# names of the prelude which mean something else where the type is declared
NEIGHBOURS = ["use core::fmt::Result;", "pub type Result<T> = core::result::Result<T, ()>;",
              "pub enum Outcome { Ok, Err } pub use self::Outcome::*;", "pub enum Answer { Some, None } pub use self::Answer::*;",
              "pub trait Default {}", "pub trait PartialEq {}", "pub trait From {} pub trait Into {}",
              "pub struct Option; pub struct Vec;", "pub struct String; pub struct Box;",
              "pub fn from_bytes() {} pub fn into_bytes() {}",
              "pub trait Convert: Sized { const BYTE_SIZE: u8 = 0; const BIT_SIZE: i8 = 0; fn into_bytes(self) -> u8 { 0 } "
              "fn from_bytes(_: &[u8]) -> Option<Self> { None } fn into_primitive(self) -> i8 { 0 } "
              "fn from_primitive(_: i8) -> Option<Self> { None } fn from_slice(_: u8) {} fn from_vec(_: u8) {} "
              "fn read(&self) {} fn id(&self) {} } impl<T> Convert for T {}"]
FAMILIAR = ["Result", "Option", "Some", "None", "Ok", "Err", "Vec", "String", "Default", "PartialEq", "Box", "Checked"]


ODD = ["A1", "HTTPPacket", "Rx2Tx", "snake_name", "X", "ALLCAPS", "_Hidden", "Self_", "Id", "Kind", "Bitfields",
       "Size", "E", "Core", "U8", "Result", "Ok", "None", "r#type", "r#Match", "Größe", "Invalid", "Checked"]


def dress(r, group):
    """the declarations of a group with what people add to declarations"""
    vis = r.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", ""])
    inner = r.choice(["pub ", "pub(crate) ", ""]) if vis else ""
    derives = r.sample(["Debug", "PartialEq"], r.randint(0, 2))
    out = []
    for d in group:
        for line in emit.decl_src(d).split("\n"):
            if line.startswith("#[derive("):
                names = re.findall(r"\w+", line[9:]) + derives
                r.shuffle(names)
                if r.random() < 0.3:
                    out.append(r.choice(NOTES[:4]))
                if r.random() < 0.3:
                    out += [f"#[derive({x})]" for x in names]
                else:
                    out.append(f"#[derive({', '.join(names)})]")
            elif line.startswith("pub "):
                if r.random() < 0.2:
                    out.append(r.choice(NOTES + ['#[must_use = "why"]']))
                out.append(vis + line[4:])
            elif line.startswith("    "):
                if r.random() < 0.25:
                    out.append("    " + r.choice(NOTES))
                out.append(line.replace(" pub ", " " + inner, 1) if isinstance(d, Struct) else line)
            else:
                out.append(line)
    text = "\n".join(out)
    if r.random() < 0.2:
        # one attribute for each setting
        text = re.sub(r"#\[bondrewd\(([^\]\"]*(?:\"[^\"]*\"[^\]\"]*)*)\)\]",
                      lambda m: " ".join(f"#[bondrewd({x})]" for x in re.split(r", (?=[a-z])", m[1])), text)
    if len(group) > 1 and r.random() < 0.4:
        # the types of fields by their path
        names = [d.name for d in group]
        head, last = text, ""
        where = "self"
        if vis in ("pub ", "pub(crate) "):
            cut = text.rindex("#[derive", 0, text.rindex(names[-1]))
            cut = text.rfind("\n}\n", 0, cut) + 3
            if cut > 3:
                where = "nearby"
                head, last = text[:cut], text[cut:]

        def path(t, where):
            return re.sub(r"(?<=[\s\[(])(%s)(?=[;\],)]| }|,?$)" % "|".join(names), lambda x: f"{where}::{x[0]}", t)
        if where == "self":
            return path(text, "self")
        return "pub mod nearby { use bondrewd::*;\n" + path(head, r.choice(["self", "super::nearby"])) + "\n}\n" + \
            path(last, r.choice(["nearby", "self::nearby"]))
    if r.random() < 0.12 and vis in ("pub ", ""):
        text = "pub fn somewhere() {\n" + text + "\n}"
    elif r.random() < 0.12 and vis in ("pub ", "pub(crate) ", ""):
        # nothing is imported
        text = "pub mod bare {\n" + re.sub(r"(?<=[(, ])(?=Bitfields|BitfieldEnum)(?=[^\n]*\)\]$)", "bondrewd::", text, flags=re.M) + "\n}"
    if isinstance(group[-1], (Enum, PrimEnum)) and r.random() < 0.25:
        own = [v[0] if isinstance(v, tuple) else v.name for v in group[-1].variants]
        cut = text.rindex("enum " + group[-1].name)
        for a, b in zip(own, r.sample(ODD, len(own)) if len(own) < 12 else ()):
            text = text[:cut] + re.sub(r"(?m)^(\s+(?:#\[.*\] )?)%s(?= ?[({,=]|$)" % a, r"\g<1>" + b, text[cut:])
    x = r.random()
    if x < 0.15:
        # decorations name nothing of the prelude but what is derived, which is given by its path
        text = r.choice(NEIGHBOURS) + "\n" + text
    elif x < 0.25 and group[-1].name.isalnum():
        text = re.sub(r"\b%s\b" % group[-1].name, r.choice(FAMILIAR), text)
    return text


def c25_groups(r, k, prefix, no_dyn=False):
    x = dict(reserve=0.08, read_only=0.06, redundant=0.1, overlap=0.1, raw=0.15)
    p = Profile(**{**MIXED, **x})
    return structs(r, p, prefix + "S", 14 * k) + enums(r, p, prefix + "E", 10 * k) + prims(r, prefix + "P", 6 * k) \
        + nests(r, Profile(**{**NESTED, **x}), prefix + "N", 10 * k)


def c25(r, k, seed, round_no, total, found, only):
    def cases(prefix):
        return [Case(g[-1].name.lower(), dress(r, g), None) for g in c25_groups(r, k, prefix)]

    jobs = [Job("all", "layout", c25_groups(r, 2 * k, "A"), "acc slice view dyn hex hexdyn id eq", FULL, n=6, apart=True)]
    bare = {"edition": "2021", "header": ["#![no_std]"],
            "manifest": lambda dep: "\n".join(l for l in dep.replace('path = "../bondrewd", ', 'path = "../bondrewd", default-features = false, ')
                                              .split("\n") if "bwrt" not in l)}
    plain = {"manifest": lambda dep: "\n".join(l for l in dep.split("\n") if "bwrt" not in l)}
    sets = [("none", (), cases("B"), plain), ("dyn", ("dyn_fns",), cases("C"), {**plain, "edition": "2018"}),
            ("hex", ("hex_fns",), cases("D"), {**plain, "edition": "2024"}), ("both", FULL, cases("F"), plain),
            ("nostd", (), cases("G"), bare), ("nostdhex", ("hex_fns",), cases("H"), bare),
            ("nostddyn", ("dyn_fns",), cases("I"), bare), ("nostdboth", FULL, cases("J"), {**bare, "edition": "2018"})]
    run_jobs("C25", jobs, seed, round_no, total, found, only)
    for name, features, cs, kw in sets:
        judge("C25", "ws-C25-" + name, cs, features, total, found, round_no, only, **kw)
        if name == "both" and not only and not found:
            unsafe_scan("ws-C25-" + name, total, found, round_no)


def unsafe_scan(ws, total, found, round_no):
    """the code the macros expand to, searched for unsafe"""
    root = os.path.join(engine.WORK, ws)
    seen = lines = 0
    for c in sorted(x for x in os.listdir(root) if re.fullmatch(r"c\d+", x)):
        rc, out, err = engine.cargo(root, ["rustc", "--offline", "-p", c, "--lib", "--", "-Zunpretty=expanded"], 300,
                                    extra={"RUSTC_BOOTSTRAP": "1"})
        if rc or "into_bytes" not in out:
            raise engine.Inconclusive("expansion failed: " + err[-2000:])
        for line in out.split("\n"):
            code = re.sub(r'//.*|"[^"]*"', "", line)
            lines += 1
            seen += "fn " in code
            # derive(PartialEq) of the compiler uses this intrinsic
            if re.search(r"\bunsafe\b(?!_code)", code.replace("unsafe { ::core::intrinsics::unreachable() }", "")):
                found.append(Found(None, "expansion", "", "no unsafe code", line.strip(), out[:200], c, round_no, ws,
                                   key="unsafe " + line.strip()))
    total.extra["expanded_lines_scanned_for_unsafe"] = lines
    total.extra["expanded_functions_scanned_for_unsafe"] = seen


# ---- C27: expansion is a function of the declaration ------------------------------------------------------------
def respell(r, text):
    """the same declaration with other white space, comments and grouping of attributes"""
    out = []
    for line in text.split("\n"):
        if r.random() < 0.4:
            line = re.sub(r"#\[bondrewd\(([^\]\"]*(?:\"[^\"]*\"[^\]\"]*)*)\)\]",
                          lambda m: " ".join(f"#[bondrewd({x})]" for x in re.split(r", (?=[a-z])", m[1].rstrip(", "))), line)
        if r.random() < 0.3:
            out.append(" " * r.randint(0, 9) + "// note: a comment with an #[attribute] and a { brace")
        out.append(" " * r.randint(0, 6) + line.lstrip() + " " * r.randint(0, 2))
        if r.random() < 0.2:
            out.append("")
    return "\n".join(out)


def generated(text):
    """{module: what the macros made of it, without the settings they were given}"""
    out = {}
    for m in re.finditer(r"^pub mod m_(\w+) \{\n(.*?)^\}", text, re.M | re.S):
        body = re.sub(r"^ *// note: .*$", "", m[2], flags=re.M)
        body = re.sub(r"#\[bondrewd\((?:[^()\"]|\"[^\"]*\"|\([^()]*\))*\)\]", "", body)
        out[m[1]] = " ".join(body.split())
    return out


def expand(ws, mods, features, profile="", extra=None):
    dep = "\n".join(l for l in engine.shims(ws, features).split("\n") if "bwrt" not in l)
    engine.write(f"{ws}/Cargo.toml", f"""[workspace]
resolver = "2"
members = {["bondrewd", "bondrewd-derive"] + [f"c{i}" for i in range(len(mods))]}
[profile.dev]
debug = 0
incremental = false
{profile}""".replace("'", '"'))

    def one(i):
        engine.write(f"{ws}/c{i}/Cargo.toml", f"""[package]
name = "c{i}"
version = "0.0.0"
edition = "2021"
[lib]
path = "src/lib.rs"
{dep}""")
        lines = ["#![allow(warnings)]"]
        for name, text in mods[i]:
            lines += [f"pub mod m_{name} {{", "    use bondrewd::*;", text, "}"]
        engine.write(f"{ws}/c{i}/src/lib.rs", "\n".join(lines) + "\n")
    for i in range(len(mods)):
        one(i)
    env = {"RUSTC_BOOTSTRAP": "1", **(extra or {})}
    # what all of them need is built once
    engine.cargo(ws, ["build", "--offline", "-p", "bondrewd"], 300, extra=env)

    def run(i):
        # cargo would not run again for text that was printed before
        os.utime(f"{ws}/c{i}/src/lib.rs")
        return engine.cargo(ws, ["rustc", "--offline", "-p", f"c{i}", "--lib", "--", "-Zunpretty=expanded"], 300, extra=env)
    with cf.ThreadPoolExecutor(len(mods)) as ex:
        return list(ex.map(run, range(len(mods))))


def c27(r, k, seed, round_no, total, found, only):
    x = dict(reserve=0.08, read_only=0.06, redundant=0.1, overlap=0.1, raw=0.1)
    p = Profile(**{**MIXED, **x})
    groups = structs(r, p, "S", 30 * k) + enums(r, p, "E", 30 * k) + prims(r, "P", 20 * k) \
        + nests(r, Profile(**{**NESTED, **x}), "N", 20 * k) \
        + [[gen.prim_enum(r, f"Q{n}", count=n)] for n in (2, 15, 100, 255)] \
        + [[gen.enum(r, Profile(max_fields=1, max_bits=40), f"M{n}", count=n)] for n in (17, 64, 129)]
    r.shuffle(groups)
    cases = [(g[-1].name.lower(), dress(r, g)) for g in groups]
    again = {name: respell(r, text) for name, text in cases}
    n = engine.SHARDS
    if only:
        # neighbours matter
        n = 1
        at = next(i for i, (name, _) in enumerate(cases) if name == only)
        cases = cases[at % engine.SHARDS::engine.SHARDS]
    first = [cases[i::n] for i in range(n)]
    names = {g[-1].name.lower(): g[-1].name for g in groups}
    second = []
    for c in first:
        mods = []
        for j, (name, text) in reversed(list(enumerate(c))):
            # something else of the same name, from a module nearby
            other, what = c[j - 1]
            mods += [(name + "_other", re.sub(r"\b%s\b" % names[other], names[name], what)), (name, text),
                     (name + "_again", again[name])]
        second.append(mods)
    root = os.path.join(engine.WORK, "ws-C27-")
    a = expand(root + "a", first, FULL)
    b = expand(root + "b", second, FULL, "[profile.dev.build-override]\ndebug-assertions = false\noverflow-checks = false\n",
               {"LANG": "C", "LC_ALL": "C", "TZ": "Pacific/Auckland", "USER": "somebody"})
    texts = dict(cases)
    count = {"process, profile, environment and neighbours changed": 0, "white space, comments and grouping of settings changed": 0}
    size = 0
    distinct = set()
    samples = []
    for i in range(n):
        one, two = generated(a[i][1]), generated(b[i][1])
        if len(one) < len(first[i]):
            raise engine.Inconclusive("expansion failed: " + a[i][2][-2000:])
        for name, text in first[i]:
            size += len(one[name])
            distinct.add(one[name])
            for other, what, src in zip((name, name + "_again"), count, (text, again[name])):
                count[what] += 1
                got = two.get(other, "")
                if got != one[name]:
                    at = len(os.path.commonprefix([got, one[name]]))
                    lo = max(0, at - 200)
                    found.append(Found(None, f"expansion with {what}", src, one[name][lo:at + 400],
                                       got[lo:at + 400] or "nothing: " + b[i][2][-600:], text, name, round_no, "ws-C27",
                                       key=f"{what} | {text}"))
            if len(samples) < 4:
                samples.append(f"{text} -> {len(one[name])} characters, the same each time")
    total.add({"evaluations": sum(count.values()), "distinct": len(distinct), "types": len(cases), "fields": 0, "ops": count,
               "samples": samples}, len(cases))
    total.extra["characters_of_generated_code_compared"] = total.extra.get("characters_of_generated_code_compared", 0) + 2 * size


PLANS = {"C16": c16, "C24": c24, "C25": c25, "C27": c27}

"""Random declarations. Everything comes from the random.Random passed in."""
from .model import *

UINTS = ["u8", "u16", "u32", "u64", "u128"]
INTS = ["i8", "i16", "i32", "i64", "i128"]


class Profile:
    """weights of what a population is made of"""

    def __init__(self, **kw):
        self.uint, self.int, self.bool, self.char, self.float = 10, 6, 3, 2, 2
        self.array, self.nested, self.prim = 0, 0, 0
        self.signed_only = False
        self.reverse, self.lsb0, self.bits, self.shuffle = 0.0, 0.0, 0.0, 0.0
        self.fill, self.reserve, self.read_only, self.redundant, self.overlap = 0.0, 0.0, 0.0, 0.0, 0.0
        self.endian = 0.15
        self.max_fields, self.max_bits = 9, 320
        self.full = 0.25            # share of numbers which use all of their type
        self.capture, self.invalid, self.tuple, self.explicit_ids = 0.3, 0.3, 0.3, 0.4
        self.multiple8 = 0.0        # share of structs padded to whole bytes
        self.block = 0.4
        self.raw, self.names = 0.03, 0.3
        self.variant_fill, self.variant_endian, self.variant_reverse, self.variant_lsb0 = 0.0, 0.1, 0.0, 0.0
        self.kinds = None
        self.__dict__.update(kw)


def pick(r, pairs):
    total = sum(w for _, w in pairs)
    x = r.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def int_len(r, w, full):
    if r.random() < full:
        return w
    m = r.random()
    if m < 0.3:
        return r.randint(1, min(w, 9))
    if m < 0.5:
        return min(w, max(1, 8 * r.randint(1, w // 8) + r.choice([-1, 0, 1])))
    return r.randint(1, w)


def length_attr(r, n, name="bit"):
    if n % 8 == 0 and r.random() < 0.3:
        return f"{name}_byte_length = {n // 8}" if name != "bit" else f"byte_length = {n // 8}"
    return f"{name}_bit_length = {n}" if name != "bit" else f"bit_length = {n}"


def scalar(r, p):
    k = pick(r, [("uint", p.uint), ("int", p.int), ("bool", p.bool), ("char", p.char), ("float", p.float)])
    if k == "uint" or k == "int":
        ty = pick(r, list(zip(UINTS if k == "uint" else INTS, [8, 7, 6, 4, 2])))
        return ty, int_len(r, WIDTH[ty], p.full)
    if k == "bool":
        return "bool", 1
    if k == "char":
        return "char", r.choice([32, 32, 21, 21, 27, 24, 16, 17, 20, 23, 8, 7, 11, 15, 31])
    return r.choice([("f32", 32), ("f64", 64)])


def scalar_field(r, p, name):
    ty, n = scalar(r, p)
    f = Field(name, ty)
    if n != WIDTH[ty] or (ty != "bool" and r.random() < 0.2):
        f.length = n
        f.attrs.append(length_attr(r, n))
    if ty != "bool" and r.random() < p.endian:
        f.endian = r.choice(["be", "le"])
        f.attrs.append(f'endianness = "{f.endian}"')
    return f


def array_field(r, p, name, pool=()):
    count = r.randint(1, 5)
    usable = [t for t in pool if layout(t)["bytes"] <= 6]
    if usable and r.random() < 0.4:
        return nested_array(r, p, name, r.choice(usable), count)
    ty, n = scalar(r, p)
    f = Field(name, Arr(ty, count))
    w = WIDTH[ty]
    form = r.random()
    if form < p.block:
        # the first element loses the dropped bits
        f.block = True
        f.length = w * (count - 1) + n
        f.attrs.append(length_attr(r, f.length, "block"))
    elif form < p.block + 0.1 and n == w:
        pass
    elif form < p.block + 0.2:
        # the length of all elements together
        f.length = n * count
        f.attrs.append(length_attr(r, f.length))
    else:
        f.elem_len = n
        f.attrs.append(length_attr(r, n, "element"))
    if ty != "bool" and r.random() < p.endian:
        f.endian = r.choice(["be", "le"])
        f.attrs.append(f'endianness = "{f.endian}"')
    if r.random() < 0.3:
        r.shuffle(f.attrs)
    return f


def nested_array(r, p, name, sub, count):
    lay = layout(sub)
    f = Field(name, Arr(sub, count))
    if isinstance(sub, PrimEnum):
        need = max(1, max(lay["values"]).bit_length())
        n, w = r.randint(min(need, 8), 8), 8
        f.attrs.append('enum_primitive = "u8"')
    else:
        n, w = r.choice([lay["bits"], 8 * lay["bytes"]]), 8 * lay["bytes"]
        f.attrs.append(f"struct_size = {lay['bytes']}")
    form = r.random()
    if form < p.block:
        f.block = True
        f.length = w * (count - 1) + n
        f.attrs.append(length_attr(r, f.length, "block"))
    elif form < p.block + 0.15:
        pass
    else:
        f.elem_len = n
        f.attrs.append(length_attr(r, n, "element"))
        if not isinstance(sub, PrimEnum) and r.random() < 0.5:
            # the size is inferred from the length
            f.attrs = f.attrs[1:]
    r.shuffle(f.attrs)
    return f


def nested_field(r, p, name, pool):
    t = r.choice(pool)
    lay = layout(t)
    f = Field(name, t)
    if isinstance(t, PrimEnum):
        f.attrs.append('enum_primitive = "u8"')
        if r.random() < 0.7:
            need = max(1, max(lay["values"]).bit_length())
            f.length = r.randint(min(need, 8), 8)
            f.attrs.append(length_attr(r, f.length))
        return f
    form = r.random()
    if form < 0.35:
        # the size is inferred from the bit length
        f.length = lay["bits"]
        f.attrs.append(length_attr(r, f.length))
        if (f.length + 7) // 8 != lay["bytes"]:
            raise AssertionError
    elif form < 0.7:
        f.length = lay["bits"]
        f.attrs += [f"struct_size = {lay['bytes']}", length_attr(r, f.length)]
        r.shuffle(f.attrs)
    else:
        f.attrs.append(f"struct_size = {lay['bytes']}")
    return f


def any_field(r, p, name, pool):
    k = pick(r, [("s", max(0.01, p.uint + p.int + p.bool + p.char + p.float)), ("a", p.array),
                 ("n", p.nested if pool else 0)])
    if k == "a":
        return array_field(r, p, name, pool)
    if k == "n":
        return nested_field(r, p, name, pool)
    return scalar_field(r, p, name)


def reservable(f):
    t = f.ty
    while isinstance(t, Arr):
        t = t.elem
    return isinstance(t, str)


SPELL = {"be": ["be", "be", "msb", "big"], "le": ["le", "le", "lsb", "little", "lil"]}


def default_attr(r):
    d = r.choice(["be", "le", None])
    return d, ([f'default_endianness = "{r.choice(SPELL[d])}"'] if d else [])


def literal(r, attr):
    """the other ways to write a number"""
    name, _, n = attr.partition(" = ")
    if not n.isdigit() or r.random() > 0.06:
        return attr
    n = int(n)
    return f"{name} = " + r.choice([f"0x{n:X}", f"0x{n:04x}", f"0b{n:b}", f"0o{n:o}", f"{n:_}", f"0{n}", f"{n}_usize", f"{n}_"])


def respell(r, fields):
    """the other names of the byte orders"""
    for f in fields:
        f.attrs = [literal(r, a) for a in f.attrs]
    for f in fields:
        f.attrs = [f'endianness = "{r.choice(SPELL[a[14:16]])}"' if a in ('endianness = "be"', 'endianness = "le"') else a
                   for a in f.attrs]


def withhold(r, p, fields):
    for f in fields:
        x = r.random()
        if x < p.reserve and reservable(f):
            f.reserve = True
            f.attrs.append("reserve")
        elif x < p.reserve + p.read_only:
            f.read_only = True
            f.attrs.append("read_only")


RAW = ["r#type", "r#match", "r#ref", "r#move", "r#in", "r#use", "r#fn", "r#where", "r#loop"]


def field_name(r, p, i, letter="f"):
    return RAW[i] if i < len(RAW) and r.random() < p.raw else f"{letter}{i}"


# names which generated code might use for its own purposes, or derive from those of other fields
PLAIN = ["slice_length", "buf_len", "buffer", "bytes", "shift", "mask", "index", "bits", "size", "value", "data", "id", "name",
         "variant", "variant_id", "out", "result", "len", "i", "bondrewd", "self_", "x", "input", "output", "temp", "prim", "v_id"]
DERIVED = ["_bytes", "_0", "_1", "_buffer", "_0_bytes", "_1_buffer", "_2", "_temp"]


def rename(r, p, fields):
    """give some of the fields names which are likely to meet variables of the generated code"""
    respell(r, fields)
    if r.random() >= p.names:
        return
    taken = {f.name for f in fields}
    for f in fields:
        if f.name.startswith("r#") or r.random() < 0.4:
            continue
        base = r.choice(sorted(x for x in taken if x != f.name and not x.startswith("r#") and x.count("_") < 2) or ["a"])
        new = r.choice(PLAIN) if r.random() < 0.5 else base + r.choice(DERIVED)
        if new not in taken and not (new == "variant_id" and any(x.capture for x in fields)):
            taken.discard(f.name)
            taken.add(new)
            f.name = new


def struct(r, p, name, pool=()):
    fields, bits = [], 0
    count = r.randint(1, p.max_fields)
    for i in range(count):
        for _ in range(8):
            f = any_field(r, p, field_name(r, p, i), pool)
            if bits + field_bits(f) <= p.max_bits:
                break
        else:
            break
        bits += field_bits(f)
        fields.append(f)
    if not fields:
        fields, bits = [Field("f0", "u8")], 8
    if r.random() < p.multiple8 and bits % 8:
        fields.append(Field("pad", "u8", length=8 - bits % 8, attrs=[f"bit_length = {8 - bits % 8}"]))
        bits += 8 - bits % 8
    withhold(r, p, fields)
    d, attrs = default_attr(r)
    s = Struct(name, fields, default=d, attrs=attrs)
    if r.random() < p.bits:
        explicit_bits(r, s, r.random() < p.shuffle)
    if r.random() < p.redundant:
        add_redundant(r, s)
    if r.random() < p.overlap:
        add_overlap(r, s)
    if r.random() < p.lsb0:
        s.lsb0 = True
        s.attrs.append('read_from = "lsb0"')
    elif r.random() < 0.2 and p.lsb0:
        s.attrs.append('read_from = "msb0"')
    if r.random() < p.reverse:
        s.reverse = True
        s.attrs.append("reverse")
    if r.random() < p.fill:
        total = ranges(s.fields)[1]
        s.fill = (total + 7) // 8 + r.randint(0, 3)
        s.attrs.append(f"fill_bytes = {s.fill}")
    s.attrs = [literal(r, a) for a in s.attrs]
    r.shuffle(s.attrs)
    rename(r, p, s.fields)
    return s


def put(f, a, n):
    """write the position of a field as a range"""
    f.start = a
    strip = [x for x in f.attrs if not x.startswith(("bit_length", "byte_length"))]
    if f.block:
        strip = [x for x in strip if not x.startswith("block_")]
        strip = [f'bits = "{a}..{a + n}"', f"block_bit_length = {n}"] + strip
    else:
        strip = [f'bits = "{a}..{a + n}"'] + strip
    if not isinstance(f.ty, Arr) or not f.block and f.elem_len is None:
        f.length = n
    f.attrs = strip


def explicit_bits(r, s, shuffle, at=0):
    """write some or all positions as explicit ranges, possibly declaring the fields in another order"""
    rs, _ = ranges(s.fields, at, at)
    some = 1.0 if shuffle else r.choice([0.3, 1.0])
    for f, a, n in rs:
        if not f.capture and r.random() < some:
            put(f, a, n)
    if shuffle and all(f.start is not None for f in s.fields if not f.capture):
        r.shuffle(s.fields)
        s.fields.sort(key=lambda f: not f.capture)      # which has to stay in front


def add_redundant(r, s, at=0):
    """a field which shares all its bits with other fields"""
    rs, total = ranges(s.fields, at, at)
    for k in range(r.randint(1, 2)):
        ty = r.choice(["u8", "u16", "u32", "i16", "u64", "bool"])
        n = min(WIDTH[ty], total - at)
        n = r.randint(1, n)
        i = r.randint(int(bool(s.fields) and s.fields[0].capture), len(s.fields))
        f = Field(f"rd{k}", ty, redundant=True, attrs=["redundant"])
        before = [(x, a, c) for x, a, c in rs if x in s.fields[:i] and not x.redundant and not x.capture]
        here = before[-1][1] + before[-1][2] if before else at
        if r.random() < 0.5 and here + 1 <= total and all(x.start is None for x in s.fields):
            n = min(n, total - here)
            if n < 1:
                continue
            f.length = n
            if ty != "bool":
                f.attrs.append(f"bit_length = {n}")
            else:
                f.length = 1
        else:
            if ty == "bool":
                n = 1
            a = r.randint(at, total - n)
            f.start, f.length = a, n
            f.attrs.append(f'bits = "{a}..{a + n}"')
        r.shuffle(f.attrs)
        s.fields.insert(i, f)
        rs, total = ranges(s.fields, at, at)


def add_overlap(r, s, at=0):
    """a field which shares its first bits with the fields before it, mostly behind all others"""
    if any(f.start is not None for f in s.fields):
        return
    first, shared = int(bool(s.fields) and s.fields[0].capture), at     # where the next may go, and how far back
    for name in ("ov", "ow")[:1 if r.random() < 0.85 else 2]:
        i = len(s.fields) if r.random() < 0.5 else r.randint(first, len(s.fields))
        before = [f for f in s.fields[:i] if not f.redundant and not f.capture]
        end = ranges(s.fields[:i], at, at)[1]
        if not before or end < shared + 2:
            continue
        ty = r.choice(["u8", "u16", "u32", "i16"])
        n = r.randint(2, WIDTH[ty])
        share = r.randint(1, min(n - 1, end - shared))
        a = end - share
        f = Field(name, ty, length=n, start=a, overlap=share,
                  attrs=[f'bits = "{a}..{a + n}"', f"overlapping_bits = {share}"])
        r.shuffle(f.attrs)
        s.fields.insert(i, f)
        first, shared = i + 1, end


VNAMES = ["Alpha", "Beta", "GammaRay", "Delta", "Echo", "FoxTrot", "Golf", "Hotel", "India", "JulietKilo"]


def enum(r, p, name, pool=(), id_bits=None, count=None):
    count = count or r.randint(1, 6)
    need = max(1, (count - 1).bit_length())
    if id_bits is None:
        id_bits = r.choice([need, need + 1, need + 2, 8, 8, 3, 5, 7, 9, 12, 16, 32, r.randint(1, 64), r.choice([17, 24, 33, 40, 64, 65, 100, 128])])
    id_bits = max(id_bits, need)
    d, attrs = default_attr(r)
    attrs.append(length_attr(r, id_bits, "id"))
    style = r.choice(["none", "variant_id", "disc", "mixed"]) if r.random() < p.explicit_ids else "none"
    limit = (1 << id_bits) - 1
    if style in ("disc", "mixed"):
        limit = min(limit, (1 << 30))
    ids = [None] * count
    if style != "none":
        if r.random() < 0.5:
            free = r.sample(range(0, min(limit, 400) + 1), count)
        else:
            seen = set()
            while len(seen) < count:
                seen.add(r.choice([0, 1, 2, limit, limit - 1, r.randint(0, limit)]))
            free = sorted(seen)
            r.shuffle(free)
        ids = [x if style != "mixed" or r.random() < 0.6 else None for x in free]
        if max(assign_ids(ids)) > limit:
            ids = [None] * count
    variants, kinds = [], []
    names = VNAMES + ["X" + chr(97 + i // 26) + chr(97 + i % 26) for i in range(len(VNAMES), count)]
    r.shuffle(names)
    inv = r.randrange(count) if r.random() < p.invalid else None
    for i in range(count):
        kind = pick(r, [("named", 1 - p.tuple), ("tuple", p.tuple), ("unit", 0.4)])
        fields = []
        if kind != "unit":
            for k in range(r.randint(1, min(4, p.max_fields))):
                f = any_field(r, p, field_name(r, p, k, "g"), pool)
                if field_bits(f) > p.max_bits // 2:
                    f = scalar_field(r, Profile(uint=1, int=0, bool=0, char=0, float=0), f"g{k}")
                fields.append(f)
        v = Variant(names[i], fields, kind)
        if ids[i] is not None:
            if style == "variant_id" or (style == "mixed" and r.random() < 0.5):
                v.variant_id = ids[i]
                v.attrs.append(f"variant_id = {ids[i]}")
            else:
                v.disc = ids[i]
        if r.random() < p.variant_endian:
            v.default = r.choice(["be", "le"])
            v.attrs.append(f'default_endianness = "{v.default}"')
        if i == inv:
            v.invalid = True
            v.attrs.append("invalid")
        r.shuffle(v.attrs)
        variants.append(v)
    if any(v.disc is not None for v in variants):
        # what rustc assigns to the other variants must not clash, so give all of them a discriminant or an attribute
        width = WIDTH[id_type(max(8, id_bits))] if p.capture or any(v.fields for v in variants) else 63
        if not rustc_accepts([v.disc for v in variants], 1 << width):
            for w in variants:
                if w.disc is not None:
                    w.variant_id, w.disc = w.disc, None
                    w.attrs.append(f"variant_id = {w.variant_id}")
    c = inv if inv is not None else count - 1
    if r.random() < p.capture:
        v = variants[c]
        if v.kind == "unit":
            v.kind = r.choice(["named", "tuple"])
        v.fields.insert(0, Field("gid", id_type(id_bits), capture=True, attrs=["capture_id"]))
    for v in variants:
        # a variant with an id of its own may ask for it as well
        if v is not variants[c] and v.kind != "unit" and r.random() < p.capture * 0.4:
            v.fields.insert(0, Field("vid", id_type(id_bits), capture=True, attrs=["capture_id"]))
    for v in variants:
        own = [f for f in v.fields if not f.capture]
        withhold(r, p, own)
        if own and r.random() < p.bits:
            explicit_bits(r, v, r.random() < p.shuffle, id_bits)
        if own and r.random() < p.redundant:
            add_redundant(r, v, id_bits)
        if own and r.random() < p.overlap:
            add_overlap(r, v, id_bits)
    for v in variants:
        if r.random() < p.variant_fill:
            total = ranges(v.fields, id_bits, id_bits)[1]
            v.fill = (total + 7) // 8 + r.randint(0, 2)
            v.attrs.append(f"fill_bytes = {v.fill}")
            r.shuffle(v.attrs)
    for v in variants:
        respell(r, v.fields)
        v.attrs = [literal(r, a) for a in v.attrs]
        v.attrs = [f'default_endianness = "{r.choice(SPELL[v.default])}"' if a.startswith("default_e") else a for a in v.attrs]
        if v.kind == "named":
            rename(r, p, v.fields)
    e = Enum(name, id_bits, variants, default=d, attrs=attrs)
    if r.random() < p.reverse:
        e.reverse = True
        e.attrs.append("reverse")
    if r.random() < p.lsb0:
        e.lsb0 = True
        e.attrs.append('read_from = "lsb0"')
    elif r.random() < 0.2 and p.lsb0:
        e.attrs.append('read_from = "msb0"')
    r.shuffle(e.attrs)
    for v in variants:
        if r.random() < p.variant_lsb0:
            v.lsb0 = r.random() < 0.6
            v.attrs.append(f'read_from = "{"lsb0" if v.lsb0 else "msb0"}"')
            r.shuffle(v.attrs)
        if r.random() < p.variant_reverse:
            reverse_variant(r, e, v)
    x = r.random()
    if x < 0.3:
        lay = layout(e)
        bits = lay["bits"]
        total = f"enforce_bytes = {bits // 8}" if bits % 8 == 0 and r.random() < 0.5 else f"enforce_bits = {bits}"
        if x < 0.2:
            e.attrs.append(total)
        payload = bits - id_bits
        if x > 0.15 and payload:
            e.attrs.append(f"payload_byte_length = {payload // 8}" if payload % 8 == 0 and r.random() < 0.5
                           else f"payload_bit_length = {payload}")
            if x < 0.2 and r.random() < 0.7:
                # the id is what the payload leaves
                e.attrs = [a for a in e.attrs if not a.startswith("id_")]
        r.shuffle(e.attrs)
    e.attrs = [literal(r, a) for a in e.attrs]
    return e


def reversed_onto_id(e, v):
    """the fields of a variant which turning the bytes of that variant around puts on bits of the id"""
    rs, n = ranges(v.fields, e.id_bits, e.id_bits)[0], layout(e)["bytes"]
    size = layout(e)["bits"]
    first = variant_start(e, None, size, 0, e.id_bits)
    ids = set(range(first, first + e.id_bits))
    out = []
    for f, s, k in rs:
        at = variant_start(e, v, size, s, k)
        if not f.capture and any((n - 1 - p // 8) * 8 + p % 8 in ids for p in range(at, at + k)):
            out.append(f)
    return out


def reverse_variant(r, e, v):
    """turn the bytes of one variant around, where its fields stay clear of the id"""
    clear = e.reverse or not reversed_onto_id(e, v)
    e._lay = None
    if clear:
        v.reverse = True
        v.attrs.append("reverse")
        r.shuffle(v.attrs)


def rustc_accepts(discs, limit=256):
    """rustc gives a variant without discriminant the one of its predecessor plus one, and wants them to differ"""
    seen, nxt = set(), 0
    for x in discs:
        nxt = nxt if x is None else x
        if nxt in seen or nxt >= limit:
            return False
        seen.add(nxt)
        nxt += 1
    return True


def prim_enum(r, name, count=None, catch=None, eq=None):
    while True:
        e = _prim_enum(r, name, count, catch, eq)
        if e is not None:
            return e


def _prim_enum(r, name, count, catch, eq):
    count = count or r.randint(1, 8)
    names = VNAMES[:] + ["Kilo", "Lima", "Mike", "November", "Oscar", "Papa", "Quebec", "Romeo", "Sierra", "Tango",
                         "Uniform", "Victor", "Whiskey", "Xray", "Yankee", "Zulu"]
    names += [f"V{i}" for i in range(len(names), count)]
    r.shuffle(names)
    catch = catch or r.choice(["last", "invalid", "value", "value_named", "value_middle"])
    lits = r.choice([0, 0, 0.3, 0.6, 1.0])
    used = set()
    vs = []
    for i in range(count):
        lit = None
        if r.random() < lits:
            lit = r.choice([0, 1, 2, 255, 254, r.randint(0, 255), r.randint(0, 12)])
            if lit in used:
                lit = None
            else:
                used.add(lit)
        vs.append([names[i], lit, "unit", False])
    if catch == "invalid":
        k = r.randrange(count)
        vs[k][3] = True
        # what an `invalid` variant in the middle is worth if some other variant has a literal is not documented
        if vs[k][1] is None and used:
            return None
    if catch.startswith("value"):
        i = count - 1 if catch != "value_middle" else r.randrange(count)
        vs[i][1], vs[i][2] = None, r.choice(["tuple", "named"]) if catch == "value_middle" else \
            "named" if catch == "value_named" else "tuple"
        if i != count - 1 and any(v[1] is not None for v in vs):
            return None
    if not rustc_accepts([v[1] for v in vs]):
        return None
    eq = r.random() < 0.5 if eq is None else eq
    options = (["partial_eq"] if eq else []) + (["u8"] if r.random() < 0.5 else [])
    r.shuffle(options)
    return PrimEnum(name, [tuple(v) for v in vs], eq, options)

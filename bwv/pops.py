"""Populations: which declarations a property is monitored on.

A population is a list of groups; a group is a list of declarations which are compiled together, in order, the last of
which (or all of them, see `all_subjects`) is driven by the monitors.  All randomness comes from the Random passed in.

Decks enumerate (type, length, bit offset, byte order) combinations and pack them densely into structures, so that
every combination of the deck really occurs; random groups add everything the decks do not combine.
"""
from . import gen
from .gen import Profile, UINTS, INTS
from .model import *

MODES = [(False, False), (True, False), (False, True), (True, True)]   # (reverse, lsb0)


def sample(r, xs, n):
    xs = list(xs)
    r.shuffle(xs)
    return xs if n is None else xs[:n]


# ---- decks -----------------------------------------------------------------------------------------------------

def int_combos(types, endians=("be", "le")):
    return [(t, n, o, e) for t in types for n in range(1, WIDTH[t] + 1) for o in range(8) for e in endians]


def other_combos():
    out = [("char", n, o, e) for n in range(1, 33) for o in range(8) for e in ("be", "le")]
    out += [(t, WIDTH[t], o, e) for t in ("f32", "f64") for o in range(8) for e in ("be", "le")]
    out += [("bool", 1, o, "be") for o in range(8)]
    return out


def signs(r, combos):
    """make half of the numbers signed"""
    return [("i" + c[0][1:] if c[0][0] == "u" and r.random() < 0.5 else c[0],) + c[1:] for c in combos]


def pack(r, combos, prefix, reverse=False, lsb0=False, max_bits=360, max_fields=14, make=None, default=None):
    """structures in which field k of some structure realises combination k, at its bit offset modulo 8.
    combination: (type, bits, offset, endianness, ...)"""
    left = [[] for _ in range(8)]
    for c in combos:
        left[c[2]].append(c)
    for x in left:
        r.shuffle(x)
    out = []
    while any(left):
        fields, at = [], 0
        d = default or r.choice(["be", "le"])
        while any(left) and len(fields) < max_fields and at < max_bits:
            gap = next(g for g in range(8) if left[(at + g) % 8])
            if gap:
                fields.append(Field(f"p{len(fields)}", "u8", length=gap, attrs=[f"bit_length = {gap}"]))
                at += gap
                continue
            c = left[at % 8].pop()
            f = make(f"f{len(fields)}", c) if make else number(r, f"f{len(fields)}", c, d)
            fields.append(f)
            at += field_bits(f)
        if at % 8 and r.random() < 0.5:
            n = 8 - at % 8
            fields.append(Field(f"p{len(fields)}", "u8", length=n, attrs=[f"bit_length = {n}"]))
        attrs = [f'default_endianness = "{d}"']
        if lsb0:
            attrs.append('read_from = "lsb0"')
        if reverse:
            attrs.append("reverse")
        r.shuffle(attrs)
        s = Struct(f"{prefix}{len(out)}", fields, default=d, lsb0=lsb0, reverse=reverse, attrs=attrs)
        out.append([s])
    return out


def number(r, name, c, default):
    ty, n, _, e = c[:4]
    f = Field(name, ty, length=None if n == WIDTH[ty] else n)
    if f.length:
        f.attrs.append(gen.length_attr(r, n))
    if ty != "bool" and (e != default or r.random() < 0.2):
        f.endian = e
        f.attrs.append(f'endianness = "{e}"')
        r.shuffle(f.attrs)
    return f


def with_default(f, default, e, r):
    if e != default or r.random() < 0.2:
        f.endian = e
        f.attrs.append(f'endianness = "{e}"')
        r.shuffle(f.attrs)


def array_combos(types, counts=(1, 2, 3)):
    """(type, element or first-element bits, offset, endianness, count, block?)"""
    out = []
    for t in types:
        for n in range(1, WIDTH[t] + 1):
            for o in range(8):
                for e in ("be", "le"):
                    for k in counts:
                        out.append((t, n, o, e, k, False))
                        if k > 1 or n == WIDTH[t]:
                            out.append((t, n, o, e, k, True))
    return out


def array_pack(r, combos, prefix, **kw):
    def make_with(default):
        def make(name, c):
            ty, n, _, e, k, block = c
            f = Field(name, Arr(ty, k))
            if block:
                f.block, f.length = True, WIDTH[ty] * (k - 1) + n
                f.attrs.append(gen.length_attr(r, f.length, "block"))
            else:
                f.elem_len = n
                f.attrs.append(gen.length_attr(r, n, "element"))
            with_default(f, default, e, r)
            return f
        return make
    d = r.choice(["be", "le"])
    return pack(r, combos, prefix, make=make_with(d), default=d, **kw)


def sub_structs(r, prefix, bits_list, profile=None):
    """one structure or enum for each number of bits"""
    out = []
    for i, bits in enumerate(bits_list):
        rev, lsb = r.choice(MODES)
        fields, left = [], bits
        while left:
            w = r.choice([8, 16, 32])
            n = min(left, r.randint(1, w))
            ty = r.choice(["u", "i"]) + str(w)
            if n == 1 and r.random() < 0.4:
                ty = "bool"
            f = Field(f"s{len(fields)}", ty, length=None if n == WIDTH[ty] else n)
            if f.length:
                f.attrs.append(f"bit_length = {n}")
            fields.append(f)
            left -= n
        d = r.choice(["be", "le"])
        attrs = [f'default_endianness = "{d}"']
        if lsb:
            attrs.append('read_from = "lsb0"')
        if rev:
            attrs.append("reverse")
        out.append(Struct(f"{prefix}{i}", fields, default=d, lsb0=lsb, reverse=rev, attrs=attrs))
    return out


def nested_pack(r, subs, combos, prefix, **kw):
    """combos: (index into subs, "exact" or "full", offset)"""
    def make(name, c):
        t = subs[c[0]]
        lay = layout(t)
        f = Field(name, t)
        if c[1] == "exact":
            f.length = lay["bits"]
            f.attrs.append(f"bit_length = {f.length}")
            if r.random() < 0.5:
                f.attrs.append(f"struct_size = {lay['bytes']}")
            r.shuffle(f.attrs)
        else:
            f.attrs.append(f"struct_size = {lay['bytes']}")
        return f
    return pack(r, combos, prefix, make=make, max_fields=10, max_bits=240, **kw)


# ---- random groups ---------------------------------------------------------------------------------------------

def structs(r, p, prefix, count):
    return [[gen.struct(r, p, f"{prefix}{i}")] for i in range(count)]


def enums(r, p, prefix, count, ids=None):
    return [[gen.enum(r, p, f"{prefix}{i}", id_bits=ids[i % len(ids)] if ids else None)] for i in range(count)]


def prims(r, prefix, count, **kw):
    return [[gen.prim_enum(r, f"{prefix}{i}", **kw)] for i in range(count)]


def nests(r, p, prefix, count, deep=True):
    """structures and enums whose fields are structures, enums and BitfieldEnum enums, up to three levels deep"""
    out = []
    # writing a value of a type whose fields share bits is only defined when they agree
    flat = Profile(**{**p.__dict__, "nested": 0, "max_bits": 48, "max_fields": 4, "overlap": 0})
    for i in range(count):
        n = f"{prefix}{i}"
        pool = [gen.struct(r, flat, n + "a"), gen.enum(r, flat, n + "b"), gen.prim_enum(r, n + "c")]
        pool = [x for x in pool if isinstance(x, PrimEnum) or layout(x)["bytes"] <= 8] or \
            [Struct(n + "d", [Field("x", "u8")])]
        group = list(pool)
        if deep and r.random() < 0.4:
            mid = gen.struct(r, Profile(**{**p.__dict__, "nested": 12, "max_bits": 80, "max_fields": 4, "overlap": 0}), n + "m", pool)
            group.append(mid)
            if layout(mid)["bytes"] <= 12:
                pool = pool + [mid, mid]
        make = gen.enum if r.random() < 0.35 else gen.struct
        group.append(make(r, p, n + "t", pool))
        out.append(group)
    return out


ALL_IDS = list(range(1, 33)) + [33, 39, 40, 41, 48, 56, 57, 63, 64, 65, 72, 73, 96, 100, 104, 120, 121, 127, 128]


def id_deck(r, p, prefix, ids, modes=MODES):
    """enums for each id length, in each mode"""
    out = []
    for bits in ids:
        rev, lsb = modes if isinstance(modes, tuple) else r.choice(modes)
        q = Profile(**{**p.__dict__, "reverse": 1.0 if rev else 0.0, "lsb0": 1.0 if lsb else 0.0})
        out.append([gen.enum(r, q, f"{prefix}{len(out)}", id_bits=bits)])
    return out


def long_array(r, name, elem, count, d):
    f = Field(name, Arr(elem, count))
    if isinstance(elem, PrimEnum):
        n, w = r.randint(max(1, max(layout(elem)["values"]).bit_length()), 8), 8
        f.attrs.append('enum_primitive = "u8"')
    elif isinstance(elem, str):
        n, w = 1 if elem == "bool" else gen.int_len(r, WIDTH[elem], 0.3), WIDTH[elem]
        if elem != "bool":
            with_default(f, d, r.choice(["be", "le", d, d]), r)
    else:
        n, w = layout(elem)["bits"], 8 * layout(elem)["bytes"]
        f.attrs.append(f"struct_size = {w // 8}")
    if r.random() < 0.4:
        f.block, f.length = True, w * (count - 1) + n
        f.attrs.append(gen.length_attr(r, f.length, "block"))
    elif n != w or r.random() < 0.5:
        f.elem_len = n
        f.attrs.append(gen.length_attr(r, n, "element"))
    r.shuffle(f.attrs)
    return f


SPREAD = [1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 40, 64, 100, 128, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]
HUGE = [4096, 8191, 8192, 8193]


def scatter(r, p, fields, at, total, pool=()):
    """put the fields anywhere between two bits, with gaps between them and often next to a round number"""
    taken, kept = [], []
    marks = [at, total] + [m for m in (8 << k for k in range(20)) if at < m < total]
    for f in fields:
        n = gen.field_bits(f)
        for _ in range(20):
            x = r.random()
            a = r.randint(at, max(at, total - n)) if x < 0.4 else r.choice(marks) - r.randint(0, n) if x < 0.8 else \
                r.choice([b for _, b in taken] or [at])
            if at <= a and a + n <= total and all(a + n <= x or y <= a for x, y in taken):
                taken.append((a, a + n))
                gen.put(f, a, n)
                kept.append(f)
                break
    return kept


def sparse(r, prefix, count, p=None, huge=0, pool=()):
    """types with gaps: fields at positions of their own choice in a buffer which is much larger than they need"""
    out = []
    for i in range(count + huge):
        size = r.choice(HUGE if i >= count else SPREAD)
        q = p or Profile(array=3)
        rev, lsb = r.choice(MODES)
        d = r.choice(["be", "le"])
        attrs = [f'default_endianness = "{d}"'] + (['read_from = "lsb0"'] if lsb else []) + (["reverse"] if rev else [])

        def fields(letter, at):
            made = [gen.any_field(r, q, f"{letter}{j}", pool) for j in range(r.randint(1, 5))]
            made = scatter(r, q, made, at, 8 * size)
            gen.withhold(r, q, made)
            return made
        if r.random() < 0.7 or size < 3:
            own = fields("f", 0)
            if not own:
                own = [Field("f0", "u8")]
            s = Struct(f"{prefix}{i}", own, default=d, lsb0=lsb, reverse=rev, fill=size, attrs=attrs + [f"fill_bytes = {size}"])
            gen.rename(r, q, s.fields)
            r.shuffle(s.attrs)
            out.append([s])
        else:
            bits = r.choice([2, 8, 9, 11, 16])
            vs = [Variant(v, fields("g", bits), "named") for v in ("Here", "There")]
            for v in vs:
                if v.fields and r.random() < 0.8:
                    v.fill = size
                    v.attrs.append(f"fill_bytes = {size}")
                elif v.fields:
                    v.fields = []
            vs = [v if v.fields else Variant(v.name, [], "unit") for v in vs] + [Variant("Full", [Field("g0", "u8")], "named", fill=size, attrs=[f"fill_bytes = {size}"])]
            r.shuffle(vs)
            out.append([Enum(f"{prefix}{i}", bits, vs, default=d, lsb0=lsb, reverse=rev, attrs=attrs + [f"id_bit_length = {bits}"])])
    return out


def large(r, prefix, count):
    """types of many bytes: long arrays, many fields, large nested types and arrays of them, variants of very
    different sizes"""
    out = []
    small = Profile(max_fields=3, max_bits=60, bool=2, char=1)
    for i in range(count):
        rev, lsb = r.choice(MODES)
        d = r.choice(["be", "le"])
        n = f"{prefix}{i}"
        attrs = [f'default_endianness = "{d}"'] + (['read_from = "lsb0"'] if lsb else []) + (["reverse"] if rev else [])
        edge = gen.struct(r, small, n + "x").fields, gen.struct(r, small, n + "y").fields
        for j, f in enumerate(edge[0] + edge[1]):
            f.name = f"e{j}"
            if f.endian is None and f.ty != "bool":
                f.attrs.append(f'endianness = "{d}"')
                f.endian = d
        kind = i % 5
        group = []
        if kind == 0:
            elem = r.choice(["u8", "u8", "i8", "u16", "i16", "u32", "char", "bool"])
            counts = [8, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100]
            if WIDTH.get(elem, 1) <= 8:
                counts += [255, 256, 257, 300]
            mid = [long_array(r, "long", elem, r.choice(counts), d)]
        elif kind == 1:
            mid = [gen.scalar_field(r, Profile(), f"m{j}") for j in range(r.randint(20, 50))]
            for f in mid:
                if f.endian is None and f.ty != "bool":
                    f.attrs.append(f'endianness = "{d}"')
                    f.endian = d
        elif kind == 2:
            sub = gen.struct(r, Profile(max_fields=5, max_bits=70, reverse=0.3, lsb0=0.3, array=2), n + "a")
            group.append(sub)
            mid = [long_array(r, "long", sub, r.randint(4, 12), d)]
        elif kind == 3:
            sub = gen.struct(r, Profile(max_fields=25, max_bits=900, reverse=0.3, lsb0=0.3, array=3, uint=5, multiple8=0.4), n + "a")
            group.append(sub)
            f = Field("large", sub, attrs=[f"struct_size = {layout(sub)['bytes']}"])
            if r.random() < 0.6:
                f.length = layout(sub)["bits"]
                f.attrs.append(f"bit_length = {f.length}")
            mid = [f]
        else:
            prim = gen.prim_enum(r, n + "a")
            group.append(prim)
            mid = [long_array(r, "long", prim, r.randint(9, 40), d)]
        fields = edge[0] + mid + edge[1]
        if r.random() < 0.3:
            bits = r.choice([2, 8, 11, 16])
            own = Struct(n + "z", fields, default=d, attrs=[])
            other = Variant("Short", [Field("g0", "u8")], "named")
            group.append(Enum(n, bits, [other, Variant("Tall", own.fields, "named"), Variant("Rest", [], "unit")], default=d,
                              lsb0=lsb, reverse=rev, attrs=attrs + [f"id_bit_length = {bits}"]))
        else:
            group.append(Struct(n, fields, default=d, lsb0=lsb, reverse=rev, attrs=attrs))
        out.append(group)
    return out

"""Which populations, monitors and glue decide each property."""
import os
from .gen import Profile
from .model import *
from .pops import *

FULL = ("dyn_fns", "hex_fns")


class Job:
    """one build: groups of declarations, and the monitors run on them"""

    def __init__(self, name, monitor, groups, glue="", features=(), n=20, everything=False, apart=False, target=None):
        self.apart, self.target = apart, target
        self.name, self.monitor, self.groups, self.n = name, monitor, groups, n
        self.glue, self.features, self.everything = set(glue.split()), set(features), everything


def everywhere(r, g, n):
    """what holds for the plain functions holds through slices, views, vectors and ids"""
    return Job("z", "history+owned", sample(r, [x for x in g if isinstance(x[-1], (Struct, Enum))], n), "acc slice view dyn id", FULL, n=40)


MIXED = dict(reverse=0.3, variant_reverse=0.15, variant_lsb0=0.2, lsb0=0.3, bits=0.25, shuffle=0.5, fill=0.15, array=4)
NESTED = dict(reverse=0.3, variant_reverse=0.1, variant_lsb0=0.15, lsb0=0.3, array=4, nested=10, variant_fill=0.1)


def c01(r, k):
    p = Profile(**MIXED)
    return [Job("a", "roundtrip",
                structs(r, p, "S", 130 * k) + enums(r, p, "E", 60 * k) + nests(r, Profile(**NESTED), "N", 40 * k)
                + prims(r, "P", 30 * k) + large(r, "L", 10 * k) + sparse(r, "Z", 30 * k, huge=1) + pack(r, sample(r, signs(r, int_combos(UINTS[:4])), 700 * k), "D"), n=60)]


def c02(r, k):
    combos = int_combos(UINTS[:4]) + int_combos(INTS[:4])
    combos += signs(r, int_combos(["u128"])) + sample(r, other_combos(), 200 * k)
    return [Job("a", "layout", pack(r, combos, "D") + structs(r, Profile(full=0.4), "S", 40 * k)
                + structs(r, Profile(array=14), "A", 20 * k) + large(r, "L", 10 * k)
                + sparse(r, "Z", 30 * k, huge=2), n=16)]


def c03(r, k):
    g = []
    for i, (rev, lsb) in enumerate(MODES[1:]):
        combos = signs(r, int_combos(UINTS)) + sample(r, other_combos(), 160 * k)
        g += pack(r, combos, f"D{i}x", reverse=rev, lsb0=lsb)
    g += structs(r, Profile(reverse=0.5, lsb0=0.5, bits=0.7, shuffle=0.7, fill=0.2, array=3), "S", 80 * k)
    g += enums(r, Profile(reverse=0.6, lsb0=0.6, array=2, variant_fill=0.1, variant_reverse=0.3, variant_lsb0=0.3), "E", 50 * k)
    return [Job("a", "layout", g + large(r, "L", 10 * k) + sparse(r, "Z", 30 * k, huge=2), n=16), everywhere(r, g, 24 * k)]


def access(r, k, extra):
    """what both C04 and C05 look at"""
    g = pack(r, signs(r, int_combos(UINTS)) + sample(r, other_combos(), 160 * k), "D")
    for i, (rev, lsb) in enumerate(MODES[1:]):
        g += pack(r, sample(r, signs(r, int_combos(UINTS)), 1000 * k), f"D{i}x", reverse=rev, lsb0=lsb)
    p = Profile(**{**MIXED, **extra})
    return g + structs(r, p, "S", 60 * k) + enums(r, p, "E", 30 * k) + nests(r, Profile(**{**NESTED, **extra}), "N", 20 * k) \
        + large(r, "L", 10 * k) + sparse(r, "Z", 20 * k, huge=1)


def c04(r, k):
    g = access(r, k, dict(reserve=0.06, read_only=0.06, redundant=0.1))
    return [Job("a", "read", g, "acc", n=16), everywhere(r, g, 20 * k)]


def c05(r, k):
    g = access(r, k, dict(redundant=0.1, overlap=0.1))
    return [Job("a", "write", g, "acc", n=12), everywhere(r, g, 20 * k)]


def c06(r, k):
    p = Profile(full=0.1, **MIXED)
    z = large(r, "L", 10 * k) + sparse(r, "Z", 20 * k, p=Profile(array=3, full=0.1), huge=1)
    short = [c for c in signs(r, int_combos(UINTS)) if c[1] != WIDTH[c[0]]]
    g = pack(r, short, "D") + structs(r, p, "S", 60 * k) + enums(r, p, "E", 40 * k)
    for i, (rev, lsb) in enumerate(MODES[1:]):
        g += pack(r, sample(r, short, 1000 * k), f"D{i}x", reverse=rev, lsb0=lsb)
    return [Job("a", "trunc", g + z, "acc", n=16), everywhere(r, g, 24 * k)]


def c07(r, k):
    g = pack(r, int_combos(INTS), "D")
    for i, (rev, lsb) in enumerate(MODES[1:]):
        g += pack(r, sample(r, int_combos(INTS), 1000 * k), f"D{i}x", reverse=rev, lsb0=lsb)
    g += array_pack(r, sample(r, array_combos(INTS[:4]), 150 * k), "A")
    g += array_pack(r, sample(r, array_combos(INTS[:4]), 60 * k), "B", reverse=True)
    g += enums(r, Profile(uint=0.5, int=10, bool=0.2, char=0, float=0, reverse=0.3, lsb0=0.3), "E", 30 * k)
    g += sparse(r, "Z", 20 * k, p=Profile(uint=1, int=10, array=2, char=0, float=0), huge=1)
    return [Job("a", "sign", g, "acc", n=6), everywhere(r, g, 24 * k)]


def c08(r, k):
    x = dict(reserve=0.06, read_only=0.06, redundant=0.1, overlap=0.1)
    p = Profile(char=8, **{**MIXED, **x})
    g = structs(r, p, "S", 80 * k) + enums(r, p, "E", 50 * k) + nests(r, Profile(char=6, **{**NESTED, **x}), "N", 40 * k)
    g += prims(r, "P", 10 * k)
    g += pack(r, sample(r, other_combos() + signs(r, int_combos(UINTS)), 250 * k), "D")
    g += large(r, "L", 10 * k) + sparse(r, "Z", 20 * k, p=Profile(array=3, char=6), huge=1)
    return [Job("a", "total", g, "acc", n=40), everywhere(r, g, 24 * k)]


def c09(r, k):
    p = Profile(uint=10, int=3, array=1, max_fields=3, max_bits=120, tuple=0.4)
    g = id_deck(r, p, "I", ALL_IDS) + id_deck(r, p, "J", ALL_IDS[:24] * k) + enums(r, Profile(**{**MIXED, "array": 1, "variant_fill": 0.15}), "E", 80 * k)
    few = Profile(uint=10, int=3, max_fields=1, max_bits=40, tuple=0.3, explicit_ids=0.5)
    for i in range(k):
        g += [[gen.enum(r, few, f"M{i}x{n}", count=n)] for n in (16, 17, 31, 33, 64, 100, 128, 129)]
        g += [[gen.enum(r, few, f"M{i}y{n}", count=n, id_bits=(n - 1).bit_length())] for n in (32, 33, 65, 128, 256)]
    return [Job("a", "ids", g, "id slice", FULL, n=24), everywhere(r, g, 30 * k)]


def c10(r, k):
    p = Profile(reverse=0.35, lsb0=0.35, array=3, variant_fill=0.25, variant_endian=0.3, variant_reverse=0.3, variant_lsb0=0.3, max_fields=4,
                capture=0.5)
    g = enums(r, p, "E", 120 * k) + id_deck(r, p, "I", ALL_IDS)
    g += nests(r, Profile(**{**NESTED, "capture": 0.5}), "N", 15 * k)
    g += [x for x in sparse(r, "Z", 60 * k, huge=2) if isinstance(x[-1], Enum)]
    return [Job("a", "payload", g, "acc id", FULL, n=24), everywhere(r, g, 40 * k)]


def c11(r, k):
    g = []
    for i, c in enumerate(["last", "invalid", "value", "value_named", "value_middle"]):
        g += prims(r, f"P{i}x", 45 * k, catch=c)
        g += [[gen.prim_enum(r, f"Q{i}x{n}", count=n, catch=c)] for n in (1, 2, 15, 20, 100, 254, 255, 256)
              if not (n == 1 and c == "value_middle")]
    h = nests(r, Profile(**{**NESTED, "nested": 14}), "N", 24 * k)
    return [Job("a", "prim", g, n=4), Job("b", "read+write", h, "acc", n=12), everywhere(r, h, 12 * k)]


def c12(r, k):
    g = array_pack(r, sample(r, array_combos(UINTS[:4] + INTS[:4]), 700 * k), "A")
    for i, (rev, lsb) in enumerate(MODES[1:]):
        g += array_pack(r, sample(r, array_combos(UINTS[:4] + INTS[:3]), 130 * k), f"A{i}x", reverse=rev, lsb0=lsb)
    p = Profile(array=30, float=4, char=4, bool=4, reverse=0.3, lsb0=0.3, bits=0.2, shuffle=0.4)
    g += structs(r, p, "S", 70 * k) + enums(r, p, "E", 20 * k)
    g += nests(r, Profile(array=20, nested=4, reverse=0.3, lsb0=0.3), "N", 40 * k) + large(r, "L", 20 * k)
    g += sparse(r, "Z", 20 * k, p=Profile(array=20), huge=1)
    return [Job("a", "array+read+write", g, "acc", n=10), everywhere(r, g, 24 * k)]


def c13(r, k):
    g = []
    for i, (rev, lsb) in enumerate(MODES):
        subs = sub_structs(r, f"U{i}x", [*range(1, 25), 31, 32, 33, 39, 40, 41, 47, 63, 64, 65])
        combos = [(j, form, o) for j in range(len(subs)) for form in ("exact", "full") for o in range(8)
                  if form == "exact" or layout(subs[j])["bits"] % 8]
        packed = nested_pack(r, subs, sample(r, combos, 110 * k), f"D{i}x", reverse=rev, lsb0=lsb)
        for s, in packed:
            need = []
            for f in s.fields:
                if not isinstance(f.ty, str) and f.ty not in need:
                    need.append(f.ty)
            g.append(need + [s])
    g += nests(r, Profile(**{**NESTED, "nested": 16}), "N", 60 * k) + large(r, "L", 10 * k)
    return [Job("a", "layout+read+write", g, "acc", n=10), everywhere(r, g, 20 * k)]


def c14(r, k):
    g = structs(r, Profile(reserve=0.3, read_only=0.15, reverse=0.2, lsb0=0.2, array=2), "R", 60 * k)
    g += structs(r, Profile(redundant=1.0, reserve=0.1, reverse=0.3, lsb0=0.3, bits=0.3, shuffle=0.5), "X", 60 * k)
    g += structs(r, Profile(overlap=1.0, read_only=0.1, reverse=0.3, lsb0=0.3), "O", 60 * k)
    g += enums(r, Profile(reserve=0.25, read_only=0.15, redundant=0.3, overlap=0.2, reverse=0.3, lsb0=0.3, bits=0.2,
                          shuffle=0.5, array=2), "E", 60 * k)
    g += nests(r, Profile(**{**NESTED, "reserve": 0.15, "read_only": 0.1, "redundant": 0.2}), "N", 20 * k)
    g += sparse(r, "Z", 20 * k, p=Profile(array=2, reserve=0.25, read_only=0.2), huge=1)
    return [Job("a", "layout+read+write+owned", g, "acc dyn", FULL, n=14)]


def c15(r, k):
    p = Profile(reverse=0.3, lsb0=0.3, fill=0.6, variant_fill=0.4, array=2, bits=0.2, shuffle=0.4, redundant=0.1, overlap=0.1)
    g = structs(r, p, "S", 110 * k) + enums(r, p, "E", 60 * k) + nests(r, Profile(**{**NESTED, "fill": 0.4}), "N", 30 * k)
    g += sparse(r, "Z", 50 * k, huge=2) + large(r, "L", 10 * k)
    return [Job("a", "sizes+layout", g, n=16), everywhere(r, g, 20 * k)]


def slices(r, k):
    x = dict(reserve=0.05, read_only=0.05, redundant=0.1, overlap=0.05)
    p = Profile(**{**MIXED, **x})
    g = structs(r, p, "S", 50 * k) + enums(r, p, "E", 26 * k) + nests(r, Profile(**{**NESTED, **x}), "N", 16 * k) + large(r, "L", 10 * k) \
        + sparse(r, "Z", 10 * k, huge=1)
    for i, (rev, lsb) in enumerate(MODES):
        g += pack(r, sample(r, signs(r, int_combos(UINTS)) + other_combos(), 90 * k), f"D{i}x", reverse=rev, lsb0=lsb)
    return g


def c17(r, k):
    return [Job("a", "slice", slices(r, k), "acc slice id", FULL, n=10)]


def c18(r, k):
    return [Job("a", "view", slices(r, k), "acc view dyn", FULL, n=8)]


def c19(r, k):
    x = dict(reserve=0.1, read_only=0.05, redundant=0.1, overlap=0.05)
    p = Profile(**{**MIXED, **x})
    g = structs(r, p, "S", 110 * k) + enums(r, p, "E", 60 * k) + nests(r, Profile(**{**NESTED, **x}), "N", 40 * k)
    g += pack(r, sample(r, signs(r, int_combos(UINTS)) + other_combos(), 300 * k), "D") + large(r, "L", 10 * k)
    g += sparse(r, "Z", 20 * k, huge=1)
    return [Job("a", "owned", g, "dyn", FULL, n=20)]


def hexes(r, k):
    p = Profile(**MIXED)
    return structs(r, p, "S", 90 * k) + enums(r, p, "E", 50 * k) + nests(r, Profile(**NESTED), "N", 30 * k) \
        + structs(r, Profile(max_fields=1), "T", 10 * k) + structs(r, Profile(max_fields=40, max_bits=2400), "L", 8 * k) \
        + large(r, "G", 10 * k) + sizes(r, "B", k)


def sizes(r, prefix, k):
    """types of all interesting numbers of bytes, each twice (the jobs take every second one)"""
    out = []
    for i, n in enumerate([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 200, 255, 256,
                           257, 300] * k):
        for j in "ab":
            rev, lsb = r.choice(MODES)
            d = r.choice(["be", "le"])
            attrs = [f'default_endianness = "{d}"'] + (['read_from = "lsb0"'] if lsb else []) + (["reverse"] if rev else [])
            out.append([Struct(f"{prefix}{i}{j}", [Field("long", Arr("u8", n))], default=d, lsb0=lsb,
                               reverse=rev, attrs=attrs)])
    return out


def c20(r, k):
    g = hexes(r, k)
    return [Job("a", "hex", g[::2], "hex", ("hex_fns",), n=16), Job("b", "hex", g[1::2], "hex hexdyn", FULL, n=16)]


def c21(r, k):
    g = hexes(r, k)
    return [Job("a", "hexerr", g[::2], "hex", ("hex_fns",), n=16), Job("b", "hexerr", g[1::2], "hex hexdyn", FULL, n=16)]


def c22(r, k):
    p = Profile(reverse=0.3, lsb0=0.3, max_fields=2, max_bits=60, capture=0.5, explicit_ids=0.6)
    g = id_deck(r, p, "I", ALL_IDS) + enums(r, p, "E", 70 * k)
    p2 = prims(r, "P", 60 * k, eq=True)
    return [Job("a", "ideq+prim", g[::2] + p2[::2], "id eq", (), n=10),
            Job("b", "ideq+prim", g[1::2] + p2[1::2], "id eq", FULL, n=10)]


def c23(r, k):
    x = dict(read_only=0.04, redundant=0.15, overlap=0.1)
    g = structs(r, Profile(max_fields=14, max_bits=240, **{**MIXED, **x}), "S", 36 * k) \
        + enums(r, Profile(**{**MIXED, **x}), "E", 20 * k) + nests(r, Profile(**{**NESTED, **x}), "N", 14 * k)
    g += large(r, "L", 10 * k) + sparse(r, "Z", 10 * k, huge=1)
    return [Job("a", "history", g, "acc slice view dyn id", FULL, n=160)]


MACHINES = ["powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"]


def c26(r, k):
    """powerpc has the other byte order and the other pointer width; the thorough tier goes round the machines"""
    x = dict(redundant=0.1, overlap=0.1)
    p = Profile(**{**MIXED, **x})
    g = structs(r, p, "S", 6 * k) + enums(r, p, "E", 6 * k) + nests(r, Profile(**{**NESTED, **x}), "N", 5 * k)
    g += prims(r, "P", k) + id_deck(r, Profile(uint=10, int=3, array=1, max_fields=2, max_bits=60), "I", sample(r, ALL_IDS, 4 * k))
    for i, (rev, lsb) in enumerate(MODES):
        g += pack(r, sample(r, signs(r, int_combos(UINTS)) + other_combos(), 16 * k), f"D{i}x", reverse=rev, lsb0=lsb)
    return [Job("a", "replay", g, "acc slice view dyn id hex hexdyn eq", FULL, n=4,
                target=MACHINES[0] if os.environ.get("VERIF_TIER", "quick") == "quick" else r.choice(MACHINES))]


PLANS = {f.__name__.upper(): f for f in (c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c17,
                                        c18, c19, c20, c21, c22, c23, c26)}

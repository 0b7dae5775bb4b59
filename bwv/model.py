"""Declarations and the independent bit-position model.

A declaration is data (Struct / Enum / PrimEnum with Field members).  `layout` turns a declaration into a tree of
nodes whose leaves say, for every bit of a value, which bit of the byte buffer holds it.  It is written from the
documentation of bondrewd-derive and knows nothing about how the derive macro generates code.

Buffer bit index q = byte * 8 + (bit counted from the most significant bit of that byte).
"""

WIDTH = {"bool": 1, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32,
         "i64": 64, "i128": 128, "f32": 32, "f64": 64, "char": 32}


class Arr:
    def __init__(self, elem, n):
        self.elem, self.n = elem, n


class Field:
    """One declared field. `ty` is a primitive name, an Arr, or a declaration object (nested)."""

    def __init__(self, name, ty, length=None, attrs=(), endian=None, start=None, block=False, elem_len=None,
                 reserve=False, read_only=False, redundant=False, overlap=0, capture=False):
        self.name, self.ty = name, ty
        self.length = length        # explicit total bit length, None = natural
        self.attrs = list(attrs)    # attribute source text, in the order written
        self.endian = endian        # "be" / "le" / None
        self.start = start          # explicit start bit (`bits`), None = after the previous field
        self.block, self.elem_len = block, elem_len
        self.reserve, self.read_only, self.redundant, self.overlap = reserve, read_only, redundant, overlap
        self.capture = capture


class Struct:
    def __init__(self, name, fields, default=None, lsb0=False, reverse=False, fill=None, attrs=(), derives=()):
        self.name, self.fields = name, fields
        self.default, self.lsb0, self.reverse, self.fill = default, lsb0, reverse, fill
        self.attrs = list(attrs)
        self.tags = set()


class Variant:
    def __init__(self, name, fields, kind="named", disc=None, variant_id=None, invalid=False, attrs=(), default=None,
                 fill=None, reverse=False, lsb0=None):
        self.name, self.fields, self.kind = name, fields, kind
        self.default, self.fill, self.reverse = default, fill, reverse
        self.lsb0 = lsb0            # None: as the enum
        self.disc, self.variant_id, self.invalid = disc, variant_id, invalid
        self.attrs = list(attrs)


class Enum:
    def __init__(self, name, id_bits, variants, default=None, lsb0=False, reverse=False, attrs=(), fill=None):
        self.name, self.id_bits, self.variants = name, id_bits, variants
        self.default, self.lsb0, self.reverse = default, lsb0, reverse
        self.fill = fill
        self.attrs = list(attrs)
        self.tags = set()


class PrimEnum:
    """The deprecated BitfieldEnum derive. variants: (name, literal or None, 'unit'|'tuple'|'named', invalid)"""

    def __init__(self, name, variants, partial_eq=False, options=None):
        self.name, self.variants, self.partial_eq = name, variants, partial_eq
        self.options = options if options is not None else ["u8", "partial_eq"] if partial_eq else []
        self.tags = set()


def id_type(bits):
    for w in (8, 16, 32, 64, 128):
        if bits <= w:
            return f"u{w}"


def assign_ids(explicit):
    """lowest unused value, in declaration order."""
    used = {x for x in explicit if x is not None}
    out, guess = [], 0
    for x in explicit:
        if x is None:
            while guess in used:
                guess += 1
            used.add(guess)
            x = guess
        out.append(x)
    return out


def natural_bits(ty):
    if isinstance(ty, Arr):
        return ty.n * natural_bits(ty.elem)
    if isinstance(ty, str):
        return WIDTH[ty]
    if isinstance(ty, PrimEnum):
        return 8
    return 8 * layout(ty)["bytes"]


def order(n, endian):
    """stream offset of value bit k (k = 0 is the least significant), for a value cut down to n bits."""
    if endian != "le":
        return [n - 1 - k for k in range(n)]
    out, offset = [0] * n, 0
    for lo in range(0, n, 8):
        size = min(8, n - lo)
        for j in range(size):
            out[lo + j] = offset + size - 1 - j
        offset += size
    return out


def place(ty, bits, endian, pos):
    """node for a value of type ty in `bits` stream bits; pos(i) maps field-relative stream offset to a buffer bit."""
    if isinstance(ty, str):
        return ("L", ty, [pos(o) for o in order(bits, endian)])
    if isinstance(ty, PrimEnum):
        lay = layout(ty)
        return ("B", [pos(o) for o in order(bits, "be")], lay["values"], lay["catch"], lay["captures"])
    lay = layout(ty)
    return remap(lay["node"], lambda q: pos(q) if 0 <= q < bits else -1)


def remap(node, f):
    k = node[0]
    g = lambda q: -1 if q < 0 else f(q)
    if k == "L":
        return ("L", node[1], [g(q) for q in node[2]])
    if k == "B":
        return ("B", [g(q) for q in node[1]]) + node[2:]
    if k == "A":
        return ("A", [remap(x, f) for x in node[1]])
    if k == "S":
        return ("S", [(fl, remap(x, f)) for fl, x in node[1]])
    if k == "E":
        return ("E", [g(q) for q in node[1]], [(i, cap, [(fl, remap(x, f)) for fl, x in fs]) for i, cap, fs in node[2]],
                node[3])
    raise AssertionError(k)


def elements(field):
    """(total bits, [(elem type, bits)]) of an array field, flattened over nested arrays."""
    ty, n = field.ty, 1
    dims = []
    while isinstance(ty, Arr):
        dims.append(ty.n)
        n *= ty.n
        ty = ty.elem
    nat = natural_bits(ty)
    if field.block:
        total = field.length
        rest = total - nat * (n - 1)
        sizes = [rest if rest else nat] + [nat] * (n - 1)
        if total == nat * n:
            sizes = [nat] * n
    else:
        each = field.elem_len if field.elem_len is not None else \
            (field.length // n if field.length is not None else nat)
        sizes = [each] * n
        total = each * n
    return total, sizes, dims, ty


def field_bits(field):
    if isinstance(field.ty, Arr):
        return elements(field)[0]
    return field.length if field.length is not None else natural_bits(field.ty)


def nest(items, dims):
    if len(dims) == 1:
        return ("A", items)
    step = len(items) // dims[0]
    return ("A", [nest(items[i * step:(i + 1) * step], dims[1:]) for i in range(dims[0])])


def flags(f):
    return "r" if f.reserve else "o" if (f.read_only or f.redundant) else "w"


def ranges(fields, at=0, id_bits=0):
    """[(field, start, bits)] in stream order of declaration, and the number of bits the type counts."""
    out, last, total = [], at, at
    for f in fields:
        n = field_bits(f) if not f.capture else id_bits
        start = 0 if f.capture else last if f.start is None else f.start
        out.append((f, start, n))
        if f.capture:
            continue
        if not f.redundant:
            last = start + n
            total += n - f.overlap
    return out, total


def field_node(f, start, n, default, pos):
    # 8-bit types do not depend on byte order, so the default is only relevant to wider ones.
    endian = f.endian or default or "le"
    if isinstance(f.ty, Arr):
        _, sizes, dims, ty = elements(f)
        items, o = [], start
        for s in sizes:
            items.append(place(ty, s, endian, lambda i, o=o: pos(o + i)))
            o += s
        return nest(items, dims)
    return place(f.ty, n, endian, lambda i: pos(start + i))


def layout(d):
    if getattr(d, "_lay", None) is not None:
        return d._lay
    d._lay = _layout(d)
    return d._lay


def _layout(d):
    if isinstance(d, PrimEnum):
        explicit = [v[1] for v in d.variants]
        catch = [i for i, v in enumerate(d.variants) if v[2] != "unit" or v[3]]
        c = catch[0] if catch else len(d.variants) - 1
        cap = d.variants[c][2] != "unit"
        # a variant which stores the primitive takes up a value of the automatic numbering, but matches none
        ids = assign_ids(explicit)
        return {"bytes": 1, "bits": 8, "values": ids, "catch": c, "captures": cap}
    if isinstance(d, Struct):
        rs, total = ranges(d.fields)
        size = d.fill * 8 if d.fill else total
        nbytes = (size + 7) // 8

        fields = []
        for f, start, n in rs:
            s = size - (start + n) if d.lsb0 else start
            fields.append((flags(f), _placed(f, s, n, d.default, nbytes, d.reverse, size, d.lsb0)))
        return {"bytes": nbytes, "bits": size, "node": ("S", fields), "ranges": rs}
    if isinstance(d, Enum):
        per, totals, largest = [], [], d.id_bits
        for v in d.variants:
            rs, total = ranges(v.fields, d.id_bits, d.id_bits)
            total = v.fill * 8 if v.fill else total
            per.append(rs)
            totals.append(total)
            largest = max(largest, total)
        size = largest
        nbytes = (size + 7) // 8
        ids = assign_ids([v.disc if v.disc is not None else v.variant_id for v in d.variants])
        inv = [i for i, v in enumerate(d.variants) if v.invalid]
        catch = inv[0] if inv else len(d.variants) - 1
        pos = lambda p: ((nbytes - 1 - p // 8) * 8 + p % 8) if d.reverse else p
        e = d.default or "le"
        idmap = [pos(variant_start(d, None, size, 0, d.id_bits) + o) for o in order(d.id_bits, e)]
        vs = []
        for i, rs in enumerate(per):
            fs, cap = [], 0
            for f, start, n in rs:
                if f.capture:
                    cap = 1
                    fs.append(("c", ("L", f.ty, list(idmap))))
                    continue
                at = variant_start(d, d.variants[i], size, start, n)
                fs.append((flags(f), _placed(f, at, n, d.variants[i].default or d.default, nbytes,
                                             d.reverse or d.variants[i].reverse, size, False)))
            vs.append((ids[i], cap, fs))
        return {"bytes": nbytes, "bits": size, "node": ("E", idmap, vs, catch), "ids": ids, "catch": catch,
                "ranges": per, "totals": totals}
    raise AssertionError(d)


def variant_start(d, v, size, start, n):
    """first bit of a field. The id is at the end the enum starts from, the bits next to it are used from the end the
    variant starts from"""
    if start < d.id_bits or v is None or v.lsb0 is None or v.lsb0 == d.lsb0:
        return size - (start + n) if d.lsb0 else start
    return size + d.id_bits - (start + n) if v.lsb0 else start - d.id_bits


def _placed(f, s, n, default, nbytes, reverse, size, lsb0):
    pos = lambda p: ((nbytes - 1 - p // 8) * 8 + p % 8) if reverse else p
    return field_node(f, s, n, default, pos)


# ---- text form read by the Rust runner -------------------------------------------------------------------------

def dump(node, out):
    k = node[0]
    if k == "L":
        out += ["L", node[1], len(node[2]), *node[2]]
    elif k == "B":
        out += ["B", len(node[1]), *node[1], len(node[2]), *node[2], node[3], int(node[4])]
    elif k == "A":
        out += ["A", len(node[1])]
        for x in node[1]:
            dump(x, out)
    elif k == "S":
        out += ["S", len(node[1])]
        for fl, x in node[1]:
            out.append(fl)
            dump(x, out)
    elif k == "E":
        out += ["E", len(node[1]), *node[1], len(node[2])]
        for i, cap, fs in node[2]:
            out += [i, cap, len(fs)]
            for fl, x in fs:
                out.append(fl)
                dump(x, out)
        out.append(node[3])


def text(node):
    out = []
    dump(node, out)
    return " ".join(map(str, out))

"""Rust source for declarations: the declarations themselves, value glue and function tables."""
import zlib

from .model import *


def ty_src(ty):
    if isinstance(ty, Arr):
        return f"[{ty_src(ty.elem)}; {ty.n}]"
    return ty if isinstance(ty, str) else ty.name


def attr_src(items, salt=""):
    """the settings in one attribute or in several"""
    x = zlib.crc32(f"{salt} {items}".encode()) % 12
    if len(items) > 1 and x < 4:
        cut = [[i] for i in items] if x == 0 else [items[:x], items[x:]]
        return "".join(f"#[bondrewd({', '.join(i)})] " for i in cut if i)
    return f"#[bondrewd({', '.join(items)}{',' if x == 11 else ''})] " if items else ""


def refs(d):
    out = []

    def ty(t):
        while isinstance(t, Arr):
            t = t.elem
        if not isinstance(t, str):
            out.append(t)
    if isinstance(d, Struct):
        for f in d.fields:
            ty(f.ty)
    if isinstance(d, Enum):
        for v in d.variants:
            for f in v.fields:
                ty(f.ty)
    return out


def decl_src(d):
    """the declaration as a user would write it"""
    o = []
    if isinstance(d, PrimEnum):
        o.append("#[derive(BitfieldEnum, Clone)]")
        if d.options:
            o.append(f"#[bondrewd_enum({', '.join(d.options)})]")
        if any(v[1] is not None for v in d.variants) and any(v[2] != "unit" for v in d.variants):
            o.append("#[repr(u8)]")
        o.append(f"pub enum {d.name} {{")
        for name, lit, kind, inv in d.variants:
            a = "#[bondrewd_enum(invalid)] " if inv else ""
            body = {"unit": "", "tuple": "(u8)", "named": " { value: u8 }"}[kind]
            o.append(f"    {a}{name}{body}{f' = {lit}' if lit is not None else ''},")
        o.append("}")
        return "\n".join(o)
    o.append("#[derive(Bitfields, Clone)]")
    if d.attrs:
        o.append(attr_src(d.attrs, d.name).strip())
    if isinstance(d, Struct):
        o.append(f"pub struct {d.name} {{")
        for f in d.fields:
            o.append(f"    {attr_src(f.attrs, d.name + f.name)}pub {f.name}: {ty_src(f.ty)},")
        o.append("}")
        return "\n".join(o)
    if any(v.disc is not None and v.fields for v in d.variants) or any(
            v.disc is not None for v in d.variants) and any(v.fields for v in d.variants):
        o.append(f"#[repr({id_type(max(8, d.id_bits))})]")
    o.append(f"pub enum {d.name} {{")
    for v in d.variants:
        a = attr_src(v.attrs, d.name)
        disc = f" = {v.disc}" if v.disc is not None else ""
        if v.kind == "unit":
            o.append(f"    {a}{v.name}{disc},")
        elif v.kind == "tuple":
            o.append(f"    {a}{v.name}({', '.join(attr_src(f.attrs, d.name + f.name) + ty_src(f.ty) for f in v.fields)}){disc},")
        else:
            fs = ", ".join(f"{attr_src(f.attrs, d.name + f.name)}{f.name}: {ty_src(f.ty)}" for f in v.fields)
            o.append(f"    {a}{v.name} {{ {fs} }}{disc},")
    o.append("}")
    return "\n".join(o)


def val_src(d):
    n = d.name
    if isinstance(d, Struct):
        take = ", ".join(f"{f.name}: Val::take(t)" for f in d.fields)
        give = " ".join(f"self.{f.name}.give(o);" for f in d.fields)
        return (f"impl Val for {n} {{ fn take(t: &mut Take) -> Self {{ Self {{ {take} }} }} "
                f"fn give(&self, o: &mut Leaves) {{ {give} }} }}")
    takes, gives = [], []
    if isinstance(d, PrimEnum):
        lay = layout(d)
        for i, (name, lit, kind, inv) in enumerate(d.variants):
            if kind == "unit":
                takes.append(f"{i} => Self::{name},")
                gives.append(f"Self::{name} => o.push({i}),")
            elif kind == "tuple":
                takes.append(f"{i} => Self::{name}(Val::take(t)),")
                gives.append(f"Self::{name}(x) => {{ o.push({i}); x.give(o) }}")
            else:
                takes.append(f"{i} => Self::{name} {{ value: Val::take(t) }},")
                gives.append(f"Self::{name} {{ value }} => {{ o.push({i}); value.give(o) }}")
    else:
        for i, v in enumerate(d.variants):
            if v.kind == "unit":
                takes.append(f"{i} => Self::{v.name},")
                gives.append(f"Self::{v.name} => o.push({i}),")
            elif v.kind == "tuple":
                xs = [f"x{k}" for k in range(len(v.fields))]
                takes.append(f"{i} => Self::{v.name}({', '.join('Val::take(t)' for _ in xs)}),")
                gives.append(f"Self::{v.name}({', '.join(xs)}) => {{ o.push({i}); "
                             + " ".join(f"{x}.give(o);" for x in xs) + " }")
            else:
                takes.append(f"{i} => Self::{v.name} {{ " + ", ".join(f"{f.name}: Val::take(t)" for f in v.fields) + " },")
                gives.append(f"Self::{v.name} {{ " + ", ".join(f"{f.name}: y_{raw(f.name)}" for f in v.fields)
                             + f" }} => {{ o.push({i}); " + " ".join(f"y_{raw(f.name)}.give(o);" for f in v.fields) + " }")
    return (f"impl Val for {n} {{ fn take(t: &mut Take) -> Self {{ match t.next() {{ {' '.join(takes)} "
            f"_ => panic!(\"harness: variant\") }} }} fn give(&self, o: &mut Leaves) {{ match self {{ {' '.join(gives)} }} }} }}")


def snake(name):
    """rust variant name to snake case, for names made of capitalised words without digits"""
    out = ""
    for i, c in enumerate(name):
        if c.isupper() and i:
            out += "_"
        out += c.lower()
    return out


def raw(name):
    return name[2:] if name.startswith("r#") else name


def accessors(d):
    """[(accessor name, field, variant index, start, bits)] - captured ids, which have no write functions, come last"""
    lay = layout(d)
    out, captured = [], []
    if isinstance(d, Struct):
        for f, s, n in lay["ranges"]:
            out.append((raw(f.name), f, -1, s, n))
    elif isinstance(d, Enum):
        for i, v in enumerate(d.variants):
            k = -1
            for f, s, n in lay["ranges"][i]:
                k += 1
                if f.capture:
                    captured.append((f"{snake(v.name)}_{raw(f.name) if v.kind == 'named' else 'variant_id'}", f, i, 0, d.id_bits))
                    continue
                name = raw(f.name) if v.kind == "named" else f"field_{k + 1}" if not any(x.capture for x in v.fields) \
                    else f"field_{k}"
                out.append((f"{snake(v.name)}_{name}", f, i, s, n))
    return out + captured


def session_src(d, glue, le):
    if "view" not in glue:
        return "session: None, look: None"
    names = [(name, f.capture) for name, f, *_ in accessors(d)]
    steps = "".join(f"({i}, None) => o.push(d(c.read_{name}())), " + ("" if cap else f"({i}, Some(v)) => c.write_{name}(t(v)), ")
                    for i, (name, cap) in enumerate(names))
    reads = ", ".join(f"d(c.read_{name}())" for name, _ in names)
    return (f"session: Some(|b, steps| {{ let mut c = {d.name}::check_slice_mut(b).{le}?; let mut o = Vec::new(); "
            f"for (k, v) in steps {{ match (*k, v) {{ {steps}_ => panic!(\"harness: step\") }} }} Ok(o) }}), "
            f"look: Some(|b| {{ let c = {d.name}::check_slice(b).{le}?; Ok(vec![{reads}]) }})")


def subject_src(d, glue):
    n = d.name
    if isinstance(d, PrimEnum):
        eq = "None"
        if d.partial_eq:
            eq = f"Some(|v, x| t::<{n}>(v) == x)"
        return (f'Subject {{ name: "{n}", byte_size: 1, bit_size: 8, into: |v| vec![t::<{n}>(v).into_primitive()], '
                f'from: |b| d({n}::from_primitive(b[0])), accs: vec![], dynf: None, hex: None, id: None, '
                f'prim: Some(PrimFns {{ from: |b| d({n}::from_primitive(b)), into: |v| t::<{n}>(v).into_primitive(), '
                f'eq: {eq} }}), consts: || vec![] }}')
    accs = []
    le = "map_err(|e| sizes(&e, e.0, e.1))"
    if "acc" in glue or "slice" in glue or "view" in glue:
        for name, f, var, s, bits in accessors(d):
            sl = vw = "None"
            if f.capture:
                if "slice" in glue:
                    sl = f"Some(SliceAcc {{ read: |b| {n}::read_slice_{name}(b).map(d).{le}, write: |_, _| panic!() }})"
                if "view" in glue:
                    vw = (f"Some(ViewAcc {{ read: |b| {n}::check_slice(b).map(|c| d(c.read_{name}())).{le}, "
                          f"read_mut: |b| {n}::check_slice_mut(b).map(|c| d(c.read_{name}())).{le}, write: |_, _| panic!(), "
                          f"un_read: |b| d({n}Checked::from_unchecked_slice(b).read_{name}()), un_write: |_, _| panic!() }})")
                accs.append(f'Acc {{ name: "{name}", read: |b| d({n}::read_{name}(a(b))), write: |_, _| panic!(), '
                            f'slice: {sl}, view: {vw} }}')
                continue
            if "slice" in glue:
                sl = (f"Some(SliceAcc {{ read: |b| {n}::read_slice_{name}(b).map(d).{le}, "
                      f"write: |b, v| {n}::write_slice_{name}(b, t(v)).{le} }})")
            if "view" in glue:
                vw = (f"Some(ViewAcc {{ read: |b| {n}::check_slice(b).map(|c| d(c.read_{name}())).{le}, "
                      f"read_mut: |b| {n}::check_slice_mut(b).map(|c| d(c.read_{name}())).{le}, "
                      f"write: |b, v| {n}::check_slice_mut(b).map(|mut c| c.write_{name}(t(v))).{le}, "
                      f"un_read: |b| d({n}Checked::from_unchecked_slice(b).read_{name}()), "
                      f"un_write: |b, v| {n}CheckedMut::from_unchecked_slice(b).write_{name}(t(v)) }})")
            accs.append(f'Acc {{ name: "{name}", read: |b| d({n}::read_{name}(a(b))), '
                        f'write: |b, v| {n}::write_{name}(am(b), t(v)), slice: {sl}, view: {vw} }}')
    dyn = "None"
    if "dyn" in glue:
        dyn = (f"Some(DynFns {{ from_slice: |b| {n}::from_slice(b).map(d).{le}, from_vec: |b| {n}::from_vec(b).map(d).{le}, "
               f"check: |b| {n}::check_slice(b).map(|_| ()).{le}, check_mut: |b| {n}::check_slice_mut(b).map(|_| ()).{le}, {session_src(d, glue, le)} }})")
    hx = "None"
    if "hex" in glue:
        hd = "from_slice: None, from_vec: None"
        if "hexdyn" in glue:
            m = ("map_err(|e| match &e { BitfieldHexDynError::Hex(x) => HexErr::Char(letter(&e, x.0, x.1), x.1), "
                 "BitfieldHexDynError::Length(x) => { let (have, want) = sizes(&e, x.0, x.1); HexErr::Len(have, want) } })")
            hd = (f"from_slice: Some(|b| {n}::from_hex_slice(b).map(d).{m}), "
                  f"from_vec: Some(|b| {n}::from_hex_vec(b).map(d).{m})")
        nb = layout(d)["bytes"]
        sz = f"<{n} as BitfieldHex<{2 * nb}, {nb}>>::HEX_SIZE"
        hx = (f"Some(HexFns {{ size: {sz}, upper: |v| t::<{n}>(v).into_hex_upper().to_vec(), "
              f"lower: |v| t::<{n}>(v).into_hex_lower().to_vec(), "
              f"from: |b| {n}::from_hex(*a(b)).map(d).map_err(|e| HexErr::Char(letter(&e, e.0, e.1), e.1)), {hd} }})")
    idf = "None"
    if isinstance(d, Enum) and "id" in glue:
        it = id_type(d.id_bits)
        eq = f"Some(|v, x| t::<{n}>(v) == (x as {it}))" if "eq" in glue else "None"
        rs = (f"Some(|b| {n}::read_slice_variant_id(b).map(|x| x as u128).{le})" if "slice" in glue else "None")
        ws = "None"
        idf = (f"Some(IdFns {{ read: |b| {n}::read_variant_id(a(b)) as u128, "
               f"write: |b, x| {n}::write_variant_id(am(b), x as {it}), read_slice: {rs}, write_slice: {ws}, "
               f"of: |v| t::<{n}>(v).id() as u128, eq: {eq} }})")
    nb = layout(d)["bytes"]
    consts = ""
    tr = f"<{n} as Bitfields<{nb}>>"
    return (f'Subject {{ name: "{n}", byte_size: {tr}::BYTE_SIZE, bit_size: {tr}::BIT_SIZE, '
            f'into: |v| t::<{n}>(v).into_bytes().to_vec(), from: |b| d({n}::from_bytes(*a(b))), '
            f'accs: vec![{", ".join(accs)}], dynf: {dyn}, hex: {hx}, id: {idf}, prim: None, consts: || vec![{consts}] }}')


def uses_src(d):
    """further ways to use what is generated: views which are passed on, generic code, constants, errors of any kind"""
    if isinstance(d, PrimEnum):
        return [f"fn u_{d.name}(x: u8) -> {d.name} {{ fn any<T: BitfieldEnum<Primitive = u8>>(x: u8) -> T {{ "
                f"T::from_primitive(T::into_primitive(T::from_primitive(x))) }} any::<{d.name}>(x) }}"]
    n, nb = d.name, layout(d)["bytes"]
    return [f"""fn u_{n}(b: &mut [u8], v: &mut Vec<u8>) -> Result<usize, Box<dyn std::error::Error + Send + Sync>> {{
    const SIZE: usize = <{n} as Bitfields<{nb}>>::BYTE_SIZE;
    const BITS: [u8; <{n} as Bitfields<{nb}>>::BIT_SIZE] = [0; <{n} as Bitfields<{nb}>>::BIT_SIZE];
    static EMPTY: [u8; SIZE] = [0; SIZE];
    struct Keep<'a> {{ view: {n}Checked<'a> }}
    fn keep<'a>(b: &'a [u8]) -> Result<Keep<'a>, BitfieldLengthError> {{ let view = {n}::check_slice(b)?; Ok(Keep {{ view }}) }}
    fn keep_mut<'a>(b: &'a mut [u8]) -> Result<{n}CheckedMut<'a>, BitfieldLengthError> {{ {n}::check_slice_mut(b) }}
    fn plain<'a>(b: &'a [u8]) -> {n}Checked<'a> {{ {n}Checked::from_unchecked_slice(b) }}
    fn plain_mut<'a>(b: &'a mut [u8]) -> {n}CheckedMut<'a> {{ {n}CheckedMut::from_unchecked_slice(b) }}
    fn moves<T: Send + Sync>(_: &T) {{}}
    fn any<const N: usize, const H: usize, T>(b: &[u8], v: &mut Vec<u8>) -> Result<T, BitfieldHexDynError>
    where T: Bitfields<N> + BitfieldsDyn<N> + BitfieldHex<H, N> + BitfieldHexDyn<H, N> {{
        let x = T::from_slice(b)?;
        let x = T::from_hex(x.into_hex_upper())?;
        let x = <T as BitfieldHexDyn<H, N>>::from_hex_slice(&x.into_hex_lower())?;
        let bytes: [u8; N] = x.into_bytes();
        drop(T::from_vec(v)?);
        Ok(T::from_bytes(bytes))
    }}
    let k = keep(b)?;
    moves(&k.view);
    drop((&keep as &dyn Fn(&'static [u8]) -> Result<Keep<'static>, BitfieldLengthError>)(&EMPTY)?);
    drop(plain(b));
    moves(&keep_mut(b)?);
    drop(plain_mut(b));
    let x = any::<SIZE, {{ 2 * SIZE }}, {n}>(b, v)?;
    drop({n}::from_slice(b)?);
    drop({n}::from_vec(v)?);
    drop({n}::from_hex([b'0'; 2 * SIZE])?);
    drop({n}::from_hex_slice(b)?);
    drop(x);
    Ok(SIZE + BITS.len())
}}"""]


def namesake_src(d, subject):
    """constants of the user's own with the names of what the traits have, and functions for types which are fields of others"""
    if zlib.crc32(d.name.encode()) % 2:
        return []
    if subject:
        return [] if isinstance(d, PrimEnum) else [f"impl {d.name} {{ pub const BYTE_SIZE: usize = 1; pub const BIT_SIZE: u8 = 3; }}"]
    if isinstance(d, PrimEnum):
        return [f"impl {d.name} {{ pub fn into_primitive(self) -> u8 {{ 0xA5 }} "
                f"pub fn from_primitive(_: u8) -> Self {{ panic!(\"a function of the user\") }} }}"]
    nb = layout(d)["bytes"]
    return [f"impl {d.name} {{ pub const BYTE_SIZE: usize = 1; pub const BIT_SIZE: u8 = 3; pub fn into_bytes(self) -> [u8; {nb}] {{ [0xA5; {nb}] }} "
            f"pub fn from_bytes(_: [u8; {nb}]) -> Self {{ panic!(\"a function of the user\") }} }}"]


def lines_src(d, subject):
    """a declaration with what belongs to it; some types of fields implement the traits by hand, with the derived type inside"""
    own = decl_src(d).split("\n") + [val_src(d)]
    if subject or zlib.crc32(d.name.encode()) % 7 != 3:
        return own + namesake_src(d, subject)
    n = d.name
    if isinstance(d, PrimEnum):
        by = (f"impl BitfieldEnum for {n} {{ type Primitive = u8; fn from_primitive(x: u8) -> Self {{ Self(BitfieldEnum::from_primitive(x)) }} "
              f"fn into_primitive(self) -> u8 {{ BitfieldEnum::into_primitive(self.0) }} }}")
    else:
        nb = layout(d)["bytes"]
        by = (f"impl Bitfields<{nb}> for {n} {{ const BIT_SIZE: usize = <derived_{n}::{n} as Bitfields<{nb}>>::BIT_SIZE; "
              f"fn from_bytes(b: [u8; {nb}]) -> Self {{ Self(Bitfields::from_bytes(b)) }} "
              f"fn into_bytes(self) -> [u8; {nb}] {{ Bitfields::into_bytes(self.0) }} }}")
    return [f"mod derived_{n} {{ use super::*;", *own, "}", f"#[derive(Clone)] pub struct {n}(derived_{n}::{n});", by,
            f"impl Val for {n} {{ fn take(t: &mut Take) -> Self {{ Self(Val::take(t)) }} fn give(&self, o: &mut Leaves) {{ self.0.give(o) }} }}"]


def spec_src(d):
    lay = layout(d)
    if isinstance(d, PrimEnum):
        node = place(d, 8, "be", lambda q: q)
        return f"T {d.name} 1 8\nN {text(node)}\n"
    o = [f"T {d.name} {lay['bytes']} {lay['bits']}", "N " + text(lay["node"])]
    size, nb = lay["bits"], lay["bytes"]
    for name, f, var, s, n in accessors(d):
        if isinstance(d, Struct):
            k = [x is f for x, _, _ in lay["ranges"]].index(True)
            fl, node = lay["node"][1][k]
            lo = size - (s + n) if d.lsb0 else s
        else:
            k = [x is f for x, _, _ in lay["ranges"][var]].index(True)
            fl, node = lay["node"][2][var][2][k]
            lo = variant_start(d, None if f.capture else d.variants[var], size, s, n)
        rev = d.reverse or var >= 0 and d.variants[var].reverse and not f.capture
        pos = [((nb - 1 - p // 8) * 8 + p % 8) if rev else p for p in range(lo, lo + n)]
        o.append(f"A {name} {var} {fl} {n} {' '.join(map(str, pos))} {text(node)}")
    return "\n".join(o) + "\n"

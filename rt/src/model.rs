//! The oracle: reads and writes leaf values through bit maps computed by bwv/model.py.
//! Nothing here knows how the derive macro generates code.

#[derive(Clone, Debug)]
pub enum Node {
    /// type name, buffer bit of every value bit (least significant first, -1 = not stored)
    Leaf(Ty, Vec<i32>),
    Prim { map: Vec<i32>, values: Vec<u128>, catch: usize, captures: bool },
    Array(Vec<Node>),
    Struct(Vec<(Flag, Node)>),
    Enum { id: Vec<i32>, variants: Vec<Var>, catch: usize },
}
#[derive(Clone, Debug)]
pub struct Var {
    pub id: u128,
    pub captures: bool,
    pub fields: Vec<(Flag, Node)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flag {
    /// read and written
    Both,
    /// skipped by whole-value conversions
    Reserve,
    /// only read by whole-value conversions
    ReadOnly,
    /// holds the id of its enum variant
    Capture,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    U(u32),
    I(u32),
    F(u32),
    Char,
}
impl Ty {
    pub fn width(self) -> u32 {
        match self {
            Ty::Bool => 1,
            Ty::U(w) | Ty::I(w) | Ty::F(w) => w,
            Ty::Char => 32,
        }
    }
    fn parse(s: &str) -> Ty {
        match s {
            "bool" => Ty::Bool,
            "char" => Ty::Char,
            _ => {
                let w = s[1..].parse().unwrap();
                match &s[..1] {
                    "u" => Ty::U(w),
                    "i" => Ty::I(w),
                    "f" => Ty::F(w),
                    _ => panic!("bad type {s}"),
                }
            }
        }
    }
}

pub type Tok<'a> = std::str::SplitAsciiWhitespace<'a>;
fn n<T: std::str::FromStr>(t: &mut Tok) -> T
where
    T::Err: std::fmt::Debug,
{
    t.next().expect("spec ended").parse().expect("spec number")
}
fn list<T: std::str::FromStr>(t: &mut Tok) -> Vec<T>
where
    T::Err: std::fmt::Debug,
{
    let c: usize = n(t);
    (0..c).map(|_| n(t)).collect()
}
fn fields(t: &mut Tok) -> Vec<(Flag, Node)> {
    let c: usize = n(t);
    (0..c)
        .map(|_| {
            let f = match t.next().unwrap() {
                "w" => Flag::Both,
                "r" => Flag::Reserve,
                "o" => Flag::ReadOnly,
                "c" => Flag::Capture,
                x => panic!("bad flag {x}"),
            };
            (f, Node::parse(t))
        })
        .collect()
}

pub fn bit(buf: &[u8], q: i32) -> bool {
    buf[q as usize / 8] >> (7 - q as usize % 8) & 1 == 1
}
pub fn set(buf: &mut [u8], q: i32, v: bool) {
    let m = 1u8 << (7 - q as usize % 8);
    if v {
        buf[q as usize / 8] |= m
    } else {
        buf[q as usize / 8] &= !m
    }
}
fn get_map(map: &[i32], buf: &[u8]) -> u128 {
    let mut v = 0u128;
    for (k, &q) in map.iter().enumerate() {
        if q >= 0 && bit(buf, q) {
            v |= 1 << k;
        }
    }
    v
}
fn put_map(map: &[i32], v: u128, buf: &mut [u8]) {
    for (k, &q) in map.iter().enumerate() {
        if q >= 0 {
            set(buf, q, v >> k & 1 == 1);
        }
    }
}
pub fn ones(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1 << w) - 1
    }
}
/// the value of a leaf of type `ty` whose low `len` bits are `raw`
pub fn widen(ty: Ty, len: u32, raw: u128) -> u128 {
    match ty {
        Ty::I(w) if len > 0 && raw >> (len - 1) & 1 == 1 => (raw | !ones(len)) & ones(w),
        Ty::Char => match char::from_u32(raw as u32) {
            Some(c) => c as u128,
            None => '\u{FFFD}' as u128,
        },
        _ => raw,
    }
}

impl Node {
    pub fn parse(t: &mut Tok) -> Node {
        match t.next().expect("spec ended") {
            "L" => {
                let ty = Ty::parse(t.next().unwrap());
                Node::Leaf(ty, list(t))
            }
            "B" => {
                let map = list(t);
                let values = list(t);
                let catch = n(t);
                let c: u8 = n(t);
                Node::Prim { map, values, catch, captures: c == 1 }
            }
            "A" => {
                let c: usize = n(t);
                Node::Array((0..c).map(|_| Node::parse(t)).collect())
            }
            "S" => Node::Struct(fields(t)),
            "E" => {
                let id = list(t);
                let c: usize = n(t);
                let variants = (0..c)
                    .map(|_| {
                        let id = n(t);
                        let c: u8 = n(t);
                        Var { id, captures: c == 1, fields: fields(t) }
                    })
                    .collect();
                Node::Enum { id, variants, catch: n(t) }
            }
            x => panic!("bad node {x}"),
        }
    }

    /// What decoding `buf` yields. `whole`: whole-value conversion, where reserve fields take their default.
    pub fn decode(&self, buf: &[u8], whole: bool, out: &mut Vec<u128>) {
        match self {
            Node::Leaf(ty, map) => out.push(widen(*ty, map.len() as u32, get_map(map, buf))),
            Node::Prim { map, values, catch, captures } => {
                let v = get_map(map, buf);
                let i = match values.iter().enumerate().position(|(i, x)| *x == v && i != *catch) {
                    Some(i) => i,
                    None => *catch,
                };
                out.push(i as u128);
                if i == *catch && *captures {
                    out.push(v);
                }
            }
            Node::Array(xs) => xs.iter().for_each(|x| x.decode(buf, true, out)),
            Node::Struct(fs) => Self::decode_fields(fs, buf, whole, out),
            Node::Enum { id, variants, catch } => {
                let v = get_map(id, buf);
                let i = match variants.iter().enumerate().position(|(i, x)| x.id == v && i != *catch) {
                    Some(i) => i,
                    None => *catch,
                };
                out.push(i as u128);
                Self::decode_fields(&variants[i].fields, buf, whole, out);
            }
        }
    }
    fn decode_fields(fs: &[(Flag, Node)], buf: &[u8], whole: bool, out: &mut Vec<u128>) {
        for (f, x) in fs {
            if *f == Flag::Reserve && whole {
                x.default(out);
            } else {
                x.decode(buf, true, out);
            }
        }
    }
    fn default(&self, out: &mut Vec<u128>) {
        match self {
            Node::Leaf(..) => out.push(0),
            Node::Array(xs) => xs.iter().for_each(|x| x.default(out)),
            _ => panic!("no default for this reserve field"),
        }
    }

    /// Stores the value into `buf`, bits the value does not own are left alone.
    /// Whole-value conversions skip reserve and read-only fields at every level.
    pub fn encode(&self, v: &mut std::slice::Iter<u128>, buf: &mut [u8]) {
        match self {
            Node::Leaf(ty, map) => {
                let mut x = *v.next().expect("value ended");
                if *ty == Ty::Bool {
                    x &= 1;
                }
                put_map(map, x, buf)
            }
            Node::Prim { map, values, catch, captures } => {
                let i = *v.next().unwrap() as usize;
                if i == *catch && *captures {
                    put_map(map, *v.next().unwrap(), buf);
                } else {
                    put_map(map, values[i], buf);
                }
            }
            Node::Array(xs) => xs.iter().for_each(|x| x.encode(v, buf)),
            Node::Struct(fs) => Self::encode_fields(fs, v, buf),
            Node::Enum { id, variants, .. } => {
                let i = *v.next().unwrap() as usize;
                if !variants[i].captures {
                    put_map(id, variants[i].id, buf);
                }
                Self::encode_fields(&variants[i].fields, v, buf);
            }
        }
    }
    fn encode_fields(fs: &[(Flag, Node)], v: &mut std::slice::Iter<u128>, buf: &mut [u8]) {
        for (f, x) in fs {
            if matches!(f, Flag::Both | Flag::Capture) {
                x.encode(v, buf);
            } else {
                let mut scratch = vec![0u8; buf.len()];
                x.encode(v, &mut scratch);
            }
        }
    }
    /// All buffer bits this node can store to (enums: of every variant).
    pub fn bits(&self, out: &mut Vec<i32>) {
        match self {
            Node::Leaf(_, map) | Node::Prim { map, .. } => out.extend(map.iter().filter(|q| **q >= 0)),
            Node::Array(xs) => xs.iter().for_each(|x| x.bits(out)),
            Node::Struct(fs) => fs.iter().for_each(|(_, x)| x.bits(out)),
            Node::Enum { id, variants, .. } => {
                out.extend(id.iter().filter(|q| **q >= 0));
                variants.iter().for_each(|v| v.fields.iter().for_each(|(_, x)| x.bits(out)));
            }
        }
    }
    /// two written fields of one value share bits
    pub fn overlaps(&self) -> bool {
        fn fields(fs: &[(Flag, Node)]) -> bool {
            let mut seen = std::collections::HashSet::new();
            fs.iter().any(|(f, x)| {
                let mut b = Vec::new();
                x.bits(&mut b);
                let b: std::collections::HashSet<i32> = b.into_iter().collect();
                x.overlaps() || *f == Flag::Both && b.into_iter().any(|q| !seen.insert(q))
            })
        }
        match self {
            Node::Leaf(..) | Node::Prim { .. } => false,
            Node::Array(x) => x.iter().any(Node::overlaps),
            Node::Struct(fs) => fields(fs),
            Node::Enum { variants, .. } => variants.iter().any(|v| fields(&v.fields)),
        }
    }
    /// some bits of the value are cut off, because it is nested in too few bits
    pub fn cut(&self) -> bool {
        match self {
            Node::Leaf(_, map) | Node::Prim { map, .. } => map.iter().any(|q| *q < 0),
            Node::Array(xs) => xs.iter().any(Node::cut),
            Node::Struct(fs) => fs.iter().any(|(_, x)| x.cut()),
            Node::Enum { id, variants, .. } => {
                id.iter().any(|q| *q < 0) || variants.iter().any(|v| v.fields.iter().any(|(_, x)| x.cut()))
            }
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            Node::Leaf(..) => 1,
            Node::Prim { .. } => 1,
            Node::Array(xs) => xs.iter().map(Node::leaves).sum(),
            Node::Struct(fs) => fs.iter().map(|(_, x)| x.leaves()).sum(),
            Node::Enum { variants, .. } => {
                1 + variants.iter().map(|v| v.fields.iter().map(|(_, x)| x.leaves()).sum()).max().unwrap_or(0usize)
            }
        }
    }
}

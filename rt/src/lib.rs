//! Runtime monitors for code generated by bondrewd-derive.
//! A shard binary hands over `Subject`s (function tables around derived types) and their specification text;
//! the monitors drive them and compare every observation with the oracle in `model`.
pub mod model;
pub mod monitor;
pub mod props;
pub mod replay;
pub mod rng;
pub mod run;
pub use model::{Flag, Node, Ty};

/// Values as flat lists of leaves: integers/floats/chars as raw bits, enums as variant number + payload.
pub type Leaves = Vec<u128>;
pub struct Take<'a>(pub std::slice::Iter<'a, u128>);
impl<'a> Take<'a> {
    pub fn next(&mut self) -> u128 {
        *self.0.next().expect("harness: value ended")
    }
}
pub trait Val: Sized {
    fn take(t: &mut Take) -> Self;
    fn give(&self, o: &mut Leaves);
}
macro_rules! int {
    ($($t:ty: $u:ty),*) => {$(impl Val for $t {
        fn take(t: &mut Take) -> Self { t.next() as $u as $t }
        fn give(&self, o: &mut Leaves) { o.push(*self as $u as u128) }
    })*};
}
int!(u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, i8: u8, i16: u16, i32: u32, i64: u64, i128: u128);
impl Val for bool {
    fn take(t: &mut Take) -> Self {
        t.next() & 1 == 1
    }
    fn give(&self, o: &mut Leaves) {
        o.push(*self as u128)
    }
}
impl Val for char {
    fn take(t: &mut Take) -> Self {
        char::from_u32(t.next() as u32).expect("harness: char")
    }
    fn give(&self, o: &mut Leaves) {
        o.push(*self as u128)
    }
}
impl Val for f32 {
    fn take(t: &mut Take) -> Self {
        f32::from_bits(t.next() as u32)
    }
    fn give(&self, o: &mut Leaves) {
        o.push(self.to_bits() as u128)
    }
}
impl Val for f64 {
    fn take(t: &mut Take) -> Self {
        f64::from_bits(t.next() as u64)
    }
    fn give(&self, o: &mut Leaves) {
        o.push(self.to_bits() as u128)
    }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn take(t: &mut Take) -> Self {
        std::array::from_fn(|_| T::take(t))
    }
    fn give(&self, o: &mut Leaves) {
        self.iter().for_each(|x| x.give(o))
    }
}
/// leaves of a value
pub fn d<T: Val>(v: T) -> Leaves {
    let mut o = Vec::new();
    v.give(&mut o);
    o
}
/// value from leaves
/// what the text of an error says, for people who only see that
pub fn sizes<E: std::fmt::Display>(e: &E, have: usize, want: usize) -> Len {
    let text = e.to_string();
    let numbers: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    if !numbers.contains(&have) || !numbers.contains(&want) {
        panic!("the message \"{text}\" does not name {have} provided and {want} expected bytes");
    }
    if let Some((_, rest)) = text.split_once("xpected ") {
        let n: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if !n.is_empty() && n != want.to_string() {
            panic!("the message \"{text}\" is about {have} provided and {want} expected bytes");
        }
    }
    (have, want)
}
pub fn letter<E: std::fmt::Display>(e: &E, c: char, at: usize) -> char {
    let text = e.to_string();
    let named = text.split(|c: char| !c.is_ascii_digit()).any(|x| x.parse() == Ok(at));
    if !named || !text.contains(c) && !text.contains(&c.escape_default().to_string()) {
        panic!("the message {text:?} does not name {c:?} at {at}");
    }
    c
}

pub fn t<T: Val>(v: &[u128]) -> T {
    T::take(&mut Take(v.iter()))
}
pub fn a<const N: usize>(b: &[u8]) -> &[u8; N] {
    b.try_into().expect("harness: array length")
}
pub fn am<const N: usize>(b: &mut [u8]) -> &mut [u8; N] {
    b.try_into().expect("harness: array length")
}

/// (provided, expected)
pub type Len = (usize, usize);
pub struct SliceAcc {
    pub read: fn(&[u8]) -> Result<Leaves, Len>,
    pub write: fn(&mut [u8], &[u128]) -> Result<(), Len>,
}
pub struct ViewAcc {
    /// through check_slice / check_slice_mut
    pub read: fn(&[u8]) -> Result<Leaves, Len>,
    pub read_mut: fn(&mut [u8]) -> Result<Leaves, Len>,
    pub write: fn(&mut [u8], &[u128]) -> Result<(), Len>,
    /// through the unchecked constructors
    pub un_read: fn(&[u8]) -> Leaves,
    pub un_write: fn(&mut [u8], &[u128]),
}
pub struct Acc {
    pub name: &'static str,
    pub read: fn(&[u8]) -> Leaves,
    pub write: fn(&mut [u8], &[u128]),
    pub slice: Option<SliceAcc>,
    pub view: Option<ViewAcc>,
}
pub struct DynFns {
    pub from_slice: fn(&[u8]) -> Result<Leaves, Len>,
    pub from_vec: fn(&mut Vec<u8>) -> Result<Leaves, Len>,
    pub check: fn(&[u8]) -> Result<(), Len>,
    pub check_mut: fn(&mut [u8]) -> Result<(), Len>,
    /// writes (with a value) and reads (without) of fields through one view, and what the reads gave
    pub session: Option<fn(&mut [u8], &[(usize, Option<Leaves>)]) -> Result<Vec<Leaves>, Len>>,
    /// all fields read through one view
    pub look: Option<fn(&[u8]) -> Result<Vec<Leaves>, Len>>,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum HexErr {
    Char(char, usize),
    Len(usize, usize),
}
pub struct HexFns {
    pub size: usize,
    pub upper: fn(&[u128]) -> Vec<u8>,
    pub lower: fn(&[u128]) -> Vec<u8>,
    pub from: fn(&[u8]) -> Result<Leaves, HexErr>,
    pub from_slice: Option<fn(&[u8]) -> Result<Leaves, HexErr>>,
    pub from_vec: Option<fn(&mut Vec<u8>) -> Result<Leaves, HexErr>>,
}
pub struct IdFns {
    pub read: fn(&[u8]) -> u128,
    pub write: fn(&mut [u8], u128),
    pub read_slice: Option<fn(&[u8]) -> Result<u128, Len>>,
    pub write_slice: Option<fn(&mut [u8], u128) -> Result<(), Len>>,
    pub of: fn(&[u128]) -> u128,
    /// value == id
    pub eq: Option<fn(&[u128], u128) -> bool>,
}
pub struct PrimFns {
    pub from: fn(u8) -> Leaves,
    pub into: fn(&[u128]) -> u8,
    pub eq: Option<fn(&[u128], u8) -> bool>,
}
pub struct Subject {
    pub name: &'static str,
    pub byte_size: usize,
    pub bit_size: usize,
    pub into: fn(&[u128]) -> Vec<u8>,
    pub from: fn(&[u8]) -> Leaves,
    pub accs: Vec<Acc>,
    pub dynf: Option<DynFns>,
    pub hex: Option<HexFns>,
    pub id: Option<IdFns>,
    pub prim: Option<PrimFns>,
    /// further constants: name, expected, observed
    pub consts: fn() -> Vec<(&'static str, usize, usize)>,
}

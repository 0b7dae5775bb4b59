use crate::model::*;
use crate::rng::*;
use crate::*;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct AccSpec {
    pub name: String,
    /// buffer bits the field occupies
    pub range: Vec<i32>,
    pub flag: Flag,
    pub node: Node,
    /// enum variant the field belongs to
    pub variant: Option<usize>,
}
impl AccSpec {
    /// bytes a slice must have for this field
    pub fn need(&self) -> usize {
        self.range.iter().max().map_or(0, |q| *q as usize / 8 + 1)
    }
}
pub struct Spec {
    pub name: String,
    pub bytes: usize,
    pub bits: usize,
    pub node: Node,
    pub accs: Vec<AccSpec>,
}
impl Spec {
    /// accessors with write functions; those of captured ids, which have none, come last
    pub fn written(&self) -> &[AccSpec] {
        &self.accs[..self.accs.iter().take_while(|a| a.flag != Flag::Capture).count()]
    }
}
pub fn parse_spec(text: &str) -> Vec<Spec> {
    let mut out: Vec<Spec> = Vec::new();
    for line in text.lines() {
        let mut t = line.split_ascii_whitespace();
        match t.next() {
            Some("T") => out.push(Spec {
                name: t.next().unwrap().into(),
                bytes: t.next().unwrap().parse().unwrap(),
                bits: t.next().unwrap().parse().unwrap(),
                node: Node::Array(vec![]),
                accs: vec![],
            }),
            Some("N") => out.last_mut().unwrap().node = Node::parse(&mut t),
            Some("A") => {
                let name = t.next().unwrap().into();
                let variant = t.next().unwrap().parse::<i32>().unwrap();
                let flag = match t.next().unwrap() {
                    "w" => Flag::Both,
                    "r" => Flag::Reserve,
                    "o" => Flag::ReadOnly,
                    "c" => Flag::Capture,
                    x => panic!("flag {x}"),
                };
                let c: usize = t.next().unwrap().parse().unwrap();
                let range = (0..c).map(|_| t.next().unwrap().parse().unwrap()).collect();
                let node = Node::parse(&mut t);
                out.last_mut().unwrap().accs.push(AccSpec {
                    name,
                    range,
                    flag,
                    node,
                    variant: usize::try_from(variant).ok(),
                });
            }
            _ => {}
        }
    }
    out
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub ops: BTreeMap<String, u64>,
    pub violations: Vec<String>,
    pub violation_count: u64,
    pub samples: Vec<String>,
    pub types: u64,
    pub fields: u64,
}
impl Stats {
    pub fn violation(&mut self, name: &str, op: &str, input: String, expected: String, observed: String) {
        self.violations.push(format!(
            "{{\"type\":{},\"op\":{},\"input\":{},\"expected\":{},\"observed\":{}}}",
            js(name),
            js(op),
            js(&short(input)),
            js(&short(expected)),
            js(&short(observed))
        ));
    }
    pub fn json(&self) -> String {
        let ops: Vec<String> = self.ops.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
        let samples: Vec<String> = self.samples.iter().map(|x| js(x)).collect();
        format!(
            "{{\"evaluations\":{},\"distinct\":{},\"types\":{},\"fields\":{},\"ops\":{{{}}},\"violation_count\":{},\"violations\":[{}],\"samples\":[{}]}}",
            self.evaluations,
            self.distinct.len(),
            self.types,
            self.fields,
            ops.join(","),
            self.violation_count,
            self.violations.join(","),
            samples.join(",")
        )
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xFFFD))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// long buffers are not needed in full, a replay generates them again
fn short(s: String) -> String {
    match s.char_indices().nth(3000) {
        Some((k, _)) => format!("{}... ({} bytes of text)", &s[..k], s.len()),
        None => s,
    }
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn vals(v: &[u128]) -> String {
    let v: Vec<String> = v.iter().map(|x| format!("{x:#x}")).collect();
    format!("[{}]", v.join(", "))
}

pub struct Ctx<'a> {
    pub s: &'a Subject,
    pub p: &'a Spec,
    pub rng: Rng,
    pub st: &'a mut Stats,
    /// repetitions
    pub n: usize,
    pub here: u32,
}

/// Runs one call of generated code; a panic is an observation.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if m.starts_with("harness:") {
            eprintln!("HARNESS {m}");
            std::process::exit(3);
        }
        m
    })
}

impl<'a> Ctx<'a> {
    pub fn violation(&mut self, op: &str, input: String, expected: String, observed: String) {
        self.st.violation_count += 1;
        self.here += 1;
        if self.here <= 3 && self.st.violations.len() < 200 {
            self.st.violation(self.s.name, op, input, expected, observed);
        }
    }
    /// one observation judged; `nontrivial` inputs are counted when distinct
    pub fn seen(&mut self, op: &str, key: &[u8], nontrivial: bool) {
        self.st.evaluations += 1;
        match self.st.ops.get_mut(op) {
            Some(c) => *c += 1,
            None => {
                self.st.ops.insert(op.into(), 1);
            }
        }
        if nontrivial {
            let mut h = hash(self.s.name) ^ hash(op).rotate_left(17) ^ (key.len() as u64).rotate_left(40);
            for b in key.iter().take(600) {
                h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
            }
            self.st.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.is_empty() || self.st.samples.len() < 6 && self.rng.chance(2) {
            let s = short(f());
            self.st.samples.push(format!("{}: {s}", self.s.name));
        }
    }
    /// compares, reports
    pub fn eq<T: PartialEq>(
        &mut self,
        op: &str,
        got: Result<T, String>,
        want: &T,
        show: impl Fn(&T) -> String,
        input: impl Fn() -> String,
    ) -> bool {
        match got {
            Ok(g) if g == *want => true,
            Ok(g) => {
                self.violation(op, input(), show(want), show(&g));
                false
            }
            Err(m) => {
                self.violation(op, input(), show(want), format!("panic: {m}"));
                false
            }
        }
    }

    // ---- inputs ----------------------------------------------------------------------------------------------
    pub fn value(&mut self, node: &Node, out: &mut Leaves) {
        match node {
            Node::Leaf(ty, map) => {
                let v = leaf(*ty, map.len() as u32, &mut self.rng);
                out.push(v)
            }
            Node::Prim { values, catch, captures, .. } => {
                let i = self.rng.below(values.len());
                out.push(i as u128);
                if i == *catch && *captures {
                    out.push(self.rng.next() as u8 as u128);
                }
            }
            Node::Array(xs) => xs.iter().for_each(|x| self.value(x, out)),
            Node::Struct(fs) => fs.iter().for_each(|(_, x)| self.value(x, out)),
            Node::Enum { variants, .. } => {
                let i = self.rng.below(variants.len());
                self.variant(variants, i, out)
            }
        }
    }
    /// a value of the whole type; fields which share bits agree with each other
    pub fn whole(&mut self) -> Option<Leaves> {
        let p = self.p;
        let mut v = Vec::new();
        self.value(&p.node, &mut v);
        if p.node.overlaps() {
            // what is read need not be what was written (characters, ids), so look for values that agree
            for _ in 0..200 {
                v = self.canon(&p.node, &v);
                if self.agrees(&v) {
                    return Some(v);
                }
                v.clear();
                self.value(&p.node, &mut v);
            }
            // rare: too many fields of few valid values share bits
            return None;
        }
        Some(v)
    }
    /// fields which share bits hold the same bits there
    fn agrees(&self, v: &[u128]) -> bool {
        let b = self.encode(&self.p.node, v);
        let Node::Struct(fs) = &self.p.node else { return true };
        let mut it = v.iter();
        for (fl, x) in fs {
            let mut alone = vec![0u8; self.p.bytes];
            x.encode(&mut it, &mut alone);
            let mut own = Vec::new();
            x.bits(&mut own);
            if *fl == Flag::Both && own.iter().any(|q| bit(&alone, *q) != bit(&b, *q)) {
                return false;
            }
        }
        true
    }
    pub fn variant(&mut self, variants: &[Var], i: usize, out: &mut Leaves) {
        out.push(i as u128);
        for (fl, x) in &variants[i].fields {
            if *fl == Flag::Capture && self.rng.chance(30) {
                let k = self.rng.below(variants.len());
                out.push(variants[k].id);
            } else {
                self.value(x, out);
            }
        }
    }
    /// a value that its bits can hold
    pub fn fitting(&mut self, node: &Node) -> Option<Leaves> {
        let mut v = Vec::new();
        self.value(node, &mut v);
        for _ in 0..4 {
            let c = self.canon(node, &v);
            if c == v {
                return Some(v);
            }
            v = c;
        }
        None
    }
    pub fn canon(&self, node: &Node, v: &[u128]) -> Leaves {
        let mut b = vec![0u8; self.p.bytes];
        node.encode(&mut v.iter(), &mut b);
        let mut o = Vec::new();
        node.decode(&b, true, &mut o);
        o
    }
    pub fn encode(&self, node: &Node, v: &[u128]) -> Vec<u8> {
        let mut b = vec![0u8; self.p.bytes];
        node.encode(&mut v.iter(), &mut b);
        b
    }
    pub fn decode(&self, node: &Node, b: &[u8]) -> Leaves {
        let mut o = Vec::new();
        node.decode(b, true, &mut o);
        o
    }
    /// all-or-nothing patterns, every single bit set/cleared, noise, valid encodings with noise
    pub fn buffers(&mut self) -> Vec<Vec<u8>> {
        let n = self.p.bytes;
        let mut out = vec![vec![0; n], vec![0xff; n], vec![0x55; n], vec![0xaa; n]];
        let walk = if n * 8 <= 400 { (0..n * 8).collect() } else {
            (0..200).map(|_| self.rng.below(n * 8)).collect::<Vec<_>>()
        };
        for q in walk {
            let mut b = vec![0; n];
            set(&mut b, q as i32, true);
            let mut c = vec![0xff; n];
            set(&mut c, q as i32, false);
            out.push(b);
            out.push(c);
        }
        for i in 0..self.n {
            let mut b = self.noise();
            if i % 2 == 1 {
                let p = self.p;
                let Some(v) = self.whole() else { continue };
                let e = self.encode(&p.node, &v);
                if self.rng.chance(50) {
                    b = e;
                } else {
                    let m = self.noise();
                    for k in 0..n {
                        b[k] = e[k] ^ (b[k] & m[k] & self.rng.next() as u8);
                    }
                }
            }
            out.push(b);
        }
        out
    }
    pub fn noise(&mut self) -> Vec<u8> {
        let rng = &mut self.rng;
        (0..self.p.bytes).map(|_| rng.next() as u8).collect()
    }
    pub fn background(&mut self) -> Vec<u8> {
        match self.rng.below(4) {
            0 => vec![0; self.p.bytes],
            1 => vec![0xff; self.p.bytes],
            _ => self.noise(),
        }
    }
    /// the buffer after storing `v` into field `acc`
    pub fn stored(&self, acc: &AccSpec, before: &[u8], v: &[u128]) -> Vec<u8> {
        let mut b = before.to_vec();
        for q in &acc.range {
            set(&mut b, *q, false);
        }
        acc.node.encode(&mut v.iter(), &mut b);
        b
    }
}

pub fn leaf(ty: Ty, len: u32, rng: &mut Rng) -> u128 {
    let w = ty.width();
    match ty {
        Ty::Bool => rng.next() as u128 & 1,
        Ty::Char => {
            const B: [u32; 9] = [0, 1, 0x41, 0x7f, 0x80, 0xD7FF, 0xE000, 0xFFFD, 0x10FFFF];
            match rng.below(4) {
                0 => B[rng.below(9)] as u128,
                1 => char::from_u32((rng.next() as u32) & ones(len) as u32).unwrap_or('x') as u128,
                _ => char::from_u32(rng.next() as u32 % 0x110000).unwrap_or('y') as u128,
            }
        }
        Ty::F(_) => match rng.below(6) {
            0 => 0,
            1 => 1 << (w - 1),
            2 => 1 << rng.below(w as usize),
            _ => rng.wide() & ones(w),
        },
        _ => {
            let low = ones(len);
            match rng.below(10) {
                0 => 0,
                1 => ones(w),
                2 => 1 << rng.below(w as usize),
                3 => low & ones(w),
                4 if len < w => 1 << len,
                5 if len > 0 => widen(ty, len, 1 << (len - 1)),
                6 if len > 0 => low >> 1,
                7 => rng.wide() & ones(w),
                _ => widen(ty, len, rng.wide() & low),
            }
        }
    }
}

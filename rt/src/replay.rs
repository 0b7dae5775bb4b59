//! The same calls on another machine. `record` asks the model what every call has to give and writes calls and results
//! into a file; `replay` makes the calls, on whatever machine it runs, and compares.
use crate::model::*;
use crate::monitor::*;
use crate::*;

const NAMES: [&str; 22] = [
    "from_bytes", "into_bytes", "read", "write", "read_slice", "write_slice", "view read", "view write", "from_slice",
    "from_vec", "into_hex_upper", "into_hex_lower", "from_hex", "from_hex_slice", "read_variant_id", "write_variant_id",
    "id", "from_primitive", "into_primitive", "BYTE_SIZE, BIT_SIZE", "mutable view read", "== id",
];

// ---- the file ------------------------------------------------------------------------------------------------
/// few steps matter more than few bytes: an interpreter has to read it
fn num(o: &mut Vec<u8>, x: u128) {
    let n = 16 - x.leading_zeros() as usize / 8;
    o.push(n as u8);
    o.extend_from_slice(&x.to_le_bytes()[..n]);
}
fn nums(o: &mut Vec<u8>, v: &[u128]) {
    num(o, v.len() as u128);
    v.iter().for_each(|x| num(o, *x));
}
fn bytes(o: &mut Vec<u8>, v: &[u8]) {
    num(o, v.len() as u128);
    o.extend_from_slice(v);
}
struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn num(&mut self) -> u128 {
        let n = self.0[0] as usize;
        let mut x = [0; 16];
        x[..n].copy_from_slice(&self.0[1..n + 1]);
        self.0 = &self.0[n + 1..];
        u128::from_le_bytes(x)
    }
    fn nums(&mut self) -> Vec<u128> {
        let n = self.num() as usize;
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(self.num());
        }
        v
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.num() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
}

// ---- results as bytes ----------------------------------------------------------------------------------------
fn of_leaves(v: &[u128]) -> Vec<u8> {
    let mut o = vec![0];
    nums(&mut o, v);
    o
}
fn of_len(l: &Len) -> Vec<u8> {
    let mut o = vec![1];
    nums(&mut o, &[l.0 as u128, l.1 as u128]);
    o
}
fn of_read(r: &Result<Leaves, Len>) -> Vec<u8> {
    match r {
        Ok(v) => of_leaves(v),
        Err(l) => of_len(l),
    }
}
fn of_bytes(b: &[u8]) -> Vec<u8> {
    let mut o = vec![2];
    bytes(&mut o, b);
    o
}
fn of_written(r: &Result<(), Len>, b: &[u8]) -> Vec<u8> {
    let mut o = match r {
        Ok(()) => vec![],
        Err(l) => of_len(l),
    };
    o.extend(of_bytes(b));
    o
}
fn of_hex(r: &Result<Leaves, HexErr>) -> Vec<u8> {
    match r {
        Ok(v) => of_leaves(v),
        Err(HexErr::Len(a, b)) => of_len(&(*a, *b)),
        Err(HexErr::Char(c, i)) => {
            let mut o = vec![3];
            nums(&mut o, &[*c as u128, *i as u128]);
            o
        }
    }
}
fn show(b: &[u8]) -> String {
    let (mut i, mut o) = (In(b), Vec::new());
    while !i.0.is_empty() {
        let k = i.0[0];
        i.0 = &i.0[1..];
        o.push(match k {
            0 => vals(&i.nums()),
            1 => format!("error {:?}", i.nums()),
            2 => hexs(i.bytes()),
            3 => format!("wrong digit {:?}", i.nums()),
            _ => format!("panic: {}", String::from_utf8_lossy(std::mem::take(&mut i.0))),
        });
    }
    o.join(" and ")
}

/// one call of one function
struct Call<'a> {
    op: usize,
    acc: usize,
    buf: &'a [u8],
    val: Vec<u128>,
}
fn make(s: &Subject, c: &Call) -> Vec<u8> {
    let (b, v) = (c.buf, &c.val[..]);
    let a = || &s.accs[c.acc];
    let slice = || s.accs[c.acc].slice.as_ref().expect("harness: slice");
    let view = || s.accs[c.acc].view.as_ref().expect("harness: view");
    let dynf = || s.dynf.as_ref().expect("harness: dyn");
    let hex = || s.hex.as_ref().expect("harness: hex");
    let id = || s.id.as_ref().expect("harness: id");
    let prim = || s.prim.as_ref().expect("harness: prim");
    match c.op {
        0 => of_leaves(&(s.from)(b)),
        1 => of_bytes(&(s.into)(v)),
        2 => of_leaves(&(a().read)(b)),
        3 => {
            let mut b = b.to_vec();
            (a().write)(&mut b, v);
            of_bytes(&b)
        }
        4 => of_read(&(slice().read)(b)),
        5 => {
            let mut b = b.to_vec();
            let r = (slice().write)(&mut b, v);
            of_written(&r, &b)
        }
        6 => of_read(&(view().read)(b)),
        7 => {
            let mut b = b.to_vec();
            let r = (view().write)(&mut b, v);
            of_written(&r, &b)
        }
        8 => of_read(&(dynf().from_slice)(b)),
        9 => {
            let mut b = b.to_vec();
            let mut o = of_read(&(dynf().from_vec)(&mut b));
            o.extend(of_bytes(&b));
            o
        }
        10 => of_bytes(&(hex().upper)(v)),
        11 => of_bytes(&(hex().lower)(v)),
        12 => of_hex(&(hex().from)(b)),
        13 => of_hex(&(hex().from_slice.expect("harness: hex slice"))(b)),
        14 => of_leaves(&[(id().read)(b)]),
        15 => {
            let mut b = b.to_vec();
            (id().write)(&mut b, v[0]);
            of_bytes(&b)
        }
        16 => of_leaves(&[(id().of)(v)]),
        17 => of_leaves(&(prim().from)(b[0])),
        18 => of_bytes(&[(prim().into)(v)]),
        19 => of_leaves(&[s.byte_size as u128, s.bit_size as u128]),
        20 => of_read(&(view().read_mut)(&mut b.to_vec())),
        21 => of_leaves(&[(id().eq.expect("harness: eq"))(&v[1..], v[0]) as u128]),
        _ => panic!("harness: call {}", c.op),
    }
}

/// what is recorded of one type, and what kinds of calls
struct Tape(Vec<u8>, u128, Vec<(usize, Vec<u8>)>);
impl Tape {
    fn put(&mut self, op: usize, acc: usize, buf: &[u8], val: &[u128], want: Vec<u8>) {
        self.1 += 1;
        let mut key = vec![acc as u8];
        nums(&mut key, val);
        key.extend(buf);
        key.extend(&want);
        self.2.push((op, key));
        self.0.push(op as u8);
        num(&mut self.0, acc as u128);
        bytes(&mut self.0, buf);
        nums(&mut self.0, val);
        bytes(&mut self.0, &want);
    }
}

pub fn record(c: &mut Ctx, index: usize, out: &mut Vec<u8>) {
    let (s, p) = (c.s, c.p);
    let mut t = Tape(Vec::new(), 0, Vec::new());
    t.put(19, 0, &[], &[], of_leaves(&[p.bytes as u128, p.bits as u128]));
    if (s.byte_size, s.bit_size) != (p.bytes, p.bits) {
        // nothing else can be judged on a type of another size
        num(out, index as u128);
        num(out, 1);
        out.extend(t.0);
        return;
    }
    let all = c.buffers();
    for k in 0..c.n + 4 {
        let b = match k {
            0..=3 => all[k].clone(),
            _ => all[c.rng.below(all.len())].clone(),
        };
        let back = of_leaves(&c.decode(&p.node, &b));
        t.put(0, 0, &b, &[], back.clone());
        if let (Some(_), true) = (&s.dynf, k % 2 == 0) {
            let mut longer = b.clone();
            longer.extend(&all[c.rng.below(all.len())][..c.rng.below(p.bytes + 1)]);
            t.put(8, 0, &longer, &[], back.clone());
            let mut o = back.clone();
            o.extend(of_bytes(&longer[p.bytes..]));
            t.put(9, 0, &longer, &[], o);
            if p.bytes > 0 {
                let short = &b[..c.rng.below(p.bytes)];
                t.put(8, 0, short, &[], of_len(&(short.len(), p.bytes)));
            }
        }
        if let Some(v) = c.whole() {
            let e = c.encode(&p.node, &v);
            t.put(1, 0, &[], &v, of_bytes(&e));
            if let (Some(h), true) = (&s.hex, k % 2 == 0) {
                let low: Vec<u8> = hexs(&e).into_bytes();
                let up = low.to_ascii_uppercase();
                let back = of_leaves(&c.decode(&p.node, &e));
                t.put(10, 0, &[], &v, of_bytes(&up));
                t.put(11, 0, &[], &v, of_bytes(&low));
                t.put(12, 0, &up, &[], back.clone());
                if h.from_slice.is_some() {
                    t.put(13, 0, &low, &[], back);
                }
                if !low.is_empty() {
                    let i = c.rng.below(low.len());
                    let mut wrong = low.clone();
                    wrong[i] = b'g';
                    t.put(12, 0, &wrong, &[], of_hex(&Err(HexErr::Char('g', i))));
                }
            }
            if let (Some(f), Node::Enum { id, variants, .. }) = (&s.id, &p.node) {
                let var = &variants[v[0] as usize];
                let x = if var.captures { v[1] } else { var.id };
                if x <= ones(id.len() as u32) {
                    t.put(16, 0, &[], &v, of_leaves(&[x]));
                }
                if f.eq.is_some() && x <= ones(id.len() as u32) {
                    let mut w = vec![x];
                    w.extend(&v);
                    t.put(21, 0, &[], &w, of_leaves(&[1]));
                    w[0] ^= 1 << c.rng.below(id.len());
                    t.put(21, 0, &[], &w, of_leaves(&[0]));
                }
            }
        }
        if let (Some(_), Node::Enum { id, .. }) = (&s.id, &p.node) {
            let mut x = 0u128;
            id.iter().enumerate().for_each(|(k, q)| x |= (bit(&b, *q) as u128) << k);
            t.put(14, 0, &b, &[], of_leaves(&[x]));
            let y = c.rng.wide() & ones(id.len() as u32);
            let mut st = b.clone();
            id.iter().enumerate().for_each(|(k, q)| set(&mut st, *q, y >> k & 1 == 1));
            t.put(15, 0, &b, &[y], of_bytes(&st));
        }
        if let (Some(_), Node::Prim { catch, captures, .. }) = (&s.prim, &p.node) {
            let v = c.decode(&p.node, &b);
            t.put(17, 0, &b, &[], of_leaves(&v));
            if v[0] as usize != *catch || *captures {
                t.put(18, 0, &[], &v, of_bytes(&b));
            }
        }
    }
    for (i, a) in p.accs.iter().enumerate() {
        let (real, need) = (&s.accs[i], a.need());
        for k in 0..3 {
            let b = all[if k == 0 { c.rng.below(4) } else { c.rng.below(all.len()) }].clone();
            let got = of_leaves(&c.decode(&a.node, &b));
            t.put(2, i, &b, &[], got.clone());
            if real.slice.is_some() {
                t.put(4, i, &b[..need], &[], got.clone());
                if need > 0 && k == 0 {
                    let len = c.rng.below(need);
                    t.put(4, i, &b[..len], &[], of_len(&(len, need)));
                }
            }
            if real.view.is_some() {
                t.put([6, 20][k % 2], i, &b, &[], got);
            }
            if a.flag == Flag::Capture {
                continue;
            }
            let mut v = Vec::new();
            c.value(&a.node, &mut v);
            let st = of_bytes(&c.stored(a, &b, &v));
            t.put(3, i, &b, &v, st.clone());
            if real.slice.is_some() && k < 2 {
                t.put(5, i, &b, &v, st.clone());
            }
            if real.view.is_some() && k < 2 {
                t.put(7, i, &b, &v, st);
            }
        }
    }
    num(out, index as u128);
    num(out, t.1);
    out.extend(t.0);
    for (op, key) in t.2 {
        c.seen(NAMES[op], &key, key.iter().skip(2).any(|x| *x != 0));
    }
}

pub fn replay(subjects: &[fn() -> Subject], tape: &[u8], st: &mut Stats) {
    let mut i = In(tape);
    while !i.0.is_empty() {
        let s = subjects[i.num() as usize]();
        st.types += 1;
        st.fields += s.accs.len() as u64;
        let mut bad = 0;
        for _ in 0..i.num() {
            let op = i.0[0] as usize;
            i.0 = &i.0[1..];
            let c = Call { op, acc: i.num() as usize, buf: i.bytes(), val: i.nums() };
            let want = i.bytes();
            let got = call(|| make(&s, &c)).unwrap_or_else(|m| [&[9], m.as_bytes()].concat());
            st.evaluations += 1;
            let name = || match op {
                2..=7 | 20 => format!("{} {}", NAMES[op], s.accs[c.acc].name),
                _ => NAMES[op].to_string(),
            };
            let input = || format!("bytes {} values {}", hexs(c.buf), vals(&c.val));
            if got != want {
                st.violation_count += 1;
                bad += 1;
                if bad <= 3 {
                    st.violation(s.name, &name(), input(), show(want), show(&got));
                }
            } else if st.samples.len() < 3 && c.op != 19 && st.evaluations % 97 == 5 {
                st.samples.push(format!("{}: {} of {} = {}", s.name, name(), input(), show(want)));
            }
        }
    }
}

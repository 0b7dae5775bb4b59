//! One monitor per property. Each drives one subject and judges every observation.
use crate::model::*;
use crate::monitor::*;
use crate::*;

pub fn run(prop: &str, c: &mut Ctx) {
    match prop {
        "roundtrip" => roundtrip(c),
        "layout" => layout(c),
        "read" => read(c),
        "write" => write(c),
        "trunc" => trunc(c),
        "sign" => sign(c),
        "total" => total(c),
        "ids" => ids(c),
        "payload" => payload(c),
        "prim" => prim(c),
        "sizes" => sizes(c),
        "slice" => slice(c),
        "view" => view(c),
        "owned" => owned(c),
        "hex" => hex(c),
        "hexerr" => hexerr(c),
        "ideq" => ideq(c),
        "history" => history(c),
        "array" => {
            layout(c);
            elements(c);
        }
        "all" => {
            layout(c);
            read(c);
            write(c);
        }
        _ => panic!("unknown monitor {prop}"),
    }
}

fn inb(b: &[u8]) -> String {
    format!("bytes {}", hexs(b))
}

/// values that fit come back unchanged, conversions are repeatable
fn roundtrip(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    for _ in 0..c.n * 2 {
        let Some(v) = c.fitting(&p.node) else { continue };
        let bytes = call(|| (s.into)(&v));
        let again = call(|| (s.into)(&v));
        let nt = v.iter().any(|x| *x != 0);
        match bytes {
            Ok(b) => {
                c.seen("round trip", &b, nt);
                c.sample(|| format!("{} -> {}", vals(&v), hexs(&b)));
                if again.as_ref().ok() != Some(&b) {
                    c.violation("into_bytes twice", vals(&v), hexs(&b), format!("{again:?}"));
                }
                let got = call(|| (s.from)(&b));
                c.eq("from_bytes(into_bytes(value))", got, &v, |x| vals(x), || format!("{} = {}", vals(&v), hexs(&b)));
                // the bits the value is not stored in have no influence on it
                let mut free = vec![0xffu8; p.bytes];
                let mut own = Vec::new();
                p.node.bits(&mut own);
                own.iter().for_each(|q| set(&mut free, *q, false));
                let noise = c.noise();
                let b2: Vec<u8> = b.iter().zip(&free).zip(&noise).map(|((x, m), n)| x | (m & n)).collect();
                if b2 != b {
                    let got = call(|| (s.from)(&b2));
                    c.eq("from_bytes after changing unused bits", got, &v, |x| vals(x), || inb(&b2));
                    c.seen("unused bits changed", &b2, true);
                }
            }
            Err(m) => c.violation("into_bytes", vals(&v), "bytes".into(), format!("panic: {m}")),
        }
    }
}

/// into_bytes and from_bytes put and look for every bit where the model says
fn layout(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let mut all = Vec::new();
    for k in 0..c.n * 2 {
        let Some(mut v) = c.whole() else { continue };
        if k % 2 == 0 {
            v = c.canon(&p.node, &v);
        }
        all.push(v);
    }
    // one leaf at a time all ones, everything else zero
    if let Node::Struct(_) = p.node {
        let shape = c.canon(&p.node, &all[0].clone());
        if simple(&p.node) && !p.node.overlaps() {
            for i in 0..shape.len().min(64) {
                let mut v = vec![0u128; shape.len()];
                v[i] = u128::MAX;
                fix(&p.node, &mut v);
                all.push(v);
            }
        }
    }
    for v in all {
        let want = c.encode(&p.node, &v);
        let got = call(|| (s.into)(&v));
        c.seen("into_bytes", &want, want.iter().any(|x| *x != 0));
        c.sample(|| format!("{} -> {}", vals(&v), hexs(&want)));
        c.eq("into_bytes", got, &want, |x| hexs(x), || vals(&v));
        let want_v = c.decode(&p.node, &want);
        let got = call(|| (s.from)(&want));
        c.eq("from_bytes", got, &want_v, |x| vals(x), || inb(&want));
        c.seen("from_bytes", &want, want.iter().any(|x| *x != 0));
    }
}
/// only leaves below arrays and structs
fn simple(n: &Node) -> bool {
    match n {
        Node::Leaf(..) => true,
        Node::Array(x) => x.iter().all(simple),
        Node::Struct(x) => x.iter().all(|(_, x)| simple(x)),
        _ => false,
    }
}
/// cut arbitrary leaf bits down to valid values of their types
fn fix(n: &Node, v: &mut [u128]) {
    fn go(n: &Node, v: &mut std::slice::IterMut<u128>) {
        match n {
            Node::Leaf(ty, _) => {
                let x = v.next().unwrap();
                *x &= ones(ty.width());
                if *ty == Ty::Char && char::from_u32(*x as u32).is_none() {
                    *x = 0x10FFFF;
                }
            }
            Node::Array(x) => x.iter().for_each(|x| go(x, v)),
            Node::Struct(x) => x.iter().for_each(|(_, x)| go(x, v)),
            _ => {}
        }
    }
    go(n, &mut v.iter_mut())
}

/// reads of arbitrary bytes
fn read(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    for b in c.buffers() {
        let nt = b.iter().any(|x| *x != 0);
        let want = c.decode(&p.node, &b);
        let got = call(|| (s.from)(&b));
        c.seen("from_bytes", &b, nt);
        c.sample(|| format!("{} -> {}", hexs(&b), vals(&want)));
        c.eq("from_bytes", got, &want, |x| vals(x), || inb(&b));
        for (i, a) in p.accs.iter().enumerate() {
            let want = c.decode(&a.node, &b);
            let f = s.accs[i].read;
            let got = call(|| f(&b));
            c.seen("read", &b, nt);
            c.eq(&format!("read_{}", a.name), got, &want, |x| vals(x), || inb(&b));
        }
        // bits outside of a field do not influence it
        if !p.accs.is_empty() {
            let i = c.rng.below(p.accs.len());
            let a = &p.accs[i];
            let mut b2 = c.noise();
            a.range.iter().for_each(|q| set(&mut b2, *q, bit(&b, *q)));
            let f = s.accs[i].read;
            let (x, y) = (call(|| f(&b)), call(|| f(&b2)));
            if let Ok(x) = x {
                c.seen("read with other bits changed", &b2, true);
                c.eq(&format!("read_{} with other bits changed", a.name), y, &x, |x| vals(x), || {
                    format!("{} and {}", hexs(&b), hexs(&b2))
                });
            }
        }
    }
}

/// writes of one field
fn write(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    for (i, a) in p.written().iter().enumerate() {
        if s.accs[i].name != a.name {
            panic!("harness: accessor order");
        }
        for _ in 0..c.n {
            let before = c.background();
            let mut v = Vec::new();
            c.value(&a.node, &mut v);
            let want = c.stored(a, &before, &v);
            let f = s.accs[i].write;
            let got = call(|| {
                let mut b = before.clone();
                f(&mut b, &v);
                b
            });
            let input = || format!("{} into {}", vals(&v), hexs(&before));
            c.seen("write", &want, want != before);
            c.sample(|| format!("write_{} {} into {} -> {}", a.name, vals(&v), hexs(&before), hexs(&want)));
            c.eq(&format!("write_{}", a.name), got, &want, |x| hexs(x), input);
            let back = c.decode(&a.node, &want);
            let r = s.accs[i].read;
            let got = call(|| {
                let mut b = before.clone();
                f(&mut b, &v);
                r(&b)
            });
            c.seen("read after write", &want, true);
            c.eq(&format!("read_{0} after write_{0}", a.name), got, &back, |x| vals(x), input);
            // writing what is there changes nothing
            let got = call(|| {
                let mut b = want.clone();
                f(&mut b, &r(&want));
                b
            });
            let mut keep = want.clone();
            keep = c.stored(a, &keep, &back);
            c.eq(&format!("write_{0}(read_{0})", a.name), got, &keep, |x| hexs(x), || inb(&want));
        }
    }
}

/// values too large for their field are cut down to its low bits and touch nothing else
fn trunc(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    for _ in 0..c.n * 2 {
        let Some(v) = c.whole() else { continue };
        let low = c.canon(&p.node, &v);
        let want = c.encode(&p.node, &v);
        let got = call(|| (s.into)(&v));
        let over = low != v;
        c.seen("into_bytes of too large values", &want, over);
        c.sample(|| format!("{} -> {} = {}", vals(&v), hexs(&want), vals(&low)));
        c.eq("into_bytes", got, &want, |x| hexs(x), || vals(&v));
        let got = call(|| (s.from)(&(s.into)(&v)));
        c.eq("from_bytes(into_bytes(value))", got, &low, |x| vals(x), || vals(&v));
    }
    for (i, a) in p.written().iter().enumerate() {
        for _ in 0..c.n / 2 + 1 {
            let before = c.background();
            let mut v = Vec::new();
            c.value(&a.node, &mut v);
            let want = c.stored(a, &before, &v);
            let low = c.decode(&a.node, &want);
            let f = s.accs[i].write;
            let got = call(|| {
                let mut b = before.clone();
                f(&mut b, &v);
                b
            });
            c.seen("write of too large values", &want, low != v);
            c.eq(&format!("write_{}", a.name), got, &want, |x| hexs(x), || {
                format!("{} into {}", vals(&v), hexs(&before))
            });
            let r = s.accs[i].read;
            let got = call(|| {
                let mut b = before.clone();
                f(&mut b, &v);
                r(&b)
            });
            c.eq(&format!("read_{0} after write_{0}", a.name), got, &low, |x| vals(x), || {
                format!("{} into {}", vals(&v), hexs(&before))
            });
        }
    }
}

/// signed numbers of any length
fn sign(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    for (i, a) in p.written().iter().enumerate() {
        let mut leaves = Vec::new();
        fn collect<'n>(n: &'n Node, o: &mut Vec<&'n [i32]>) {
            match n {
                Node::Leaf(Ty::I(_), m) => o.push(m),
                Node::Array(x) => x.iter().for_each(|x| collect(x, o)),
                _ => {}
            }
        }
        collect(&a.node, &mut leaves);
        for m in &leaves {
            let len = m.len() as u32;
            let mut raws: Vec<u128> = if len <= 8 {
                (0..=ones(len)).collect()
            } else {
                let mut x = vec![0, 1, ones(len), ones(len) >> 1, 1 << (len - 1), (1 << (len - 1)) | 1, ones(len) - 1];
                (0..len).for_each(|k| x.extend([1u128 << k, ones(len) ^ (1u128 << k)]));
                x
            };
            (0..c.n).for_each(|_| raws.push(c.rng.wide() & ones(len)));
            for raw in raws {
                let mut b = c.background();
                m.iter().enumerate().for_each(|(k, q)| set(&mut b, *q, raw >> k & 1 == 1));
                let neg = raw >> (len - 1) & 1 == 1;
                let want = c.decode(&a.node, &b);
                let r = s.accs[i].read;
                let got = call(|| r(&b));
                c.seen(if neg { "read negative" } else { "read non-negative" }, &b, true);
                c.sample(|| format!("read_{} of {} = {}", a.name, hexs(&b), vals(&want)));
                c.eq(&format!("read_{}", a.name), got, &want, |x| vals(x), || inb(&b));
                let whole = c.decode(&p.node, &b);
                let got = call(|| (s.from)(&b));
                c.eq("from_bytes", got, &whole, |x| vals(x), || inb(&b));
                let f = s.accs[i].write;
                let before = c.background();
                let want_b = c.stored(a, &before, &want);
                let got = call(|| {
                    let mut b = before.clone();
                    f(&mut b, &want);
                    b
                });
                c.eq(&format!("write_{}", a.name), got, &want_b, |x| hexs(x), || {
                    format!("{} into {}", vals(&want), hexs(&before))
                });
                c.seen("write signed", &want_b, true);
            }
        }
    }
}

/// conversions are total and settle after one step
fn total(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    for b in c.buffers() {
        c.seen("decode arbitrary bytes", &b, b.iter().any(|x| *x != 0));
        let v = match call(|| (s.from)(&b)) {
            Ok(v) => v,
            Err(m) => {
                c.violation("from_bytes", inb(&b), "a value".into(), format!("panic: {m}"));
                continue;
            }
        };
        c.sample(|| format!("{} -> {}", hexs(&b), vals(&v)));
        let e = match call(|| (s.into)(&v)) {
            Ok(e) => e,
            Err(m) => {
                c.violation("into_bytes(from_bytes)", inb(&b), "bytes".into(), format!("panic: {m}"));
                continue;
            }
        };
        let v2 = call(|| (s.from)(&e));
        match &v2 {
            // fields which share bits and cannot hold them both do not settle
            Ok(_) if p.node.cut() || p.node.overlaps() => {}
            Ok(v2) => {
                let e2 = call(|| (s.into)(v2));
                c.eq("encode after decode after encode", e2, &e, |x| hexs(x), || inb(&b));
                // fields which are written come back the same
                let (x, y) = (c.writable(v2), c.writable(&v));
                if x != y {
                    c.violation("decode after encode after decode", inb(&b), vals(&v), vals(v2));
                }
            }
            Err(m) => c.violation("from_bytes(into_bytes(from_bytes))", inb(&b), "a value".into(), format!("panic: {m}")),
        }
        for (i, a) in p.accs.iter().enumerate() {
            let r = s.accs[i].read;
            c.seen("read arbitrary bytes", &b, true);
            if let Err(m) = call(|| r(&b)) {
                c.violation(&format!("read_{}", a.name), inb(&b), "a value".into(), format!("panic: {m}"));
            }
        }
    }
    for _ in 0..c.n * 2 {
        let Some(v) = c.whole() else { continue };
        match call(|| (s.into)(&v)) {
            Ok(b) => c.seen("encode arbitrary value", &b, true),
            Err(m) => c.violation("into_bytes", vals(&v), "bytes".into(), format!("panic: {m}")),
        }
        if !p.written().is_empty() {
            let i = c.rng.below(p.written().len());
            let mut v = Vec::new();
            c.value(&p.accs[i].node, &mut v);
            let mut b = c.background();
            let f = s.accs[i].write;
            c.seen("write arbitrary value", &b, true);
            if let Err(m) = call(|| f(&mut b, &v)) {
                c.violation(&format!("write_{}", p.accs[i].name), vals(&v), "no panic".into(), format!("panic: {m}"));
            }
        }
    }
}

/// enum ids
fn ids(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let Node::Enum { id, variants, catch } = &p.node else { return };
    let Some(f) = &s.id else { panic!("harness: no id functions") };
    let len = id.len() as u32;
    let mut raws: Vec<u128> = if len <= 10 { (0..=ones(len)).collect() } else {
        let mut x: Vec<u128> = vec![0, 1, ones(len), ones(len) >> 1, 1 << (len - 1)];
        (0..len).for_each(|k| x.push(1 << k));
        for v in variants {
            x.push(v.id);
            x.push(v.id.wrapping_add(1) & ones(len));
            x.push(v.id.wrapping_sub(1) & ones(len));
            (0..len).for_each(|k| x.push(v.id ^ (1 << k)));
        }
        (0..40).for_each(|_| x.push(c.rng.wide() & ones(len)));
        x
    };
    raws.extend(variants.iter().map(|v| v.id));
    for raw in raws {
        let mut b = c.background();
        id.iter().enumerate().for_each(|(k, q)| set(&mut b, *q, raw >> k & 1 == 1));
        let known = variants.iter().position(|v| v.id == raw);
        c.seen(if known.is_some() { "decode declared id" } else { "decode unknown id" }, &b, true);
        let want = c.decode(&p.node, &b);
        let got = call(|| (s.from)(&b));
        c.sample(|| format!("id {raw} in {} -> variant {}", hexs(&b), want[0]));
        c.eq("from_bytes", got, &want, |x| vals(x), || inb(&b));
        let got = call(|| (f.read)(&b));
        c.eq("read_variant_id", got, &raw, |x| x.to_string(), || inb(&b));
        // write the id
        let before = c.background();
        let mut want = before.clone();
        id.iter().enumerate().for_each(|(k, q)| set(&mut want, *q, raw >> k & 1 == 1));
        let got = call(|| {
            let mut b = before.clone();
            (f.write)(&mut b, raw);
            b
        });
        c.seen("write id", &want, true);
        c.eq("write_variant_id", got, &want, |x| hexs(x), || format!("{raw} into {}", hexs(&before)));
    }
    for (i, var) in variants.iter().enumerate() {
        for _ in 0..4 {
            let mut v = Vec::new();
            c.variant(variants, i, &mut v);
            let want_id = if var.captures { v[1] & ones(len) } else { var.id };
            c.seen("encode variant", &[i as u8, want_id as u8], true);
            let got = call(|| (f.of)(&v));
            if !var.captures || v[1] <= ones(len) {
                c.eq("id()", got, &want_id, |x| x.to_string(), || vals(&v));
            }
            let got = call(|| {
                let b = (s.into)(&v);
                let mut x = 0u128;
                id.iter().enumerate().for_each(|(k, q)| x |= (bit(&b, *q) as u128) << k);
                x
            });
            c.eq("id in into_bytes", got, &want_id, |x| x.to_string(), || vals(&v));
            // and comes back as the variant with that id
            let to = variants.iter().enumerate().position(|(k, x)| x.id == want_id && k != *catch).unwrap_or(*catch);
            let got = call(|| (s.from)(&(s.into)(&v))[0]);
            c.eq("variant after round trip", got, &(to as u128), |x| x.to_string(), || vals(&v));
        }
    }
}

/// enum payloads: every variant, all padding zero, everything after the id
fn payload(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let Node::Enum { variants, .. } = &p.node else { return };
    c.check_size();
    for i in 0..variants.len() {
        for k in 0..c.n {
            let mut v = Vec::new();
            c.variant(variants, i, &mut v);
            if k % 2 == 0 || p.node.overlaps() {
                v = c.canon(&p.node, &v);
            }
            let want = c.encode(&p.node, &v);
            let got = call(|| (s.into)(&v));
            c.seen(&format!("encode variant {i}"), &want, true);
            c.sample(|| format!("{} -> {}", vals(&v), hexs(&want)));
            c.eq("into_bytes", got, &want, |x| hexs(x), || vals(&v));
            let back = c.decode(&p.node, &want);
            let got = call(|| (s.from)(&want));
            c.seen(&format!("decode variant {}", back[0]), &want, true);
            c.eq("from_bytes", got, &back, |x| vals(x), || inb(&want));
            // whatever is in the padding
            let mut own = Vec::new();
            if let Node::Enum { id, .. } = &p.node {
                own.extend(id.iter().copied());
            }
            variants[back[0] as usize].fields.iter().for_each(|(_, x)| x.bits(&mut own));
            let mut b = c.noise();
            own.iter().for_each(|q| set(&mut b, *q, bit(&want, *q)));
            let got = call(|| (s.from)(&b));
            c.seen("decode with noise in the padding", &b, true);
            c.eq("from_bytes with noise in the padding", got, &back, |x| vals(x), || inb(&b));
        }
    }
    read(c);
    write(c);
}

/// BitfieldEnum over its whole domain
fn prim(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let Node::Prim { values, catch, captures, .. } = &p.node else { return };
    let Some(f) = &s.prim else { return };
    for x in 0..=255u8 {
        let want = c.decode(&p.node, &[x]);
        c.seen("from_primitive", &[x], true);
        let got = call(|| (f.from)(x));
        c.sample(|| format!("{x} -> variant {}", want[0]));
        if !c.eq("from_primitive", got, &want, |x| vals(x), || x.to_string()) {
            continue;
        }
        let back = c.encode(&p.node, &want)[0];
        let got = call(|| (f.into)(&want));
        c.seen("into_primitive", &[x], true);
        c.eq("into_primitive(from_primitive)", got, &back, |x| x.to_string(), || x.to_string());
        let i = want[0] as usize;
        if (i != *catch || *captures) && back != x {
            panic!("harness: model");
        }
        for y in 0..=255u8 {
            if let Some(eq) = &f.eq {
                // a catch variant stands for many values and is documented to equal none of them
                c.eq("value == primitive", call(|| eq(&want, y)), &(i != *catch && back == y), |x| x.to_string(), || format!("{x} == {y}"));
                c.seen("value == primitive", &[x, y], true);
            }
        }
    }
    for i in 0..values.len() {
        if i == *catch && *captures {
            continue;
        }
        let v = vec![i as u128];
        c.seen("into_primitive of a variant", &[i as u8], true);
        c.eq("into_primitive", call(|| (f.into)(&v)), &(values[i] as u8), |x| x.to_string(), || vals(&v));
        let want = c.decode(&p.node, &[values[i] as u8]);
        c.eq("from_primitive(into_primitive)", call(|| (f.from)((f.into)(&v))), &want, |x| vals(x), || vals(&v));
    }
}

/// declared sizes, unused bits
fn sizes(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    c.check_size();
    let mut own = Vec::new();
    p.node.bits(&mut own);
    let mut used = vec![0u8; p.bytes];
    own.iter().for_each(|q| set(&mut used, *q, true));
    for _ in 0..c.n {
        let Some(v) = c.whole() else { continue };
        let b = match call(|| (s.into)(&v)) {
            Ok(b) => b,
            Err(m) => {
                c.violation("into_bytes", vals(&v), "bytes".into(), format!("panic: {m}"));
                continue;
            }
        };
        c.seen("into_bytes", &b, true);
        c.sample(|| format!("{} -> {} (used bits {})", vals(&v), hexs(&b), hexs(&used)));
        if b.len() != p.bytes || b.iter().zip(&used).any(|(x, m)| x & !m != 0) {
            c.violation("unused bits of into_bytes", vals(&v), format!("zero outside of {}", hexs(&used)), hexs(&b));
        }
        let want = c.encode(&p.node, &v);
        if want != b {
            c.violation("into_bytes", vals(&v), hexs(&want), hexs(&b));
        }
        let noise = c.noise();
        let base = c.noise();
        let b2: Vec<u8> = (0..p.bytes).map(|i| (base[i] & used[i]) | (noise[i] & !used[i])).collect();
        let b1: Vec<u8> = (0..p.bytes).map(|i| base[i] & used[i]).collect();
        let want = c.decode(&p.node, &b1);
        c.eq("from_bytes", call(|| (s.from)(&b1)), &want, |x| vals(x), || inb(&b1));
        c.eq("from_bytes with unused bits set", call(|| (s.from)(&b2)), &want, |x| vals(x), || inb(&b2));
        c.seen("from_bytes with unused bits set", &b2, b1 != b2);
    }
}

/// array elements one at a time
fn elements(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    read(c);
    for (i, a) in p.written().iter().enumerate() {
        let Node::Array(_) = a.node else { continue };
        for _ in 0..c.n {
            let before = c.background();
            let mut v = Vec::new();
            c.value(&a.node, &mut v);
            let want = c.stored(a, &before, &v);
            let f = s.accs[i].write;
            let got = call(|| {
                let mut b = before.clone();
                f(&mut b, &v);
                b
            });
            c.seen("write array", &want, true);
            c.eq(&format!("write_{}", a.name), got, &want, |x| hexs(x), || {
                format!("{} into {}", vals(&v), hexs(&before))
            });
        }
    }
}

fn need_len(l: &Result<Leaves, Len>) -> String {
    match l {
        Ok(v) => vals(v),
        Err((a, b)) => format!("length error ({a}, {b})"),
    }
}
fn wl(l: &(Result<(), Len>, Vec<u8>)) -> String {
    match l.0 {
        Ok(()) => hexs(&l.1),
        Err((a, b)) => format!("length error ({a}, {b}) and {}", hexs(&l.1)),
    }
}

/// slice accessors of every length
fn slice(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    for (i, a) in p.accs.iter().enumerate() {
        let Some(f) = &s.accs[i].slice else { panic!("harness: no slice accessor") };
        let need = a.need();
        for round in 0..(c.n / 6).max(2) {
            for len in lengths(c, need, p.bytes + 3, round == 0) {
                // enough bytes for the field; what is behind them plays no role
                let full = extended(c, len.max(p.bytes));
                let b = full[..len].to_vec();
                let mut v = Vec::new();
                c.value(&a.node, &mut v);
                let short = len < need;
                c.seen(if short { "too short slice" } else { "slice" }, &b, true);
                let want = if short { Err((len, need)) } else { Ok(c.decode(&a.node, &full)) };
                if round == 0 && len == need {
                    c.sample(|| format!("read_slice_{} of {} = {}", a.name, hexs(&b), need_len(&want)));
                }
                c.eq(&format!("read_slice_{}", a.name), call(|| (f.read)(&b)), &want, need_len, || inb(&b));
                if a.flag == Flag::Capture {
                    continue;
                }
                let mut stored = full.clone();
                if !short {
                    let x = c.stored(a, &full[..p.bytes], &v);
                    stored[..p.bytes].copy_from_slice(&x);
                }
                let want = (if short { Err((len, need)) } else { Ok(()) }, stored[..len].to_vec());
                let got = call(|| {
                    let mut b = b.clone();
                    let r = (f.write)(&mut b, &v);
                    (r, b)
                });
                c.eq(&format!("write_slice_{}", a.name), got, &want, wl, || format!("{} into {}", vals(&v), hexs(&b)));
                // the fixed size functions agree
                if len == p.bytes {
                    let r = s.accs[i].read;
                    let x = call(|| r(&b)).map(Ok);
                    let y = call(|| (f.read)(&b));
                    if x != y {
                        c.violation(&format!("read_slice_{0} like read_{0}", a.name), inb(&b), format!("{x:?}"), format!("{y:?}"));
                    }
                    let w = s.accs[i].write;
                    let x = call(|| {
                        let mut b = b.clone();
                        w(&mut b, &v);
                        b
                    });
                    let y = call(|| {
                        let mut b = b.clone();
                        let _ = (f.write)(&mut b, &v);
                        b
                    });
                    if x != y {
                        c.violation(&format!("write_slice_{0} like write_{0}", a.name), inb(&b), format!("{x:?}"), format!("{y:?}"));
                    }
                }
            }
        }
    }
    if let (Some(f), Node::Enum { id, .. }) = (&s.id, &p.node) {
        let need = id.iter().max().map_or(0, |q| *q as usize / 8 + 1);
        for len in lengths(c, need, p.bytes + 3, true) {
            let full = extended(c, len.max(p.bytes));
            let b = full[..len].to_vec();
            let mut x = 0u128;
            id.iter().enumerate().for_each(|(k, q)| x |= (bit(&full, *q) as u128) << k);
            let want = if len < need { Err((len, need)) } else { Ok(x) };
            if let Some(r) = f.read_slice {
                c.seen("variant id from slice", &b, true);
                c.eq("read_slice_variant_id", call(|| r(&b)), &want, |x| format!("{x:?}"), || inb(&b));
            }
            if let Some(w) = f.write_slice {
                let y = c.rng.wide() & ones(id.len() as u32);
                let mut st = full.clone();
                if len >= need {
                    id.iter().enumerate().for_each(|(k, q)| set(&mut st, *q, y >> k & 1 == 1));
                }
                let want = (if len < need { Err((len, need)) } else { Ok(()) }, st[..len].to_vec());
                let got = call(|| {
                    let mut b = b.clone();
                    let r = w(&mut b, y);
                    (r, b)
                });
                c.seen("variant id to slice", &b, true);
                c.eq("write_slice_variant_id", got, &want, wl, || inb(&b));
            }
        }
    }
}

/// lengths up to a limit, and some which are far longer, around the values at which a narrow counter starts over
fn lengths(c: &mut Ctx, need: usize, limit: usize, long: bool) -> Vec<usize> {
    let mut all: Vec<usize> = if limit <= 400 {
        (0..limit).collect()
    } else {
        let mut some: Vec<usize> = (0..20).chain(need.saturating_sub(8)..need + 12).chain(limit - 12..limit).collect();
        some.extend((4..20).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).filter(|x| *x < need));
        some.extend((0..20).map(|_| c.rng.below(need)));
        some
    };
    if long {
        let near = |c: &mut Ctx| c.rng.below(need + 2);
        all.extend([255, 256, 257, 65535, 65536]);
        all.extend([256 * (1 + c.rng.below(16)) + near(c), 65536 + near(c), 65536 * (1 + c.rng.below(3)) + near(c)]);
        all.extend([127 + c.rng.below(3), 32767 + c.rng.below(3)]);
    }
    all
}

/// a buffer, continued to `len` bytes
fn extended(c: &mut Ctx, len: usize) -> Vec<u8> {
    let mut b = c.background();
    let end = (b.len() + 64).min(len);
    let bg = c.rng.chance(30);
    while b.len() < end {
        b.push(if bg { 0xff } else { c.rng.next() as u8 });
    }
    if b.len() < len {
        b.resize(len, c.rng.next() as u8);
    }
    b
}

/// checked views
fn view(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let Some(df) = &s.dynf else { panic!("harness: no dyn functions") };
    for round in 0..(c.n / 6).max(2) {
        for len in lengths(c, p.bytes, p.bytes + 4, round == 0) {
            let full = extended(c, len.max(p.bytes));
            let b = full[..len].to_vec();
            let short = len < p.bytes;
            let want = if short { Err((len, p.bytes)) } else { Ok(()) };
            c.seen(if short { "too short" } else { "view" }, &b, true);
            c.eq("check_slice", call(|| (df.check)(&b)), &want, |x| format!("{x:?}"), || inb(&b));
            let got = call(|| {
                let mut x = b.clone();
                let r = (df.check_mut)(&mut x);
                (r, x)
            });
            c.eq("check_slice_mut", got, &(want.clone(), b.clone()), wl, || inb(&b));
            if let Some(look) = df.look {
                let want = want.map(|_| p.accs.iter().map(|a| c.decode(&a.node, &full)).collect::<Vec<_>>());
                c.seen("all reads of one view", &b, true);
                c.eq("reads of one view", call(|| look(&b)), &want, |x| format!("{x:x?}"), || inb(&b));
            }
            if !short {
                let (mut model, mut real) = (b.clone(), b.clone());
                if let Some(said) = session(c, &mut model, &mut real, 6) {
                    c.seen("one view kept", &model, true);
                    if !said.ends_with("(ok)") || model != real {
                        c.violation("one view kept", format!("{said} on {}", hexs(&b)), hexs(&model), hexs(&real));
                    }
                }
            }
            for (i, a) in p.accs.iter().enumerate() {
                let Some(f) = &s.accs[i].view else { panic!("harness: no view") };
                let mut v = Vec::new();
                c.value(&a.node, &mut v);
                let want = if short { Err((len, p.bytes)) } else { Ok(c.decode(&a.node, &full)) };
                c.eq(&format!("Checked::read_{}", a.name), call(|| (f.read)(&b)), &want, need_len, || inb(&b));
                let got = call(|| {
                    let mut x = b.clone();
                    let r = (f.read_mut)(&mut x);
                    (r, x)
                });
                c.eq(&format!("CheckedMut::read_{}", a.name), got, &(want.clone(), b.clone()), |x| {
                    format!("{} and {}", need_len(&x.0), hexs(&x.1))
                }, || inb(&b));
                if a.flag == Flag::Capture {
                    if !short {
                        c.eq(&format!("unchecked read_{}", a.name), call(|| Ok((f.un_read)(&b))), &want, need_len, || inb(&b));
                    }
                    continue;
                }
                let mut st = full.clone();
                if !short {
                    let x = c.stored(a, &full[..p.bytes], &v);
                    st[..p.bytes].copy_from_slice(&x);
                }
                let want_w = (if short { Err((len, p.bytes)) } else { Ok(()) }, st[..len].to_vec());
                let got = call(|| {
                    let mut x = b.clone();
                    let r = (f.write)(&mut x, &v);
                    (r, x)
                });
                let input = || format!("{} into {}", vals(&v), hexs(&b));
                c.seen("view write", &want_w.1, true);
                c.eq(&format!("CheckedMut::write_{}", a.name), got, &want_w, wl, input);
                if !short {
                    c.sample(|| format!("view of {}: {} = {}", hexs(&b), a.name, need_len(&want)));
                    c.eq(&format!("unchecked read_{}", a.name), call(|| Ok((f.un_read)(&b))), &want, need_len, || inb(&b));
                    let got = call(|| {
                        let mut x = b.clone();
                        (f.un_write)(&mut x, &v);
                        (Ok(()), x)
                    });
                    c.eq(&format!("unchecked write_{}", a.name), got, &want_w, wl, input);
                }
            }
        }
    }
}

/// several reads and writes through one view that is kept
fn session(c: &mut Ctx, model: &mut [u8], real: &mut [u8], count: usize) -> Option<String> {
    let (s, p) = (c.s, c.p);
    let f = s.dynf.as_ref()?.session?;
    if p.accs.is_empty() {
        return None;
    }
    let writable = p.written().len();
    let (mut steps, mut want) = (Vec::new(), Vec::new());
    for _ in 0..count {
        if writable > 0 && c.rng.chance(60) {
            let i = c.rng.below(writable);
            let a = &p.accs[i];
            let mut v = Vec::new();
            c.value(&a.node, &mut v);
            let x = c.stored(a, &model[..p.bytes], &v);
            model[..p.bytes].copy_from_slice(&x);
            steps.push((i, Some(v)));
        } else {
            let i = c.rng.below(p.accs.len());
            want.push(c.decode(&p.accs[i].node, model));
            steps.push((i, None));
        }
    }
    let said: Vec<String> = steps.iter().map(|(i, v)| match v {
        Some(v) => format!("write {} {}", p.accs[*i].name, vals(v)),
        None => format!("read {}", p.accs[*i].name),
    }).collect();
    let said = format!("one view: {} (", said.join(", "));
    Some(match call(|| f(real, &steps)) {
        Ok(Ok(got)) if got == want => said + "ok)",
        x => format!("{said}expected {want:x?}, observed {x:x?})"),
    })
}

/// from_slice and from_vec
fn owned(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let Some(df) = &s.dynf else { panic!("harness: no dyn functions") };
    for round in 0..(c.n / 3).max(3) {
        for len in lengths(c, p.bytes, p.bytes * 2 + 3, round == 0) {
            let mut b = extended(c, len);
            b.truncate(len);
            let short = len < p.bytes;
            let want = if short { Err((len, p.bytes)) } else { Ok(c.decode(&p.node, &b[..p.bytes])) };
            c.seen(if short { "too short" } else { "value from slice and vec" }, &b, true);
            c.sample(|| format!("from_slice {} = {}", hexs(&b), need_len(&want)));
            c.eq("from_slice", call(|| (df.from_slice)(&b)), &want, need_len, || inb(&b));
            if !short {
                let x = call(|| Ok((s.from)(&b[..p.bytes])));
                let y = call(|| (df.from_slice)(&b));
                if x != y {
                    c.violation("from_slice like from_bytes", inb(&b), format!("{x:?}"), format!("{y:?}"));
                }
            }
            let got = call(|| {
                let mut x = b.clone();
                let r = (df.from_vec)(&mut x);
                (r, x)
            });
            let left = if short { b.clone() } else { b[p.bytes..].to_vec() };
            c.eq("from_vec", got, &(want, left), |x| format!("{} leaving {}", need_len(&x.0), hexs(&x.1)), || inb(&b));
        }
        // a stream of several packets
        let k = 2 + c.rng.below(4);
        let rest = c.rng.below(p.bytes + 1).min(p.bytes.saturating_sub(1));
        let stream: Vec<u8> = (0..k * p.bytes + rest).map(|_| c.rng.next() as u8).collect();
        let got = call(|| {
            let mut x = stream.clone();
            let mut out = Vec::new();
            while let Ok(v) = (df.from_vec)(&mut x) {
                out.push(v);
                if out.len() > k + 1 {
                    break;
                }
            }
            (out, x)
        });
        let want = if p.bytes == 0 { continue } else {
            (stream.chunks_exact(p.bytes).map(|b| c.decode(&p.node, b)).collect::<Vec<_>>(), stream[k * p.bytes..].to_vec())
        };
        c.seen("stream of packets", &stream, true);
        c.eq("from_vec over a stream", got, &want, |x| format!("{x:x?}"), || inb(&stream));
    }
}

fn unhex(x: u8) -> Option<u8> {
    match x {
        b'0'..=b'9' => Some(x - b'0'),
        b'a'..=b'f' => Some(x - b'a' + 10),
        b'A'..=b'F' => Some(x - b'A' + 10),
        _ => None,
    }
}
fn hx(r: &Result<Leaves, HexErr>) -> String {
    match r {
        Ok(v) => vals(v),
        Err(e) => format!("{e:?}"),
    }
}
fn text(b: &[u8]) -> String {
    b.iter().map(|x| x.escape_ascii().to_string()).collect()
}

/// hex text of values
fn hex(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let Some(h) = &s.hex else { panic!("harness: no hex functions") };
    if h.size != p.bytes * 2 {
        c.violation("HEX_SIZE", String::new(), (p.bytes * 2).to_string(), h.size.to_string());
    }
    for _ in 0..c.n * 2 {
        let Some(v) = c.whole() else { continue };
        let bytes = c.encode(&p.node, &v);
        let back = c.decode(&p.node, &bytes);
        let low: Vec<u8> = hexs(&bytes).into_bytes();
        let up: Vec<u8> = low.to_ascii_uppercase();
        c.seen("to hex", &bytes, bytes.iter().any(|x| *x != 0));
        c.sample(|| format!("{} -> {}", vals(&v), text(&up)));
        c.eq("into_hex_lower", call(|| (h.lower)(&v)), &low, |x| text(x), || vals(&v));
        c.eq("into_hex_upper", call(|| (h.upper)(&v)), &up, |x| text(x), || vals(&v));
        c.eq("from_hex(into_hex_upper)", call(|| (h.from)(&(h.upper)(&v))), &Ok(back.clone()), hx, || vals(&v));
        c.eq("from_hex(into_hex_lower)", call(|| (h.from)(&(h.lower)(&v))), &Ok(back), hx, || vals(&v));
    }
    let mut all = c.buffers();
    for x in 0..=255u8 {
        let mut b = c.noise();
        let k = c.rng.below(p.bytes.max(1));
        if let Some(y) = b.get_mut(k) {
            *y = x;
        }
        all.push(b);
    }
    for b in all {
        let t: Vec<u8> = hexs(&b)
            .bytes()
            .map(|x| if c.rng.chance(50) { x.to_ascii_uppercase() } else { x })
            .collect();
        let want = Ok(c.decode(&p.node, &b));
        c.seen("from hex", &b, true);
        c.eq("from_hex", call(|| (h.from)(&t)), &want, hx, || text(&t));
        if let Some(f) = h.from_slice {
            c.eq("from_hex_slice", call(|| f(&t)), &want, hx, || text(&t));
            let mut longer = t.clone();
            longer.extend(b"0aZ!");
            c.eq("from_hex_slice with more text", call(|| f(&longer)), &want, hx, || text(&longer));
            if c.rng.chance(4) {
                for len in lengths(c, t.len(), 0, true) {
                    let digit = b"0123456789abcdefABCDEFg"[c.rng.below(23)];
                    longer.resize(len.max(t.len()), digit);
                    c.seen("from far too long hex", &longer, true);
                    c.eq("from_hex_slice with far more text", call(|| f(&longer)), &want, hx, || text(&longer));
                    if let Some(f) = h.from_vec {
                        let got = call(|| f(&mut longer.clone()));
                        c.eq("from_hex_vec with far more text", got, &want, hx, || text(&longer));
                    }
                }
            }
        }
        if let Some(f) = h.from_vec {
            let mut longer = t.clone();
            let more = c.rng.below(5);
            longer.extend((0..more).map(|i| b"0fG-z"[i]));
            let got = call(|| {
                let mut x = longer.clone();
                let r = f(&mut x);
                (r, x)
            });
// nothing is documented about what stays in the vector: all of it or what was not used
            match got {
                Ok((r, x)) if r == want && (x == longer || x == longer[t.len()..]) => {}
                Ok((r, x)) => c.violation("from_hex_vec", text(&longer), hx(&want), format!("{} leaving {}", hx(&r), text(&x))),
                Err(m) => c.violation("from_hex_vec", text(&longer), hx(&want), format!("panic: {m}")),
            }
        }
    }
}

/// text which is not hex
fn hexerr(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let Some(h) = &s.hex else { panic!("harness: no hex functions") };
    let n = p.bytes * 2;
    let mut texts = Vec::new();
    for bad in 0..=255u8 {
        // every byte value at some position, the first bad character is the one reported
        let mut t: Vec<u8> = (0..n).map(|_| b"0123456789abcdefABCDEF"[c.rng.below(22)]).collect();
        let k = c.rng.below(n);
        t[k] = bad;
        texts.push(t.clone());
        if c.rng.chance(30) {
            let k2 = c.rng.below(n);
            t[k2] = c.rng.next() as u8;
            texts.push(t);
        }
    }
    for k in 0..n {
        for bad in [b'g', b'G', b'/', b':', b'@', b'`', 0x80, 0, b' '] {
            let mut t = vec![b'0'; n];
            t[k] = bad;
            texts.push(t);
        }
    }
    for t in texts {
        let bad = t.iter().position(|x| unhex(*x).is_none());
        let bytes = |t: &[u8]| -> Vec<u8> {
            t.chunks(2).map(|x| unhex(x[0]).unwrap() << 4 | unhex(x[1]).unwrap()).collect()
        };
        let want = match bad {
            Some(k) => Err(HexErr::Char(t[k] as char, k)),
            None => Ok(c.decode(&p.node, &bytes(&t))),
        };
        c.seen(if bad.is_some() { "not hex" } else { "hex" }, &t, bad.is_some());
        c.sample(|| format!("{} -> {}", text(&t), hx(&want)));
        c.eq("from_hex", call(|| (h.from)(&t)), &want, hx, || text(&t));
        let more = c.rng.below(6);
        let mut tail: Vec<u8> = (0..more).map(|_| b"0f7BG-z\xff"[c.rng.below(8)]).collect();
        if c.rng.chance(2) {
            let far = [250, 65530, 131060][c.rng.below(3)] + c.rng.below(n + 8);
            tail.resize(far, b"0g"[c.rng.below(2)]);
        }
        if let Some(f) = h.from_slice {
            c.eq("from_hex_slice", call(|| f(&t)), &want, hx, || text(&t));
            let longer = [&t[..], &tail].concat();
            c.eq("from_hex_slice with more text", call(|| f(&longer)), &want, hx, || text(&longer));
        }
        if let Some(f) = h.from_vec {
            let longer = [&t[..], &tail].concat();
            let got = call(|| {
                let mut x = longer.clone();
                let r = f(&mut x);
                (r, x)
            });
            match got {
                Ok((r, _)) if r.is_err() && r == want => {}
                Ok((r, x)) if r == want && (x == tail || x == longer) => {}
                Ok((r, x)) => c.violation("from_hex_vec", text(&longer), hx(&want), format!("{} leaving {}", hx(&r), text(&x))),
                Err(m) => c.violation("from_hex_vec", text(&longer), hx(&want), format!("panic: {m}")),
            }
        }
    }
    for len in 0..n {
        let t: Vec<u8> = (0..len).map(|_| b"0123456789abcdefGx"[c.rng.below(18)]).collect();
        let want = Err(HexErr::Len(len, n));
        c.seen("too short text", &t, true);
        if let Some(f) = h.from_slice {
            c.eq("from_hex_slice", call(|| f(&t)), &want, hx, || text(&t));
        }
        if let Some(f) = h.from_vec {
            let got = call(|| {
                let mut x = t.clone();
                let r = f(&mut x);
                (r, x)
            });
            c.eq("from_hex_vec", got, &(want, t.clone()), |x| format!("{} leaving {}", hx(&x.0), text(&x.1)), || text(&t));
        }
    }
}

/// comparing with ids
fn ideq(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    let Node::Enum { id, variants, .. } = &p.node else { return };
    let Some(f) = &s.id else { return };
    let len = id.len() as u32;
    let mut others: Vec<u128> = if len <= 8 { (0..=ones(len)).collect() } else {
        let mut x: Vec<u128> = variants.iter().flat_map(|v| [v.id, v.id ^ 1, v.id ^ (1 << (len - 1))]).collect();
        x.extend([0, 1, ones(len)]);
        (0..20).for_each(|_| x.push(c.rng.wide() & ones(len)));
        x
    };
    others.sort();
    others.dedup();
    for i in 0..variants.len() {
        for _ in 0..6 {
            let mut v = Vec::new();
            c.variant(variants, i, &mut v);
            if variants[i].captures {
                v[1] &= ones(len);
            }
            let want = if variants[i].captures { v[1] } else { variants[i].id };
            c.seen("id", &[i as u8, want as u8], true);
            c.sample(|| format!("{} has id {want}", vals(&v)));
            c.eq("id()", call(|| (f.of)(&v)), &want, |x| x.to_string(), || vals(&v));
            // the id the encoding holds
            c.eq("read_variant_id(into_bytes)", call(|| (f.read)(&(s.into)(&v))), &want, |x| x.to_string(), || vals(&v));
            if let Some(eq) = f.eq {
                for o in &others {
                    c.seen("compare with id", &[i as u8, *o as u8, (*o >> 8) as u8], true);
                    c.eq("value == id", call(|| eq(&v, *o)), &(*o == want), |x| x.to_string(), || format!("{} == {o}", vals(&v)));
                }
            }
        }
    }
}

/// long histories of writes through whatever interface, one shadow buffer
fn history(c: &mut Ctx) {
    let (s, p) = (c.s, c.p);
    for _ in 0..(c.n / 8).max(2) {
        let mut real = c.background();
        let mut model = real.clone();
        let mut log = vec![format!("start {}", hexs(&real))];
        for _ in 0..40 {
            let k = c.rng.below(10);
            let mut step = String::new();
            if k == 0 || p.written().is_empty() {
                let Some(v) = c.whole() else { continue };
                model = c.encode(&p.node, &v);
                match call(|| (s.into)(&v)) {
                    Ok(b) => real = b,
                    Err(m) => step = format!("panic: {m}"),
                }
                log.push(format!("into_bytes {}", vals(&v)));
            } else if k == 1 && s.id.is_some() {
                if let (Some(f), Node::Enum { id, variants, .. }) = (&s.id, &p.node) {
                    let x = if c.rng.chance(60) { variants[c.rng.below(variants.len())].id } else {
                        c.rng.wide() & ones(id.len() as u32)
                    };
                    id.iter().enumerate().for_each(|(k, q)| set(&mut model, *q, x >> k & 1 == 1));
                    if let Err(m) = call(|| (f.write)(&mut real, x)) {
                        step = format!("panic: {m}");
                    }
                    log.push(format!("write_variant_id {x}"));
                }
            } else if k == 2 && s.dynf.as_ref().is_some_and(|f| f.session.is_some()) {
                let said = session(c, &mut model, &mut real, 4).unwrap_or_default();
                if !said.ends_with("(ok)") {
                    step = said.clone();
                }
                log.push(said);
            } else {
                let i = c.rng.below(p.written().len());
                let a = &p.accs[i];
                let mut v = Vec::new();
                c.value(&a.node, &mut v);
                model = c.stored(a, &model, &v);
                let acc = &s.accs[i];
                let how = c.rng.below(4);
                let r = call(|| match (how, &acc.slice, &acc.view) {
                    (1, Some(f), _) => (f.write)(&mut real, &v).map_err(|e| format!("{e:?}")),
                    (2, _, Some(f)) => (f.write)(&mut real, &v).map_err(|e| format!("{e:?}")),
                    (3, _, Some(f)) => Ok((f.un_write)(&mut real, &v)),
                    _ => Ok((acc.write)(&mut real, &v)),
                });
                log.push(format!("write_{} {} ({how})", a.name, vals(&v)));
                match r {
                    Ok(Ok(())) => {}
                    x => step = format!("{x:?}"),
                }
            }
            c.seen("step", &real, true);
            if !step.is_empty() || real != model {
                c.violation("history", log.join("; "), hexs(&model), format!("{step} {}", hexs(&real)));
                real = model.clone();
                break;
            }
            // everything reads back alike through every interface
            let want = c.decode(&p.node, &model);
            let mut ok = c.eq("from_bytes", call(|| (s.from)(&real)), &want, |x| vals(x), || log.join("; "));
            if let Some(f) = &s.dynf {
                ok &= c.eq("from_slice", call(|| (f.from_slice)(&real)), &Ok(want), need_len, || log.join("; "));
            }
            if !p.accs.is_empty() {
                for _ in 0..2 {
                    let i = c.rng.below(p.accs.len());
                    let a = &p.accs[i];
                    let want = c.decode(&a.node, &model);
                    let acc = &s.accs[i];
                    let how = c.rng.below(5);
                    let got = call(|| match (how, &acc.slice, &acc.view) {
                        (1, Some(f), _) => (f.read)(&real),
                        (2, _, Some(f)) => (f.read)(&real),
                        (3, _, Some(f)) => Ok((f.un_read)(&real)),
                        (4, _, Some(f)) => (f.read_mut)(&mut real),
                        _ => Ok((acc.read)(&real)),
                    });
                    ok &= c.eq(&format!("read_{} ({how})", a.name), got, &Ok(want), need_len, || log.join("; "));
                    c.seen("read back", &real, true);
                }
            }
            if !ok {
                break;
            }
        }
        c.sample(|| format!("{} ... {}", log[..log.len().min(5)].join("; "), hexs(&real)));
    }
}

impl<'a> Ctx<'a> {
    fn check_size(&mut self) {
        let (s, p) = (self.s, self.p);
        self.seen("size constants", &[], true);
        if (s.byte_size, s.bit_size) != (p.bytes, p.bits) {
            self.violation(
                "BYTE_SIZE, BIT_SIZE",
                String::new(),
                format!("{}, {}", p.bytes, p.bits),
                format!("{}, {}", s.byte_size, s.bit_size),
            );
        }
        for (name, want, got) in (s.consts)() {
            self.seen("variant size constants", name.as_bytes(), true);
            if want != got {
                self.violation(name, String::new(), want.to_string(), got.to_string());
            }
        }
    }
    /// the leaves of a value that encoding stores (reserve and read-only leaves blanked)
    fn writable(&self, v: &[u128]) -> Leaves {
        fn go(n: &Node, live: bool, v: &mut std::slice::Iter<u128>, o: &mut Leaves) {
            let mut one = |v: &mut std::slice::Iter<u128>| {
                let x = *v.next().expect("harness: value ended");
                if live {
                    o.push(x);
                }
                x
            };
            match n {
                Node::Leaf(..) => {
                    one(v);
                }
                Node::Prim { catch, captures, .. } => {
                    let i = one(v);
                    if i as usize == *catch && *captures {
                        one(v);
                    }
                }
                Node::Array(x) => x.iter().for_each(|x| go(x, live, v, o)),
                Node::Struct(f) => f.iter().for_each(|(fl, x)| go(x, live && *fl == Flag::Both, v, o)),
                Node::Enum { variants, .. } => {
                    let i = one(v) as usize;
                    variants[i].fields.iter().for_each(|(fl, x)| {
                        go(x, live && matches!(fl, Flag::Both | Flag::Capture), v, o)
                    });
                }
            }
        }
        let mut o = Vec::new();
        go(&self.p.node, true, &mut v.iter(), &mut o);
        o
    }
}

//! Entry point of a shard binary.
use crate::monitor::*;
use crate::rng::*;
use crate::*;

/// args: monitor seed repetitions [only-type]
pub fn main(subjects: Vec<fn() -> Subject>, spec: &str) {
    let args: Vec<String> = std::env::args().collect();
    let (prop, seed, n) = (&args[1], args[2].parse::<u64>().unwrap(), args[3].parse::<usize>().unwrap());
    let only = args.get(4);
    // panics of generated code are caught and judged, one that ends the monitor is a fault of the harness
    std::panic::set_hook(Box::new(|i| {
        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string();
    }));
    if let Err(e) = std::panic::catch_unwind(|| work(&subjects, spec, prop, seed, n, only)) {
        eprintln!("HARNESS: {}", LAST.lock().unwrap_or_else(|e| e.into_inner()));
        std::panic::resume_unwind(e);
    }
}

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn work(subjects: &[fn() -> Subject], spec: &str, prop: &str, seed: u64, n: usize, only: Option<&String>) {
    let mut st = Stats::default();
    let tape = std::env::var("BW_TAPE").unwrap_or_default();
    if prop == "replay" {
        // on another machine: everything that is needed is on the tape
        replay::replay(subjects, &std::fs::read(tape).expect("the tape"), &mut st);
        println!("{}", st.json());
        return;
    }
    let specs = parse_spec(spec);
    if specs.len() != subjects.len() {
        eprintln!("HARNESS: {} subjects, {} specifications", subjects.len(), specs.len());
        std::process::exit(3);
    }
    let mut recorded = Vec::new();
    for (index, (make, p)) in subjects.iter().zip(&specs).enumerate() {
        if only.is_some_and(|x| *x != p.name) {
            continue;
        }
        let s = make();
        if s.name != p.name || s.accs.len() != p.accs.len() && !s.accs.is_empty() {
            eprintln!("HARNESS: subject {} and specification {} differ", s.name, p.name);
            std::process::exit(3);
        }
        if (s.byte_size, s.bit_size) != (p.bytes, p.bits) && prop != "record" {
            // nothing else can be judged on a type of another size
            let mut c = Ctx { s: &s, p, rng: Rng(0), st: &mut st, n, here: 0 };
            c.violation(
                "BYTE_SIZE, BIT_SIZE",
                String::new(),
                format!("{}, {}", p.bytes, p.bits),
                format!("{}, {}", s.byte_size, s.bit_size),
            );
            continue;
        }
        st.types += 1;
        st.fields += p.accs.len() as u64;
        let rng = Rng(seed ^ hash(&p.name));
        let bare = Spec { accs: vec![], name: p.name.clone(), bytes: p.bytes, bits: p.bits, node: p.node.clone() };
        let p = if s.accs.is_empty() { &bare } else { p };
        let mut c = Ctx { s: &s, p, rng, st: &mut st, n, here: 0 };
        if prop == "record" {
            replay::record(&mut c, index, &mut recorded);
            continue;
        }
        for m in prop.split('+') {
            props::run(m, &mut c);
        }
    }
    if prop == "record" {
        std::fs::write(tape, recorded).expect("the tape");
    }
    println!("{}", st.json());
}

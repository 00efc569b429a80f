//! The crate's answers for the whole code space, for the specification to judge; digests for comparing
//! runs and builds; very large inputs.
use crate::json;
use crate::ops::*;
use crate::pool::{guarded, idle, Out, Viol};
use crate::{finish, read_lines, threads, Args, Total};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use unicode_normalization::char as uc;
use unicode_normalization::*;

pub const BLOCK: u32 = 1024;
pub const BLOCKS: u32 = 0x110000 / BLOCK;

fn block(b: u32) -> impl Iterator<Item = char> + Clone {
    (b * BLOCK..(b + 1) * BLOCK).filter_map(char::from_u32)
}

/// what stream_safe() assumes about a character: non-starters in front and at the end
fn lead(c: char) -> i64 {
    for n in (0..=30u32).rev() {
        let t: Vec<char> = (0..n).map(|_| '\u{300}').chain([c]).collect();
        let got: Vec<char> = t.iter().copied().stream_safe().collect();
        if got == t {
            return 30 - n as i64;
        }
    }
    31
}
fn trail(c: char) -> i64 {
    let t: Vec<char> = [c].into_iter().chain((0..40).map(|_| '\u{300}')).collect();
    let got: Vec<char> = t.into_iter().stream_safe().collect();
    match got[1..].iter().position(|x| *x == '\u{34f}') {
        Some(p) => 30 - p as i64,
        None => 99,
    }
}
/// the same, as the quick check counts them
fn lead_q(c: char) -> i64 {
    for n in (0..=30u32).rev() {
        let t = (0..n).map(|_| '\u{300}').chain([c]);
        let u = (0..n).map(|_| '\u{300}').chain([c]);
        if is_nfd_stream_safe_quick(t) == is_nfd_quick(u) {
            return 30 - n as i64;
        }
    }
    31
}

pub const KINDS: [&str; 29] = [
    "ccc", "mark", "assigned", "canon", "compat", "cjk", "nfd", "nfkd", "nfc", "nfkc", "ss", "var", "q0", "q1", "q2", "q3", "q4", "q5", "f0",
    "f1", "f2", "f3", "f4", "f5", "lead", "trail", "leadq", "prec", "foll",
];

/// the row for one character, or nothing if the answer is the unremarkable one
fn row(kind: &str, c: char) -> Option<Vec<i64>> {
    let n = c as i64;
    let seq = |v: Vec<u32>| {
        if v == [c as u32] {
            None
        } else {
            Some([n].into_iter().chain(v.into_iter().map(|x| x as i64)).collect())
        }
    };
    let num = |x: i64| if x == 0 { None } else { Some(vec![n, x]) };
    let qk = |k| match quick(k, [c].into_iter()) {
        'Y' => None,
        'N' => Some(vec![n, 0]),
        _ => Some(vec![n, 1]),
    };
    match kind {
        "ccc" => num(uc::canonical_combining_class(c) as i64),
        "mark" => num(uc::is_combining_mark(c) as i64),
        "assigned" => num(uc::is_public_assigned(c) as i64),
        "canon" => seq(char_canonical(c)),
        "compat" => seq(char_compatible(c)),
        "cjk" => seq(char_cjk(c)),
        "nfd" | "nfkd" | "nfc" | "nfkc" | "ss" => seq(of_char(kind, c)),
        "var" => seq(of_char("cjk", c)),
        "q0" | "q1" | "q2" | "q3" | "q4" | "q5" => qk((kind.as_bytes()[1] - b'0') as usize),
        "f0" | "f1" | "f2" | "f3" | "f4" | "f5" => num(!full((kind.as_bytes()[1] - b'0') as usize, &c.to_string()) as i64),
        "lead" => num(lead(c)),
        "trail" => num(trail(c)),
        "leadq" => num(lead_q(c)),
        // in context: nfc and nfkc behind and before another character
        "prec" => {
            let t: String = ['a', c, '\u{300}'].iter().collect();
            let v: Vec<u32> = t.nfc().map(|c| c as u32).collect();
            if v == [97, c as u32, 768] { None } else { Some([n].into_iter().chain(v.into_iter().map(|x| x as i64)).collect()) }
        }
        "foll" => {
            let t: String = ['\u{315}', c, '\u{323}', c].iter().collect();
            let v: Vec<u32> = t.nfkc().map(|c| c as u32).collect();
            if v == [0x315, c as u32, 0x323, c as u32] { None } else { Some([n].into_iter().chain(v.into_iter().map(|x| x as i64)).collect()) }
        }
        _ => panic!("kind {}", kind),
    }
}

/// dump KIND... : {"KIND": [[rows of block 0], [rows of block 1], ...], ...}
pub fn cmd(a: Args) {
    let kinds: Vec<&str> = a.get("kinds").unwrap().split(',').collect();
    let prop = a.get("prop").unwrap_or("C15").to_string();
    let mut s = String::from("{\"version\":[");
    s.push_str(&format!("{},{},{}]", UNICODE_VERSION.0, UNICODE_VERSION.1, UNICODE_VERSION.2));
    let viols: Mutex<Vec<Viol>> = Mutex::new(Vec::new());
    let mut evals = 0;
    for k in &kinds {
        assert!(KINDS.contains(k), "kind {}", k);
        let rows: Vec<Mutex<String>> = (0..BLOCKS).map(|_| Mutex::new(String::new())).collect();
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for slot in 0..threads() {
                let (rows, next, viols, prop) = (&rows, &next, &viols, &prop);
                sc.spawn(move || {
                    let mut o = Out::new(prop, slot);
                    loop {
                        let b = next.fetch_add(1, Relaxed) as u32;
                        if b >= BLOCKS {
                            break;
                        }
                        o.now(&[b * BLOCK]);
                        let mut v: Vec<String> = Vec::new();
                        for c in block(b) {
                            match guarded(|| row(k, c)) {
                                Ok(None) => {}
                                Ok(Some(r)) => {
                                    let r: Vec<String> = r.iter().map(|x| x.to_string()).collect();
                                    v.push(format!("[{}]", r.join(",")))
                                }
                                Err(e) => o.fail(&format!("{} panics: {}", k, e), &[c as u32], "", ""),
                            }
                        }
                        *rows[b as usize].lock().unwrap() = v.join(",");
                    }
                    idle(slot);
                    viols.lock().unwrap().extend(o.viols);
                });
            }
        });
        evals += 0x110000 - 0x800;
        s.push_str(&format!(",\"{}\":[", k));
        let all: Vec<String> = rows.iter().map(|r| format!("[{}]", r.lock().unwrap())).collect();
        s.push_str(&all.join(","));
        s.push(']');
    }
    s.push_str("}\n");
    std::fs::write(a.get("out").unwrap(), s).unwrap();
    let viols = viols.into_inner().unwrap();
    let t = Total { prop, cases: evals, nontrivial: 0, evals, excused: 0, violations: viols.len() as u64 };
    finish(vec![t], viols, &a);
}

fn sets(j: &str) -> Vec<u32> {
    json::parse(j.as_bytes()).unwrap().text()
}

/// Every pair that composes, over firsts x all and all x seconds (lists chosen by the caller), or over all
/// pairs: [[a, b, c], ...].
pub fn cmd_pairs(a: Args) {
    let spec = std::fs::read_to_string(a.get("sets").unwrap()).unwrap();
    let mut it = spec.lines();
    let firsts = sets(it.next().unwrap());
    let seconds = sets(it.next().unwrap());
    let every = a.get("all") == Some("1");
    let chars: Vec<char> = (0..0x110000).filter_map(char::from_u32).collect();
    let firsts: Vec<char> = if every { chars.clone() } else { firsts.into_iter().filter_map(char::from_u32).collect() };
    let seconds: Vec<char> = if every { vec![] } else { seconds.into_iter().filter_map(char::from_u32).collect() };
    let found: Mutex<Vec<[u32; 3]>> = Mutex::new(Vec::new());
    let viols: Mutex<Vec<Viol>> = Mutex::new(Vec::new());
    let next = AtomicUsize::new(0);
    let evals = AtomicU64::new(0);
    let limit = a.num("limit", 1_000_000) as usize;
    std::thread::scope(|sc| {
        for slot in 0..threads() {
            let (found, next, chars, firsts, seconds, viols, evals) = (&found, &next, &chars, &firsts, &seconds, &viols, &evals);
            sc.spawn(move || {
                let mut o = Out::new("C14", slot);
                let mut mine: Vec<[u32; 3]> = Vec::new();
                // rows: a fixed first character against all; then columns: all against a fixed second
                let jobs = firsts.len() + seconds.len();
                loop {
                    let k = next.fetch_add(1, Relaxed);
                    if k >= jobs || mine.len() > limit {
                        break;
                    }
                    let r = guarded(|| {
                        let mut v: Vec<[u32; 3]> = Vec::new();
                        if k < firsts.len() {
                            let x = firsts[k];
                            for y in chars {
                                if let Some(z) = uc::compose(x, *y) {
                                    v.push([x as u32, *y as u32, z as u32]);
                                }
                            }
                        } else {
                            let y = seconds[k - firsts.len()];
                            for x in chars {
                                if let Some(z) = uc::compose(*x, y) {
                                    v.push([*x as u32, y as u32, z as u32]);
                                }
                            }
                        }
                        v
                    });
                    evals.fetch_add(chars.len() as u64, Relaxed);
                    match r {
                        Ok(v) => mine.extend(v),
                        Err(e) => {
                            let c = if k < firsts.len() { firsts[k] } else { seconds[k - firsts.len()] };
                            o.fail(&format!("compose panics: {}", e), &[c as u32], "", "")
                        }
                    }
                }
                found.lock().unwrap().extend(mine);
                viols.lock().unwrap().extend(o.viols);
            });
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort();
    f.dedup();
    let s: Vec<String> = f.iter().map(|t| format!("[{},{},{}]", t[0], t[1], t[2])).collect();
    std::fs::write(a.get("out").unwrap(), format!("[{}]\n", s.join(","))).unwrap();
    let viols = viols.into_inner().unwrap();
    let n = evals.load(Relaxed);
    let t = Total { prop: "C14".into(), cases: n, nontrivial: f.len() as u64, evals: n, excused: 0, violations: viols.len() as u64 };
    finish(vec![t], viols, &a);
}

/// One digest per text (and per scalar value) of everything a program can learn about it, in a given order.
pub fn cmd_digest(a: Args) {
    let mut texts: Vec<Vec<u32>> = read_lines(&a.pos[1..]).iter().map(|l| crate::replay::rec(l).s).collect();
    if a.get("chars") == Some("1") {
        texts.extend((0..0x110000u32).filter(|c| char::from_u32(*c).is_some()).map(|c| vec![c]));
    }
    if let Some(f) = a.get("frames") {
        texts.extend(crate::scan::texts(f, a.get("active").unwrap(), a.num("fill", 100_000) as usize, 12345));
    }
    let n = texts.len();
    let mut order: Vec<usize> = (0..n).collect();
    match a.get("order") {
        Some("desc") => order.reverse(),
        Some("shuffle") => {
            let mut r = Rng::new(a.num("seed", 1));
            for i in (1..n).rev() {
                order.swap(i, r.below(i + 1));
            }
        }
        // texts alike in the low bits of their characters follow one another
        Some(o) if o.starts_with("mask") => {
            let m = (1u32 << o[4..].parse::<u32>().unwrap()) - 1;
            order.sort_by_cached_key(|i| (texts[*i].iter().take(24).map(|c| c & m).collect::<Vec<u32>>(), *i));
        }
        _ => {}
    }
    let out: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let stride = a.num("stride", 1) as usize; // only every so-manieth text
    let nt = a.num("threads", threads() as u64) as usize;
    let contend = a.get("contend") == Some("1"); // all threads walk the same order at the same time
    let next = AtomicUsize::new(0);
    let viols: Mutex<Vec<Viol>> = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for slot in 0..nt {
            let (texts, order, out, next, viols) = (&texts, &order, &out, &next, &viols);
            sc.spawn(move || {
                let mut o = Out::new("C17", slot);
                let mut work = |k: usize| {
                    let i = order[k];
                    if i % stride != 0 {
                        return;
                    }
                    o.now(&texts[i]);
                    let h = guarded(|| digest(&texts[i])).unwrap_or_else(|e| fnv(&e)).max(1);
                    let was = out[i].swap(h, Relaxed);
                    if was != 0 && was != h {
                        o.fail("results differ between threads", &texts[i], "", "");
                    }
                };
                if contend {
                    (0..n).for_each(&mut work);
                } else {
                    loop {
                        let k = next.fetch_add(64, Relaxed);
                        if k >= n {
                            break;
                        }
                        (k..(k + 64).min(n)).for_each(&mut work);
                    }
                }
                idle(slot);
                viols.lock().unwrap().extend(o.viols);
            });
        }
    });
    let mut b = Vec::with_capacity(n * 8);
    for x in &out {
        b.extend_from_slice(&x.load(Relaxed).to_le_bytes());
    }
    std::fs::write(a.get("out").unwrap(), b).unwrap();
    if let Some(f) = a.get("list") {
        let l: Vec<String> = texts.iter().map(|t| json::text(t)).collect();
        std::fs::write(f, l.join("\n")).unwrap();
    }
    let viols = viols.into_inner().unwrap();
    let t = Total { prop: "C17".into(), cases: n as u64, nontrivial: n as u64, evals: n as u64, excused: 0, violations: viols.len() as u64 };
    finish(vec![t], viols, &a);
}

/// Very large inputs: totality, conservation and the expansion bounds (what is yielded is judged elsewhere).
pub fn cmd_giants(a: Args) {
    // a stack no larger than threads commonly have: recursion over the text is found out
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || giants(a)).unwrap();
    h.join().expect("giants")
}

fn giants(a: Args) {
    let scale = a.num("scale", 1) as usize;
    let mut rng = Rng::new(a.num("seed", 1));
    let marks: Vec<char> = (0x300u32..0x34f).chain(0x591..0x5bd).chain([0x3099, 0x94d, 0x345, 0xf71, 0xf72, 0xf74, 0x1d165]).filter_map(char::from_u32)
        .filter(|c| uc::canonical_combining_class(*c) != 0).collect();
    let n = 70_000 * scale;
    let mut cases: Vec<(String, Vec<char>)> = Vec::new();
    let mut add = |name: &str, v: Vec<char>| cases.push((name.into(), v));
    for m in [255, 256, 257, 65535, 65536, 65537, n] {
        add("shuffled marks", (0..m).map(|_| *rng.pick(&marks)).collect());
        add("a starter and equal marks", [ 'a' ].into_iter().chain((0..m).map(|_| '\u{300}')).collect());
        add("falling classes", ['e'].into_iter().chain((0..m).map(|i| if i < m / 2 { '\u{301}' } else { '\u{323}' })).chain(['x']).collect());
    }
    // linear work even here: an operation that takes time proportional to the square does not return
    let m = a.num("million", 0) as usize;
    if m > 0 {
        add("shuffled marks", ['o'].into_iter().chain((0..m).map(|_| *rng.pick(&marks))).collect());
        add("falling classes", ['o'].into_iter().chain((0..m).map(|i| if i < m / 2 { '\u{301}' } else { '\u{323}' })).chain(['x']).collect());
        add("marks that wait", ['o'].into_iter().chain((0..m).map(|_| '\u{301}')).collect());
        add("alternating classes", (0..m).map(|i| ['\u{301}', '\u{323}', '\u{345}', '\u{334}'][i % 4]).collect());
        add("marks in front of starters", (0..m).map(|i| if i % 33 == 0 { '\u{ac00}' } else { '\u{344}' }).collect());
    }
    add("largest expansion", (0..n).map(|_| '\u{fdfa}').collect());
    add("decomposing non-starters", (0..n).map(|_| '\u{344}').collect());
    add("syllables", (0..n).map(|i| char::from_u32(0xac00 + (i as u32 * 37) % 11172).unwrap()).collect());
    add("jamo", (0..n).map(|i| ['\u{1100}', '\u{1161}', '\u{11a8}'][i % 3]).collect());
    add("letters", (0..4 * n).map(|i| if i % 2 == 0 { 'a' } else { '\u{301}' }).collect());
    add("variants", (0..n).map(|_| '\u{f900}').collect());
    add("viramas", ['\u{dd9}'].into_iter().chain((0..n).map(|_| '\u{dca}')).chain(['\u{dcf}']).collect());
    add("halfwidth voicing marks", (0..n).map(|_| '\u{ff9e}').collect());
    add("all scalars", (0..0x110000).filter_map(char::from_u32).collect());
    add("all scalars, backwards", (0..0x110000).rev().filter_map(char::from_u32).collect());
    let mut o = Out::new("C21", 0);
    let (mut c, mut nt) = (0, 0);
    for (name, v) in &cases {
        let head: Vec<u32> = v.iter().take(8).map(|c| *c as u32).collect();
        let s: String = v.iter().collect();
        let m = v.len();
        c += 1;
        o.now(&head);
        let r = guarded(|| {
            let l: Vec<usize> = ALL
                .iter()
                .map(|op| {
                    let t = of_str(op, &s);
                    assert!(crate::replay::valid(&t), "{} yields an invalid character", op);
                    if *op == "nfd" || *op == "nfkd" {
                        // canonical order, and nothing lost: as many items as the characters' decompositions
                        let mut last = 0;
                        for x in &t {
                            let k = uc::canonical_combining_class(char::from_u32(*x).unwrap());
                            assert!(k == 0 || k >= last, "{} is not in canonical order", op);
                            last = k;
                        }
                        let want: usize = v.iter().map(|c| if *op == "nfd" { char_canonical(*c).len() } else { char_compatible(*c).len() }).sum();
                        assert!(t.len() == want, "{} has {} items, the decompositions {}", op, t.len(), want);
                    }
                    t.len()
                })
                .collect();
            let checks: Vec<(bool, char)> = (0..6).map(|k| (full(k, &s), quick(k, s.chars()))).collect();
            for (b, q) in &checks {
                assert!(!(*b && *q == 'N') && !(!*b && *q == 'Y'), "checks contradict each other");
            }
            l
        });
        let what = format!("{} ({} characters)", name, m);
        match r {
            Ok(l) => {
                nt += 1;
                o.truth(&format!("{}: canonical expansion above 4", what), &head, l[0] <= 4 * m && l[2] <= l[0]);
                o.truth(&format!("{}: compatibility expansion above 18", what), &head, l[1] <= 18 * m && l[3] <= l[1]);
                o.truth(&format!("{}: stream-safe expansion above 2", what), &head, l[4] >= m && l[4] <= 2 * m);
                o.truth(&format!("{}: variant expansion above 2", what), &head, l[5] >= m && l[5] <= 2 * m);
                o.truth(&format!("{}: empty", what), &head, l.iter().all(|x| *x > 0));
            }
            Err(e) => o.fail(&format!("{}: {}", what, e), &head, "", ""),
        }
    }
    let t = Total { prop: "C21".into(), cases: c, nontrivial: nt, evals: o.evals, excused: 0, violations: o.total };
    finish(vec![t], o.viols, &a);
}

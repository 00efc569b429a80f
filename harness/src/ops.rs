//! The public operations by name, applied to whole texts.
use std::fmt::Write;
use unicode_normalization::char as uc;
use unicode_normalization::*;

pub const FORMS: [&str; 4] = ["nfd", "nfkd", "nfc", "nfkc"];
pub const ALL: [&str; 6] = ["nfd", "nfkd", "nfc", "nfkc", "ss", "cjk"];

pub fn string(t: &[u32]) -> String {
    t.iter().map(|c| char::from_u32(*c).expect("scalar value")).collect()
}
pub fn chars(t: &[u32]) -> Vec<char> {
    t.iter().map(|c| char::from_u32(*c).expect("scalar value")).collect()
}
pub fn codes(t: &[char]) -> Vec<u32> {
    t.iter().map(|c| *c as u32).collect()
}

/// Drain an adapter by next(), with a limit well above any legitimate expansion.
pub fn drain<I: Iterator<Item = char>>(i: I, input: usize) -> Vec<u32> {
    let cap = input * 20 + 100;
    let mut v = Vec::new();
    for c in i {
        if v.len() > cap {
            panic!("adapter yields more than {} items for {} characters", cap, input);
        }
        v.push(c as u32);
    }
    v
}

pub fn of_str(op: &str, s: &str) -> Vec<u32> {
    let n = s.len();
    match op {
        "nfd" => drain(s.nfd(), n),
        "nfkd" => drain(s.nfkd(), n),
        "nfc" => drain(s.nfc(), n),
        "nfkc" => drain(s.nfkc(), n),
        "ss" => drain(s.stream_safe(), n),
        "cjk" => drain(s.cjk_compat_variants(), n),
        _ => panic!("op {}", op),
    }
}
pub fn of_iter<I: Iterator<Item = char>>(op: &str, i: I, n: usize) -> Vec<u32> {
    match op {
        "nfd" => drain(i.nfd(), n),
        "nfkd" => drain(i.nfkd(), n),
        "nfc" => drain(i.nfc(), n),
        "nfkc" => drain(i.nfkc(), n),
        "ss" => drain(i.stream_safe(), n),
        "cjk" => drain(i.cjk_compat_variants(), n),
        _ => panic!("op {}", op),
    }
}
pub fn of_ctor<I: Iterator<Item = char>>(op: &str, i: I, n: usize) -> Vec<u32> {
    match op {
        "nfd" => drain(Decompositions::new_canonical(i), n),
        "nfkd" => drain(Decompositions::new_compatible(i), n),
        "nfc" => drain(Recompositions::new_canonical(i), n),
        "nfkc" => drain(Recompositions::new_compatible(i), n),
        "ss" => drain(StreamSafe::new(i), n),
        "cjk" => drain(Replacements::new_cjk_compat_variants(i), n),
        _ => panic!("op {}", op),
    }
}
pub fn of_char(op: &str, c: char) -> Vec<u32> {
    match op {
        "nfd" => drain(c.nfd(), 1),
        "nfkd" => drain(c.nfkd(), 1),
        "nfc" => drain(c.nfc(), 1),
        "nfkc" => drain(c.nfkc(), 1),
        "ss" => drain(c.stream_safe(), 1),
        "cjk" => drain(c.cjk_compat_variants(), 1),
        _ => panic!("op {}", op),
    }
}
/// f, then g, as one streaming chain
/// The second operation's method called on the first one's adapter itself (not on some iterator), which has
/// delivered k items before.
pub fn chain_from(f: &str, g: &str, s: &str, k: usize) -> Vec<u32> {
    let n = s.len();
    macro_rules! on {
        ($i:expr, $n:expr) => {{
            let mut i = $i;
            for _ in 0..k {
                i.next();
            }
            match g {
                "nfd" => drain(i.nfd(), $n),
                "nfkd" => drain(i.nfkd(), $n),
                "nfc" => drain(i.nfc(), $n),
                "nfkc" => drain(i.nfkc(), $n),
                "ss" => drain(i.stream_safe(), $n),
                "cjk" => drain(i.cjk_compat_variants(), $n),
                _ => panic!("op {}", g),
            }
        }};
    }
    match f {
        "nfd" => on!(s.nfd(), n * 4),
        "nfkd" => on!(s.nfkd(), n * 18),
        "nfc" => on!(s.nfc(), n * 4),
        "nfkc" => on!(s.nfkc(), n * 18),
        "ss" => on!(s.stream_safe(), n * 2),
        "cjk" => on!(s.cjk_compat_variants(), n * 2),
        _ => panic!("op {}", f),
    }
}
pub fn chain(f: &str, g: &str, s: &str) -> Vec<u32> {
    chain_from(f, g, s, 0)
}

pub fn q(r: IsNormalized) -> char {
    match r {
        IsNormalized::Yes => 'Y',
        IsNormalized::No => 'N',
        IsNormalized::Maybe => 'M',
    }
}
pub fn quick<I: Iterator<Item = char>>(k: usize, i: I) -> char {
    q(match k {
        0 => is_nfd_quick(i),
        1 => is_nfkd_quick(i),
        2 => is_nfc_quick(i),
        3 => is_nfkc_quick(i),
        4 => is_nfd_stream_safe_quick(i),
        5 => is_nfc_stream_safe_quick(i),
        _ => panic!(),
    })
}
pub fn full(k: usize, s: &str) -> bool {
    match k {
        0 => is_nfd(s),
        1 => is_nfkd(s),
        2 => is_nfc(s),
        3 => is_nfkc(s),
        4 => is_nfd_stream_safe(s),
        5 => is_nfc_stream_safe(s),
        _ => panic!(),
    }
}
pub const CHECKS: [&str; 6] = ["nfd", "nfkd", "nfc", "nfkc", "nfd_stream_safe", "nfc_stream_safe"];

pub fn char_canonical(c: char) -> Vec<u32> {
    let mut v = Vec::new();
    uc::decompose_canonical(c, |d| v.push(d as u32));
    v
}
pub fn char_compatible(c: char) -> Vec<u32> {
    let mut v = Vec::new();
    uc::decompose_compatible(c, |d| v.push(d as u32));
    v
}
pub fn char_cjk(c: char) -> Vec<u32> {
    let mut v = Vec::new();
    uc::decompose_cjk_compat_variants(c, |d| v.push(d as u32));
    v
}

/// Receives everything a program can learn about a text: to be shown, or reduced to a number.
pub trait Sink {
    fn word(&mut self, w: &str);
    fn num(&mut self, n: u64);
    fn end(&mut self);
    fn text(&mut self, t: &[char]) {
        self.num(t.len() as u64);
        for c in t {
            self.num(*c as u64);
        }
    }
    fn codes(&mut self, t: &[u32]) {
        self.num(t.len() as u64);
        for c in t {
            self.num(*c as u64);
        }
    }
    fn opt(&mut self, n: Option<u64>) {
        self.num(n.map_or(u64::MAX, |x| x));
    }
}
impl Sink for String {
    fn word(&mut self, w: &str) {
        self.push_str(w);
        self.push(' ');
    }
    fn num(&mut self, n: u64) {
        write!(self, "{:x} ", n).unwrap();
    }
    fn end(&mut self) {
        self.push('\n');
    }
}
pub struct Hash(pub u64);
impl Sink for Hash {
    fn word(&mut self, w: &str) {
        for b in w.bytes() {
            self.num(b as u64);
        }
    }
    fn num(&mut self, n: u64) {
        self.0 = (self.0 ^ n).wrapping_mul(0x9e3779b97f4a7c15);
        self.0 ^= self.0 >> 29;
    }
    fn end(&mut self) {
        self.num(u64::MAX);
    }
}

pub fn everything(t: &[u32]) -> String {
    let mut o = String::new();
    learn(t, &mut o);
    o
}
pub fn digest(t: &[u32]) -> u64 {
    let mut o = Hash(0xcbf29ce484222325);
    learn(t, &mut o);
    o.0
}

/// Everything a program can learn about one text (for comparing runs and builds).
pub fn learn<S: Sink>(t: &[u32], o: &mut S) {
    let s = string(t);
    for op in ALL {
        o.word(op);
        o.codes(&of_str(op, &s));
        o.end();
    }
    for k in 0..6 {
        o.word(CHECKS[k]);
        o.num(full(k, &s) as u64);
        o.num(quick(k, s.chars()) as u64);
        o.end();
    }
    let v: Vec<char> = s.chars().collect();
    for c in v.iter().copied().take(40) {
        o.num(c as u64);
        o.codes(&char_canonical(c));
        o.codes(&char_compatible(c));
        o.codes(&char_cjk(c));
        o.num(uc::canonical_combining_class(c) as u64 * 4 + uc::is_combining_mark(c) as u64 * 2 + uc::is_public_assigned(c) as u64);
        o.end();
    }
    if v.len() == 1 {
        for op in ALL {
            o.word("of char");
            o.word(op);
            o.codes(&of_char(op, v[0]));
            o.end();
        }
    }
    for w in v.windows(2).take(40) {
        o.word("compose");
        o.opt(uc::compose(w[0], w[1]).map(|c| c as u64));
        o.opt(uc::compose(w[1], w[0]).map(|c| c as u64));
        o.end();
    }
    // mid-stream snapshots
    let k = t.len() / 2;
    macro_rules! hint {
        ($i:expr) => {{
            let h = $i.size_hint();
            o.num(h.0 as u64);
            o.opt(h.1.map(|x| x as u64));
        }};
    }
    macro_rules! snap {
        ($i:expr) => {{
            let mut i = $i;
            hint!(i);
            o.text(&i.by_ref().take(k).collect::<Vec<char>>());
            hint!(i);
            o.word(&i.to_string());
            o.text(&i.clone().collect::<Vec<char>>());
            o.text(&i.clone().fold(Vec::new(), |mut v: Vec<char>, c| { v.push(c); v }));
            o.num(i.clone().count() as u64);
            o.opt(i.clone().last().map(|c| c as u64));
            o.opt(i.clone().nth(k).map(|c| c as u64));
            o.text(&i.collect::<Vec<char>>());
            o.end();
        }};
    }
    snap!(s.nfd());
    snap!(s.nfkd());
    snap!(s.nfc());
    snap!(s.nfkc());
    snap!(s.cjk_compat_variants());
    let mut i = s.stream_safe();
    hint!(i);
    o.text(&i.by_ref().take(k).collect::<Vec<char>>());
    hint!(i);
    o.text(&i.collect::<Vec<char>>());
    o.end();
    o.text(&s.as_str().stream_safe().nfc().collect::<Vec<char>>());
    o.text(&s.as_str().nfc().stream_safe().collect::<Vec<char>>());
    o.end();
    // a source that goes on after its end, and what is read of it when
    if t.len() <= 64 {
        use crate::adapt::{Hint, Src};
        use std::sync::atomic::Ordering::Relaxed;
        for op in ALL {
            let src = Src::new(t, &[0x62, 0x301, 0x1100], Hint::Exact);
            let st = src.stats.clone();
            macro_rules! go {
                ($i:expr) => {{
                    let mut i = $i;
                    let mut ends = 0;
                    while ends < 3 {
                        let c = i.next();
                        ends += c.is_none() as u32;
                        o.opt(c.map(|c| c as u64));
                        o.num((st.reads.load(Relaxed) * 8 + st.ends.load(Relaxed)) as u64);
                    }
                }};
            }
            match op {
                "nfd" => go!(src.nfd()),
                "nfkd" => go!(src.nfkd()),
                "nfc" => go!(src.nfc()),
                "nfkc" => go!(src.nfkc()),
                "ss" => go!(src.stream_safe()),
                _ => go!(src.cjk_compat_variants()),
            }
            o.end();
        }
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// A small deterministic generator.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

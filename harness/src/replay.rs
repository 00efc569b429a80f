//! Replays the specification's records: every record says what each operation must do with one text.
//! A check only judges the property it is for: where another property's operation is already at fault on
//! the same text, a relation that builds on it is excused (and counted).
use crate::json::{self, J};
use crate::ops::*;
use crate::pool::Out;
use std::collections::HashMap;
use unicode_normalization::char as uc;
use unicode_normalization::*;

pub struct Rec {
    pub s: Vec<u32>,
    pub form: [Vec<u32>; 4], // nfd nfkd nfc nfkc
    pub ss: Vec<u32>,
    pub v: Vec<u32>,
    pub quick: Vec<char>,
    pub full: Vec<bool>,
    pub bnd: Vec<bool>,
    pub run: i64,
    pub safe: Vec<Vec<u32>>,
    pub cjk: Vec<Vec<u32>>,
}

pub fn rec(line: &[u8]) -> Rec {
    let j = json::parse(line).unwrap_or_else(|e| panic!("record: {} in {}", e, String::from_utf8_lossy(line)));
    let a = j.arr();
    let bits = |x: &J| x.str().chars().map(|c| c == '1').collect::<Vec<bool>>();
    let texts = |x: &J| x.arr().iter().map(|t| t.text()).collect::<Vec<_>>();
    let mut r = Rec {
        s: a[0].text(),
        form: [a[1].text(), a[2].text(), a[3].text(), a[4].text()],
        ss: a[5].text(),
        v: a[6].text(),
        quick: a[7].str().chars().collect(),
        full: bits(&a[8]),
        bnd: bits(&a[9]),
        run: a[10].num(),
        safe: texts(&a[11]),
        cjk: texts(&a[12]),
    };
    // a record in blocks leaves what follows from comparing its texts to us
    if r.full.is_empty() {
        r.full = (0..4).map(|f| r.form[f] == r.s).collect();
        for f in [0, 2] {
            r.full.push(r.full[f] && r.run <= 30);
        }
    }
    if r.ss == r.s {
        r.safe.clear();
    }
    if r.v == r.s {
        r.cjk.clear();
    }
    r
}

/// One hash of a text that equivalent texts share (so that they meet on one thread).
pub fn kin(r: &Rec) -> u64 {
    hash(&r.form[1], 7)
}
fn hash(t: &[u32], salt: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ salt.wrapping_mul(0x9e3779b97f4a7c15);
    for c in t {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

/// the form that f followed by g amounts to
pub fn after(f: usize, g: usize) -> usize {
    if f % 2 == 1 || g % 2 == 1 {
        (g / 2) * 2 + 1
    } else {
        g
    }
}

pub fn nontrivial(prop: &str, r: &Rec) -> bool {
    match prop {
        "C01" => r.form[0] != r.s || r.form[1] != r.s,
        "C02" => r.form[2] != r.s || r.form[3] != r.s,
        "C03" => (0..4).any(|f| r.form[f] != r.s),
        "C04" => r.full[..4].contains(&true) && r.full[..4].contains(&false) || r.quick[2] == 'M' || r.quick[3] == 'M',
        "C05" => r.quick[..4].iter().any(|q| *q != 'Y'),
        "C06" => r.run > 24 || r.ss != r.s,
        "C07" => r.run > 24,
        "C08" => r.ss != r.s || r.run > 24,
        "C16" => r.v != r.s,
        "C10" => r.s.len() > 30,
        _ => !r.s.is_empty() && (0..4).any(|f| r.form[f] != r.s),
    }
}

/// State a property's check keeps across the records of one thread.
#[derive(Default)]
pub struct Keep {
    byd: [HashMap<Vec<u32>, Vec<u32>>; 4],
    /// per form: hashes of what the text became, and of its decomposition according to the specification
    pub became: [HashMap<(u64, u64), ((u64, u64), Vec<u32>)>; 4],
}

/// Texts of two threads that are not equivalent and became the same.
pub fn across(keeps: &[Keep], o: &mut Out) {
    for f in 0..4 {
        let mut all: HashMap<(u64, u64), (u64, u64)> = HashMap::new();
        for k in keeps {
            for (m, (d, s)) in &k.became[f] {
                let was = *all.entry(*m).or_insert(*d);
                o.truth(&format!("inequivalent texts share their {}", FORMS[f]), s, was == *d);
            }
        }
    }
}

pub fn check(prop: &str, r: &Rec, o: &mut Out, keep: &mut Keep) {
    let s = string(&r.s);
    let n = r.s.len();
    let form_ok = |f: usize| of_str(FORMS[f], &s) == r.form[f];
    match prop {
        "C01" => {
            for f in 0..2 {
                o.eq(FORMS[f], &r.s, &r.form[f], &of_str(FORMS[f], &s));
                o.eq_s(&format!("{}.to_string", FORMS[f]), &r.s, &string(&r.form[f]), &if f == 0 { s.nfd().to_string() } else { s.nfkd().to_string() });
            }
            o.eq("iter nfd", &r.s, &r.form[0], &of_iter("nfd", chars(&r.s).into_iter(), n));
            o.eq("iter nfkd", &r.s, &r.form[1], &of_iter("nfkd", chars(&r.s).into_iter(), n));
        }
        "C02" => {
            for f in 2..4 {
                o.eq(FORMS[f], &r.s, &r.form[f], &of_str(FORMS[f], &s));
                o.eq_s(&format!("{}.to_string", FORMS[f]), &r.s, &string(&r.form[f]), &if f == 2 { s.nfc().to_string() } else { s.nfkc().to_string() });
            }
            o.eq("iter nfc", &r.s, &r.form[2], &of_iter("nfc", chars(&r.s).into_iter(), n));
            o.eq("iter nfkc", &r.s, &r.form[3], &of_iter("nfkc", chars(&r.s).into_iter(), n));
        }
        "C03" => {
            let mine: Vec<Vec<u32>> = (0..4).map(|f| of_str(FORMS[f], &s)).collect();
            for f in 0..4 {
                let t = string(&mine[f]);
                for g in 0..4 {
                    let want = &mine[after(f, g)];
                    o.eq(&format!("{} of {}", FORMS[g], FORMS[f]), &r.s, want, &of_str(FORMS[g], &t));
                    o.eq(&format!("{}().{}()", FORMS[f], FORMS[g]), &r.s, want, &chain(FORMS[f], FORMS[g], &s));
                    if n < 24 && mine[f].len() > 1 {
                        let k = 1 + (n + g) % (mine[f].len() - 1);
                        o.eq(&format!("{}() from item {}, {}()", FORMS[f], k, FORMS[g]), &r.s, &of_str(FORMS[g], &string(&mine[f][k..])), &chain_from(FORMS[f], FORMS[g], &s, k));
                    }
                }
            }
            // equivalent texts (by the specification) have one normal form, inequivalent ones do not share it
            for f in 0..4 {
                let d = &r.form[f % 2];
                if let Some(m) = keep.byd[f].get(d) {
                    o.eq(&format!("{} of an equivalent text", FORMS[f]), &r.s, m, &mine[f]);
                } else {
                    keep.byd[f].insert(d.clone(), mine[f].clone());
                }
                let two = |t: &[u32]| (hash(t, 1), hash(t, 2));
                let dd = two(d);
                let first = keep.became[f].entry(two(&mine[f])).or_insert_with(|| (dd, if r.s.len() < 300 { r.s.clone() } else { vec![] }));
                let same = first.0 == dd;
                o.truth(&format!("inequivalent texts share their {}", FORMS[f]), &r.s, same);
            }
        }
        "C04" => {
            for k in 0..4 {
                o.eq_s(&format!("is_{}", FORMS[k]), &r.s, &r.full[k], &full(k, &s));
                let t = string(&r.form[k]);
                for g in 0..4 {
                    o.eq_s(&format!("is_{} of the {}", FORMS[g], FORMS[k]), &r.form[k], &(r.form[after(k, g)] == r.form[k]), &full(g, &t));
                }
            }
        }
        "C05" => {
            for k in 0..4 {
                o.eq_s(&format!("is_{}_quick", FORMS[k]), &r.s, &r.quick[k], &quick(k, s.chars()));
                o.eq_s(&format!("is_{}_quick(iter)", FORMS[k]), &r.s, &r.quick[k], &quick(k, chars(&r.s).into_iter()));
                for g in 0..4 {
                    let a = quick(g, chars(&r.form[k]).into_iter());
                    let is = r.form[after(k, g)] == r.form[k];
                    o.truth(&format!("is_{}_quick = {} of the {}, is it? {}", FORMS[g], a, FORMS[k], is), &r.form[k],
                        match a { 'Y' => is, 'N' => !is, _ => g > 1 });
                }
            }
        }
        "C06" => {
            let t = of_str("ss", &s);
            o.eq("stream_safe", &r.s, &r.ss, &t);
            o.eq("iter stream_safe", &r.s, &r.ss, &of_iter("ss", chars(&r.s).into_iter(), n));
            o.eq("stream_safe of stream_safe", &r.s, &r.ss, &of_str("ss", &string(&r.ss)));
            o.eq("stream_safe().stream_safe()", &r.s, &r.ss, &chain("ss", "ss", &s));
        }
        "C07" => {
            for k in 4..6 {
                let q = quick(k, s.chars());
                o.eq_s(&format!("is_{}_quick", CHECKS[k]), &r.s, &r.quick[k], &q);
                o.eq_s(&format!("is_{}", CHECKS[k]), &r.s, &r.full[k], &full(k, &s));
            }
            // stream-safe texts that are in the form, and their forms
            if !r.safe.is_empty() {
                for (k, i) in [(4, 0), (5, 2)] {
                    o.eq_s(&format!("is_{} of made-safe text", CHECKS[k]), &r.safe[i], &true, &full(k, &string(&r.safe[i])));
                    o.truth(&format!("is_{}_quick denies made-safe text", CHECKS[k]), &r.safe[i], quick(k, chars(&r.safe[i]).into_iter()) != 'N');
                }
            }
        }
        "C08" => {
            // whatever does not come out as specified is put to the specification: is it what C08 asks for all the same?
            let put = |o: &mut Out, kind: &str, f: usize, t: &[u32]| o.dispute(kind, FORMS[f], &r.s, &[], t);
            for f in 0..4 {
                let want1 = if r.safe.is_empty() { &r.form[f] } else { &r.safe[f] };
                let want2 = if r.safe.is_empty() { &r.form[f] } else { &r.safe[4 + f] };
                o.evals += 4;
                let one = chain("ss", FORMS[f], &s);
                if one != *want1 { put(o, "safe", f, &one); }
                let t = of_str(FORMS[f], &string(&r.ss));
                if t != *want1 { put(o, "safe", f, &t); }
                let two = chain(FORMS[f], "ss", &s);
                if two != *want2 {
                    put(o, "safe", f, &two);
                    if f % 2 == 0 { put(o, "norm", f, &two); }
                }
                if f % 2 == 0 {
                    let t = of_str("ss", &string(&r.form[f]));
                    if t != *want2 { put(o, "norm", f, &t); }
                }
                if r.run <= 30 {
                    let mine = of_str(FORMS[f], &s);
                    o.eq(&format!("stream_safe().{}() of text without an over-long run", FORMS[f]), &r.s, &mine, &one);
                    o.eq(&format!("{}().stream_safe() of text without an over-long run", FORMS[f]), &r.s, &mine, &two);
                }
                if f == 0 || f == 2 {
                    let k = 4 + f / 2;
                    for (w, t) in [("stream-safe then normalized", want1), ("normalized then stream-safe", want2), ("stream_safe().form()", &one), ("form().stream_safe()", &two)] {
                        let u = string(t);
                        o.eq_s(&format!("is_{} of text made {}", CHECKS[k], w), &r.s, &true, &full(k, &u));
                        o.truth(&format!("is_{}_quick denies text made {}", CHECKS[k], w), &r.s, quick(k, u.chars()) != 'N');
                    }
                }
            }
        }
        "C10" => check_hints(r, &s, o),
        "C12" => check_entries(r, &s, o),
        "C16" => {
            o.eq("cjk_compat_variants", &r.s, &r.v, &of_str("cjk", &s));
            o.eq("iter cjk_compat_variants", &r.s, &r.v, &of_iter("cjk", chars(&r.s).into_iter(), n));
            let per: Vec<u32> = s.chars().flat_map(|c| char_cjk(c)).collect();
            o.eq("decompose_cjk_compat_variants", &r.s, &r.v, &per);
            o.eq_s("cjk to_string", &r.s, &string(&r.v), &s.cjk_compat_variants().to_string());
            o.eq("cjk of cjk", &r.s, &r.v, &chain("cjk", "cjk", &s));
            // partial iteration
            let mut i = s.cjk_compat_variants();
            let mut got = codes(&i.by_ref().take(r.v.len() / 2).collect::<Vec<char>>());
            got.extend(drain(i, n));
            o.eq("cjk in two parts", &r.s, &r.v, &got);
            for f in 0..4 {
                let want = if r.cjk.is_empty() { &r.form[f] } else { &r.cjk[f] };
                let got = chain("cjk", FORMS[f], &s);
                if form_ok(f) {
                    o.eq(&format!("cjk_compat_variants().{}()", FORMS[f]), &r.s, want, &got);
                } else {
                    // the form is at fault by itself; what C16 says about the pairs must hold all the same
                    o.evals += 1;
                    if got != *want {
                        o.dispute("keep", FORMS[f], &r.s, &[&r.v, &of_str(FORMS[f], &s)], &got);
                    }
                }
            }
        }
        "C21" => check_total(r, &s, o),
        p => panic!("property {} has no replay", p),
    }
}

/// C10: size hints of adapters over long texts, against the number of items next() delivers.
fn check_hints(r: &Rec, s: &str, o: &mut Out) {
    use crate::adapt::{build, Hint, Src};
    if r.s.len() < 12 {
        return;
    }
    fn sound(o: &mut Out, what: &str, t: &[u32], h: (usize, Option<usize>), rest: usize) {
        o.truth(&format!("{}: size_hint {:?} with {} items to come", what, h, rest), t, h.0 <= rest && h.1.map_or(true, |x| x >= rest));
    }
    let chains: [&[&str]; 10] = [&["nfd"], &["nfkd"], &["nfc"], &["nfkc"], &["ss"], &["cjk"], &["ss", "nfc"], &["nfkd", "ss"], &["ss", "ss"], &["cjk", "nfkd"]];
    for ch in chains {
        for h in [Hint::Exact, Hint::Chars, Hint::Unknown] {
            let mut a = build(ch, Src::new(&r.s, &[], h));
            let mut hints = vec![(0, a.size_hint())];
            let mut n = 0;
            let every = 1 + r.s.len() / 8;
            while a.next().is_some() {
                n += 1;
                if n % every == 0 {
                    hints.push((n, a.size_hint()));
                }
                assert!(n < 40 * (r.s.len() + 2), "does not end");
            }
            hints.push((n, a.size_hint()));
            for (k, x) in hints {
                sound(o, &format!("{:?} ({:?} source)", ch, h), &r.s, x, n - k);
            }
            if h == Hint::Exact {
                let c = |a: Box<dyn crate::adapt::Adapter>| a.count();
                o.eq_s(&format!("{:?}: count", ch), &r.s, &n, &c(build(ch, Src::new(&r.s, &[], h))));
            }
        }
    }
    for op in ALL {
        let n = of_str(op, s).len();
        let h = match op {
            "nfd" => s.nfd().size_hint(),
            "nfkd" => s.nfkd().size_hint(),
            "nfc" => s.nfc().size_hint(),
            "nfkc" => s.nfkc().size_hint(),
            "ss" => s.stream_safe().size_hint(),
            _ => s.cjk_compat_variants().size_hint(),
        };
        sound(o, &format!("{} of a string", op), &r.s, h, n);
    }
}

fn check_entries(r: &Rec, s: &str, o: &mut Out) {
    let n = r.s.len();
    let v = chars(&r.s);
    for op in ALL {
        let want = of_str(op, s);
        let mut t = |w: &str, got: Vec<u32>| o.eq(&format!("{} {}", op, w), &r.s, &want, &got);
        t("of chars()", of_iter(op, s.chars(), n));
        t("constructor", of_ctor(op, s.chars(), n));
        t("constructor of a vector's iterator", of_ctor(op, v.clone().into_iter(), n));
        t("of copied slice", of_iter(op, v.iter().copied(), n));
        let b: Box<dyn Iterator<Item = char>> = Box::new(v.clone().into_iter());
        t("of a boxed iterator", of_iter(op, b, n));
        let mut it = s.chars();
        t("of an iterator by reference", of_iter(op, &mut it, n));
        t("of a filtered iterator", of_iter(op, v.iter().flat_map(|c| [Some(*c), None]).filter(|c| c.is_some()).map(|c| c.unwrap()), n));
        let rev: String = v.iter().rev().collect();
        t("of a reversed iterator", of_iter(op, rev.chars().rev(), n));
        t("of char_indices", of_iter(op, s.char_indices().map(|x| x.1), n));
        let m = n / 2;
        t("of two chained halves", of_iter(op, v[..m].iter().copied().chain(v[m..].iter().copied()), n));
        t("of peekable", of_iter(op, v.iter().copied().peekable(), n));
        let mut k = 0;
        t("of from_fn", of_iter(op, std::iter::from_fn(|| { k += 1; v.get(k - 1).copied() }), n));
        t("of owned pieces", of_iter(op, v.chunks(3).flat_map(|c| c.to_vec()), n));
        t("through UnicodeNormalization for generic str", generic_str(op, s));
        if n == 1 {
            t("of the character", of_char(op, v[0]));
        }
    }
    // the checks take iterators too, or strings
    for k in 0..6 {
        let want = quick(k, s.chars());
        let mut t = |w: &str, got: char| o.eq_s(&format!("is_{}_quick {}", CHECKS[k], w), &r.s, &want, &got);
        t("of a vector", quick(k, v.clone().into_iter()));
        let b: Box<dyn Iterator<Item = char>> = Box::new(v.clone().into_iter());
        t("of a boxed iterator", quick(k, b));
        let mut it = s.chars();
        t("by reference", quick(k, &mut it));
        t("of chained halves", quick(k, v[..n / 2].iter().copied().chain(v[n / 2..].iter().copied())));
    }
    // per-character functions and adapters agree
    if n <= 8 {
        for c in &v {
            let mut d = char_canonical(*c);
            let mut e = char_compatible(*c);
            if d.len() == 1 { o.eq("nfd of a character", &[*c as u32], &d, &of_char("nfd", *c)); }
            if e.len() == 1 { o.eq("nfkd of a character", &[*c as u32], &e, &of_char("nfkd", *c)); }
            let (mut x, mut y) = (of_char("nfd", *c), of_char("nfkd", *c));
            for l in [&mut d, &mut e, &mut x, &mut y] { l.sort(); }
            o.eq("nfd of a character (as a set)", &[*c as u32], &d, &x);
            o.eq("nfkd of a character (as a set)", &[*c as u32], &e, &y);
            o.eq("cjk of a character", &[*c as u32], &char_cjk(*c), &of_char("cjk", *c));
        }
    }
}

fn generic_str(op: &str, s: &str) -> Vec<u32> {
    fn go<I: Iterator<Item = char>, T: UnicodeNormalization<I>>(op: &str, t: T, n: usize) -> Vec<u32> {
        match op {
            "nfd" => drain(t.nfd(), n),
            "nfkd" => drain(t.nfkd(), n),
            "nfc" => drain(t.nfc(), n),
            "nfkc" => drain(t.nfkc(), n),
            "ss" => drain(t.stream_safe(), n),
            _ => drain(t.cjk_compat_variants(), n),
        }
    }
    go(op, s, s.len())
}

pub fn valid(t: &[u32]) -> bool {
    t.iter().all(|c| *c <= 0x10ffff && !(0xd800..0xe000).contains(c))
}

fn check_total(r: &Rec, s: &str, o: &mut Out) {
    let n = r.s.len();
    let f: Vec<Vec<u32>> = FORMS.iter().map(|f| of_str(f, s)).collect();
    let (ss, v) = (of_str("ss", s), of_str("cjk", s));
    for (k, t) in f.iter().chain([&ss, &v]).enumerate() {
        o.truth(&format!("{} yields an invalid character", ALL[k]), &r.s, valid(t));
        o.truth(&format!("{} of non-empty text is empty", ALL[k]), &r.s, t.is_empty() == (n == 0));
    }
    o.truth("canonical expansion above 4", &r.s, f[0].len() <= 4 * n && f[2].len() <= 4 * n);
    o.truth("compatibility expansion above 18", &r.s, f[1].len() <= 18 * n && f[3].len() <= 18 * n);
    o.truth("composed longer than decomposed", &r.s, f[2].len() <= f[0].len() && f[3].len() <= f[1].len());
    o.truth("stream_safe adds more than one per character", &r.s, ss.len() >= n && ss.len() <= 2 * n);
    o.truth("cjk adds more than one per character", &r.s, v.len() >= n && v.len() <= 2 * n);
    for k in 0..6 {
        full(k, s);
        quick(k, s.chars());
    }
    let e = everything(&r.s);
    o.truth("nothing to say", &r.s, !e.is_empty());
    for a in s.chars() {
        for b in s.chars().take(6) {
            if let Some(c) = uc::compose(a, b) {
                o.truth("compose yields an invalid character", &[a as u32, b as u32], valid(&[c as u32]));
            }
        }
    }
}

/// C20: texts meeting at normalization boundaries.
pub fn boundaries(recs: &[Rec], o: &mut Out, seed: u64, rounds: usize) -> (u64, u64) {
    let mut rng = Rng::new(seed);
    let (mut n, mut nt) = (0u64, 0u64);
    let mut starts: Vec<Vec<usize>> = vec![Vec::new(); 5];
    for (i, r) in recs.iter().enumerate() {
        for k in 0..5 {
            if r.bnd[k] && !r.s.is_empty() {
                starts[k].push(i);
            }
        }
    }
    let long: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].run > 20).collect();
    for k in 0..5 {
        if starts[k].is_empty() {
            continue;
        }
        let both: Vec<usize> = starts[k].iter().copied().filter(|i| recs[*i].bnd[4]).collect();
        for round in 0..rounds {
            let m = if round % 997 == 0 { if recs.iter().all(|r| r.s.len() < 3000) { 1500 } else { 12 } } else { 2 + rng.below(4) };
            let mut seg = vec![if rng.one_in(5) && !long.is_empty() { *rng.pick(&long) } else { rng.below(recs.len()) }];
            for _ in 1..m {
                let i = *rng.pick(&starts[k]);
                seg.push(i);
            }
            let safe = k == 4 || seg[1..].iter().all(|i| recs[*i].bnd[4]);
            if k < 4 && !both.is_empty() && !safe && rng.one_in(2) {
                for x in seg[1..].iter_mut() {
                    *x = *rng.pick(&both);
                }
            }
            let safe = seg[1..].iter().all(|i| recs[*i].bnd[4]);
            let text: Vec<u32> = seg.iter().flat_map(|i| recs[*i].s.iter().copied()).collect();
            let s = string(&text);
            o.now(&text);
            n += 1;
            let op = if k == 4 { "ss" } else { FORMS[k] };
            let r = crate::pool::guarded(|| {
                let want: Vec<u32> = seg.iter().flat_map(|i| of_str(op, &string(&recs[*i].s))).collect();
                let got = of_str(op, &s);
                (want, got)
            });
            match r {
                Ok((want, got)) => {
                    if want != text {
                        nt += 1;
                    }
                    o.eq(&format!("{} of {} texts meeting at boundaries", op, m), &text, &want, &got)
                }
                Err(e) => o.fail(&format!("{} panics: {}", op, e), &text, "", ""),
            }
            if k < 4 {
                let r = crate::pool::guarded(|| {
                    let is = seg.iter().all(|i| full(k, &string(&recs[*i].s)));
                    let qs: Vec<char> = seg.iter().map(|i| quick(k, string(&recs[*i].s).chars())).collect();
                    (is, full(k, &s), merge(&qs), quick(k, s.chars()))
                });
                if let Ok((a, b, c, d)) = r {
                    o.eq_s(&format!("is_{} of {} texts meeting at boundaries", FORMS[k], m), &text, &a, &b);
                    o.eq_s(&format!("is_{}_quick of {} texts meeting at boundaries", FORMS[k], m), &text, &c, &d);
                }
                if safe && k % 2 == 0 {
                    let j = 4 + k / 2;
                    let r = crate::pool::guarded(|| {
                        let is = seg.iter().all(|i| full(j, &string(&recs[*i].s)));
                        let qs: Vec<char> = seg.iter().map(|i| quick(j, string(&recs[*i].s).chars())).collect();
                        (is, full(j, &s), merge(&qs), quick(j, s.chars()))
                    });
                    if let Ok((a, b, c, d)) = r {
                        o.eq_s(&format!("is_{} of {} texts meeting at boundaries", CHECKS[j], m), &text, &a, &b);
                        o.eq_s(&format!("is_{}_quick of {} texts meeting at boundaries", CHECKS[j], m), &text, &c, &d);
                    }
                }
            }
        }
    }
    (n, nt)
}

fn merge(q: &[char]) -> char {
    if q.contains(&'N') {
        'N'
    } else if q.contains(&'M') {
        'M'
    } else {
        'Y'
    }
}

//! What a call answers after another call on a text that resembles its own (C17): the same as after a call on
//! a text that has nothing to do with it.
use crate::ops::*;
use crate::pool::{guarded, idle, Out};
use crate::replay::rec;
use crate::scan::Inert;
use crate::{finish, read_lines, Args, Total};
use unicode_normalization::char as uc;
use unicode_normalization::UnicodeNormalization;

const CALLS: usize = 28;
const MORE: usize = 33; // further ones that only come before: adapters dropped part-way

fn call(k: usize, s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut put = |x: u64| h = (h ^ x.wrapping_add(1)).wrapping_mul(0x100000001b3).rotate_left(7);
    let c = s.chars().next().unwrap_or('\0');
    match k {
        0..=5 => of_str(ALL[k], s).into_iter().for_each(|c| put(c as u64)),
        6..=11 => put(full(k - 6, s) as u64),
        12..=17 => put(quick(k - 12, s.chars()) as u64),
        18 => put(uc::canonical_combining_class(c) as u64),
        19 => put(uc::is_combining_mark(c) as u64),
        20 => put(uc::is_public_assigned(c) as u64),
        21 => uc::decompose_canonical(c, |d| put(d as u64)),
        22 => uc::decompose_compatible(c, |d| put(d as u64)),
        23 => uc::decompose_cjk_compat_variants(c, |d| put(d as u64)),
        24 => put(uc::compose(c, s.chars().last().unwrap_or('\0')).map(|c| c as u64).unwrap_or(0)),
        25 => put(uc::compose(s.chars().last().unwrap_or('\0'), c).map(|c| c as u64).unwrap_or(0)),
        26 => of_char("nfkc", c).into_iter().for_each(|c| put(c as u64)),
        27 => of_char("nfd", c).into_iter().for_each(|c| put(c as u64)),
        28 => put(s.nfd().next().map(|c| c as u64).unwrap_or(0)),
        29 => put(s.nfkc().next().map(|c| c as u64).unwrap_or(0)),
        30 => put(s.stream_safe().take(2).count() as u64),
        31 => put(s.cjk_compat_variants().next().map(|c| c as u64).unwrap_or(0)),
        _ => put(s.nfc().take(s.len() / 2).count() as u64),
    }
    h
}

pub fn cmd_after(a: Args) {
    let inert = Inert::load(a.get("active").unwrap());
    let (part, parts) = (a.num("part", 0) as u32, a.num("parts", 1) as u32);
    let share = a.num("share", 1);
    let mut rng = Rng::new(a.num("seed", 1) * 64 + part as u64);
    let mut o = Out::new("C17", 0);
    let neutral = ["z", "\u{20bb7}\u{4e00}z"];
    let (mut pairs, mut evals) = (0u64, 0u64);
    let mut pair = |t: &[u32], u: &[u32], rng: &mut Rng| {
        if o.total > 20 {
            return;
        }
        let (s, v) = (string(t), string(u));
        let n = neutral[rng.below(2)];
        pairs += 1;
        o.now(u);
        for f in 0..CALLS {
            let r = guarded(|| {
                call(f, n);
                let x = call(f, &v);
                for j in 0..3 {
                    let g = if j == 0 { f } else { rng.below(MORE) };
                    // what f last answered is not about v
                    call(f, n);
                    call(g, &s);
                    if call(f, &v) != x {
                        return Some(g);
                    }
                }
                None
            });
            evals += 3;
            match r {
                Ok(None) => {}
                Ok(Some(g)) => o.fail(&format!("call {} answers differently after call {} on another text", f, g), u, &format!("as after {:?}", n), &format!("after {:?}", t)),
                Err(e) => o.fail(&format!("call {}: {}", f, e), u, "", ""),
            }
        }
    };
    let scalar = |c: u32| char::from_u32(c).is_some();
    for c in (0..0x110000u32).filter(|c| scalar(*c) && c % parts == part) {
        if inert.has(c) || rng.below(share as usize) != 0 && (0xac00..0xd7a4).contains(&c) {
            continue;
        }
        let mut l = inert.like(c);
        if (0xac00..0xd7a4).contains(&c) {
            l.truncate(4);
        }
        l.extend((0..21).map(|b| c ^ (1 << b)).filter(|d| scalar(*d) && !inert.has(*d)));
        for d in l {
            if rng.below(share as usize) != 0 {
                continue;
            }
            pair(&[c], &[d], &mut rng);
            pair(&[d], &[c], &mut rng);
            let x = [0x61, 0x301, 0x1100, 0x41][rng.below(4)];
            pair(&[x, c], &[x, d], &mut rng);
            pair(&[d, x], &[c, x], &mut rng);
        }
    }
    for (i, l) in read_lines(&a.pos[1..]).iter().enumerate() {
        if i as u32 % parts != part {
            continue;
        }
        let t = rec(l).s;
        if t.is_empty() || t.len() > 14 {
            continue;
        }
        let mut u = t.clone();
        let k = rng.below(t.len());
        match rng.below(5) {
            0 => { u.pop(); }
            1 => u.push(t[k]),
            2 => u.swap(k, 0),
            3 => u.reverse(),
            _ => u[k] ^= 1 << rng.below(17),
        }
        if u[..] != t[..] && u.iter().all(|c| scalar(*c)) {
            pair(&t, &u, &mut rng);
            pair(&u, &t, &mut rng);
        }
    }
    idle(0);
    let t = Total { prop: "C17".into(), cases: pairs, nontrivial: pairs, evals, excused: 0, violations: o.total };
    finish(vec![t], o.viols, &a);
}

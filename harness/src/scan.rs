//! Frames (spec/Uniform.tla): what the specification says about a text with placeholders holds for every
//! character without properties of its own that may stand in them.  Fills frames with all of them.
use crate::json;
use crate::ops::{string, Rng};
use crate::pool::{guarded, idle, Out, Viol};
use crate::replay::{self, rec, Keep, Rec};
use crate::{finish, read_lines, threads, Args, Total};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub const X: u32 = 0xe000;
pub const Y: u32 = 0xe001;

pub struct Inert {
    plain: Vec<bool>,
}
impl Inert {
    pub fn load(file: &str) -> Inert {
        let mut plain: Vec<bool> = (0..0x110000u32).map(|c| char::from_u32(c).is_some() && !(0xac00..0xac00 + 11172).contains(&c)).collect();
        for c in json::parse(&std::fs::read(file).unwrap()).unwrap().text() {
            plain[c as usize] = false;
        }
        Inert { plain }
    }
    pub fn has(&self, c: u32) -> bool {
        self.plain.get(c as usize).copied().unwrap_or(false)
    }
    /// an inert character for the second placeholder: often one that resembles c
    pub fn other(&self, c: u32, rng: &mut Rng) -> u32 {
        for _ in 0..8 {
            let d = match rng.below(6) {
                0 => c,
                1 | 2 => c ^ (1 << rng.below(21)),
                3 => (c & 0xffff) | ((rng.below(17) as u32) << 16),
                4 => c + 1,
                _ => rng.below(0x110000) as u32,
            };
            if self.has(d) {
                return d;
            }
        }
        0x71
    }
    /// inert characters that resemble c
    pub fn like(&self, c: u32) -> Vec<u32> {
        let mut v: Vec<u32> = (0..21).map(|b| c ^ (1 << b)).chain((0..17).map(|p| (c & 0xffff) | (p << 16)))
            .chain([c + 1, c.wrapping_sub(1), c & 0xff, c & 0x7f, c & 0xfff, c & 0x3ff, c & 0x3fff, c.swap_bytes() >> 8]).collect();
        v.sort();
        v.dedup();
        v.retain(|d| *d != c && self.has(*d));
        v
    }
}

pub fn fill(t: &[u32], c: u32, d: u32) -> Vec<u32> {
    t.iter().map(|x| if *x == X { c } else if *x == Y { d } else { *x }).collect()
}

fn fill_rec(r: &Rec, c: u32, d: u32) -> Rec {
    let f = |t: &Vec<u32>| fill(t, c, d);
    Rec {
        s: f(&r.s),
        form: [f(&r.form[0]), f(&r.form[1]), f(&r.form[2]), f(&r.form[3])],
        ss: f(&r.ss),
        v: f(&r.v),
        quick: r.quick.clone(),
        full: r.full.clone(),
        bnd: r.bnd.clone(),
        run: r.run,
        safe: r.safe.iter().map(f).collect(),
        cjk: r.cjk.iter().map(f).collect(),
    }
}

/// the texts of some filled frames, for digests
pub fn texts(frames: &str, active: &str, count: usize, seed: u64) -> Vec<Vec<u32>> {
    let inert = Inert::load(active);
    let fr: Vec<Vec<u32>> = read_lines(&[frames.to_string()]).iter().map(|l| rec(l).s).collect();
    let mut rng = Rng::new(seed);
    (0..count)
        .map(|_| {
            let c = rng.below(0x110000) as u32;
            let c = inert.other(c, &mut rng);
            let d = inert.other(c, &mut rng);
            fill(rng.pick(&fr), c, d)
        })
        .collect()
}

/// scan --props P --frames F --likes L --active A [--per N]: every inert character in N frames of F; every frame
/// of L with all characters that resemble its active one (a sample of 1/--share of them)
pub fn cmd(a: Args) {
    let prop = a.get("props").unwrap().to_string();
    let inert = Inert::load(a.get("active").unwrap());
    let load = |k: &str| -> Vec<Rec> { a.get(k).map(|f| read_lines(&[f.to_string()]).iter().map(|l| rec(l)).collect()).unwrap_or_default() };
    let (frames, likes) = (load("frames"), load("likes"));
    let per = a.num("per", 1) as usize;
    let share = a.num("share", 1);
    let seed = a.num("seed", 1);
    let next = AtomicUsize::new(0);
    let blocks = if frames.is_empty() { 0 } else { 0x110000 / 1024 };
    let jobs = blocks + (likes.len() + 31) / 32;
    let all: Mutex<(Vec<Viol>, Vec<String>, Total)> =
        Mutex::new((vec![], vec![], Total { prop: prop.clone(), cases: 0, nontrivial: 0, evals: 0, excused: 0, violations: 0 }));
    std::thread::scope(|s| {
        for slot in 0..threads() {
            let (prop, inert, frames, likes, next, all) = (&prop, &inert, &frames, &likes, &next, &all);
            s.spawn(move || {
                let mut o = Out::new(prop, slot);
                let (mut cases, mut nt) = (0u64, 0u64);
                let mut keep = Keep::default();
                loop {
                    let j = next.fetch_add(1, Relaxed);
                    if j >= jobs {
                        break;
                    }
                    let mut rng = Rng::new(seed * 100_003 + j as u64);
                    let mut made: Vec<Rec> = Vec::new();
                    if j < blocks {
                        for c in (j as u32 * 1024)..(j as u32 * 1024 + 1024) {
                            // compared with itself: needs no record
                            if (prop == "C12" || prop == "C21") && char::from_u32(c).is_some() {
                                made.push(Rec { s: vec![c], form: Default::default(), ss: vec![], v: vec![], quick: vec!['-'; 6], full: vec![], bnd: vec![], run: 0, safe: vec![], cjk: vec![] });
                            }
                            if inert.has(c) {
                                for _ in 0..per {
                                    made.push(fill_rec(rng.pick(frames), c, inert.other(c, &mut rng)));
                                }
                            }
                        }
                    } else {
                        for r in likes.iter().skip((j - blocks) * 32).take(32) {
                            let act = *r.s.iter().find(|c| **c != X && **c != Y).unwrap_or(&0x61);
                            for c in inert.like(act) {
                                if rng.below(share as usize) == 0 {
                                    made.push(fill_rec(r, c, inert.other(if rng.one_in(2) { c } else { act }, &mut rng)));
                                }
                            }
                        }
                    }
                    if prop == "C20" {
                        if !made.is_empty() {
                            let m = made.len() / 4;
                            let (c, n) = replay::boundaries(&made, &mut o, seed * 77 + j as u64, m);
                            cases += c;
                            nt += n;
                        }
                        continue;
                    }
                    for r in &made {
                        o.now(&r.s);
                        cases += 1;
                        nt += replay::nontrivial(prop, r) as u64;
                        if prop == "C03" {
                            keep = Keep::default();
                        }
                        let _ = string(&r.s);
                        if let Err(e) = guarded(|| replay::check(prop, r, &mut o, &mut keep)) {
                            o.fail(&format!("panics: {}", e), &r.s, "", "");
                        }
                    }
                }
                idle(slot);
                let mut g = all.lock().unwrap();
                g.2.cases += cases;
                g.2.nontrivial += nt;
                g.2.evals += o.evals;
                g.2.excused += o.excused;
                g.2.violations += o.total;
                g.0.extend(o.viols);
                g.1.extend(o.disputes);
            });
        }
    });
    let (mut viols, mut disputes, total) = all.into_inner().unwrap();
    viols.sort_by_key(|v| v.input.len());
    disputes.sort_by_key(|d| d.len());
    if let Some(f) = a.get("disputes") {
        if !disputes.is_empty() {
            let l: Vec<String> = disputes.into_iter().take(400).collect();
            std::fs::write(f, l.join("\n") + "\n").unwrap();
        }
    }
    finish(vec![total], viols, &a);
}

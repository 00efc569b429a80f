//! Replays the specification's profiles: for a chain of adapters and a text, what every next() returns and
//! how far the source may have been read by then.
use crate::adapt::{build, Hint, Src};
use crate::json;
use crate::ops::{codes, string, Rng};
use crate::pool::{guarded, idle, Out, Viol};
use crate::{finish, read_lines, threads, Args, Total};
use std::sync::atomic::Ordering::Relaxed;

struct Prof {
    text: Vec<u32>,
    chains: Vec<(Vec<String>, Vec<(i64, usize, usize)>)>,
}

fn parse(line: &[u8]) -> Prof {
    let j = json::parse(line).expect("profile");
    let a = j.arr();
    Prof {
        text: a[0].text(),
        chains: a[1]
            .arr()
            .iter()
            .map(|x| {
                let names = x.arr()[0].arr().iter().map(|s| s.str().to_string()).collect();
                let steps = x.arr()[1].arr().iter().map(|t| (t.arr()[0].num(), t.arr()[1].num() as usize, t.arr()[2].num() as usize)).collect();
                (names, steps)
            })
            .collect(),
    }
}

const HINTS: [Hint; 3] = [Hint::Exact, Hint::Chars, Hint::Unknown];

fn c09(p: &Prof, o: &mut Out, rng: &mut Rng) {
    for (names, steps) in &p.chains {
        let ch: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        // the source goes on for ever behind the text: nothing may depend on its end
        let src = Src::new(&p.text, &[], *rng.pick(&HINTS));
        let st = src.stats.clone();
        let mut a = build(&ch, src);
        let _ = a.size_hint();
        o.eq_s(&format!("{:?}: reads on construction", ch), &p.text, &0, &st.reads.load(Relaxed));
        let mut k = 0;
        let skipping = rng.one_in(3);
        while k < steps.len() {
            let j = if skipping { rng.below(4).min(steps.len() - 1 - k) } else { 0 };
            let r = match rng.below(8) {
                0 if j > 0 => a.nth(j),
                1 if j > 0 => {
                    a.take(j);
                    a.next()
                }
                _ => {
                    for _ in 0..j {
                        a.next();
                    }
                    a.next()
                }
            };
            k += j;
            let (want, reads, ends) = steps[k];
            if r.map(|c| c as i64).unwrap_or(-1) != want {
                o.excused += 1; // another property's business
                break;
            }
            let _ = a.size_hint();
            let got = (st.reads.load(Relaxed), st.ends.load(Relaxed));
            o.evals += 1;
            if got.0 > reads || got.1 > ends {
                o.fail(&format!("{:?}: characters read and ends seen when item {} is delivered", ch, k), &p.text,
                    &format!("at most {:?}", (reads, ends)), &format!("{:?}", got));
            }
            k += 1;
        }
    }
}

/// the items an adapter yields to plain next() calls: the reference the other ways are compared with
fn plain(ch: &[&str], text: &[u32]) -> Vec<char> {
    let mut a = build(ch, Src::new(text, &[], Hint::Exact));
    let mut v = Vec::new();
    let cap = (text.len() + 2) * 40;
    while let Some(c) = a.next() {
        v.push(c);
        assert!(v.len() < cap, "does not end: {} items for {} characters", cap, text.len());
    }
    v
}

fn sound(h: (usize, Option<usize>), rest: usize) -> bool {
    h.0 <= rest && h.1.map_or(true, |x| x >= rest)
}

fn c10(p: &Prof, o: &mut Out, rng: &mut Rng) {
    for (names, _) in &p.chains {
        let ch: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let want = plain(&ch, &p.text);
        let n = want.len();
        let nf = ch.iter().any(|a| a.starts_with("nf"));
        let fresh = |h: Hint| build(&ch, Src::new(&p.text, &[], h));
        let t = &p.text;
        let cs = |v: &[char]| codes(v);
        // hints at every point, and the end stays the end
        for h in HINTS {
            let src = Src::new(t, &[], h);
            let st = src.stats.clone();
            let mut a = build(&ch, src);
            for i in 0..=n {
                let x = a.size_hint();
                o.eq_s(&format!("{:?}: size_hint {:?} sound with {} items to come ({:?})", ch, x, n - i, h), t, &true, &sound(x, n - i));
                let r = a.next();
                o.eq_s(&format!("{:?}: item {}", ch, i), t, &want.get(i).copied(), &r);
            }
            for k in 0..3 {
                o.eq_s(&format!("{:?}: next() after the end", ch), t, &None, &a.next());
                let x = a.size_hint();
                o.eq_s(&format!("{:?}: size_hint {:?} after the end ({})", ch, x, k), t, &true, &sound(x, 0));
            }
            o.eq_s(&format!("{:?}: nth() after the end", ch), t, &None, &a.nth(1));
            if nf {
                o.eq_s(&format!("{:?}: polls after the end", ch), t, &1, &st.ends.load(Relaxed));
            }
        }
        // a source that goes on after its end
        if nf {
            let src = Src::new(t, &[0x62, 0x301, 0x323, 0x1100], Hint::Unknown);
            let st = src.stats.clone();
            let mut a = build(&ch, src);
            let mut got = Vec::new();
            while let Some(c) = a.next() {
                got.push(c);
                if got.len() > n + 10 {
                    break;
                }
            }
            // an inner adapter of another kind may be polled on by its own rules; the source only once
            o.eq(&format!("{:?}: source that resumes", ch), t, &cs(&want), &cs(&got));
            for _ in 0..3 {
                o.eq_s(&format!("{:?}: next() after the end of a source that resumes", ch), t, &None, &a.next());
            }
            o.eq_s(&format!("{:?}: polls after the end of a source that resumes", ch), t, &1, &st.ends.load(Relaxed));
        }
        // other ways to consume, from a random point
        for way in 0..28 {
            let k = rng.below(n + 1);
            let mut a = fresh(*rng.pick(&HINTS));
            let mut got: Vec<char> = match rng.below(3) {
                0 => a.take(k),
                1 => (0..k).map(|_| a.next().unwrap_or('\u{FFFF}')).collect(),
                _ => if k > 0 { a.try_fold_stop(k) } else { vec![] },
            };
            let rest = &want[k..];
            let w = |s: &str| format!("{:?}: {} after {} items", ch, s, k);
            match way {
                0 => { got.extend(a.fold()); o.eq(&w("fold"), t, &cs(&want), &cs(&got)); }
                1 => { got.extend(a.collect().chars()); o.eq(&w("collect"), t, &cs(&want), &cs(&got)); }
                2 => { got.extend(a.for_each()); o.eq(&w("for_each"), t, &cs(&want), &cs(&got)); }
                3 => { o.eq_s(&w("count"), t, &rest.len(), &a.count()); }
                4 => { o.eq_s(&w("last"), t, &rest.last().copied(), &a.last()); }
                5 => {
                    let s = 1 + rng.below(4);
                    o.eq(&w("step_by"), t, &cs(&rest.iter().copied().step_by(s).collect::<Vec<_>>()), &cs(&a.step_by(s)));
                }
                6 => {
                    let s = rng.below(rest.len() + 2);
                    o.eq(&w("skip"), t, &cs(&rest.iter().copied().skip(s).collect::<Vec<_>>()), &cs(&a.skip(s)));
                }
                7 => {
                    if rng.one_in(4) {
                        let mut b = fresh(*rng.pick(&HINTS));
                        o.eq_s(&w("nth(usize::MAX)"), t, &None, &b.nth(usize::MAX));
                        o.eq_s(&w("next after nth(usize::MAX)"), t, &None, &b.next());
                    }
                    let (x, v) = a.peek();
                    o.eq_s(&w("peek"), t, &rest.first().copied(), &x);
                    o.eq(&w("collect of peekable"), t, &cs(rest), &cs(&v));
                }
                8 => {
                    let mut i = rest.iter().copied();
                    loop {
                        let s = rng.below(4);
                        let x = i.nth(s);
                        o.eq_s(&w("nth"), t, &x, &a.nth(s));
                        if x.is_none() {
                            o.eq_s(&w("next after nth beyond the end"), t, &None, &a.next());
                            let x = a.size_hint();
                            o.eq_s(&w("size_hint sound after nth beyond the end"), t, &true, &sound(x, 0));
                            break;
                        }
                        if rng.one_in(3) {
                            o.eq_s(&w("next after nth"), t, &i.next(), &a.next());
                        }
                    }
                }
                9 => {
                    if let Some(c) = rest.get(rng.below(rest.len().max(1))) {
                        let mut i = rest.iter().copied();
                        o.eq_s(&w("find"), t, &i.find(|x| x == c), &a.find(*c));
                        o.eq(&w("fold after find"), t, &cs(&i.collect::<Vec<_>>()), &cs(&a.fold()));
                    }
                }
                10 => {
                    let c = rest.get(rng.below(rest.len().max(1))).copied().unwrap_or('a');
                    let mut i = rest.iter().copied();
                    o.eq_s(&w("all"), t, &i.all(|x| x < c), &a.all_below(c));
                    o.eq(&w("fold after all"), t, &cs(&i.collect::<Vec<_>>()), &cs(&a.fold()));
                }
                11 => { o.eq_s(&w("extend"), t, &rest.iter().collect::<String>(), &a.extend()); }
                12 => { o.eq_s(&w("enumerate/max"), t, &rest.iter().copied().enumerate().max_by_key(|x| (x.1, x.0)), &a.enumerate_max()); }
                13 => {
                    let c = rest.get(rng.below(rest.len().max(1))).copied().unwrap_or('a');
                    let mut i = rest.iter().copied();
                    o.eq_s(&w("any"), t, &i.any(|x| x == c), &a.any(c));
                    o.eq(&w("vec after any"), t, &cs(&i.collect::<Vec<_>>()), &cs(&a.vec()));
                }
                14 => {
                    let c = rest.get(rng.below(rest.len().max(1))).copied().unwrap_or('a');
                    let mut i = rest.iter().copied();
                    o.eq_s(&w("position"), t, &i.position(|x| x == c), &a.position(c));
                    o.eq(&w("vec after position"), t, &cs(&i.collect::<Vec<_>>()), &cs(&a.vec()));
                }
                15 => {
                    let c = rest.get(rng.below(rest.len().max(1))).copied().unwrap_or('a');
                    let mut i = rest.iter().copied();
                    o.eq_s(&w("find_map"), t, &i.find(|x| *x == c).map(|x| x as u32), &a.find_map(c));
                    o.eq(&w("fused after find_map"), t, &cs(&i.collect::<Vec<_>>()), &cs(&a.fuse()));
                }
                16 => { o.eq_s(&w("max"), t, &rest.iter().copied().max(), &a.max()); }
                17 => { o.eq_s(&w("min"), t, &rest.iter().copied().min(), &a.min()); }
                18 => { o.eq_s(&w("eq"), t, &true, &a.eq(rest)); }
                19 => {
                    let mut v = rest.to_vec();
                    if rng.one_in(2) { v.pop(); }
                    o.eq_s(&w("cmp"), t, &rest.cmp(&v[..]), &a.cmp(&v));
                }
                20 => {
                    let c = rest.get(rng.below(rest.len().max(1))).copied().unwrap_or('a');
                    o.eq_s(&w("partition"), t, &rest.iter().copied().partition::<Vec<char>, _>(|x| *x < c), &a.partition(c));
                }
                21 => { o.eq_s(&w("reduce"), t, &rest.iter().copied().reduce(|a, b| if (b as u32) % 7 < (a as u32) % 7 { b } else { a }), &a.reduce()); }
                22 => { o.eq_s(&w("max_by_key"), t, &rest.iter().copied().max_by_key(|x| (*x as u32) % 5), &a.max_by_key()); }
                23 => {
                    let c = rest.get(rng.below(rest.len().max(1))).copied().unwrap_or('a');
                    o.eq(&w("skip_while"), t, &cs(&rest.iter().copied().skip_while(|x| *x != c).collect::<Vec<_>>()), &cs(&a.skip_while(c)));
                }
                24 => {
                    let c = rest.get(rng.below(rest.len().max(1))).copied().unwrap_or('a');
                    o.eq(&w("take_while"), t, &cs(&rest.iter().copied().take_while(|x| *x != c).collect::<Vec<_>>()), &cs(&a.take_while(c)));
                }
                25 => { o.eq_s(&w("zip"), t, &rest.iter().copied().zip(0..).collect::<Vec<(char, usize)>>(), &a.zip()); }
                26 => { got.extend(a.chain(&['x', 'y'])); o.eq(&w("chain"), t, &cs(&[&want[..], &['x', 'y']].concat()), &cs(&got)); }
                _ => {
                    while got.len() < n {
                        let m = 1 + rng.below(3);
                        let v = a.take(m);
                        let stop = v.is_empty();
                        got.extend(v);
                        if stop { break; }
                    }
                    o.eq(&w("take by reference"), t, &cs(&want), &cs(&got));
                    o.eq_s(&w("end"), t, &None, &a.next());
                }
            }
        }
    }
}

fn c11(p: &Prof, o: &mut Out, rng: &mut Rng) {
    for (names, _) in &p.chains {
        let ch: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let mut a = build(&ch, Src::new(&p.text, &[], *rng.pick(&HINTS)));
        if a.try_clone().is_none() {
            continue;
        }
        let want = plain(&ch, &p.text);
        let n = want.len();
        let t = &p.text;
        for i in 0..=n + 1 {
            let rest = &want[i.min(n)..];
            let w = |s: &str| format!("{:?}: {} after {} items", ch, s, i);
            let shown: String = rest.iter().collect();
            if rng.one_in(2) {
                o.eq_s(&w("Display"), t, &shown, &a.display().unwrap());
            }
            if rng.one_in(3) {
                let how = rng.below(crate::adapt::HOWS);
                o.eq_s(&w(&format!("Display (with flags {})", how)), t, &shown, &a.display_as(how));
            }
            if rng.one_in(3) {
                // a sink that refuses: the failure is reported, what was printed is the beginning
                let room = rng.below(rest.len() + 2);
                let took: String = rest.iter().take(room).collect();
                o.eq_s(&w(&format!("Display into a sink with room for {}", room)), t, &(room >= rest.len(), took), &a.display_until(room));
            }
            if rng.one_in(3) {
                let k = rng.below(4);
                o.eq(&w("a copy assigned by clone_from"), t, &codes(rest), &codes(&a.assign(k).unwrap().fold()));
            }
            let mut b = a.try_clone().unwrap();
            o.eq_s(&w("size_hint of the clone"), t, &a.size_hint(), &b.size_hint());
            match rng.below(4) {
                0 => o.eq(&w("the clone"), t, &codes(rest), &codes(&b.fold())),
                1 => o.eq_s(&w("Display of the clone"), t, &shown, &b.display().unwrap()),
                2 => {
                    // the clone runs ahead, is cloned and printed itself
                    let k = rng.below(rest.len() + 1);
                    o.eq(&w("the clone's first items"), t, &codes(&rest[..k]), &codes(&b.take(k)));
                    let c = b.try_clone().unwrap();
                    o.eq_s(&w("Display of the advanced clone"), t, &rest[k..].iter().collect::<String>(), &b.display().unwrap());
                    o.eq(&w("the clone's clone"), t, &codes(&rest[k..]), &codes(&c.fold()));
                    o.eq(&w("the advanced clone"), t, &codes(&rest[k..]), &codes(&b.fold()));
                }
                _ => {
                    // go on with the clone, finish the original
                    o.eq(&w("the original after cloning"), t, &codes(rest), &codes(&a.fold()));
                    a = b;
                }
            }
            if rng.one_in(2) {
                o.eq_s(&w("Display after using the clone"), t, &shown, &a.display().unwrap());
            }
            o.eq_s(&w("next() after cloning and printing"), t, &rest.first().copied(), &a.next());
        }
    }
}

fn fill(p: &Prof, c: u32, d: u32) -> Prof {
    let f = |x: i64| if x == crate::scan::X as i64 { c as i64 } else if x == crate::scan::Y as i64 { d as i64 } else { x };
    Prof {
        text: crate::scan::fill(&p.text, c, d),
        chains: p.chains.iter().map(|(n, v)| (n.clone(), v.iter().map(|s| (f(s.0), s.1, s.2)).collect())).collect(),
    }
}

/// profile --frames F --active A --step N: profiles of frames, filled with every N-th inert character; each with one chain
fn framed(a: &Args, p: &str, n: usize, seed: u64) -> Vec<(Out, u64, u64)> {
    let f = match p { "C09" => c09, "C10" => c10, _ => c11 };
    let inert = crate::scan::Inert::load(a.get("active").unwrap());
    let profs: Vec<Prof> = read_lines(&[a.get("frames").unwrap().to_string()]).iter().map(|l| parse(l)).collect();
    let step = a.num("step", 1) as usize;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (inert, profs) = (&inert, &profs);
                s.spawn(move || {
                    let mut o = Out::new(p, k);
                    let mut rng = Rng::new(seed * 8192 + k as u64);
                    let (mut cases, mut nt) = (0, 0);
                    for c in (k * step..0x110000).step_by(n * step) {
                        let c = (c + rng.below(step)) as u32;
                        if !inert.has(c) {
                            continue;
                        }
                        let d = inert.other(c, &mut rng);
                        let q = rng.pick(profs);
                        let one = Prof { text: q.text.clone(), chains: vec![{ let x = rng.pick(&q.chains); (x.0.clone(), x.1.clone()) }] };
                        let q = fill(&one, c, d);
                        o.now(&q.text);
                        cases += 1;
                        nt += 1;
                        if let Err(e) = guarded(|| f(&q, &mut o, &mut rng)) {
                            o.fail(&format!("panics: {}", e), &q.text, "", "");
                        }
                    }
                    idle(k);
                    (o, cases, nt)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    })
}

pub fn cmd(a: Args) {
    let props: Vec<String> = a.get("props").unwrap().split(',').map(|s| s.to_string()).collect();
    let seed = a.num("seed", 1);
    let lines = read_lines(&a.pos[1..]);
    let n = threads();
    let size = (lines.len() + n - 1) / n;
    let mut totals = Vec::new();
    let mut viols: Vec<Viol> = Vec::new();
    for p in &props {
        let f = match p.as_str() {
            "C09" => c09,
            "C10" => c10,
            "C11" => c11,
            _ => panic!("property {} has no profile replay", p),
        };
        let res: Vec<(Out, u64, u64)> = if a.get("frames").is_some() { framed(&a, p, n, seed) } else { std::thread::scope(|s| {
            let hs: Vec<_> = lines
                .chunks(size.max(1))
                .enumerate()
                .map(|(k, ch)| {
                    s.spawn(move || {
                        let mut o = Out::new(p, k);
                        let mut rng = Rng::new(seed * 4096 + k as u64);
                        let (mut c, mut nt) = (0, 0);
                        for l in ch {
                            let pr = parse(l);
                            o.now(&pr.text);
                            c += pr.chains.len() as u64;
                            nt += pr.chains.iter().filter(|x| {
                                x.1.len() != pr.text.len() + 1 || x.1.iter().zip(&pr.text).any(|(s, t)| s.0 != *t as i64 || s.1 == 0)
                                    || x.1.iter().enumerate().any(|(i, s)| s.1 > i + 1)
                            }).count() as u64;
                            let _ = string(&pr.text);
                            if let Err(e) = guarded(|| f(&pr, &mut o, &mut rng)) {
                                o.fail(&format!("panics: {}", e), &pr.text, "", "");
                            }
                        }
                        idle(k);
                        (o, c, nt)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        }) };
        let mut t = Total { prop: p.clone(), cases: 0, nontrivial: 0, evals: 0, excused: 0, violations: 0 };
        for (o, c, nt) in res {
            t.cases += c;
            t.nontrivial += nt;
            t.evals += o.evals;
            t.excused += o.excused;
            t.violations += o.total;
            viols.extend(o.viols);
        }
        totals.push(t);
    }
    viols.sort_by_key(|v| v.input.len());
    finish(totals, viols, &a);
}

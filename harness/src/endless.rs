//! C22: adapters over sources that never end.  The specification's profiles say what the first calls return and what
//! may have been read; after that only what must hold for ever is watched: every call returns, and memory does not grow.
use crate::adapt::{build, Adapter, Hint, Src, Tail, CLONED};
use crate::json;
use crate::memory;
use crate::ops::{codes, Rng};
use crate::pool::{guarded, idle, Out, Viol};
use crate::{finish, read_lines, threads, Args, Total};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

struct Prof {
    lead: Vec<u32>,
    per: Vec<u32>,
    run: usize,
    chains: Vec<(Vec<String>, Vec<(u32, usize)>)>,
}

fn parse(line: &[u8]) -> Prof {
    let j = json::parse(line).expect("profile");
    let a = j.arr();
    Prof {
        lead: a[0].text(),
        per: a[1].text(),
        run: a[2].num() as usize,
        chains: a[3]
            .arr()
            .iter()
            .map(|x| {
                let names = x.arr()[0].arr().iter().map(|s| s.str().to_string()).collect();
                (names, x.arr()[1].arr().iter().map(|t| (t.arr()[0].num() as u32, t.arr()[1].num() as usize)).collect())
            })
            .collect(),
    }
}

fn text_of(p: &Prof) -> Vec<u32> {
    [&p.lead[..], &p.per[..]].concat()
}

struct Live {
    a: Box<dyn Adapter>,
    since: Arc<AtomicUsize>,
}
impl Live {
    fn new(ch: &[&str], src: Src) -> Live {
        let since = src.since.clone();
        Live { a: build(ch, src), since }
    }
    fn next(&mut self) -> Option<char> {
        self.since.store(0, Relaxed);
        self.a.next()
    }
}

/// the items the same adapter yields on the text cut off (well after everything that can matter)
fn cut_off(ch: &[&str], text: &[u32]) -> Vec<char> {
    let mut a = build(ch, Src::new(text, &[], Hint::Exact));
    let mut v = Vec::new();
    let cap = (text.len() + 2) * 40;
    while let Some(c) = a.next() {
        v.push(c);
        assert!(v.len() < cap, "does not end");
    }
    v
}

fn first_calls(p: &Prof, o: &mut Out, rng: &mut Rng) {
    let t = text_of(p);
    let src = || Src::endless(&t, Tail::Again(p.lead.len()));
    for (names, steps) in &p.chains {
        let ch: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let n = steps.len();
        let want: Vec<u32> = steps.iter().map(|s| s.0).collect();
        let text: Vec<u32> = (0..steps[n - 1].1 + 2 * p.per.len() + 40)
            .map(|i| if i < p.lead.len() { p.lead[i] } else { p.per[(i - p.lead.len()) % p.per.len()] })
            .collect();
        let w = |s: &str| format!("{:?} on an endless source: {}", ch, s);
        // every call returns, with the item of the text cut off later, whatever the hint is asked
        let mut l = Live::new(&ch, src());
        let mut got = Vec::new();
        for k in 0..n {
            let h = l.a.size_hint();
            o.eq_s(&w("upper bound of the number of items to come"), &t, &None, &h.1);
            match l.next() {
                Some(c) => got.push(c as u32),
                None => {
                    o.fail(&w("reports an end"), &t, "an item", &format!("None at call {}", k));
                    break;
                }
            }
        }
        o.evals += 1;
        if got != want {
            let mut r = codes(&cut_off(&ch, &text));
            r.truncate(n);
            if got != r {
                o.fail(&w("the first items"), &t, &json::text(&r), &json::text(&got));
                continue;
            }
            o.excused += 1; // wrong on finite texts as well: another property's business
        }
        // other ways of taking items
        let chars: Vec<char> = got.iter().map(|c| char::from_u32(*c).unwrap()).collect();
        let k = rng.below(n);
        match rng.below(6) {
            0 => {
                let mut l = Live::new(&ch, src());
                o.eq(&w("take, twice"), &t, &got, &codes(&[l.a.take(k), l.a.take(n - k)].concat()));
            }
            1 => {
                let mut l = Live::new(&ch, src());
                o.eq_s(&w("nth"), &t, &Some(chars[k]), &l.a.nth(k));
            }
            2 => {
                let mut l = Live::new(&ch, src());
                let at = chars.iter().position(|c| *c == chars[k]);
                o.eq_s(&w("position"), &t, &at, &l.a.position(chars[k]));
                let at = at.unwrap() + 1;
                o.eq(&w("items after position"), &t, &got[at..], &codes(&l.a.take(n - at)));
            }
            3 => {
                let mut l = Live::new(&ch, src());
                o.eq_s(&w("find"), &t, &Some(chars[k]), &l.a.find(chars[k]));
            }
            4 => {
                let mut l = Live::new(&ch, src());
                o.eq(&w("try_fold"), &t, &got[..k + 1], &codes(&l.a.try_fold_stop(k + 1)));
            }
            _ => {
                let mut l = Live::new(&ch, src());
                for _ in 0..k {
                    l.next();
                }
                if let Some(mut b) = l.a.try_clone() {
                    CLONED.with(|c| c.borrow_mut().clear());
                    o.eq(&w("items of a clone"), &t, &got[k..], &codes(&b.take(n - k)));
                    o.eq(&w("items of the original after that"), &t, &got[k..], &codes(&l.a.take(n - k)));
                }
            }
        }
    }
}

/// bytes an adapter may hold: a generous multiple of what the specification holds, and room for constant buffers
fn allowed(run: usize) -> isize {
    (1 << 18) + 1024 * run as isize
}

fn for_long(what: &str, ch: &[&str], src: impl Fn() -> Src, run: usize, items: usize, t: &[u32], o: &mut Out) {
    let run = if ch[0] == "ss" { 32 } else { run };
    let w = |s: &str| format!("{:?} on {}: {}", ch, what, s);
    let mut left = Vec::new();
    for _ in 0..3 {
        let s = src();
        let base = memory::live();
        let mut l = Live::new(ch, s);
        for _ in 0..300 {
            if l.next().is_none() {
                o.fail(&w("reports an end"), t, "an item", "None");
                return;
            }
        }
        drop(l);
        left.push(memory::live() - base);
    }
    o.evals += 1;
    if left[2] > left[1] && left[1] > left[0] && left[2] > 0 {
        o.fail(&w("memory not given back when the adapter is dropped"), t, "none", &format!("{:?} bytes", left));
    }
    let s = src();
    memory::peak();
    let base = memory::live();
    let mut l = Live::new(ch, s);
    let mut most = [0, 0];
    for (k, n) in [items / 40, items].into_iter().enumerate() {
        for _ in 0..n {
            if l.next().is_none() {
                o.fail(&w("reports an end"), t, "an item", "None");
                return;
            }
        }
        most[k] = memory::peak() - base;
    }
    o.evals += 2;
    if most[0] > allowed(run) || most[1] > 2 * most[0] + 65536 {
        o.fail(&w("memory grows with the amount of input"), t, &format!("at most {} bytes, and no growth", allowed(run)),
            &format!("{} bytes after {} items, {} after {}", most[0], items / 40, most[1], items + items / 40));
    }
}

/// endless FILES --share N --items M: the first calls of every profile; every N-th one goes on for M items
pub fn cmd(a: Args) {
    let p = a.get("prop").unwrap_or("C22").to_string();
    let (seed, share, items) = (a.num("seed", 1), a.num("share", 20) as usize, a.num("items", 200_000) as usize);
    let n = threads();
    let profs: Vec<Prof> = read_lines(&a.pos[1..]).iter().map(|l| parse(l)).collect();
    // what endless random texts are made of: any pieces behind stream_safe(), pieces with a starter elsewhere
    let all = |f: &dyn Fn(&Prof) -> bool| -> Arc<Vec<Vec<char>>> {
        Arc::new(profs.iter().filter(|p| p.lead.is_empty() && f(p)).map(|p| p.per.iter().map(|c| char::from_u32(*c).unwrap()).collect()).collect())
    };
    let calm = all(&|p| p.chains.iter().any(|c| c.0 == ["nfkd"]));
    let marks = all(&|p| p.chains.iter().all(|c| c.0[0] != "nfd"));
    let any = all(&|_| true);
    let widest = profs.iter().map(|p| p.run).max().unwrap_or(0) * 3;
    let at = AtomicUsize::new(0);
    let res: Vec<(Out, u64)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (profs, p, at, calm, marks, any) = (&profs, &p, &at, &calm, &marks, &any);
                s.spawn(move || {
                    let mut o = Out::new(p, k);
                    let mut cases = 0;
                    loop {
                        let i = at.fetch_add(1, Relaxed);
                        if i >= profs.len() {
                            break;
                        }
                        let (q, mut rng) = (&profs[i], Rng::new(seed * 1_000_003 + i as u64));
                        let t = text_of(q);
                        o.now(&t);
                        cases += q.chains.len() as u64;
                        if let Err(e) = guarded(|| first_calls(q, &mut o, &mut rng)) {
                            o.fail(&format!("panics on an endless source: {}", e), &t, "", "");
                        }
                        if rng.one_in(share) {
                            let c = rng.pick(&q.chains).0.clone();
                            let ch: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
                            let r = guarded(|| for_long("an endless source", &ch, || Src::endless(&t, Tail::Again(q.lead.len())), q.run, items, &t, &mut o));
                            if let Err(e) = r {
                                o.fail(&format!("{:?} panics on an endless source: {}", ch, e), &t, "", "");
                            }
                        }
                        if rng.one_in(share) {
                            let c = rng.pick(&q.chains).0.clone();
                            let ch: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
                            let pieces = if ch[0] != "ss" { calm } else if rng.one_in(2) { marks } else { any };
                            let state = rng.next();
                            let src = || Src::endless(&q.lead, Tail::Random { pieces: pieces.clone(), state, piece: 0, at: 0 });
                            let text: Vec<u32> = src().take(4000).map(|c| c as u32).collect();
                            let r = guarded(|| {
                                let want = cut_off(&ch, &text);
                                let k = (want.len() / 2).min(1500);
                                let got = Live::new(&ch, src()).a.take(k);
                                o.eq(&format!("{:?} on an endless random source: the first items", ch), &text[..40], &codes(&want[..k]), &codes(&got));
                                for_long("an endless random source", &ch, src, widest, items, &text[..40], &mut o)
                            });
                            if let Err(e) = r {
                                o.fail(&format!("{:?} panics on an endless random source: {}", ch, e), &text[..40], "", "");
                            }
                        }
                    }
                    idle(k);
                    (o, cases)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    let mut t = Total { prop: p, cases: 0, nontrivial: 0, evals: 0, excused: 0, violations: 0 };
    let mut viols: Vec<Viol> = Vec::new();
    for (o, c) in res {
        t.cases += c;
        t.nontrivial += c;
        t.evals += o.evals;
        t.excused += o.excused;
        t.violations += o.total;
        viols.extend(o.viols);
    }
    viols.sort_by_key(|v| v.input.len());
    finish(vec![t], viols, &a);
}
